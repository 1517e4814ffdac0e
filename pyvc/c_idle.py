"""C04: without recognised imports every visitor returns the node it was given, unchanged, and
counts nothing; by induction over the tree the whole file is left alone."""
import json

import z3

from .c_import import IT, BASE, BT, Imports, names_env, packages
from .c_tables import tables
from .c_trans import CT, Stats
from .c_trans import transformer as counting
from .contracts import *
from .engine import *
from .values import *

MAPPED = z3.Function("is_mapped_call", STR, BOOL)
MAPPED_ATTR = z3.Function("is_mapped_attribute", STR, BOOL)


def empty_imports(e):
    """the imports of a file which imports no recognised package (contracts of the import pass)"""
    im = Imports(e)
    k = z3.FreshConst(STR, "k")
    e.assume(z3.ForAll([k], z3.Not(z3.Select(im.names.present, k)), patterns=[z3.Select(im.names.present, k)]))
    e.assume(z3.ForAll([k], z3.Not(z3.Select(im.alias.present, k)), patterns=[z3.Select(im.alias.present, k)]))
    for n in ("torch_packages", "may_torch_packages"):
        im.sets[n] = e.new(VSet([]))
    return im


def idle_env(e):
    names_env(e)
    S = e.summaries
    # contract of get_full_attr_strict for such a file (c_import)
    S[BASE + ".get_full_attr_strict"] = lambda e, s, a, k: "NonTorchClass"
    # contract of in_api_mapping (c_tables); ground: nothing maps that name
    for fn, f in (("in_api_mapping", MAPPED), ("in_attribute_mapping", MAPPED_ATTR)):
        def mapped(e, s, a, k, f=f):
            t = e.unwrap(e.resolve(a[0]), "str")
            e.assume(z3.Not(f(z3.StringVal("NonTorchClass"))))
            return SBool(f(t))

        S[BT + "." + fn] = mapped

    def touched(what):
        def f(e, s, a, k):
            e.prove("no line is inserted and nothing is counted", False)
            raise Unsupported(what)

        return f

    for fn in ("record_scope", "insert_multi_node"):
        S[BASE + "." + fn] = touched(fn)
    e.externs["ast.NodeTransformer.generic_visit"] = lambda e, a, k: a[1]
    S[BASE + ".visit"] = lambda e, s, a, k: a[0]
    e.class_attrs[("paconvert.transformer.custom_op_transformer", "AUTOGRAD_FUNC_NODES")] = lambda e: e.new(VDict({}))
    e.class_attrs[("paconvert.transformer.custom_op_transformer", "CPP_EXTENSION_LIST")] = lambda e: e.new(VList([]))


def idle(cls, fname, kind, extra=None):
    def harness(e):
        im = empty_imports(e)
        tr, s0 = counting(e, cls)
        tr.fields["imports_map"] = im.map
        if cls != BT and cls != IT:
            tr.fields["cpp_ext_import_names"] = e.new(VDict({}))
            tr.fields["cpp_ext_load_names"] = e.new(VList([]))
            tr.fields["autograd_func_import_names"] = e.new(VDict({}))
        if cls == IT:
            added = []
            cp = e.new(VObj("change_prefix_api_map"))
            cp.fields["__getitem__"] = lambda e, i: e.new(VObj("set", add=Native(lambda e, a, k: added.append(a[0]))))
            tr.fields["change_prefix_api_map"] = cp
        node = e.sym_node("node", kind)
        if extra:
            extra(e, node)
        ev = len(e.events)
        try:
            r = e.resolve(run(e, method(e, cls, fname), [node], {}, tr))
        except PyRaise:
            return  # aborted: bounded check, and C01
        e.prove("the node is kept", isinstance(r, SRef) and r.t == node.t)
        for x in e.events[ev:]:
            # a field may be assigned the value it has
            if x[0] != "setfield":
                raise Unsupported("event %r" % (x,))
            same_field(e, x)
        s1 = Stats(tr)
        k = e.fresh("api", STR)
        e.prove("no line is inserted and nothing is counted", z3.And(s1.T == s0.T, s1.S == s0.S, s1.U == s0.U, s1.A == s0.A, s1.cnt(k) == s0.cnt(k)))

    harness.__name__ = fname
    short = cls.rsplit(".", 1)[1]
    return contract(("C04",), cls + "." + fname, name="nothing to convert: %s.%s" % (short, fname), setup=[no_logs, idle_env], budget=60)(harness)


def same_field(e, x):
    _, r, field, v = x[:4]
    old = getattr(e, "old_heap", {})
    k = FIELDS.get(field)
    if k == "list":
        n = z3.Select(z3.Const("heap_" + field + ".n", z3.ArraySort(RefSort, INT)), r.t)
        arr = z3.Select(z3.Const("heap_" + field + ".el", z3.ArraySort(RefSort, z3.ArraySort(INT, RefSort))), r.t)
        l = e.field_list(r, field)
        i = e.fresh("i", INT)
        e.prove("the node is kept as it is", z3.And(e.length(l) == n, z3.Implies(z3.And(i >= 0, i < n), e.unwrap(e.elem_at(l, i), "ref") == z3.Select(arr, i))))
        return
    first = z3.Select(z3.Const("heap_" + field, z3.ArraySort(RefSort, SORTS[k])), r.t)
    e.prove("the node is kept as it is", e.unwrap(e.resolve(v), k) == first)


def has_value(e, node):
    v = z3.Select(e.heap_arr("value", RefSort), node.t)
    e.assume(z3.And(kind_f(v) >= 1, v != NULL))


def has_names(e, node):
    e.assume(e.field_list(node, "names").n >= 1)


for _f, _k in (("visit_Call", "Call"), ("visit_Attribute", "Attribute"), ("visit_Name", "Name"), ("visit_Expr", "Expr")):
    idle(BT, _f, _k, has_value if _f == "visit_Expr" else None)
for _f, _k in (("visit_Attribute", "Attribute"), ("visit_Name", "Name")):
    idle(IT, _f, _k)
for _f, _k in (("visit_Import", "Import"), ("visit_Assign", "Assign"), ("visit_Attribute", "Attribute")):
    idle(CT + "PreCustomOpTransformer", _f, _k, has_names if _f == "visit_Import" else None)
for _f, _k in (("visit_ImportFrom", "ImportFrom"), ("visit_ClassDef", "ClassDef"), ("visit_Attribute", "Attribute")):
    idle(CT + "CustomOpTransformer", _f, _k, has_names if _f == "visit_ImportFrom" else None)


@ground(("C04",), "the name of things that are not PyTorch is not mapped", "paconvert/*_mapping.json")
def g_non_torch():
    import re

    t = tables()
    n = "NonTorchClass"
    for k in ("api", "attr", "alias"):
        yield ("%s is mapped" % n, n) if n in t[k] else None
    for w in t["wild"]:
        yield ("%s matches the wildcard %s" % (n, w), n) if re.match(w, n) else None
