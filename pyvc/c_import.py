"""Contracts of the name resolution (paconvert/base.py) and of the import pass."""
import z3

from .c_tables import Tables
from .contracts import *
from .engine import *
from .values import *

BT = "paconvert.transformer.basic_transformer.BasicTransformer"
IT = "paconvert.transformer.import_transformer.ImportTransformer"
BASE = "paconvert.base.BaseTransformer"
FULL = z3.Function("full_attr", RefSort, STR)
DOT = z3.StringVal(".")


class Imports:
    """imports_map[file]: names -> full path (strings), and the sets of packages"""

    SETS = ("torch_packages", "may_torch_packages", "other_packages")

    def __init__(self, e):
        self.e = e
        self.names = e.sym_map("imports", "str")
        e.assume(z3.Not(z3.Select(self.names.present, z3.StringVal(NONE_KEY))))
        for k in self.SETS + ("api_alias_name_map",):
            e.assume(z3.Not(z3.Select(self.names.present, z3.StringVal(k))))
        self.sets = {k: e.sym_set(k) for k in self.SETS}
        for s in self.sets.values():
            e.assume(z3.Not(z3.Select(s.present, z3.StringVal(NONE_KEY))))
        self.alias = e.sym_map("api_alias_name_map", "str")
        o = self.file = e.new(VObj("imports of the file"))
        o.fields["__getitem__"] = self.item
        o.fields["__setitem__"] = self.store
        o.fields["__contains__"] = lambda e, k: self.has(k)
        o.fields["get"] = Native(self.get)
        m = self.map = e.new(VObj("imports_map"))
        m.fields["__getitem__"] = lambda e, k: o
        m.fields["get"] = Native(lambda e, a, k: o)

    def has(self, k):
        e = self.e
        kt = e.key_term(k)
        return z3.Or([z3.Select(self.names.present, kt)] + [kt == z3.StringVal(s) for s in self.SETS + ("api_alias_name_map",)])

    def special(self, k):
        """the package sets live in the same dict, under names like 'torch_packages'"""
        e = self.e
        k = e.resolve(k)
        if isinstance(k, str):
            return k if k in self.SETS + ("api_alias_name_map",) else None
        for s in self.SETS + ("api_alias_name_map",):
            if e.fork(e.key_term(k) == z3.StringVal(s)):
                return s
        return None

    def item(self, e, k):
        s = self.special(k)
        if s:
            return self.alias if s == "api_alias_name_map" else self.sets[s]
        return e.getitem(self.names, k)

    def get(self, e, a, k):
        s = self.special(a[0])
        if s:
            return self.alias if s == "api_alias_name_map" else self.sets[s]
        return e.call_meth(self.names, "get", a, k)

    def store(self, e, k, v):
        s = self.special(k)
        if s:
            raise Unsupported("the package sets are replaced")
        e.mutate(self.names, "set", k, v)


def transformer(e, cls=BT, **kw):
    im = Imports(e)
    tr = obj(e, cls, imports_map=im.map, file=e.fresh_val("file", "str"), file_name="f.py", logger=Ext("logger"), **kw)
    return tr, im


def head(t):
    return z3.If(z3.Contains(t, DOT), z3.SubString(t, 0, z3.IndexOf(t, DOT, 0)), t)


def tail(t):
    """the rest behind the first component, with its dot"""
    ix = z3.IndexOf(t, DOT, 0)
    return z3.If(z3.Contains(t, DOT), z3.SubString(t, ix, z3.Length(t) - ix), z3.StringVal(""))


def full_summary(e, s, a, k):
    n = e.resolve(a[0])
    if not isinstance(n, SRef):
        raise Unsupported("get_full_attr of %r" % (n,))
    return SStr(FULL(n.t))


def names_env(e):
    e.summaries[BASE + ".get_full_attr"] = full_summary


def special_head(t):
    return z3.Or([head(t) == z3.StringVal(s) for s in Imports.SETS + ("api_alias_name_map",)])


@contract(("C09", "C12"), BASE + ".get_full_attr", name="dotted name of an expression", setup=[no_logs, names_env])
def get_full_attr(e):
    tr, im = transformer(e)
    n = e.sym_node("node")
    r = run(e, method(e, BT, "get_full_attr"), [n], {}, tr)
    t = e.unwrap(e.resolve(r), "str")
    val, attr, id_ = [z3.Select(e.heap_arr(f, s), n.t) for f, s in (("value", RefSort), ("attr", STR), ("id", STR))]
    k = kind_f(n.t)
    e.prove("an attribute is the name of its object, a dot and its name", z3.Implies(k == KNUM["Attribute"], t == z3.Concat(FULL(val), DOT, attr)))
    e.prove("a name is itself", z3.Implies(k == KNUM["Name"], t == id_))
    e.prove("nothing else has a dotted name", z3.Implies(z3.And(k != KNUM["Attribute"], k != KNUM["Name"]), t == z3.StringVal("None")))


def resolved(im, t):
    """the dotted name resolves through an import"""
    h = head(t)
    return z3.And(z3.Select(im.names.present, h), z3.Not(special_head(t)))


@contract(("C09",), BASE + ".get_torch_api_from_node", name="resolution of a dotted name", setup=[no_logs, names_env])
def from_node(e):
    tr, im = transformer(e)
    n = e.sym_node("node")
    t = FULL(n.t)
    e.assume(t != z3.StringVal(NONE_KEY))
    r = run(e, method(e, BT, "get_torch_api_from_node"), [n], {}, tr)
    r = e.resolve(r)
    if r is None:
        e.prove("a dotted name is not resolved only if its first component is not imported", z3.Not(resolved(im, t)), lambda m: m.eval(t, True))
        return
    e.prove("only a name whose first component is imported is resolved", resolved(im, t), lambda m: m.eval(t, True))
    e.prove("it becomes the full path of the import followed by the unchanged rest", e.unwrap(r, "str") == z3.Concat(z3.Select(im.names.val, head(t)), tail(t)), lambda m: m.eval(t, True))


@contract(("C09",), BASE + ".replace_torch_module", name="resolution of an attribute", setup=[no_logs, names_env])
def replace_module(e):
    tr, im = transformer(e)
    a = e.fresh_val("origin_attr", "str")
    e.assume(a.t != z3.StringVal(NONE_KEY))
    r = run(e, method(e, BT, "replace_torch_module"), [a], {}, tr)
    if not isinstance(r, VTuple) or len(r.items) != 2:
        raise Unsupported("result %r" % (r,))
    full, org = [e.unwrap(e.resolve(x), "str") for x in r.items]
    e.prove("the original name is kept", org == a.t)
    e.prove(
        "it becomes the full path of the import followed by the unchanged rest, or stays unchanged",
        full == z3.If(resolved(im, a.t), z3.Concat(z3.Select(im.names.val, head(a.t)), tail(a.t)), a.t),
        lambda m: m.eval(a.t, True),
    )


@contract(("C04", "C09"), BT + ".start_with_torch", name="names of recognised packages", setup=[no_logs])
def start_with_torch(e):
    tr, im = transformer(e)
    a = e.fresh_val("torch_api", "str")
    r = run(e, method(e, BT, "start_with_torch"), [a], {}, tr)
    b = e.truth(r)
    p = z3.FreshConst(STR, "p")
    want = z3.Exists([p], z3.And(z3.Select(im.sets["torch_packages"].present, p), z3.PrefixOf(z3.Concat(p, DOT), a.t)))
    e.prove("exactly the names which start with a recognised package and a dot", want if b else z3.Not(want), lambda m: m.eval(a.t, True))


@contract(("C04",), BASE + ".get_full_attr_strict", name="a file without recognised imports", setup=[no_logs, names_env])
def strict(e):
    """without a recognised package no expression is taken for a PyTorch class or API"""
    tr, im = transformer(e)
    n = e.sym_node("node")
    p = z3.FreshConst(STR, "p")
    e.assume(z3.ForAll([p], z3.Not(z3.Select(im.sets["torch_packages"].present, p))))
    r = run(e, method(e, BT, "get_full_attr_strict"), [n], {}, tr)
    e.prove("every expression is taken for something else", e.unwrap(e.resolve(r), "str") == z3.StringVal("NonTorchClass"))


# ------------------------------------------------------------------ the import pass: names
def api_env(e):
    names_env(e)
    RES = z3.Function("resolves", RefSort, BOOL)
    API = z3.Function("torch_api_of", RefSort, STR)

    def from_node(e, s, a, k):
        n = e.resolve(a[0])
        if e.fork(RES(n.t)):
            e.assume(API(n.t) != z3.StringVal(""))
            return SStr(API(n.t))
        return None

    e.summaries[BASE + ".get_torch_api_from_node"] = from_node
    e.summaries[BASE + ".in_min_mode"] = lambda e, s, a, k: SBool(z3.Function("min_mode_keeps", STR, BOOL)(e.unwrap(e.resolve(a[0]), "str")))

    def canon(e, s, a, k):
        return SRef(z3.Function("canonical_node", STR, RefSort)(e.unwrap(e.resolve(a[0]), "str")))

    e.summaries[IT + ".canonical_torch_api_node"] = canon
    e.summaries[BASE + ".get_full_attr_strict"] = lambda e, s, a, k: e.fresh_val("strict", "str")
    e.visited = []
    e.externs["ast.NodeTransformer.generic_visit"] = lambda e, a, k: a[1]


def name_pass(kind):
    def harness(e):
        tr, im = transformer(e, IT)
        stack = e.sym_list("node_stack")
        e.assume(stack.n >= 2)
        tr.fields["node_stack"] = stack
        added = []
        cp = e.new(VObj("change_prefix_api_map"))
        cp.fields["__getitem__"] = lambda e, i: e.new(VObj("set", add=Native(lambda e, a, k: added.append(a[0]))))
        tr.fields["change_prefix_api_map"] = cp
        n = e.sym_node("node", kind)
        p0 = im.alias.present
        r = run(e, method(e, IT, "visit_" + kind), [n], {}, tr)
        r = e.resolve(r)
        if not isinstance(r, SRef):
            e.prove("a name is never removed", False)
            return
        e.prove("a name is never removed", True)
        RES, API = z3.Function("resolves", RefSort, BOOL), z3.Function("torch_api_of", RefSort, STR)
        MIN = z3.Function("min_mode_keeps", STR, BOOL)
        CAN = z3.Function("canonical_node", STR, RefSort)
        same = r.t == n.t
        by_alias = lambda f: z3.BoolVal(False)
        if kind == "Name":
            nid = z3.Select(e.heap_arr("id", STR), n.t)
            by_alias = lambda f: z3.And(z3.Select(p0, nid), f(z3.Select(im.alias.val, nid)))
        e.prove(
            "a name is left unchanged or replaced by the full path it resolves to, never in min mode for prefix-only APIs",
            z3.Or(same, z3.And(RES(n.t), z3.Not(MIN(API(n.t))), r.t == CAN(API(n.t))), by_alias(lambda a: z3.And(z3.Not(MIN(a)), r.t == CAN(a)))),
        )
        if kind == "Attribute":
            e.prove("a dotted name which resolves is replaced, unless min mode keeps it", z3.Implies(z3.And(RES(n.t), z3.Not(MIN(API(n.t)))), r.t == CAN(API(n.t))))
        for x in added:
            a = e.unwrap(e.resolve(x), "str")
            e.prove("only kept prefix-only APIs are exempt from marking", z3.And(same, MIN(a)))
        if not added:
            e.prove("a name min mode keeps is recorded as exempt from marking", z3.Not(z3.And(RES(n.t), MIN(API(n.t)))) if kind == "Attribute" else z3.BoolVal(True))
        e.prove("the node itself is not modified", not any(x[0] == "setfield" for x in e.events))

    harness.__name__ = "visit_" + kind
    return contract(("C09", "C15"), IT + ".visit_" + kind, name="import pass: " + kind, setup=[no_logs, api_env], budget=90)(harness)


name_pass("Name")
name_pass("Attribute")


@contract(("C09",), IT + ".canonical_torch_api_node", name="full path of an API", setup=[no_logs])
def canonical_node(e):
    tr, im = transformer(e, IT)
    CAN = z3.Function("canonical", STR, STR)
    e.summaries[BASE + ".get_canonical_torch_api"] = lambda e, s, a, k: SStr(CAN(e.unwrap(e.resolve(a[0]), "str")))
    a = e.fresh_val("torch_api", "str")
    p0 = im.sets["torch_packages"].present
    r = run(e, method(e, IT, "canonical_torch_api_node"), [a], {}, tr)
    r = e.resolve(r)
    tf = z3.Function("text_of", RefSort, STR)
    e.prove("the expression is the text of the API the name stands for", tf(r.t) == CAN(a.t) if isinstance(r, SRef) else False)
    p = e.fresh("p", STR)
    e.prove("no recognised package is forgotten", z3.Implies(z3.Select(p0, p), z3.Select(im.sets["torch_packages"].present, p)))


# ------------------------------------------------------------------ the import pass: import statements
def packages():
    """the recognised packages, read from the tables of the tree under check"""
    from paconvert.global_var import GlobalManager as G

    return dict(torch=dict(G.TORCH_PACKAGE_MAPPING), may=list(G.MAY_TORCH_PACKAGE_LIST), all_=dict(G.IMPORT_PACKAGE_MAPPING))


def below(t, p):
    return z3.Or(t == z3.StringVal(p), z3.PrefixOf(z3.StringVal(p + "."), t))


EXISTS = z3.Function("os_path_exists", STR, BOOL)


class ImportState:
    def __init__(self, im):
        self.has, self.val = im.names.present, im.names.val
        self.sets = {k: im.sets[k].present for k in im.SETS}


def havoc_imports(e, im):
    m = im.names
    m.present, m.val = e.fresh("imports_has", m.present.sort()), e.fresh("imports_val", m.val.sort())
    for s in im.sets.values():
        s.items, s.present = None, e.fresh("packages", s.present.sort())


def same_state(s0, s1, k):
    return z3.And([z3.Select(s0.has, k) == z3.Select(s1.has, k), z3.Select(s0.val, k) == z3.Select(s1.val, k)] + [z3.Select(s0.sets[n], k) == z3.Select(s1.sets[n], k) for n in ("torch_packages", "may_torch_packages")])


def import_env(e):
    e.externs["os.path.exists"] = lambda e, a, k: SBool(EXISTS(e.unwrap(e.resolve(a[0]), "str")))
    e.externs["os.path.join"] = lambda e, a, k: SStr(z3.Function("in_dir", STR, STR)(e.unwrap(e.resolve(a[-1]), "str")))


class AliasStep(StepSpec):
    """one name of an import statement"""

    def __init__(self, e, node, im, spec, keeps, P=None):
        self.node, self.im, self.spec, self.keeps, self.P = node, im, spec, keeps, P
        self.lst = e.field_list(node, "names")
        self.kept = None

    def applies(self, e, l):
        return l is self.lst

    def allowed(self, e):
        return {id(self.im.names)} | {id(s) for s in self.im.sets.values()}

    def havoc(self, e):
        havoc_imports(e, self.im)

    def begin(self, e, i):
        self.s0 = ImportState(self.im)
        if self.P:
            split_name(e, "name", z3.Select(self.lst.arr, i), self.P)
        name, asn, has_as = alias_fields(e, z3.Select(self.lst.arr, i))
        for k in Imports.SETS + ("api_alias_name_map", NONE_KEY):
            # documented limitation: a name like 'torch_packages' clashes with the package sets
            e.assume(z3.And(name != z3.StringVal(k), z3.Or(asn != z3.StringVal(k), k == NONE_KEY)))
        e.assume(name != z3.StringVal(""))

    def step(self, e, i, appended):
        a = z3.Select(self.lst.arr, i)
        self.spec(e, a, self.s0, ImportState(self.im), appended)

    def after(self, e, l, names):
        if len(names) != 1 or self.keeps is None:
            return {}
        w = self.kept = e.sym_list("kept")
        j, j2 = z3.FreshConst(INT, "j"), e.fresh("j", INT)
        keep = lambda j: self.keeps(e, z3.Select(l.arr, j))
        # the list has an element if and only if some step appended one
        e.assume(z3.Implies(w.n > 0, z3.And(j2 >= 0, j2 < l.n, keep(j2))))
        e.assume(z3.Implies(w.n == 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < l.n), z3.Not(keep(j))), patterns=[z3.Select(l.arr, j)])))
        return {names[0]: w}


def split_name(e, field, a, P):
    """case distinction: the name is one of the packages, below one of them, or none of that"""
    t = e.simp(z3.Select(e.heap_arr(field, STR), a))
    ps = list(P["torch"]) + P["may"] + list(P["all_"])
    c = e.choose(2 * len(ps) + 1)
    if c == 2 * len(ps):
        for p in ps:
            e.assume_lit(t == z3.StringVal(p), False)
            e.assume_lit(z3.PrefixOf(z3.StringVal(p + "."), t), False)
        return
    p = ps[c // 2]
    new = z3.StringVal(p) if c % 2 else z3.Concat(z3.StringVal(p + "."), e.fresh("rest", STR))
    e.assume(t == new)
    e.heap[field] = z3.Store(e.heap_arr(field, STR), a, new)


def alias_fields(e, a):
    name = e.simp(z3.Select(e.heap_arr("name", STR), a))
    asn = e.simp(z3.Select(e.heap_arr("asname", STR), a))
    return name, asn, z3.And(asn != z3.StringVal(NONE_KEY), asn != z3.StringVal(""))


def bound_facts(e, s0, s1, k, pairs):
    """s1 is s0 with the (condition, name, value) pairs bound"""
    hit = z3.Or([z3.And(c, k == n) for c, n, v in pairs])
    val = z3.And([z3.Implies(z3.And(c, k == n), z3.And(z3.Select(s1.has, k), z3.Or([z3.And(c2, k == n2, z3.Select(s1.val, k) == v2) for c2, n2, v2 in pairs]))) for c, n, v in pairs])
    return z3.And(val, z3.Implies(z3.Not(hit), z3.And(z3.Select(s1.has, k) == z3.Select(s0.has, k), z3.Select(s1.val, k) == z3.Select(s0.val, k))))


def added_packages(s0, s1, k, name, P):
    out = []
    for f, pk in (("torch_packages", list(P["torch"])), ("may_torch_packages", P["may"])):
        hit = z3.Or([z3.And(k == z3.StringVal(p), below(name, p)) for p in pk])
        out.append(z3.Select(s1.sets[f], k) == z3.Or(z3.Select(s0.sets[f], k), hit))
    return z3.And(out)


def recognised(name, P):
    return z3.Or([below(name, p) for p in list(P["torch"]) + P["may"]])


def mapped_whole(name, P):
    return z3.And(z3.Not(recognised(name, P)), z3.Or([below(name, p) for p in P["all_"]]))


def import_transformer(e, file):
    tr, im = transformer(e, IT)
    tr.fields["file"] = file
    mode = e.fresh_val("mode", "str")
    tr.fields["mode"] = mode
    stack = e.sym_list("node_stack")
    e.assume(stack.n >= 2)
    tr.fields["node_stack"] = stack
    ip = e.new(VObj("insert_pass_node"))
    ip.fields["__contains__"] = lambda e, k: e.fresh("has_pass", BOOL)
    ip.fields["add"] = Native(lambda e, a, k: None)
    tr.fields["insert_pass_node"] = ip
    return tr, im, mode.t == z3.StringVal("min")


def only_pass_or_nothing(e, r):
    """the statement is removed: None, or 'pass' to keep the block valid"""
    if r is None:
        return z3.BoolVal(True)
    if isinstance(r, SRef):
        return kind_f(r.t) == KNUM["Pass"]
    return z3.BoolVal(False)


@contract(("C09", "C04", "C15"), IT + ".visit_Import", name="import statement", setup=[no_logs, import_env], budget=90)
def visit_import(e):
    P = packages()
    tr, im, ismin = import_transformer(e, "dir/file.py")
    # a module of the project of the same name goes first: it stays imported
    e.externs["os.path.exists"] = lambda e, a, k: False
    node = e.sym_node("node", "Import")
    e.assume(e.field_list(node, "names").n >= 1)

    def spec(e, a, s0, s1, appended):
        name, asn, has_as = alias_fields(e, a)
        got = [x for l in appended.values() for x in l]
        if len([l for l in appended.values() if l]) > 1:
            raise Unsupported("several lists of names")
        rec, whole = recognised(name, P), mapped_whole(name, P)
        kept = z3.BoolVal(len(got) == 1 and isinstance(got[0], SRef))
        if len(got) == 1 and isinstance(got[0], SRef):
            kept = got[0].t == a
        none = z3.BoolVal(not got)
        k = e.fresh("k", STR)
        info = lambda m: "import %s as %s" % (m.eval(name, True), m.eval(asn, True))
        other = z3.And(z3.Not(rec), z3.Not(whole))
        e.prove("a name of a package which is not recognised stays in the statement", z3.Implies(other, kept), info)
        e.prove("a package which is not recognised is not taken for one", z3.Implies(z3.Not(rec), same_state(s0, s1, k)), info)
        e.prove("a recognised import is removed in default mode and stays in min mode", z3.Implies(rec, z3.If(ismin, kept, none)), info)
        pairs = [(has_as, asn, name), (z3.Not(has_as), name, name)] + [(z3.And(z3.Not(has_as), below(name, p)), z3.StringVal(p), z3.StringVal(p)) for p in list(P["torch"]) + P["may"]]
        e.prove("the name it binds resolves to the full path", z3.Implies(rec, bound_facts(e, s0, s1, k, pairs)), info)
        e.prove("the package is recorded for its target package", z3.Implies(rec, added_packages(s0, s1, k, name, P)), info)
        if len(got) == 1 and isinstance(got[0], SRef):
            n1, as1, _ = alias_fields(e, got[0].t)
            e.prove("a package replaced as a whole binds the same name", z3.Implies(whole, z3.And([z3.Implies(below(name, p), z3.And(z3.If(has_as, as1 == asn, as1 == z3.StringVal(p)), z3.PrefixOf(z3.StringVal(q), n1))) for p, q in P["all_"].items()])), info)
        else:
            e.prove("a package replaced as a whole binds the same name", z3.Not(whole), info)

    sp = e.loop_spec = AliasStep(e, node, im, spec, lambda e, a: z3.Or(ismin, z3.Not(recognised(alias_fields(e, a)[0], P))), P)
    r = e.resolve(run(e, method(e, IT, "visit_Import"), [node], {}, tr))
    l = e.field_list(node, "names")
    if sp.kept is None:
        raise Unsupported("the names are not collected in a loop over the statement")
    if isinstance(r, SRef) and r.t.eq(node.t):
        e.prove("the statement keeps the names which stay", l.n == sp.kept.n)
        i = e.fresh("i", INT)
        e.prove("the statement keeps the names which stay", z3.Implies(z3.And(i >= 0, i < l.n), z3.Select(l.arr, i) == z3.Select(sp.kept.arr, i)))
        e.prove("a statement without names is not kept", l.n >= 1)
    else:
        e.prove("a statement is removed only if none of its names stays", z3.And(sp.kept.n == 0, only_pass_or_nothing(e, r)))


@contract(("C09", "C04", "C15"), [IT + ".visit_ImportFrom", IT + ".insert_other_packages"], name="from-import statement", setup=[no_logs, import_env], budget=90)
def visit_import_from(e):
    P = packages()
    tr, im, ismin = import_transformer(e, "dir/file.py")
    e.externs["os.path.exists"] = lambda e, a, k: False
    node = e.sym_node("node", "ImportFrom")
    split_name(e, "module", node.t, P)
    mod0 = e.simp(z3.Select(e.heap_arr("module", STR), node.t))
    level = z3.Select(e.heap_arr("level", INT), node.t)
    names = e.field_list(node, "names")
    n0, arr0 = names.n, names.arr
    e.assume(level >= 0)
    e.assume(z3.Implies(level == 0, z3.And(mod0 != z3.StringVal(NONE_KEY), mod0 != z3.StringVal(""))))
    rec, whole = z3.And(level == 0, recognised(mod0, P)), z3.And(level == 0, mapped_whole(mod0, P))
    info = lambda m: "from %s%s import ..." % ("." * m.eval(level, True).as_long(), m.eval(mod0, True))

    def spec(e, a, s0, s1, appended):
        name, asn, has_as = alias_fields(e, a)
        k = e.fresh("k", STR)
        full = z3.Concat(mod0, DOT, name)
        e.prove("the name it binds resolves to the full path", z3.Implies(rec, bound_facts(e, s0, s1, k, [(has_as, asn, full), (z3.Not(has_as), name, full)])), info)
        e.prove("a package which is not recognised is not taken for one", z3.Implies(z3.Not(rec), same_state(s0, s1, k)), info)

    before = ImportState(im)
    sp = e.loop_spec = AliasStep(e, node, im, spec, None)
    r = e.resolve(run(e, method(e, IT, "visit_ImportFrom"), [node], {}, tr))
    if isinstance(r, SRef) and r.t.eq(node.t):
        e.prove("a recognised import is removed in default mode and stays in min mode", z3.Implies(rec, ismin), info)
        l = e.field_list(node, "names")
        i = e.fresh("i", INT)
        e.prove("a statement which stays keeps all names", z3.And(l.n == n0, z3.Select(l.arr, i) == z3.Select(arr0, i)))
        mod1 = z3.Select(e.heap_arr("module", STR), node.t)
        lev1 = z3.Select(e.heap_arr("level", INT), node.t)
        e.prove("a statement which stays imports from the same package", z3.Implies(z3.Not(whole), z3.And(mod1 == mod0, lev1 == level)), info)
        for p, q in P["all_"].items():
            rest = z3.SubString(mod0, len(p), z3.Length(mod0) - len(p))
            e.prove("a package replaced as a whole keeps the rest of the path", z3.Implies(z3.And(whole, below(mod0, p)), z3.And(mod1 == z3.Concat(z3.StringVal(q), rest), lev1 == level)), info)
    else:
        e.prove("a recognised import is removed in default mode and stays in min mode", z3.And(rec, z3.Not(ismin), only_pass_or_nothing(e, r)), info)
