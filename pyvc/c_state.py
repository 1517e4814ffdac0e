"""Contracts of the state that survives a conversion in the process (C14).

The argument: (1) the inventory below lists every place of the package where a value
can stay from one conversion to the next; (2) each of them is either never written,
or set back by run() before the files are read, whatever it held (run, __init__ of
the helper object), or numbers names only (c_utils.py); (3) a new Converter and the
objects made for each file hold no other object than the ones they make or are given;
(4) the rules do not write to the tables (rulevc)."""
import ast
import os

import z3

from .c_conv import CV, TRANSFORMERS, converter, imports_map, opaque_map, run_env
from .c_files import Files
from .c_trans import any_str
from .contracts import *
from .engine import *
from .values import *
from vlib import common

CO = "paconvert.transformer.custom_op_transformer"


def externs_of_init(e):
    e.externs["logging.getLogger"] = lambda e, a, k: e.new(VObj("logger", addHandler=Native(lambda e, a, k: None), setLevel=Native(lambda e, a, k: None)))
    for n in ("StreamHandler", "FileHandler", "disable"):
        e.externs["logging." + n] = lambda e, a, k: None
    e.summaries["paconvert.utils.get_unique_name"] = any_str


def own(e, o, given, what, empty=False):
    """the fields of o hold immutable values, what was given, or objects made for o"""
    for n, v in sorted(o.fields.items()):
        v = e.resolve(v)
        if v is None or isinstance(v, (bool, int, float, str, SStr, SInt, SBool, SReal, SRef)) or any(v is g for g in given):
            continue
        if isinstance(v, VTuple) and all(x is None or isinstance(x, (bool, int, float, str, SStr, SInt, SBool)) for x in map(e.resolve, v.items)):
            continue
        if not isinstance(v, Mut) or any(v is g for g in e.globals.values()):
            raise Unsupported("field %s holds %r" % (n, v))
        e.prove("%s makes its own containers" % what, v.birth > o.birth)
        if not empty:
            continue
        if isinstance(v, VList):
            e.prove("%s starts with empty containers" % what, z3.BoolVal(not v.items) if v.items is not None else v.n == 0)
        elif isinstance(v, VDict):
            e.prove("%s starts with empty containers" % what, not v.d)


@contract(("C14",), CV + ".__init__", name="a new converter holds nothing of earlier ones", setup=[no_logs])
def new_converter(e):
    externs_of_init(e)
    flag = lambda n: e.fresh_val(n, "bool")
    c = obj(e, CV)
    log_dir = [None, "disable", e.fresh_val("log_dir", "str")][e.choose(3)]
    run(e, method(e, CV, "__init__"), [], dict(log_dir=log_dir, mode=e.fresh_val("mode", "str"), log_markdown=flag("md"), show_all_api=flag("a"), show_unalign_api=flag("b"), show_unsupport_api=flag("c"), no_format=flag("d"), calculate_speed=flag("e"), only_complete=flag("f")), c)
    own(e, c, (), "a converter", True)
    e.prove("the counters start at zero", c.fields.get("torch_api_count") == 0 and c.fields.get("success_api_count") == 0)


def transformer_init(q):
    @contract(("C14",), [q + ".__init__", "paconvert.base.BaseTransformer.__init__"], name="a new %s holds nothing of earlier ones" % q.rsplit(".", 1)[1], setup=[no_logs])
    def harness(e):
        t = obj(e, q)
        root = e.sym_node("root", "Module")
        maps = [imports_map(e), Ext("logger"), e.new(VObj("all_api_map")), e.new(VObj("unsupport_api_map"))]
        run(e, method(e, q, "__init__"), [root, "dir/file.py", e.fresh_val("mode", "str")] + maps, {}, t)
        own(e, t, maps, "a transformer")
        e.prove("a transformer starts without counts", t.fields.get("torch_api_count") == 0 and t.fields.get("success_api_count") == 0)


for _q in TRANSFORMERS.values():
    transformer_init(_q)


@contract(("C14",), CV + ".transfer_node", name="every file is converted by new transformers", setup=[no_logs])
def transfer_node(e):
    c, _ = converter(e, only_complete=e.fresh_val("only_complete", "bool"))
    c.fields["change_prefix_api_map"] = opaque_map(e, "change_prefix_api_map")
    c.fields["imports_map"] = imports_map(e)
    root = e.sym_node("root", "Module")
    mark = e.new(VObj("mark")).birth
    seen = []

    def transform(e, tr, a, k):
        e.prove("every file is converted by new transformers", tr.birth > mark and not any(tr is x for x in seen))
        seen.append(tr)

    e.summaries["paconvert.base.BaseTransformer.transform"] = transform
    try:
        run(e, method(e, CV, "transfer_node"), [root, "dir/file.py"], {}, c)
    except PyRaise:
        return
    e.prove("the transformers run", len(seen) > 0)


@contract(("C14",), CV + ".run", name="what an earlier conversion left is set back before the files are read", setup=[no_logs])
def run_resets(e):
    externs_of_init(e)
    run_env(e)
    fs = Files(e)
    L = e.sym_list("CPP_EXTENSION_LIST", "str")
    M = e.sym_map("AUTOGRAD_FUNC_NODES", "str")
    e.class_attrs[(CO, "CPP_EXTENSION_LIST")] = lambda e: L
    e.class_attrs[(CO, "AUTOGRAD_FUNC_NODES")] = lambda e: M
    made = []
    mk = lambda e, s, a, k: (made.append(a[0] if a else k.get("fileName")), e.new(VObj("helper", write_code=Native(lambda e, a, k: None))))[1]
    e.summaries["paconvert.utils.UtilsFileHelper"] = mk
    c = obj(e, CV)
    run(e, method(e, CV, "__init__"), [], dict(log_dir="disable", calculate_speed=False), c)
    o = e.fresh("node", STR)
    reached = []

    def transfer(e, s, a, k):
        reached.append(1)
        cur = [e.globals.get((CO, n), v) for n, v in (("CPP_EXTENSION_LIST", L), ("AUTOGRAD_FUNC_NODES", M))]
        l, m = map(e.resolve, cur)
        if l is not L or m is not M:
            raise Unsupported("the lists are replaced")  # other modules keep the old ones
        e.prove("the custom operators of earlier conversions are forgotten", e.length(L) == 0)
        e.prove("the functions of earlier conversions are forgotten", z3.Not(z3.Select(M.present, o)))
        t = fs.s(a[0])
        is_input = z3.Or(z3.Function("os_path_isfile", STR, BOOL)(t), z3.Function("os_path_isdir", STR, BOOL)(t))
        e.prove("the helpers of earlier conversions are forgotten", z3.Implies(is_input, z3.BoolVal(len(made) == 1)))
        for f in made:
            if f is None:
                e.prove("the helpers of earlier conversions are forgotten", False)

    e.summaries[CV + ".transfer_dir"] = transfer
    exc = [None, e.fresh_val("exclude", "str")][e.choose(2)]
    out = [None, e.fresh_val("out_dir", "str")][e.choose(2)]
    try:
        run(e, method(e, CV, "run"), [e.fresh_val("in_dir", "str"), out, exc], {}, c)
    except PyRaise:
        return
    e.prove("the input is converted", len(reached) == 1)


# ------------------------------------------------------------------ the inventory
GM = "paconvert.global_var.GlobalManager"
# what stays in the process, and why it has no effect on later conversions
KNOWN = {
    "paconvert.utils.Generator": "numbers of generated names (c_utils.py)",
    "paconvert.utils.UtilsFileHelper._lock": "a lock",
    "paconvert.utils.UtilsFileHelper._instance": "set back by __init__ (c_helper.py)",
    CO + ".CPP_EXTENSION_LIST": "cleared by run",
    CO + ".AUTOGRAD_FUNC_NODES": "cleared by run",
}
READS = {"get", "items", "keys", "values", "copy", "index", "count", "startswith", "endswith", "format", "split", "replace", "strip", "join"}
READERS = {"len", "list", "sorted", "set", "dict", "tuple", "str", "isinstance", "any", "all", "enumerate", "zip", "repr", "bool", "getattr", "reversed", "iter", "next", "map", "filter", "min", "max"}
WRITES = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "sort", "reverse", "add", "discard", "__setitem__", "__delitem__", "difference_update", "intersection_update", "appendleft"}
PURE_DECORATORS = {"property", "staticmethod", "classmethod", "abstractmethod", "abc.abstractmethod", "functools.wraps"}
FRESH_CALLS = {"textwrap.dedent", "os.path.dirname", "os.path.abspath", "os.path.join", "os.getcwd", "len", "str", "int", "frozenset", "re.compile", "logging.getLogger", "tuple"}


def package():
    out = []
    root = os.path.join(common.REPO, "paconvert")
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(".py") and f != "example_code.py":
                p = os.path.join(d, f)
                mod = os.path.relpath(p, common.REPO)[:-3].replace("/", ".")
                tree = ast.parse(open(p, encoding="utf-8").read())
                for n in ast.walk(tree):
                    for c in ast.iter_child_nodes(n):
                        c._up = n
                out.append((mod, tree))
    return out


def immutable(v):
    if isinstance(v, (ast.Constant, ast.JoinedStr, ast.Lambda, ast.Name, ast.Attribute, ast.Compare)):
        return True
    if isinstance(v, ast.Tuple):
        return all(map(immutable, v.elts))
    if isinstance(v, ast.BinOp):
        return immutable(v.left) and immutable(v.right)
    if isinstance(v, ast.UnaryOp):
        return immutable(v.operand)
    if isinstance(v, ast.Call):
        f = ast.unparse(v.func)
        if f in FRESH_CALLS:
            return True
        # a method of a text
        return isinstance(v.func, ast.Attribute) and isinstance(v.func.value, (ast.Constant, ast.JoinedStr))
    return False


def module_level(tree):
    """(class path, statement) of everything executed when the module is loaded"""
    todo = [((), s) for s in tree.body]
    while todo:
        q, s = todo.pop(0)
        if isinstance(s, ast.ClassDef):
            todo += [(q + (s.name,), x) for x in s.body]
        elif isinstance(s, (ast.If, ast.With, ast.For, ast.While, ast.Try)):
            for f in ("body", "orelse", "finalbody"):
                todo += [(q, x) for x in getattr(s, f, [])]
            for h in getattr(s, "handlers", []):
                todo += [(q, x) for x in h.body]
        elif not isinstance(s, (ast.FunctionDef, ast.Import, ast.ImportFrom)):
            yield q, s


def locations(pkg):
    """the names (module, or module and class) whose values outlive a conversion and can change"""
    loc = {}
    for mod, tree in pkg:
        for q, s in module_level(tree):
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and not immutable(s.value):
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            loc[".".join((mod,) + q + (n.id,))] = s
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                a = n.args
                ps = a.posonlyargs + a.args
                for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                    if not immutable(d):
                        loc["%s default of %s in %s" % (mod, p.arg, getattr(n, "name", "lambda"))] = (n, p.arg)
    return loc


def function_of(n):
    q = []
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q.insert(0, n.name)
        n = getattr(n, "_up", None)
    return q


def in_function(n):
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            return n
        n = getattr(n, "_up", None)
    return None


def written(n):
    """how the value of the expression n is changed or handed on at this place, or None for a read"""
    up = n._up
    if isinstance(getattr(n, "ctx", None), (ast.Store, ast.Del)):
        return "stored"
    if isinstance(up, ast.AugAssign) and up.target is n:
        return "changed in place"
    if isinstance(up, ast.Subscript) and up.value is n:
        return "an item is stored" if isinstance(up.ctx, (ast.Store, ast.Del)) else None
    if isinstance(up, ast.Attribute):
        if isinstance(up.ctx, (ast.Store, ast.Del)):
            return "an attribute is stored"
        return None if up.attr in READS else "%s()" % up.attr
    if isinstance(up, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.BinOp, ast.FormattedValue, ast.If, ast.While, ast.IfExp, ast.Assert)):
        return None
    if isinstance(up, (ast.For, ast.comprehension)) and up.iter is n:
        return None
    if isinstance(up, ast.Starred):
        return None
    if isinstance(up, ast.Call):
        if n in up.args and (isinstance(up.func, ast.Name) and up.func.id in READERS or isinstance(up.func, ast.Attribute) and up.func.attr in ("format", "join")):
            return None
        return "handed to %s" % ast.unparse(up.func)[:60]
    if isinstance(up, ast.Slice) or isinstance(up, ast.Expr):
        return None
    return "handed on (%s)" % type(up).__name__


def same_object(v, tainted):
    """an expression whose value is (part of) a tainted object"""
    if isinstance(v, ast.Name):
        return v.id in tainted
    if isinstance(v, ast.Attribute):
        return v.attr in tainted or (isinstance(v.value, ast.Name) and v.value.id == "GlobalManager" and v.attr != "CHANGE_PREFIX_API")
    if isinstance(v, ast.Subscript):
        return not isinstance(v.slice, ast.Slice) and same_object(v.value, tainted)
    if isinstance(v, ast.BoolOp):
        return any(same_object(x, tainted) for x in v.values)
    if isinstance(v, ast.IfExp):
        return same_object(v.body, tainted) or same_object(v.orelse, tainted)
    if isinstance(v, ast.NamedExpr):
        return same_object(v.value, tainted)
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("get", "items", "values", "setdefault", "pop"):
        return same_object(v.func.value, tainted)
    return False


ENTRY = "api_mapping_dict"


def table_writers(pkg):
    """functions that may change an entry of a table, found through the names bound to entries"""
    out = []
    for mod, tree in pkg:
        for f in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
            tainted = {ENTRY}
            grew = True
            while grew:
                grew = False
                for n in ast.walk(f):
                    tg = []
                    if isinstance(n, ast.Assign) and same_object(n.value, tainted):
                        tg = n.targets
                    elif isinstance(n, (ast.For, ast.comprehension)) and same_object(n.iter, tainted):
                        tg = [n.target]
                    elif isinstance(n, ast.NamedExpr) and same_object(n.value, tainted):
                        tg = [n.target]
                    for t in tg:
                        for x in [] if isinstance(t, ast.Subscript) else ast.walk(t):
                            nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
                            if nm and nm not in tainted and nm != "self":
                                tainted.add(nm)
                                grew = True
            for n in ast.walk(f):
                if not same_object(n, tainted) or not isinstance(n, ast.expr) or in_function(n) is not f:
                    continue
                up = n._up
                bad = None
                if isinstance(up, ast.Subscript) and up.value is n and isinstance(up.ctx, (ast.Store, ast.Del)):
                    bad = "an item is stored"
                elif isinstance(up, ast.AugAssign) and up.target is n:
                    bad = "changed in place"
                elif isinstance(up, ast.Attribute) and up.value is n and up.attr in WRITES and isinstance(up._up, ast.Call) and up._up.func is up:
                    bad = up.attr + "()"
                elif isinstance(up, ast.Delete):
                    bad = "deleted"
                if bad:
                    out.append((mod, f, function_of(f), "%s: %s, line %d" % (ast.unparse(n)[:50], bad, n.lineno)))
    return out


def inventory():
    """deviations of the package from: a conversion leaves nothing behind that another one reads"""
    pkg = package()
    loc = locations(pkg)
    bad = []
    read_only = {}
    for k, s in sorted(loc.items()):
        if k in KNOWN:
            continue
        if isinstance(s, tuple):
            fn, p = s
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and n.id == p and written(n):
                    bad.append("%s: %s (line %d)" % (k, written(n), n.lineno))
            continue
        read_only.setdefault(k.rsplit(".", 1)[1], []).append(k)
    known_names = {k.rsplit(".", 1)[1] for k in KNOWN}
    classes = {n.name for _, t in pkg for n in ast.walk(t) if isinstance(n, ast.ClassDef)}
    functions = {n.name for _, t in pkg for n in t.body if isinstance(n, ast.FunctionDef)}
    allowed = {  # (function, name): where the known places are used
        "CPP_EXTENSION_LIST": None, "AUTOGRAD_FUNC_NODES": None,
        "Generator": {"get_unique_name"}, "_instance": {"__new__"}, "_lock": {"__new__"},
    }
    for mod, tree in pkg:
        modules = {a.asname or a.name.split(".")[0] for n in ast.walk(tree) if isinstance(n, ast.Import) for a in n.names}
        for n in ast.walk(tree):
            fn = in_function(n)
            where = "%s.%s line %d" % (mod, ".".join(function_of(n)), getattr(n, "lineno", 0))
            if isinstance(n, ast.FunctionDef):
                for d in n.decorator_list:
                    t = ast.unparse(d.func if isinstance(d, ast.Call) else d)
                    if t not in PURE_DECORATORS and not t.endswith((".setter", ".getter")):
                        bad.append("%s: decorator %s" % (where, t))
            if isinstance(n, ast.Global) and not set(n.names) <= known_names:
                bad.append("%s: global %s" % (where, ", ".join(n.names)))
            if fn is None:
                continue
            if isinstance(n, ast.Name) and n.id in ("globals", "__builtins__", "setattr", "delattr", "vars") and not (n.id == "setattr" and isinstance(n._up, ast.Call) and n._up.args and isinstance(n._up.args[0], ast.Name) and n._up.args[0].id in ("node", "self")):
                bad.append("%s: %s" % (where, n.id))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr not in known_names:
                v = n.value
                if isinstance(v, ast.Name) and (v.id in classes or v.id in functions or v.id in modules or v.id == "cls"):
                    bad.append("%s: %s is stored" % (where, ast.unparse(n)))
                if isinstance(v, ast.Attribute) and v.attr == "__class__" or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "type":
                    bad.append("%s: %s is stored" % (where, ast.unparse(n)))
            nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            if nm in read_only:
                if isinstance(n, ast.Name) and not any(k == mod + "." + nm for k in read_only[nm]) and not imported(tree, nm):
                    continue  # a local of the same name
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and any(isinstance(x, ast.FunctionDef) for x in [fn]) and stored_on_self(tree, nm):
                    continue
                w = written(n)
                if w and mod == "paconvert.main":
                    continue  # the command line sets the tables up before it converts
                if w:
                    bad.append("%s: %s %s" % (where, nm, w))
            if nm in known_names and allowed.get(nm) is not None and fn.name not in allowed[nm] and not (isinstance(n, ast.Attribute) and stored_on_self(tree, nm)):
                bad.append("%s uses %s" % (where, nm))
    import json

    named = set()
    for f in ("api_mapping", "api_wildcard_mapping", "attribute_mapping"):
        for v in json.load(open(os.path.join(common.REPO, "paconvert", f + ".json"))).values():
            if isinstance(v, dict) and v.get("Matcher"):
                named.add(v["Matcher"])
    cls = {n.name: n for _, t in pkg for n in ast.walk(t) if isinstance(n, ast.ClassDef)}
    used = set()
    todo = [c for c in named if c in cls] + [c for c in cls if not c.endswith("Matcher") and c != "_MaxMinMatcherBase"]
    while todo:
        c = todo.pop()
        if c in used or c not in cls:
            continue
        used.add(c)
        for b in cls[c].bases:
            todo.append(b.attr if isinstance(b, ast.Attribute) else getattr(b, "id", ""))
        # a rule that makes another rule
        todo += [x.id for x in ast.walk(cls[c]) if isinstance(x, ast.Name) and x.id in cls]
    for mod, f, q, what in table_writers(pkg):
        if mod == "paconvert.main" or q[0] in cls and q[0] not in used:
            continue  # a class no table names
        bad.append("%s.%s changes an entry: %s" % (mod, ".".join(q), what))
    return bad, loc


def imported(tree, nm):
    return any(isinstance(n, ast.ImportFrom) and any((a.asname or a.name) == nm for a in n.names) for n in ast.walk(tree))


def stored_on_self(tree, nm):
    return any(isinstance(n, ast.Attribute) and n.attr == nm and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self" for n in ast.walk(tree))


def inventory_frame():
    bad, loc = inventory()
    return "the places that outlive a conversion are the tables (read only), the numbers of names, the helper object and the lists run sets back", bad, len(loc)


CUSTOM_FRAMES.setdefault("C14", []).append(inventory_frame)
