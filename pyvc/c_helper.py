"""Contracts of UtilsFileHelper (paconvert/utils.py): helper code of a conversion."""
import ast

import z3

from .c_files import Files, fail, raise_
from .contracts import *
from .engine import *
from .values import *

UH = "paconvert.utils.UtilsFileHelper"
HASH = z3.Function("hash_of", STR, STR)
UNHASH = z3.Function("unhash", STR, STR)
RSTRIP = z3.Function("py_rstrip_0a", STR, STR)


def hashing(e):
    """hash() without collisions (a collision of two helper texts is not modelled)"""
    x = z3.FreshConst(STR, "x")
    e.assume(z3.ForAll([x], UNHASH(HASH(x)) == x, patterns=[HASH(x)]))
    e.externs["builtins.hash"] = lambda e, a, k: SStr(HASH(e.unwrap(e.resolve(a[0]), "str")))


def key_function(e):
    """How the map of helper texts is keyed, found by running add_code on an empty map."""
    d = e.new(VDict({}))
    h = obj(e, UH, fileName="f.py", is_dir_mode=False, logger=Ext("logger"), initialized=True, code_map=d)
    p = e.fresh_val("probe", "str")
    run(e, method(e, UH, "add_code"), [p], {}, h)
    m = e.resolve(h.fields.get("code_map"))
    if isinstance(m, VMap):
        t = RSTRIP(p.t)
        for f in (HASH, lambda t: t):
            if e.check(z3.Not(z3.Select(m.present, f(t)))) == z3.unsat:
                return f
    elif isinstance(m, VDict) and len(m.d) == 1:
        (k,) = m.d
        t = e.unwrap(k, "str")
        for f in (HASH, lambda t: t):
            if e.check(t != f(RSTRIP(p.t))) == z3.unsat:
                return f
    raise Unsupported("another representation of the helper texts")


def code_map(e, key):
    m = e.sym_map("code_map", "str")
    k = z3.FreshConst(STR, "k")
    # class invariant: every text is stored under its own key
    e.assume(z3.ForAll([k], z3.Implies(z3.Select(m.present, k), key(z3.Select(m.val, k)) == k), patterns=[z3.Select(m.val, k)]))
    e.assume(z3.ForAll([k], z3.Implies(z3.Select(m.present, k), key(z3.Select(m.val, k)) == k), patterns=[z3.Select(m.present, k)]))
    return m


@contract(("C10",), [UH + ".add_code", UH + "._get_code_hash"], name="a helper is recorded once", setup=[no_logs])
def add_code(e):
    hashing(e)
    key = key_function(e)
    m = code_map(e, key)
    p0, v0 = m.present, m.val
    m.log = []
    fn = [None, e.fresh_val("fileName", "str")][e.choose(2)]
    h = obj(e, UH, fileName=fn, is_dir_mode=e.fresh_val("dir", "bool"), logger=Ext("logger"), initialized=True, code_map=m)
    code = e.fresh_val("code", "str")
    e.reached += 1
    r = run(e, method(e, UH, "add_code"), [code], {}, h)
    if e.resolve(h.fields.get("code_map")) is not m:
        raise Unsupported("the map is replaced")
    c = RSTRIP(code.t)
    k, o = key(c), e.fresh("other", STR)
    same = lambda o: z3.And(z3.Select(m.present, o) == z3.Select(p0, o), z3.Implies(z3.Select(p0, o), z3.Select(m.val, o) == z3.Select(v0, o)))
    none = fn is None or e.check(fn.t != z3.StringVal("")) == z3.unsat
    if none:
        e.prove("without a conversion nothing is recorded", same(o))
        return
    e.prove("the helper is recorded, whole", z3.And(z3.Select(m.present, k), z3.Select(m.val, k) == c))
    e.prove("every other recorded helper stays", z3.Implies(o != k, same(o)))
    e.prove("a helper recorded before stays at its place", z3.Implies(z3.Select(p0, o), z3.And(z3.Select(m.present, o), z3.Select(m.val, o) == z3.Select(v0, o))))
    e.prove("a helper recorded before is not recorded again", z3.Implies(z3.And(z3.Select(m.present, o), z3.Select(m.val, o) == c), o == k))
    e.prove("every text stays under its own key", z3.Implies(z3.Select(m.present, o), key(z3.Select(m.val, o)) == o))
    e.prove("nothing is taken out while helpers are recorded, which would move it to the end", all(x == "set" for x in m.log))


@contract(("C10", "C14"), UH + ".__init__", name="a new conversion starts without helpers", setup=[no_logs])
def init(e):
    e.externs["object.__init__"] = lambda e, a, k: None
    first = e.choose(2)
    fn = [None, e.fresh_val("fileName", "str")][e.choose(2)]
    dm, lg = e.fresh_val("dir", "bool"), e.new(VObj("logger"))
    args = dict(fileName=fn, is_dir_mode=dm, logger=lg)
    if first:
        h = obj(e, UH)
        run(e, method(e, UH, "__init__"), [], args, h)
        m = e.resolve(h.fields.get("code_map"))
        e.prove("no helper is recorded at the start", isinstance(m, VDict) and not m.d)
        e.prove("the helper object is made once", bool(h.fields))
    else:
        m = e.sym_map("code_map", "str")
        p0, v0 = m.present, m.val
        ofn, odm, olg = e.fresh_val("old_fileName", "str"), e.fresh_val("old_dir", "bool"), e.new(VObj("logger"))
        h0 = obj(e, UH)
        run(e, method(e, UH, "__init__"), [], dict(fileName=ofn, is_dir_mode=odm, logger=olg), h0)
        h = h0
        h.fields["code_map"] = m
        run(e, method(e, UH, "__init__"), [], args, h)
        m2 = e.resolve(h.fields.get("code_map"))
        o = e.fresh("o", STR)
        given = fn is not None and e.check(fn.t != z3.StringVal("")) != z3.unsat
        if not given:
            e.prove("asking for the helper object changes nothing", m2 is m and z3.And(z3.Select(m.present, o) == z3.Select(p0, o), z3.Select(m.val, o) == z3.Select(v0, o)))
            e.prove("the output of the conversion stays", h.fields["fileName"] is ofn and h.fields["is_dir_mode"] is odm)
            return
        if isinstance(m2, VDict):
            e.prove("a new conversion starts without helpers", not m2.d)
        else:
            e.prove("a new conversion starts without helpers", z3.Not(z3.Select(m2.present, o)))
    if fn is not None:
        e.prove("the conversion has its own output", h.fields.get("fileName") is fn and h.fields.get("is_dir_mode") is dm)


def harmless(text):
    """a text which defines nothing: blank, comments and 'import paddle'"""
    try:
        body = ast.parse(text).body
    except SyntaxError:
        return False
    return all(isinstance(n, ast.Import) and [(a.name, a.asname) for a in n.names] == [("paddle", None)] for n in body)


def literals(e):
    """the texts of the class that may frame the helpers"""
    c = e.src.cls(UH)
    return sorted({n.value for n in ast.walk(c.node) if isinstance(n, ast.Constant) and isinstance(n.value, str) and harmless(n.value)})


def flat(v):
    if isinstance(v, str):
        return [v]
    if isinstance(v.prov, tuple) and v.prov[0] == "cat":
        return [y for x in v.prov[1] for y in flat(x)]
    return [v]


@contract(("C10",), UH + ".write_code", name="writing the helpers", setup=[no_logs])
def write_code(e):
    fs = Files(e)
    V = e.sym_list("helpers", "str")
    V.frozen = True
    m = e.sym_map("code_map", "str")
    k = z3.FreshConst(STR, "k")
    pos = z3.Function("helper_pos", STR, INT)
    j = z3.FreshConst(INT, "j")
    e.assume(z3.ForAll([k], z3.Implies(z3.Select(m.present, k), z3.And(0 <= pos(k), pos(k) < V.n, z3.Select(V.arr, pos(k)) == z3.Select(m.val, k))), patterns=[z3.Select(m.present, k)]))
    kat = z3.Function("helper_key", INT, STR)
    e.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < V.n), z3.And(z3.Select(m.present, kat(j)), pos(kat(j)) == j)), patterns=[z3.Select(V.arr, j)]))
    e.assume(z3.Implies(V.n > 0, z3.Select(m.present, kat(0))))
    m.order = (m.present, m.val, V)
    p0 = m.present
    fn = [None, e.fresh_val("fileName", "str")][e.choose(2)]
    dm = bool(e.choose(2))
    h = obj(e, UH, fileName=fn, is_dir_mode=dm, logger=Ext("logger"), initialized=True, code_map=m)
    idx = e.fresh("insert_idx", INT)
    asked = []

    def find(e, s, a, kw):
        l = e.resolve(a[0])
        if not isinstance(l, VList) or l.concrete:
            raise Unsupported("lines")
        asked.append(l)
        return SInt(idx)

    e.summaries[UH + "._find_import_insert_idx"] = find
    sorted_ = []

    def isort(e, a, kw):
        sorted_.append(e.resolve(a[0]))
        if e.choose(2):
            raise PyRaise("ValueError")
        r = e.fresh_val("sorted", "str")
        r.prov = ("isort", e.resolve(a[0]))
        return r

    e.externs["isort.code"] = isort
    run(e, method(e, UH, "write_code"), [], {}, h)
    empty = z3.Not(z3.Exists([k], z3.Select(p0, k)))
    wr = [x for x in fs.effects if x[0] == "write"]
    mk = [x for x in fs.effects if x[0] == "makedirs"]
    e.prove("only files are written and directories made", len(wr) + len(mk) == len(fs.effects))
    if not wr:
        e.prove("nothing is written only if no helper is required", z3.Or(V.n == 0, z3.BoolVal(fn is None) if fn is None else fn.t == z3.StringVal("")))
        e.prove("without helpers nothing happens", not fs.effects)
        return
    e.prove("a file is written only if a helper is required", V.n > 0)
    e.prove("one file is written, once", len(wr) == 1 and len(wr[0][2]) == 1)
    e.prove("only the output of the conversion is written", wr[0][1] == fn.t)
    for x in mk:
        e.prove("at most the directory of the output is made", z3.And(z3.BoolVal(dm), x[1] == z3.Function("os_path_dirname_1", STR, STR)(fn.t)))
    m2 = e.resolve(h.fields.get("code_map"))
    o = e.fresh("o", STR)
    e.prove("written helpers are not written again", (not m2.d) if isinstance(m2, VDict) else z3.Not(z3.Select(m2.present, o)))
    txt = wr[0][2][0]
    while isinstance(txt, SStr) and isinstance(txt.prov, tuple) and txt.prov[0] == "isort":
        txt = txt.prov[1]
    if not isinstance(txt, (str, SStr)):
        raise Unsupported("content %r" % (txt,))
    lits = literals(e)
    parts = flat(txt)
    seen, rest = None, []
    for p in parts:
        if isinstance(p, str):
            rest.append(p)
            continue
        if not (isinstance(p.prov, tuple) and p.prov[0] == "join" and p.prov[1] == "\n"):
            raise Unsupported("content made from %r" % (p.prov,))
        l = p.prov[2]
        base = l.prov[1] if l.prov and l.prov[0] == "slice" else l
        if any(base is x for x in asked):
            rest.append((l, base))
        else:
            e.prove("the helpers are written in one place", seen is None)
            seen = l
            rest.append("HELPERS")
    if seen is None:
        raise Unsupported("no helpers in the content")
    cases, bounds = [], []
    i = z3.FreshConst(INT, "i")
    harml = lambda t: z3.Or([t == z3.StringVal(x) for x in lits])
    for hd in range(0, 5):
        for tl in range(0, 4):
            at = lambda q: z3.Select(seen.arr, q)
            cases.append(z3.And([seen.n == V.n + hd + tl, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < V.n), at(i + hd) == z3.Select(V.arr, i)))] + [harml(at(z3.IntVal(q))) for q in range(hd)] + [harml(at(V.n + hd + q)) for q in range(tl)]))
    shape = None
    for n, c in enumerate(cases):
        if e.check(z3.Not(c)) == z3.unsat:
            shape = (n // 4, n % 4)
            break
    e.prove("every helper is written whole, once, in order, and nothing else", z3.Or(cases) if shape is None else cases[shape[0] * 4 + shape[1]])
    lit = [p for p in rest if isinstance(p, str) and p != "HELPERS"]
    e.prove("nothing else is added", all(harmless(p) for p in lit))
    if dm:
        e.prove("the helper file holds helpers only", all(isinstance(p, str) for p in rest))
        return
    segs = [p for p in rest if not isinstance(p, str)]
    order = [("H" if p == "HELPERS" else "L" if isinstance(p, tuple) else "s") for p in rest]
    e.prove("the file is kept around the helpers", [x for x in order if x != "s"] == ["L", "H", "L"])
    if len(segs) != 2 or len(asked) != 1:
        raise Unsupported("content of another shape")
    (a, base), (b, _) = segs
    lines = asked[0]
    q = e.fresh("q", INT)
    src = e.content_lines if hasattr(e, "content_lines") else None
    lt = lambda l, q: z3.Select(l.arr, q)
    e.prove("the lines before the place stay", z3.Implies(z3.And(0 <= q, q < a.n), lt(a, q) == lt(lines, q)))
    e.prove("the place is the one that was found", z3.Implies(z3.And(0 <= idx, idx <= lines.n), a.n == idx))
    e.prove("the lines behind the place stay", z3.And(b.n == lines.n - a.n, z3.Implies(z3.And(0 <= q, q < b.n), lt(b, q) == lt(lines, q + a.n))))
    want = z3.Function("splitlines_n", STR, INT), z3.Function("splitlines_a", STR, z3.ArraySort(INT, STR))
    t = z3.Function("content_before", STR, STR)(fn.t)
    e.prove("the lines are those of the file", z3.And(lines.n == want[0](t), lines.arr == want[1](t)))
    if shape is not None:
        first, last = z3.Select(seen.arr, 0), z3.Select(seen.arr, seen.n - 1)
        gap = lambda n: any("\n" in p for p in rest[n:n + 1] if isinstance(p, str) and p != "HELPERS")
        ih = rest.index("HELPERS")
        e.prove("the helpers start on a line of their own", True if gap(ih - 1) else z3.PrefixOf(z3.StringVal("\n"), first))
        e.prove("the file continues on a line of its own", True if gap(ih + 1) else z3.SuffixOf(z3.StringVal("\n"), last))


FRAMES.setdefault("C10", []).append(("the recorded helpers change in add_code, write_code and __init__ only", {"code_map"}, True))


@contract(("C10",), "paconvert.base.BaseMatcher.enable_utils_code", name="a rule requires its helper", setup=[no_logs])
def enable(e):
    BM = "paconvert.base.BaseMatcher"
    code = [None, e.fresh_val("utils_code", "str")][e.choose(2)]
    added, lines = [], []
    dm = bool(e.choose(2))
    fn = e.fresh_val("fileName", "str")
    hp = e.new(VObj("helper", is_dir_mode=dm, fileName=fn, add_code=Native(lambda e, a, k: added.append(e.resolve(a[0])))))
    e.summaries[UH] = lambda e, s, a, k: hp if not a and not k else fail("a new conversion is started")
    e.summaries[BM + ".generate_utils_code"] = lambda e, s, a, k: code
    tr = e.new(VObj("transformer", file_name="f", insert_multi_node=Native(lambda e, a, k: lines.append(a))))
    m = obj(e, BM, api_mapping_dict=e.new(VDict({})), transformer=tr, logger=Ext("logger"), torch_api="torch.x", paddle_api=None)
    parsed = []
    e.externs["ast.parse"] = lambda e, a, k: (parsed.append(e.resolve(a[0])), e.new(VObj("module", body=e.sym_list("body"))))[1]
    run(e, method(e, BM, "enable_utils_code"), [], {}, m)
    if code is None or e.check(code.t != z3.StringVal("")) == z3.unsat:
        e.prove("a rule without helper requires none", not added and not lines)
        return
    e.prove("the helper of the rule is required, whole and once", len(added) == 1 and added[0] is code)
    e.prove("a file of a project imports the helper file, a single file does not", len(lines) == (1 if dm else 0))
    for t in parsed:
        ps = flat(t)
        want = "from paddle_utils import *"
        e.prove("the helper file is imported from its directory", any(want in p for p in ps if isinstance(p, str)) and any(isinstance(p, SStr) for p in ps))
