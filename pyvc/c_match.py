"""Contracts of BaseMatcher (paconvert/base.py): argument binding and renaming."""
import z3

from .contracts import *
from .engine import *
from .values import *

BM = "paconvert.base.BaseMatcher"
STRIP = z3.Function("py_strip_0a", STR, STR)


def text(ref):
    """the text of a node: astor.to_source(node).strip('\\n')"""
    return STRIP(src_f(ref))


def distinct(arr, n):
    a, b = z3.FreshConst(INT, "a"), z3.FreshConst(INT, "b")
    return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), z3.Select(arr, a) != z3.Select(arr, b)), patterns=[MP(z3.Select(arr, a), z3.Select(arr, b))])


def all_in(arr, n, f):
    j = z3.FreshConst(INT, "j")
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), f(z3.Select(arr, j))), patterns=[z3.Select(arr, j)])


def some(n, f):
    j = z3.FreshConst(INT, "j")
    return z3.Exists([j], z3.And(0 <= j, j < n, f(j)))


def str_list(e, name):
    l = e.sym_list(name, "str")
    l.frozen = True
    return l


def keyword_nodes(e, name="kwargs"):
    """a list of ast.keyword nodes as the parser makes them: distinct nodes, no name twice"""
    kws = e.sym_list(name)
    kws.frozen = True
    argf = e.heap_arr("arg", STR)
    e.assume(distinct(kws.arr, kws.n))
    e.assume(all_in(kws.arr, kws.n, lambda r: z3.And(kind_f(r) == KNUM["keyword"], truthy_f(r), z3.Select(argf, r) != z3.StringVal("*"))))
    a, b = z3.FreshConst(INT, "a"), z3.FreshConst(INT, "b")
    ka, kb = z3.Select(argf, z3.Select(kws.arr, a)), z3.Select(argf, z3.Select(kws.arr, b))
    e.assume(
        z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < kws.n, ka == kb), ka == z3.StringVal(NONE_KEY)), patterns=[MP(z3.Select(kws.arr, a), z3.Select(kws.arr, b))])
    )
    return kws, argf


def matcher(e, mapping, **kw):
    d = e.new(VDict(mapping))
    d.frozen = True
    tr = e.new(VObj("transformer", file_name=e.fresh_val("file_name", "str")))
    return obj(e, BM, api_mapping_dict=d, transformer=tr, logger=Ext("logger"), torch_api="torch.x", origin_attr="torch.x", paddle_api=None, **kw)


@contract(("C07",), BM + ".parse_args_and_kwargs", name="argument binding", setup=[no_logs], timeout_ms=6000, budget=120)
def parse_args_and_kwargs(e):
    AL = str_list(e, "args_list")
    UN = str_list(e, "unsupport_args")
    OV = str_list(e, "overload_args_list")
    # table precondition (ground obligation): positional parameters are distinct, no name is None
    nn = lambda s: s != z3.StringVal(NONE_KEY)
    for l in (AL, UN, OV):
        e.assume(all_in(l.arr, l.n, nn))
    mn = e.fresh("min_input_args", INT)
    e.assume(mn >= 0)
    m = matcher(e, dict(args_list=AL, unsupport_args=UN, overload_args_list=OV, min_input_args=SInt(mn)))
    args = e.sym_list("args")
    args.frozen = True
    kws, argf = keyword_nodes(e)
    valf = e.heap_arr("value", RefSort)
    star, none = e.fresh_val("allow_starred", "bool"), e.fresh_val("allow_none", "bool")
    # specification vocabulary
    STAR = z3.StringVal("*")
    sp = e.fresh("star_pos", INT)
    j = z3.FreshConst(INT, "j")
    e.assume(z3.And(0 <= sp, sp <= AL.n))
    e.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < sp), z3.Select(AL.arr, j) != STAR), patterns=[z3.Select(AL.arr, j)]))
    e.assume(z3.Or(sp == AL.n, z3.Select(AL.arr, sp) == STAR))
    npos = sp
    e.assume(distinct(AL.arr, sp))
    isun = lambda s: e.member(UN, s)
    known = lambda s: z3.Or(e.member(AL, s), e.member(OV, s))
    forced = lambda s: some(AL.n, lambda q: z3.And(q > sp, z3.Select(AL.arr, q) == s))
    kwn = lambda i: z3.Select(argf, z3.Select(kws.arr, i))
    kwv = lambda i: z3.Select(valf, z3.Select(kws.arr, i))
    litnone = lambda r: z3.And(kind_f(r) == KNUM["Constant"], z3.Select(valf, r) == NULL)
    dropped = lambda i: z3.And(isun(kwn(i)), litnone(kwv(i)))
    starred = z3.And(z3.Not(star.t), some(args.n, lambda q: kind_f(z3.Select(args.arr, q)) == KNUM["Starred"]))
    unpack = z3.And(z3.Not(none.t), some(kws.n, lambda q: kwn(q) == z3.StringVal(NONE_KEY)))
    badkw = some(kws.n, lambda q: z3.And(isun(kwn(q)), z3.Not(litnone(kwv(q)))))
    badpos = some(args.n, lambda q: z3.And(q < npos, isun(z3.Select(AL.arr, q))))
    unknown = some(kws.n, lambda q: z3.And(z3.Not(isun(kwn(q))), z3.Not(known(kwn(q)))))
    # a valid call: no parameter is given both by position and by keyword
    a, b = z3.FreshConst(INT, "a"), z3.FreshConst(INT, "b")
    e.assume(
        z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < args.n, a < npos, 0 <= b, b < kws.n), z3.Select(AL.arr, a) != kwn(b)), patterns=[MP(z3.Select(args.arr, a), z3.Select(kws.arr, b))])
    )
    r = run(e, method(e, BM, "parse_args_and_kwargs"), [args, kws], dict(allow_starred=star, allow_none=none), m)
    e.prove("the call and the table entry are not modified", not e.frozen_hits and not any(x[0] == "setfield" for x in e.events))
    if r is None:
        e.prove("not convertible only if something is unpacked or unsupported", z3.Or(starred, unpack, badkw, badpos))
        return
    if isinstance(r, str):
        e.prove("the only other verdict is misidentify", r == "misidentify")
        kept = kws.n - e.count_of(dropped, kws.n, kws, "dropped")
        nforce = e.count_of(lambda i: z3.And(z3.Not(dropped(i)), z3.Not(isun(kwn(i))), forced(kwn(i))), kws.n, kws, "forced")
        npc = args.n + kept - nforce
        e.prove("misidentified only for an unknown keyword or a wrong number of arguments", z3.Or(unknown, npc < mn, npc > npos))
        return
    if not isinstance(r, (VMap, VDict)):
        raise Unsupported("result %r" % (r,))
    e.morph_map(r, "str")
    i = e.fresh("i", INT)
    inA = z3.And(0 <= i, i < args.n)
    inK = z3.And(0 <= i, i < kws.n)
    e.prove("every positional argument has a positional parameter", args.n <= npos)
    e.prove(
        "a positional argument is bound to the parameter at its position, unchanged",
        z3.Implies(inA, z3.And(z3.Select(r.present, z3.Select(AL.arr, i)), z3.Select(r.val, z3.Select(AL.arr, i)) == text(z3.Select(args.arr, i)))),
    )
    e.prove(
        "a keyword is bound to its parameter, unchanged, unless it is a dropped literal None",
        z3.Implies(z3.And(inK, z3.Not(dropped(i))), z3.And(z3.Select(r.present, kwn(i)), z3.Select(r.val, kwn(i)) == text(kwv(i)))),
    )
    k = e.fresh("k", STR)
    e.prove(
        "nothing else is bound",
        z3.Implies(
            z3.Select(r.present, k),
            z3.Or(some(args.n, lambda q: z3.Select(AL.arr, q) == k), some(kws.n, lambda q: z3.And(kwn(q) == k, z3.Not(dropped(q))))),
        ),
    )
    q = e.fresh("q", INT)
    e.prove("no starred argument is accepted unless allowed", z3.Implies(z3.And(z3.Not(star.t), inA), kind_f(z3.Select(args.arr, i)) != KNUM["Starred"]))
    e.prove("no unpacked keywords are accepted", z3.Implies(inK, kwn(i) != z3.StringVal(NONE_KEY)))
    inU = z3.And(0 <= q, q < UN.n)
    e.prove("no unsupported keyword is accepted with a value", z3.Implies(z3.And(inK, inU, z3.Select(UN.arr, q) == kwn(i)), litnone(kwv(i))))
    e.prove("no unsupported positional argument is accepted", z3.Implies(z3.And(inA, inU), z3.Select(UN.arr, q) != z3.Select(AL.arr, i)))
    e.prove("no unknown keyword is accepted", z3.Implies(inK, z3.Or(isun(kwn(i)), known(kwn(i)))))
    e.prove("the number of positional-capable arguments is within the bounds", z3.Or(mn == 0, args.n + kws.n >= mn))


@contract(("C07",), BM + ".parse_args", name="positional texts", setup=[no_logs])
def parse_args(e):
    m = matcher(e, {})
    args = e.sym_list("args")
    args.frozen = True
    r = run(e, method(e, BM, "parse_args"), [args], {}, m)
    frame(e, "the arguments are not modified")
    if not isinstance(r, VList):
        raise Unsupported("result %r" % (r,))
    e.morph_list(r, "str") if r.concrete else None
    i = e.fresh("i", INT)
    e.prove("one text per argument", e.length(r) == args.n)
    e.prove("each argument keeps its text and position", z3.Implies(z3.And(0 <= i, i < args.n), z3.Select(r.arr, i) == text(z3.Select(args.arr, i))))


def frame(e, name):
    e.prove(name, not e.frozen_hits and not any(x[0] == "setfield" for x in e.events))


@contract(("C07",), BM + ".parse_kwargs", name="keyword texts", setup=[no_logs])
def parse_kwargs(e):
    UN = str_list(e, "unsupport_args")
    e.assume(all_in(UN.arr, UN.n, lambda s: s != z3.StringVal(NONE_KEY)))
    m = matcher(e, dict(unsupport_args=UN))
    kws, argf = keyword_nodes(e)
    valf = e.heap_arr("value", RefSort)
    none = e.fresh_val("allow_none", "bool")
    r = run(e, method(e, BM, "parse_kwargs"), [kws], dict(allow_none=none), m)
    frame(e, "the call and the table entry are not modified")
    kwn = lambda i: z3.Select(argf, z3.Select(kws.arr, i))
    kwv = lambda i: z3.Select(valf, z3.Select(kws.arr, i))
    NK = z3.StringVal(NONE_KEY)
    if r is None:
        e.prove("rejected only for an unpacked or unsupported keyword", some(kws.n, lambda q: z3.Or(e.member(UN, kwn(q)), z3.And(kwn(q) == NK, z3.Not(none.t)))))
        return
    if not isinstance(r, (VMap, VDict)):
        raise Unsupported("result %r" % (r,))
    e.morph_map(r, "str")
    i, k = e.fresh("i", INT), e.fresh("k", STR)
    inK = z3.And(0 <= i, i < kws.n)
    e.prove("every keyword is bound to its own name, unchanged", z3.Implies(z3.And(inK, kwn(i) != NK), z3.And(z3.Select(r.present, kwn(i)), z3.Select(r.val, kwn(i)) == text(kwv(i)))))
    e.prove("unpacked keywords stay", z3.Implies(inK, z3.Select(r.present, kwn(i))))
    e.prove("nothing else is bound", z3.Implies(z3.Select(r.present, k), some(kws.n, lambda q: kwn(q) == k)))
    e.prove("no unsupported keyword is accepted", z3.Implies(inK, z3.Not(e.member(UN, kwn(i)))))
    e.prove("no unpacked keywords unless allowed", z3.Implies(z3.And(inK, z3.Not(none.t)), kwn(i) != NK))


# ------------------------------------------------------------------ renaming (C08)
def kwmap(e, name, frozen=True):
    m = e.sym_map(name, "str")
    m.frozen = frozen
    e.assume(z3.Not(z3.Select(m.present, z3.StringVal(NONE_KEY))))
    return m


TARGET_LIST = z3.Function("is_list", RefSort, BOOL)
TARGET_STR = z3.Function("as_str", RefSort, STR)
TARGET_N = z3.Function("list_n", RefSort, INT)
TARGET_AT = z3.Function("list_arr", RefSort, z3.ArraySort(INT, STR))


def target_value(e, t):
    """a value of kwargs_change: a name, an empty string, or a list of names"""
    if e.fork(TARGET_LIST(t)):
        e.assume(TARGET_N(t) > 0)
        l = VList(None, TARGET_N(t), TARGET_AT(t), "str", name="targets")
        l.frozen = True
        return l
    return SStr(TARGET_STR(t))


@contract(("C08",), BM + ".change_kwargs", name="renaming", setup=[no_logs], budget=90)
def change_kwargs(e):
    kw = kwmap(e, "kwargs")
    ch = e.sym_map("kwargs_change", "ref")
    ch.elem = target_value
    ch.frozen = True
    UN = str_list(e, "unuse_args")
    m = matcher(e, dict(kwargs_change=ch))
    has = lambda mp, k: z3.Select(mp.present, k)
    tgt = lambda k: z3.Select(ch.val, k)
    goes = lambda k, t: z3.And(
        has(kw, k),
        z3.If(
            has(ch, k),
            z3.If(TARGET_LIST(tgt(k)), some(TARGET_N(tgt(k)), lambda q: z3.Select(TARGET_AT(tgt(k)), q) == t), z3.And(TARGET_STR(tgt(k)) == t, t != z3.StringVal(""))),
            z3.And(k == t, z3.Not(e.member(UN, k))),
        ),
    )
    # table precondition (ground obligation over the tables): no two arguments of a call get the same name
    own = z3.Function("own", STR, STR)
    x, q = z3.FreshConst(STR, "x"), z3.FreshConst(INT, "q")
    e.assume(z3.ForAll([x], z3.Implies(z3.And(has(kw, x), z3.Not(has(ch, x))), own(x) == x), patterns=[has(kw, x)]))
    e.assume(z3.ForAll([x], z3.Implies(z3.And(has(kw, x), has(ch, x), z3.Not(TARGET_LIST(tgt(x)))), own(TARGET_STR(tgt(x))) == x), patterns=[tgt(x)]))
    e.assume(z3.ForAll([x, q], z3.Implies(z3.And(has(kw, x), has(ch, x), TARGET_LIST(tgt(x)), 0 <= q, q < TARGET_N(tgt(x))), own(z3.Select(TARGET_AT(tgt(x)), q)) == x), patterns=[z3.Select(TARGET_AT(tgt(x)), q)]))
    r = run(e, method(e, BM, "change_kwargs"), [kw], dict(unuse_args=UN), m)
    frame(e, "the parsed arguments and the table entry are not modified")
    if not isinstance(r, (VMap, VDict)):
        raise Unsupported("result %r" % (r,))
    e.morph_map(r, "str")
    k, t, i = e.fresh("k", STR), e.fresh("t", STR), e.fresh("i", INT)
    K, T = tgt(k), TARGET_AT(tgt(k))
    val = z3.Select(kw.val, k)
    bound = lambda t: z3.And(has(r, t), z3.Select(r.val, t) == val)
    e.prove("an argument the table does not rename keeps its name, unless it is on the fixed list", z3.Implies(z3.And(has(kw, k), z3.Not(has(ch, k)), z3.Not(e.member(UN, k))), bound(k)))
    e.prove("an argument the table renames appears under its new name", z3.Implies(z3.And(has(kw, k), has(ch, k), z3.Not(TARGET_LIST(K)), TARGET_STR(K) != z3.StringVal("")), bound(TARGET_STR(K))))
    e.prove("an argument the table copies appears under every new name", z3.Implies(z3.And(has(kw, k), has(ch, k), TARGET_LIST(K), 0 <= i, i < TARGET_N(K)), bound(z3.Select(T, i))))
    src = z3.FreshConst(STR, "src")
    e.prove("nothing else appears", z3.Implies(has(r, t), z3.Exists([src], goes(src, t))))


@contract(("C08",), BM + ".set_paddle_default_kwargs", name="defaults", setup=[no_logs])
def set_defaults(e):
    kw = kwmap(e, "kwargs", frozen=False)
    p0, v0 = kw.present, kw.val
    d = e.sym_map("paddle_default_kwargs", "str")
    d.frozen = True
    given = e.choose(2)
    m = matcher(e, dict(paddle_default_kwargs=d) if given else {})
    r = run(e, method(e, BM, "set_paddle_default_kwargs"), [kw], {}, m)
    e.prove("the table entry is not modified", not e.frozen_hits)
    if not isinstance(r, VMap):
        raise Unsupported("result %r" % (r,))
    k = e.fresh("k", STR)
    e.prove("what the call sets is kept", z3.Implies(z3.Select(p0, k), z3.And(z3.Select(r.present, k), z3.Select(r.val, k) == z3.Select(v0, k))))
    if given:
        e.prove("a missing parameter gets its tabled default", z3.Implies(z3.And(z3.Not(z3.Select(p0, k)), z3.Select(d.present, k)), z3.And(z3.Select(r.present, k), z3.Select(r.val, k) == z3.Select(d.val, k))))
        e.prove("nothing else is added", z3.Implies(z3.Select(r.present, k), z3.Or(z3.Select(p0, k), z3.Select(d.present, k))))
    else:
        e.prove("nothing is added without tabled defaults", z3.Select(r.present, k) == z3.Select(p0, k))


def joined(e, r, sep=", "):
    """the list a string was joined from (or a list with that one element)"""
    if isinstance(r, SStr) and r.prov and r.prov[0] == "join" and r.prov[1] == sep:
        return r.prov[2]
    raise Unsupported("not a joined string: %r" % (r,))


@contract(("C08",), [BM + ".kwargs_to_str", BM + ".args_and_kwargs_to_str"], name="argument text")
def args_text(e):
    kw = e.sym_map("kwargs", "str")
    kw.frozen = True
    m = matcher(e, {})
    i, k = e.fresh("i", INT), e.fresh("k", STR)
    EQ = lambda a, b: z3.Concat(a, z3.StringVal("="), b)
    NK = z3.StringVal(NONE_KEY)
    both = e.choose(2)
    if both:
        args = e.sym_list("args", "str")
        args.frozen = True
        r = run(e, method(e, BM, "args_and_kwargs_to_str"), [args, kw], {}, m)
    else:
        e.assume(z3.Not(z3.Select(kw.present, NK)))
        r = run(e, method(e, BM, "kwargs_to_str"), [kw], {}, m)
    frame(e, "the arguments are not modified")
    l = joined(e, r)
    n, at = e.length(l), lambda q: z3.Select(l.arr, q)
    base = args.n if both else z3.IntVal(0)
    if both:
        e.prove("the positional arguments come first, unchanged and in order", z3.And(args.n <= n, z3.Implies(z3.And(0 <= i, i < args.n), at(i) == z3.Select(args.arr, i))))
        star = z3.Concat(z3.StringVal("**"), z3.Select(kw.val, NK))
        e.prove("unpacked keywords are passed on", z3.Implies(z3.Select(kw.present, NK), some(n, lambda q: z3.And(q >= base, at(q) == star))))
    e.prove("every keyword argument is passed under its name, unchanged", z3.Implies(z3.And(z3.Select(kw.present, k), k != NK), some(n, lambda q: z3.And(q >= base, at(q) == EQ(k, z3.Select(kw.val, k))))))
    ks = z3.FreshConst(STR, "ks")
    e.prove(
        "nothing else is passed",
        z3.Implies(
            z3.And(base <= i, i < n),
            z3.Exists([ks], z3.And(z3.Select(kw.present, ks), z3.Or(at(i) == EQ(ks, z3.Select(kw.val, ks)), z3.And(ks == NK, at(i) == z3.Concat(z3.StringVal("**"), z3.Select(kw.val, ks)))))),
        ),
    )
