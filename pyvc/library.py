"""Contracts of what lies outside the repository: builtins, str/list/dict methods,
re, ast, astor, os, logging.  This file is part of the trusted base."""
import z3

from .values import *

TYPES = ("str", "int", "list", "dict", "set", "tuple", "bool", "float", "object", "type")


def E():
    from . import engine

    return engine


# ------------------------------------------------------------------ builtins
def b_len(e, args, kw):
    v = e.resolve(args[0])
    if isinstance(v, str):
        return len(v)
    if isinstance(v, SStr):
        return SInt(z3.Length(v.t))
    if isinstance(v, VTuple):
        return len(v.items)
    if isinstance(v, VDict):
        e.note_read(v)
        if e.is_hav(v):
            n = e.fresh("len", INT)
            e.assume(n >= 0)
            return SInt(n)
        return len(v.d)
    if isinstance(v, VSet):
        e.note_read(v)
        if v.items is not None and not e.is_hav(v):
            return len(v.items)
        return set_size(e, v.present)
    if isinstance(v, VMap):
        e.note_read(v)
        return set_size(e, v.present)
    if isinstance(v, VList):
        n = e.length(v)
        return n if isinstance(n, int) else e.wrap("int", z3.simplify(n))
    raise Unsupported("len of %r" % (v,))


def set_size(e, present):
    f = z3.Function("set_size", z3.ArraySort(STR, BOOL), INT)
    k = z3.FreshConst(STR, "k")
    n = f(present)
    e.assume(n >= 0)
    e.assume((n == 0) == z3.Not(z3.Exists([k], z3.Select(present, k))))
    return SInt(n)


def type_test(e, v, t):
    """isinstance(v, t) as bool or term"""
    if isinstance(t, VTuple):
        return e.disj([type_test(e, v, x) for x in t.items])
    if isinstance(v, SOpt):
        v = e.resolve(v)
    if isinstance(t, Ext):
        nm = t.name
        if nm.startswith("ast."):
            if isinstance(v, SRef):
                return e.is_kind(v, [nm[4:]])
            if isinstance(v, Havoc):
                e.taint("isinstance of unknown")
                return e.fresh("isinst", BOOL)
            return False
        if nm.startswith("builtins."):
            b = nm[9:]
            if isinstance(v, Havoc):
                e.taint("isinstance of unknown")
                return e.fresh("isinst", BOOL)
            if isinstance(v, SRef):
                return z3.Function("isinst_" + b, E().RefSort, BOOL)(v.t)
            m = {
                "str": (str, SStr),
                "int": (int, SInt, SBool),
                "bool": (bool, SBool),
                "float": (float,),
                "list": (VList,),
                "tuple": (VTuple,),
                "dict": (VDict, VMap),
                "set": (VSet,),
            }
            if b in m:
                return isinstance(v, m[b])
    if isinstance(t, Cls):
        if isinstance(v, VObj):
            if isinstance(v.cls, Cls):
                return t in e.src.mro(v.cls)
            if "__isinstance__" in v.fields:
                return v.fields["__isinstance__"](e, t)
            return False
        if isinstance(v, Havoc):
            e.taint("isinstance of unknown")
            return e.fresh("isinst", BOOL)
        return False
    raise Unsupported("isinstance(%r, %r)" % (v, t))


def b_isinstance(e, args, kw):
    return e.mkbool(type_test(e, args[0], args[1]))


def b_str(e, args, kw):
    return e.to_str(args[0]) if args else ""


def b_list(e, args, kw):
    if not args:
        return e.new(VList([]))
    l = e.iter_list(args[0])
    if l.concrete:
        return e.new(VList(list(l.items)))
    if l.prov and l.prov[0] in ("enum", "items", "range", "zip"):
        raise Unsupported("list() of " + l.prov[0])
    c = VList(None, l.n, l.arr, l.elem, prov=l.prov, name=l.name)
    if hasattr(l, "enum_of"):
        c.enum_of = l.enum_of
    return e.new(c)


def b_set(e, args, kw):
    s = e.new(VSet([]))
    if args:
        l = e.iter_list(args[0])
        if not l.concrete:
            raise Unsupported("set() of symbolic list")
        for x in l.items:
            e.perform(s, "add", (x,))
    return s


def b_dict(e, args, kw):
    d = e.new(VDict())
    if args:
        o = e.resolve(args[0])
        if isinstance(o, VMap):
            m = VMap(o.present, o.val, o.elem, None, o.name)
            return e.new(m)
        if not isinstance(o, VDict):
            raise Unsupported("dict()")
        d.d.update(o.d)
    for k, v in kw.items():
        d.d[k] = v
    return d


def b_tuple(e, args, kw):
    if not args:
        return VTuple(())
    l = e.iter_list(args[0])
    if not l.concrete:
        raise Unsupported("tuple() of symbolic list")
    return VTuple(l.items)


def b_enumerate(e, args, kw):
    r = Enum(args[0])
    r.start = args[1] if len(args) > 1 else kw.get("start", 0)
    return r


def b_range(e, args, kw):
    args = [e.resolve(a) for a in args]
    if len(args) == 1:
        return Range(0, args[0], 1)
    return Range(args[0], args[1], args[2] if len(args) > 2 else 1)


def b_zip(e, args, kw):
    return E().Zip(args)


def b_getattr(e, args, kw):
    o, n = args[0], e.resolve(args[1])
    if not isinstance(n, str):
        raise Unsupported("getattr with symbolic name")
    if isinstance(e.resolve(o), SRef):
        return node_getattr(e, e.resolve(o), n, args)
    try:
        return e.getattr(o, n)
    except PyRaise as x:
        if x.cls == "AttributeError" and len(args) > 2:
            return args[2]
        raise


def node_has(kind, field):
    import ast

    return field in getattr(ast, kind)._fields


def node_getattr(e, r, n, args):
    eng = E()
    ks = [k for k in eng.KINDS if node_has(k, n)]
    has = z3.Or([eng.kind_f(r.t) == eng.KNUM[k] for k in ks]) if ks else z3.BoolVal(False)
    if e.fork(has):
        return e.get_field(r, n)
    if len(args) > 2:
        return args[2]
    raise PyRaise("AttributeError", (n,))


def b_setattr(e, args, kw):
    n = e.resolve(args[1])
    if not isinstance(n, str):
        raise Unsupported("setattr with symbolic name")
    e.setattr(args[0], n, args[2])


def b_hasattr(e, args, kw):
    n = e.resolve(args[1])
    o = e.resolve(args[0])
    if isinstance(o, SRef):
        try:
            node_getattr(e, o, n, [o, n])
            return True
        except PyRaise:
            return False
    try:
        e.getattr(o, n)
        return True
    except PyRaise as x:
        if x.cls == "AttributeError":
            return False
        raise


def b_sorted(e, args, kw):
    v = e.resolve(args[0])
    if isinstance(v, E().VObj) and "__sorted__" in v.fields:
        return v.fields["__sorted__"](e, kw)
    l = e.iter_list(args[0])
    if l.concrete and all(isinstance(x, (str, int)) for x in l.items) and "key" not in kw:
        return e.new(VList(sorted(l.items, reverse=bool(kw.get("reverse", False)))))
    if isinstance(args[0], E().Items) and not l.concrete:
        return l  # the order of the entries is not modelled
    v = e.resolve(args[0])
    if isinstance(v, VSet) and not e.loops:
        l = e.iter_list(v)  # an enumeration in any order
        if not l.concrete:
            return l
    raise Unsupported("sorted")


def b_hash(e, args, kw):
    v = e.resolve(args[0])
    if isinstance(v, (str, SStr)):
        return SInt(z3.Function("py_hash", STR, INT)(e.unwrap(v, "str")))
    raise Unsupported("hash")


def b_reversed(e, args, kw):
    return e.slice_list(e.iter_list(args[0]), None, None, -1)


def b_bool(e, args, kw):
    return e.truth(args[0])


def b_int(e, args, kw):
    v = e.resolve(args[0])
    if isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyRaise("ValueError")
    if isinstance(v, SInt):
        return v
    raise Unsupported("int()")


def b_print(e, args, kw):
    return None


def b_minmax(which):
    def f(e, args, kw):
        if len(args) == 2 and not kw:
            a, b = args
            if isinstance(a, int) and isinstance(b, int):
                return min(a, b) if which == "min" else max(a, b)
            x, y = e.unwrap(a, "int"), e.unwrap(b, "int")
            return SInt(z3.If((x < y) if which == "min" else (x > y), x, y))
        raise Unsupported(which)

    return f


def b_any(e, args, kw):
    l = e.iter_list(args[0])
    if l.concrete:
        for x in l.items:
            if e.truth(x):
                return True
        return False
    raise Unsupported("any of symbolic list")


def b_all(e, args, kw):
    l = e.iter_list(args[0])
    if l.concrete:
        for x in l.items:
            if not e.truth(x):
                return False
        return True
    raise Unsupported("all of symbolic list")


def b_type(e, args, kw):
    v = e.resolve(args[0])
    if isinstance(v, VObj) and isinstance(v.cls, Cls):
        return v.cls
    raise Unsupported("type()")


BUILTINS = dict(
    len=b_len,
    isinstance=b_isinstance,
    str=b_str,
    list=b_list,
    set=b_set,
    dict=b_dict,
    tuple=b_tuple,
    enumerate=b_enumerate,
    range=b_range,
    zip=b_zip,
    getattr=b_getattr,
    setattr=b_setattr,
    hasattr=b_hasattr,
    sorted=b_sorted,
    hash=b_hash,
    reversed=b_reversed,
    bool=b_bool,
    int=b_int,
    print=b_print,
    min=b_minmax("min"),
    max=b_minmax("max"),
    any=b_any,
    all=b_all,
    type=b_type,
)


# ------------------------------------------------------------------ str methods
def conc(o, *a):
    return isinstance(o, str) and all(isinstance(x, (str, int)) for x in a)


def s_startswith(e, o, p):
    p = e.resolve(p)
    if isinstance(p, VTuple):
        return e.mkbool(e.disj([_raw(s_startswith(e, o, x)) for x in p.items]))
    if conc(o, p):
        return o.startswith(p)
    return SBool(z3.PrefixOf(e.unwrap(p, "str"), e.unwrap(o, "str")))


def _raw(b):
    return b.t if isinstance(b, SBool) else b


def s_endswith(e, o, p):
    p = e.resolve(p)
    if isinstance(p, VTuple):
        return e.mkbool(e.disj([_raw(s_endswith(e, o, x)) for x in p.items]))
    if conc(o, p):
        return o.endswith(p)
    return SBool(z3.SuffixOf(e.unwrap(p, "str"), e.unwrap(o, "str")))


def s_format(e, o, *args, **kw):
    if not isinstance(o, str):
        raise Unsupported("format of symbolic string")
    import string

    parts, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        parts.append(lit)
        if field is None:
            continue
        if spec or conv not in (None, "s"):
            parts.append(e.opaque_str("fmt"))
            if field == "":
                auto += 1
            continue
        if field == "":
            if auto >= len(args):
                raise PyRaise("IndexError", ("format",))
            v = args[auto]
            auto += 1
        elif field.isdigit():
            if int(field) >= len(args):
                raise PyRaise("IndexError", ("format",))
            v = args[int(field)]
        elif field.isidentifier():
            if field not in kw:
                raise PyRaise("KeyError", (field,))
            v = kw[field]
        else:
            raise Unsupported("format field " + field)
        parts.append(e.to_str(v))
    return e.cat(parts)


def s_join(e, o, it):
    it = e.resolve(it)
    if isinstance(it, VList) and it.prov and it.prov[0] == "split" and o == it.prov[2]:
        if not it.over:
            return it.prov[1]
        return SStr(z3.Concat(e.unwrap(it.over[0], "str"), e.split_tail(it)))
    if isinstance(it, VList) and it.prov and it.prov[0] == "splitslice":
        _, base, lo, hi = it.prov
        _, s, sep = base.prov
        if o == sep and lo in (None, 0) and hi == -1 and not base.over:
            t = e.unwrap(s, "str")
            li = z3.LastIndexOf(t, z3.StringVal(sep))
            return SStr(z3.If(li < 0, z3.StringVal(""), z3.SubString(t, 0, li)))
        if o == sep and lo == 1 and hi is None:
            t = e.split_tail(base)
            return SStr(z3.If(z3.Length(t) == 0, z3.StringVal(""), z3.SubString(t, 1, z3.Length(t) - 1)))
        raise Unsupported("join of split slice")
    l = e.iter_list(it)
    if l.concrete:
        parts = []
        for i, x in enumerate(l.items):
            if i:
                parts.append(o)
            x = e.resolve(x)
            if not isinstance(x, (str, SStr)):
                raise PyRaise("TypeError", ("join",))
            parts.append(x)
        return e.cat(parts) if parts else ""
    if not isinstance(o, str) or l.elem not in ("str",):
        raise Unsupported("join")
    f = z3.Function("join", STR, z3.ArraySort(INT, STR), INT, STR)
    r = SStr(f(z3.StringVal(o), l.arr, l.n), prov=("join", o, l))
    return r


def s_split(e, o, sep=None, maxsplit=-1):
    if isinstance(o, str) and (sep is None or isinstance(sep, str)):
        return e.new(VList(o.split(sep, maxsplit)))
    if isinstance(sep, str) and maxsplit == 1 and isinstance(o, SStr):
        h, m, t = s_partition("partition")(e, o, sep).items
        return e.new(VList([h, t] if m else [h]))
    if not isinstance(sep, str) or maxsplit != -1 or not isinstance(o, SStr):
        raise Unsupported("split")
    if sep == "\n" or getattr(e, "split_as_seq", False):
        return split_seq(e, o, sep)
    return e.new(VList(None, None, None, "str", prov=("split", o, sep)))


def s_rsplit(e, o, sep=None, maxsplit=-1):
    if isinstance(o, str) and (sep is None or isinstance(sep, str)):
        return e.new(VList(o.rsplit(sep, maxsplit)))
    if isinstance(sep, str) and maxsplit == 1 and isinstance(o, SStr):
        h, m, t = s_partition("rpartition")(e, o, sep).items
        return e.new(VList([h, t] if m else [t]))
    if isinstance(sep, str) and maxsplit == -1:
        return s_split(e, o, sep)
    raise Unsupported("rsplit")


def split_seq(e, o, sep):
    """lines = s.split(sep): a sequence; join(sep, lines) == s, no element contains sep"""
    na = z3.Function("split_n", STR, STR, INT)
    aa = z3.Function("split_a", STR, STR, z3.ArraySort(INT, STR))
    t, sp = o.t, z3.StringVal(sep)
    n, arr = na(t, sp), aa(t, sp)
    e.assume(n >= 1)
    j = z3.FreshConst(INT, "j")
    e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(z3.Contains(z3.Select(arr, j), sp))), patterns=[z3.Select(arr, j)]))
    f = z3.Function("join", STR, z3.ArraySort(INT, STR), INT, STR)
    e.assume(f(sp, arr, n) == t)
    return e.new(VList(None, n, arr, "str", name="lines"))


def s_strip(which):
    def f(e, o, chars=None):
        if conc(o) and (chars is None or isinstance(chars, str)):
            return getattr(o, which)(chars)
        if not (chars is None or isinstance(chars, str)):
            raise Unsupported("strip")
        fn = z3.Function("py_%s_%s" % (which, (chars or "ws").encode().hex()), STR, STR)
        return SStr(fn(e.unwrap(o, "str")), prov=("strip", o))

    return f


def s_replace(e, o, a, b, count=-1):
    a, b = e.resolve(a), e.resolve(b)
    if conc(o, a, b) and isinstance(count, int):
        return o.replace(a, b, count)
    t, x, y = e.unwrap(o, "str"), e.unwrap(a, "str"), e.unwrap(b, "str")
    if count == 1:
        return SStr(z3.Replace(t, x, y))
    return SStr(z3.Function("py_replace_all", STR, STR, STR, STR)(t, x, y))


def s_rfind(e, o, x):
    if conc(o, x):
        return o.rfind(x)
    return SInt(z3.LastIndexOf(e.unwrap(o, "str"), e.unwrap(x, "str")))


def s_find(e, o, x, start=0):
    if conc(o, x):
        return o.find(x, start)
    return SInt(z3.IndexOf(e.unwrap(o, "str"), e.unwrap(x, "str"), e.unwrap(start, "int")))


def s_partition(which):
    def f(e, o, sep):
        if conc(o, sep):
            return VTuple(getattr(o, which)(sep))
        t, sp = e.unwrap(o, "str"), e.unwrap(sep, "str")
        ix = z3.IndexOf(t, sp, 0) if which == "partition" else z3.LastIndexOf(t, sp)
        if e.fork(z3.Contains(t, sp)):
            n = z3.Length(sp)
            return VTuple((SStr(z3.SubString(t, 0, ix)), sep, SStr(z3.SubString(t, ix + n, z3.Length(t) - ix - n))))
        return VTuple((o, "", "")) if which == "partition" else VTuple(("", "", o))

    return f


def s_count(e, o, x):
    if conc(o, x):
        return o.count(x)
    f = z3.Function("py_count", STR, STR, INT)
    t = f(e.unwrap(o, "str"), e.unwrap(x, "str"))
    e.assume(t >= 0)
    e.assume((t > 0) == z3.Contains(e.unwrap(o, "str"), e.unwrap(x, "str")))
    return SInt(t)


def s_opaque(name, ret="str"):
    def f(e, o, *a, **k):
        if conc(o, *a):
            return getattr(o, name)(*a, **k)
        fn = z3.Function("py_" + name, STR, STR if ret == "str" else BOOL)
        return (SStr if ret == "str" else SBool)(fn(e.unwrap(o, "str")))

    return f


def s_splitlines(e, o):
    if isinstance(o, str):
        return e.new(VList(o.splitlines()))
    na = z3.Function("splitlines_n", STR, INT)
    aa = z3.Function("splitlines_a", STR, z3.ArraySort(INT, STR))
    e.assume(na(o.t) >= 0)
    return e.new(VList(None, na(o.t), aa(o.t), "str", name="lines"))


def s_encode(e, o, *a, **k):
    return o


STR_METHODS = dict(
    startswith=s_startswith,
    endswith=s_endswith,
    format=s_format,
    join=s_join,
    split=s_split,
    rsplit=s_rsplit,
    strip=s_strip("strip"),
    rstrip=s_strip("rstrip"),
    lstrip=s_strip("lstrip"),
    replace=s_replace,
    rfind=s_rfind,
    find=s_find,
    partition=s_partition("partition"),
    rpartition=s_partition("rpartition"),
    count=s_count,
    lower=s_opaque("lower"),
    upper=s_opaque("upper"),
    capitalize=s_opaque("capitalize"),
    isspace=s_opaque("isspace", "bool"),
    isidentifier=s_opaque("isidentifier", "bool"),
    isdigit=s_opaque("isdigit", "bool"),
    splitlines=s_splitlines,
)


# ------------------------------------------------------------------ list methods
def l_append(e, o, x):
    e.mutate(o, "append", x)


def l_extend(e, o, x):
    e.mutate(o, "extend", e.iter_list(x))


def l_insert(e, o, i, x):
    e.mutate(o, "insert", e.resolve(i), x)


def l_remove(e, o, x):
    e.mutate(o, "remove", x)


def l_copy(e, o):
    return b_list(e, [o], {})


def l_index(e, o, x):
    if o.concrete:
        for i, y in enumerate(o.items):
            t = e.eq(y, x)
            if t if isinstance(t, bool) else e.fork(t):
                return i
        raise PyRaise("ValueError")
    if not e.fork(e.contains(o, x)):
        raise PyRaise("ValueError")
    p = e.fresh("index", INT)
    xt = e.unwrap(x, o.elem)
    j = z3.FreshConst(INT, "j")
    e.assume(z3.And(p >= 0, p < o.n, z3.Select(o.arr, p) == xt))
    e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p), z3.Select(o.arr, j) != xt), patterns=[z3.Select(o.arr, j)]))
    return SInt(p)


def l_pop(e, o, i=-1):
    if e.is_outer(o):
        raise Unsupported("pop in loop")
    if getattr(o, "frozen", False):
        e.frozen_hits.append((o, "pop"))
    return e.perform(o, "pop", (i,))


def l_clear(e, o):
    e.mutate(o, "clear")


def l_reverse(e, o):
    if o.concrete and not e.is_outer(o):
        o.items.reverse()
        return
    raise Unsupported("reverse")


def l_sort(e, o, **kw):
    raise Unsupported("sort")


LIST_METHODS = dict(
    append=l_append,
    extend=l_extend,
    insert=l_insert,
    remove=l_remove,
    copy=l_copy,
    index=l_index,
    pop=l_pop,
    clear=l_clear,
    reverse=l_reverse,
    sort=l_sort,
)


# ------------------------------------------------------------------ dict methods
def d_get(e, o, k, default=None):
    e.note_read(o)
    if e.is_hav(o):
        e.taint("get on a changing dict")
        return Havoc("dict value")
    if isinstance(o, VDict):
        k = e.resolve(k)
        if isinstance(k, (str, int, type(None))):
            return o.d.get(k, default)
        for kk in o.d:
            t = e.eq(kk, k)
            if t if isinstance(t, bool) else e.fork(t):
                return o.d[kk]
        return default
    t = z3.Select(o.present, e.key_term(k))
    if e.fork(t):
        return e.map_val(o, k)
    return default


def d_keys(e, o):
    return o


def d_values(e, o):
    if isinstance(o, VDict):
        return VList(list(o.d.values()))
    if getattr(o, "order", None) and o.order[0] is o.present and o.order[1] is o.val:
        e.note_read(o)
        return o.order[2]  # the values in the order of insertion, as far as the contract tells it
    if o.elem in ("str", "int", "ref"):
        l = e.iter_list(o)
        arr = e.fresh("values", z3.ArraySort(INT, E().SORTS[o.elem]))
        j = z3.FreshConst(INT, "j")
        e.assume(z3.ForAll([j], z3.Select(arr, j) == z3.Select(o.val, z3.Select(l.arr, j)), patterns=[z3.Select(arr, j)]))
        r = VList(None, l.n, arr, o.elem, prov=None, name="values")
        r.values_of = o
        return r
    raise Unsupported("values")


def d_items(e, o):
    return E().Items(o)


_NO = object()


def d_pop(e, o, k, default=_NO):
    e.note_read(o)
    if e.is_outer(o):
        # the popped value is not used by any caller in a loop; presence is decided by the key
        e.mutate(o, "del", k)
        return Havoc("popped")
    if isinstance(o, VDict):
        k = e.resolve(k)
        if isinstance(k, (str, int, type(None))):
            if k in o.d:
                v = o.d[k]
                e.mutate(o, "del", k)
                return v
        else:
            for kk in list(o.d):
                t = e.eq(kk, k)
                if t if isinstance(t, bool) else e.fork(t):
                    v = o.d[kk]
                    e.mutate(o, "del", kk)
                    return v
        if default is _NO:
            raise PyRaise("KeyError", (str(k),))
        return default
    t = z3.Select(o.present, e.key_term(k))
    if e.fork(t):
        v = e.map_val(o, k)
        e.mutate(o, "del", k)
        return v
    if default is _NO:
        raise PyRaise("KeyError", (str(k),))
    return default


def d_update(e, o, other=None, **kw):
    if other is not None:
        other = e.resolve(other)
        if isinstance(other, VDict):
            for k, v in other.d.items():
                e.mutate(o, "set", k, v)
        else:
            raise Unsupported("update with symbolic dict")
    for k, v in kw.items():
        e.mutate(o, "set", k, v)


def d_copy(e, o):
    if isinstance(o, VDict):
        return e.new(VDict(o.d, o.default))
    if o.elem == "rec":
        c = e.new(VMap(o.present, o.val, o.elem, o.default, o.name + " copy", o.rec))
        c.shared = True  # its records are those of the original
        return c
    return e.new(VMap(o.present, o.val, o.elem, o.default, o.name))


def d_setdefault(e, o, k, v=None):
    t = e.contains(o, k)
    if t if isinstance(t, bool) else e.fork(t):
        return e.getitem(o, k)
    e.mutate(o, "set", k, v)
    return v


def d_clear(e, o):
    e.mutate(o, "clear")


DICT_METHODS = dict(
    get=d_get, keys=d_keys, values=d_values, items=d_items, pop=d_pop, update=d_update, copy=d_copy, setdefault=d_setdefault, clear=d_clear
)


def r_get(e, o, k, default=None):
    has, val, kind = o.m.rec[k]
    kt = e.key_term(o.key)
    if e.fork(z3.Select(has, kt)):
        return e.wrap(kind, z3.Select(val, kt))
    return default


def st_add(e, o, x):
    e.mutate(o, "add", x)


def st_update(e, o, x):
    x = e.resolve(x)
    if not isinstance(x, VSet):
        l = e.iter_list(x)
        if not l.concrete:
            raise Unsupported("set update")
        for y in l.items:
            e.mutate(o, "add", y)
        return
    e.mutate(o, "update", x)


SET_METHODS = dict(add=st_add, update=st_update, clear=lambda e, o: e.mutate(o, "clear"))

def acc_append(e, o, x):
    o.got.append(x)


def acc_extend(e, o, x):
    l = e.to_list(x)
    if not l.concrete:
        raise Unsupported("extend with a list of unknown length in a loop")
    o.got.extend(l.items)


METHODS = [
    ((str, SStr), STR_METHODS),
    (VList, LIST_METHODS),
    ((VDict, VMap), DICT_METHODS),
    (Rec, dict(get=r_get)),
    (VSet, SET_METHODS),
    (Acc, dict(append=acc_append, extend=acc_extend)),
    (VTuple, dict(index=lambda e, o, x: l_index(e, VList(list(o.items)), x))),
]


# ------------------------------------------------------------------ externals
def x_to_source(e, args, kw):
    v = e.resolve(args[0])
    if isinstance(v, SRef):
        return SStr(E().src_f(v.t), prov=("source", v))
    raise Unsupported("astor.to_source of %r" % (v,))


def x_dump(e, args, kw):
    v = e.resolve(args[0])
    if isinstance(v, SRef):
        return SStr(E().dump_f(v.t))
    raise Unsupported("ast.dump")


def x_re(which):
    def f(e, args, kw):
        p, s = e.resolve(args[0]), e.resolve(args[1])
        if isinstance(p, str) and isinstance(s, str):
            import re

            m = getattr(re, which)(p, s)
            return e.new(VObj("match")) if m else None
        fn = z3.Function("re_" + which, STR, STR, BOOL)
        if e.fork(fn(e.unwrap(p, "str"), e.unwrap(s, "str"))):
            return e.new(VObj("match"))
        return None

    return f


def x_re_compile(e, args, kw):
    """a compiled pattern: its methods are the functions of re"""
    if len(args) != 1 or kw:
        raise Unsupported("re.compile with flags")
    o = e.new(VObj("pattern"))
    o.fields["pattern"] = args[0]
    for n in ("match", "search", "fullmatch"):
        o.fields[n] = Native(lambda e, a, k, n=n: x_re(n)(e, [args[0]] + list(a), k))
    return o


def x_re_sub(e, args, kw):
    p, r, s = [e.resolve(a) for a in args[:3]]
    if all(isinstance(x, str) for x in (p, r, s)):
        import re

        return re.sub(p, r, s)
    if isinstance(p, str) and isinstance(r, str):
        fn = z3.Function("re_sub_" + (p + "\0" + r).encode().hex(), STR, STR)
        return SStr(fn(e.unwrap(s, "str")))
    raise Unsupported("re.sub with a function")


def x_noop(e, args, kw):
    return None


def x_defaultdict(e, args, kw):
    d = e.new(VDict())
    d.default = args[0] if args else None
    return d


def x_path(name, ret="str"):
    def f(e, args, kw):
        args = [e.resolve(a) for a in args]
        ts = [e.unwrap(a, "str") for a in args]
        if ret == "str":
            return SStr(z3.Function("os_path_%s_%d" % (name, len(ts)), *([STR] * len(ts) + [STR]))(*ts))
        return SBool(z3.Function("os_path_" + name, *([STR] * len(ts) + [BOOL]))(*ts))

    return f


class ParsedBody(VList):
    pass


def x_parse(e, args, kw):
    """ast.parse(text): a Module whose body has the statements of the text.

    If the text is known at verification time its statements are counted with the real parser;
    otherwise the body is a list of unknown length.  `prov` remembers the text."""
    t = e.resolve(args[0])
    m = e.new(VObj("parsed"))
    if isinstance(t, str):
        import ast

        try:
            tree = ast.parse(t)
        except SyntaxError:
            raise PyRaise("SyntaxError")
        items = []
        for st in tree.body:
            items.append(from_real(e, st, t if len(tree.body) == 1 else ast.unparse(st)))
        m.fields["body"] = e.new(VList(items, prov=("parsed", t)))
        return m
    if getattr(e, "parse_may_fail", False):
        if not e.fork(z3.Function("parses", STR, BOOL)(e.unwrap(t, "str"))):
            raise PyRaise("SyntaxError")
    l = e.sym_list("parsed")
    l.prov = None
    l.text = t
    # a text with one expression: body[0] is its statement
    e.assume(l.n >= 1)
    el0 = SRef(z3.Select(l.arr, 0))
    tf = z3.Function("text_of", E().RefSort, STR)
    val = z3.Select(e.heap_arr("value", E().RefSort), el0.t)
    e.assume(tf(val) == e.unwrap(t, "str"))
    m.fields["body"] = l
    return m


def from_real(e, node, text=None):
    """A symbolic node for a real, known ast node (shallow)."""
    eng = E()
    r = e.alloc(type(node).__name__)
    if text is not None:
        tf = z3.Function("text_of", eng.RefSort, STR)
        e.assume(tf(r.t) == z3.StringVal(text))
    for f, v in __import__("ast").iter_fields(node):
        k = eng.FIELDS.get(f)
        if k in ("str", "int", "optstr") and (isinstance(v, (str, int)) or v is None):
            e.assume(z3.Select(e.heap_arr(f, eng.SORTS[k]), r.t) == e.unwrap(v, k))
        elif k == "ref" and isinstance(v, __import__("ast").AST):
            c = from_real(e, v, text)
            e.assume(z3.Select(e.heap_arr(f, eng.RefSort), r.t) == c.t)
    return r


def x_dedent(e, args, kw):
    v = e.resolve(args[0])
    if isinstance(v, str):
        import textwrap

        return textwrap.dedent(v)
    raise Unsupported("dedent of symbolic text")


EXTERNS = {
    "textwrap.dedent": x_dedent,
    "astor.to_source": x_to_source,
    "ast.dump": x_dump,
    "ast.parse": x_parse,
    "re.match": x_re("match"),
    "re.search": x_re("search"),
    "re.fullmatch": x_re("fullmatch"),
    "re.sub": x_re_sub,
    "re.compile": x_re_compile,
    "collections.defaultdict": x_defaultdict,
    "os.path.basename": x_path("basename"),
    "os.path.dirname": x_path("dirname"),
    "os.path.join": x_path("join"),
    "os.path.abspath": x_path("abspath"),
    "os.path.exists": x_path("exists", "bool"),
    "os.path.isfile": x_path("isfile", "bool"),
    "os.path.isdir": x_path("isdir", "bool"),
    "os.path.islink": x_path("islink", "bool"),
}
