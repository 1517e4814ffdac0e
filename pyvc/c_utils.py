"""Contracts of paconvert/utils.py."""
import z3

from .contracts import *
from .engine import *
from .values import *

U = "paconvert.utils."


@contract(("C06",), U + "UniqueNameGenerator.__call__", name="fresh names")
def unique_name(e):
    ids = e.sym_map("ids", "int", default="int")
    k = z3.FreshConst(STR, "k")
    # representation invariant: the counters are natural numbers
    e.assume(z3.ForAll([k], z3.Implies(z3.Select(ids.present, k), z3.Select(ids.val, k) >= 0), patterns=[z3.Select(ids.val, k)]))
    g = obj(e, U + "UniqueNameGenerator", ids=ids)
    p0, v0 = ids.present, ids.val
    key = e.fresh_val("key", "str")
    r = run(e, method(e, U + "UniqueNameGenerator", "__call__"), [key], self_=g)
    old = z3.If(z3.Select(p0, key.t), z3.Select(v0, key.t), z3.IntVal(0))
    if not isinstance(r, SStr) or g.fields.get("ids") is not ids:
        raise Unsupported("another representation")
    info = lambda m: "key %s, counter %s: %s" % (m.eval(key.t), m.eval(old), m.eval(r.t))
    e.prove("the name is the key, an underscore and the counter of the key", r.t == z3.Concat(key.t, z3.StringVal("_"), z3.IntToStr(old)), info)
    e.prove("the counter of the key grows by one", z3.And(z3.Select(ids.present, key.t), z3.Select(ids.val, key.t) == old + 1), info)
    o = e.fresh("other", STR)
    e.prove(
        "no other counter changes",
        z3.Implies(
            o != key.t,
            z3.And(
                z3.Select(ids.present, o) == z3.Select(p0, o),
                z3.Implies(z3.Select(p0, o), z3.Select(ids.val, o) == z3.Select(v0, o)),
            ),
        ),
        info,
    )


@contract(("C06",), U + "UniqueNameGenerator.__call__", name="lemma: key_number is injective", timeout_ms=30000)
def unique_lemma(e):
    """key1 + '_' + d1 == key2 + '_' + d2 with digit strings d1, d2 implies both parts are equal."""
    e.reached += 1
    a, b, d1, d2 = [e.fresh(n, STR) for n in "abcd"]
    us = z3.StringVal("_")
    s1, s2 = z3.Concat(a, us, d1), z3.Concat(b, us, d2)
    nod = lambda d: z3.Not(z3.Contains(d, us))
    # step 1: str(n) has no underscore (digits only)
    n = e.fresh("n", INT)
    digits = z3.Plus(z3.Range("0", "9"))
    e.prove("str(n) has no underscore", z3.Implies(n >= 0, nod(z3.IntToStr(n))))
    # step 2: unique decomposition
    e.prove("unique decomposition at the last underscore", z3.Implies(z3.And(nod(d1), nod(d2), s1 == s2), z3.And(a == b, d1 == d2)))
    m = e.fresh("m", INT)
    e.prove("str is injective", z3.Implies(z3.And(n >= 0, m >= 0, z3.IntToStr(n) == z3.IntToStr(m)), n == m))


@contract(("C06",), U + "get_unique_name", name="one generator for all keys")
def one_generator(e):
    log = []

    def call(e, s, a, k):
        log.append((s, a))
        return SStr(e.fresh("r", STR))

    e.summaries[U + "UniqueNameGenerator.__call__"] = call
    f = e.src.lookup("paconvert.utils", "get_unique_name")
    k1, k2 = e.fresh_val("k1", "str"), e.fresh_val("k2", "str")
    r1 = run(e, f, [k1])
    r2 = run(e, f, [k2])
    e.prove("every name comes from the one generator of the process", len(log) == 2 and log[0][0] is log[1][0] and log[0][1][0] is k1 and log[1][1][0] is k2)
    e.prove("the name is handed out unchanged", isinstance(r1, SStr) and isinstance(r2, SStr))
