"""C06: generated names never collide."""
from vlib.bounded import Case, run_cases
from vlib.common import Violation, rng, THOROUGH

KEYS = ["out", "out_0", "out_1", "x", "x_1", "x_1_0", "", "_", "0", "a_b", "Converter", "é", "out_00", "1", "_0", "x_", "X", "out ", "None"]


def seq_case(i):
    from paconvert import utils

    r = rng("c06", i)
    seen = {}
    n = r.randrange(2, 60)
    hist = []
    used = []
    for k in range(n):
        c = r.random()
        if c < 0.5:
            key = r.choice(KEYS)
        elif c < 0.75 and used:
            key = r.choice(used)  # a key that looks like a generated name
        elif c < 0.85:
            key = r.choice(KEYS) + "_" + str(r.randrange(3))
        else:
            key = r.choice(KEYS[:4])
        hist.append(key)
        try:
            v = utils.get_unique_name(key)
        except Exception as e:
            raise Violation("request for %r fails: %s" % (key, e), input=repr(hist))
        pre, sep, num = v.rpartition("_")
        if not (sep and num.isdecimal() and pre == key):
            raise Violation("name %r for key %r" % (v, key), input=repr(hist))
        if v in seen:
            raise Violation("name %r handed out twice, for keys %r and %r" % (v, seen[v], key), input=repr(hist))
        seen[v] = key
        used.append(v)
    return Case(tuple(hist), True, sample=hist[:8])


def converter_case(i):
    """Names handed out while converters, helpers and conversions are created."""
    from paconvert import utils
    from vlib.conv import convert

    r = rng("c06c", i)
    src = "import torch\n" + "".join("r%d = torch.autograd.Variable(x, requires_grad=True)\n" % k for k in range(3))
    seen = set()
    real = utils.Generator if hasattr(utils, "Generator") else None
    a = utils.get_unique_name("out")
    seen.add(a)
    for _ in range(2):
        convert(src)
        b = utils.get_unique_name(r.choice(["out", "Converter"]))
        if b in seen:
            raise Violation("name %r handed out twice, a conversion in between" % b, program=src)
        seen.add(b)
    return Case(i, True)


def long_case(item):
    """one key requested very often, another in between"""
    from paconvert import utils

    key, n = item
    seen = set()
    for k in range(n):
        for q in (key, key + "_1") if k % 100 == 0 else (key,):
            v = utils.get_unique_name(q)
            if v in seen:
                raise Violation("name %r handed out twice, the second time for request %d of key %r" % (v, k, q), input="%d requests with key %r" % (k + 1, q))
            seen.add(v)
    return Case(item, True, sample=item)


def bounded(chk):
    run_cases(chk, "long histories", long_case, [(k, 2000000 if THOROUGH else 70000) for k in ("long", "out")], "one key requested very often", "2 histories of 70,000 (quick) or 2,000,000 (thorough) requests")
    n = 40000 if THOROUGH else 4000
    run_cases(chk, "request sequences", seq_case, range(n),
              "up to 60 requests with keys from a pool, keys equal to earlier names and keys with numeric tails; every sequence is non-trivial",
              "%d sequences of at most 60 requests, within one process" % n)
    run_cases(chk, "requests around conversions", converter_case, range(40), "names before, between and after conversions", "40 histories")
