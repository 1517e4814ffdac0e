"""C01 statistics balance, C02 API list adds up (shared generator)."""
import collections
import re

from vlib import explore, gen
from vlib.bounded import Case, run_cases
from vlib.common import Violation, rng, THOROUGH
from vlib.conv import convert, convert_tree

CUSTOM_SETUP = """from setuptools import setup
from torch.utils.cpp_extension import BuildExtension, {ext}
setup(
    name='{mod}',
    ext_modules=[{ext}(name='{mod}', sources=['a.cpp', 'b.cu'])],
    cmdclass={{'build_ext': BuildExtension}})
"""
CUSTOM_USE = """import torch
import {imp}
from torch.autograd import Function
class {cls}(Function):
    @staticmethod
    def forward(ctx, x, y):
        out = {name}.fwd(x, y)
        {extra}
        return out
    @staticmethod
    def backward(ctx, g):
        return {name}.bwd(g)
"""
CUSTOM_APPLY = """import torch
from m import {cls}{asn}
def run(x):
    y = {used}.apply(x, x)
    return {used2}
"""


def custom_project(r):
    mod = r.choice(["my_ext", "cuda_ops", "load_ops"])
    cls = r.choice(["MyFn", "Rasterize"])
    name = r.choice([mod, "ext"])
    asn = r.choice(["", " as Al"])
    used = "Al" if asn else cls
    return {
        "a_setup.py": CUSTOM_SETUP.format(ext=r.choice(["CUDAExtension", "CppExtension"]), mod=mod),
        "m.py": CUSTOM_USE.format(
            imp=mod if name == mod else "%s as %s" % (mod, name),
            cls=cls,
            name=name,
            extra=r.choice(["pass", "z = %s.other(x)" % name, "out = torch.abs(out)"]),
        ),
        "z.py": CUSTOM_APPLY.format(
            cls=cls, asn=asn, used=used, used2=r.choice(["y", "%s.apply(y)" % used, "torch.nope(y)"])
        ),
    }


def describe(files):
    return "\n".join("# --- %s\n%s" % kv for kv in files.items())


def check_balance(o, what_in, md=False):
    c = o.conv
    t, s = c.torch_api_count, c.success_api_count
    u = sum(c.unsupport_api_map.values())

    def bad(msg):
        raise Violation(
            msg, program=what_in, observed=dict(total=t, converted=s, unsupported=dict(c.unsupport_api_map), ret=o.ret)
        )

    if t != s + u:
        bad("total %d != converted %d + not-supported tally %d" % (t, s, u))
    if s < 0 or u < 0 or t < 0 or any(v <= 0 for v in c.unsupport_api_map.values()):
        bad("a reported number is negative, or an API is tallied with no use")
    if o.ret is not None:
        if tuple(o.ret) != (s, u):
            bad("run() returned %r but converted=%d, not supported=%d" % (o.ret, s, u))
        if not (0.0 <= c.convert_rate <= 1.0):
            bad("convert rate %r" % c.convert_rate)
        if t > 0 and abs(c.convert_rate - s / t) > 1e-12:
            bad("convert rate %r, expected %d/%d" % (c.convert_rate, s, t))
    if o.log:
        txt = "\n".join(o.log)
        if md:
            nums = [re.search(r"总计有 (\d+) 行", txt), re.search(r"\* (\d+) 行Pytorch 代码被成功", txt), re.search(r"\* (\d+) 行Pytorch 代码暂时不支持", txt)]
        else:
            nums = [re.search(r"There are (\d+) Pytorch APIs", txt), re.search(r" (\d+)  Pytorch APIs have been converted", txt), re.search(r" (\d+)  Pytorch APIs are not supported", txt)]
        if all(nums):
            got = tuple(int(n.group(1)) for n in nums)
            if got != (t, s, u):
                bad("summary prints %r, counters are %r" % (got, (t, s, u)))


def check_list(o, what_in):
    c = o.conv
    m = c.all_api_map
    tot = 0
    for k, v in m.items():
        n = v.get("count")
        if not isinstance(n, int) or n < 1:
            raise Violation("API %s is listed with count %r" % (k, n), program=what_in)
        tot += n
    if tot != c.torch_api_count:
        raise Violation(
            "counts of the listed APIs add up to %d, the total is %d" % (tot, c.torch_api_count),
            program=what_in,
            observed={k: dict(v) for k, v in m.items()},
        )


OPTS = [
    dict(),
    dict(),
    dict(mode="min"),
    dict(log_markdown=True),
    dict(no_format=False),
    dict(only_complete=True),
    dict(calculate_speed=True),
]


def stub_pandas():
    """The spreadsheets of --show_* need an optional package; swallow them."""
    import sys
    import types

    m = types.ModuleType("pandas")

    class DataFrame:
        def __init__(self, *a, **k):
            pass

        def to_excel(self, *a, **k):
            pass

        @classmethod
        def from_dict(cls, *a, **k):
            return cls()

    m.DataFrame = DataFrame
    sys.modules["pandas"] = m


def case(i):
    r = rng("c01", i)
    opt = dict(r.choice(OPTS))
    kind = r.random()
    stub_pandas()
    if r.random() < 0.3:
        opt.update(show_all_api=True, show_unalign_api=True, show_unsupport_api=True)
    if kind < 0.15:
        files = custom_project(r)
        if r.random() < 0.4:
            files["p.py"] = gen.Prog(r).text()
        o = convert_tree(files, capture=True, **opt)
        src = describe(files)
    elif kind < 0.3:
        files = {"%s.py" % n: gen.Prog(r).text() for n in "abc"}
        o = convert_tree(files, capture=True, **opt)
        src = describe(files)
    else:
        src = gen.Prog(r).text()
        o = convert(src, capture=True, **opt)
    src = "# options: %r\n%s" % (opt, src)
    if not o.ok:
        raise Violation("the conversion fails: " + o.error, program=src)
    check_balance(o, src, md=opt.get("log_markdown", False))
    if kind >= 0.15:
        check_list(o, src)
    return Case(src, o.conv.torch_api_count > 1, sample=src[:400])


def api_case(api):
    """Every mapped API once: called, referenced, rejected, in a decorator, as
    statement and inside a comprehension."""
    T = gen.tables()
    en = T.api.get(api) or T.attr.get(api) or {}
    r = rng("c01api", api)
    m = gen.class_method_of(api)
    name = ("x." + m) if m else api
    lines = ["import torch", "import torchvision", "import transformers", "import einops", "import os", "import fairscale", "import flash_attn"]
    pkg = api.split(".")[0]
    if not m and pkg not in ("torch", "torchvision", "transformers", "einops", "os", "fairscale", "flash_attn"):
        lines.append("import " + pkg)
    n = len(lines)
    pre = list(lines)
    uses = [
        "%s" % name,
        "v = %s" % name,
        "%s(zzz_no_such=1)" % name,
        "v = %s(*q)" % name,
        "v = %s(**q)" % name,
        "class A(%s): pass" % name,
        "%s.zzz_attr" % name,
        "%s.zzz_attr.more" % name,
    ]
    if en.get("Matcher") in ("GenericMatcher", "ChangePrefixMatcher", "ChangeAPIMatcher", None):
        for _ in range(3):
            uses.append("v = %s(%s)" % (name, gen.legal_args(r, en) if en.get("args_list") else gen.expr(r)))
    if en.get("args_list"):
        sh = explore.shapes(api, r, 3, explore.REQUIRED.get(api)) or [(0, ())]
        np, ks = r.choice(sh)
        c = "%s(%s)" % (name, ", ".join(["a%d" % i for i in range(np)] + ["%s=b%d" % (k, i) for i, k in enumerate(ks)]))
    else:
        c = "%s(%s)" % (name, r.choice(["", "a0"]))
    ctx = ["w = [%s for q in y]", "w = lambda q: %s", "%s", "w = {q: %s for q in y if q}", "if %s: pass", "w = (%s, [%s for q in y])", "@deco(%s)\ndef f(): pass", "for i in %s: pass", "w = f(k=%s).z", "with %s as q: pass", "assert x, %s"]
    for t in r.sample(ctx, len(ctx) if THOROUGH else 4):
        uses.append(t.replace("%s", c))
    r.shuffle(uses)
    got = []
    for u in uses:
        src = "\n".join(pre + [u]) + "\n"
        o = convert(src)
        if not o.ok:
            continue  # C16 judges failures of single rules
        got.append(u)
        check_balance(o, src)
        check_list(o, src)
    # all uses together must balance too, and add up API by API
    src = "\n".join(pre + got) + "\n"
    o = convert(src)
    if o.ok:
        check_balance(o, src)
        check_list(o, src)
    return Case(api, True, sample=None, n=len(got) + 1)


def additivity_case(i):
    """C02: what is recorded for a sequence of uses is the sum of what is
    recorded for each use alone (same imports, one file or several)."""
    r = rng("c02", i)
    p = gen.Prog(r, rejected=0.5)
    hot = [r.choice(p.pool["call"]) for _ in range(2)] + [r.choice(p.pool["method"]) for _ in range(2)]
    p.pool = dict(p.pool, call=hot[:2], method=hot[2:])
    stmts = ["r%d = %s" % (k, p.api_use()) for k in range(r.randrange(3, 9))]
    head = p.imp.lines
    total = collections.Counter()
    nontriv = 0
    for s in stmts:
        o = convert("\n".join(head + [s]) + "\n")
        if not o.ok:
            raise Violation("the conversion fails: " + o.error, program="\n".join(head + [s]))
        for k, v in o.conv.all_api_map.items():
            total[k] += v.get("count", 0)
        nontriv += o.conv.torch_api_count != 0
    src = "\n".join(head + stmts) + "\n"
    if r.random() < 0.3:
        cut = r.randrange(1, len(stmts))
        files = {"a.py": "\n".join(head + stmts[:cut]) + "\n", "b.py": "\n".join(head + stmts[cut:]) + "\n"}
        o = convert_tree(files)
        src = describe(files)
    else:
        o = convert(src)
    if not o.ok:
        raise Violation("the conversion fails: " + o.error, program=src)
    check_list(o, src)
    got = {k: v["count"] for k, v in o.conv.all_api_map.items()}
    want = {k: v for k, v in total.items() if v}
    if got != want:
        raise Violation("recorded uses %r, the uses taken one by one give %r" % (got, want), program=src)
    return Case(src, nontriv > 1, sample=src[:300])


def bounded(chk):
    n = 40000 if THOROUGH else 5000
    run_cases(
        chk, "generated projects", case, range(n),
        "random projects of 1-3 files (15% with a C++ custom operator) with accepted, rejected and unknown API uses under random options; non-trivial: more than one API use",
        "%d projects, nesting depth <= 3" % n,
    )
    T = gen.tables()
    apis = sorted(set(T.api) | set(T.attr))
    if not THOROUGH:
        r = rng("c01pick")
        hand = [a for a in apis if (T.api.get(a) or T.attr.get(a) or {}).get("Matcher") not in ("ChangePrefixMatcher",)]
        pre = [a for a in apis if a not in set(hand)]
        apis = hand + r.sample(pre, min(150, len(pre)))
    run_cases(
        chk, "one API at a time", api_case, apis,
        "table entries used as call, reference, base class, with unknown keyword, * and **; each entry counts once",
        "%d table entries x up to 12 uses" % len(apis),
    )


def bounded_c02(chk):
    n = 30000 if THOROUGH else 3000
    run_cases(
        chk, "additivity", additivity_case, range(n),
        "3-8 uses drawn from 4 APIs, half of them rejected; recorded counts must equal the sum over single uses; non-trivial: at least two uses recorded",
        "%d sequences of at most 8 uses" % n,
    )
    n = 20000 if THOROUGH else 2000
    run_cases(
        chk, "generated projects", case, range(n),
        "as C01",
        "%d projects" % n,
    )
