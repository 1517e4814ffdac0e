"""C14: conversions do not depend on earlier conversions in the process."""
import hashlib
import json
import os
import pickle
import re
import shutil

from vlib.bounded import Case, run_cases
from vlib.common import Violation, rng, THOROUGH, tb_line, tb_short
from vlib.conv import make_converter, new_dir
from vlib import gen
from props.c10 import SNIPS

SETUP = "from setuptools import setup\nfrom torch.utils.cpp_extension import BuildExtension, CppExtension\nsetup(name=%s, ext_modules=[CppExtension(%s, ['a.cpp'])], cmdclass={'build_ext': BuildExtension})\n"
USE = "import torch\nimport %s\nimport numpy as np, %s as other\nclass %s(paddle.autograd.PyLayer):\n    @staticmethod\n    def forward(ctx, x):\n        return %s.forward(x) + other.g(x)\n\ny = torch.abs(x)\n"
LOAD = "import torch\nfrom torch.utils.cpp_extension import load\n%s = load(name='%s', sources=['a.cpp'])\nclass %s(paddle.autograd.PyLayer):\n    @staticmethod\n    def forward(ctx, x):\n        return %s.forward(x)\n\n"
APPLY = "import torch\nfrom ops import %s\nfrom ops import other_name as q\ny = %s.apply(torch.abs(x))\nz = q.apply(x)\n"
EXT = ["ext_a", "ext_b", "my_op"]
CLS = ["FnA", "FnB", "MyOp"]
BAD = ["import torch\nx = torch.abs(\n", "import torch\nmatch x:\n    case 1:\n        y = torch.abs(x)\n", "\x00", "def f(:\n", "import torch\ny = torch.abs(x)\nmatch y:\n    case [a, b]:\n        y.split(2)\n"]
SPECIAL = [
    "torch.max(x, y)", "torch.max(x, 1)", "torch.max(x, other=y)", "torch.min(x, dim=1, keepdim=True)", "torch.max(input=x)", "torch.einsum('ij->i', x)", "torch.set_default_dtype(d)",
    "torch.utils.cpp_extension.load(name='q', sources=[])", "torch.tensor([1], requires_grad=True)", "torch.zeros(3, pin_memory=True)", "torch.broadcast_tensors(x, y)", "torch.optim.SGD(p, lr=0.1)",
    "torch.nn.CrossEntropyLoss(w)", "torch.nn.functional.interpolate(x, 3)", "torch.cuda.is_available()", "torch.transpose(x, 0, 1)", "x.transpose(0, 1)", "torch.swapaxes(x, 0, 1)", "torch.cuda.stream(s)",
]


def one(r):
    c = r.randrange(10)
    if c == 9:
        k = r.choice(["einops", "torchvision", "datasets", "timm.models", "timm"])
        return "import torch\nimport %s\nfrom %s import nms as q\ny = torch.abs(%s.nms(x))\nz = q(y)\n" % (k, k, k)
    if c < 3:
        return gen.Prog(r).text()
    if c == 3:
        T = gen.tables()
        ks = r.sample(sorted(T.api), 6)
        ls = ["import torch, torchvision"]
        for k in ks:
            m = gen.class_method_of(k)
            ls.append("v = %s(%s)" % ("x." + m if m else k if re.fullmatch(r"[\w.]+", k) else "torch.abs", gen.legal_args(r, T.api[k])))
        return "\n".join(ls) + "\n"
    if c == 4:
        return "import torch, torchvision\n" + "".join("v%d = %s\n" % (k, r.choice(SNIPS)) for k in range(r.randrange(1, 4)))
    if c == 5:
        return "import torch\n" + "".join("v%d = %s\n" % (k, r.choice(SPECIAL)) for k in range(r.randrange(1, 5)))
    if c == 6:
        e, f = r.choice(EXT), r.choice(CLS)
        return r.choice([SETUP % (e, e), USE % (e, r.choice(EXT), f, e), LOAD % (e, e, f, e), APPLY % (f, f), LOAD % (e, e, f, e) + "w = %s.apply(x)\n" % f])
    if c == 7:
        return r.choice(["import numpy as np\nx = np.abs(1)\ny = x.abs()\n", "x = 1\n", "import %s\nz = %s.f(1)\n" % (r.choice(EXT), r.choice(EXT)), "from math import abs as nn\nnn.Linear(1)\n", "import torch as np\nnp.abs(x)\n", "from torch import nn as F\nF.Linear(2)\nimport torch.nn.functional as nn\nnn.relu(x)\n"])
    return r.choice(BAD)


def job(r, k, good):
    """(kind, options, files): a conversion; good: not a failing input"""
    opt = dict(no_format=r.random() < 0.8)
    if r.random() < 0.25:
        opt["mode"] = "min"
    if r.random() < 0.05:
        opt["only_complete"] = True

    def text():
        while True:
            t = one(r)
            if t not in BAD or not good:
                return t

    if r.random() < 0.15:
        return module_job(r)
    if r.random() < 0.45:
        return ("file", opt, {r.choice(["a.py", "b.py", "setup.py"]): text()})
    fs = {"m%d.py" % j: text() for j in range(r.randrange(1, 4))}
    if r.random() < 0.4:
        e, f = r.choice(EXT), r.choice(CLS)
        # (directory listings often come in reverse order of creation)
        new = [("0.py", SETUP % (e, e)), ("1.py", USE % (e, r.choice(EXT), f, e)), ("2.py", APPLY % (f, f))]
        fs.update(new if r.random() < 0.4 else new[::-1])
    if r.random() < 0.2:
        fs["requirements.txt"] = "torch\n"
    if r.random() < 0.25:
        # modules of the project with the names of known packages
        for p in r.sample(["einops.py", "torchvision.py", "datasets/__init__.py", "timm/models.py", "ext_a.py", "my_op/__init__.py"], r.randrange(1, 3)):
            fs[p] = "x = 1\n"
    return ("dir", opt, fs)


LOCAL = ["einops", "torchvision", "datasets", "timm", "timm.models"]


def module_job(r):
    """files that import known packages, which may be modules of the project"""
    k = r.choice(LOCAL)
    t = r.choice(["import %s\nx = %s.nms(1)\n" % (k, k), "from %s import nms\nx = nms(1)\n" % k, "import torch, %s as q\nx = q.nms(torch.abs(y))\n" % k, "from %s import nms as f\nimport torch\nx = f(torch.abs(y))\n" % k])
    fs = {"a.py": t}
    if r.random() < 0.5:
        fs["b.py"] = one(r)
    if r.random() < 0.5:
        fs[k.replace(".", "/") + r.choice([".py", "/__init__.py"])] = "x = 1\n"
    return ("dir", dict(no_format=r.random() < 0.8), fs)


def variant(r, j):
    """the job with other modules around, or with another text in a file"""
    kind, opt, fs = j
    fs = dict(fs)
    mods = [f for f in fs if any(f.startswith(k.split(".")[0]) for k in LOCAL)]
    if mods and r.random() < 0.7:
        for f in mods:
            del fs[f]
    elif r.random() < 0.7:
        ks = [k for k in LOCAL if any(k in t for t in fs.values())] or LOCAL
        fs[r.choice(ks).replace(".", "/") + r.choice([".py", "/__init__.py"])] = "x = 1\n"
    else:
        f = r.choice(sorted(fs))
        fs[f] = one(r)
    if not any(f.count("/") == 0 for f in fs):
        fs["z.py"] = "x = 1\n"
    return (kind, opt, fs)


def run_job(j, d):
    """Run one conversion in directory d; the observable outcome."""
    kind, opt, files = j
    shutil.rmtree(d, ignore_errors=True)
    src, dst = os.path.join(d, "src"), os.path.join(d, "dst")
    os.makedirs(src)
    for rel, t in files.items():
        os.makedirs(os.path.dirname(os.path.join(src, rel)), exist_ok=True)
        with open(os.path.join(src, rel), "w", encoding="UTF-8") as f:
            f.write(t)
    inp, outp = src, dst
    if kind == "file":
        os.makedirs(dst)
        inp = os.path.join(src, list(files)[0])
        outp = os.path.join(dst, list(files)[0])
    res = {}
    try:
        c, _ = make_converter(**opt)
        try:
            res["ret"] = c.run(inp, outp)
        except (Exception, RecursionError) as e:
            res["error"] = tb_line(e)
        res["api"] = json.dumps(c.all_api_map, sort_keys=True)
        res["uns"] = json.dumps(c.unsupport_api_map, sort_keys=True)
    except (Exception, RecursionError) as e:
        res["error"] = tb_short(e)
    fs = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            with open(p, encoding="UTF-8") as f:
                fs[os.path.relpath(p, d)] = f.read()
    res["files"] = fs
    return res


def canon(t):
    """Number generated names by first appearance (per key)."""
    seen = {}

    def sub(m):
        k = m.group(0)
        if k not in seen:
            n = sum(1 for s in seen if s.rsplit("_", 1)[0] == m.group(1))
            seen[k] = "%s_#%d" % (m.group(1), n)
        return seen[k]

    return re.sub(r"\b([A-Za-z_]\w*?)_(\d+)\b", sub, t)


def same_text(a, b):
    """equal up to the numbers of generated names; their width may change
    where long lines are broken"""
    if a is None or b is None or canon(a) == canon(b):
        return a == b or (a is not None and b is not None)
    import ast

    try:
        x, y = ["\n".join(l[6:] if l.startswith(">>>>>>") else l for l in canon(t).replace("_#", "_N").split("\n")) for t in (a, b)]
        return ast.dump(ast.parse(x)) == ast.dump(ast.parse(y))
    except SyntaxError:
        return False


def digest():
    from paconvert.global_var import GlobalManager as G

    h = hashlib.sha256()
    for k in sorted(vars(G)):
        v = vars(G)[k]
        if k.startswith("__") or not isinstance(v, (dict, list, set, tuple, str)):
            continue
        h.update(k.encode())
        h.update(repr(sorted(v) if isinstance(v, set) else v).encode())
    return h.hexdigest()


def in_child(fn):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                data = pickle.dumps(fn())
            except BaseException as e:
                data = pickle.dumps(dict(harness=tb_short(e)))
            with os.fdopen(wr, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


_D = None


def case(i):
    global _D
    r = rng("c14", i)
    d = new_dir("h")
    try:
        hist = [job(r, k, False) for k in range(r.randrange(1, 5))]
        last = job(r, 9, True)
        if r.random() < 0.2:
            last = r.choice(hist)
        same = set()
        if r.random() < 0.25:
            # the same place before, with other files around and other texts
            hist.append(variant(r, last))
            same.add(len(hist) - 1)
        dd = os.path.join(d, "t")
        alone = in_child(lambda: run_job(last, dd))

        def later():
            failed = 0
            for k, h in enumerate(hist):
                failed += "error" in run_job(h, os.path.join(d, "t" if k in same or r.random() < 0.5 else "u"))
            got = run_job(last, dd)
            return got, digest(), failed

        if _D is None:
            _D = in_child(digest)
        x = in_child(later)
        if isinstance(x, dict) or "harness" in alone:
            raise RuntimeError("harness %s" % (x if isinstance(x, dict) else alone))
        got, dg, failed = x
        prog = "\n\n".join("# conversion %d: %s %s\n%s" % (k, j[0], j[1], "\n".join("# file %s\n%s" % f for f in j[2].items())) for k, j in enumerate(hist + [last]))
        if dg != _D:
            raise Violation("a conversion modified the API tables (GlobalManager)", program=prog)
        for k in ("error", "ret", "api", "uns"):
            if alone.get(k) != got.get(k):
                raise Violation("%s of the last conversion depends on the conversions before it: %r alone, %r after them" % (dict(error="the failure", ret="the counts", api="the API list", uns="the not-supported list")[k], alone.get(k), got.get(k)), program=prog)
        a, b = alone["files"], got["files"]
        if sorted(a) != sorted(b):
            raise Violation("the set of files written depends on earlier conversions: %s alone, %s after them" % (sorted(a), sorted(b)), program=prog)
        for k in a:
            if not same_text(a[k], b[k]):
                raise Violation("the output %s depends on earlier conversions" % k, program=prog, alone=alone["files"][k], after=got["files"][k])
        return Case(prog, nontrivial=alone.get("ret", (0, 0)) != (0, 0), sample=prog[:400])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tables_case(api):
    """No rule changes its table entry, whatever call it converts."""
    from vlib.conv import convert
    from paconvert.global_var import GlobalManager as G

    T = gen.tables()
    r = rng("c14t", api)
    ent = T.api[api]
    m = gen.class_method_of(api)
    before = repr(G.API_MAPPING.get(api))
    calls = []
    for k in range(6 if THOROUGH else 3):
        a = gen.legal_args(r, ent, allow_unsupported=r.random() < 0.3)
        if r.random() < 0.2:
            a += (", " if a else "") + r.choice(["*z", "zzz=1", "**kw"])
        calls.append("v = %s(%s)" % ("x." + m if m else api, a))
    for c in calls:
        o = convert("import torch, torchvision, transformers, flash_attn, fairscale\n" + c + "\n")
        if repr(G.API_MAPPING.get(api)) != before:
            raise Violation("the table entry of %s was modified by a conversion" % api, program=c, before=before, after=repr(G.API_MAPPING.get(api)))
    return Case(api, sample=calls[-1])


def all_calls(r, apis):
    T = gen.tables()
    out = []
    for k in apis:
        ent = T.api[k]
        m = gen.class_method_of(k)
        pos, kwo, over = gen.params(ent)
        uns = set(ent.get("unsupport_args") or [])
        ks = [p for p in pos + kwo if p not in uns]
        for a in (gen.legal_args(r, ent), ", ".join("%s=%s" % (p, gen.expr(r)) for p in ks)):
            out.append((k, "import torch, torchvision, transformers, flash_attn, fairscale\nv = %s(%s)\n" % ("x." + m if m else k, a)))
    return out


def outcome(src):
    from vlib.conv import convert

    o = convert(src, keep_state=True)
    return (o.ret, o.out) if o.ok else ("failed", canon((o.error or "").split("\n")[0][:80]))


def after_all(job):
    """Every API once more after the conversions of all others, compared with
    the same conversion in a fresh process."""
    k, parts = job
    T = gen.tables()
    apis = [a for a in sorted(T.api) if re.fullmatch(r"[\w.]+", a)]
    r = rng("c14all", k)
    every = all_calls(r, apis)
    r.shuffle(every)
    mine = [c for c in every if apis.index(c[0]) % parts == k]

    def polluted():
        for _, s in every:
            outcome(s)
        return [outcome(s) for _, s in mine]

    late = in_child(polluted)
    if isinstance(late, dict):
        raise RuntimeError("harness %s" % late)
    for (a, s), got in zip(mine, late):
        alone = in_child(lambda: outcome(s))
        if alone[0] != got[0] or not same_text(alone[1], got[1]):
            raise Violation("the conversion of a use of %s after the conversions of the other APIs differs from the one in a fresh process" % a, program=s, alone=str(alone), after=str(got))
    return Case(k, n=len(mine), sample=mine[0][1])


def bounded(chk):
    parts = 8
    run_cases(chk, "after all other APIs", after_all, [(k, parts) for k in range(parts)], "two calls of every API in one process in a random order, then every call again, compared with its conversion in a fresh process (up to the numbers of generated names)", "two argument lists per API", budget=400 if THOROUGH else 60)
    n = 20000 if THOROUGH else 2500
    run_cases(chk, "histories", case, range(n), "a history of 1 to 4 conversions (files and projects; some failing half-way; default, min and complete-only mode; helper code, custom operators, hand-written rules) followed by one conversion, compared with the same conversion alone in a fresh process; non-trivial: the last conversion counts APIs", "<= 5 conversions", budget=420 if THOROUGH else 14)
    T = gen.tables()
    import re as _re

    apis = [k for k in sorted(T.api) if _re.fullmatch(r"[\w.]+", k)]
    run_cases(chk, "table entries", tables_case, apis, "every table entry, several calls each: the entry is unchanged afterwards", "3 calls per entry", budget=150 if THOROUGH else 8)
