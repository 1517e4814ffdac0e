"""C10: helper code is written once, whole, in order, and in a safe place."""
import ast
import logging
import os
import shutil

from vlib.bounded import Case, run_cases
from vlib.common import Violation, rng, THOROUGH
from vlib.conv import convert, convert_tree, fresh_helper_state, make_converter, new_dir

IMPORTS = [
    "import paddle", "import os", "import numpy as np", "import a, b as c", "from math import sqrt", "from pkg import (\n    aaa,\n    bbb,\n)",
    "from pkg.sub import (aaa2,\n                     bbb2)", "from x.y import z as w", "import collections.abc", "from q import (\n    a1,\n    b1,\n)",
    "from . import rel", "from ..up import (\n    u1,\n    u2\n)", "import m1, \\\n    m2", "from k import k1, \\\n    k2", "from ff import *",
]
BODY = [
    "x = 1", "def f(a):\n    from math import (\n        pi,\n    )\n    return a", "class A:\n    import inner\n    y = 2", 'S = """\nimport nothing\nfrom nowhere import (\n"""',
    "if x:\n    import late\nelse:\n    pass", "try:\n    import opt\nexcept ImportError:\n    opt = None", "for i in range(3):\n    print(i)", "y = [\n    1,\n    2,\n]", "z = 'import a'",
    "import_me = 3", "fromage = (1, 2)", "# a comment", "@deco\ndef g():\n    pass",
]
DOC = ['"""One line."""', '"""Several\nlines\n\nimport not_code\n"""', '"""two\nlines"""']


def is_imp(n):
    return isinstance(n, (ast.Import, ast.ImportFrom))


def impset(body):
    s = set()
    for n in body:
        if is_imp(n):
            for a in n.names:
                s.add((n.module, n.level, a.name, a.asname) if isinstance(n, ast.ImportFrom) else (None, 0, a.name, a.asname))
    return s


def helper(r, k, long=False):
    c = r.randrange(4)
    nm = "hlp_%s" % k
    if c == 0:
        return "def %s(x):\n    return x + %d\n" % (nm, r.randrange(5))
    if c == 1:
        return "\ndef %s(x):\n    def inner(y):\n        return y\n\n    return inner(x)\n\n" % nm
    if c == 2:
        return "class %s(paddle.nn.Layer):\n    def forward(self, x):\n        return x" % nm
    return "\n\ndef %s(self, *args):\n    '''doc\n    import text\n    '''\n    return args\nsetattr(paddle, '%s', %s)\n" % (nm, nm, nm)


def check_file(text, orig, codes, dir_mode, ctx):
    """text is what was written; orig the statements it must hold besides the helper codes."""
    try:
        body = ast.parse(text).body
    except SyntaxError as e:
        raise Violation("the written file is not valid Python: %s" % e, output=text, **ctx)
    want = [ast.dump(s) for c in codes for s in ast.parse(c).body]
    got = [ast.dump(s) for s in body]
    if dir_mode:
        rest = [s for s in body if not is_imp(s)]
        if [ast.dump(s) for s in rest] != [w for w in want]:
            raise Violation("helper file: expected the %d required definitions once each, in order; got %d statements" % (len(want), len(rest)), output=text, **ctx)
        if impset(body) - {(None, 0, "paddle", None)}:
            raise Violation("helper file has unexpected imports", output=text, **ctx)
        return
    obody = ast.parse(orig).body
    if want:
        pos = [k for k in range(len(got)) if got[k:k + len(want)] == want]
        if len(pos) != 1:
            raise Violation("the required helper definitions do not occur once, together and in order (found %d times)" % len(pos), output=text, **ctx)
        p = pos[0]
        before = body[:p]
        lead = []
        for n in obody:
            if is_imp(n) or (n is obody[0] and isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                lead.append(n)
            else:
                break
        if any(not is_imp(n) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) for n in before):
            raise Violation("helper code stands after statements that are not imports", output=text, **ctx)
        if not impset(lead) <= impset(before):
            raise Violation("helper code stands before imports of the leading import block", output=text, **ctx)
        body = body[:p] + body[p + len(want):]
    a = [ast.dump(s) for s in obody if not is_imp(s)]
    b = [ast.dump(s) for s in body if not is_imp(s)]
    if a != b:
        raise Violation("statements of the converted file were lost, changed or reordered", output=text, **ctx)
    if impset(obody) != impset(body):
        raise Violation("imports of the converted file changed: %s" % (impset(obody) ^ impset(body)), output=text, **ctx)
    lines = iter([l.strip() for l in text.split("\n")])
    for l in orig.split("\n"):
        l = l.strip()
        if l.startswith("#") and l not in lines:
            raise Violation("the line %r was lost or moved" % l, output=text, **ctx)


def seq(i):
    """A history of conversions on the helper object itself."""
    from paconvert.utils import UtilsFileHelper

    r = rng("c10", i)
    fresh_helper_state()
    log = logging.getLogger("c10")
    log.disabled = True
    d = new_dir()
    hist = []
    nt = False
    try:
        outs = []
        for run in range(r.randrange(1, 5)):
            dirm = r.random() < 0.4
            if dirm:
                path = os.path.join(d, "run%d" % run, "paddle_utils.py")
                orig = ""
            else:
                path = os.path.join(d, "f%d.py" % run)
                parts = []
                if r.random() < 0.3:
                    parts.append(r.choice(DOC))
                if r.random() < 0.1:
                    parts.append("from __future__ import annotations")
                parts += r.sample(IMPORTS, r.randrange(0, 6))
                parts += r.sample(BODY, r.randrange(0, 6))
                sep = r.choice(["\n", "\n", "\n\n"])
                orig = sep.join(parts) + "\n"
                with open(path, "w") as f:
                    f.write(orig)
            h = UtilsFileHelper(path, dirm, log)
            codes = []
            pool = [helper(r, "%d_%d" % (run if r.random() < 0.5 else 0, k)) for k in range(r.randrange(0, 4))]
            ops = []
            for _ in range(r.randrange(0, 7)):
                if pool:
                    c = r.choice(pool)
                    if r.random() < 0.2:
                        c = c + "\n" * r.randrange(3)
                    UtilsFileHelper().add_code(c)
                    ops.append(c)
                    if c.rstrip("\n") not in codes:
                        codes.append(c.rstrip("\n"))
            fail = r.random() < 0.15
            hist.append(("dir" if dirm else "file", orig, ops, "abandoned" if fail else "written"))
            if fail:
                continue
            h.write_code()
            nt = nt or bool(codes)
            if dirm and not os.path.exists(path):
                if codes:
                    raise Violation("the helper file was not written", input=repr(hist))
                continue
            with open(path, encoding="UTF-8") as f:
                text = f.read()
            check_file(text, orig, codes, dirm, dict(input=repr(hist)))
            outs.append((path, text))
        for p, t in outs:
            with open(p, encoding="UTF-8") as f:
                if f.read() != t:
                    raise Violation("a later conversion changed the output of an earlier one", input=repr(hist))
        return Case(repr(hist), nontrivial=nt, sample=repr(hist)[:300])
    finally:
        shutil.rmtree(d, ignore_errors=True)
        fresh_helper_state()


SNIPS = [
    "torch.can_cast(a, b)", "torch.symeig(a, True)", "x.max(1)", "x.min(1, keepdim=True)", "x.split(2)", "torch.linalg.lu_solve(a, b, c)", "torch.nn.GRUCell(3, 4)",
    "torch.nn.LSTMCell(3, 4)", "torch.nn.RNNCell(3, 4)", "torch._foreach_erfc(a)", "torch.set_num_threads(2)", "torch.set_num_interop_threads(2)", "torch.nn.modules.utils._ntuple(2)",
    "torch.distributed.rpc.remote('w', f)", "torch.distributions.transforms.PositiveDefiniteTransform()", "torchvision.datasets.VOCDetection('r')", "torch.utils.set_module(a, b)",
    "torch.utils.checkpoint.checkpoint(f, a)", "torchvision.ops.roi_align(a, b, 3)", "torch.nn.functional._Reduction.get_enum('mean')", "torch.float_power(a, b)", "torch._foreach_zero_(a)",
    "torch.cpu.set_device('cpu')", "torch.cuda.set_device(d)", "torch.cuda.set_per_process_memory_fraction(a, d)", "torch.distributed.reduce_scatter_tensor(a, b)", "torch.nn.functional.softmin(x, 1)",
    "torch.abs(x)", "torch.add(x, y)", "y.view(-1)", "torch.nope(x)",
]
START = "####"
_H = None


def helpers():
    """Which helper statements each snippet needs, from converting it alone."""
    global _H
    if _H is None:
        _H = {}
        for s in SNIPS:
            o = convert_tree({"a.py": "import torch, torchvision\nv = " + s + "\n"})
            if o.ok:
                t = o.files.get("paddle_utils.py")
                _H[s] = [] if t is None else [ast.dump(n) for n in ast.parse(t).body if not is_imp(n)]
    return _H


LONG = ["from a_very_long_package_name.sub_package import first_name, second_name, third_name, fourth_name", "import numpy as np", "from pkg import a", "import aa, bb, cc", "from collections import OrderedDict as OD"]


def program(r):
    H = helpers()
    use = [r.choice([s for s in SNIPS if s in H]) for _ in range(r.randrange(1, 5))]
    head = ["import torch", "import torchvision"] + r.sample(LONG, r.randrange(0, 4))
    r.shuffle(head)
    doc = ['"""Module\n\nimport text\n"""'] if r.random() < 0.2 else []
    fut = ["from __future__ import annotations"] if r.random() < 0.15 else []
    body = []
    for k, u in enumerate(use):
        c = r.randrange(4)
        body.append(["v%d = %s", "if v:\n    w%d = %s", "def fn%d():\n    return %s", "k%d = [1, 2]\nprint(%s)"][c] % (k, u))
    return "\n".join(doc + fut + head + body) + "\n", use


def expected(uses):
    H = helpers()
    seen, out = set(), []
    for u in uses:
        key = tuple(H[u])
        if key and key not in seen:
            seen.add(key)
            out += H[u]
    return out


def unmark(t):
    return "\n".join(l[6:] if l.startswith(">>>>>>") else l for l in t.split("\n"))


def e2e(i):
    """Whole conversions, several in one process."""
    r = rng("c10e", i)
    nt = False
    key = []
    fresh_helper_state()
    for run in range(r.randrange(1, 4)):
        fmt = r.random() < 0.5
        if r.random() < 0.6:
            src, use = program(r)
            key.append(src)
            o = convert(src, keep_state=True, no_format=not fmt)
            if not o.ok:
                raise Violation("conversion failed: " + o.error, program="\n# ----\n".join(key))
            text = unmark(o.out)
            want = expected(use)
            ctx = dict(program="\n# ----\n".join(key), output=o.out)
            try:
                body = ast.parse(text).body
            except SyntaxError as e:
                raise Violation("the output is not valid Python: %s" % e, **ctx)
            idx = [k for k, n in enumerate(body) if not is_imp(n)]
            got = [ast.dump(body[k]) for k in idx]
            if want:
                nt = True
                pos = [k for k in range(len(got)) if got[k:k + len(want)] == want]
                if len(pos) != 1:
                    raise Violation("the %d helper statements needed by %s are not there once, together and in order" % (len(want), use), **ctx)
                first = pos[0]
                p = idx[first]
                pad = [k for k, n in enumerate(body) if isinstance(n, ast.Import) and any(a.name == "paddle" for a in n.names)]
                if not pad or pad[0] > p:
                    raise Violation("helper code stands before 'import paddle'", **ctx)
                if any(not is_imp(n) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) for n in body[:p]):
                    raise Violation("helper code stands after statements that are not imports", **ctx)
            if want:
                d = convert_tree({"a.py": src}, keep_state=True, no_format=not fmt)
                main = ast.parse(unmark(d.files["a.py"])).body if d.ok else []
                drop = lambda b: [ast.dump(n) for n in b if not is_imp(n) and "paddle_utils" not in ast.dump(n) and "sys" not in ast.dump(n)]
                g2 = [body[k] for k in idx[:first] + idx[first + len(want):]]
                import re

                num = lambda l: [re.sub(r"_\d+'", "_N'", s) for s in l]
                if d.ok and num(drop(g2)) != num(drop(main)):
                    raise Violation("the statements around the helper code differ from the converted file without it", **ctx)
        else:
            files, uses = {}, []
            for k in range(r.randrange(1, 4)):
                src, use = program(r)
                files["m%d.py" % k] = src
                uses.append(use)
            key.append(repr(files))
            o = convert_tree(files, keep_state=True, no_format=not fmt)
            ctx = dict(program="\n# ----\n".join(key), output=o.files.get("paddle_utils.py"))
            if not o.ok:
                raise Violation("conversion failed: " + o.error, **ctx)
            t = o.files.get("paddle_utils.py")
            want = expected([u for us in uses for u in us])
            if not want:
                if t is not None:
                    raise Violation("a helper file was written although no helper is needed", **ctx)
                continue
            nt = True
            if t is None:
                raise Violation("the helper file is missing", **ctx)
            got = [ast.dump(n) for n in ast.parse(t).body if not is_imp(n)]
            if sorted(got) != sorted(want):
                raise Violation("the helper file does not hold the %d required statements once each" % len(want), **ctx)
            if len(files) == 1 and got != want:
                raise Violation("the helper definitions are not in the order first required", **ctx)
    return Case("".join(key), nontrivial=nt, sample=key[0][:300])


def bounded(chk):
    helpers()
    n = 40000 if THOROUGH else 3000
    run_cases(chk, "helper histories", seq, range(n), "histories of up to 4 conversions on the helper object: registrations with repetitions, abandoned conversions, file and directory mode, files with every kind of import statement and body; non-trivial: some helper was written", "<= 4 conversions, <= 6 registrations each", budget=300 if THOROUGH else 12)
    run_cases(chk, "whole conversions", e2e, range(n // 8), "up to 3 conversions of programs or projects that need helpers, in one process, with and without formatting; expected helpers learned from converting each use alone", "<= 4 uses per program", budget=300 if THOROUGH else 15)
