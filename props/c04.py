"""C04: files without an import of a recognised package come out unchanged."""
import ast

from vlib import gen
from vlib.bounded import Case, run_cases
from vlib.common import Violation, rng, THOROUGH
from vlib.conv import convert

HEADERS = [
    "import numpy as np", "import sys", "from math import sqrt, pi as PI", "from . import torch", "from .torch import nn", "from . import datasets",
    "import mytorch.nn as nn", "import torchlike", "from my.torch import nn as nn2", "from functools import partial", "import collections.abc",
    "import random, json as js", "from ..transformers import AutoModel", "import re as os2", "import myaudiotools.core", "from pkg import *",
    "import tensorflow as tf", "import jax.numpy as jnp", "from setuptools_scm import x", "import oss", "import paddle", "import einops_ext",
    "from numpy import array as Tensor", "import torch_geometric as tg", "from torchmetrics import Accuracy", "import timm_x, jieba2",
]
LINES = [
    "torch = load()", "datasets = load('d')", "print(hasattr(datasets, 'train'))", "setattr(torch, 'nn', 1)", "isinstance(x, Tensor)", "class A(Module): pass",
    "x.cuda().abs()", "y = x.data.size(0)", "opt.zero_grad(); opt.step()", "z = x.T.device", "self.weight.data.add_(1)", "model.load_state_dict(sd, strict=False)",
    "(x + y).transpose(1, 0)", "x[0].view(-1)", "torch.abs(x)", "nn.Module", "v = torch.float32", "f = lambda t: t.numpy()", "g = [q.item() for q in x.chunk(2)]",
    "@torch.no_grad()\ndef h(x):\n    return x.mean(dim=0)", "async def k(x):\n    await x.float()", "with torch.no_grad():\n    x.relu_()",
    "ctx.save_for_backward(x)", "d = {'a': Tensor, 'b': x.dtype}", "s = 'torch.abs'", "partial(torch.abs, 1)", "x.add_(y, alpha=2).sub_(z)", "os2.path.join(a, b)",
    "del x", "global_step: int = 0", "assert x.is_contiguous(), 'm'", "for i, (a, b) in enumerate(zip(x, y)):\n    a.copy_(b)", "import_ = 1", "print(f'{x}')",
    "x = y if z.is_cuda else w.cpu()", "(a, *b) = c", "try:\n    import numpy\nexcept ImportError:\n    numpy = None", "def f(a, /, b, *, c: Tensor = None) -> Tensor:\n    return b",
    "class B(object):\n    def __init__(self):\n        super(B, self).__init__()\n        self.register_buffer('a', b)", "setup(name='x')", "einops.rearrange(x, 'b c -> c b')",
    "x.grad.zero_()", "while True:\n    break", "x @= y", "n = -x.abs() ** 2", "raise ValueError('x')", "lr_scheduler.step()", "paddle.abs(x)", "np.abs(x).sum()", "ndarray.abs()", "x = args.abs()",
    "hasattr(torch, 'x')", "getattr(torch, 'x')", "super(Dataset).__init__()", "transformers.AutoModel.from_pretrained('x')", "np.random.rand(3).astype('float32')",
]


RECOGNISED = ["torch", "torchvision", "torchaudio", "timm", "transformers", "datasets", "accelerate", "diffusers", "os", "setuptools", "einops",
              "audiotools", "mmcv", "kornia", "NLTK", "jieba", "lightning", "flash_attn", "fairscale", "detectron", "fasttext", "torch_xla", "pytorch_lightning"]


TEXTS = [
    repr("line one of a text which is long enough to be printed over lines   \nline two \t with blanks at the end  \n    third\n"),
    repr("\n\nparagraph   \n\n  indented torch.abs(x)\n\ttabbed paragraph which goes on for a while\n\n\n"),
    repr("x" * 130), repr("import torch\nfrom torch import nn\n# not code, but the text of a program which is quoted\n"), repr("carriage\rreturn\x0cfeed\x00nul\u2028sep and some more characters to be long enough"),
    repr("ends with a backslash and is rather long, so that it may be broken somewhere \\"), repr("both 'single' and \"double\" quotes and \"\"\"triple\"\"\" in a text, which is long too"),
]


def lookalike(r):
    """an import of a package whose name is close to a recognised one"""
    p = r.choice(RECOGNISED)
    q = r.choice([p + "2", p + "_x", "x" + p, "_" + p, p[:-1], p.upper(), p.capitalize(), p.swapcase(), p.lower(), p + "s", "my." + p, "a.b." + p + ".c", p + p, p.replace("o", "0"), p[1:], "paddle" + p, p + "_"])
    if q.split(".")[0] in RECOGNISED + ["mmseg", "mmdet", "mmdet3d", "mmengine"] or not all(k.isidentifier() for k in q.split(".")):
        return "import abc"
    return r.choice(["import %s", "import %s.sub", "import %s as al", "from %s import abs", "from %s import nn as torch", "from %s.nn import Module", "from . import " + q.split(".")[0], "from %s import path, Tensor", "from .%s import *", "from ..%s.z import y"]).replace("%s", q)


def imports_of(tree):
    s = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            s |= {("", 0, a.name, a.asname) for a in n.names}
        elif isinstance(n, ast.ImportFrom):
            s |= {(n.module, n.level, a.name, a.asname) for a in n.names}
    return s


def without_imports(tree):
    class T(ast.NodeTransformer):
        def visit_Import(self, node):
            return None

        visit_ImportFrom = visit_Import

        def visit_Expr(self, node):
            # only a string statement can be a docstring
            if isinstance(node.value, ast.Constant) and isinstance(node.value.value, str):
                return ast.copy_location(ast.Expr(ast.Constant(" ".join(node.value.value.split()))), node)
            return self.generic_visit(node)

    return ast.dump(T().visit(tree))


def faithful(src):
    import astor

    try:
        t = ast.parse(src)
        return ast.dump(ast.parse(astor.to_source(t))) == ast.dump(ast.parse(src))
    except Exception:
        return False


def check(src, opt):
    o = convert(src, **opt)
    text = "# options %r\n%s" % (opt, src)
    if not o.ok:
        raise Violation("the conversion fails: " + o.error, program=text)
    c = o.conv
    if c.torch_api_count or c.success_api_count or tuple(o.ret) != (0, 0) or dict(c.all_api_map) or dict(c.unsupport_api_map):
        raise Violation("reports %r API uses in a file without recognised imports" % c.torch_api_count, program=text, observed=o.out)
    if any(l.startswith(">>>>>>") for l in o.out.split("\n")):
        raise Violation("a line is marked", program=text, observed=o.out)
    try:
        got = ast.parse(o.out)
    except SyntaxError as e:
        raise Violation("the output does not parse: %s" % e, program=text, observed=o.out)
    want = ast.parse(src)
    if opt.get("no_format", True):
        same = ast.dump(got) == ast.dump(want)
    else:
        same = imports_of(got) == imports_of(want) and without_imports(got) == without_imports(want)
    if not same:
        raise Violation("the syntax tree changed", program=text, observed=o.out)


def case(i):
    r = rng("c04", i)
    head = [h for h in HEADERS if r.random() < 0.2]
    head += [lookalike(r) for _ in range(r.choice([0, 0, 1, 2]))]
    r.shuffle(head)
    if r.random() < 0.6:
        body = [r.choice(LINES) for _ in range(r.randrange(1, 12) if r.random() < 0.97 else r.randrange(60, 200))]
        for _ in range(r.choice([0, 0, 1, 2])):
            e = r.choice(TEXTS) if r.random() < 0.3 else gen.exotic(r)
            body.insert(r.randrange(len(body) + 1), r.choice(["v = %s", "f(%s)", "return_[%s] = 1", "class D:\n    a = %s", "def h(x=%s):\n    pass", "%s"]).replace("%s", e))
    else:
        p = gen.Prog(r)
        body = p.block()
    if r.random() < 0.2:
        body = ["def outer():"] + ["    " + l for b in body for l in b.split("\n")]
    src = "\n".join(head + body) + "\n"
    opt = dict(mode=r.choice(["default", "min"]), no_format=r.random() < 0.75)
    try:
        ast.parse(src)
    except SyntaxError:
        return None
    if not faithful(src):
        return None
    check(src, opt)
    return Case(src, "." in src, sample=src[:300])


def name_case(api):
    """Every mapped name, spelled as if imported, without the import."""
    m = gen.class_method_of(api)
    us = ["%s(x, 1, dim=2)" % api, "v = %s" % api, "class A(%s): pass" % api]
    if m:
        us += ["x.%s(1)" % m, "v = x.%s" % m, "self.w.%s" % m, "f(x).%s()" % m]
    tail = api.split(".")[-1]
    us += ["%s(x)" % tail, "isinstance(x, %s)" % tail]
    src = "import numpy as np\n" + "\n".join(us) + "\n"
    try:
        ast.parse(src)
    except SyntaxError:
        return None
    for mode in ("default", "min"):
        check(src, dict(mode=mode, no_format=True))
    return Case(api, True)


def bounded(chk):
    n = 60000 if THOROUGH else 6000
    run_cases(chk, "programs without recognised imports", case, range(n),
              "look-alike imports and lines (methods, attributes, names of the mapped APIs) or generated blocks; only inputs the printer astor reproduces itself; both modes, with and without formatting (then modulo import order and white space in strings); non-trivial: has an attribute access",
              "%d programs" % n)
    T = gen.tables()
    run_cases(chk, "every mapped name", name_case, sorted(set(T.api) | set(T.attr) | set(T.alias)),
              "each table name in 3-9 uses without its import; each name counts once", "all table names")
