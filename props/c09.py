"""C09: imports and name resolution."""
import ast
import re

from vlib import gen
from vlib.bounded import Case, run_cases
from vlib.common import Violation, rng, THOROUGH
from vlib.conv import convert, convert_tree

OTHER = [
    "numpy", "numpy.linalg", "sys", "collections.abc", "math", "mytorch", "torchlike", "torch2.nn", "oss", "osx.path", "my.torch", "torch_geometric", "torchx",
    "datasets2", "einops_ext.layers", "json", "timmy", "lightning_fabric", "jiebax", "transformersx.models", "paddle", "scipy.torch", "setuptools_scm", "mmcvx", "detectron2",
]
SUB = ["", ".nn", ".utils.data", ".models", ".a.b", ".path", ".functional", ".core"]
NAMES = ["nn", "Modle", "functional", "path", "x1", "Tnsr", "data", "load1", "Q", "ops", "utils"]


def tables():
    from paconvert.global_var import GlobalManager as G

    return dict(G.TORCH_PACKAGE_MAPPING), list(G.MAY_TORCH_PACKAGE_LIST), dict(G.IMPORT_PACKAGE_MAPPING), G


def pkg_of(name, pkgs):
    for p in pkgs:
        if name == p or name.startswith(p + "."):
            return p
    return None


class Spec:
    """What C09 demands, written independently of the transformer."""

    def __init__(self, mode, local=()):
        self.torch, self.may, self.imp, self.G = tables()
        self.mode = mode
        self.local = set(local)
        self.map = {}
        self.targets = set()

    def note(self, name):
        p = pkg_of(name, list(self.torch) + self.may)
        if p is None:
            return False
        self.targets.add(self.torch.get(p, p))
        return True

    def imports(self, n):
        """The statement that has to come out, or None."""
        if isinstance(n, ast.Import):
            keep = []
            for a in n.names:
                if a.name in self.local:
                    keep.append(a)
                elif self.note(a.name):
                    self.map[a.asname or a.name] = a.name
                    if self.mode == "min":
                        keep.append(a)
                elif pkg_of(a.name, self.imp):
                    p = pkg_of(a.name, self.imp)
                    if a.asname:
                        keep.append(ast.alias(self.imp[p] + a.name[len(p):], a.asname))
                    else:
                        keep.append(ast.alias(self.imp[p], p))
                else:
                    keep.append(a)
            return ast.Import(names=keep) if keep else None
        if n.level or n.module in self.local:
            return n
        if self.note(n.module):
            for a in n.names:
                self.map[a.asname or a.name] = n.module + "." + a.name
            return n if self.mode == "min" else None
        p = pkg_of(n.module, self.imp)
        if p:
            return ast.ImportFrom(module=self.imp[p] + n.module[len(p):], names=n.names, level=0)
        return n


class Expect(ast.NodeTransformer):
    def __init__(self, spec):
        self.s = spec

    def visit_Import(self, n):
        return self.s.imports(n)

    visit_ImportFrom = visit_Import

    def visit_Attribute(self, n):
        rest, b = [], n
        while isinstance(b, ast.Attribute):
            rest.append(b.attr)
            b = b.value
        if isinstance(b, ast.Name):
            if b.id in self.s.map:
                return ast.parse(".".join([self.s.map[b.id]] + rest[::-1])).body[0].value
            return n
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.s.map:
            n.func = ast.parse(self.s.map[n.func.id]).body[0].value
        return n


class NoPass(ast.NodeTransformer):
    def visit_Pass(self, n):
        return None

    def visit_Constant(self, n):
        return ast.Constant(n.value)


def norm(tree):
    t = NoPass().visit(tree)
    for n in ast.walk(t):
        if isinstance(n, ast.Attribute) or isinstance(n, ast.Name):
            n.ctx = ast.Load()
    return ast.dump(t)


class G_:
    def __init__(self, r):
        self.r = r
        self.t, self.may, self.imp, _ = tables()
        self.rec = [p for p in list(self.t) + self.may if "-" not in p]
        self.n = 0
        self.names = []  # names usable as first component

    def alias(self):
        self.n += 1
        return "%s%d" % (self.r.choice(["al", "T", "F", "nn", "x_"]), self.n)

    def module(self):
        r = self.r
        c = r.random()
        if c < 0.45:
            return (r.choice(self.rec) if r.random() < 0.5 else "torch") + r.choice(SUB)
        if c < 0.52:
            return r.choice(list(self.imp)) + r.choice(SUB)
        return r.choice(OTHER)

    def stmt(self):
        r = self.r
        if r.random() < 0.5:
            parts = []
            for _ in range(r.choice([1, 1, 2, 3, 4])):
                m = self.module()
                if r.random() < 0.6:
                    a = self.alias()
                    self.names.append(a)
                    parts.append("%s as %s" % (m, a))
                else:
                    self.names.append(m.split(".")[0])
                    parts.append(m)
            return "import " + ", ".join(parts)
        m = self.module()
        parts = []
        lv = r.random()
        if lv < 0.12:
            m = "." * r.randrange(1, 4) + (m if r.random() < 0.6 else "")
        for nm in r.sample(NAMES, r.choice([1, 1, 2, 3])):
            a = self.alias()
            self.names.append(a)
            parts.append("%s as %s" % (nm, a))
        if lv > 0.94:
            parts = ["*"]
        return "from %s import %s" % (m, ", ".join(parts))

    def dotted(self):
        r = self.r
        c = r.random()
        base = r.choice(self.names) if self.names and c < 0.7 else r.choice(["obj", "self", "cfg", "torch_packages", "other_packages", "may_torch_packages", "api_alias_name_map", "qq"])
        return base + "".join("." + r.choice(["nopea", "nopeb", "nopec", "noped", "nopee_", "_nopef", "Nopeg", "nope_2"]) for _ in range(r.randrange(1, 4) if r.random() < 0.9 else r.randrange(4, 8)))

    def expr(self, d=0):
        r = self.r
        c = r.randrange(12)
        if d > 2 or c < 3:
            return self.dotted()
        e = lambda: self.expr(d + 1)
        if c == 3:
            return "fn(%s, k=%s)" % (e(), e())
        if c == 4:
            return "%s(%s)" % (self.dotted(), e())
        if c == 5:
            return "%s(%s).nopez" % (self.dotted(), e())
        if c == 6:
            return "[%s, %s][0]" % (e(), e())
        if c == 7:
            return "(%s + %s).nopey.nopex" % (e(), e())
        if c == 8:
            return "{'k': %s}.nopew(%s)" % (e(), e())
        if c == 9:
            return "(lambda q=%s: %s)" % (e(), e())
        if c == 10:
            return "%s(%s)" % (r.choice(self.names or ["fn"]), e())
        return "(%s if %s else %s).nopev" % (e(), e(), e())

    def block(self, d=0):
        r = self.r
        out = []
        ind = lambda ls: ["    " + l for l in ls]
        for _ in range(r.randrange(1, 5)):
            c = r.randrange(13)
            sub = lambda: ind(self.block(d + 1))
            if c < 6 or d > 2 and c > 9:
                out.append(self.stmt())
            elif c < 9:
                out.append("v = %s" % self.expr())
            elif d > 2:
                out.append("w(%s)" % self.expr())
            elif c == 9:
                out += ["if %s:" % self.expr(2)] + sub() + (["else:"] + sub() if r.random() < 0.6 else [])
            elif c == 10:
                out += ["try:"] + sub() + ["except ImportError:"] + sub() + (["finally:"] + sub() if r.random() < 0.3 else [])
            elif c == 11:
                out += ["def f(a=%s):" % self.dotted()] + sub()
            else:
                out += [r.choice(["class C(%s):" % self.dotted(), "with %s:" % self.dotted(), "for i in %s:" % self.dotted()])] + sub()
        return out


def strip_marks(text):
    return "\n".join(l[6:] if l.startswith(">>>>>>") else l for l in text.split("\n"))


def compare(src, out, mode, local=(), what=""):
    sp = Spec(mode, local)
    tree = Expect(sp).visit(ast.parse(src))
    full = {".".join([f]) for f in sp.map.values()}
    for pat in list(sp.G.API_WILDCARD_MAPPING):
        if any(re.match(pat, f) or re.match(pat, f + ".nopea") for f in full):
            return None
    try:
        got = ast.parse(strip_marks(out))
    except SyntaxError as e:
        raise Violation("the result is not valid Python: %s" % e, program=src, output=out, mode=mode)
    fut = 0
    for i, n in enumerate(got.body):
        if isinstance(n, ast.ImportFrom) and n.module == "__future__":
            fut = i + 1
    k = len(sp.targets)
    ins = got.body[fut:fut + k]
    names = [a.name for n in ins if isinstance(n, ast.Import) for a in n.names if a.asname is None]
    if sorted(names) != sorted(sp.targets) or len(ins) != k:
        raise Violation("expected imports of the target packages %s, found %s" % (sorted(sp.targets), [ast.unparse(n) for n in ins]), program=src, output=out, mode=mode)
    del got.body[fut:fut + k]
    a, b = norm(tree), norm(got)
    if a != b:
        ta, tb = [l for l in ast.unparse(tree).split("\n") if l.strip() != "pass"], [l for l in ast.unparse(got).split("\n") if l.strip() != "pass"]
        dif = [(x, y) for x, y in zip(ta, tb) if x != y][:1] or [(ta[len(tb):][:1], tb[len(ta):][:1])]
        raise Violation("an import or name comes out wrong: expected %r, got %r" % dif[0], program=src, output=out, mode=mode)
    return len(sp.map)


def faithful(src):
    import astor

    try:
        return ast.dump(ast.parse(astor.to_source(ast.parse(src)))) == ast.dump(ast.parse(src))
    except Exception:
        return False


def one(i):
    r = rng("c09", i)
    g = G_(r)
    head = ["from __future__ import annotations"] if r.random() < 0.1 else []
    src = "\n".join(head + [g.stmt()] + g.block() + g.block()) + "\n"
    if not faithful(src):
        return None
    mode = r.choice(["default", "default", "min"])
    # names imported twice, and a name imported both ways, are outside the statement
    seen = {}
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                nm = a.asname or a.name
                full = a.name if isinstance(n, ast.Import) else "%s%s.%s" % ("." * n.level, n.module, a.name)
                if seen.setdefault(nm, full) != full:
                    return None
    o = convert(src, mode=mode)
    if not o.ok:
        raise Violation("conversion failed: " + o.error, program=src, mode=mode)
    k = compare(src, o.out, mode)
    return Case(src, nontrivial=bool(k), sample=src[:300])


LOCALS = [("einops.py", "einops"), ("torchvision/__init__.py", "torchvision"), ("torch/nn.py", "torch.nn"), ("datasets.py", "datasets"), ("timm/models/vit.py", "timm.models.vit"), ("mine.py", "mine"), ("audiotools.py", "audiotools")]


def local(i):
    r = rng("c09l", i)
    loc = r.sample(LOCALS, r.randrange(1, 4))
    mods = [m for _, m in loc]
    oth = ["numpy", "sys", "torch", "einops", "datasets", "torchvision", "os", "json", "kornia"]
    lines = []
    n = 0
    uses = []
    for _ in range(r.randrange(1, 5)):
        parts = []
        if r.random() < 0.6:
            for _ in range(r.randrange(1, 4)):
                m = r.choice(mods + oth)
                n += 1
                parts.append("%s as q%d" % (m, n))
                uses.append("q%d.nopea" % n)
            lines.append("import " + ", ".join(parts))
        else:
            n += 1
            m = r.choice(mods + oth)
            lines.append("from %s import nopeb as q%d" % (m, n))
            uses.append("q%d.nopec" % n)
    src = "\n".join(lines + ["v = [%s]" % ", ".join(uses)]) + "\n"
    mode = r.choice(["default", "min"])
    sub = r.choice(["", "pkg/"])
    files = {sub + p: "x = 1\n" for p, _ in loc}
    files[sub + "main_x.py"] = src
    # a directory is also found by the name of its parents
    present = set(mods)
    for p, m in loc:
        parts = m.split(".")
        for j in range(1, len(parts)):
            present.add(".".join(parts[:j]))
    o = convert_tree(files, mode=mode)
    if not o.ok:
        raise Violation("conversion failed: " + o.error, program=src, mode=mode)
    k = compare(src, o.files[sub + "main_x.py"], mode, present)
    return Case((src, tuple(mods)), nontrivial=True, sample=src[:300])


def bounded(chk):
    n = 60000 if THOROUGH else 5000
    run_cases(chk, "imports and dotted names", one, range(n), "random programs whose blocks mix import statements (recognised, other, relative, star, several names per statement) and dotted names below the imported aliases and below unrelated variables, in default and min mode; the whole output tree is compared with the tree demanded by the statement; non-trivial: at least one recognised import", "statements per block <= 4, nesting <= 3", budget=400 if THOROUGH else 15)
    run_cases(chk, "project modules", local, range(n // 10), "projects with modules named like recognised packages beside the importing file", "<= 4 statements", budget=200 if THOROUGH else 10)
