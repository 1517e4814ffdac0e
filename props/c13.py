"""C13: extra lines go directly in front of the statement that needs them."""
import ast
import copy
import re

from vlib.bounded import Case, run_cases
from vlib.common import Violation, rng, THOROUGH
from vlib.conv import convert

# one use of an API; {0}, {1} are its operands
LEAVES = [
    "torch.autograd.Variable({0}, requires_grad={1})", "torch.adjoint({0})", "torch.linalg.slogdet({0})", "{0}.eq_({1})", "torch.scalar_tensor({0}, requires_grad={1})",
    "torch.abs({0})", "torch.nope({0}, {1})", "torch.linalg.eig({0}, out={1})", "{0}.logical_not_()", "torch.add({0}, {1})", "{0}.svd()",
]
UNIQ = re.compile(r"^(\w*?)_(\d+)$")
_tpl = {}


def unmark(t):
    return "\n".join(l[6:] if l.startswith(">>>>>>") else l for l in t.split("\n"))


def strip_head(tree):
    b = tree.body
    while b and isinstance(b[0], ast.Import):
        b = b[1:]
    return b


def learn(k):
    """(prelude, value, converted) of one use, learned from a program with only that statement."""
    if k in _tpl:
        return _tpl[k]
    src = "import torch\nRES = %s\n" % LEAVES[k].format("OPA", "OPB")
    o = convert(src)
    r = None
    if o.ok:
        b = strip_head(ast.parse(unmark(o.out)))
        if b and isinstance(b[-1], ast.Assign):
            r = (b[:-1], b[-1].value)
    _tpl[k] = r
    return r


class Sub(ast.NodeTransformer):
    def __init__(self, m, ren):
        self.m, self.ren = m, ren

    def visit_Name(self, n):
        if n.id in self.m:
            return copy.deepcopy(self.m[n.id])
        q = UNIQ.match(n.id)
        if q and q.group(1) in ("perm", "out"):
            return ast.Name("%s_%s" % (q.group(1), self.ren), n.ctx)
        return n


class Gen:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.v = 0
        self.multi = 0
        # long blocks and long names with a common beginning are rare
        self.long = r.random() < 0.06
        self.pre = "the_same_rather_long_beginning_of_all_of_the_variable_names_" if r.random() < 0.06 else ""

    def name(self):
        self.v += 1
        return "%s%s%d" % (self.pre, self.r.choice("abcw"), self.v)

    def leaf(self, d=0):
        """(source text, prelude statements, value expression)"""
        r = self.r
        k = r.randrange(len(LEAVES))
        t = learn(k)
        if t is None:
            nm = self.name()
            return nm, [], ast.Name(nm, ast.Load())
        ops, pre, m = [], [], {}
        for i, ph in enumerate(("OPA", "OPB")):
            # only operands that are printed as plain text next to a dot
            if "{%d}" % i in LEAVES[k] and d < 2 and r.random() < 0.25 and k in (1, 2, 4, 5, 9):
                s, p, v = self.leaf(d + 1)
                if isinstance(v, (ast.Call, ast.Name)):
                    pre += p
                else:
                    s = self.name()
                    v = ast.Name(s, ast.Load())
            else:
                s = self.name()
                v = ast.Name(s, ast.Load())
            ops.append(s)
            m[ph] = v
        if "{1}" not in LEAVES[k]:
            pass
        self.n += 1
        sub = Sub(m, "u%d" % self.n)
        pp = [sub.visit(copy.deepcopy(s)) for s in t[0]]
        if pp:
            self.multi += 1
        return LEAVES[k].format(*ops), pre + pp, sub.visit(copy.deepcopy(t[1]))

    def expr(self, d=0):
        """an expression: (source, prelude, expected expression)"""
        r = self.r
        c = r.randrange(11)
        if d > 1 or c < 4:
            return self.leaf()
        if c == 4:
            nm = self.name()
            return nm, [], ast.Name(nm, ast.Load())
        a = self.expr(d + 1)
        b = self.expr(d + 1)
        P = a[1] + b[1]
        if c == 5:
            return "fn(%s, k=%s)" % (a[0], b[0]), P, ast.Call(ast.Name("fn", ast.Load()), [a[2]], [ast.keyword("k", b[2])])
        if c == 6:
            return "(%s + %s)" % (a[0], b[0]), P, ast.BinOp(a[2], ast.Add(), b[2])
        if c == 7:
            return "[%s, %s]" % (a[0], b[0]), P, ast.List([a[2], b[2]], ast.Load())
        if c == 8:
            return "qq[%s]" % a[0], a[1], ast.Subscript(ast.Name("qq", ast.Load()), a[2], ast.Load())
        if c == 9:
            return "(%s < %s)" % (a[0], b[0]), P, ast.Compare(a[2], [ast.Lt()], [b[2]])
        # where no place exists, the use stays as it is
        s = r.choice(["[torch.adjoint(i) for i in %s]", "(lambda i: torch.adjoint(i))(%s)", "{torch.linalg.slogdet(i) for i in %s}", "fn(torch.adjoint(i) for i in %s)"])
        s = s % self.name()
        return s, [], ast.parse(s, mode="eval").body

    def simple(self, fn):
        r = self.r
        c = r.randrange(7)
        e = self.expr()
        if c < 3:
            nm = self.name()
            return ["%s = %s" % (nm, e[0])], e[1] + [ast.Assign([ast.Name(nm, ast.Store())], e[2], lineno=0)]
        if c == 3:
            return ["fn(1, %s)" % e[0]], e[1] + [ast.Expr(ast.Call(ast.Name("fn", ast.Load()), [ast.Constant(1), e[2]], []))]
        if c == 4 and fn:
            return ["return %s" % e[0]], e[1] + [ast.Return(e[2])]
        if c == 5:
            nm = self.name()
            return ["%s += %s" % (nm, e[0])], e[1] + [ast.AugAssign(ast.Name(nm, ast.Store()), ast.Add(), e[2])]
        if c == 6:
            nm = self.name()
            return ["%s = 1" % nm], [ast.Assign([ast.Name(nm, ast.Store())], ast.Constant(1), lineno=0)]
        return ["assert %s" % e[0]], e[1] + [ast.Assert(e[2])]

    def block(self, d=0, fn=False, afn=False):
        r = self.r
        lines, body = [], []
        n = r.randrange(1, 4)
        if self.long and d < 2 and r.random() < 0.6:
            self.long = False
            n = r.randrange(11, 26)
        for _ in range(n):
            l, b = self.simple(fn) if n > 10 else self.stmt(d, fn, afn)
            lines += l
            body += b
        return lines, body

    def stmt(self, d, fn, afn):
        r = self.r
        c = r.randrange(20) if d < 4 else 0
        if c < 8:
            return self.simple(fn)
        ind = lambda ls: ["    " + l for l in ls]

        def sub(f=fn, a=afn):
            l, b = self.block(d + 1, f, a)
            return ind(l), b

        def head():
            return self.expr(1) if r.random() < 0.35 else (lambda n: (n, [], ast.Name(n, ast.Load())))(self.name())

        if c < 11:
            h = head()
            l, b = sub()
            L = ["if %s:" % h[0]] + l
            orelse = []
            k = r.random()
            if k < 0.3:
                l2, orelse = sub()
                L += ["else:"] + l2
            elif k < 0.6:
                h2 = head()
                l2, b2 = sub()
                l3, b3 = sub() if r.random() < 0.5 else ([], [])
                L += ["elif %s:" % h2[0]] + l2 + (["else:"] + l3 if l3 else [])
                orelse = h2[1] + [ast.If(h2[2], b2, b3)]
            return L, h[1] + [ast.If(h[2], b, orelse)]
        if c < 13:
            h = head()
            l, b = sub()
            L = ["for i in %s:" % h[0]] + l
            orelse = []
            if r.random() < 0.3:
                l2, orelse = sub()
                L += ["else:"] + l2
            cls = ast.For
            if afn and r.random() < 0.5:
                L[0] = "async " + L[0]
                cls = ast.AsyncFor
            return L, h[1] + [cls(ast.Name("i", ast.Store()), h[2], b, orelse, lineno=0)]
        if c == 13:
            h = head()
            l, b = sub()
            L = ["while %s:" % h[0]] + l
            orelse = []
            if r.random() < 0.3:
                l2, orelse = sub()
                L += ["else:"] + l2
            return L, h[1] + [ast.While(h[2], b, orelse)]
        if c < 16:
            l, b = sub()
            L = ["try:"] + l
            hs, oe, fb = [], [], []
            if r.random() < 0.8:
                for _ in range(r.randrange(1, 3)):
                    l2, b2 = sub()
                    L += ["except E%d as e:" % d] + l2
                    hs.append(ast.ExceptHandler(ast.Name("E%d" % d, ast.Load()), "e", b2))
                if r.random() < 0.4:
                    l2, oe = sub()
                    L += ["else:"] + l2
            if not hs or r.random() < 0.3:
                l2, fb = sub()
                L += ["finally:"] + l2
            return L, [ast.Try(b, hs, oe, fb)]
        if c == 16:
            h = head()
            l, b = sub()
            L = ["with %s as cm:" % h[0]] + l
            cls = ast.With
            if afn and r.random() < 0.5:
                L[0] = "async " + L[0]
                cls = ast.AsyncWith
            return L, h[1] + [cls([ast.withitem(h[2], ast.Name("cm", ast.Store()))], b, lineno=0)]
        if c < 19:
            h = head()
            a = r.random() < 0.4
            l, b = sub(True, a)
            nm = "f%d" % r.randrange(99)
            L = ["%sdef %s(x, y=%s):" % ("async " if a else "", nm, h[0])] + l
            args = ast.arguments([], [ast.arg("x"), ast.arg("y")], None, [], [], None, [h[2]])
            return L, h[1] + [(ast.AsyncFunctionDef if a else ast.FunctionDef)(nm, args, b, [], None, None, type_params=[], lineno=0)]
        l, b = sub(False, False)
        nm = "C%d" % r.randrange(99)
        return ["class %s(Base):" % nm] + l, [ast.ClassDef(nm, [ast.Name("Base", ast.Load())], [], b, [], type_params=[])]


def canon(tree):
    """text with the generated names renumbered by first occurrence"""
    tree = ast.parse(ast.unparse(ast.fix_missing_locations(tree)))
    seen = {}

    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            q = re.match(r"^(perm|out)_(\w+)$", n.id)
            if q:
                n.id = "%s_%s" % (q.group(1), seen.setdefault(n.id, "N%d" % len(seen)))
            return n

    return ast.unparse(R().visit(tree))


def watch():
    """make every visit check that the traversal context is restored"""
    from paconvert.base import BaseTransformer as B

    if getattr(B.visit, "_watched", False):
        return
    real = B.visit

    def visit(self, node):
        a = [list(getattr(self, f, ())) for f in ("node_stack", "scope_stack")]
        r = real(self, node)
        b = [list(getattr(self, f, ())) for f in ("node_stack", "scope_stack")]
        if any(len(p) != len(q) or any(s is not t for s, t in zip(p, q)) for p, q in zip(a, b)):
            B._watch_bad = "%s: context of depth %s before and %s after" % (type(node).__name__, [len(p) for p in a], [len(q) for q in b])
        return r

    visit._watched = True
    B.visit = visit
    B._watch_bad = None


def one(i):
    from paconvert.base import BaseTransformer as B

    r = rng("c13", i)
    g = Gen(r)
    lines, body = [], []
    n = r.randrange(1, 4)
    if g.long and r.random() < 0.4:
        g.long = False
        n = r.randrange(11, 40)
    for _ in range(n):
        l, b = g.simple(False) if n > 10 else g.stmt(0 if r.random() < 0.8 else 2, False, False)
        lines += l
        body += b
    src = "import torch\n" + "\n".join(lines) + "\n"
    try:
        t = ast.parse(src)
        want = canon(ast.Module(body, []))
    except SyntaxError:
        return None
    import astor

    try:
        if ast.dump(ast.parse(astor.to_source(t))) != ast.dump(ast.parse(src)):
            return None
        w = ast.parse(want)
        if ast.dump(ast.parse(astor.to_source(w))) != ast.dump(ast.parse(want)):
            return None  # the printer astor cannot print it
    except Exception:
        return None
    watch()
    B._watch_bad = None
    o = convert(src)
    if not o.ok:
        raise Violation("conversion failed: " + o.error, program=src)
    if B._watch_bad:
        raise Violation("the traversal context is not restored: " + B._watch_bad, program=src)
    try:
        got = ast.parse(unmark(o.out))
    except SyntaxError as e:
        raise Violation("the result is not valid Python: %s" % e, program=src, output=o.out)
    got = canon(ast.Module(strip_head(got), []))
    if got != want:
        wl, gl = want.split("\n"), got.split("\n")
        d = [(x, y) for x, y in zip(wl, gl) if x != y][:1] or [("end" if len(wl) < len(gl) else wl[len(gl)], "end" if len(gl) < len(wl) else gl[len(wl)])]
        raise Violation("a statement or an extra line is in the wrong place: expected %r, got %r" % d[0], program=src, output=o.out)
    return Case(src, nontrivial=g.multi > 0, sample=src[:300])


def bounded(chk):
    for k in range(len(LEAVES)):
        learn(k)
    n = 60000 if THOROUGH else 4000
    run_cases(chk, "block structures", one, range(n), "random nestings of if/elif/else, for/while/else, try/except/else/finally, with, def, class and the async forms, whose statements and headers use APIs that need extra lines (learned from converting the use alone), also inside comprehensions and lambdas; the whole output is compared with the expected program; non-trivial: at least one use needs extra lines", "nesting <= 4, <= 3 statements per block", budget=400 if THOROUGH else 30)
