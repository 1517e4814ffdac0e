"""Contract of insert_scope (paconvert/base.py): the recorded lines are put in front of the
statements they are recorded for, and nothing else changes.

The blocks are different lists, so one arbitrary recorded block of one arbitrary scope is looked
at: B0 is the block, and the recorded lines are pairs of an index (the position of a statement of
B0, or its end) and lines, each index once.  Invariant of the loop over the pairs, with k the index
of the last one (the end at first): the block is B0[:k] followed by W, for some W.  One iteration
gives B0[:i], the lines, B0[i:k], W.  Hence, by induction, all statements of B0 stay in their order,
and directly in front of the one at i are the lines recorded for i, in their order."""
import z3

from .contracts import *
from .engine import *
from .values import *

BT = "paconvert.transformer.basic_transformer.BasicTransformer"
BASE = "paconvert.base.BaseTransformer"


class Pieces:
    """A sequence as pieces s[a:b] of named sequences; the solver only decides positions."""

    def __init__(self, e, ps):
        self.e, self.ps = e, [p for p in ps if not self.sure(e, p[1] == p[2])]

    @staticmethod
    def sure(e, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return e.check(z3.Not(t), ms=20000) == z3.unsat

    def length(self):
        return sum((b - a for _, a, b in self.ps), z3.IntVal(0))

    def insert(self, i, piece):
        e, at = self.e, z3.IntVal(0)
        for k, (s, a, b) in enumerate(self.ps):
            if self.sure(e, z3.And(at <= i, i <= at + b - a)):
                m = a + i - at
                return Pieces(e, self.ps[:k] + [(s, a, m), piece, (s, m, b)] + self.ps[k + 1 :])
            at = at + b - a
        if self.sure(e, i == at):
            return Pieces(e, self.ps + [piece])
        raise Unsupported("the place of an insertion")

    def merged(self):
        out = []
        for s, a, b in self.ps:
            if out and out[-1][0] == s and self.sure(self.e, out[-1][2] == a):
                out[-1] = (s, out[-1][1], b)
            else:
                out.append((s, a, b))
        return out

    def same(self, other):
        x, y = self.merged(), other.merged()
        return len(x) == len(y) and all(p[0] == q[0] and self.sure(self.e, z3.And(p[1] == q[1], p[2] == q[2])) for p, q in zip(x, y))


def kept(e, name, b):
    """if an invariant does not hold, the function may still be right (it loops in another way)"""
    if not b:
        raise Unsupported("not kept: " + name)
    e.prove(name, True)


class Insert(NestSpec):
    def __init__(self, e):
        self.e = e
        self.n0 = e.fresh("block_n", INT)
        e.assume(self.n0 >= 0)
        self.B = self.block(("B0", z3.IntVal(0), self.n0))
        self.idx = z3.Const("indices", z3.ArraySort(INT, INT))
        self.pairs = e.sym_list("pairs")
        self.pairs.elem, self.pairs.arr = self.pair, None
        self.current = None
        self.order = 0

    def block(self, *ps):
        return Pieces(self.e, list(ps))

    def pair(self, e, p):
        v = e.sym_list("lines")
        self.current = (z3.Select(self.idx, p), v)
        return VTuple((SInt(self.current[0]), v))

    # ---------------------------------------------------------------- the objects
    def items(self, e, a, k):
        o = e.new(VObj("items"))
        o.fields["__sorted__"] = self.sort
        return o

    def sort(self, e, kw):
        x = VTuple((SInt(e.fresh("some_index", INT)), SRef(e.fresh("some_lines", RefSort))))
        key = kw.get("key")
        if key is not None:
            r = e.resolve(e.call(key, [x], {}))
            if not isinstance(r, SInt) or not r.t.eq(x.items[0].t):
                raise Unsupported("sorted by something else")
        # without a key by the first component, too: no index is twice in it
        self.order = -1 if kw.get("reverse") is True else 1
        return self.pairs

    def insert(self, e, a, k):
        i, x = e.unwrap(e.resolve(a[0]), "int"), e.unwrap(e.resolve(a[1]), "ref")
        if self.current is None:
            raise Unsupported("an insertion outside of the loops")
        # which line is it
        l = self.current[1]
        for q in self.places:
            if Pieces.sure(e, z3.And(q >= 0, q < l.n, x == z3.Select(l.arr, q))):
                break
        else:
            raise Unsupported("another line is inserted")
        self.B = self.B.insert(i, ("L", q, q + 1))

    # ---------------------------------------------------------------- the loops
    def pick(self, e, l):
        if l is self.pairs:
            return Pairs(self)
        if self.current is not None and not l.concrete and l.elem == "ref":
            return Lines(self)
        return None


class Pairs(StepSpec):
    def __init__(self, s):
        self.s = s

    def begin(self, e, p):
        s = self.s
        self.k, self.w = e.fresh("k", INT), e.fresh("w", INT)
        i = z3.Select(s.idx, p)
        e.assume(z3.And(self.k >= 0, self.k <= s.n0, i >= 0, i <= s.n0, self.w >= 0))
        # descending: the one before is larger
        e.assume(i <= self.k if s.order < 0 else i >= self.k)
        s.B = s.block(("B0", z3.IntVal(0), self.k), ("W", z3.IntVal(0), self.w))

    def step(self, e, p, appended):
        s = self.s
        i, l = s.current
        kept(e, "the lines come directly in front of the statement they are recorded for, everything else keeps its order",
             s.B.same(s.block(("B0", z3.IntVal(0), i), ("L", z3.IntVal(0), l.n), ("B0", i, self.k), ("W", z3.IntVal(0), self.w))))
        s.current = None


class Lines(StepSpec):
    """the lines of one place are inserted from the last to the first"""

    def __init__(self, s):
        self.s, self.B1 = s, s.B
        self.i, self.l = s.current

    def block_at(self, e, done):
        n = self.l.n
        if Pieces.sure(e, done == 0):
            return self.B1
        return self.B1.insert(self.i, ("L", n - done, n))

    def begin(self, e, j):
        self.s.B = self.block_at(e, j)
        self.s.places = [self.l.n - 1 - j, j]

    def step(self, e, j, appended):
        kept(e, "the lines of one place are inserted in order, once", self.s.B.same(self.block_at(e, j + 1)))

    def after(self, e, l, names):
        if not Pieces.sure(e, e.length(l) == self.l.n):
            raise Unsupported("another list of lines")
        self.s.B = self.block_at(e, self.l.n)
        return {}


@contract(("C13",), BASE + ".insert_scope", name="final insertion", setup=[no_logs], budget=120)
def insert_scope(e):
    field = ["body", "orelse", "finalbody", "decorator_list"][e.choose(4)]
    s = Insert(e)
    e.loop_spec = s
    block = e.new(VObj("block", insert=Native(s.insert)))
    scope = e.new(VObj("scope", **{field: block}))
    recorded = e.new(VObj("recorded lines", items=Native(s.items)))

    def one(o, k, v):
        def get(e, i):
            if e.resolve(i) is not k and e.resolve(i) != k:
                raise Unsupported("another key")
            return v

        o.fields["__iter__"] = lambda e: VList([k])
        o.fields["__getitem__"] = get
        o.fields["items"] = Native(lambda e, a, kw: e.new(VList([VTuple((k, v))])))
        return o

    blocks = one(e.new(VObj("recorded blocks")), field, recorded)
    top = one(e.new(VObj("recorded scopes")), scope, blocks)
    tr = obj(e, BT, scope_insert_lines=top, logger=Ext("logger"), file_name=e.fresh_val("file_name", "str"))
    run(e, method(e, BT, "insert_scope"), [], {}, tr)
    if s.order == 0:
        raise Unsupported("the places are not sorted")
