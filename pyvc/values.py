"""Values of the symbolic interpreter.

Concrete Python scalars (None, bool, int, float, str) stand for themselves."""
import z3

RefSort = z3.DeclareSort("Ref")
STR = z3.StringSort()
INT = z3.IntSort()
BOOL = z3.BoolSort()


class Unsupported(Exception):
    """The construct is outside the verifier's reach: the obligation stays undecided."""


class Infeasible(Exception):
    """This path cannot be taken."""


class PyRaise(Exception):
    """A Python exception of the interpreted program."""

    def __init__(self, cls, args=(), node=None):
        self.cls, self.exc_args, self.node = cls, args, node

    def __str__(self):
        return "%s%s" % (self.cls, tuple(self.exc_args))


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class S:
    """A symbolic scalar."""

    __slots__ = ("t", "prov")
    kind = None

    def __init__(self, t, prov=None):
        self.t = t
        self.prov = prov

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, z3.simplify(self.t))


class SInt(S):
    __slots__ = ()
    kind = "int"


class SReal(S):
    """a quotient of two integers (exact; float rounding is not modelled)"""

    __slots__ = ()
    kind = "real"


class SBool(S):
    __slots__ = ()
    kind = "bool"


class SStr(S):
    __slots__ = ()
    kind = "str"


class SRef(S):
    """An object of the symbolic heap (AST node, opaque object)."""

    __slots__ = ()
    kind = "ref"


class SOpt:
    """None if isnone, else val."""

    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val

    def __repr__(self):
        return "SOpt(%s, %r)" % (self.isnone, self.val)


class Havoc:
    """A value nothing is known about."""

    def __init__(self, name="h"):
        self.name = name

    def __repr__(self):
        return "Havoc(%s)" % self.name


class Mut:
    """Base of the mutable engine objects; `birth` orders them against loop frames."""

    birth = 0


class VObj(Mut):
    """An object with engine-side fields (self, modules, matchers ...)."""

    def __init__(self, cls, **fields):
        self.cls = cls
        self.fields = dict(fields)
        self.name = None
        self.frozen = False

    def __repr__(self):
        return "<%s %s>" % (getattr(self.cls, "qual", self.cls), self.name or "")


class VList(Mut):
    """A list: concrete items, or symbolic (n, arr: Int -> elem)."""

    def __init__(self, items=None, n=None, arr=None, elem=None, prov=None, name=None):
        self.items = items
        self.n, self.arr, self.elem = n, arr, elem
        self.prov = prov
        self.name = name
        self.over = {}
        self.frozen = False

    @property
    def concrete(self):
        return self.items is not None

    def __repr__(self):
        return "VList(%r)" % self.items if self.concrete else "VList(%s sym n=%s)" % (self.name or "", self.n)


class VTuple:
    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "VTuple%r" % (self.items,)


class VDict(Mut):
    """A dict with concrete keys."""

    def __init__(self, d=None, default=None, name=None):
        self.d = dict(d or {})
        self.default = default
        self.name = name
        self.frozen = False

    def __repr__(self):
        return "VDict(%r)" % self.d


class VMap(Mut):
    """A dict with symbolic string keys; None is encoded as NONE_KEY.

    elem: 'int' | 'str' | 'optstr' | 'ref' | 'rec'.  For 'rec' the values are
    records (dicts with the fixed integer/string fields `rec`)."""

    def __init__(self, present, val=None, elem="str", default=None, name="m", rec=None):
        self.present, self.val, self.elem = present, val, elem
        self.default = default
        self.name = name
        self.rec = rec or {}  # field -> [has array, value array, kind]
        self.sums = {}  # ghost sums: field (or None for int values) -> Int term
        self.frozen = False
        self.wrap = None

    def __repr__(self):
        return "VMap(%s)" % self.name


class Rec(Mut):
    """The record stored in a VMap under a key."""

    def __init__(self, m, key):
        self.m, self.key = m, key
        self.birth = m.birth


class VSet(Mut):
    """A set: concrete items or a predicate (array) over strings."""

    def __init__(self, items=None, present=None, name=None):
        self.items = items
        self.present = present
        self.name = name
        self.frozen = False


class Acc(Mut):
    """a list which the body of a StepSpec loop may only append to"""

    def __init__(self):
        self.got = []


class Func:
    """A function of the repository (an ast.FunctionDef with its module)."""

    def __init__(self, node, module, cls=None, qual=None, closure=None):
        self.node, self.module, self.cls, self.qual, self.closure = node, module, cls, qual, closure

    def __repr__(self):
        return "<func %s>" % self.qual


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Cls:
    """A class of the repository."""

    def __init__(self, node, module, qual):
        self.node, self.module, self.qual = node, module, qual

    def __eq__(self, o):
        return isinstance(o, Cls) and o.qual == self.qual

    def __hash__(self):
        return hash(self.qual)

    def __repr__(self):
        return "<class %s>" % self.qual


class Ext:
    """Something outside the repository, known by its dotted name."""

    def __init__(self, name, self_=None):
        self.name = name
        self.self_ = self_

    def __repr__(self):
        return "<ext %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Native:
    """A Python function of the engine: fn(engine, args, kwargs)."""

    def __init__(self, fn, name="native"):
        self.fn, self.name = fn, name


class Meth:
    """A method of an engine value (str.startswith, list.append ...)."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Enum:
    def __init__(self, it):
        self.it = it


class Range:
    def __init__(self, a, b, step):
        self.a, self.b, self.step = a, b, step


NONE_KEY = "<None>"


def MP(*ts):
    """z3.MultiPattern drops its references to temporaries before it uses them"""
    return z3.MultiPattern(*ts)
