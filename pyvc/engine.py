"""A symbolic interpreter for the Python of /repo that generates and discharges
verification conditions.

It executes the ast of the real functions (read from the working tree on every
run).  Paths are explored by re-execution with decision prefixes.  A call of a
function under contract is replaced by its contract (a summary); other functions
of the repository are inlined.  A `for` loop over a collection of symbolic length
is replaced by its exact effect: the body is executed once for an arbitrary
iteration, every effect on outer state is logged (append, remove, dict set/del,
set add, counter increments, early exits) and the fold of those effects is
axiomatised with quantifiers.  Reads of state which the loop itself changes yield
unknown values (over-approximation), effects of any other kind are Unsupported.

Verdict of an obligation: discharged (unsat on every path), refuted (sat on some
path), undecided (solver gave up, or a path left the supported subset)."""
import ast as A
import os
import subprocess
import tempfile
import time

import z3

from .source import Source
from .strabs import StrAbs
from .values import *

z3.set_param("smt.random_seed", 1)


def _kinds():
    import ast

    names = []
    # deprecated names which the parser of this Python never produces
    old = {"Num", "Str", "Bytes", "NameConstant", "Ellipsis", "Index", "ExtSlice", "Suite", "AugLoad", "AugStore", "Param"}
    for n in sorted(dir(ast)):
        if n in old:
            continue
        c = getattr(ast, n)
        if isinstance(c, type) and issubclass(c, ast.AST):
            names.append(n)
    return names


KINDS = _kinds()
_KCACHE = {}
KNUM = {n: i + 1 for i, n in enumerate(KINDS)}  # 0 is the null reference


def kinds_of(name):
    import ast

    c = getattr(ast, name)
    out = []
    for n in KINDS:
        k = getattr(ast, n)
        if k.__name__ == n and issubclass(k, c):
            out.append(n)
    return out


NULL = z3.Const("null", RefSort)
kind_f = z3.Function("kind", RefSort, INT)
truthy_f = z3.Function("truthy", RefSort, BOOL)
born_f = z3.Function("born", RefSort, INT)
src_f = z3.Function("astor_to_source", RefSort, STR)
dump_f = z3.Function("ast_dump", RefSort, STR)

FIELDS = {
    "attr": "str",
    "id": "str",
    "func": "ref",
    "value": "ref",
    "arg": "optstr",
    "args": "list",
    "keywords": "list",
    "names": "list",
    "name": "str",
    "asname": "optstr",
    "module": "optstr",
    "level": "int",
    "lineno": "int",
    "body": "list",
    "orelse": "list",
    "decorator_list": "list",
    "finalbody": "list",
    "handlers": "list",
    "targets": "list",
    "elts": "list",
    "slice": "ref",
    "test": "ref",
    "iter": "ref",
    "target": "ref",
    "context_expr": "ref",
    "generators": "list",
    "bases": "list",
}
SORTS = {"str": STR, "int": INT, "ref": RefSort, "bool": BOOL, "optstr": STR}


def has_quant(t, seen=None):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


def mentions(t, c):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        todo.extend(x.children())
    return False


OPAQUE = ("py_", "re_", "os_path_", "join", "split", "matches_")
_OPQ = {}


def opaque_names(t):
    """names of the library functions of which a term knows nothing but that they are functions"""
    hit = _OPQ.get(t.get_id())
    if hit is not None and hit[0].eq(t):
        return hit[1]
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n.startswith(OPAQUE):
                    out.add("re_sub" if n.startswith("re_sub_") else n)
            todo.extend(x.children())
    out = frozenset(out)
    _OPQ[t.get_id()] = (t, out)
    return out


_VOCAB = None


def vocabulary():
    """contract -> obligation -> such functions in its verification conditions on the tree the contract was written for"""
    global _VOCAB
    if _VOCAB is None:
        import json

        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "vocab.json")
        _VOCAB = json.load(open(p)) if os.path.exists(p) else {}
    return _VOCAB


class Obl:
    def __init__(self, name, function):
        self.vocab = set()
        self.name, self.function = name, function
        self.vcs = 0
        self.status = "discharged"
        self.backends = set()
        self.secs = 0.0
        self.why = []
        self.model = None
        self.info = None

    def worse(self, st):
        order = ["discharged", "undecided", "failed", "refuted"]
        if order.index(st) > order.index(self.status):
            self.status = st


_NFC = [0]


def _fresh_const(sort, prefix="b"):
    """names are numbered per path, so that the same path prefix gives the same terms"""
    _NFC[0] += 1
    return z3.Const("%s~fc%d" % (prefix, _NFC[0]), sort)


z3.FreshConst = _fresh_const


class TwoSolvers:
    """The full solver and, next to it, one over the string abstraction which instantiates
    quantifiers by patterns only (it answers unsat or, quickly, unknown)."""

    def __init__(self, ms, tr=None):
        self.full_ = None
        self.pending = []
        self.abs = z3.SimpleSolver()
        self.abs.set("auto_config", False)
        self.abs.set("mbqi", False)
        self.tr = tr or StrAbs()
        self.quant = self.strops = False
        self.ms = ms
        self.set("timeout", ms)

    @property
    def full(self):
        if self.full_ is None:
            self.full_ = z3.Solver()
        for op, t in self.pending:
            if op == "add":
                self.full_.add(t)
            elif op == "push":
                self.full_.push()
            else:
                self.full_.pop()
        self.pending = []
        self.full_.set("timeout", self.ms)
        return self.full_

    def set(self, k, v):
        self.ms = v
        self.abs.set(k, v)

    def translate(self, t):
        a, so, qu = self.tr.translate(t)
        self.strops = self.strops or so
        self.quant = self.quant or qu
        return a

    def add(self, *ts):
        for t in ts:
            self.pending.append(("add", t))
            self.abs.add(self.translate(t))

    def push(self):
        self.pending.append(("push", None))
        self.abs.push()

    def pop(self):
        p = self.pending
        k = len(p) - 1
        while k >= 0 and p[k][0] == "add":
            k -= 1
        if k >= 0 and p[k][0] == "push":
            del p[k:]
        else:
            p.append(("pop", None))
        self.abs.pop()

    def check(self, *extra):
        r = self.abs.check(*[self.translate(t) for t in extra])
        self.last = self.abs
        if r == z3.unsat or not self.strops or self.quant:
            return r
        self.last = self.full
        return self.full.check(*extra)

    def check_deep(self, ms, small=()):
        """with model-based instantiation: may answer sat"""
        for k in (1, 2) if small else ():
            s = z3.Solver()
            s.set("timeout", max(300, ms // 4))
            s.add(self.abs.assertions())
            s.add([n <= k for n in small])
            if s.check() == z3.sat and not self.strops:
                self.last = s
                return z3.sat
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(self.abs.assertions())
        r = s.check()
        self.last = s
        if r == z3.unsat or not self.strops:
            return r
        self.ms = ms
        self.last = self.full
        return self.last.check()

    def model(self):
        return self.last.model()

    def reason_unknown(self):
        return self.last.reason_unknown()

    def to_smt2(self, full):
        return (self.full if full else self.abs).to_smt2()


class LoopSpec:
    """invariant of the loops of a contract: inv(e) -> [(name, formula)], havoc(e), allowed(e) -> ids"""

    def __init__(self, inv, havoc, allowed):
        self.inv_, self.havoc_, self.allowed_ = inv, havoc, allowed
        self.stack = []

    def enter(self, e):
        pass

    def leave(self, e):
        pass

    def inv(self, e):
        return self.inv_(e)

    def havoc(self, e):
        self.havoc_(e)

    def allowed(self, e):
        return self.allowed_(e)


class StepSpec:
    """A loop described by what one arbitrary iteration does.

    applies(e, l): is this the loop; havoc(e): an arbitrary state of what may change (allowed(e));
    step(e, i, appended): obligations about one iteration, appended: name -> elements it appended
    to the lists which were empty before the loop; after(e, l, name): what is known of such a list
    afterwards (a list), by induction over the steps."""

    def applies(self, e, l):
        return True

    def havoc(self, e):
        pass

    def allowed(self, e):
        return set()

    def begin(self, e, i):
        pass

    def step(self, e, i, appended):
        pass

    def after(self, e, l, names):
        return {}


class NestSpec:
    """nested loops: pick(e, l) gives the StepSpec of the loop over l (or None)"""

    def pick(self, e, l):
        return None


class Dec:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.trail = []
        self.alts = []


class LoopFrame:
    _ids = 0

    def __init__(self, idx, n, mark, hav):
        self.idx, self.n, self.mark = idx, n, mark
        self.hav = hav
        self.touched = {}
        self.reads = set()
        self.kreads = {}
        self.attr_touched = {}
        self.effects = []
        self.overlay = {}
        self.carried = {}


class Frame:
    def __init__(self, func, env, self_=None, cls=None, module=None, parent=None):
        self.func, self.env, self.self_, self.cls, self.module = func, env, self_, cls, module
        self.parent = parent


class Engine:
    def __init__(self, src=None, timeout_ms=4000, feas_ms=250):
        self.src = src or Source()
        self.timeout_ms, self.feas_ms = timeout_ms, feas_ms
        self.summaries = {}  # qual -> fn(engine, self_, args, kwargs)
        self.externs = {}
        self.obls = {}
        self.solver_s = 0.0
        self.max_paths = 3000
        self.deadline = None
        self.class_attrs = {}  # (class qual, attr) -> value maker
        self.called = set()
        self.inlined = set()
        self.used_summaries = set()
        self.used_externs = set()
        self.verifying = set()
        self.axioms = []
        self.reached = 0
        self.cover = {}
        self.use_cvc5 = True
        self.stop_early = False
        self.loop_spec = None
        self.hoare = []
        self.strabs = StrAbs()

    # ------------------------------------------------------------- exploration
    def explore(self, contract, harness, work=None, slice_s=None):
        """Run harness(engine) on every path (below the given path prefixes, for at most slice_s
        seconds: the rest is left in self.left).  Returns (paths, problems)."""
        work = work or [[]]
        paths, problems = 0, []
        self.left = []
        t0 = time.time()
        while work:
            if slice_s and paths and time.time() - t0 > slice_s:
                self.left = work
                break
            if paths >= self.max_paths or (self.deadline and time.time() > self.deadline):
                problems.append("path/time limit reached after %d paths" % paths)
                break
            prefix = work.pop()
            self.begin(prefix)
            try:
                harness(self)
                self.reached += 1
            except Infeasible:
                pass
            except Unsupported as e:
                problems.append("unsupported: %s" % e)
                if os.environ.get("PYVC_DEBUG"):
                    import traceback

                    traceback.print_exc()
            except PyRaise as e:
                problems.append("uncaught exception: %s" % e)
                if os.environ.get("PYVC_DEBUG"):
                    import traceback

                    traceback.print_exc()
            except RecursionError:
                problems.append("recursion")
            except z3.Z3Exception as e:
                problems.append("z3: %s" % e)
                if os.environ.get("PYVC_DEBUG"):
                    import traceback

                    traceback.print_exc()
            paths += 1
            work.extend(self.dec.alts)
            if self.stop_early and any(o.status in ("refuted", "failed") for o in self.obls.values()):
                problems.append("stopped at the first violation")
                break
            if len(problems) > 20:
                break
        return paths, problems

    def begin(self, prefix):
        self.dec = Dec(prefix)
        _NFC[0] = 0
        self.solver = TwoSolvers(self.feas_ms, self.strabs)
        self.mems = {}
        self.hoisted = []
        self.nuniq = 0
        self.lengths = []
        self.pc = []
        self.nfresh = 0
        self.tick = 0
        self.loops = []
        self.depth = 0
        self.globals = {}
        self.heap = {}
        self.nalloc = 0
        self.tainted = []
        self.contract_name = getattr(self, "contract_name", None)
        self.counts = []
        self.frozen_hits = []
        self.events = []
        self.stmt_line = None
        self.callstack = []
        self.hoare = []
        self.known = {}
        self.loop_spec = None
        for a in self.axioms:
            self.assume(a)
        self.assume(kind_f(NULL) == 0)
        self.assume(z3.Not(truthy_f(NULL)))

    def assume(self, t):
        if isinstance(t, bool):
            if not t:
                raise Infeasible()
            return
        self.pc.append(t)
        self.solver.add(t)

    def check(self, *extra, ms=None):
        t0 = time.time()
        if ms:
            self.solver.set("timeout", ms)
        r = self.solver.check(*extra)
        if ms:
            self.solver.set("timeout", self.feas_ms)
        self.solver_s += time.time() - t0
        return r

    def feasible(self, c):
        return self.check(c) != z3.unsat

    def fork(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if c.get_id() in self.known and self.known[c.get_id()][0].eq(c):
            return self.known[c.get_id()][1]
        d = self.dec
        if d.pos < len(d.prefix):
            v = d.prefix[d.pos]
        else:
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c))
            if not ft and not ff:
                raise Infeasible()
            if ft and ff:
                d.alts.append(d.trail + [False])
                v = True
            else:
                v = ft
        d.pos += 1
        d.trail.append(v)
        self.assume(c if v else z3.Not(c))
        return v

    def assume_lit(self, t, v):
        """assume the literal, and decide branches on it without the solver"""
        t = z3.simplify(t)
        self.known[t.get_id()] = (t, v)
        self.assume(t if v else z3.Not(t))

    def choose(self, n):
        """A nondeterministic choice 0..n-1 (all explored)."""
        d = self.dec
        if d.pos < len(d.prefix):
            v = d.prefix[d.pos]
        else:
            for k in range(n - 1, 0, -1):
                d.alts.append(d.trail + [k])
            v = 0
        d.pos += 1
        d.trail.append(v)
        return v

    def taint(self, why):
        if why not in self.tainted:
            self.tainted.append(why)

    # ------------------------------------------------------------- fresh values
    def fresh(self, name, sort):
        self.nfresh += 1
        nm = "%s!%d" % (name, self.nfresh)
        if self.loops:
            ids = [f.idx for f in self.loops]
            f = z3.Function(nm, *([x.sort() for x in ids] + [sort]))
            return f(*ids)
        return z3.Const(nm, sort)

    def fresh_u(self, name, sort):
        """as fresh, but the name is never used twice on a path (for hoisted definitions)"""
        self.nuniq += 1
        nm = "%s~%d" % (name, self.nuniq)
        if self.loops:
            ids = [f.idx for f in self.loops]
            f = z3.Function(nm, *([x.sort() for x in ids] + [sort]))
            return f(*ids)
        return z3.Const(nm, sort)

    def define(self, vs, body, pat):
        """A definition of a fresh_u symbol: forall vs. body; inside loops it is hoisted out of
        the iteration (it holds whatever the path), quantified over the loop indices."""
        ids = [f.idx for f in self.loops]
        sub = [(i, z3.FreshConst(INT, "h")) for i in ids]
        f = lambda t: z3.substitute(t, *sub) if sub else t
        allv = [x for _, x in sub] + list(vs)
        pats = [f(pat)]
        q = z3.ForAll(allv, f(body), patterns=pats) if allv else body
        if self.loops:
            self.hoist(q)
        else:
            self.assume(q)

    def skolem(self, name, *sorts):
        """A fresh function; inside a symbolic loop it also depends on the loop indices."""
        ids = [f.idx for f in self.loops]
        f = z3.Function(name, *(list(sorts[:-1]) + [x.sort() for x in ids] + [sorts[-1]]))
        return lambda *a: f(*(list(a) + ids))

    def fresh_val(self, name, kind):
        if kind == "optstr":
            t = self.fresh(name, STR)
            return self.wrap("optstr", t)
        return {"str": SStr, "int": SInt, "bool": SBool, "ref": SRef}[kind](self.fresh(name, SORTS[kind]))

    def new(self, obj):
        self.tick += 1
        obj.birth = self.tick
        return obj

    def wrap(self, kind, t):
        if callable(kind):
            return kind(self, t)
        if kind == "str":
            if z3.is_string_value(t):
                return t.as_string()
            return SStr(t)
        if kind == "int":
            if z3.is_int_value(t):
                return t.as_long()
            return SInt(t)
        if kind == "bool":
            return SBool(t)
        if kind == "ref":
            return SRef(t)
        if kind == "optstr":
            o = SOpt(t == z3.StringVal(NONE_KEY), SStr(t))
            o.raw = t
            return o
        raise Unsupported("wrap %r" % kind)

    def unwrap(self, v, kind):
        if kind == "optstr":
            return self.key_term(v)
        if isinstance(v, SOpt):
            v = self.resolve(v)
        if isinstance(v, S) and v.kind == kind:
            return v.t
        if kind == "str" and isinstance(v, str):
            return z3.StringVal(v)
        if kind == "int" and isinstance(v, int):
            return z3.IntVal(int(v))
        if kind == "bool" and isinstance(v, bool):
            return z3.BoolVal(v)
        if kind == "ref" and v is None:
            return NULL
        if kind == "ref" and isinstance(v, VObj):
            if not hasattr(v, "ref"):
                v.ref = self.fresh("obj", RefSort)
            return v.ref
        raise Unsupported("expected a %s, got %r" % (kind, v))

    def key_term(self, v):
        if v is None:
            return z3.StringVal(NONE_KEY)
        if isinstance(v, str):
            return z3.StringVal(v)
        if isinstance(v, SStr):
            return v.t
        if isinstance(v, SOpt):
            if hasattr(v, "raw"):
                return v.raw
            return z3.If(v.isnone, z3.StringVal(NONE_KEY), self.key_term(v.val))
        raise Unsupported("dict key %r" % (v,))

    def kind_of(self, v):
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "int"
        if isinstance(v, str):
            return "str"
        if isinstance(v, S):
            return v.kind
        if isinstance(v, SOpt) or v is None:
            return "optstr"
        return None

    def sym_list(self, name, elem="ref", n=None):
        n = n if n is not None else self.fresh(name + "_n", INT)
        self.assume(n >= 0)
        if not self.loops and z3.is_const(n):
            self.lengths.append(n)
        sort = SORTS[elem] if isinstance(elem, str) else RefSort
        arr = self.fresh(name + "_arr", z3.ArraySort(INT, sort))
        return self.new(VList(None, n, arr, elem, name=name))

    def sym_map(self, name, elem="str", default=None):
        present = self.fresh(name + "_has", z3.ArraySort(STR, BOOL))
        val = self.fresh(name + "_val", z3.ArraySort(STR, SORTS[elem])) if elem != "rec" else None
        return self.new(VMap(present, val, elem, default, name))

    def sym_set(self, name):
        return self.new(VSet(None, self.fresh(name, z3.ArraySort(STR, BOOL)), name))

    def sym_node(self, name, *kinds):
        r = SRef(self.fresh(name, RefSort))
        self.assume(born_f(r.t) <= 0)
        if kinds:
            self.assume(self.is_kind(r, kinds))
        return r

    def is_kind(self, r, kinds):
        ks = set()
        for k in kinds:
            if k not in _KCACHE:
                _KCACHE[k] = kinds_of(k)
            ks.update(_KCACHE[k])
        return z3.Or([kind_f(r.t) == KNUM[k] for k in sorted(ks)])

    def only_kind(self, r):
        """the kind of the node, if the path determines it"""
        s = z3.Solver()
        s.set("timeout", 500)
        k = z3.FreshConst(INT, "k")
        for t in self.pc:
            if not has_quant(t):
                s.add(t)
        s.add(kind_f(r.t) == k)
        if s.check() != z3.sat:
            raise Unsupported("kind of the node")
        v = s.model()[k]
        s.add(k != v)
        if s.check() != z3.unsat:
            raise Unsupported("the kind of the node is not determined")
        return KINDS[v.as_long() - 1]

    def alloc(self, kind=None):
        self.nalloc += 1
        r = SRef(self.fresh("new", RefSort))
        self.assume(born_f(r.t) == self.nalloc)
        if kind is not None:
            self.assume(kind_f(r.t) == KNUM[kind])
            self.assume(truthy_f(r.t))
        return r

    # ------------------------------------------------------------- heap of AST nodes
    def simp(self, t):
        """look through the last stores"""
        while z3.is_select(t) and z3.is_store(t.arg(0)) and t.arg(0).arg(1).eq(t.arg(1)):
            t = t.arg(0).arg(2)
        return t

    def heap_arr(self, field, sort):
        if field not in self.heap:
            self.heap[field] = z3.Const("heap_" + field, z3.ArraySort(RefSort, sort))
        return self.heap[field]

    def get_field(self, r, field):
        k = FIELDS.get(field)
        if k is None:
            raise Unsupported("field ." + field)
        if k == "list":
            return self.field_list(r, field)
        t = self.simp(z3.Select(self.heap_arr(field, SORTS[k]), r.t))
        if k == "str" and z3.is_string_value(t):
            return t.as_string()
        return self.wrap(k, t)

    def field_list(self, r, field):
        key = (r.t.get_id(), field)
        cache = self.__dict__.setdefault("_lists", {})
        if getattr(self, "_lists_run", None) is not self.dec:
            if not self.loops:
                self._lists = cache = {}
                self._lists_run = self.dec
        if key in cache and cache[key][1].eq(r.t):
            return cache[key][0]
        n = z3.Select(self.heap_arr(field + ".n", INT), r.t)
        arr = z3.Select(self.heap_arr(field + ".el", z3.ArraySort(INT, RefSort)), r.t)
        self.assume(n >= 0)
        l = VList(None, n, arr, "ref", name="." + field)
        l.owner = (r, field)
        cache[key] = (l, r.t)
        return l

    def set_field(self, r, field, v):
        k = FIELDS.get(field)
        if k is None:
            raise Unsupported("store to ." + field)
        if self.loops:
            raise Unsupported("store to a node field in a symbolic loop")
        if self.hoare:
            raise Unsupported("store to a node field in a loop with an invariant")
        self.events.append(("setfield", r, field, v))
        if k == "list":
            if not isinstance(v, VList):
                raise Unsupported("list field := %r" % (v,))
            l = self.field_list(r, field)
            l.items = list(v.items) if v.concrete else None
            l.n, l.arr, l.elem, l.prov = v.n, v.arr, v.elem, v.prov
            return
        a = self.heap_arr(field, SORTS[k])
        self.heap[field] = z3.Store(a, r.t, self.unwrap(v, k))

    # ------------------------------------------------------------- obligations
    def obl(self, name, function=None):
        fn = function or self.current
        if name not in self.obls:
            self.obls[name] = Obl(name, fn)
        return self.obls[name]

    def new_names(self, o, g):
        """library functions in the condition which the contract has never met there"""
        v = vocabulary().get(self.contract_name)
        if v is None or o.name not in v:
            return []
        now = set().union(*[opaque_names(t) for t in self.pc + [g]])
        return sorted(n for n in now - set(v[o.name]) if not n.startswith("matches_"))

    def prove(self, name, goal, info=None):
        """Discharge pc => goal (goal: z3 Bool or bool)."""
        o = self.obl(name)
        o.vcs += 1
        if isinstance(goal, SBool):
            goal = goal.t
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        t0 = time.time()
        r = z3.unsat
        g = z3.simplify(goal)
        model = None
        if not z3.is_true(g):
            self.solver.push()
            self.solver.add(z3.Not(g))
            self.solver.set("timeout", self.timeout_ms)
            r = self.solver.check()
            backend = "z3"
            again = o.status == "discharged"  # a failed obligation is not examined at length again
            if r == z3.unknown and again:
                r = self.solver.check_deep(min(1200, self.timeout_ms), self.lengths)
            if r == z3.unknown and self.use_cvc5 and again:
                r2 = self.cvc5(self.solver.to_smt2(self.solver.strops))
                if r2 == "unsat":
                    r, backend = z3.unsat, "cvc5"
            if r == z3.unknown and self.timeout_ms > 1200 and again:
                r = self.solver.check_deep(self.timeout_ms)
            if r == z3.sat:
                model = self.solver.model()
            self.solver.pop()
            self.solver.set("timeout", self.feas_ms)
            o.backends.add(backend)
        else:
            o.backends.add("simplify")
        dt = time.time() - t0
        self.solver_s += dt
        o.secs += dt
        if os.environ.get("PYVC_VOCAB"):
            o.vocab.update(*[opaque_names(t) for t in self.pc + [g]])
        if r == z3.unsat:
            return True
        unknown = self.new_names(o, g)
        if r == z3.sat:
            if self.tainted:
                o.worse("undecided")
                o.why.append("counterexample on an abstracted path (%s)" % ", ".join(self.tainted[:3]))
            elif unknown:
                o.worse("undecided")
                o.why.append("counterexample which depends on %s, of which nothing is known" % unknown)
            else:
                o.worse("refuted")
            o.why.append("sat at path %s (line %s)" % (self.dec.trail[-12:], self.stmt_line))
            if o.model is None:
                o.model = str(model)[:3000]
                try:
                    o.info = info(model) if callable(info) else info
                except Exception as e:
                    o.info = "model not decoded: %r" % (e,)
        else:
            o.worse("undecided" if self.tainted or unknown else "failed")
            o.why.append("solver gave up: " + self.solver.reason_unknown())
            if os.environ.get("PYVC_DUMP"):
                print("UNDECIDED", name, self.dec.trail)
                if os.environ["PYVC_DUMP"] in name:
                    for x in self.pc:
                        print("   ", x)
                    for x in self.hoisted:
                        print("  H ", x)
                    print("GOAL", g)
                    raise SystemExit
        return False

    def cvc5(self, txt):
        txt = "(set-logic ALL)\n" + txt
        try:
            p = subprocess.run(
                ["cvc5", "--strings-exp", "--tlimit=%d" % self.timeout_ms, "-"],
                input=txt,
                capture_output=True,
                text=True,
                timeout=self.timeout_ms / 1000 + 5,
            )
            return p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
        except Exception:
            return "unknown"

    # ------------------------------------------------------------- truth and equality
    def resolve(self, v):
        while isinstance(v, SOpt):
            v = None if self.fork(v.isnone) else v.val
        return v

    def truth(self, v):
        v = self.resolve(v)
        if v is None or isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, SBool):
            return self.fork(v.t)
        if isinstance(v, SInt):
            return self.fork(v.t != 0)
        if isinstance(v, SStr):
            return self.fork(v.t != z3.StringVal(""))
        if isinstance(v, SRef):
            return self.fork(truthy_f(v.t))
        if isinstance(v, VList):
            if v.concrete:
                return len(v.items) > 0
            return self.fork(self.length(v) > 0)
        if isinstance(v, VTuple):
            return len(v.items) > 0
        if isinstance(v, VDict):
            return len(v.d) > 0
        if isinstance(v, VMap):
            k = z3.FreshConst(STR)
            return self.fork(z3.Exists([k], z3.Select(v.present, k)))
        if isinstance(v, VSet):
            if v.items is not None:
                return len(v.items) > 0
            k = z3.FreshConst(STR)
            return self.fork(z3.Exists([k], z3.Select(v.present, k)))
        if isinstance(v, Havoc):
            self.taint("truth of " + v.name)
            return bool(self.choose(2))
        if isinstance(v, VObj) and "__bool__" in v.fields:
            return self.fork(v.fields["__bool__"](self))
        if isinstance(v, (VObj, Func, Bound, Cls, Ext, Meth, Native)):
            return True
        raise Unsupported("truth of %r" % (v,))

    def eq(self, a, b):
        """a == b as bool or z3 term."""
        if isinstance(a, SOpt) and isinstance(b, (str, SStr, type(None))) and hasattr(a, "raw"):
            return a.raw == self.key_term(b)
        if isinstance(b, SOpt) and isinstance(a, (str, SStr, type(None))) and hasattr(b, "raw"):
            return b.raw == self.key_term(a)
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Havoc) or isinstance(b, Havoc):
            self.taint("== on unknown value")
            return self.fresh("eq", BOOL)
        if a is b:
            return True
        conc = (type(None), bool, int, float, str)
        if isinstance(a, conc) and isinstance(b, conc):
            return a == b
        ka, kb = self.kind_of(a), self.kind_of(b)
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, SRef):
                return o.t == NULL
            return False
        if ka in ("str", "int", "bool", "ref") and ka == kb:
            return self.unwrap(a, ka) == self.unwrap(b, ka)
        if isinstance(a, (VObj, Cls, Func)) or isinstance(b, (VObj, Cls, Func)):
            return a == b if isinstance(a, Cls) and isinstance(b, Cls) else False
        if isinstance(a, VList) and isinstance(b, VList):
            if a.concrete and b.concrete:
                if len(a.items) != len(b.items):
                    return False
                ts = [self.eq(x, y) for x, y in zip(a.items, b.items)]
                return self.conj(ts)
            s, c = (a, b) if not a.concrete else (b, a)
            if c.concrete:
                ts = [self.length(s) == len(c.items)]
                for i, x in enumerate(c.items):
                    ts.append(self.eq(self.elem_at(s, z3.IntVal(i)), x))
                return self.conj(ts)
            raise Unsupported("== on symbolic lists")
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            if len(a.items) != len(b.items):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a.items, b.items)])
        cont = (VList, VTuple, VDict, VMap, VSet)
        if isinstance(a, cont) != isinstance(b, cont):
            return False
        if isinstance(a, SRef) or isinstance(b, SRef):
            # an AST node or opaque object against a scalar: opaque objects may equal anything
            self.taint("object == scalar")
            return self.fresh("eq", BOOL)
        if ka != kb and ka and kb:
            if {ka, kb} == {"int", "bool"}:
                raise Unsupported("int == bool")
            return False
        raise Unsupported("== on %r, %r" % (a, b))

    def conj(self, ts):
        zs = []
        for t in ts:
            if t is False:
                return False
            if t is True:
                continue
            zs.append(t)
        if not zs:
            return True
        return z3.And(zs)

    def disj(self, ts):
        zs = []
        for t in ts:
            if t is True:
                return True
            if t is False:
                continue
            zs.append(t)
        if not zs:
            return False
        return z3.Or(zs)

    def mkbool(self, t):
        return t if isinstance(t, bool) else SBool(t)

    def is_(self, a, b):
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, SOpt):
                if o.isnone is True or o.isnone is False:
                    return o.isnone
                return o.isnone
            if isinstance(o, SRef):
                return o.t == NULL
            if isinstance(o, Havoc):
                self.taint("is None on unknown value")
                return self.fresh("isnone", BOOL)
            return False
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, SRef) and isinstance(b, SRef):
            return a.t == b.t
        if isinstance(a, Mut) or isinstance(b, Mut):
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            return self.eq(a, b) if self.kind_of(a) == self.kind_of(b) == "bool" else False
        if isinstance(a, Cls) and isinstance(b, Cls):
            return a == b
        raise Unsupported("is on %r, %r" % (a, b))

    def contains(self, c, x):
        c = self.resolve(c)
        self.note_read(c, self.key_of(c, x) if self.loops else None)
        if self.is_hav(c):
            self.taint_read()
            return self.fresh("in", BOOL)
        if isinstance(c, (str, SStr)):
            x = self.resolve(x)
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            return z3.Contains(self.unwrap(c, "str"), self.unwrap(x, "str"))
        if isinstance(c, VTuple) or isinstance(c, VList) and c.concrete:
            return self.disj([self.eq(i, x) for i in c.items])
        if isinstance(c, VList):
            if c.prov and c.prov[0] == "concat":
                return self.disj([self.contains(p, x) for p in c.prov[1]])
            if c.prov and c.prov[0] == "split":
                raise Unsupported("in on split list")
            j = z3.FreshConst(INT, "j")
            kind = c.elem if isinstance(c.elem, str) else "ref"
            if kind == "str" and not isinstance(x, (str, SStr)):
                xt = self.key_term(x)
            else:
                xt = self.unwrap(x, kind)
            m = self.member(c, xt)
            if m is not None:
                return m
            return z3.Exists([j], z3.And(j >= 0, j < self.length(c), z3.Select(c.arr, j) == xt))
        if isinstance(c, VDict):
            if isinstance(x, (str, type(None), int)):
                if x in c.d:
                    return True
                return False
            return self.disj([self.eq(k, x) for k in c.d])
        if isinstance(c, VMap):
            if isinstance(x, (int, SInt)):
                raise Unsupported("int key")
            return z3.Select(c.present, self.key_term(x))
        if isinstance(c, VSet):
            if c.items is not None:
                return self.disj([self.eq(k, x) for k in c.items])
            if isinstance(x, SRef):
                raise Unsupported("ref in set")
            return z3.Select(c.present, self.key_term(x))
        if isinstance(c, Native):
            return c.fn(self, [x], {})
        if isinstance(c, VObj) and "__contains__" in c.fields:
            return c.fields["__contains__"](self, x)
        raise Unsupported("in on %r" % (c,))

    def hoist(self, ax):
        self.solver.add(ax)
        self.hoisted.append(ax)

    def member(self, l, xt):
        """xt in l, by a membership predicate axiomatised once (also inside loops)"""
        n, arr = self.length(l), l.arr
        for f in self.loops:
            if mentions(arr, f.idx) or mentions(n, f.idx):
                return None
        key = (arr.get_id(), n.get_id())
        if key not in self.mems:
            k = len(self.mems)
            es = arr.sort().range()
            mem = z3.Const("mem!%d" % k, z3.ArraySort(es, BOOL))
            pos = z3.Function("mempos!%d" % k, es, INT)
            j, x = z3.FreshConst(INT, "j"), z3.FreshConst(es, "x")
            self.mems[key] = (mem, arr, n, pos)
            if z3.is_const(arr):
                self.hoist(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(mem, z3.Select(arr, j))), patterns=[z3.Select(arr, j)]))
            else:
                self.hoist(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(mem, z3.Select(arr, j)))))
            self.hoist(z3.ForAll([x], z3.Implies(z3.Select(mem, x), z3.And(pos(x) >= 0, pos(x) < n, z3.Select(arr, pos(x)) == x)), patterns=[z3.Select(mem, x)]))
        return z3.Select(self.mems[key][0], xt)

    def mempos(self, l, xt):
        """the position the membership predicate gives for xt in l"""
        self.member(l, xt)
        return self.mems[(l.arr.get_id(), self.length(l).get_id())][3](xt)

    # ------------------------------------------------------------- loop-aware mutation
    def is_outer(self, obj):
        return bool(self.loops) and isinstance(obj, Mut) and obj.birth <= self.loops[-1].mark

    def note_read(self, obj, key=None):
        """key: only the entry under this key (a term) is read"""
        if isinstance(obj, Rec):
            obj = obj.m
        if isinstance(obj, Mut):
            for f in self.loops:
                if obj.birth <= f.mark:
                    if key is not None and len(self.loops) == 1 and not any(x[0] is obj for x in f.effects):
                        f.kreads.setdefault(id(obj), []).append(key)
                    else:
                        f.reads.add(id(obj))

    def key_of(self, c, x):
        if isinstance(c, (VMap, VDict, VSet)) and isinstance(x, (str, type(None), SStr)) or isinstance(x, SOpt) and hasattr(x, "raw"):
            return self.key_term(x)
        return None

    def disjoint_keys(self, lf, subs, n, oid):
        """every entry read in an iteration is untouched by the iterations before it"""
        for x in subs:
            for o, op, args, bound in x["effects"]:
                if id(o) != oid:
                    continue
                if op not in ("set", "del", "add") or bound:
                    return False
                ke = self.key_term(args[0])
                j = z3.FreshConst(INT, "j")
                sub = lambda t: z3.substitute(t, (lf.idx, j))
                for kr in lf.kreads[oid]:
                    i = z3.FreshConst(INT, "i")
                    if self.check(z3.And(0 <= j, j < i, i < n), sub(x["cond"]), sub(ke) == z3.substitute(kr, (lf.idx, i)), ms=1000) != z3.unsat:
                        return False
        return True

    def is_hav(self, obj):
        return isinstance(obj, Mut) and any(id(obj) in f.hav for f in self.loops)

    def taint_read(self):
        self.taint("read of state which the loop changes")

    def mutate(self, obj, op, *args):
        """All container mutation goes through here."""
        if getattr(obj, "frozen", False):
            self.frozen_hits.append((obj, op))
        if getattr(obj, "log", None) is not None:
            obj.log.append(op)
        if self.hoare:
            self.may_change(obj, op)
        if isinstance(obj, VList) and getattr(obj, "owner", None) and self.loops:
            raise Unsupported("node list changed in a symbolic loop")
        if self.is_outer(obj):
            f = self.loops[-1]
            f.touched[id(obj)] = obj
            f.effects.append((obj, op, args, ()))
            return
        self.perform(obj, op, args)

    def perform(self, obj, op, args):
        if isinstance(obj, VList):
            if op == "append":
                if obj.concrete:
                    obj.items.append(args[0])
                else:
                    if obj.arr is None:
                        if not (obj.prov and obj.prov[0] == "split"):
                            raise Unsupported("append to an abstract list")
                        # the parts of a text: at least one, nothing else is kept of them
                        w = self.sym_list("parts", "str")
                        self.assume(w.n >= 1)
                        obj.n, obj.arr, obj.elem, obj.prov = w.n, w.arr, "str", None
                    kind = obj.elem
                    obj.arr = z3.Store(obj.arr, obj.n, self.unwrap(args[0], kind))
                    obj.n = obj.n + 1
                return
            if op == "setidx":
                i, v = args
                if obj.concrete and isinstance(i, int):
                    obj.items[i] = v
                    return
                if obj.prov and obj.prov[0] == "split":
                    if i != 0:
                        raise Unsupported("split list store at %r" % (i,))
                    obj.over[0] = v
                    return
                if not obj.concrete:
                    if obj.n is None:
                        raise Unsupported("store to list")
                    it = z3.IntVal(i) if isinstance(i, int) else i.t
                    if isinstance(i, int) and i < 0:
                        it = obj.n + i
                    obj.arr = z3.Store(obj.arr, it, self.unwrap(v, obj.elem))
                    return
            if op == "remove":
                x = args[0]
                if obj.concrete:
                    for k, y in enumerate(obj.items):
                        e = self.eq(y, x)
                        if self.fork(e) if not isinstance(e, bool) else e:
                            del obj.items[k]
                            return
                    raise PyRaise("ValueError")
                xt = self.unwrap(x, obj.elem)
                p = self.fresh("rmpos", INT)
                j = z3.FreshConst(INT, "j")
                if not self.fork(self.contains(obj, x)):
                    raise PyRaise("ValueError")
                n, arr = obj.n, obj.arr
                self.assume(z3.And(0 <= p, p < n, z3.Select(arr, p) == xt))
                self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p), z3.Select(arr, j) != xt)))
                na = self.fresh("rmarr", arr.sort())
                self.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(j < p, z3.Select(arr, j), z3.Select(arr, j + 1)), patterns=[z3.Select(na, j)]))
                obj.n, obj.arr = n - 1, na
                return
            if op == "insert":
                i, v = args
                if obj.concrete and isinstance(i, int):
                    obj.items.insert(i, v)
                    return
                if not obj.concrete:
                    n, arr = obj.n, obj.arr
                    it = z3.IntVal(i) if isinstance(i, int) else i.t
                    j = z3.FreshConst(INT, "j")
                    na = self.fresh("insarr", arr.sort())
                    it = z3.If(it > n, n, it)
                    self.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(j < it, z3.Select(arr, j), z3.If(j == it, self.unwrap(v, obj.elem), z3.Select(arr, j - 1))), patterns=[z3.Select(na, j)]))
                    obj.n, obj.arr = n + 1, na
                    return
            if op == "extend":
                (v,) = args
                if obj.concrete and isinstance(v, VList) and v.concrete:
                    obj.items.extend(v.items)
                    return
                if isinstance(v, VTuple) and obj.concrete:
                    obj.items.extend(v.items)
                    return
                c = self.concat([obj, v])
                obj.items, obj.n, obj.arr, obj.elem, obj.prov = None, c.n, c.arr, c.elem, c.prov
                return
            if op == "pop":
                if obj.concrete and isinstance(args[0], int):
                    if not obj.items:
                        raise PyRaise("IndexError")
                    return obj.items.pop(args[0])
                if not obj.concrete and args[0] == -1:
                    if not self.fork(obj.n > 0):
                        raise PyRaise("IndexError")
                    v = self.wrap(obj.elem, z3.Select(obj.arr, obj.n - 1))
                    obj.n = obj.n - 1
                    return v
            if op == "clear":
                obj.items, obj.n, obj.arr, obj.prov = [], None, None, None
                return
        if isinstance(obj, VDict):
            if op == "set":
                k, v = args
                if isinstance(k, (str, int, type(None))) or isinstance(k, (VObj, SRef)):
                    if isinstance(k, SRef):
                        k = ("ref", k.t.get_id(), k)
                        raise Unsupported("node as dict key")
                    obj.d[k] = v
                    return
                kind = self.kind_of(v)
                if kind is None:
                    raise Unsupported("dict value %r" % (v,))
                self.morph_map(obj, kind)
                return self.perform(obj, op, args)
            if op == "del":
                (k,) = args
                if isinstance(k, (str, int, type(None))):
                    obj.d.pop(k, None)
                    return
                raise Unsupported("del symbolic key")
            if op == "clear":
                obj.d.clear()
                return
        if isinstance(obj, VMap):
            if op == "set":
                k, v = args
                kt = self.key_term(k)
                if obj.elem == "rec":
                    raise Unsupported("record store")
                if None in obj.sums:
                    old = z3.If(z3.Select(obj.present, kt), z3.Select(obj.val, kt), z3.IntVal(0))
                    obj.sums[None] = obj.sums[None] + self.unwrap(v, "int") - old
                if self.kind_of(v) != obj.elem and not (obj.elem == "optstr"):
                    raise Unsupported("map value %r" % (v,))
                obj.present = z3.Store(obj.present, kt, z3.BoolVal(True))
                obj.val = z3.Store(obj.val, kt, self.unwrap(v, obj.elem))
                return
            if op == "setrec":
                k, field, v = args
                if getattr(obj, "shared", False):
                    raise Unsupported("store to a record which two maps share")
                kt = self.key_term(k)
                has, val, kind = obj.rec[field]
                if self.kind_of(v) != kind:
                    if field in obj.sums:
                        raise Unsupported("record field %s := %r" % (field, v))
                    vt = self.fresh("recval", SORTS[kind])
                else:
                    vt = self.unwrap(v, kind)
                if field in obj.sums:
                    old = z3.If(z3.And(z3.Select(obj.present, kt), z3.Select(has, kt)), z3.Select(val, kt), z3.IntVal(0))
                    obj.sums[field] = obj.sums[field] + vt - old
                obj.rec[field] = [z3.Store(has, kt, z3.BoolVal(True)), z3.Store(val, kt, vt), kind]
                return
            if op == "newrec":
                (k,) = args
                kt = self.key_term(k)
                obj.present = z3.Store(obj.present, kt, z3.BoolVal(True))
                for f in obj.rec:
                    has, val, kind = obj.rec[f]
                    obj.rec[f] = [z3.Store(has, kt, z3.BoolVal(False)), val, kind]
                return
            if op == "del":
                (k,) = args
                kt = self.key_term(k)
                for f in obj.sums:
                    if f is None:
                        obj.sums[f] = obj.sums[f] - z3.If(z3.Select(obj.present, kt), z3.Select(obj.val, kt), z3.IntVal(0))
                    else:
                        has, val, kind = obj.rec[f]
                        obj.sums[f] = obj.sums[f] - z3.If(z3.And(z3.Select(obj.present, kt), z3.Select(has, kt)), z3.Select(val, kt), z3.IntVal(0))
                obj.present = z3.Store(obj.present, kt, z3.BoolVal(False))
                return
            if op == "clear":
                obj.present = z3.K(STR, z3.BoolVal(False))
                for f in obj.sums:
                    obj.sums[f] = z3.IntVal(0)
                return
        if isinstance(obj, VSet):
            if op in ("add", "discard"):
                if obj.items is not None:
                    x = args[0]
                    if op == "discard":
                        raise Unsupported("discard")
                    if isinstance(x, (str, SRef, VObj)) and (
                        isinstance(x, str) or all(isinstance(y, (SRef, VObj)) for y in obj.items)
                    ):
                        if not any(x is y or x == y for y in obj.items):
                            obj.items.append(x)
                        return
                    self.morph_set(obj)
                obj.present = z3.Store(obj.present, self.key_term(args[0]), z3.BoolVal(op == "add"))
                return
            if op == "update":
                (v,) = args
                if isinstance(v, VSet) and v.items is not None and obj.items is not None:
                    for x in v.items:
                        self.perform(obj, "add", (x,))
                    return
                if isinstance(v, VSet):
                    self.morph_set(obj)
                    vp = v.present if v.items is None else self.set_term(v)
                    obj.present = z3.SetUnion(obj.present, vp)
                    return
            if op == "clear":
                obj.items, obj.present = [], None
                return
        raise Unsupported("%s on %r" % (op, obj))

    def set_term(self, s):
        t = z3.K(STR, z3.BoolVal(False))
        for x in s.items:
            t = z3.Store(t, self.key_term(x), z3.BoolVal(True))
        return t

    def morph_set(self, s):
        if s.items is not None:
            s.present = self.set_term(s)
            s.items = None

    def morph_map(self, d, kind):
        if isinstance(d, VMap):
            return
        items = d.d
        d.__class__ = VMap
        d.present = z3.K(STR, z3.BoolVal(False))
        d.elem = kind
        d.val = self.fresh("dictval", z3.ArraySort(STR, SORTS[kind]))
        d.rec, d.sums, d.wrap = {}, {}, None
        for k, v in items.items():
            kt = self.key_term(k)
            d.present = z3.Store(d.present, kt, z3.BoolVal(True))
            d.val = z3.Store(d.val, kt, self.unwrap(v, kind))
        return d

    def morph_list(self, l, kind):
        if not l.concrete:
            return
        arr = self.fresh("larr", z3.ArraySort(INT, SORTS[kind]))
        for i, x in enumerate(l.items):
            arr = z3.Store(arr, i, self.unwrap(x, kind))
        l.n, l.arr, l.elem, l.items = z3.IntVal(len(l.items)), arr, kind, None

    # ------------------------------------------------------------- lists
    def length(self, l):
        """z3 Int (or python int) length."""
        if isinstance(l, VList):
            self.note_read(l)
            if self.is_hav(l):
                n = self.fresh("len", INT)
                return n
            if l.concrete:
                return len(l.items)
            if l.prov and l.prov[0] == "split":
                return self.nsplit(l)
            return l.n
        raise Unsupported("len of %r" % (l,))

    def nsplit(self, l):
        _, s, sep = l.prov
        f = z3.Function("nsplit_" + sep, STR, INT)
        t = self.unwrap(s, "str")
        n = f(t)
        self.assume(n >= 1)
        sp = z3.StringVal(sep)
        first = z3.IndexOf(t, sp, 0)
        self.assume((n == 1) == z3.Not(z3.Contains(t, sp)))
        self.assume((n == 2) == z3.And(first >= 0, z3.LastIndexOf(t, sp) == first))
        return n

    def elem_at(self, l, it):
        if l.arr is None and callable(l.elem):
            return l.elem(self, it)
        v = self.wrap(l.elem, z3.Select(l.arr, it))
        return v

    def split_head(self, l):
        if 0 in l.over:
            return l.over[0]
        _, s, sep = l.prov
        t = self.unwrap(s, "str")
        sp = z3.StringVal(sep)
        ix = z3.IndexOf(t, sp, 0)
        return SStr(z3.If(z3.Contains(t, sp), z3.SubString(t, 0, ix), t))

    def split_tail(self, l):
        """the text behind the first component, with the separator"""
        _, s, sep = l.prov
        t = self.unwrap(s, "str")
        sp = z3.StringVal(sep)
        ix = z3.IndexOf(t, sp, 0)
        return z3.If(z3.Contains(t, sp), z3.SubString(t, ix, z3.Length(t) - ix), z3.StringVal(""))

    def list_get(self, l, i):
        self.note_read(l)
        if self.is_hav(l):
            if l.concrete or not isinstance(l.elem, str):
                self.taint("read of a changing list")
                return Havoc("list element")
            return self.fresh_val("el", l.elem)
        if isinstance(i, SOpt):
            i = self.resolve(i)
        if isinstance(i, bool):
            i = int(i)
        if l.concrete:
            if isinstance(i, int):
                if -len(l.items) <= i < len(l.items):
                    return l.items[i]
                raise PyRaise("IndexError")
            if isinstance(i, SInt):
                for k in range(len(l.items)):
                    if self.fork(i.t == k):
                        return l.items[k]
                raise PyRaise("IndexError")
            raise Unsupported("index %r" % (i,))
        if l.prov and l.prov[0] == "split":
            if i == 0:
                return self.split_head(l)
            _, s, sep = l.prov
            t = self.unwrap(s, "str")
            sp = z3.StringVal(sep)
            if i == -1:
                li = z3.LastIndexOf(t, sp)
                if l.over:
                    h = self.unwrap(l.over[0], "str")
                    return SStr(z3.If(li < 0, h, z3.SubString(t, li + 1, z3.Length(t) - li - 1)))
                return SStr(z3.If(li < 0, t, z3.SubString(t, li + 1, z3.Length(t) - li - 1)))
            if isinstance(i, int):
                f = z3.Function("split_at_%s_%d" % (sep, i), STR, STR)
                n = self.nsplit(l)
                if not self.fork(n > i if i >= 0 else n >= -i):
                    raise PyRaise("IndexError")
                return SStr(f(t))
            raise Unsupported("split list index")
        n = l.n
        it = z3.IntVal(i) if isinstance(i, int) else self.unwrap(i, "int")
        if isinstance(i, int) and i < 0:
            it = n + i
            ok = it >= 0
        elif isinstance(i, int):
            ok = it < n
        else:
            if self.fork(it < 0):
                it = it + n
                ok = it >= 0
            else:
                ok = it < n
        if not self.fork(ok):
            raise PyRaise("IndexError")
        return self.elem_at(l, it)

    def concat(self, ls):
        ls = [self.to_list(x) for x in ls]
        if all(l.concrete for l in ls):
            return self.new(VList([x for l in ls for x in l.items]))
        kind = next(l.elem for l in ls if not l.concrete)
        tot, arr = z3.IntVal(0), self.fresh_u("cat", z3.ArraySort(INT, SORTS[kind] if isinstance(kind, str) else RefSort))
        j = z3.FreshConst(INT, "j")
        for l in ls:
            n = self.length(l)
            if l.concrete:
                for k, x in enumerate(l.items):
                    t = z3.Select(arr, z3.simplify(tot + k))
                    self.define([], t == self.unwrap(x, kind), t)
            else:
                self.define([j], z3.Implies(z3.And(j >= tot, j < tot + n), z3.Select(arr, j) == z3.Select(l.arr, j - tot)), z3.Select(arr, j))
                if z3.is_const(l.arr):
                    self.define([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(arr, j + tot) == z3.Select(l.arr, j)), z3.Select(l.arr, j)) if not self.loops else None
            tot = tot + n
        return self.new(VList(None, z3.simplify(tot), arr, kind, prov=("concat", ls)))

    def to_list(self, v):
        v = self.resolve(v)
        if isinstance(v, VList):
            return v
        if isinstance(v, VTuple):
            return VList(list(v.items))
        raise Unsupported("not a list: %r" % (v,))

    def slice_list(self, l, lo, hi, step):
        self.note_read(l)
        if self.is_hav(l):
            raise Unsupported("slice of a changing list")
        if l.concrete and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
            return self.new(VList(list(l.items[slice(lo, hi, step)])))
        if step not in (None, 1):
            if (lo is None or (isinstance(lo, int) and lo < 0)) and hi is None and step == -1 and not l.concrete:
                n = self.length(l)
                if lo is not None:
                    n = n + (lo + 1)
                    if self.feasible(n < 0):
                        n = z3.If(n > 0, n, z3.IntVal(0))
                    n = z3.simplify(n)
                r = self.sym_list("rev", l.elem, n)
                j = z3.FreshConst(INT, "j")
                self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(r.arr, j) == z3.Select(l.arr, n - 1 - j)), patterns=[z3.Select(r.arr, j)]))
                if z3.is_const(l.arr) and not self.loops:
                    self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(r.arr, n - 1 - j) == z3.Select(l.arr, j)), patterns=[z3.Select(l.arr, j)]))
                return r
            raise Unsupported("slice step")
        if l.prov and l.prov[0] == "split":
            return self.new(VList(None, None, None, "str", prov=("splitslice", l, lo, hi)))
        if l.concrete:
            raise Unsupported("symbolic slice of a concrete list")
        n = l.n

        def norm(x, dflt):
            if x is None:
                return dflt
            t = z3.IntVal(x) if isinstance(x, int) else self.unwrap(x, "int")
            if isinstance(x, int):
                t = n + x if x < 0 else t
            else:
                t = z3.If(t < 0, n + t, t)
            return z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t))

        a, b = z3.simplify(norm(lo, z3.IntVal(0))), z3.simplify(norm(hi, n))
        m = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
        if z3.is_int_value(a) and a.as_long() == 0:
            return self.new(VList(None, m, l.arr, l.elem, name=l.name, prov=("slice", l, a, b)))
        arr = self.fresh_u("slice", l.arr.sort())
        j = z3.FreshConst(INT, "j")
        self.define([j], z3.Select(arr, j) == z3.Select(l.arr, j + a), z3.Select(arr, j))
        if z3.is_const(l.arr) and not self.loops:
            self.assume(z3.ForAll([j], z3.Select(arr, j - a) == z3.Select(l.arr, j), patterns=[z3.Select(l.arr, j)]))
        return self.new(VList(None, m, arr, l.elem, name=l.name, prov=("slice", l, a, b)))

    # ------------------------------------------------------------- functions
    def call_func(self, func, args, kwargs, self_=None):
        q = func.qual
        self.called.add(q)
        if q in self.summaries and q not in self.verifying_now(func):
            self.used_summaries.add(q)
            return self.summaries[q](self, self_, args, kwargs)
        if self.depth > 25:
            raise Unsupported("recursion in " + str(q))
        if q and sum(1 for x in self.callstack if x == q) >= 2:
            raise Unsupported("recursive function without contract: " + q)
        if q:
            self.inlined.add(q)
        node = func.node
        env = {}
        a = list(args)
        if self_ is not None:
            a = [self_] + a
        fr = Frame(func, env, self_, func.cls, func.module, func.closure)
        self.bind(node.args, a, kwargs, fr)
        self.depth += 1
        self.callstack.append(q)
        try:
            if isinstance(node, A.Lambda):
                return self.ev(node.body, fr)
            if not hasattr(node, "_gen"):
                node._gen = any(isinstance(x, (A.Yield, A.YieldFrom)) for x in A.walk(node))
            if node._gen:
                return self.run_generator(node, fr)
            self.block(node.body, fr)
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
            self.callstack.pop()
            self.last_env = env

    def run_generator(self, node, fr):
        """A generator is run to completion; its values are collected in a list."""
        l = self.new(VList([]))
        fr.env["__yield__"] = l
        try:
            self.block(node.body, fr)
        except Ret:
            pass
        return l

    def verifying_now(self, func):
        # the function under verification is executed, but its recursive calls use the contract
        if func.qual in self.verifying and func.qual not in self.callstack:
            return {func.qual}
        return ()

    def bind(self, ar, args, kwargs, fr):
        names = [x.arg for x in ar.posonlyargs + ar.args]
        env = fr.env
        kwargs = dict(kwargs)
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
            elif ar.vararg:
                break
            else:
                raise PyRaise("TypeError", ("too many arguments",))
        if ar.vararg:
            env[ar.vararg.arg] = VTuple(args[len(names):])
        for x in ar.kwonlyargs:
            names.append(x.arg)
        extra = {}
        for k, v in kwargs.items():
            if k in names:
                if k in env:
                    raise PyRaise("TypeError", ("multiple values for " + k,))
                env[k] = v
            elif ar.kwarg:
                extra[k] = v
            else:
                raise PyRaise("TypeError", ("unexpected keyword " + k,))
        if ar.kwarg:
            env[ar.kwarg.arg] = self.new(VDict(extra))
        pos = [x.arg for x in ar.posonlyargs + ar.args]
        for nm, d in zip(pos[len(pos) - len(ar.defaults):], ar.defaults):
            if nm not in env:
                v = self.ev(d, Frame(None, {}, module=fr.module))
                if isinstance(v, Mut):
                    v.frozen = True  # a mutable default is shared by all calls
                env[nm] = v
        for x, d in zip(ar.kwonlyargs, ar.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.ev(d, Frame(None, {}, module=fr.module))
        for nm in names:
            if nm not in env:
                raise PyRaise("TypeError", ("missing argument " + nm,))

    def call(self, f, args, kwargs, node=None):
        f = self.resolve(f)
        if isinstance(f, Bound):
            if isinstance(f.func, Func):
                if any(isinstance(d, A.Name) and d.id == "staticmethod" for d in f.func.node.decorator_list):
                    return self.call_func(f.func, args, kwargs)
                return self.call_func(f.func, args, kwargs, f.self_)
            return self.call_ext(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Native):
            return f.fn(self, args, kwargs)
        if isinstance(f, Meth):
            return self.call_meth(f.obj, f.name, args, kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs)
        if isinstance(f, VObj):
            m = self.getattr(f, "__call__")
            return self.call(m, args, kwargs, node)
        if isinstance(f, Havoc):
            raise Unsupported("call of unknown value " + f.name)
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, c, args, kwargs):
        q = c.qual
        if q in self.summaries:
            self.used_summaries.add(q)
            return self.summaries[q](self, None, args, kwargs)
        new, _ = self.src.method(c, "__new__")
        o = None
        if isinstance(new, Func):
            o = self.call_func(new, [c] + list(args), kwargs)
        else:
            o = self.new(VObj(c))
        init, _ = self.src.method(c, "__init__")
        if isinstance(init, Func):
            self.call_func(init, args, kwargs, o)
        return o

    def call_ext(self, f, args, kwargs):
        nm = f.name
        h = self.externs.get(nm) or EXTERNS.get(nm)
        if h is None:
            b = BUILTINS.get(nm.split(".", 1)[1]) if nm.startswith("builtins.") else None
            if b:
                return b(self, args, kwargs)
            if nm.startswith("ast.") and nm[4:] in KNUM:
                return mk_node(self, nm[4:], args, kwargs)
            raise Unsupported("call of external " + nm)
        self.used_externs.add(nm)
        return h(self, args, kwargs)

    # ------------------------------------------------------------- attributes
    def getattr(self, o, name):
        o = self.resolve(o)
        if isinstance(o, VObj):
            for f in reversed(self.loops):
                if o.birth <= f.mark:
                    if (id(o), name) in f.overlay:
                        return f.overlay[(id(o), name)]
                    f.reads.add((id(o), name))
                    if (id(o), name) in f.carried:
                        return f.carried[(id(o), name)]
            if name in o.fields:
                v = o.fields[name]
                if isinstance(v, Lazy):
                    v = o.fields[name] = v.fn(self)
                return v
            if name == "__class__" and isinstance(o.cls, Cls):
                return o.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            if isinstance(o.cls, Cls):
                m, k = self.src.method(o.cls, name)
                if isinstance(m, Func):
                    decos = [d.id for d in m.node.decorator_list if isinstance(d, A.Name)]
                    if "property" in decos:
                        return self.call_func(m, [], {}, o)
                    return Bound(m, o)
                k2, e = self.src.class_attr(o.cls, name)
                if k2 is not None:
                    return self.class_attr(k2, name, e)
                if isinstance(m, Ext) and m.name.split(".")[0] not in ("object",):
                    return Bound(m, o)
            raise PyRaise("AttributeError", (name,))
        if isinstance(o, SRef):
            if name in FIELDS:
                return self.get_field(o, name)
            if name == "_fields":
                return VTuple(tuple(getattr(A, self.only_kind(o))._fields))
            raise Unsupported("attribute .%s of a node" % name)
        if isinstance(o, Cls):
            if (o.qual, name) in self.class_attrs:
                return self.class_attr(o, name, None)
            k, e = self.src.class_attr(o, name)
            if k is not None:
                return self.class_attr(k, name, e)
            m, k = self.src.method(o, name)
            if m is not None:
                return m
            if name == "__name__":
                return o.node.name
            raise PyRaise("AttributeError", (name,))
        if isinstance(o, Ext):
            return Ext(o.name + "." + name)
        if isinstance(o, Super):
            m, k = self.src.method(self.runtime_class(o), name, after=o.cls)
            if m is None:
                raise PyRaise("AttributeError", (name,))
            return Bound(m, o.self_)
        if isinstance(o, (str, SStr, VList, VTuple, VDict, VMap, VSet, Rec, Acc, Native, int, SInt)):
            return Meth(o, name)
        if o is None:
            raise PyRaise("AttributeError", ("None." + name,))
        if isinstance(o, Func) and name == "__name__":
            return o.node.name
        if isinstance(o, Havoc):
            self.taint("attribute of unknown")
            return Havoc(o.name + "." + name)
        raise Unsupported("attribute .%s of %r" % (name, o))

    def runtime_class(self, sup):
        s = sup.self_
        if isinstance(s, VObj):
            return s.cls
        return sup.cls

    def class_attr(self, c, name, expr):
        key = (c.qual, name)
        if key not in self.globals:
            if key in self.class_attrs:
                self.globals[key] = self.class_attrs[key](self)
            else:
                self.globals[key] = self.ev(expr, Frame(None, {}, module=c.module, cls=c))
        return self.globals[key]

    def setattr(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, VObj):
            if o.frozen:
                self.frozen_hits.append((o, name))
            if self.hoare:
                self.may_change(o, name)
            if self.is_outer(o):
                f = self.loops[-1]
                f.overlay[(id(o), name)] = v
                f.attr_touched[(id(o), name)] = o
                return
            o.fields[name] = v
            return
        if isinstance(o, SRef):
            return self.set_field(o, name, v)
        if isinstance(o, Cls):
            if self.loops:
                raise Unsupported("class attribute store in loop")
            self.globals[(o.qual, name)] = v
            return
        raise Unsupported("setattr on %r" % (o,))

    # ------------------------------------------------------------- names
    def name(self, nm, fr):
        f = fr
        while f is not None:
            if nm in f.env:
                return f.env[nm]
            f = f.parent
        mod = fr.module
        if (mod, nm) in self.globals:
            return self.globals[(mod, nm)]
        if mod:
            r = self.src.lookup(mod, nm)
            if isinstance(r, tuple):
                _, m2, n2, e = r
                if (m2, n2) not in self.globals:
                    if (m2, n2) in self.class_attrs:
                        self.globals[(m2, n2)] = self.class_attrs[(m2, n2)](self)
                    else:
                        self.globals[(m2, n2)] = self.ev(e, Frame(None, {}, module=m2))
                return self.globals[(m2, n2)]
            if r is not None:
                return r
        if nm in BUILTINS or nm in TYPES:
            return Ext("builtins." + nm)
        import builtins

        if hasattr(builtins, nm):
            return Ext("builtins." + nm)
        raise PyRaise("NameError", (nm,))

    # ------------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.stmt_line = getattr(s, "lineno", None)
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        return m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, A.Constant):
            return
        if isinstance(s.value, A.Yield):
            v = self.ev(s.value.value, fr) if s.value.value else None
            self.mutate(fr.env["__yield__"], "append", v)
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise Ret(self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise Brk()

    def s_Continue(self, s, fr):
        raise Cont()

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, A.Name):
            if t.id in getattr(fr, "globals_", ()):
                if self.loops:
                    raise Unsupported("global store in loop")
                self.globals[(fr.module, t.id)] = v
                return
            if t.id in getattr(fr, "nonlocals_", ()):
                f = fr.parent
                while f is not None and t.id not in f.env:
                    f = f.parent
                if f is None or self.loops:
                    raise Unsupported("nonlocal")
                f.env[t.id] = v
                return
            fr.env[t.id] = v
        elif isinstance(t, A.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, A.Subscript):
            self.setitem(self.ev(t.value, fr), self.index(t.slice, fr), v)
        elif isinstance(t, (A.Tuple, A.List)):
            v = self.resolve(v)
            if isinstance(v, Havoc):
                for e in t.elts:
                    self.assign(e, Havoc(v.name), fr)
                return
            if not isinstance(v, (VTuple, VList)) or isinstance(v, VList) and not v.concrete:
                raise Unsupported("unpack %r" % (v,))
            if len(v.items) != len(t.elts) or any(isinstance(e, A.Starred) for e in t.elts):
                raise Unsupported("unpack")
            for e, x in zip(t.elts, v.items):
                self.assign(e, x, fr)
        else:
            raise Unsupported("assign to " + type(t).__name__)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, A.Name):
            cur = self.name(t.id, fr)
            v = self.ev(s.value, fr)
            if isinstance(cur, VList) and isinstance(s.op, A.Add):
                self.mutate(cur, "extend", self.iter_list(v))
                return
            self.assign(t, self.binop(s.op, cur, v), fr)
        elif isinstance(t, A.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.ev(s.value, fr)
            self.setattr(o, t.attr, self.binop(s.op, cur, v))
        elif isinstance(t, A.Subscript):
            o = self.ev(t.value, fr)
            i = self.index(t.slice, fr)
            cur = self.getitem(o, i)
            v = self.ev(s.value, fr)
            self.setitem(o, i, self.binop(s.op, cur, v))
        else:
            raise Unsupported("augassign")

    def merge_if(self, s, fr):
        """if c: x = True  -  with boolean constants only: no need to fork"""
        vals = {}
        for branch, stmts in ((True, s.body), (False, s.orelse)):
            for a in stmts:
                if isinstance(a, A.Pass):
                    continue
                if not (isinstance(a, A.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], A.Name) and isinstance(a.value, A.Constant) and isinstance(a.value.value, bool)):
                    return False
                nm = a.targets[0].id
                old = fr.env.get(nm)
                if not isinstance(old, (bool, SBool)):
                    return False
                vals.setdefault(nm, {True: old, False: old})[branch] = a.value.value
        if not vals:
            return False
        c = self.resolve(self.ev(s.test, fr))
        if isinstance(c, SBool):
            t = z3.simplify(c.t)
            for nm, v in vals.items():
                self.assign(A.Name(id=nm, ctx=A.Store()), self.mkbool(z3.simplify(z3.If(t, self.unwrap(v[True], "bool"), self.unwrap(v[False], "bool")))), fr)
        else:
            b = self.truth(c)
            self.block(s.body if b else s.orelse, fr)
        return True

    def s_If(self, s, fr):
        if self.merge_if(s, fr):
            return
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyRaise("AssertionError")

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise PyRaise("reraise")
        nm = None
        e = s.exc
        if isinstance(e, A.Call):
            e = e.func
        if isinstance(e, A.Name):
            nm = e.id
        raise PyRaise(nm or "Exception")

    def s_Import(self, s, fr):
        for a in s.names:
            fr.env[a.asname or a.name.split(".")[0]] = Ext(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s, fr):
        for a in s.names:
            if self.src.is_repo(s.module or ""):
                r = self.src.lookup(s.module, a.name)
                if r is None or isinstance(r, tuple):
                    raise Unsupported("local import")
                fr.env[a.asname or a.name] = r
            else:
                fr.env[a.asname or a.name] = Ext(s.module + "." + a.name)

    def s_FunctionDef(self, s, fr):
        fr.env[s.name] = Func(s, fr.module, None, (fr.func.qual if fr.func else "") + ".<locals>." + s.name, fr)

    def s_Global(self, s, fr):
        fr.globals_ = getattr(fr, "globals_", ()) + tuple(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals_ = getattr(fr, "nonlocals_", ()) + tuple(s.names)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, A.Subscript):
                o = self.resolve(self.ev(t.value, fr))
                self.delitem(o, self.index(t.slice, fr))
            elif isinstance(t, A.Name):
                fr.env.pop(t.id, None)
            else:
                raise Unsupported("del")

    def delitem(self, o, i):
        if isinstance(o, (VDict, VMap)):
            c = self.contains(o, i)
            if not (c if isinstance(c, bool) else self.fork(c)):
                raise PyRaise("KeyError")
            self.mutate(o, "del", i)
        elif isinstance(o, VList) and o.concrete and isinstance(i, int):
            if self.is_outer(o):
                raise Unsupported("del in loop")
            del o.items[i]
        else:
            raise Unsupported("del item of %r" % (o,))

    def s_With(self, s, fr):
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            if isinstance(v, VObj) and isinstance(v.cls, Cls):
                raise Unsupported("with on repo object")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(s.body, fr)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if self.exc_match(h.type, e, fr):
                        if h.name:
                            fr.env[h.name] = self.new(VObj("exception"))
                        self.block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def exc_match(self, t, e, fr):
        if t is None:
            return True
        names = [x.id if isinstance(x, A.Name) else getattr(x, "attr", "?") for x in (t.elts if isinstance(t, A.Tuple) else [t])]
        import builtins

        c = getattr(builtins, e.cls or "", None)
        for n in names:
            k = getattr(builtins, n, None)
            if n in ("Exception", "BaseException"):
                return True
            if k is not None and c is not None and issubclass(c, k):
                return True
        return False

    def s_While(self, s, fr):
        for _ in range(64):
            d0 = len(self.dec.trail)
            # a symbolic condition makes it a symbolic loop
            if self.concrete_cond(s.test, fr):
                if not self.truth(self.ev(s.test, fr)):
                    self.block(s.orelse, fr)
                    return
                try:
                    self.block(s.body, fr)
                except Brk:
                    return
                except Cont:
                    continue
            else:
                if not self.truth(self.ev(s.test, fr)):
                    self.block(s.orelse, fr)
                    return
                return self.sym_while(s, fr)
        raise Unsupported("while loop without bound")

    def concrete_cond(self, test, fr):
        """Would evaluating the test need a symbolic decision?  (dry run, discarded)"""
        saved = self.dec, len(self.pc), self.nfresh
        sub = Dec([])
        self.dec = sub
        self.solver.push()
        try:
            self.truth(self.ev(test, fr))
            return not sub.trail
        except (PyRaise, Infeasible):
            return False
        finally:
            self.solver.pop()
            del self.pc[saved[1]:]
            self.dec, self.nfresh = saved[0], saved[2]

    # ------------------------------------------------------------- for loops
    def iter_list(self, v):
        """The sequence of an iterable: a VList."""
        v = self.resolve(v)
        if isinstance(v, VList):
            if v.prov and v.prov[0] in ("split", "splitslice"):
                raise Unsupported("iteration over split list")
            self.note_read(v)
            if self.is_hav(v):
                raise Unsupported("iteration over a changing list")
            return v
        if isinstance(v, VTuple):
            return VList(list(v.items))
        if isinstance(v, VDict):
            return VList(list(v.d))
        if isinstance(v, VSet):
            self.note_read(v)
            if v.items is not None:
                return VList(list(v.items))
            return self.enum_pred(v, v.present, "str", v.name)
        if isinstance(v, VMap):
            self.note_read(v)
            return self.enum_pred(v, v.present, "optstr", v.name)
        if isinstance(v, VObj) and "__iter__" in v.fields:
            return v.fields["__iter__"](self)
        if isinstance(v, str):
            return VList(list(v))
        if isinstance(v, Range):
            if isinstance(v.a, int) and isinstance(v.b, int) and isinstance(v.step, int):
                return VList(list(range(v.a, v.b, v.step)))
            if v.step == 1 or v.step == -1:
                a, b = self.unwrap(v.a, "int"), self.unwrap(v.b, "int")
                n = self.fresh("range_n", INT)
                d = b - a if v.step == 1 else a - b
                self.assume(n == z3.If(d > 0, d, z3.IntVal(0)))
                return VList(None, n, None, lambda e, t: SInt(t), name="range", prov=("range", a, v.step))
            raise Unsupported("range")
        if isinstance(v, Enum):
            l = self.iter_list(v.it)
            if l.concrete:
                return VList([VTuple((v.start + i, x)) for i, x in enumerate(l.items)])
            return VList(None, l.n, l.arr, l.elem, name=l.name, prov=("enum", l, v.start))
        if isinstance(v, Zip):
            ls = [self.iter_list(x) for x in v.its]
            if all(l.concrete for l in ls):
                return VList([VTuple(t) for t in zip(*[l.items for l in ls])])
            if any(l.concrete for l in ls):
                raise Unsupported("zip of symbolic and concrete")
            n = self.fresh("zip_n", INT)
            self.assume(z3.And([n <= l.n for l in ls] + [z3.Or([n == l.n for l in ls])]))
            return VList(None, n, ls[-1].arr, ls[-1].elem, name=ls[-1].name, prov=("zip", ls))
        if isinstance(v, Items):
            if isinstance(v.m, VDict):
                return VList([VTuple((k, x)) for k, x in v.m.d.items()])
            l = self.enum_pred(v.m, v.m.present, "optstr", v.m.name)
            l.prov = ("items", v.m)
            return l
        raise Unsupported("iteration over %r" % (v,))

    def enum_pred(self, obj, present, elem, name):
        """An enumeration (n, arr) of the keys of a set or map, each once."""
        if self.is_hav(obj):
            raise Unsupported("iteration over changing collection")
        if self.loops:
            raise Unsupported("iteration over a symbolic set inside a symbolic loop")
        n = self.fresh("enum_n", INT)
        arr = self.fresh("enum", z3.ArraySort(INT, STR))
        self.assume(n >= 0)
        j, k = z3.FreshConst(INT, "j"), z3.FreshConst(STR, "k")
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(present, z3.Select(arr, j))), patterns=[z3.Select(arr, j)]))
        pos = z3.Function("enumpos!%d" % self.nfresh, STR, INT)
        self.assume(z3.ForAll([k], z3.Implies(z3.Select(present, k), z3.And(pos(k) >= 0, pos(k) < n, z3.Select(arr, pos(k)) == k)), patterns=[z3.Select(present, k)]))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), pos(z3.Select(arr, j)) == j), patterns=[z3.Select(arr, j)]))
        l = VList(None, n, arr, elem, name=name)
        l.enum_of = obj
        return l

    def loop_elem(self, l, it):
        if l.prov and l.prov[0] == "range":
            return SInt(l.prov[1] + it * l.prov[2])
        if l.prov and l.prov[0] == "enum":
            i = it + l.prov[2]
            return VTuple((SInt(z3.simplify(i)), self.loop_elem(l.prov[1], it)))
        if l.prov and l.prov[0] == "zip":
            return VTuple(tuple(self.loop_elem(x, it) for x in l.prov[1]))
        if l.prov and l.prov[0] == "items":
            k = self.wrap("optstr", z3.Select(l.arr, it))
            return VTuple((k, self.map_val(l.prov[1], k)))
        return self.elem_at(l, it)

    def s_For(self, s, fr):
        l = self.iter_list(self.ev(s.iter, fr))
        if l.concrete:
            try:
                # a list may grow or shrink while it is iterated
                i = 0
                while i < len(l.items):
                    self.assign(s.target, l.items[i], fr)
                    i += 1
                    try:
                        self.block(s.body, fr)
                    except Cont:
                        pass
                self.block(s.orelse, fr)
            except Brk:
                pass
            return
        if isinstance(self.loop_spec, NestSpec):
            sp = None if self.loops else self.loop_spec.pick(self, l)
            if sp:
                return self.step_for(s, l, fr, sp)
        elif isinstance(self.loop_spec, StepSpec):
            if not self.loops and not self.hoare and self.loop_spec.applies(self, l):
                return self.step_for(s, l, fr)
        elif self.loop_spec and not self.loops:
            return self.hoare_for(s, l, fr)
        self.sym_for(s, l, fr)

    def hoare_for(self, s, l, fr):
        """A loop with a stated invariant: it holds on entry, an arbitrary iteration keeps it,
        and nothing else is known afterwards.  Only the state the specification names may change."""
        sp = self.loop_spec
        names = self.assigned(s.body) | self.assigned([A.Assign(targets=[s.target], value=s.iter)])
        n = self.length(l)
        sp.enter(self)
        for nm, t in sp.inv(self):
            self.prove("loop invariant holds on entry: " + nm, t)
        mark = self.tick
        sp.havoc(self)
        for nm, t in sp.inv(self):
            self.assume(t)
        for k in names:
            if k in fr.env:
                v = fr.env[k]
                kd = self.kind_of(v)
                fr.env[k] = self.fresh_val("loop_" + k, kd) if kd in ("int", "str", "bool", "ref") else Havoc("loop " + k)
        if self.choose(2) == 0:
            for k in names:
                if k not in fr.env:
                    fr.env[k] = Havoc("loop variable " + k)
            self.block(s.orelse, fr)
            sp.leave(self)
            return
        i = self.fresh("iter", INT)
        self.assume(z3.And(0 <= i, i < n))
        self.assign(s.target, self.loop_elem(l, i), fr)
        self.hoare.append((mark, sp.allowed(self)))
        try:
            self.block(s.body, fr)
        except Cont:
            pass
        except Brk:
            self.hoare.pop()
            sp.leave(self)
            return
        except Ret:
            self.hoare.pop()
            raise
        self.hoare.pop()
        for nm, t in sp.inv(self):
            self.prove("loop invariant is kept: " + nm, t)
        raise Infeasible()

    def step_for(self, s, l, fr, sp=None):
        sp = sp or self.loop_spec
        names = self.assigned(s.body) | self.assigned([A.Assign(targets=[s.target], value=s.iter)])
        n = self.length(l)
        accs = {}
        f = fr
        for k, v in list(fr.env.items()):
            if isinstance(v, VList) and v.concrete and not v.items and k not in names:
                accs[k] = v
        if len({id(v) for v in accs.values()}) != len(accs):
            raise Unsupported("two names of one list")
        mark = self.tick
        sp.frame, sp.entry = fr, dict(fr.env)
        sp.havoc(self)
        for k in names:
            if k in fr.env:
                v = fr.env[k]
                kd = self.kind_of(v)
                fr.env[k] = self.fresh_val("loop_" + k, kd) if kd in ("int", "str", "bool", "ref") else Havoc("loop " + k)
        sp.state = dict(fr.env)
        if self.choose(2) == 0:
            for k in names:
                if k not in fr.env:
                    fr.env[k] = Havoc("loop variable " + k)
            for k, w in sp.after(self, l, sorted(accs)).items():
                v = accs.pop(k)
                v.items, v.n, v.arr, v.elem, v.prov = None, w.n, w.arr, w.elem, w.prov
            for v in accs.values():
                v.items, v.n = None, None  # nothing is known of it: a use is an engine error
            self.block(s.orelse, fr)
            return
        i = self.fresh("iter", INT)
        self.assume(z3.And(0 <= i, i < n))
        got = {}
        for k, v in accs.items():
            a = got[k] = self.new(Acc())
            fr.env[k] = a
            v.items, v.n = None, None
        sp.begin(self, i)
        self.assign(s.target, self.loop_elem(l, i), fr)
        self.hoare.append((mark, sp.allowed(self)))
        try:
            self.block(s.body, fr)
        except Cont:
            pass
        except (Brk, Ret):
            raise Unsupported("the loop may end early")
        self.hoare.pop()
        for k in accs:
            if fr.env.get(k) is not got[k]:
                raise Unsupported("%s is rebound in the loop" % k)
        sp.step(self, i, {k: a.got for k, a in got.items()})
        raise Infeasible()

    def may_change(self, obj, name=None):
        for mark, allowed in self.hoare:
            if getattr(obj, "birth", 0) <= mark and id(obj) not in allowed and (id(obj), name) not in allowed:
                raise Unsupported("%s of %r changes in a loop whose invariant does not name it" % (name, obj))

    @staticmethod
    def assigned(stmts):
        out = set()

        class V(A.NodeVisitor):
            def visit_Name(self, n):
                if isinstance(n.ctx, (A.Store, A.Del)):
                    out.add(n.id)

            def visit_FunctionDef(self, n):
                out.add(n.name)

            def visit_Lambda(self, n):
                pass

            def visit_ListComp(self, n):
                pass

            visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

            def visit_Import(self, n):
                for a in n.names:
                    out.add(a.asname or a.name.split(".")[0])

            visit_ImportFrom = visit_Import

            def visit_ExceptHandler(self, n):
                if n.name:
                    out.add(n.name)
                self.generic_visit(n)

        v = V()
        for s in stmts:
            v.visit(s)
        return out

    def carry(self, name, v):
        k = self.kind_of(v)
        if isinstance(v, SOpt) or v is None:
            return Havoc("carried " + name)
        if k in ("int", "str", "bool", "ref"):
            return self.fresh_val("carry_" + name, k)
        if isinstance(v, Mut):
            return Havoc("carried " + name)
        return Havoc("carried " + name)

    def sym_for(self, s, l, fr):
        n = self.length(l)
        names = self.assigned(s.body) | self.assigned([A.Assign(targets=[s.target], value=s.iter)])
        before = {k: fr.env[k] for k in names if k in fr.env}

        def bind(it):
            self.assign(s.target, self.loop_elem(l, it), fr)

        self.summarise(s, fr, l, n, names, before, bind, None)

    def sym_while(self, s, fr):
        names = self.assigned(s.body)
        before = {k: fr.env[k] for k in names if k in fr.env}
        n = self.fresh("iters", INT)
        self.assume(n >= 1)  # the first test was true
        self.summarise(s, fr, None, n, names, before, None, s.test)

    def summarise(self, s, fr, l, n, names, before, bind, test):
        """Replace the loop by the fold of its effects."""
        hav, attr_hav = {}, {}
        for attempt in range(3):
            lf, subs = self.run_body(s, fr, l, n, names, before, bind, test, hav, attr_hav)
            clash = {k: o for k, o in lf.touched.items() if k in lf.reads and k not in hav}
            for k, o in lf.touched.items():
                if k in lf.kreads and k not in lf.reads and k not in hav and not self.disjoint_keys(lf, subs, n, k):
                    clash[k] = o
            aclash = {k: o for k, o in lf.attr_touched.items() if k not in attr_hav}
            if not clash and not aclash:
                break
            hav = {**hav, **clash}
            attr_hav = {**attr_hav, **aclash}
        else:
            raise Unsupported("loop effects do not stabilise")
        normal = [x for x in subs if x["exit"] == "normal"]
        abrupt = [x for x in subs if x["exit"] != "normal"]
        idx = lf.idx

        def at(t, j):
            return z3.substitute(t, (idx, j)) if not isinstance(t, bool) else t

        def norm_all(hi):
            """all iterations before hi completed normally"""
            if not normal:
                return hi <= 0
            d = z3.Or([x["cond"] for x in normal])
            d = z3.simplify(d)
            if z3.is_true(d):
                return None
            if not mentions(d, idx):
                return z3.Or(hi <= 0, d)
            j = z3.FreshConst(INT, "j")
            body = z3.Implies(z3.And(j >= 0, j < hi), at(d, j))
            return self.forall([j], body, l)

        pick = self.choose(2) if abrupt else 0
        if pick == 0:
            c = norm_all(n)
            if c is not None:
                self.assume(c)
            self.apply(s, fr, l, n, names, before, lf, normal, at, hav, attr_hav)
            if test is not None:
                if self.truth(self.ev(test, fr)):
                    raise Infeasible()
            elif l is not None and isinstance(s, A.For):
                for k in names:
                    if k in fr.env and k not in before:
                        pass
            self.block(s.orelse, fr)
            return
        # some iteration ends abruptly: execute it in the state after the iterations before it
        i0 = self.fresh("exit_at", INT)
        self.assume(z3.And(i0 >= 0, i0 < n))
        self.assume(z3.Or([at(x["cond"], i0) for x in abrupt]))
        c = norm_all(i0)
        if c is not None:
            self.assume(c)
        self.apply(s, fr, l, i0, names, before, lf, normal, at, hav, attr_hav)
        if bind:
            bind(i0)
        elif test is not None:
            if not self.truth(self.ev(test, fr)):
                raise Infeasible()
        try:
            self.block(s.body, fr)
        except Brk:
            return
        except Cont:
            raise Infeasible()
        raise Infeasible()

    def forall(self, vs, body, l=None):
        pats = []
        if l is not None and l.arr is not None and len(vs) == 1:
            p = z3.Select(l.arr, vs[0])
            s_ = body.sexpr()
            if p.sexpr() in s_ and not z3.is_quantifier(l.arr):
                pats = [p]
        try:
            return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)
        except z3.Z3Exception:
            return z3.ForAll(vs, body)

    def run_body(self, s, fr, l, n, names, before, bind, test, hav, attr_hav):
        self.nfresh += 1
        idx = z3.Const("i!%d" % self.nfresh, INT)
        mark = self.tick
        subs = []
        work = [[]]
        saved_env = dict(fr.env)
        saved_dec = self.dec
        hoist0 = len(self.hoisted)
        pc0, nf0, tick0, alloc0 = len(self.pc), self.nfresh, self.tick, self.nalloc
        heap0 = dict(self.heap)
        lf = LoopFrame(idx, n, mark, hav)
        parent_frames = []
        f = fr.parent
        while f is not None:
            parent_frames.append((f, dict(f.env)))
            f = f.parent
        count = 0
        while work:
            prefix = work.pop()
            count += 1
            if count > 400:
                raise Unsupported("too many paths in a loop body")
            fr.env.clear()
            fr.env.update(saved_env)
            self.dec = Dec(prefix)
            self.nfresh, self.tick, self.nalloc = nf0, tick0, alloc0
            self.heap = dict(heap0)
            lf.effects, lf.overlay, lf.carried = [], {}, {}
            self.solver.push()
            self.loops.append(lf)
            ev0 = len(self.events)
            fz0 = len(self.frozen_hits)
            try:
                self.assume(z3.And(idx >= 0, idx < n))
                for k, v in before.items():
                    fr.env[k] = self.carry(k, v)
                for (oid, nm), o in attr_hav.items():
                    lf.carried[(oid, nm)] = self.carry(nm, o.fields.get(nm))
                start = {k: fr.env.get(k) for k in before}
                if bind:
                    bind(idx)
                exit_ = "normal"
                try:
                    if test is not None and not self.truth(self.ev(test, fr)):
                        raise Infeasible()
                    pcs = len(self.pc)
                    self.block(s.body, fr)
                except Cont:
                    pass
                except Brk:
                    exit_ = "break"
                except Ret:
                    exit_ = "return"
                except PyRaise:
                    exit_ = "raise"
                if len(self.events) != ev0:
                    raise Unsupported("external effect in a symbolic loop: %r" % (self.events[ev0:],))
                cond = z3.And(self.pc[pc0 + 1:]) if len(self.pc) > pc0 + 1 else z3.BoolVal(True)
                subs.append(
                    dict(
                        exit=exit_,
                        cond=z3.simplify(cond) if not has_quant(cond) else cond,
                        effects=list(lf.effects),
                        start=start,
                        carried=dict(lf.carried),
                        env={k: fr.env.get(k) for k in names},
                        overlay=dict(lf.overlay),
                    )
                )
            except Infeasible:
                pass
            finally:
                self.loops.pop()
                self.solver.pop()
                for ax in self.hoisted[hoist0:]:
                    self.solver.add(ax)
                hoist0 = len(self.hoisted)
                del self.pc[pc0:]
                work.extend(self.dec.alts)
                self.dec = saved_dec
        fr.env.clear()
        fr.env.update(saved_env)
        for f, e in parent_frames:
            f.env.clear()
            f.env.update(e)
        self.nfresh = nf0 + 1000
        self.tick = tick0 + 1000
        self.nalloc = alloc0 + 100
        self.heap = heap0
        return lf, subs

    def apply(self, s, fr, l, n, names, before, lf, normal, at, hav, attr_hav):
        """The state after n iterations which all completed normally."""
        idx = lf.idx
        j = z3.FreshConst(INT, "j")
        unit_total = []
        # --- locals and attributes of objects
        def carried_value(nm, orig, pairs):
            """pairs: (start value, final value, cond) per normal sub-path"""
            deltas, kinds, same = [], set(), True
            for st, fin, cond in pairs:
                if fin is st:
                    deltas.append(0)
                    continue
                same = False
                if isinstance(fin, (SInt, int)) and isinstance(st, SInt) and not isinstance(fin, bool):
                    d = z3.simplify(self.unwrap(fin, "int") - st.t)
                    if z3.is_int_value(d):
                        deltas.append(d.as_long())
                        continue
                deltas.append(None)
                kinds.add(self.kind_of(fin))
            if same or not pairs:
                return orig
            if all(d is not None for d in deltas) and self.kind_of(orig) == "int":
                lo, hi = min(deltas), max(deltas)
                c = self.fresh("cnt_" + nm, INT)
                self.assume(z3.And(c >= lo * n, c <= hi * n))
                if set(deltas) <= {0, 1}:
                    P = z3.Or([cond for (st, fin, cond), d in zip(pairs, deltas) if d == 1] or [z3.BoolVal(False)])
                    self.count_facts(P, idx, n, c, l)
                    unit_total.append((c, deltas))
                return SInt(z3.simplify(self.unwrap(orig, "int") + c))
            v = last_assigned(nm, orig, pairs)
            if v is not None:
                return v[0]
            if len(kinds) == 1 and None not in kinds and "optstr" not in kinds and (self.kind_of(orig) in kinds):
                self.taint("value of %s after a loop" % nm)
                return self.fresh_val("after_" + nm, kinds.pop())
            return Havoc("after loop: " + nm)

        def unmerge(st, fin, cond):
            """undo the joining of 'if c: v = x' (both branches in one term)"""
            if fin is st or not isinstance(fin, S) or not isinstance(st, S):
                return [(st, fin, cond)]
            t, s0 = fin.t, st.t
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                c, a, b = t.children()
                if b.eq(s0):
                    return [(st, st, z3.And(cond, z3.Not(c))), (st, type(fin)(a), z3.And(cond, c))]
                if a.eq(s0):
                    return [(st, st, z3.And(cond, c)), (st, type(fin)(b), z3.And(cond, z3.Not(c)))]
            for op, val in ((z3.is_or, True), (z3.is_and, False)):
                if op(t) and any(x.eq(s0) for x in t.children()):
                    rest = [x for x in t.children() if not x.eq(s0)]
                    c = z3.Or(rest) if val else z3.Not(z3.And(rest))
                    return [(st, st, z3.And(cond, z3.Not(c))), (st, val, z3.And(cond, c))]
            return [(st, fin, cond)]

        def last_assigned(nm, orig, pairs):
            """the value is what the last iteration that assigned it gave it (each iteration
            assigns a value which does not depend on the earlier ones)"""
            pairs = [y for x in pairs for y in unmerge(*x)]
            asg = [(fin, cond) for st, fin, cond in pairs if fin is not st]
            for st, fin, cond in pairs:
                if not self.substitutable(fin, st) or isinstance(st, S) and mentions(cond, st.t):
                    return None
            W = z3.Or([c for _, c in asg])
            w = self.fresh("last_" + nm, INT)
            j = z3.FreshConst(INT, "j")
            none = self.forall([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(at(W, j))), l)
            if self.choose(2) == 0:
                self.assume(none)
                return (orig,)
            self.assume(z3.And(w >= 0, w < n, at(W, w)))
            self.assume(self.forall([j], z3.Implies(z3.And(j > w, j < n), z3.Not(at(W, j))), l))
            k = 0
            while k < len(asg) - 1 and not self.fork(at(asg[k][1], w)):
                k += 1
            if k == len(asg) - 1:
                self.assume(at(asg[k][1], w))
            return (self.subst(asg[k][0], lambda t: at(t, w)),)

        new_env = {}
        for k in names:
            if k in before:
                new_env[k] = carried_value(k, before[k], [(x["start"][k], x["env"][k], x["cond"]) for x in normal])
        new_attr = {}
        for (oid, nm), o in lf.attr_touched.items():
            orig = o.fields.get(nm)
            pairs = []
            for x in normal:
                st = x["carried"].get((oid, nm))
                pairs.append((st, x["overlay"].get((oid, nm), st), x["cond"]))
            new_attr[(oid, nm)] = (o, carried_value(nm, orig, pairs))
        for k in names:
            if k in before:
                fr.env[k] = new_env[k]
            else:
                fr.env[k] = Havoc("loop variable " + k)
        for (oid, nm), (o, v) in new_attr.items():
            self.setattr(o, nm, v)
        # --- containers
        objs = {}
        for x in normal:
            for pos, (o, op, args, bound) in enumerate(x["effects"]):
                objs.setdefault(id(o), (o, []))[1].append((x, pos, op, args, bound))
        for oid, (o, effs) in objs.items():
            ops = {e[2] for e in effs}
            if isinstance(o, VList) and ops == {"append"}:
                self.fold_append(o, effs, normal, n, l, idx, at, unit_total)
            elif isinstance(o, VList) and ops == {"remove"}:
                self.fold_remove(o, effs, normal, n, l, idx, at, unit_total)
            elif isinstance(o, VList) and ops == {"setidx"}:
                self.fold_setidx(o, effs, n, l, idx, at)
            elif isinstance(o, (VDict, VMap)) and ops <= {"set", "del"}:
                self.fold_map(o, effs, n, l, idx, at)
            elif isinstance(o, VSet) and ops <= {"add"}:
                self.fold_map(o, effs, n, l, idx, at)
            else:
                raise Unsupported("loop effect %s on %r" % (sorted(ops), o))
        # --- several 0/1 counters: their increments per iteration add up to at most m
        if len(unit_total) > 1:
            per = [sum(d[k] for _, d in unit_total) for k in range(len(normal))]
            tot = z3.Sum([c for c, _ in unit_total])
            self.assume(z3.And(tot <= max(per) * n, tot >= min(per) * n))
            for a in range(len(unit_total)):
                for b in range(a):
                    (ca, da), (cb, db) = unit_total[a], unit_total[b]
                    dif = [x - y for x, y in zip(da, db)]
                    self.assume(z3.And(ca - cb <= max(dif) * n, ca - cb >= min(dif) * n))

    def substitutable(self, v, start):
        """v does not depend on the value at the start of the iteration and can be re-indexed"""
        if v is start:
            return True
        if v is None or isinstance(v, (bool, int, float, str, Cls, Func, Ext)):
            return True
        if isinstance(v, S):
            if isinstance(start, S):
                return not mentions(v.t, start.t)
            return True
        if isinstance(v, VTuple):
            return all(self.substitutable(x, start) for x in v.items)
        return isinstance(v, VObj) and "__subst__" in v.fields

    def subst(self, v, f):
        if isinstance(v, S):
            return type(v)(f(v.t))
        if isinstance(v, VTuple):
            return VTuple([self.subst(x, f) for x in v.items])
        if isinstance(v, VObj):
            return v.fields["__subst__"](f)
        return v

    def count_facts(self, P, idx, n, c, l):
        """c = number of j < n with P(j)"""
        j = z3.FreshConst(INT, "j")
        self.assume(z3.And(c >= 0, c <= n))
        Pj = z3.substitute(P, (idx, j))
        w = self.fresh("wit", INT)
        self.assume(z3.Implies(c > 0, z3.And(w >= 0, w < n, z3.substitute(P, (idx, w)))))
        self.assume(z3.Implies(c == 0, self.forall([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(Pj)), l)))
        self.assume(z3.Implies(c == n, self.forall([j], z3.Implies(z3.And(j >= 0, j < n), Pj), l)))
        self.counts.append((P, idx, n, c))

    def count_of(self, mk, n, l=None, name="spec_cnt"):
        """Specification side: the number of j < n with mk(j).  It is identified with a
        counter of the code when the solver proves that the predicates agree."""
        idx = z3.FreshConst(INT, "i")
        P = mk(idx)
        c = self.fresh("spec_" + name, INT)
        known = [x for x in self.counts if not x[3].decl().name().startswith("spec_")]
        hit = False
        for Q, qi, qn, qc in list(self.counts):
            k = z3.FreshConst(INT, "k")
            same = z3.And(qn == n, z3.Implies(z3.And(k >= 0, k < n), z3.substitute(Q, (qi, k)) == mk(k)))
            if self.check(z3.Not(same), ms=self.timeout_ms) == z3.unsat:
                self.assume(c == qc)
                hit = True
                continue
            comp = z3.And(qn == n, z3.Implies(z3.And(k >= 0, k < n), z3.substitute(Q, (qi, k)) != mk(k)))
            if self.check(z3.Not(comp), ms=self.timeout_ms) == z3.unsat:
                self.assume(c + qc == n)
                hit = True
        if known and not hit:
            self.taint("a count of the specification which no counter of the code matches")
        self.count_facts(P, idx, n, c, l)
        return c

    def elem_kind(self, vals):
        ks = {self.kind_of(v) for v in vals}
        if "optstr" in ks and ks <= {"optstr", "str"}:
            return "optstr"
        if len(ks) != 1 or None in ks:
            raise Unsupported("mixed values %r" % (vals[:3],))
        return ks.pop()

    def fold_append(self, o, effs, normal, n, l, idx, at, unit_total):
        per = {id(x): [e for e in effs if e[0] is x] for x in normal}
        if any(len(v) > 1 for v in per.values()) or any(e[4] for e in effs):
            raise Unsupported("several appends per iteration")
        if self.loops and o.birth <= self.loops[-1].mark:
            raise Unsupported("nested append")
        vals = [e[3][0] for e in effs]
        kind = self.elem_kind(vals)
        if o.concrete:
            self.morph_list(o, kind)
        elif o.elem != kind:
            raise Unsupported("append of another kind")
        n0, arr0 = o.n, o.arr
        arr = self.fresh("app", arr0.sort())
        j, p = z3.FreshConst(INT, "j"), z3.FreshConst(INT, "p")
        if all(len(v) == 1 for v in per.values()):
            pass1 = []
            for x, pos, op, args, b in effs:
                pass1.append((x["cond"], self.unwrap_in(args[0], kind)))
            body = z3.And([z3.Implies(at(c, p - n0), z3.Select(arr, p) == at(v, p - n0)) for c, v in pass1]) if len(pass1) > 1 else (
                z3.Select(arr, p) == at(pass1[0][1], p - n0)
            )
            self.assume(z3.ForAll([p], z3.Implies(z3.And(p >= n0, p < n0 + n), body), patterns=[z3.Select(arr, p)]))
            if l is not None and l.arr is not None and z3.is_const(l.arr):
                rev = z3.And([z3.Implies(at(c, j), z3.Select(arr, n0 + j) == at(v, j)) for c, v in pass1]) if len(pass1) > 1 else z3.Select(arr, n0 + j) == at(pass1[0][1], j)
                self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), rev), patterns=[z3.Select(l.arr, j)]))
            self.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < n0), z3.Select(arr, p) == z3.Select(arr0, p)), patterns=[z3.Select(arr, p)]))
            o.n, o.arr = z3.simplify(n0 + n), arr
            o.prov = None
            return
        # a filter: at most one append per iteration
        c = self.fresh("appcnt", INT)
        P = z3.Or([x["cond"] for x in normal if per[id(x)]])
        self.count_facts(P, idx, n, c, l)
        unit_total.append((c, [len(per[id(x)]) for x in normal]))
        self.filter_facts(arr, n0, c, [(e[0]["cond"], self.unwrap_in(e[3][0], kind)) for e in effs], P, n, idx, at, l)
        self.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < n0), z3.Select(arr, p) == z3.Select(arr0, p)), patterns=[z3.Select(arr, p)]))
        o.n, o.arr, o.prov = z3.simplify(n0 + c), arr, None

    def unwrap_in(self, v, kind):
        return self.unwrap(v, kind)

    def filter_facts(self, arr, n0, c, cases, P, n, idx, at, l):
        """arr[n0 .. n0+c) lists, in order, v(j) for the j < n with P(j)"""
        self.nfresh += 1
        pos = self.skolem("pos!%d" % self.nfresh, INT, INT)
        src = self.skolem("src!%d" % self.nfresh, INT, INT)
        j, p, k = z3.FreshConst(INT, "j"), z3.FreshConst(INT, "p"), z3.FreshConst(INT, "k")
        inr = lambda x: z3.And(x >= 0, x < n)
        trig = z3.Select(l.arr, j) if l is not None and l.arr is not None else pos(j)
        self.assume(
            z3.ForAll([j], z3.Implies(z3.And(inr(j), at(P, j)), z3.And(pos(j) >= n0, pos(j) < n0 + c, src(pos(j)) == j, z3.And([z3.Implies(at(cc, j), z3.Select(arr, pos(j)) == at(v, j)) for cc, v in cases]))), patterns=[trig])
        )
        self.assume(
            z3.ForAll([p], z3.Implies(z3.And(p >= n0, p < n0 + c), z3.And(inr(src(p)), at(P, src(p)), pos(src(p)) == p, z3.And([z3.Implies(at(cc, src(p)), z3.Select(arr, p) == at(v, src(p))) for cc, v in cases]))), patterns=[z3.Select(arr, p)])
        )
        self.assume(z3.ForAll([p, k], z3.Implies(z3.And(p >= n0, p < k, k < n0 + c), src(p) < src(k)), patterns=[MP(src(p), src(k))]))

    def fold_remove(self, o, effs, normal, n, l, idx, at, unit_total):
        per = {id(x): [e for e in effs if e[0] is x] for x in normal}
        if l is None or any(len(v) > 1 for v in per.values()) or any(e[4] for e in effs) or o.concrete:
            raise Unsupported("remove in loop")
        if not (o.arr.eq(l.arr) and o.n.eq(l.n) and o is not l):
            raise Unsupported("remove from another list")
        for e in effs:
            if not z3.simplify(self.unwrap(e[3][0], o.elem)).eq(z3.simplify(z3.Select(l.arr, idx))):
                raise Unsupported("remove of another element")
        a, b = z3.FreshConst(INT, "a"), z3.FreshConst(INT, "b")
        dist = z3.Implies(z3.And(0 <= a, a < b, b < l.n), z3.Select(l.arr, a) != z3.Select(l.arr, b))
        if self.check(z3.Not(dist), ms=self.timeout_ms) != z3.unsat:
            raise Unsupported("remove: elements may repeat")
        R = z3.Or([x["cond"] for x in normal if per[id(x)]] or [z3.BoolVal(False)])
        c = self.fresh("rmcnt", INT)
        self.count_facts(R, idx, n, c, l)
        unit_total.append((c, [len(per[id(x)]) for x in normal]))
        total = l.n
        K = z3.Or(z3.Not(R), idx >= n)  # n: number of iterations done
        arr = self.fresh("kept", o.arr.sort())
        self.filter_facts(arr, z3.IntVal(0), total - c, [(z3.BoolVal(True), z3.Select(l.arr, idx))], K, total, idx, at, l)
        o.n, o.arr, o.prov = z3.simplify(total - c), arr, None

    def fold_setidx(self, o, effs, n, l, idx, at):
        if o.concrete or any(e[4] for e in effs):
            raise Unsupported("index store in loop")
        for e in effs:
            it = e[3][0]
            if not (isinstance(it, SInt) and z3.simplify(it.t).eq(idx)):
                raise Unsupported("index store at %r" % (it,))
        arr0 = o.arr
        arr = self.fresh("upd", arr0.sort())
        j = z3.FreshConst(INT, "j")
        facts = []
        W = z3.Or([e[0]["cond"] for e in effs])
        last = {}
        for x, pos, op, args, b in effs:
            last[id(x)] = (x, self.unwrap(args[1], o.elem))
        for x, v in last.values():
            facts.append(z3.Implies(at(x["cond"], j), z3.Select(arr, j) == at(v, j)))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(facts)), patterns=[z3.Select(arr, j)]))
        self.assume(z3.ForAll([j], z3.Implies(z3.Or(j < 0, j >= n, z3.Not(at(W, j))), z3.Select(arr, j) == z3.Select(arr0, j)), patterns=[z3.Select(arr, j)]))
        o.arr = arr

    def fold_map(self, o, effs, n, l, idx, at):
        """dict set/del and set add, keyed by strings; the last operation on a key wins"""
        isset = isinstance(o, VSet)
        if getattr(o, "shared", False) and not o.sums and all(x[2] == "del" for x in effs):
            o.present = self.fresh("some_keys", o.present.sort())
            return
        if isinstance(o, VMap) and (o.elem == "rec" or o.sums):
            raise Unsupported("counted map changed in a symbolic loop")
        E = []  # (bound vars, range, guard, order position, op, key, val)
        kinds = []
        for x, pos, op, args, bound in effs:
            if op == "set":
                kinds.append(args[1])
        kind = self.elem_kind(kinds) if kinds else None
        if isset:
            self.morph_set(o)
        elif isinstance(o, VDict):
            self.morph_map(o, kind or "str")
        elif kind and o.elem != kind:
            raise Unsupported("map value kind")
        for x, pos, op, args, bound in effs:
            key = self.key_term(args[0])
            val = self.unwrap(args[1], o.elem) if op == "set" else None
            guard = x["cond"]
            rng = z3.And(idx >= 0, idx < n)
            E.append(([idx] + [b for b, _ in bound], z3.And([rng] + [g for _, g in bound]), guard, pos, op, key, val))
        if self.is_outer(o):
            # nested loop: hand the operations to the enclosing loop with the index as bound variable
            f = self.loops[-1]
            f.touched[id(o)] = o
            for vs, rng, guard, pos, op, key, val in E:
                nv = [z3.FreshConst(INT, "q") for _ in vs]
                sub = list(zip(vs, nv))
                g2 = z3.substitute(z3.And(rng, guard), *sub)
                k2 = SStr(z3.substitute(key, *sub))
                a2 = (k2,) if val is None else (k2, self.wrap(o.elem, z3.substitute(val, *sub)))
                bound = tuple((b, g2 if i == 0 else z3.BoolVal(True)) for i, b in enumerate(nv))
                f.effects.append((o, op, a2, bound))
            return
        p0 = o.present
        v0 = None if isset else o.val
        p1 = self.fresh("has", p0.sort())
        v1 = None if isset else self.fresh("val", v0.sort())

        def inst(e, tag):
            vs, rng, guard, pos, op, key, val = e
            nv = [z3.FreshConst(INT, tag) for _ in vs]
            sub = list(zip(vs, nv))
            f = lambda t: z3.substitute(t, *sub)
            return nv, f(z3.And(rng, guard)), pos, op, f(key), (f(val) if val is not None else None)

        def later(a, pa, b, pb):
            """(b, pb) comes after (a, pa)"""
            out = b[0] > a[0]
            if len(a) > 1 and len(b) > 1 and pa == pb:
                for u, w in zip(a[1:], b[1:]):
                    out = z3.Or(out, z3.And(b[0] == a[0], w > u))
                return out
            if pb > pa:
                return z3.Or(out, b[0] == a[0])
            return out

        # which operations can be overridden by a later one on the same key, with another effect?
        def overrides(e, e2):
            a, ga, pa, oa, ka, va = inst(e, "a")
            b, gb, pb, ob, kb, vb = inst(e2, "b")
            q = [ga, gb, later(a, pa, b, pb), ka == kb]
            if (oa == "del") == (ob == "del"):
                q.append(va != vb if va is not None and v1 is not None else z3.BoolVal(False))
            return self.check(*q, ms=self.timeout_ms) != z3.unsat

        onlyset = all(e[4] != "del" for e in E)
        for e in E:
            a, ga, pa, op, ka, va = inst(e, "a")
            eff = [z3.Select(p1, ka) == z3.BoolVal(op != "del")]
            if va is not None and v1 is not None:
                eff.append(z3.Select(v1, ka) == va)
            concl = z3.And(eff)
            alts = []
            for e2 in E:
                if overrides(e, e2):
                    b, gb, pb, ob, kb, vb = inst(e2, "b")
                    alts.append(z3.Exists(b, z3.And(gb, later(a, pa, b, pb), kb == ka)))
            if alts:
                concl = z3.Or([concl] + alts)
                if onlyset:
                    concl = z3.And(z3.Select(p1, ka), concl)
            pats = []
            if l is not None and l.arr is not None and len(a) == 1:
                pats = [z3.Select(l.arr, a[0])]
            elif len(a) > 1 and all(mentions(ka, v) for v in a) and not z3.is_const(ka):
                pats = [ka]
            self.assume(z3.ForAll(a, z3.Implies(ga, concl), patterns=pats) if pats else z3.ForAll(a, z3.Implies(ga, concl)))
        # frame: a key nobody touched is as before
        self.nfresh += 1
        k = z3.FreshConst(STR, "k")
        same = [z3.Select(p1, k) == z3.Select(p0, k)]
        if v1 is not None:
            same.append(z3.Select(v1, k) == z3.Select(v0, k))
        alts = [z3.And(same)]
        for m, e in enumerate(E):
            vs, rng, guard, pos, op, key, val = e
            ws = [self.skolem("w!%d_%d_%d" % (self.nfresh, m, q), STR, INT)(k) for q in range(len(vs))]
            sub = list(zip(vs, ws))
            alts.append(z3.substitute(z3.And(rng, guard, key == k), *sub))
        pats = [z3.Select(p1, k)]
        self.assume(z3.ForAll([k], z3.Or(alts), patterns=pats))
        o.present = p1
        if not isset:
            o.val = v1

    # ------------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_List(self, e, fr):
        items = []
        for x in e.elts:
            if isinstance(x, A.Starred):
                l = self.iter_list(self.ev(x.value, fr))
                if not l.concrete:
                    raise Unsupported("starred list")
                items += l.items
            else:
                items.append(self.ev(x, fr))
        return self.new(VList(items))

    def e_Tuple(self, e, fr):
        return VTuple(self.e_List(e, fr).items)

    def e_Set(self, e, fr):
        s = self.new(VSet([]))
        for x in e.elts:
            self.mutate(s, "add", self.ev(x, fr))
        return s

    def e_Dict(self, e, fr):
        d = self.new(VDict())
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr)
                if not isinstance(o, VDict):
                    raise Unsupported("dict unpack")
                for kk, vv in o.d.items():
                    self.perform(d, "set", (kk, vv))
                continue
            self.perform(d, "set", (self.ev(k, fr), self.ev(v, fr)))
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, A.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if v.conversion not in (-1, 115) or v.format_spec is not None:
                    parts.append(self.opaque_str("fmt"))
                else:
                    parts.append(self.to_str(x))
        return self.cat(parts)

    def opaque_str(self, name):
        return SStr(self.fresh(name, STR), prov="opaque")

    def to_str(self, v):
        v = self.resolve(v)
        if isinstance(v, (str, SStr)):
            return v
        if v is None or isinstance(v, (bool, int, float)):
            return str(v)
        if isinstance(v, SInt):
            if z3.is_int_value(z3.simplify(v.t)):
                return str(z3.simplify(v.t).as_long())
            return SStr(z3.If(v.t >= 0, z3.IntToStr(v.t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-v.t))), prov=("int", v))
        return self.opaque_str("str")

    def cat(self, parts):
        out, cur = [], ""
        for p in parts:
            if isinstance(p, str):
                cur += p
            else:
                if cur:
                    out.append(z3.StringVal(cur))
                    cur = ""
                out.append(p.t)
        if cur or not out:
            if not out:
                return cur
            out.append(z3.StringVal(cur))
        flat = []
        for p in parts:
            if isinstance(p, SStr) and isinstance(p.prov, tuple) and p.prov[0] == "cat":
                flat.extend(p.prov[1])
            elif isinstance(p, SStr) or p:
                flat.append(p)
        if len(out) == 1:
            return next(p for p in parts if isinstance(p, SStr)) if len(flat) == 1 else SStr(out[0])
        return SStr(z3.Concat(*out), prov=("cat", flat))

    def e_BoolOp(self, e, fr):
        v = None
        isand = isinstance(e.op, A.And)
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            if not isand and i == len(e.values) - 2:
                # `x or []`, `x or 0`, `x or ""`: the value of x where x is empty
                d = e.values[-1]
                if isinstance(v, VList) and not v.concrete and isinstance(d, A.List) and not d.elts:
                    return v
                if isinstance(d, A.Constant) and (
                    isinstance(v, SInt) and d.value == 0 and type(d.value) is int or isinstance(v, SStr) and d.value == ""
                ):
                    return v
            t = self.truth(v)
            if isand and not t:
                return self.falsy(v)
            if not isand and t:
                return self.resolve(v)
        return v

    def falsy(self, v):
        return self.resolve(v) if not isinstance(v, SBool) else False

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, A.Not):
            if isinstance(v, SBool):
                return SBool(z3.Not(v.t))
            return not self.truth(v)
        v = self.resolve(v)
        if isinstance(e.op, A.USub):
            if isinstance(v, SInt):
                return SInt(-v.t)
            if isinstance(v, (int, float)):
                return -v
        raise Unsupported("unary")

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Havoc) or isinstance(b, Havoc):
            self.taint("arithmetic on unknown")
            return Havoc("binop")
        sc = (bool, int, float)
        if isinstance(op, A.Mod) and isinstance(a, str):
            return self.percent(a, b)
        if isinstance(a, sc) and isinstance(b, sc):
            import operator

            f = {A.Add: operator.add, A.Sub: operator.sub, A.Mult: operator.mul, A.Div: operator.truediv, A.FloorDiv: operator.floordiv, A.Mod: operator.mod, A.Pow: operator.pow}.get(type(op))
            if f is None:
                raise Unsupported("binop")
            try:
                return f(a, b)
            except ZeroDivisionError:
                raise PyRaise("ZeroDivisionError")
        if self.kind_of(a) == "int" and self.kind_of(b) == "int":
            x, y = self.unwrap(a, "int"), self.unwrap(b, "int")
            if isinstance(op, A.Add):
                return self.wrap("int", z3.simplify(x + y))
            if isinstance(op, A.Sub):
                return self.wrap("int", z3.simplify(x - y))
            if isinstance(op, A.Mult):
                return SInt(x * y)
            if isinstance(op, A.Mod) and isinstance(b, int) and b > 0:
                return SInt(x % y)
            if isinstance(op, A.FloorDiv) and isinstance(b, int) and b > 0:
                return SInt(x / y)
            if isinstance(op, A.Div):
                if not self.fork(y != 0):
                    raise PyRaise("ZeroDivisionError")
                return SReal(z3.ToReal(x) / z3.ToReal(y))
            raise Unsupported("int op")
        if isinstance(op, A.Add):
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return self.cat([a, b])
            if isinstance(a, VList) and isinstance(b, VList):
                return self.concat([a, b])
            if isinstance(a, VTuple) and isinstance(b, VTuple):
                return VTuple(a.items + b.items)
            if (a is None) or (b is None) or self.kind_of(a) != self.kind_of(b):
                raise PyRaise("TypeError", ("+",))
        if isinstance(op, A.Mult) and isinstance(a, str) and isinstance(b, int):
            return a * b
        if isinstance(op, A.Mult) and isinstance(a, VList) and a.concrete and isinstance(b, int):
            return self.new(VList(a.items * b))
        raise Unsupported("binop %s on %r, %r" % (type(op).__name__, a, b))

    def percent(self, a, b):
        args = list(b.items) if isinstance(b, VTuple) else [b]
        parts = a.split("%s")
        if "%" in a.replace("%s", "") or len(parts) - 1 != len(args):
            return self.opaque_str("percent")
        out = [parts[0]]
        for x, p in zip(args, parts[1:]):
            out.append(self.to_str(x))
            out.append(p)
        return self.cat(out)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        ts = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            t = self.compare(op, left, right)
            if len(e.ops) == 1:
                return self.mkbool(t)
            if not (t if isinstance(t, bool) else self.fork(t)):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, A.Eq):
            return self.eq(a, b)
        if isinstance(op, A.NotEq):
            t = self.eq(a, b)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(op, A.In):
            return self.contains(b, a)
        if isinstance(op, A.NotIn):
            t = self.contains(b, a)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(op, A.Is):
            return self.is_(a, b)
        if isinstance(op, A.IsNot):
            t = self.is_(a, b)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Havoc) or isinstance(b, Havoc):
            self.taint("comparison of unknown")
            return self.fresh("cmp", BOOL)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, str) and isinstance(b, str):
            return {A.Lt: a < b, A.LtE: a <= b, A.Gt: a > b, A.GtE: a >= b}[type(op)]
        if self.kind_of(a) == "int" and self.kind_of(b) == "int":
            x, y = self.unwrap(a, "int"), self.unwrap(b, "int")
            return {A.Lt: x < y, A.LtE: x <= y, A.Gt: x > y, A.GtE: x >= y}[type(op)]
        raise Unsupported("compare %r %r" % (a, b))

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        fr.env[e.target.id] = v
        return v

    def e_Lambda(self, e, fr):
        return Func(e, fr.module, None, (fr.func.qual if fr.func else "") + ".<lambda>", fr)

    def index(self, s, fr):
        if isinstance(s, A.Slice):
            g = lambda x: self.resolve(self.ev(x, fr)) if x is not None else None
            return ("slice", g(s.lower), g(s.upper), g(s.step))
        return self.ev(s, fr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.index(e.slice, fr))

    def map_val(self, m, k):
        if m.elem == "rec":
            return Rec(m, k)
        if m.wrap:
            return m.wrap(self, k)
        return self.wrap(m.elem, z3.Select(m.val, self.key_term(k)))

    def getitem(self, o, i):
        o = self.resolve(o)
        if isinstance(i, tuple) and i and i[0] == "slice":
            _, lo, hi, st = i
            if isinstance(o, (str, SStr)):
                return self.slice_str(o, lo, hi, st)
            if isinstance(o, VTuple):
                return VTuple(o.items[slice(lo, hi, st)])
            return self.slice_list(o, lo, hi, st)
        if isinstance(o, VList):
            return self.list_get(o, i)
        if isinstance(o, VTuple):
            if isinstance(i, int):
                if -len(o.items) <= i < len(o.items):
                    return o.items[i]
                raise PyRaise("IndexError")
            raise Unsupported("tuple index")
        if isinstance(o, (VDict, VMap)):
            self.note_read(o, self.key_of(o, i) if self.loops else None)
            if self.is_hav(o):
                if isinstance(o, VMap) and o.elem != "rec":
                    self.taint_read()
                    if not self.fork(self.fresh("in", BOOL)):
                        raise PyRaise("KeyError")
                    return self.fresh_val("mv", o.elem)
                self.taint("read of a changing dict")
                return Havoc("dict value")
            if isinstance(o, VDict):
                if isinstance(i, (str, int, type(None))):
                    if i in o.d:
                        return o.d[i]
                    return self.missing(o, i)
                if isinstance(i, SOpt):
                    i = self.resolve(i)
                    return self.getitem(o, i)
                if isinstance(i, VObj):
                    if i in o.d:
                        return o.d[i]
                    return self.missing(o, i)
                for k in o.d:
                    t = self.eq(k, i)
                    if t if isinstance(t, bool) else self.fork(t):
                        return o.d[k]
                return self.missing(o, i)
            t = z3.Select(o.present, self.key_term(i))
            if self.fork(t):
                return self.map_val(o, i)
            return self.missing(o, i)
        if isinstance(o, Rec):
            m = o.m
            self.note_read(m)
            if i not in m.rec:
                raise Unsupported("record field %r" % (i,))
            has, val, kind = m.rec[i]
            kt = self.key_term(o.key)
            if not self.fork(z3.Select(has, kt)):
                raise PyRaise("KeyError", (i,))
            return self.wrap(kind, z3.Select(val, kt))
        if isinstance(o, (str, SStr)):
            if isinstance(o, str) and isinstance(i, int):
                if -len(o) <= i < len(o):
                    return o[i]
                raise PyRaise("IndexError")
            t = self.unwrap(o, "str")
            it = self.unwrap(i, "int")
            if isinstance(i, int) and i < 0:
                it = z3.Length(t) + i
            if not self.fork(z3.And(it >= 0, it < z3.Length(t))):
                raise PyRaise("IndexError")
            return SStr(z3.SubString(t, it, 1))
        if isinstance(o, VObj):
            g = o.fields.get("__getitem__")
            if g:
                return g(self, i)
        if isinstance(o, Havoc):
            self.taint("item of unknown")
            return Havoc("item")
        raise Unsupported("item of %r" % (o,))

    def missing(self, o, k):
        if o.default is None:
            raise PyRaise("KeyError", (str(k),))
        if isinstance(o, VMap) and o.elem == "rec":
            self.mutate(o, "newrec", k)
            return Rec(o, k)
        v = self.default_value(o.default)
        self.mutate(o, "set", k, v)
        return v

    def default_value(self, d):
        if isinstance(d, Ext):
            d = d.name.split(".")[-1]
        if d == "int":
            return 0
        if d == "str":
            return ""
        if d == "list":
            return self.new(VList([]))
        if d == "set":
            return self.new(VSet([]))
        if d == "dict":
            return self.new(VDict())
        if isinstance(d, (Func, Native)):
            return self.call(d, [], {})
        raise Unsupported("default factory %r" % (d,))

    def slice_str(self, o, lo, hi, st):
        if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return o[slice(lo, hi, st)]
        if st not in (None, 1):
            raise Unsupported("string slice step")
        t = self.unwrap(o, "str")
        n = z3.Length(t)

        def norm(x, d):
            if x is None:
                return d
            v = self.unwrap(x, "int")
            if isinstance(x, int):
                v = n + x if x < 0 else v
            else:
                v = z3.If(v < 0, n + v, v)
            return z3.If(v < 0, z3.IntVal(0), z3.If(v > n, n, v))

        a, b = z3.simplify(norm(lo, z3.IntVal(0))), norm(hi, n)
        return SStr(z3.SubString(t, a, z3.If(b > a, b - a, z3.IntVal(0))))

    def setitem(self, o, i, v):
        o = self.resolve(o)
        if isinstance(o, VList):
            if isinstance(i, tuple):
                raise Unsupported("slice store")
            i = self.resolve(i)
            if o.concrete and isinstance(i, int) and not self.is_outer(o):
                if not -len(o.items) <= i < len(o.items):
                    raise PyRaise("IndexError")
            elif not o.concrete and not (o.prov and o.prov[0] == "split"):
                it = self.unwrap(i, "int")
                ok = z3.And(it >= -self.length(o), it < self.length(o))
                if not self.fork(ok):
                    raise PyRaise("IndexError")
            self.mutate(o, "setidx", i, v)
            return
        if isinstance(o, (VDict, VMap)):
            self.mutate(o, "set", i, v)
            return
        if isinstance(o, Rec):
            if self.is_outer(o.m):
                raise Unsupported("record store in loop")
            self.mutate(o.m, "setrec", o.key, i, v)
            return
        if isinstance(o, VObj) and "__setitem__" in o.fields:
            return o.fields["__setitem__"](self, i, v)
        raise Unsupported("item store on %r" % (o,))

    def comp(self, e, fr, kind):
        """Comprehensions become loops."""
        acc = self.new(VList([]) if kind == "list" else VSet([]) if kind == "set" else VDict())
        env = dict(fr.env)
        f2 = Frame(fr.func, {}, fr.self_, fr.cls, fr.module, fr)
        self.nfresh += 1
        nm = "__acc%d" % self.nfresh
        f2.env[nm] = acc
        if kind == "list":
            inner = A.Expr(A.Call(A.Attribute(A.Name(nm, A.Load()), "append", A.Load()), [e.elt], []))
        elif kind == "set":
            inner = A.Expr(A.Call(A.Attribute(A.Name(nm, A.Load()), "add", A.Load()), [e.elt], []))
        else:
            inner = A.Assign([A.Subscript(A.Name(nm, A.Load()), e.key, A.Store())], e.value)
        if kind == "list" and isinstance(e.elt, A.Tuple) and len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.iter_list(self.ev(e.generators[0].iter, fr))
            if not it.concrete:
                return self.new(VObj("rows"))  # a table which is only printed
        st = inner
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                st = A.If(c, [st], [])
            st = A.For(g.target, g.iter, [st], [])
        self.stmt(st, f2)
        return acc

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, "list")

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr, "list")

    def e_SetComp(self, e, fr):
        return self.comp(e, fr, "set")

    def e_DictComp(self, e, fr):
        return self.comp(e, fr, "dict")

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, A.Name) and e.func.id == "super":
            if e.args:
                c = self.ev(e.args[0], fr)
                s = self.ev(e.args[1], fr)
            else:
                c, s = fr.cls, fr.self_ if fr.self_ is not None else fr.env.get("cls")
            return Super(c, s)
        # any()/all() of a generator are short-circuit loops
        if isinstance(e.func, A.Name) and e.func.id in ("any", "all") and len(e.args) == 1 and isinstance(e.args[0], A.GeneratorExp):
            return self.any_all(e, fr)
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, A.Starred):
                l = self.iter_list(self.ev(a.value, fr))
                if not l.concrete:
                    raise Unsupported("starred call argument")
                args += l.items
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.resolve(self.ev(k.value, fr))
                if not isinstance(d, VDict):
                    raise Unsupported("** argument")
                kwargs.update(d.d)
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        line = self.stmt_line
        r = self.call(f, args, kwargs, e)
        self.stmt_line = line
        return r

    def any_all(self, e, fr):
        g = e.args[0]
        isany = e.func.id == "any"
        f2 = Frame(fr.func, {}, fr.self_, fr.cls, fr.module, fr)
        test = g.elt if isany else A.UnaryOp(A.Not(), g.elt)
        st = A.If(test, [A.Return(A.Constant(isany))], [])
        for gg in reversed(g.generators):
            for c in reversed(gg.ifs):
                st = A.If(c, [st], [])
            st = A.For(gg.target, gg.iter, [st], [])
        try:
            self.stmt(st, f2)
        except Ret as r:
            return r.v
        return not isany

    # ------------------------------------------------------------- methods of values
    def call_meth(self, o, name, args, kwargs):
        for cls, tab in METHODS:
            if isinstance(o, cls) and name in tab:
                return tab[name](self, o, *args, **kwargs)
        raise Unsupported("method .%s of %r" % (name, o))


class Lazy:
    def __init__(self, fn):
        self.fn = fn


class Items:
    def __init__(self, m):
        self.m = m


class Zip:
    def __init__(self, its):
        self.its = its


def mk_node(e, kind, args, kwargs):
    import ast

    r = e.alloc(kind)
    fields = list(getattr(ast, kind)._fields)
    vals = dict(zip(fields, args))
    vals.update(kwargs)
    for f, v in vals.items():
        if f in FIELDS and FIELDS[f] != "list":
            try:
                a = e.heap_arr(f, SORTS[FIELDS[f]])
                e.heap[f] = z3.Store(a, r.t, e.unwrap(v, FIELDS[f]))
            except Unsupported:
                pass
        elif f in FIELDS and isinstance(v, VList):
            l = e.field_list(r, f)
            if v.concrete:
                try:
                    e.assume(l.n == len(v.items))
                    for i, x in enumerate(v.items):
                        e.assume(z3.Select(l.arr, i) == e.unwrap(x, "ref"))
                except Unsupported:
                    pass
    r.prov = ("made", kind, vals)
    return r


from .library import BUILTINS, EXTERNS, METHODS, TYPES  # noqa: E402
