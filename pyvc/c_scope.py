"""Contracts of the traversal and of the insertion of extra lines (paconvert/base.py)."""
import ast

import z3

from .c_match import distinct
from .contracts import *
from .engine import *
from .values import *

BT = "paconvert.transformer.basic_transformer.BasicTransformer"
BASE = "paconvert.base.BaseTransformer"
SCOPES = ["FunctionDef", "AsyncFunctionDef", "ClassDef", "While", "If", "Try", "For", "AsyncFor", "With", "AsyncWith", "ExceptHandler", "Module"]
COMPS = ["DictComp", "ListComp", "SetComp", "GeneratorExp", "Lambda"]


def same_list(e, l, n0, arr0):
    i = e.fresh("i", INT)
    if l.concrete:
        raise Unsupported("concrete stack")
    return z3.And(l.n == n0, z3.Implies(z3.And(i >= 0, i < n0), z3.Select(l.arr, i) == z3.Select(arr0, i)))


def snapshot(l):
    return (l.n, l.arr)


def stack_is(e, tr, field, n0, arr0, top):
    """the stack is the one before, with `top` on it"""
    l = tr.fields[field]
    if l.concrete:
        raise Unsupported("concrete stack")
    i = e.fresh("i", INT)
    return z3.And(l.n == n0 + 1, z3.Select(l.arr, n0) == top, z3.Implies(z3.And(i >= 0, i < n0), z3.Select(l.arr, i) == z3.Select(arr0, i)))


@contract(("C13", "C04"), BASE + ".visit", name="visiting a node", setup=[no_logs])
def visit(e):
    stack = e.sym_list("node_stack")
    tr = obj(e, BT, node_stack=stack, logger=Ext("logger"))
    node = e.sym_node("node")
    n0, arr0 = snapshot(stack)
    res = SRef(e.fresh("visited", RefSort))
    calls = []

    def inner(e, a, k):
        calls.append(1)
        e.prove("while a node is visited it is on top of the stack", stack_is(e, tr, "node_stack", n0, arr0, node.t))
        e.prove("the node itself is visited", e.resolve(a[1]).t == node.t)
        return res

    e.externs["ast.NodeTransformer.visit"] = inner
    r = e.resolve(run(e, method(e, BT, "visit"), [node], {}, tr))
    e.prove("the node is visited exactly once", len(calls) == 1)
    e.prove("the result of the visit is passed on", r is res or (isinstance(r, SRef) and r.t == res.t))
    e.prove("the stack is the same as before", same_list(e, tr.fields["node_stack"], n0, arr0))


def scope_visitor(kind):
    def harness(e):
        stack = e.sym_list("scope_stack")
        tr = obj(e, BT, scope_stack=stack, logger=Ext("logger"))
        node = e.sym_node("node", kind)
        n0, arr0 = snapshot(stack)
        calls = []

        def inner(e, a, k):
            calls.append(1)
            e.prove("while the block is visited its statement is the innermost scope", stack_is(e, tr, "scope_stack", n0, arr0, node.t))
            e.prove("the node itself is visited", e.resolve(a[1]).t == node.t)
            return a[1]

        e.externs["ast.NodeTransformer.generic_visit"] = inner
        r = e.resolve(run(e, method(e, BT, "visit_" + kind), [node], {}, tr))
        e.prove("the block is visited exactly once", len(calls) == 1)
        e.prove("the statement is kept", isinstance(r, SRef) and r.t == node.t)
        e.prove("the statement is kept", not any(x[0] == "setfield" for x in e.events))
        e.prove("the stack of scopes is the same as before", same_list(e, tr.fields["scope_stack"], n0, arr0))

    harness.__name__ = "visit_" + kind
    return contract(("C13", "C04"), BASE + ".visit_" + kind, name="scope of " + kind, setup=[no_logs])(harness)


for _k in SCOPES:
    scope_visitor(_k)


# ------------------------------------------------------------------ where imports are inserted
@contract(("C13", "C09"), BASE + ".import_body_index", name="place of inserted imports", setup=[no_logs])
def import_body_index(e):
    root = e.sym_node("root", "Module")
    body = e.field_list(root, "body")
    tr = obj(e, BT, root=root, logger=Ext("logger"))
    r = run(e, method(e, BT, "import_body_index"), [], {}, tr)
    t = e.unwrap(e.resolve(r), "int")
    mod = e.heap_arr("module", STR)
    fut = lambda x: z3.And(kind_f(x) == KNUM["ImportFrom"], z3.Select(mod, x) == z3.StringVal("__future__"))
    j = e.fresh("j", INT)
    e.prove("it is a place in the module", z3.And(t >= 0, t <= body.n))
    e.prove("it is behind every 'from __future__ import'", z3.Implies(z3.And(j >= t, j < body.n), z3.Not(fut(z3.Select(body.arr, j)))))
    e.prove("it is the first such place", z3.Implies(t > 0, fut(z3.Select(body.arr, t - 1))))


# ------------------------------------------------------------------ recording lines
class Cell:
    """scope_insert_lines[scope][body][index] for one scope, body and index"""

    def __init__(self, e, scope, body, index):
        self.e, self.scope, self.body, self.index = e, scope, body, index
        self.has_body, self.has_index = e.fresh("has_body", BOOL), e.fresh("has_index", BOOL)
        e.assume(z3.Implies(self.has_index, self.has_body))
        self.lines = self.old = e.sym_list("recorded")
        self.n0, self.arr0 = snapshot(self.lines)
        self.bodies, self.indices = e.new(VObj("bodies")), e.new(VObj("indices"))
        top = self.top = e.new(VObj("scope_insert_lines"))
        top.fields["__getitem__"] = self.get_scope
        b, i = self.bodies.fields, self.indices.fields
        b["__contains__"] = lambda e, k: self.is_body(k) and self.has_body
        b["__getitem__"] = self.get_body
        b["__setitem__"] = self.set_body
        i["__contains__"] = lambda e, k: self.is_index(k) and self.has_index
        i["__getitem__"] = self.get_index
        i["__setitem__"] = self.set_index
        i["update"] = Native(self.update)

    def same(self, a, b):
        r = self.e.eq(a, b)
        if r is True or (not isinstance(r, bool) and z3.is_true(z3.simplify(r if z3.is_expr(r) else r.t))):
            return True
        raise Unsupported("another place is touched")

    def get_scope(self, e, k):
        self.same(k, self.scope)
        return self.bodies

    def is_body(self, k):
        return self.same(k, self.body)

    def is_index(self, k):
        return self.same(k, self.index)

    def get_body(self, e, k):
        self.is_body(k)
        if not e.fork(self.has_body):
            raise PyRaise("KeyError")
        return self.indices

    def set_body(self, e, k, v):
        self.is_body(k)
        v = e.resolve(v)
        if not isinstance(v, VDict) or len(v.d) != 1:
            raise Unsupported("%r is stored" % (v,))
        e.prove("lines which are recorded are not lost", z3.Not(self.has_index))
        ((i, l),) = v.d.items()
        self.is_index(i)
        self.lines = l
        self.has_body = self.has_index = z3.BoolVal(True)

    def get_index(self, e, k):
        self.is_index(k)
        if not e.fork(self.has_index):
            raise PyRaise("KeyError")
        return self.lines

    def set_index(self, e, k, v):
        self.is_index(k)
        self.lines = e.resolve(v)
        self.has_index = z3.BoolVal(True)

    def update(self, e, a, k):
        d = e.resolve(a[0])
        if not isinstance(d, VDict):
            raise Unsupported("update with %r" % (d,))
        for i, l in d.d.items():
            self.is_index(i)
            self.lines = l
            self.has_index = z3.BoolVal(True)


@contract(("C13",), BASE + ".record_scope", name="recording lines", setup=[no_logs])
def record_scope(e):
    scope = e.sym_node("scope")
    body = ["body", "orelse", "finalbody"][e.choose(3)]
    cell = Cell(e, scope, body, 3)
    tr = obj(e, BT, scope_insert_lines=cell.top, logger=Ext("logger"))
    nodes = e.sym_list("node_list")
    nn, narr = snapshot(nodes)
    e.assume(distinct(narr, nn))  # the lines are different nodes of one freshly parsed text
    had = cell.has_index
    run(e, method(e, BT, "record_scope"), [VTuple((scope, body, 3)), nodes], {}, tr)
    l = e.resolve(cell.lines)
    if not isinstance(l, VList):
        raise Unsupported("recorded %r" % (l,))
    n = e.length(l)
    at = lambda i: e.unwrap(e.elem_at(l, i), "ref")
    old = z3.If(had, cell.n0, 0)
    j, m = e.fresh("j", INT), e.fresh("m", INT)
    e.prove("lines which are recorded stay, in order", z3.And(z3.Implies(cell.n0 > 0, z3.BoolVal(True)), z3.Implies(z3.And(had, j >= 0, j < cell.n0), at(j) == z3.Select(cell.arr0, j))))
    k = z3.FreshConst(INT, "k")
    e.prove("only the given lines are added", z3.Implies(z3.And(z3.Or(had, nn > 0), j >= old, j < n), z3.Exists([k], z3.And(k >= 0, k < nn, at(j) == z3.Select(narr, k)))))
    dup = z3.And(had, z3.Exists([k], z3.And(k >= 0, k < cell.n0, dump_f(z3.Select(cell.arr0, k)) == dump_f(z3.Select(narr, m)))))
    e.prove("every line which is not recorded yet is added", z3.Implies(z3.And(m >= 0, m < nn, z3.Not(dup)), z3.Exists([k], z3.And(k >= old, k < n, at(k) == z3.Select(narr, m)))))


# ------------------------------------------------------------------ inserting lines
def is_any(x, kinds):
    return z3.Or([kind_f(x) == KNUM[k] for k in kinds])


STMTS = sorted(k for k in KINDS if issubclass(getattr(ast, k), ast.stmt))


@contract(("C13",), BASE + ".insert_multi_node", name="inserting lines", setup=[no_logs])
def insert_multi_node(e):
    stack = e.sym_list("node_stack")
    root = e.sym_node("root", "Module")
    tr = obj(e, BT, node_stack=stack, root=root, logger=Ext("logger"))
    e.assume(stack.n >= 2)
    recorded = []
    place = VTuple((SRef(e.fresh("scope", RefSort)), e.fresh_val("field", "str"), SInt(e.fresh("index", INT))))
    iidx = SInt(e.fresh("import_index", INT))
    e.summaries[BASE + ".record_scope"] = lambda e, s, a, k: recorded.append(a)
    e.summaries[BASE + ".scope_body_index"] = lambda e, s, a, k: place
    e.summaries[BASE + ".import_body_index"] = lambda e, s, a, k: iidx
    nodes = e.sym_list("node_list")
    nn, narr = snapshot(nodes)
    r = e.truth(run(e, method(e, BT, "insert_multi_node"), [nodes], {}, tr))
    imports = lambda x: z3.Or(is_any(x, ["Import", "ImportFrom"]), z3.Contains(src_f(x), z3.StringVal("sys.path")))
    n, arr = snapshot(stack)
    a, b, k = z3.FreshConst(INT, "a"), z3.FreshConst(INT, "b"), z3.FreshConst(INT, "k")
    # the innermost statement around the node, and a comprehension or lambda between the two
    s0 = e.fresh("innermost", INT)
    e.assume(z3.And(s0 >= -1, s0 <= n - 2, z3.Implies(s0 >= 0, is_any(z3.Select(arr, s0), STMTS))))
    e.assume(z3.ForAll([b], z3.Implies(z3.And(b > s0, b <= n - 2), z3.Not(is_any(z3.Select(arr, b), STMTS))), patterns=[z3.Select(arr, b)]))
    inside = lambda a: z3.And(a > s0, a <= n - 2, is_any(z3.Select(arr, a), COMPS))
    other = lambda k: z3.And(k >= 0, k < nn, z3.Not(imports(z3.Select(narr, k))))
    if r:
        a1, k1 = e.fresh("a", INT), e.fresh("k", INT)
        e.prove("a line never leaves a comprehension or lambda", z3.Not(z3.And(inside(a1), other(k1))))
    else:
        e.prove("refused only inside a comprehension or lambda", z3.Exists([a], inside(a), patterns=[z3.Select(arr, a)]))
        e.prove("refused only if there is a line to insert", z3.Exists([k], other(k), patterns=[z3.Select(narr, k)]))
    m = e.fresh("m", INT)
    here, there = [], []
    for x in recorded:
        pl, l = x[0], e.resolve(x[1])
        if pl is place:
            here.append(l)
        elif isinstance(pl, VTuple) and len(pl.items) == 3 and pl.items[2] is iidx and pl.items[1] == "body" and pl.items[0] is root:
            there.append(l)
        else:
            e.prove("lines go in front of the statement, imports to the top", False)
    e.prove("lines go in front of the statement, imports to the top", len(here) <= 1 and len(there) <= 1)
    for what, ls, p in (("every line is inserted once, in order", here, lambda x: z3.Not(imports(x))), ("every import is inserted once, in order", there, imports)):
        if not ls:
            cond = z3.Implies(z3.And(m >= 0, m < nn), z3.Not(p(z3.Select(narr, m))))
            e.prove(what, cond if r or ls is there else z3.BoolVal(True))
            continue
        l = ls[0]
        at = lambda i: e.unwrap(e.elem_at(l, i), "ref")
        i, j = e.fresh("i", INT), e.fresh("j", INT)
        ln = e.length(l)
        q, q2 = z3.FreshConst(INT, "q"), z3.FreshConst(INT, "q2")
        e.prove(what, z3.Implies(z3.And(m >= 0, m < nn, p(z3.Select(narr, m))), z3.Exists([q], z3.And(q >= 0, q < ln, at(q) == z3.Select(narr, m)))))
        e.prove(what, z3.Implies(z3.And(i >= 0, i < ln), z3.Exists([q], z3.And(q >= 0, q < nn, at(i) == z3.Select(narr, q), p(z3.Select(narr, q))))))
        e.prove(what, z3.Implies(z3.And(i >= 0, i < j, j < ln), z3.Exists([q, q2], z3.And(q >= 0, q < q2, q2 < nn, at(i) == z3.Select(narr, q), at(j) == z3.Select(narr, q2)))))


@contract(("C13",), BASE + ".scope_body_index", name="place of a statement", setup=[no_logs])
def scope_body_index(e):
    """the place is a block of a statement around the node, at the child the traversal is in"""
    stack, scopes = e.sym_list("node_stack"), e.sym_list("scope_stack")
    tr = obj(e, BT, node_stack=stack, scope_stack=scopes, logger=Ext("logger"))
    e.assume(stack.n >= 1)
    n, arr = snapshot(stack)

    def place(s, b, i):
        a = z3.FreshConst(INT, "a")
        els = {f: z3.Select(e.heap_arr(f + ".el", z3.ArraySort(INT, RefSort)), s) for f in ("body", "orelse", "decorator_list", "finalbody")}
        ns = {f: z3.Select(e.heap_arr(f + ".n", INT), s) for f in els}
        el = lambda: z3.Or([z3.And(b == z3.StringVal(f), i >= 0, i < ns[f], z3.Or(z3.And(a + 1 < n, z3.Select(els[f], i) == z3.Select(arr, a + 1)), z3.Select(els[f], i) == z3.Select(arr, 0))) for f in els])
        return z3.Exists([a], z3.And(a >= 0, a < n, z3.Select(arr, a) == s, el()))

    def rec(e, s, a, k):
        t = VTuple((SRef(e.fresh("scope", RefSort)), e.fresh_val("field", "str"), SInt(e.fresh("index", INT))))
        e.assume(place(t.items[0].t, t.items[1].t, t.items[2].t))
        return t

    e.summaries[BASE + ".scope_body_index"] = rec
    # the loops change nothing: an arbitrary iteration may return
    e.loop_spec = LoopSpec(lambda e: [], lambda e: None, lambda e: set())
    level = SInt(e.fresh("level", INT))
    e.assume(z3.And(level.t < 0, -level.t <= scopes.n))
    try:
        r = run(e, method(e, BT, "scope_body_index"), [level], {}, tr)
    except PyRaise:
        return
    if not isinstance(r, VTuple):
        raise Unsupported("result %r" % (r,))
    s, b, i = [e.resolve(x) for x in r.items]
    e.prove("the place is a block around the node, at the statement the traversal is in", place(s.t, e.unwrap(b, "str"), e.unwrap(i, "int")))
