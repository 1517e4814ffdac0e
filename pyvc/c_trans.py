"""Contracts of the transformers (paconvert/transformer, paconvert/base.py)."""
import ast

import z3

from .c_match import all_in, distinct, some
from .contracts import *
from .engine import *
from .values import *

BT = "paconvert.transformer.basic_transformer.BasicTransformer"
BASE = "paconvert.base.BaseTransformer"
CT = "paconvert.transformer.custom_op_transformer."

# ------------------------------------------------------------------ the statistics (C01, C02)


class Stats:
    """The ghost view of the counters: T, S, sum U, and A as a function from names to counts."""

    def __init__(self, tr):
        f = tr.fields
        self.T = term(f["torch_api_count"])
        self.S = term(f["success_api_count"])
        u, a = f["unsupport_api_map"], f["all_api_map"]
        self.U = u.sums[None]
        self.A = a.sums["count"]
        self.apres = a.present
        self.ahas, self.aval, _ = a.rec["count"]
        self.phas = a.rec["paddle_api"][0]

    def cnt(self, k):
        return z3.If(z3.And(z3.Select(self.apres, k), z3.Select(self.ahas, k)), z3.Select(self.aval, k), z3.IntVal(0))

    def wf(self, k):
        """a listed API has both fields and a positive count"""
        return z3.Implies(z3.Select(self.apres, k), z3.And(z3.Select(self.ahas, k), z3.Select(self.aval, k) >= 1, z3.Select(self.phas, k)))


def term(v):
    return z3.IntVal(v) if isinstance(v, int) else v.t


def fresh_stats(e, tr):
    """(re)initialise the counters of tr with arbitrary values satisfying the invariant"""
    f = tr.fields
    f["torch_api_count"] = SInt(e.fresh("T", INT))
    f["success_api_count"] = SInt(e.fresh("S", INT))
    u, a = f["unsupport_api_map"], f["all_api_map"]
    u.present, u.val = e.fresh("u_has", z3.ArraySort(STR, BOOL)), e.fresh("u_val", z3.ArraySort(STR, INT))
    u.sums = {None: e.fresh("sumU", INT)}
    a.present = e.fresh("a_has", z3.ArraySort(STR, BOOL))
    a.rec = {
        "count": [e.fresh("a_hascount", z3.ArraySort(STR, BOOL)), e.fresh("a_count", z3.ArraySort(STR, INT)), "int"],
        "paddle_api": [e.fresh("a_hasapi", z3.ArraySort(STR, BOOL)), e.fresh("a_api", z3.ArraySort(STR, STR)), "str"],
    }
    a.sums = {"count": e.fresh("sumA", INT)}
    s = Stats(tr)
    k = z3.FreshConst(STR, "k")
    e.assume(z3.ForAll([k], s.wf(k), patterns=[z3.Select(a.present, k)]))
    return s


def step_facts(s0, s1):
    """what every visit guarantees about the statistics (name, formula over a key k)"""
    return [
        ("the total grows by what is converted plus what is not supported", lambda k: s1.T - s0.T == (s1.S - s0.S) + (s1.U - s0.U)),
        ("converted and not-supported counts never shrink", lambda k: z3.And(s1.S >= s0.S, s1.U >= s0.U)),
        ("the usage list grows by the total", lambda k: s1.A - s0.A == s1.T - s0.T),
        ("every listed count is at least one", lambda k: s1.wf(k)),
        ("uses which are recorded stay recorded", lambda k: s1.cnt(k) >= s0.cnt(k)),
    ]


FACT_PROPS = {0: "C01", 1: "C01", 2: "C02", 3: "C02", 4: "C02"}


def havoc_heap(e):
    for f in list(e.heap):
        e.heap[f] = e.fresh("heap_" + f, e.heap[f].sort())
    e._lists = {}


def visit_hypothesis(e, args, kw):
    """generic_visit visits the children with visit_* methods: induction hypothesis on the tree"""
    tr = args[0]
    s0 = Stats(tr)
    s1 = fresh_stats(e, tr)
    k = z3.FreshConst(STR, "k")
    for name, f in step_facts(s0, s1):
        t = f(k)
        if mentions(t, k):
            if "recorded" in name:
                e.assume(z3.ForAll([k], t, patterns=[z3.Select(s1.apres, k)]))
        else:
            e.assume(t)
    havoc_heap(e)
    return args[1]


def some_nodes(e, *a):
    c = e.choose(5)
    if c < 4:
        return [None, "delete", "misidentify", "unchange"][c]
    return e.sym_list("node_list")


def some_text(e, *a):
    if e.choose(2):
        return None
    return e.fresh_val("paddle_api", "str")


def any_matcher(e, *a):
    if e.choose(2):
        return None
    m = e.new(VObj("matcher"))
    m.fields["__isinstance__"] = lambda e, t: e.fresh("isinst", BOOL)
    memo = {}

    def api(e, a, k):
        if "api" not in memo:
            memo["api"] = some_text(e)
        return memo["api"]

    for n in ("get_paddle_api",):
        m.fields[n] = Native(api)
    for n in ("get_paddle_nodes", "get_paddle_class_nodes", "get_paddle_class_attribute_nodes"):
        m.fields[n] = Native(lambda e, a, k: some_nodes(e))
    m.fields["torch_api"] = e.fresh_val("torch_api", "str")
    return m


def any_bool(e, *a):
    return SBool(e.fresh("b", BOOL))


def any_str(e, *a):
    return e.fresh_val("s", "str")


def stats_env(e):
    e.externs["ast.NodeTransformer.generic_visit"] = visit_hypothesis
    S = e.summaries
    S[BASE + ".get_full_attr_strict"] = any_str
    S[BASE + ".get_full_attr"] = any_str
    S[BASE + ".replace_torch_module"] = lambda e, s, a, k: VTuple((any_str(e), any_str(e)))
    S[BT + ".start_with_torch"] = any_bool
    S[BT + ".in_api_mapping"] = any_bool
    S[BT + ".in_attribute_mapping"] = any_bool
    S[BT + ".is_unbound_method"] = any_bool
    S[BT + ".get_api_matcher"] = any_matcher
    S[BT + ".get_attribute_matcher"] = any_matcher
    S[BASE + ".insert_multi_node"] = any_bool
    S[BASE + ".record_scope"] = lambda e, s, a, k: None
    S[BASE + ".scope_body_index"] = lambda e, s, a, k: VTuple((SRef(e.fresh("scope", RefSort)), any_str(e), SInt(e.fresh("idx", INT))))


def transformer(e, cls=BT):
    u = e.sym_map("unsupport_api_map", "int", default="int")
    a = e.sym_map("all_api_map", "rec", default="dict")
    stack = e.sym_list("node_stack")
    e.assume(stack.n >= 2)
    tr = obj(
        e,
        cls,
        unsupport_api_map=u,
        all_api_map=a,
        node_stack=stack,
        logger=Ext("logger"),
        file_name=e.fresh_val("file_name", "str"),
        file=e.fresh_val("file", "str"),
        mode=e.fresh_val("mode", "str"),
    )
    return tr, fresh_stats(e, tr)


HELPERS = ("trans_class_method", "trans_class_attribute")


def helper_facts(s0, s1, api):
    """the helpers are called when the use of `api` is already counted in T and A"""
    one = lambda k: z3.If(k == api, z3.IntVal(1), z3.IntVal(0))
    return [
        ("the counted use is converted, not supported or taken back", lambda k: s1.T - s0.T == (s1.S - s0.S) + (s1.U - s0.U) - 1),
        ("converted and not-supported counts never shrink", lambda k: z3.And(s1.S >= s0.S, s1.U >= s0.U)),
        ("the usage list changes with the total", lambda k: s1.A - s0.A == s1.T - s0.T),
        ("every listed count is at least one", lambda k: s1.wf(k)),
        ("other uses which are recorded stay recorded", lambda k: s1.cnt(k) >= s0.cnt(k) - one(k)),
    ]


def helper_summary(e, tr, args, kw):
    api = e.unwrap(e.resolve(args[1]), "str")
    s0 = Stats(tr)
    e.prove("precondition: the use is counted before it is converted", s0.cnt(api) >= 1)
    s1 = fresh_stats(e, tr)
    k = z3.FreshConst(STR, "k")
    for name, f in helper_facts(s0, s1, api):
        t = f(k)
        if not mentions(t, k):
            e.assume(t)
        elif "recorded" in name:
            e.assume(z3.ForAll([k], t, patterns=[z3.Select(s1.apres, k)]))
    return SRef(e.fresh("converted", RefSort))


def modular(e):
    for h in HELPERS:
        e.summaries[BT + "." + h] = helper_summary


def stats_contract(pid, fname, kind, inline):
    helper = fname in HELPERS

    def harness(e):
        tr, s0 = transformer(e)
        node = e.sym_node("node", kind)
        args = [node]
        if helper:
            api = e.fresh_val("torch_api", "str")
            e.assume(s0.cnt(api.t) >= 1)
            args += [api, e.fresh_val("origin_attr", "str")]
        try:
            run(e, method(e, BT, fname), args, {}, tr)
        except PyRaise:
            return  # the conversion is aborted: nothing is reported
        s1 = Stats(tr)
        k = e.fresh("api", STR)
        for i, (name, f) in enumerate(helper_facts(s0, s1, api.t) if helper else step_facts(s0, s1)):
            if FACT_PROPS[i] == pid:
                e.prove(name, f(k))

    harness.__name__ = fname
    setup = [no_logs, stats_env] + ([] if inline else [modular])
    return contract((pid,), BT + "." + fname, name="statistics of " + fname, setup=setup, budget=120, group="stats", inline=inline)(harness)


for _pid in ("C01", "C02"):
    for _inline in (False, True):
        stats_contract(_pid, "visit_Call", "Call", _inline)
        stats_contract(_pid, "visit_Attribute", "Attribute", _inline)
    stats_contract(_pid, "trans_class_method", "Call", False)
    stats_contract(_pid, "trans_class_attribute", "Attribute", False)


# ------------------------------------------------------------------ C++ custom operators (C01)
def node_pairs(e, name):
    """the (class node, extension name) pairs of AUTOGRAD_FUNC_NODES"""
    l = e.sym_list(name)
    val = z3.Function(name + "_value", RefSort, STR)
    l.elem = lambda e, t: VTuple((SRef(t), SStr(val(t))))
    return l


def custom_env(e):
    e.externs["ast.NodeTransformer.generic_visit"] = visit_hypothesis
    e.summaries[BASE + ".get_full_attr"] = any_str
    e.summaries[BASE + ".record_scope"] = lambda e, s, a, k: None
    e.summaries[BASE + ".scope_body_index"] = lambda e, s, a, k: VTuple((SRef(e.fresh("scope", RefSort)), any_str(e), SInt(e.fresh("idx", INT))))

    def nodes(e):
        o = e.new(VObj("AUTOGRAD_FUNC_NODES"))
        o.fields["items"] = Native(lambda e, a, k: node_pairs(e, "autograd"))
        o.fields["__setitem__"] = lambda e, i, v: None
        return o

    e.class_attrs[("paconvert.transformer.custom_op_transformer", "AUTOGRAD_FUNC_NODES")] = nodes


def custom_contract(cls, fname, kind):
    def harness(e):
        tr, s0 = transformer(e, CT + cls)
        tr.fields["cpp_ext_import_names"] = e.sym_map("cpp_ext_import_names", "str")
        tr.fields["cpp_ext_load_names"] = e.sym_list("cpp_ext_load_names", "str")
        tr.fields["autograd_func_import_names"] = e.sym_map("autograd_func_import_names", "str")
        node = e.sym_node("node", kind)
        facts = lambda: [(n, f) for n, f in step_facts(s0, Stats(tr))[:2]]
        e.loop_spec = LoopSpec(
            lambda e: [(n, f(None)) for n, f in facts()],
            lambda e: fresh_stats(e, tr),
            lambda e: {(id(tr), "torch_api_count"), (id(tr), "success_api_count"), id(tr.fields["unsupport_api_map"])},
        )
        try:
            run(e, method(e, CT + cls, fname), [node], {}, tr)
        except PyRaise:
            return
        for n, f in facts():
            e.prove(n, f(None))

    return contract(("C01",), CT + cls + "." + fname, name="statistics of %s.%s" % (cls, fname), setup=[no_logs, custom_env], budget=60)(harness)


custom_contract("PreCustomOpTransformer", "visit_Attribute", "Attribute")
custom_contract("CustomOpTransformer", "visit_Attribute", "Attribute")


def custom_idle(cls):
    """without C++ custom operators nothing is counted (C02)"""

    def harness(e):
        tr, s0 = transformer(e, CT + cls)
        tr.fields["cpp_ext_import_names"] = e.new(VDict({}))
        tr.fields["cpp_ext_load_names"] = e.new(VList([]))
        tr.fields["autograd_func_import_names"] = e.new(VDict({}))
        try:
            run(e, method(e, CT + cls, "visit_Attribute"), [e.sym_node("node", "Attribute")], {}, tr)
        except PyRaise:
            return
        s1 = Stats(tr)
        k = e.fresh("api", STR)
        e.prove("nothing is counted without custom operators", z3.And(s1.T == s0.T, s1.A == s0.A, s1.cnt(k) == s0.cnt(k)))

    return contract(("C02",), CT + cls + ".visit_Attribute", name="no custom operators: %s" % cls, setup=[no_logs, custom_env])(harness)


custom_idle("PreCustomOpTransformer")
custom_idle("CustomOpTransformer")
