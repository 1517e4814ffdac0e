"""Contracts of min mode (C15) in paconvert/transformer/basic_transformer.py.

The text of an attribute or of the function of a call, as the import pass left it, is A.  The
contract of the rule of a prefix-only API in min mode (proved for each API of the tables by
rulevc, C15.rule) is: get_paddle_api() is the name the rule was made for, get_paddle_nodes()
gives the call of that name, get_paddle_class_nodes() the call of the function it is given,
get_paddle_class_attribute_nodes() is "unchange".  Hence it has to be shown that the rule is
made for A, gets the arguments of the call, and that its result takes the place of the use,
which is counted as converted."""
import ast
import os

import z3

from vlib import common

from .c_trans import Stats, any_bool, any_str, fresh_stats, stats_env, step_facts, transformer, visit_hypothesis
from .contracts import *
from .engine import *
from .values import *

BT = "paconvert.transformer.basic_transformer.BasicTransformer"
BASE = "paconvert.base.BaseTransformer"
CPM = "paconvert.api_matcher.ChangePrefixMatcher"
EXPR = ("Call", "Name", "Attribute")


def text_of(t):
    return z3.Function("text_of", RefSort, STR)(t)


class Use:
    """one use of a prefix-only API"""

    def __init__(self, e, tr, node):
        self.e, self.tr, self.node = e, tr, node
        self.A = e.fresh_val("written", "str")
        self.F = e.fresh_val("full_name", "str")
        self.base = Stats(tr)
        self.made = []
        self.result = None
        self.calls = []
        S = e.summaries

        def visit(e, args, kw):
            visit_hypothesis(e, args, kw)
            self.base = Stats(args[0])
            return args[1]

        e.externs["ast.NodeTransformer.generic_visit"] = visit
        S[BASE + ".get_full_attr_strict"] = self.text
        S[BASE + ".replace_torch_module"] = self.resolve
        S[BASE + ".insert_multi_node"] = self.insert
        S.pop(BT + ".is_unbound_method", None)

    def named(self, node):
        """the node whose text is A"""
        return self.node.t

    def text(self, e, s, a, k):
        n = e.resolve(a[0])
        if isinstance(n, SRef) and n.t.eq(self.named(n)):
            return self.A
        return any_str(e)

    def resolve(self, e, s, a, k):
        t = e.unwrap(e.resolve(a[0]), "str")
        e.prove("the name of the use is resolved", t == self.A.t)
        return VTuple((self.F, self.A))

    def insert(self, e, s, a, k):
        # contract of insert_multi_node (C13): refused only if there is a line to insert
        n = e.length(e.resolve(a[0]))
        n = n if isinstance(n, int) else n.t if hasattr(n, "t") else n
        if isinstance(n, int) and n == 0:
            return True
        b = e.fresh("inserted", BOOL)
        e.assume(z3.Implies(n == 0, b))
        return SBool(b)

    def matcher(self, e, s, a, k):
        """the table entry of the use is a prefix-only rule"""
        api = e.unwrap(e.resolve(a[0]), "str")
        org = e.resolve(a[1] if len(a) > 1 else k.get("origin_attr"))
        e.prove("the rule is looked up for the API", api == self.F.t)
        e.prove("the rule is made for the name as written", org is not None and e.unwrap(org, "str") == self.A.t)
        m = e.new(VObj("matcher"))
        m.fields["__isinstance__"] = isinstance_of_prefix
        m.fields["torch_api"] = e.fresh_val("torch_api", "str")
        m.fields["get_paddle_api"] = Native(lambda e, a, k: org)
        m.fields["get_paddle_nodes"] = Native(lambda e, a, k: self.nodes(e, a, org))
        m.fields["get_paddle_class_nodes"] = Native(lambda e, a, k: self.class_nodes(e, a))
        m.fields["get_paddle_class_attribute_nodes"] = Native(lambda e, a, k: "unchange")
        self.made.append(m)
        return m

    def call_of(self, e):
        st, call = e.alloc("Expr"), e.alloc("Call")
        e.heap["value"] = z3.Store(e.heap_arr("value", RefSort), st.t, call.t)
        self.calls.append(call)
        return e.new(VList([st]))

    def same_list(self, what, l, field):
        e = self.e
        l = e.resolve(l)
        own = e.getattr(self.node, field)
        if l is own:
            e.prove(what, True)
            return
        n, arr = snap(e, l)
        n2, arr2 = snap(e, own)
        j = e.fresh("j", INT)
        e.prove(what, z3.And(n == n2, z3.Implies(z3.And(j >= 0, j < n), z3.Select(arr, j) == z3.Select(arr2, j))))

    def nodes(self, e, a, org):
        self.same_list("the rule gets the arguments as they are", a[0], "args")
        self.same_list("the rule gets the keywords as they are", a[1], "keywords")
        return self.call_of(e)

    def class_nodes(self, e, a):
        f = e.resolve(a[0])
        e.prove("the rule gets the function as it is", f.t == e.getattr(self.node, "func").t)
        self.same_list("the rule gets the arguments as they are", a[1], "args")
        self.same_list("the rule gets the keywords as they are", a[2], "keywords")
        return self.call_of(e)

    def counted(self):
        e, s1 = self.e, Stats(self.tr)
        e.prove("the use is counted as converted", z3.And(s1.S == self.base.S + 1, s1.T == self.base.T + 1))
        e.prove("the use is not counted as not supported", s1.U == self.base.U)


def snap(e, l):
    if l.items is not None:
        arr = e.fresh("items", z3.ArraySort(INT, RefSort))
        for i, x in enumerate(l.items):
            e.assume(z3.Select(arr, i) == e.unwrap(e.resolve(x), "ref"))
        return z3.IntVal(len(l.items)), arr
    return l.n if not isinstance(l.n, int) else z3.IntVal(l.n), l.arr


def isinstance_of_prefix(e, t):
    out = []
    for x in t.items if isinstance(t, VTuple) else [t]:
        q = getattr(x, "qual", None)
        out.append(q in (CPM, "paconvert.base.BaseMatcher"))
    return z3.BoolVal(any(out))


def no_rule(e, s, a, k):
    return None


@contract(("C15",), BT + ".visit_Attribute", name="prefix-only name in min mode", setup=[no_logs, stats_env], budget=90, parts=2)
def attribute(e):
    tr, _ = transformer(e)
    node = e.sym_node("node", "Attribute")
    u = Use(e, tr, node)
    # a dotted name (it is the one of an attribute) is none of the words without a dot
    for w in ("", "delete", "misidentify", "unchange"):
        e.assume_lit(u.A.t == z3.StringVal(w), False)
    which = e.choose(2)
    e.summaries[BT + ".start_with_torch"] = lambda e, s, a, k: (e.prove("the recognised package is looked for in the full name", e.unwrap(e.resolve(a[0]), "str") == u.F.t), True)[1]
    e.summaries[BT + ".get_api_matcher"] = u.matcher if which else no_rule
    e.summaries[BT + ".get_attribute_matcher"] = no_rule if which else u.matcher
    r = e.resolve(run(e, method(e, BT, "visit_Attribute"), [node], {}, tr))
    if not isinstance(r, SRef):
        e.prove("the name is never removed", False)
        return
    if not u.made:
        e.prove("it is left to the call it is the function of", r.t == node.t)
        return
    e.prove("it becomes the name as written", z3.Or(r.t == node.t, text_of(r.t) == u.A.t))
    u.counted()


@contract(("C15",), BT + ".visit_Call", name="call of a prefix-only API in min mode", setup=[no_logs, stats_env], budget=90)
def call(e):
    tr, _ = transformer(e)
    node = e.sym_node("node", "Call")
    u = Use(e, tr, node)
    u.named = lambda n: e.unwrap(e.getattr(node, "func"), "ref")
    e.summaries[BT + ".start_with_torch"] = lambda e, s, a, k: SBool(z3.Function("starts_with_torch", STR, BOOL)(e.unwrap(e.resolve(a[0]), "str")))
    e.summaries[BT + ".in_api_mapping"] = lambda e, s, a, k: SBool(z3.Function("mapped", STR, BOOL)(e.unwrap(e.resolve(a[0]), "str")))
    e.summaries[BT + ".get_api_matcher"] = u.matcher
    # it is mapped
    e.assume(z3.Function("mapped", STR, BOOL)(u.F.t))
    r = e.resolve(run(e, method(e, BT, "visit_Call"), [node], {}, tr))
    if not isinstance(r, SRef):
        e.prove("the call is never removed", False)
        return
    e.prove("the call the rule gives takes the place of the call", r.t == u.calls[-1].t if u.calls else False)
    u.counted()


@contract(("C15",), BT + ".trans_class_method", name="method of a prefix-only rule in min mode", setup=[no_logs, stats_env], budget=60)
def method_(e):
    tr, s0 = transformer(e)
    node = e.sym_node("node", "Call")
    u = Use(e, tr, node)
    u.base = s0
    e.summaries[BT + ".get_api_matcher"] = u.matcher
    # x.f(self): a contract of its own
    l = e.getattr(node, "args")
    n, arr = snap(e, l)
    a0 = z3.Select(arr, 0)
    e.assume(z3.Implies(n >= 1, z3.Not(z3.And(kind_f(a0) == KNUM["Name"], z3.Select(e.heap_arr("id", STR), a0) == z3.StringVal("self")))))
    r = e.resolve(run(e, method(e, BT, "trans_class_method"), [node, u.F, u.A], {}, tr))
    if not isinstance(r, SRef):
        e.prove("the call is never removed", False)
        return
    e.prove("the call the rule gives takes the place of the call", r.t == u.calls[-1].t if u.calls else False)
    s1 = Stats(tr)
    e.prove("the use is counted as converted", z3.And(s1.S == s0.S + 1, s1.T == s0.T, s1.U == s0.U))


@contract(("C15",), BT + ".trans_class_method", name="method called with self", setup=[no_logs, stats_env], budget=60)
def method_self(e):
    """x.f(self, ...): the rule gets the other arguments, and self goes in front of the ones it gives"""
    tr, s0 = transformer(e)
    node = e.sym_node("node", "Call")
    u = Use(e, tr, node)
    e.summaries[BT + ".get_api_matcher"] = u.matcher
    l = e.getattr(node, "args")
    n, arr = snap(e, l)
    a0 = z3.Select(arr, 0)
    e.assume(z3.And(n >= 1, kind_f(a0) == KNUM["Name"], z3.Select(e.heap_arr("id", STR), a0) == z3.StringVal("self")))
    given = []

    def rule(e, a):
        m, arr2 = snap(e, e.resolve(a[1]))
        j = e.fresh("j", INT)
        e.prove("the rule gets the other arguments as they are", z3.And(m == n - 1, z3.Implies(z3.And(j >= 0, j < m), z3.Select(arr2, j) == z3.Select(arr, j + 1))))
        u.same_list("the rule gets the keywords as they are", a[2], "keywords")
        r = u.call_of(e)
        given.append(snap(e, e.getattr(u.calls[-1], "args")))
        return r

    u.class_nodes = rule
    r = e.resolve(run(e, method(e, BT, "trans_class_method"), [node, u.F, u.A], {}, tr))
    if not isinstance(r, SRef):
        e.prove("the call is never removed", False)
        return
    e.prove("the call the rule gives takes the place of the call", r.t == u.calls[-1].t if u.calls else False)
    if not given:
        return
    n0, arr0 = given[-1]
    n1, arr1 = snap(e, e.getattr(u.calls[-1], "args"))
    j = e.fresh("j", INT)
    e.prove("self goes in front of the arguments", z3.And(n1 == n0 + 1, kind_f(z3.Select(arr1, 0)) == KNUM["Name"], z3.Select(e.heap_arr("id", STR), z3.Select(arr1, 0)) == z3.StringVal("self")))
    e.prove("the arguments of the rule stay behind it", z3.Implies(z3.And(j >= 0, j < n0), z3.Select(arr1, j + 1) == z3.Select(arr0, j)))


@contract(("C15",), BT + ".trans_class_attribute", name="attribute of a prefix-only rule in min mode", setup=[no_logs, stats_env], budget=60)
def attribute_(e):
    tr, s0 = transformer(e)
    node = e.sym_node("node", "Attribute")
    u = Use(e, tr, node)
    e.summaries[BT + ".get_attribute_matcher"] = u.matcher
    r = e.resolve(run(e, method(e, BT, "trans_class_attribute"), [node, u.F, u.A], {}, tr))
    e.prove("the attribute stays", isinstance(r, SRef) and r.t == node.t)
    s1 = Stats(tr)
    e.prove("the use is counted as converted", z3.And(s1.S == s0.S + 1, s1.T == s0.T, s1.U == s0.U))


def class_use(fname, kind, helper):
    def harness(e):
        tr, _ = transformer(e)
        node = e.sym_node("node", kind)
        u = Use(e, tr, node)
        if kind == "Call":
            u.named = lambda n: e.unwrap(e.getattr(node, "func"), "ref")
        e.summaries[BT + ".start_with_torch"] = lambda e, s, a, k: False
        mapped = z3.Function("mapped", STR, BOOL)
        e.assume_lit(mapped(u.F.t), False)
        look = lambda e, s, a, k: SBool(mapped(e.unwrap(e.resolve(a[0]), "str")))
        e.summaries[BT + ".in_api_mapping"] = e.summaries[BT + ".in_attribute_mapping"] = look
        out = []

        def convert(e, s, a, k):
            n, api, org = [e.resolve(x) for x in a]
            e.prove("the use itself is converted", n.t == node.t)
            e.prove("as a mapped method or attribute", mapped(e.unwrap(api, "str")))
            out.append(SRef(e.fresh("converted", RefSort)))
            return out[-1]

        e.summaries[BT + "." + helper] = convert
        r = e.resolve(run(e, method(e, BT, fname), [node], {}, tr))
        if not isinstance(r, SRef):
            e.prove("the use is never removed", False)
            return
        e.prove("it is converted once, and the result takes its place; other uses stay", r.t == out[0].t if len(out) == 1 else r.t == node.t if not out else False)

    return contract(("C15",), BT + "." + fname, name="methods and attributes of classes: " + fname, setup=[no_logs, stats_env], budget=90)(harness)


class_use("visit_Call", "Call", "trans_class_method")
class_use("visit_Attribute", "Attribute", "trans_class_attribute")


# ------------------------------------------------------------------ who knows the mode
KNOW = (
    "base.BaseTransformer.__init__",
    "base.BaseTransformer.in_min_mode",
    "api_matcher.ChangePrefixMatcher.",
    "transformer.import_transformer.ImportTransformer.",
    "converter.Converter.",
    "main.",
)
ASK = ("base.BaseTransformer.", "transformer.import_transformer.ImportTransformer.")


def mode_frame():
    """the mode is known to the import pass, the prefix-only rule and the converter only: every other
    rule, and the counting, is the same in both modes"""
    root = os.path.join(common.REPO, "paconvert")
    bad, n = [], 0
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            p = os.path.relpath(os.path.join(d, f), root)[:-3].replace("/", ".")
            if p == "example_code":
                continue
            tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())

            def walk(x, q):
                nonlocal n
                for c in ast.iter_child_nodes(x):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        walk(c, q + [c.name])
                        continue
                    here = ".".join([p] + q)
                    dyn = isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("getattr", "hasattr") and len(c.args) > 1 and isinstance(c.args[1], ast.Constant) and c.args[1].value == "mode"
                    if isinstance(c, ast.Attribute) and c.attr == "mode" or dyn:
                        n += 1
                        if not here.startswith(KNOW):
                            bad.append("%s (line %d)" % (here, c.lineno))
                    if isinstance(c, ast.Attribute) and c.attr == "in_min_mode":
                        n += 1
                        if not here.startswith(ASK):
                            bad.append("%s (line %d)" % (here, c.lineno))
                    walk(c, q)

            walk(tree, [])
    return "the mode is known to the import pass, the prefix-only rule and the converter only", bad, n


CUSTOM_FRAMES.setdefault("C15", []).append(mode_frame)
