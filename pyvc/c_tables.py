"""Contracts of the API lookup (C12) and of the min-mode classification (C15), for arbitrary
tables which satisfy the ground requirements below."""
import json
import os

import z3

from .contracts import *
from .engine import *
from .values import *

BT = "paconvert.transformer.basic_transformer.BasicTransformer"
BASE = "paconvert.base.BaseTransformer"
GM = "paconvert.global_var.GlobalManager"
MATCH = z3.Function("re_match", STR, STR, BOOL)
ENT_DIS = z3.Function("entry_disabled", RefSort, BOOL)
ENT_NE = z3.Function("entry_nonempty", RefSort, BOOL)
ENT_HAS = z3.Function("entry_has_rule", RefSort, BOOL)
ENT_RULE = z3.Function("entry_rule", RefSort, STR)


def entry(e, t):
    """a table entry: a dict, of which only 'disable' and 'Matcher' are looked at here"""
    o = e.new(VObj("entry"))
    o.ref = t
    o.frozen = True

    def has(e, k):
        k = e.resolve(k)
        if k == "disable":
            return ENT_DIS(t)
        if k == "Matcher":
            return ENT_HAS(t)
        if isinstance(k, str):
            return z3.Function("entry_has_" + k, RefSort, BOOL)(t)
        raise Unsupported("entry field %r" % (k,))

    def item(e, k):
        if e.resolve(k) != "Matcher":
            raise Unsupported("entry field %r" % (k,))
        if not e.fork(ENT_HAS(t)):
            raise PyRaise("KeyError")
        return SStr(ENT_RULE(t))

    def get(e, a, k):
        f = e.resolve(a[0])
        if f == "disable":
            if e.fork(ENT_DIS(t)):
                return True
            return a[1] if len(a) > 1 else None
        if f != "Matcher":
            raise Unsupported("entry field %r" % (f,))
        if e.fork(ENT_HAS(t)):
            return SStr(ENT_RULE(t))
        return a[1] if len(a) > 1 else None

    def nonempty(e):
        ne = ENT_NE(t)
        e.assume(z3.Implies(z3.Or(ENT_DIS(t), ENT_HAS(t)), ne))
        return ne

    o.fields["__bool__"] = nonempty
    o.fields.update(__contains__=has, __getitem__=item, get=Native(get), __subst__=lambda f: entry(e, f(t)))
    return o


class Tables:
    def __init__(self, e):
        self.alias = e.sym_map("alias", "str")
        self.api, self.attr, self.wild = [e.sym_map(n, "ref") for n in ("api", "attr", "wild")]
        for m in (self.api, self.attr, self.wild):
            m.elem = entry
        for m in (self.alias, self.api, self.attr, self.wild):
            m.frozen = True
            e.assume(z3.Not(z3.Select(m.present, z3.StringVal(NONE_KEY))))
        k = z3.FreshConst(STR, "k")
        sel = z3.Select
        # ground requirements of the tables (obligations "tables: ..." below)
        e.assume(z3.ForAll([k], z3.Implies(sel(self.alias.present, k), z3.And(z3.Not(sel(self.api.present, k)), z3.Not(sel(self.attr.present, k)))), patterns=[sel(self.alias.present, k)]))
        e.class_attrs[(GM, "ALIAS_MAPPING")] = lambda e: self.alias
        e.class_attrs[(GM, "API_MAPPING")] = lambda e: self.api
        e.class_attrs[(GM, "ATTRIBUTE_MAPPING")] = lambda e: self.attr
        e.class_attrs[(GM, "API_WILDCARD_MAPPING")] = lambda e: self.wild

    def canon(self, k):
        return z3.If(z3.Select(self.alias.present, k), z3.Select(self.alias.val, k), k)

    def has(self, m, k):
        return z3.Select(m.present, k)

    def wildcard(self, k, p):
        """some wildcard matches k, and its entry satisfies p"""
        w = z3.FreshConst(STR, "w")
        return z3.Exists([w], z3.And(z3.Select(self.wild.present, w), MATCH(w, k), p(z3.Select(self.wild.val, w))))


def transformer(e, **kw):
    return obj(e, BT, logger=Ext("logger"), **kw)


def lookups(e, fn, tab):
    T = Tables(e)
    tr = transformer(e)
    name = e.fresh_val("torch_api", "str")
    e.assume(name.t != z3.StringVal(NONE_KEY))
    made = []

    def ev(e, a, k):
        rule = e.resolve(a[0])

        def make(e, args, kw):
            m = e.new(VObj("rule"))
            made.append((m, e.unwrap(rule, "str"), args))
            return m

        return Native(make)

    e.externs["builtins.eval"] = ev
    org = e.fresh_val("origin_attr", "str")
    try:
        r = run(e, method(e, BT, fn), [name, org], {}, tr)
    except PyRaise as x:
        e.prove("the lookup never fails", False, lambda m: "%s for %s" % (x, m.eval(name.t)))
        return
    t = getattr(T, tab)
    c = T.canon(name.t)
    info = lambda m: "torch_api = %s, stands for %s" % (m.eval(name.t, True), m.eval(c, True))
    e.prove("the lookup never fails", True)
    e.prove("the tables are not modified", not e.frozen_hits)
    mine = z3.Select(t.val, c)
    if r is None:
        e.prove(
            "nothing is found only if no entry exists or the entry is disabled",
            z3.If(T.has(t, c), z3.Or(ENT_DIS(mine), z3.Not(ENT_HAS(mine))), z3.Or(z3.Not(T.wildcard(c, lambda x: z3.BoolVal(True))), T.wildcard(c, lambda x: z3.Or(ENT_DIS(x), z3.Not(ENT_HAS(x)))))),
            info,
        )
        return
    hit = [x for x in made if x[0] is r]
    if not hit or len(hit[0][2]) != 5:
        raise Unsupported("result %r" % (r,))
    m, rule, (a_tr, a_name, a_org, a_ent, a_log) = hit[0]
    ent = e.unwrap(a_ent, "ref") if isinstance(a_ent, VObj) else None
    if ent is None:
        raise Unsupported("entry %r" % (a_ent,))
    e.prove("the rule is the one of the entry", z3.And(ENT_HAS(ent), rule == ENT_RULE(ent)), info)
    e.prove("a disabled entry is not used", z3.Not(ENT_DIS(ent)), info)
    e.prove("the entry is the one of the name, or of a wildcard it matches", z3.If(T.has(t, c), ent == mine, T.wildcard(c, lambda x: x == ent)), info)
    e.prove("the rule gets the name the alias stands for", e.unwrap(a_name, "str") == c, info)
    e.prove("the rule gets the transformer, the original name and the logger", a_tr is tr and a_org is org and a_log is tr.fields["logger"])


def known(e, fn, spec):
    T = Tables(e)
    tr = transformer(e)
    name = e.fresh_val("torch_api", "str")
    e.assume(name.t != z3.StringVal(NONE_KEY))
    try:
        r = run(e, method(e, BT, fn), [name], {}, tr)
    except PyRaise as x:
        e.prove("the lookup never fails", False, lambda m: "%s for %s" % (x, m.eval(name.t)))
        return
    e.prove("the lookup never fails", True)
    e.prove("the tables are not modified", not e.frozen_hits)
    b = e.truth(r)
    want = spec(T, T.canon(name.t))
    e.prove("it is mapped exactly if it, its alias or a wildcard is in the tables", want if b else z3.Not(want), lambda m: "torch_api = %s" % m.eval(name.t, True))


@contract(("C12",), BT + ".get_api_matcher", name="lookup of a call", setup=[no_logs])
def get_api_matcher(e):
    lookups(e, "get_api_matcher", "api")


@contract(("C12",), BT + ".get_attribute_matcher", name="lookup of an attribute", setup=[no_logs])
def get_attribute_matcher(e):
    lookups(e, "get_attribute_matcher", "attr")


@contract(("C12",), BT + ".in_api_mapping", name="mapped as a call", setup=[no_logs])
def in_api_mapping(e):
    known(e, "in_api_mapping", lambda T, c: z3.Or(T.has(T.api, c), T.wildcard(c, lambda x: z3.BoolVal(True))))


@contract(("C12",), BT + ".in_attribute_mapping", name="mapped as an attribute", setup=[no_logs])
def in_attribute_mapping(e):
    known(e, "in_attribute_mapping", lambda T, c: T.has(T.attr, c))


@contract(("C12", "C15"), BASE + ".get_canonical_torch_api", name="canonical name", setup=[no_logs])
def canonical(e):
    T = Tables(e)
    tr = transformer(e)
    name = e.fresh_val("torch_api", "str")
    e.assume(name.t != z3.StringVal(NONE_KEY))
    r = run(e, method(e, BT, "get_canonical_torch_api"), [name], {}, tr)
    e.prove("an alias gives the name it stands for, any other name itself", e.unwrap(e.resolve(r), "str") == T.canon(name.t))
    e.prove("the tables are not modified", not e.frozen_hits)


@contract(("C12", "C15"), BASE + ".in_min_mode", name="prefix-only APIs", setup=[no_logs])
def in_min_mode(e):
    T = Tables(e)
    mode = e.fresh_val("mode", "str")
    tr = transformer(e, mode=mode)
    name = e.fresh_val("torch_api", "str")
    e.assume(name.t != z3.StringVal(NONE_KEY))
    r = run(e, method(e, BT, "in_min_mode"), [name], {}, tr)
    b = e.truth(r)
    c = T.canon(name.t)
    pre = lambda x: z3.And(z3.Not(ENT_DIS(x)), ENT_HAS(x), ENT_RULE(x) == z3.StringVal("ChangePrefixMatcher"))
    active = lambda x: z3.And(ENT_NE(x), z3.Not(ENT_DIS(x)))
    api, attr = z3.Select(T.api.val, c), z3.Select(T.attr.val, c)
    anyw = lambda p: T.wildcard(c, p)
    ismin = mode.t == z3.StringVal("min")
    info = lambda m: "torch_api = %s" % m.eval(name.t, True)
    # no name is in both tables (ground requirement), so the entry of the name is unique
    e.assume(z3.Not(z3.And(T.has(T.api, c), T.has(T.attr, c))))
    e.prove("the tables are not modified", not e.frozen_hits)
    if b:
        e.prove("only min mode leaves APIs as they are", ismin, info)
        e.prove("an API which is left as it is has an active prefix-only entry", z3.Or(z3.And(T.has(T.api, c), pre(api)), z3.And(T.has(T.attr, c), pre(attr)), anyw(pre)), info)
        e.prove("the entry of the name goes before wildcards", z3.Implies(z3.And(T.has(T.api, c), active(api)), pre(api)), info)
    else:
        e.prove(
            "an API with a prefix-only entry is left as it is",
            z3.Implies(ismin, z3.And(z3.Implies(T.has(T.api, c), z3.Not(pre(api))), z3.Implies(z3.And(z3.Not(T.has(T.api, c)), T.has(T.attr, c), z3.Not(anyw(active))), z3.Not(pre(attr))))),
            info,
        )


CPM, CAM = "paconvert.api_matcher.ChangePrefixMatcher", "paconvert.api_matcher.ChangeAPIMatcher"
UNBOUND = ["torch.Tensor", "torch.nn.Module", "torch.optim.Optimizer", "torch.autograd.function.FunctionCtx", "torch.distributions.distribution.Distribution"]


@contract(("C12",), BT + ".is_unbound_method", name="methods called through their class", setup=[no_logs])
def unbound(e):
    tr = transformer(e)
    m = e.new(VObj("rule"))
    cp, ca = e.fresh("is_change_prefix", BOOL), e.fresh("is_change_api", BOOL)

    def isinst(e, t):
        ts = [x for x in (t.items if isinstance(t, VTuple) else [t])]
        out = []
        for x in ts:
            q = getattr(x, "qual", None)
            if q == CPM:
                out.append(cp)
            elif q == CAM:
                out.append(ca)
            else:
                out.append(e.fresh("isinst", BOOL))
        return z3.Or(out)

    m.fields["__isinstance__"] = isinst
    name = e.fresh("torch_api", STR)
    dot = z3.StringVal(".")
    # every mapped name has a package (ground requirement)
    e.assume(z3.Contains(name, dot))
    cls = z3.SubString(name, 0, z3.LastIndexOf(name, dot))
    m.fields["torch_api"] = SStr(name)
    r = run(e, method(e, BT, "is_unbound_method"), [m], {}, tr)
    b = e.truth(r)
    want = z3.And(z3.Not(cp), z3.Not(ca), z3.Or([cls == z3.StringVal(u) for u in UNBOUND]))
    e.prove("exactly the class methods whose rule rewrites the arguments are not converted through the class", want if b else z3.Not(want), lambda m_: "torch_api = %s" % m_.eval(name, True))


# ------------------------------------------------------------------ ground requirements of the tables
FILES = dict(api="api_mapping.json", attr="attribute_mapping.json", alias="api_alias_mapping.json", wild="api_wildcard_mapping.json")


def tables():
    out = {}
    for k, f in FILES.items():
        with open(os.path.join(common.REPO, "paconvert", f)) as fh:
            out[k] = json.load(fh)
    return out


def entries(*names):
    t = tables()
    for n in names or ("api", "attr"):
        for k, v in t[n].items():
            yield k, v


OVER = "paconvert/*_mapping.json"


@ground(("C12",), "no name is both an alias and a table entry", OVER)
def g_alias():
    t = tables()
    for k, v in t["alias"].items():
        yield ("%s is an alias and a table entry" % k, k) if k in t["api"] or k in t["attr"] else None
        yield ("%s is an alias of the alias %s" % (k, v), k) if v in t["alias"] else None


@ground(("C12", "C15"), "no name is in the call and in the attribute table", OVER)
def g_both():
    t = tables()
    for k in t["api"]:
        yield ("%s is in both tables" % k, k) if k in t["attr"] else None


@ground(("C12",), "every entry is a dict, every name has a package", OVER)
def g_nonempty():
    for k, v in entries("api", "attr", "wild"):
        yield ("%s: no entry" % k, k) if not isinstance(v, dict) else None
        yield ("%s has no package" % k, k) if "." not in k else None


@ground(("C12",), "every rule named in a table is a rule class", OVER)
def g_rules():
    src = Source()
    for k, v in entries("api", "attr", "wild"):
        m = v.get("Matcher")
        if m is None:
            yield None
            continue
        c = src.lookup("paconvert.api_matcher", m)
        ok = isinstance(c, Cls) and any(getattr(x, "qual", None) == "paconvert.base.BaseMatcher" for x in src.mro(c))
        yield None if ok else ("%s names the rule %s, which does not exist" % (k, m), k)


@ground(("C12",), "ChangeAPIMatcher entries have a paddle_api and no argument changes", OVER)
def g_change_api():
    for k, v in entries():
        if v.get("Matcher") == "ChangeAPIMatcher":
            yield ("%s" % v, k) if "paddle_api" not in v or any(f in v for f in ("unsupport_args", "kwargs_change", "paddle_default_kwargs")) else None


@ground(("C12",), "GenericMatcher entries have a paddle_api and name known parameters only", OVER)
def g_generic():
    for k, v in entries():
        if v.get("Matcher") == "GenericMatcher":
            al = v.get("args_list") or []
            ok = set(al) | set(v.get("overload_args_list") or [])
            yield ("no paddle_api", k) if "paddle_api" not in v else None
            for f in ("kwargs_change", "unsupport_args"):
                for p in v.get(f) or []:
                    yield ("%s names the unknown parameter %s" % (f, p), k) if p not in ok else None
            yield ("more required arguments than parameters", k) if (v.get("min_input_args") or 0) > len([p for p in al if p != "*"]) else None


@ground(("C07",), "parameters are names, and the positional ones are distinct", OVER)
def g_args_list():
    for k, v in entries():
        for f in ("args_list", "unsupport_args", "overload_args_list"):
            l = v.get(f) or []
            yield ("%s: %s" % (f, l), k) if not all(isinstance(x, str) and x for x in l) else None
        l = v.get("args_list") or []
        l = l[: l.index("*")] if "*" in l else l
        yield ("args_list %s" % l, k) if len(set(l)) != len(l) else None
        yield ("min_input_args %r" % v.get("min_input_args"), k) if not (isinstance(v.get("min_input_args", 0), int) and v.get("min_input_args", 0) >= 0) else None


@ground(("C08",), "no two arguments of a call get the same name", OVER)
def g_targets():
    for k, v in entries():
        if v.get("Matcher") != "GenericMatcher":
            continue
        ch = v.get("kwargs_change") or {}
        # an overloaded parameter is an alternative to the one of the same target: a call gives one of them
        al = [p for p in v.get("args_list") or [] if p != "*"]
        seen = {}
        for p in dict.fromkeys(al):
            t = ch.get(p, p)
            for q in t if isinstance(t, list) else [t]:
                if q == "":
                    continue
                yield ("%s and %s both become %s" % (seen[q], p, q), k) if q in seen else None
                seen[q] = p
