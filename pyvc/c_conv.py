"""Contracts of paconvert/converter.py."""
import z3

from .c_trans import *
from .contracts import *
from .engine import *
from .values import *

CV = "paconvert.converter.Converter"
TRANSFORMERS = {
    "ImportTransformer": "paconvert.transformer.import_transformer.ImportTransformer",
    "BasicTransformer": BT,
    "PreCustomOpTransformer": CT + "PreCustomOpTransformer",
    "CustomOpTransformer": CT + "CustomOpTransformer",
}


def converter(e, **kw):
    u = e.sym_map("unsupport_api_map", "int", default="int")
    a = e.sym_map("all_api_map", "rec", default="dict")
    c = obj(
        e,
        CV,
        unsupport_api_map=u,
        all_api_map=a,
        logger=Ext("logger"),
        mode=e.fresh_val("mode", "str"),
        **kw,
    )
    return c, fresh_stats(e, c)


# ------------------------------------------------------------------ adding up the files (C01, C02)
def transform_summary(pid):
    def f(e, tr, args, kw):
        """contract of transform(): the steps of all visits (c_trans); the others do not count"""
        q = tr.cls.qual
        s0 = Stats(tr)
        if q == TRANSFORMERS["ImportTransformer"] or (pid == "C02" and q != BT):
            return None  # no counting (C02: no C++ custom operators)
        s1 = fresh_stats(e, tr)
        k = z3.FreshConst(STR, "k")
        for name, g in step_facts(s0, s1):
            t = g(k)
            if not mentions(t, k):
                if "usage list" in name and q != BT:
                    continue
                e.assume(t)
            elif "recorded" in name:
                e.assume(z3.ForAll([k], t, patterns=[z3.Select(s1.apres, k)]))
        return None

    return f


def conv_env(pid):
    def setup(e):
        e.summaries[BASE + ".transform"] = transform_summary(pid)
        e.summaries[TRANSFORMERS["BasicTransformer"] + ".__init__"] = None
        e.summaries.pop(TRANSFORMERS["BasicTransformer"] + ".__init__")

    return setup


def transfer_node_contract(pid):
    def harness(e):
        c, s0 = converter(e, only_complete=e.fresh_val("only_complete", "bool"))
        pkgs = e.sym_map("change_prefix", "ref")
        c.fields["change_prefix_api_map"] = opaque_map(e, "change_prefix_api_map")
        c.fields["imports_map"] = imports_map(e)
        root = e.sym_node("root", "Module")
        try:
            run(e, method(e, CV, "transfer_node"), [root, "dir/file.py"], {}, c)
        except PyRaise:
            return
        s1 = Stats(c)
        k = e.fresh("api", STR)
        for i, (name, f) in enumerate(step_facts(s0, s1)):
            if FACT_PROPS[i] == pid:
                e.prove(name, f(k))

    return contract((pid,), [CV + ".transfer_node", BASE + ".__init__", BT + ".__init__"], name="statistics of a file", setup=[no_logs, conv_env(pid)])(harness)


def opaque_map(e, name):
    """a mapping to sets which nothing depends on"""
    o = e.new(VObj(name))
    s = e.new(VObj(name + " entry"))
    s.fields["update"] = Native(lambda e, a, k: None)
    s.fields["add"] = Native(lambda e, a, k: None)
    o.fields["__getitem__"] = lambda e, i: s
    o.fields["__setitem__"] = lambda e, i, v: None
    return o


def imports_map(e):
    o = e.new(VObj("imports_map"))
    file = e.new(VObj("file imports"))
    sets = {}

    def item(e, i):
        if i not in sets:
            sets[i] = e.sym_set(str(i))
        return sets[i]

    file.fields["__getitem__"] = item
    file.fields["__setitem__"] = lambda e, i, v: None
    o.fields["__getitem__"] = lambda e, i: file
    o.fields["__setitem__"] = lambda e, i, v: None
    return o


for _pid in ("C01", "C02"):
    transfer_node_contract(_pid)


def run_contract(pid):
    def harness(e):
        flag = lambda n: e.fresh_val(n, "bool")
        c, s0 = converter(e, log_markdown=flag("log_markdown"), show_all_api=flag("show_all_api"), show_unalign_api=flag("show_unalign_api"), show_unsupport_api=flag("show_unsupport_api"), calculate_speed=False, convert_rate=0.0, out_dir=None, no_format=flag("no_format"), only_complete=flag("only_complete"))
        # a new converter starts with empty statistics (contract of __init__ below)
        for t in (s0.T, s0.S, s0.U, s0.A):
            e.assume(t == 0)
        logged = []
        e.summaries["paconvert.utils.log_warning"] = lambda e, s, a, k: logged.append(a[1])

        def transfer(e, self_, args, kw):
            s1 = fresh_stats(e, c)
            for i, (name, f) in enumerate(step_facts(s0, s1)):
                t = f(z3.StringVal("?"))
                if i < 3:
                    e.assume(t)
            return None

        e.summaries[CV + ".transfer_dir"] = transfer
        try:
            r = run(e, method(e, CV, "run"), [e.fresh_val("in_dir", "str"), e.fresh_val("out_dir", "str")], {}, c)
        except PyRaise:
            return
        s = Stats(c)
        if not isinstance(r, VTuple) or len(r.items) != 2:
            raise Unsupported("result %r" % (r,))
        a, b = [e.unwrap(x, "int") for x in r.items]
        if pid == "C01":
            e.prove("the returned counts are the converted and the other uses", z3.And(a == s.S, b == s.T - s.S))
            e.prove("neither count is negative", z3.And(a >= 0, b >= 0))
            e.prove("the not-supported count is the sum of the not-supported tally", b == s.U)
            rate = e.getattr(c, "convert_rate")
            if isinstance(rate, (int, float)):
                e.prove("the convert rate is in [0, 1]", bool(0 <= rate <= 1) and True)
                e.prove("the convert rate is the share of converted uses", z3.Implies(s.T > 0, z3.ToReal(s.S) == z3.RealVal(str(rate)) * z3.ToReal(s.T)))
            elif isinstance(rate, SReal):
                e.prove("the convert rate is in [0, 1]", z3.And(rate.t >= 0, rate.t <= 1))
                e.prove("the convert rate is the share of converted uses", z3.Implies(s.T > 0, z3.ToReal(s.S) == rate.t * z3.ToReal(s.T)))
            else:
                raise Unsupported("convert_rate %r" % (rate,))
            nums = []
            for x in logged:
                parts = x.prov[1] if isinstance(x, SStr) and x.prov and x.prov[0] == "cat" else [x]
                nums += [p.prov[1].t for p in parts if isinstance(p, SStr) and p.prov and p.prov[0] == "int"]
            for n in nums:
                e.prove("the summary reports no other numbers", z3.Or(n == s.T, n == s.S, n == s.T - s.S))
            for nm, t in (("total", s.T), ("converted", s.S), ("not supported", s.T - s.S)):
                e.prove("the summary reports the %s count" % nm, z3.Or([n == t for n in nums] or [z3.BoolVal(False)]))
        else:
            e.prove("the listed counts add up to the total", s.A == s.T)

    return contract((pid,), CV + ".run", name="reported statistics", setup=[no_logs, run_env])(harness)


def run_env(e):
    U = "paconvert.utils."
    helper = lambda e, s, a, k: e.new(VObj("helper", write_code=Native(lambda e, a, k: None)))
    e.summaries[U + "UtilsFileHelper"] = helper
    df = lambda e, a, k: e.new(VObj("frame", to_excel=Native(lambda e, a, k: None)))
    e.externs["pandas.DataFrame"] = df
    e.externs["os.getcwd"] = lambda e, a, k: any_str(e)
    e.externs["os.makedirs"] = lambda e, a, k: None
    clear = lambda e: e.new(VObj("global", clear=Native(lambda e, a, k: None)))
    e.class_attrs[("paconvert.transformer.custom_op_transformer", "AUTOGRAD_FUNC_NODES")] = clear
    e.class_attrs[("paconvert.transformer.custom_op_transformer", "CPP_EXTENSION_LIST")] = clear


for _pid in ("C01", "C02"):
    run_contract(_pid)

FRAMES["C01"] = [("the counters and the not-supported tally change in the functions under contract only", {"torch_api_count", "success_api_count", "unsupport_api_map"})]
FRAMES["C02"] = [("the usage list and the total change in the functions under contract only", {"torch_api_count", "all_api_map"})]


@contract(("C01", "C02"), CV + ".__init__", name="a new converter has no statistics", setup=[no_logs])
def init(e):
    e.externs["logging.getLogger"] = lambda e, a, k: e.new(VObj("logger", addHandler=Native(lambda e, a, k: None), setLevel=Native(lambda e, a, k: None)))
    for n in ("StreamHandler", "FileHandler", "disable"):
        e.externs["logging." + n] = lambda e, a, k: None
    e.summaries["paconvert.utils.get_unique_name"] = any_str
    c = obj(e, CV)
    log_dir = [None, "disable", e.fresh_val("log_dir", "str")][e.choose(3)]
    run(e, method(e, CV, "__init__"), [], dict(log_dir=log_dir, mode=e.fresh_val("mode", "str")), c)
    f = c.fields
    e.prove("the counters are zero", f.get("torch_api_count") == 0 and f.get("success_api_count") == 0)
    for m in ("all_api_map", "unsupport_api_map"):
        v = f.get(m)
        e.prove("the lists are empty and its own", isinstance(v, VDict) and not v.d and v.birth > c.birth)
    e.prove("the convert rate starts in [0, 1]", isinstance(f.get("convert_rate"), (int, float)) and 0 <= f["convert_rate"] <= 1)
