"""Registry of contracts and the driver which discharges them."""
import ast
import importlib
import os
import time

import z3

from vlib import common
from vlib.common import THOROUGH

from .engine import Engine
from .source import Source
from .values import *

CONTRACTS = []
MODULES = ["c_base", "c_match", "c_trans", "c_import", "c_utils", "c_conv", "c_tables", "c_idle", "c_scope", "c_insert", "c_files", "c_helper", "c_mark", "c_mask", "c_state", "c_min", "c_rules"]


class Contract:
    def __init__(self, props, func, harness, name, verifies, kw):
        self.props, self.func, self.harness, self.name = props, func, harness, name
        self.verifies = verifies
        self.kw = kw


def contract(props, func, name=None, verifies=None, **kw):
    """Register a proof harness.  `func`: the qualified name(s) under contract."""

    def deco(fn):
        CONTRACTS.append(Contract(props, func if isinstance(func, (list, tuple)) else [func], fn, name or fn.__name__, verifies, kw))
        return fn

    return deco


GROUND = []


def ground(props, name, over):
    """A closed statement about the tables, decided by evaluating it on every entry.
    The function yields (what is wrong, entry)."""

    def deco(fn):
        GROUND.append((props, name, over, fn))
        return fn

    return deco


def run_ground(pid, chk):
    for props, name, over, fn in GROUND:
        if pid not in props:
            continue
        t0 = time.time()
        n, bad, why = 0, [], []
        try:
            for x in fn():
                n += 1
                if x is not None:
                    bad.append(x)
            st = "refuted" if bad else "discharged"
        except Exception as x:
            st, why = "undecided", ["engine error: " + common.tb_short(x)]
        chk.obligations.append(dict(name="tables: " + name, status=st, backend="evaluation", secs=round(time.time() - t0, 3), function=over, vcs=n, why=why + ["%s: %s" % b for b in bad[:3]], model=None, info=None))
        for what, key in bad[:20]:
            chk.violation("%s: %s" % (name, what), input=key, obligation="tables: " + name)
        if os.environ.get("VERIF_DEBUG"):
            print("   ground:", name, st, n, bad[:3], why)


def load():
    for m in MODULES:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")
        if os.path.exists(p):
            importlib.import_module("pyvc." + m)


def run_part(task):
    """One time slice of the proof of a contract: (index, path prefixes, seconds)."""
    idx, work, slice_s, deadline = task
    c = CONTRACTS[idx]
    t0 = time.time()
    e = Engine(Source(), timeout_ms=c.kw.get("timeout_ms", 3000) * (4 if THOROUGH else 1), feas_ms=c.kw.get("feas_ms", 250))
    e.deadline = deadline
    e.max_paths = c.kw.get("max_paths", 20000)
    e.current = ", ".join(c.func)
    e.contract_name = c.name
    e.verifying = set(c.func)
    e.stop_early = c.kw.get("inline", False)
    e.left = []
    try:
        for setup in c.kw.get("setup", ()):
            setup(e)
        paths, problems = e.explore(c, c.harness, work, slice_s)
    except Unsupported as x:
        paths, problems = 0, ["unsupported: %s" % x]
    except Exception as x:  # an engine error never decides anything
        if os.environ.get("PYVC_DEBUG"):
            import traceback

            traceback.print_exc()
        paths, problems = 0, ["engine error: %s" % common.tb_short(x)]
    obls = [
        dict(name=o.name, status=o.status, backend=sorted(o.backends), secs=o.secs, vcs=o.vcs, why=o.why[:3], model=o.model, info=o.info, vocab=sorted(o.vocab))
        for o in e.obls.values()
    ]
    return dict(
        idx=idx,
        left=e.left,
        obls=obls,
        paths=paths,
        problems=problems,
        reached=e.reached,
        inlined=e.inlined - set(c.func),
        summaries=e.used_summaries,
        externs=e.used_externs,
        secs=time.time() - t0,
        solver_s=e.solver_s,
    )


ORDER = ["discharged", "undecided", "failed", "refuted"]


def note_vocab(c, parts):
    """written by hand on the unchanged tree (tools/mkvocab.sh)"""
    import json

    p = os.environ["PYVC_VOCAB"]
    d = json.load(open(p)) if os.path.exists(p) else {}
    v = d.setdefault(c.name, {})
    for r in parts:
        for o in r["obls"]:
            v[o["name"]] = sorted(set(v.get(o["name"], [])) | set(o["vocab"]))
    json.dump(d, open(p, "w"), indent=1, sort_keys=True)


def merge(c, parts):
    if os.environ.get("PYVC_VOCAB"):
        note_vocab(c, parts)
    out = dict(name=c.name, funcs=c.func, obls=[], paths=0, problems=[], secs=0, solver_s=0, reached=0)
    ob = {}
    for k in ("inlined", "summaries", "externs"):
        out[k] = sorted(set().union(*[p[k] for p in parts]))
    for p in parts:
        for k in ("paths", "problems", "secs", "solver_s", "reached"):
            out[k] += p[k]
        for o in p["obls"]:
            m = ob.setdefault(o["name"], dict(name=o["name"], status="discharged", backend=set(), secs=0, vcs=0, why=[], model=None, info=None))
            m["backend"] |= set(o["backend"])
            m["secs"] += o["secs"]
            m["vcs"] += o["vcs"]
            m["why"] = (m["why"] + o["why"])[:3]
            if ORDER.index(o["status"]) > ORDER.index(m["status"]):
                m["status"] = o["status"]
                m["model"], m["info"] = o["model"], o["info"]
    if not ob or not out["reached"]:
        out["problems"].append("no obligation was reached")
        if not ob:
            nm = "contract of " + ", ".join(c.func)
            ob[nm] = dict(name=nm, status="discharged", backend=set(), secs=0, vcs=0, why=[], model=None, info=None)
    for o in ob.values():
        if o["status"] == "discharged" and out["problems"]:
            o["status"] = "undecided"
            o["why"].append(out["problems"][0])
        o.update(name=c.name + ": " + o["name"], backend="+".join(sorted(o["backend"])) or "-", secs=round(o["secs"], 3), function=", ".join(c.func))
        out["obls"].append(o)
    out["secs"] = round(out["secs"], 2)
    return out


def run_all(todo):
    if not todo:
        return []
    t0 = time.time()
    parts = {CONTRACTS.index(c): [] for c in todo}
    end = {i: t0 + CONTRACTS[i].kw.get("budget", 60) * (4 if THOROUGH else 1) for i in parts}
    debug = os.environ.get("PYVC_DEBUG")
    tasks = [(i, None, None if debug else 2.0, end[i]) for i in parts]
    while tasks:
        res = [run_part(t) for t in tasks] if debug else common.pmap(run_part, tasks, chunk=1)
        tasks = []
        left = {}
        for r in res:
            parts[r["idx"]].append(r)
            if r["left"]:
                left.setdefault(r["idx"], []).extend(r["left"])
        for i, l in left.items():
            c = CONTRACTS[i]
            if c.kw.get("inline") and any(o["status"] in ("refuted", "failed") for p in parts[i] for o in p["obls"]):
                continue
            if time.time() > end[i]:
                parts[i][-1]["problems"].append("time limit reached with %d open path prefixes" % len(l))
                continue
            n = max(1, min(len(l), 16 // len(left)))
            for k in range(n):
                tasks.append((i, l[k::n], 4.0, end[i]))
    return [merge(CONTRACTS[i], parts[i]) for i in parts]


# pid -> [(description, attribute names)]: these attributes change in functions under contract only
FRAMES = {}
# pid -> [function returning (description, deviations, places looked at)]
CUSTOM_FRAMES = {}
PURE = {"items", "keys", "values", "copy", "get"}


def writers(attrs, helpers):
    """functions of the package which may change one of the attributes (or call a helper that does):
    everything except plain reads counts"""
    out = {}
    src = Source()
    root = os.path.join(common.REPO, "paconvert")
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            mod = os.path.relpath(os.path.join(d, f), common.REPO)[:-3].replace("/", ".")
            if mod.endswith(".__init__"):
                mod = mod[:-9]
            tree = src.module(mod).tree
            for n in ast.walk(tree):
                for c in ast.iter_child_nodes(n):
                    c._up = n
            for n in ast.walk(tree):
                nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
                if nm not in attrs and nm not in helpers:
                    continue
                up = n._up
                if isinstance(n, ast.Name) and nm in attrs and isinstance(up, (ast.Assign, ast.Call)):
                    continue  # a parameter of the same name
                q, x = [], n
                while x is not None:
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        q.insert(0, x.name)
                    x = getattr(x, "_up", None)
                if nm in attrs and isinstance(n.ctx, ast.Load):
                    if isinstance(up, (ast.Compare, ast.BinOp, ast.Return, ast.FormattedValue)):
                        continue
                    if isinstance(up, ast.Attribute) and up.attr in PURE:
                        continue
                    if isinstance(up, ast.Call) and isinstance(up.func, ast.Name) and up.func.id in ("len", "sorted", "str", "int"):
                        continue
                    if isinstance(up, ast.Call) and isinstance(up.func, ast.Attribute) and up.func.attr == "format":
                        continue
                    if isinstance(up, ast.Call) and len(q) > 1 and q[-1] == "__init__":
                        continue  # handed to the base class, which stores it
                    if isinstance(up, ast.Attribute) and up.attr == "clear" and q and q[-1] == "__del__":
                        continue
                out.setdefault(".".join([mod] + q), set()).add(nm)
    return out


def frames(pid, chk, res):
    covered = set()
    for r in res:
        covered.update(r["funcs"])
        covered.update(r["inlined"])
    for desc, attrs, *only in FRAMES.get(pid, ()):
        direct = {q for q in writers(attrs, ()) if q in covered}
        helpers = {q.rsplit(".", 1)[1] for q in direct} - {"__init__", "run", "transfer_node"}
        helpers = {h for h in helpers if not h.startswith("visit_") and not only}
        bad = {q: a for q, a in writers(attrs, helpers).items() if q not in covered}
        chk.obligations.append(
            dict(
                name="frame: " + desc,
                status="undecided" if bad else "discharged",
                backend="syntactic",
                secs=0,
                function="all functions of the package",
                vcs=1,
                why=["%s also touches %s" % (q, sorted(a)) for q, a in sorted(bad.items())][:3],
                model=None,
                info=None,
            )
        )
        if os.environ.get("VERIF_DEBUG"):
            print("   frame:", desc, "-", bad or "holds")


def custom_frames(pid, chk):
    for f in CUSTOM_FRAMES.get(pid, ()):
        try:
            desc, bad, n = f()
        except Exception as x:
            desc, bad, n = f.__name__, ["engine error: " + common.tb_short(x)], 0
        chk.obligations.append(dict(name="frame: " + desc, status="undecided" if bad else "discharged", backend="syntactic", secs=0, function="all functions of the package", vcs=n, why=bad[:3], model=None, info=None))
        if os.environ.get("VERIF_DEBUG"):
            print("   frame:", desc, "-", n, "places -", bad or "holds")


def prove(pid, chk):
    load()
    todo = [c for c in CONTRACTS if pid in c.props]
    if os.environ.get("PYVC_ONLY"):
        todo = [c for c in todo if any(x in c.name for x in os.environ["PYVC_ONLY"].split(","))]
    if not todo:
        return
    first = [c for c in todo if not c.kw.get("inline")]
    res = run_all(first)
    # a callee whose own contract does not hold any more (the work may have moved between
    # the two functions) is inlined into its callers, which then decide
    bad = {c.kw.get("group") for c, r in zip(first, res) if any(o["status"] != "discharged" for o in r["obls"])} - {None}
    if os.environ.get("PYVC_NOFALLBACK"):
        bad = set()
    second = [c for c in todo if c.kw.get("inline") and c.kw.get("group") in bad]
    if second:
        res = [r for c, r in zip(first, res) if c.kw.get("group") not in bad] + run_all(second)
    frames(pid, chk, res)
    custom_frames(pid, chk)
    run_ground(pid, chk)
    seen_sum, seen_ext = set(), set()
    for r in res:
        for o in r["obls"]:
            chk.obligations.append(o)
        for f in r["funcs"]:
            d = chk.functions.setdefault(f, dict(obligations=0, vcs=0, paths=0, contracts=[]))
            d["obligations"] += len(r["obls"])
            d["vcs"] += sum(o["vcs"] for o in r["obls"])
            d["paths"] += r["paths"]
            d["contracts"].append(r["name"])
            d["inlined"] = sorted(set(d.get("inlined", [])) | set(r["inlined"]))
        seen_sum.update(r["summaries"])
        seen_ext.update(r["externs"])
        chk.solver_s += r["solver_s"]
        if os.environ.get("VERIF_DEBUG"):
            print("--- %s: %d paths, %d reached, %.1fs (solver %.1fs)" % (r["name"], r["paths"], r["reached"], r["secs"], r["solver_s"]))
            for o in r["obls"]:
                print("   %-10s %s [%d vcs, %s, %.2fs]" % (o["status"], o["name"], o["vcs"], o["backend"], o["secs"]))
                if o["status"] != "discharged":
                    print("      ", o["why"])
                    if o["info"]:
                        print("      ", o["info"])
            for p in r["problems"][:5]:
                print("   problem:", p)
    under = set()
    for c in CONTRACTS:
        under.update(c.func)
    chk.trusted += ["contract of external " + x for x in sorted(seen_ext)]
    chk.trusted += ["the symbolic interpreter pyvc and its library of builtin contracts", "z3 %s, cvc5 (second solver)" % z3.get_version_string()]
    for s in sorted(seen_sum):
        if s not in under and s not in ASSUMED_OK:
            chk.trusted.append("assumed contract of " + s)
    chk.assumptions += ["termination and absence of MemoryError/RecursionError are not verified", "integers are mathematical (as in Python)"]


ASSUMED_OK = set()


# ------------------------------------------------------------------ helpers shared by the contracts
LOGS = ["log_debug", "log_info", "log_warning", "log_error"]


def no_logs(e):
    """log_* write to the logger only (their own contract is in c_utils)."""
    for n in LOGS:
        e.summaries["paconvert.utils." + n] = lambda e, s, a, k: None


def method(e, cls_qual, name):
    c = e.src.cls(cls_qual)
    if not isinstance(c, Cls):
        raise Unsupported("class %s not found" % cls_qual)
    m, k = e.src.method(c, name)
    if not isinstance(m, Func):
        raise Unsupported("method %s.%s not found" % (cls_qual, name))
    return m


def obj(e, cls_qual, **fields):
    c = e.src.cls(cls_qual)
    if not isinstance(c, Cls):
        raise Unsupported("class %s not found" % cls_qual)
    return e.new(VObj(c, **fields))


def run(e, func, args=(), kwargs=None, self_=None):
    """Execute the body of the function under verification."""
    return e.call_func(func, list(args), kwargs or {}, self_)
