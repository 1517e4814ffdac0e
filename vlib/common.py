"""Shared plumbing of the checks: environment, results, evidence, known findings.

Every check imports the code under test from /repo's working tree (no build
products are used, no byte code is written)."""
import atexit
import hashlib
import json
import logging
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")

_scratch = None


def scratch():
    """A scratch directory of this process tree, removed at exit."""
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        _scratch = tempfile.mkdtemp(prefix="pacheck_", dir=base)
        owner = os.getpid()

        def _rm(p=_scratch):
            if os.getpid() == owner:
                shutil.rmtree(p, ignore_errors=True)

        atexit.register(_rm)
    return _scratch


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        data = json.load(open(path))
    except FileNotFoundError:
        return []
    return [f for f in data.get("findings", []) if f["property"] == prop]


class Violation(Exception):
    """Raised by an oracle: the property does not hold for this input."""

    def __init__(self, what, **detail):
        super().__init__(what)
        self.what = what
        self.detail = detail


class Check:
    """Collects what one run of one check did and decides its outcome."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.violations = []  # dicts with what/input
        self.known = []
        self.findings = known_findings(prop)
        # proof part
        self.obligations = []  # dicts: name, status, backend, secs, function
        self.functions = {}
        self.trusted = []
        self.assumptions = []
        # bounded part
        self.bounded = {}  # name -> dict(evaluations, distinct, rule, samples)
        self.notes = []
        self.solver_s = 0.0

    # ---- bounded
    def add_bounded(self, name, evaluations, distinct, rule, samples, bound=None, **kw):
        b = self.bounded.setdefault(
            name,
            dict(evaluations=0, distinct_nontrivial=0, rule=rule, samples=[], bound=bound),
        )
        b["evaluations"] += evaluations
        b["distinct_nontrivial"] += distinct
        b["samples"] = (b["samples"] + list(samples))[:3]
        b.update(kw)

    def violation(self, what, replay=True, **detail):
        """Record a violation; `detail` is the failing input (JSON-able)."""
        key = detail.get("key")
        for f in self.findings:
            if f.get("status") == "open" and key is not None and f.get("key") == key:
                if f not in self.known:
                    self.known.append(f)
                return
        self.violations.append(dict(what=what, has_input=replay, **detail))

    def absorb(self, viols):
        for v in viols:
            v = dict(v)
            what = v.pop("what")
            rp = v.pop("has_input", True)
            self.violation(what, replay=rp, **v)

    def finish(self, level, checker_cmd="z3 (in process), cvc5 as second solver"):
        wall = time.time() - self.t0
        os.makedirs(EVID, exist_ok=True)
        ob = self.obligations
        cov = dict(
            obligations=len(ob),
            discharged=sum(1 for o in ob if o["status"] == "discharged"),
            refuted=[o["name"] for o in ob if o["status"] == "refuted"],
            not_discharged=[o["name"] for o in ob if o["status"] == "failed"],
            undecided=[o["name"] for o in ob if o["status"] == "undecided"],
            checker_cmd=checker_cmd,
            trusted_base=self.trusted,
            functions_under_contract=self.functions,
            solver_seconds=round(self.solver_s, 3),
            backends=sorted({o.get("backend", "-") for o in ob}),
            obligation_names=[o["name"] for o in ob][:400],
            bounded=self.bounded,
            evaluations=sum(b["evaluations"] for b in self.bounded.values()),
            distinct_nontrivial=sum(
                b["distinct_nontrivial"] for b in self.bounded.values()
            ),
            rule="; ".join("%s: %s" % (k, b["rule"]) for k, b in self.bounded.items()),
            samples=[s for b in self.bounded.values() for s in b["samples"]][:6],
            notes=self.notes,
        )
        ev = dict(
            property=self.prop,
            tier=TIER,
            seed=SEED,
            level=level,
            coverage=cov,
            assumptions=self.assumptions,
            wall_s=round(wall, 3),
            violations=len(self.violations),
        )
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        print(
            "%s: %d obligations, %d discharged, %d undecided; bounded: %d evaluations; %.1f s"
            % (
                self.prop,
                cov["obligations"],
                cov["discharged"],
                len(cov["undecided"]),
                cov["evaluations"],
                wall,
            )
        )
        for u in cov["undecided"][:20]:
            print("  undecided (bounded check stands in):", u)
        if self.violations:
            withinput = [v for v in self.violations if v["has_input"]]
            v = (withinput or self.violations)[0]
            path = os.path.join(EVID, self.prop + ".replay.json")
            with open(path, "w") as f:
                json.dump(
                    dict(property=self.prop, first=v, all=self.violations[:20]),
                    f,
                    indent=1,
                    default=str,
                )
            print("violation:", v["what"])
            for k in ("program", "input", "obligation"):
                if k in v:
                    print("--- %s\n%s" % (k, v[k]))
            tail = "" if withinput else " no-failing-input-found"
            print("VIOLATION property=%s replay=%s%s" % (self.prop, path, tail))
            sys.stdout.flush()
            return 1
        return 0


def rng(*parts):
    h = hashlib.sha256(repr((SEED,) + parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def pmap(fn, items, procs=None, chunk=None):
    """Run fn over items in forked workers (fn returns a picklable value)."""
    import multiprocessing as mp

    items = list(items)
    procs = procs or min(8, os.cpu_count() or 1, max(1, len(items)))
    scratch()
    if procs <= 1 or len(items) <= 1:
        return [fn(i) for i in items]
    ctx = mp.get_context("fork")
    with ctx.Pool(procs) as pool:
        return pool.map(fn, items, chunksize=chunk or max(1, len(items) // (procs * 4)))


def tb_line(e):
    return "".join(traceback.format_exception_only(type(e), e)).strip()


def tb_short(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = ["%s:%s %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:]]
    return tb_line(e) + "  [" + " < ".join(reversed(loc)) + "]"
