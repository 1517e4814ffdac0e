#!/usr/bin/env python3
"""check entry point: run.py <property id> [quick|thorough]"""
import importlib
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or sys.executable != "/opt/venv/bin/python":
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    if os.path.exists("/opt/venv/bin/python") and not os.environ.get("_VERIF_REEXEC"):
        env["_VERIF_REEXEC"] = "1"
        os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv, env)
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import warnings

warnings.simplefilter("ignore")
sys.setrecursionlimit(10000)
import logging

from vlib import common

PROPS = {
    "C01": ("props.c01", "bounded"),
    "C02": ("props.c01", "bounded_c02"),
    "C03": ("props.c03", "bounded"),
    "C04": ("props.c04", "bounded"),
    "C05": ("props.c05", "bounded"),
    "C06": ("props.c06", "bounded"),
    "C07": ("props.c07", "bounded"),
    "C08": ("props.c08", "bounded"),
    "C09": ("props.c09", "bounded"),
    "C10": ("props.c10", "bounded"),
    "C11": ("props.c11", "bounded"),
    "C12": ("props.c12", "bounded"),
    "C13": ("props.c13", "bounded"),
    "C14": ("props.c14", "bounded"),
    "C15": ("props.c15", "bounded"),
    "C16": ("props.c16", "bounded"),
}


def main():
    pid = sys.argv[1]
    mod, fn = PROPS[pid]
    chk = common.Check(pid)
    try:
        import paconvert.converter  # noqa
    except Exception as e:
        chk.violation("the package cannot be imported: " + common.tb_short(e), input="import paconvert.converter")
        return chk.finish("other")
    level = "exploration"
    for c in json.load(open(os.path.join(common.VERIF, "MANIFEST.json")))["checks"]:
        if c["property"] == pid:
            level = c["level"]
    if not os.environ.get("VERIF_NOPROOF"):
        try:
            from pyvc import contracts
        except ImportError:
            contracts = None
        if contracts:
            contracts.prove(pid, chk)
            from pyvc import rulevc

            rulevc.prove(pid, chk)
    if not os.environ.get("VERIF_NOBOUNDED"):
        m = importlib.import_module(mod)
        getattr(m, fn)(chk)
    bad = [o for o in chk.obligations if o["status"] in ("refuted", "failed")]
    if bad and not chk.violations and not os.environ.get("VERIF_NOBOUNDED"):
        escalate(pid, chk, bad)
    return chk.finish(level)


def escalate(pid, chk, bad):
    """An obligation failed and the bounded check found no failing input: search deeper for
    one on the real code; report the failed obligation either way."""
    import subprocess

    d = os.path.join(common.scratch(), "escalate")
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, VERIF_NOPROOF="1", VERIF_EVID=d, VERIF_TIER="thorough")
    rp = os.path.join(d, pid + ".replay.json")
    for seed in (common.SEED + 1000,):
        env["VERIF_SEED"] = str(seed)
        try:
            subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__), pid, "thorough"], env=env, timeout=400, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            pass
        if os.path.exists(rp):
            for v in json.load(open(rp))["all"]:
                v["failed_obligations"] = [o["name"] for o in bad]
                what = v.pop("what")
                hi = v.pop("has_input", True)
                chk.violation(what, replay=hi, **v)
            if chk.violations:
                return
    for o in bad:
        chk.violation(
            "obligation not discharged: %s (%s)" % (o["name"], o["status"]),
            replay=False,
            obligation=o["name"],
            function=o["function"],
            verifier_output=dict(status=o["status"], why=o["why"], model=o["model"], decoded=o["info"], backend=o["backend"]),
        )


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
