"""Derives contracts/c16_rules.json from the current tree (run by hand, then
reviewed; the checks only read the file)."""
import ast, collections, json, os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import warnings

warnings.simplefilter("ignore")
from vlib import common, explore
from pyvc import rulevc
from props import c16
import paconvert.converter  # noqa


def work(api):
    lost, kept, roles, vroles = collections.Counter(), collections.Counter(), collections.defaultdict(set), collections.defaultdict(set)
    for seed in range(2):
        ex = explore.Explorer(api, common.rng("gen", seed, api))
        for res, used, vals in ex.runs(1500, 400, 2):
            if res.status != "converted":
                continue
            mk = all(vals[p] == "A_" + p for p in used)
            one = sum(vals[p] != "A_" + p for p in used) == 1
            subs = {ast.dump(n) for n in ast.walk(res.tree)}
            for p in used:
                if "A_" + p not in vals[p] or "cuda_A_" + p in vals[p]:
                    continue
                if ast.dump(ast.parse(vals[p], mode="eval").body) in subs:
                    kept[p] += 1
                    if mk:
                        roles[p].add(tuple(sorted(c16.roles(res.tree, "A_" + p))))
                    if mk or one and vals[p] == "A_" + p:
                        vroles[p] |= c16.roles(res.tree, "A_" + p)
                else:
                    lost[p] += 1
            if mk and "RECV." in res.src:
                roles["RECV"].add(tuple(sorted(c16.roles(res.tree, "RECV"))))
            if (mk or one) and "RECV." in res.src:
                vroles["RECV"] |= c16.roles(res.tree, "RECV")
    en = explore.entry(api)
    try:
        # all paths, all texts
        exact = rulevc.collect(api, en)
    except rulevc.Unsupported:
        exact = None
    d = {}
    drop = sorted(p for p in lost if p not in ("pretrained", "output_size"))
    if drop:
        d["drop"] = drop
        d["_kept_sometimes"] = {p: [lost[p], kept[p]] for p in drop if kept[p]}
    d["roles"] = {p: sorted(r) for p, r in sorted(roles.items())}
    d["vroles"] = {p: sorted(r) for p, r in sorted(vroles.items())}
    if exact:
        d["roles"], d["vroles"] = exact
        d["exact"] = True
    if api == "setuptools.setup":
        # the build command of torch, which the Paddle setup brings itself
        d["drop"] = ["cmdclass"]
    if api == "os.environ.get":
        # the default of a variable the converted call does not read
        d["drop"] = ["value"]
    return api, d


if __name__ == "__main__":
    tab = dict(common.pmap(work, c16.hand_written(), chunk=1))
    out = os.path.join(common.VERIF, "contracts", "c16_rules.json")
    for a, d in tab.items():
        if d.get("_kept_sometimes"):
            print(a, d.pop("_kept_sometimes"))
        d.pop("_kept_sometimes", None)
    json.dump(tab, open(out, "w"), indent=1, sort_keys=True)
