"""Driver of the bounded (sampled or enumerated) parts."""
import os
import time

from .common import Violation, pmap, tb_short, THOROUGH


class Case:
    """What one evaluation returns: key identifies the input (distinctness),
    nontrivial says whether it exercises the property."""

    def __init__(self, key, nontrivial=True, sample=None, n=1):
        self.key, self.nontrivial, self.sample, self.n = key, nontrivial, sample, n


def _batch(job):
    fn, idx, deadline = job
    keys, ev, samples, viols, harness = set(), 0, [], [], []
    for i in idx:
        if time.time() > deadline:
            break
        try:
            c = fn(i)
        except Violation as v:
            d = dict(v.detail)
            viols.append(dict(what=v.what, has_input=True, **d))
            ev += 1
            if len(viols) >= 3:
                break
            continue
        except Exception as e:  # an error of the harness itself
            harness.append(tb_short(e))
            if len(harness) > 5:
                break
            continue
        if c is None:
            continue
        ev += c.n
        if c.nontrivial:
            keys.add(hash(c.key))
            if c.sample is not None and len(samples) < 1:
                samples.append(c.sample)
    return ev, keys, samples, viols, harness


def run_cases(chk, name, fn, items, rule, bound, budget=None, procs=None):
    """Evaluate fn over items in parallel; violations go to chk."""
    items = list(items)
    budget = budget or (600 if THOROUGH else 40)
    deadline = time.time() + budget
    procs = procs or min(8, os.cpu_count() or 1)
    nb = max(1, min(len(items), procs * 6))
    batches = [(fn, items[k::nb], deadline) for k in range(nb)]
    res = pmap(_batch, batches, chunk=1)
    keys, ev, samples, viols, harness = set(), 0, [], [], []
    for e, k, s, v, h in res:
        ev += e
        keys |= k
        samples += s
        viols += v
        harness += h
    chk.absorb(viols)
    chk.add_bounded(name, ev, len(keys), rule, samples[:3], bound=bound, requested=len(items))
    if harness:
        chk.notes.append("%s: harness could not evaluate %d cases, e.g. %s" % (name, len(harness), harness[0]))
        if os.environ.get("VERIF_DEBUG"):
            print("HARNESS", name, harness[:3])
    return ev
