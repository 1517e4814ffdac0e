"""Exploration of one conversion rule: argument subsets, call shapes and the
argument values the rule itself distinguishes (found by recording its
comparisons)."""
import ast
import itertools
import re

from . import gen, rules

FORMS = ["res = {}", "{}"]
# parameters that a legal call has to pass although min_input_args does not say so
REQUIRED = {
    "fairscale.nn.model_parallel.layers.ParallelEmbedding": ["num_embeddings", "embedding_dim"],
    "flash_attn.flash_attn_interface.flash_attn_unpadded_func": ["q", "k", "v", "cu_seqlens_q", "cu_seqlens_k", "max_seqlen_q", "max_seqlen_k"],
    "torch.can_cast": ["from_", "to"],
    "torch.frombuffer": ["buffer", "dtype"],
    "torch.jit.save": ["m", "f"],
    "torch.onnx.export": ["model", "f"],
    "torch.signal.windows.general_cosine": ["M", "a"],
    "torch.svd": ["input"],
    "torchvision.io.decode_jpeg": ["input"],
    "torch.testing.make_tensor": ["dtype", "device"],
}
# signatures of mapped APIs without an argument list in the table
EXTRA = {
    "torch.hub.load": (["repo_or_dir", "model"], ["source", "trust_repo", "force_reload", "verbose", "skip_validation", "other_kw"]),
    "torch.utils.checkpoint.checkpoint": (["function", "arg0", "arg1"], ["use_reentrant", "preserve_rng_state", "context_fn", "determinism_check", "debug", "other_kw"]),
}
# alternatives of which one has to be complete
NEED = {"torch.optim.lr_scheduler.OneCycleLR": [{"total_steps"}, {"epochs", "steps_per_epoch"}]}


def pool(p):
    m = "A_" + p
    return [m, "(%s + 1)" % m, "[%s, 2]" % m, "(%s, 2)" % m, "-%s" % m, "fn(%s)" % m, m + ".b", m + "[0]", "'%s'" % m,
            "2", "-1", "None", "True", "False", "(not %s)" % m, "(%s if c else d)" % m, "(lambda q: %s)" % m, "f'{%s}'" % m, "{'k': %s}" % m,
            "(%s and %s)" % (m, m), "'a' 'b'", "1.5", "(%s,)" % m, "[]", "()", "0", "1", "('cuda:0' if cuda_%s else 'cpu')" % m, "'%s None True'" % m]


def entry(api):
    T = gen.tables()
    return T.api.get(api)


def signature(api, required=None):
    """(positional, keyword-only, varargs name, allows any keyword, required)"""
    en = entry(api)
    al = en.get("args_list") or []
    pos, kwo, va, vk, cur = [], [], None, False, 0
    for a in al:
        if a == "*":
            cur = 1
        elif a.startswith("**"):
            vk = True
        elif a.startswith("*"):
            va = a[1:]
            if va not in ("args",):
                pos += [va + "0", va + "1"]
            cur = 1
        else:
            (pos, kwo)[cur].append(a)
    if api in EXTRA and not al:
        pos, kwo = [list(q) for q in EXTRA[api]]
    mn = en.get("min_input_args") or 0
    req = set(pos[:mn])
    if required:
        req |= set(required)
    if va and va + "0" in pos:
        req |= {va + "0"}
    return pos, kwo, va, vk, req


def shapes(api, r, n, required=None):
    """legal call shapes: (number of positional arguments, keyword names)"""
    en = entry(api)
    pos, kwo, va, vk, req = signature(api, required)
    uns = set(en.get("unsupport_args") or [])
    over = list(en.get("overload_args_list") or [])
    allk = pos + kwo + over
    cand = []
    if len(allk) <= 7:
        for np in range(len(pos) + 1):
            rest = [p for p in allk if p not in pos[:np]]
            for k in range(1 << len(rest)):
                cand.append((np, tuple(p for i, p in enumerate(rest) if k >> i & 1)))
        r.shuffle(cand)
    else:
        cand = [(0, tuple(allk)), (0, tuple(req)), (len(pos), ()), (len(pos), tuple(kwo))]
        for p in allk:
            cand.append((0, tuple(k for k in allk if k in req or k == p)))
            cand.append((0, tuple(k for k in allk if k != p)))
        for _ in range(n * 4):
            np = r.randrange(len(pos) + 1)
            rest = [p for p in allk if p not in pos[:np]]
            q = r.choice([0.1, 0.3, 0.6, 1.0])
            cand.append((np, tuple(p for p in rest if p in req or r.random() < q)))
    out, seen = [], set()
    for np, ks in cand:
        have = set(pos[:np]) | set(ks)
        if not req <= have or (np, ks) in seen:
            continue
        if va and (va + "0" in ks or va + "1" in ks):
            continue
        if api in NEED and not any(alt <= have for alt in NEED[api]):
            continue
        cap = np + sum(1 for k in ks if k not in kwo)
        if cap > len(pos) and pos:
            continue
        seen.add((np, ks))
        out.append((np, ks))
        if len(out) >= n:
            break
    return out


def literal_sources(op, lit, p):
    """source texts whose printed form relates to the literal a rule compares with"""
    m = "A_" + p
    c = []
    t = lit.strip()
    c.append(t)
    if op == "startswith":
        c += [t + m + x for x in ("", ")", "]", "'", ", 1)", ", 1]")]
    if op == "endswith":
        c += [x + m + t for x in ("", "(", "[", "'")]
    if op == "in":
        c += ["'%s'" % t, "%s.%s" % (m, t), "fn(%s)" % t, t + m, m + t + m]
    res = []
    for x in c:
        try:
            e = ast.parse(x, mode="eval").body
        except (SyntaxError, ValueError):
            continue
        res.append(ast.unparse(e) if isinstance(e, ast.Constant) else "(" + x + ")" if not x.startswith(("(", "[", "'", '"')) and not x.isidentifier() else x)
    return res


def strip(t):
    return re.sub(r"\s+", "", t).strip("()")


class Explorer:
    """Runs of one API; `visit(run)` is called for each."""

    def __init__(self, api, r, required=None, mode="default"):
        self.api, self.r, self.mode = api, r, mode
        self.required = required or REQUIRED.get(api)
        self.values = {}
        self.found = set()

    def one(self, np, ks, vals, form):
        pos = signature(self.api)[0]
        if self.api in NEED:
            for p in vals:
                if "None" in vals[p]:
                    vals[p] = "A_" + p
        args = [vals[p] for p in pos[:np]]
        kws = [(k, vals[k]) for k in ks]
        r = rules.run(self.api, args, kws, form=form, mode=self.mode)
        used = pos[:np] + list(ks)
        txt = {strip(vals[p]): p for p in used}
        for text, op, lit in r.log:
            p = txt.get(strip(text))
            if p is None:
                continue
            for s in literal_sources(op, lit, p):
                if (p, s) not in self.found and len(self.found) < 400:
                    self.found.add((p, s))
                    self.values.setdefault(p, []).append(s)
        return r, used

    def runs(self, nshapes, nvals, each=3):
        r = self.r
        sh = shapes(self.api, r, nshapes, self.required)
        # 1. every shape with markers
        for i, (np, ks) in enumerate(sh):
            ks = list(ks)
            if i % 2:
                r.shuffle(ks)
            pos = signature(self.api)[0]
            vals = {p: "A_" + p for p in pos[:np] + ks}
            res, used = self.one(np, ks, vals, FORMS[i % 2])
            yield res, used, vals
        if not sh:
            return
        # 2. each value of each parameter, the values found so far included
        done = set()
        work = True
        while work and nvals > 0:
            work = False
            for p in list(dict.fromkeys(q for np, ks in sh for q in signature(self.api)[0][:np] + list(ks))):
                with_p = [(np, ks) for np, ks in sh if p in ks or p in signature(self.api)[0][:np]]
                for v in pool(p) + self.values.get(p, []):
                    if (p, v) in done:
                        continue
                    done.add((p, v))
                    work = True
                    # the call with the most arguments, and some others
                    big = max(with_p, key=lambda q: (q[0] + len(q[1]), r.random()))
                    for np, ks in [big] + r.sample(with_p, min(each, len(with_p))):
                        used = signature(self.api)[0][:np] + list(ks)
                        vals = {q: "A_" + q for q in used}
                        vals[p] = v
                        nvals -= 1
                        res, used = self.one(np, ks, vals, r.choice(FORMS))
                        yield res, used, vals
        # 3. combinations
        for _ in range(max(0, nvals)):
            np, ks = r.choice(sh)
            used = signature(self.api)[0][:np] + list(ks)
            vals = {}
            for q in used:
                c = r.random()
                if c < 0.4:
                    vals[q] = "A_" + q
                elif c < 0.7 and self.values.get(q):
                    vals[q] = r.choice(self.values[q])
                else:
                    vals[q] = r.choice(pool(q))
            res, used = self.one(np, ks, vals, r.choice(FORMS))
            yield res, used, vals
