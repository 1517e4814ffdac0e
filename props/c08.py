"""C08: table-driven conversions keep every argument and rename it as tabled.

The oracle is a spec function of (table entry, call): the statements the
conversion has to give, written from the property and the documented forms."""
import ast
import itertools
import re

from vlib import gen, rules
from vlib.bounded import Case, run_cases
from vlib.common import Violation, rng, THOROUGH

RULES = ("GenericMatcher", "ChangePrefixMatcher", "ChangeAPIMatcher")
NO_COUNTERPART = {
    "GenericMatcher": ["layout", "device", "memory_format", "inplace", "generator", "non_blocking", "async"],
    "ChangePrefixMatcher": ["layout", "generator", "memory_format", "sparse_grad", "foreach"],
    "ChangeAPIMatcher": ["layout", "generator", "memory_format"],
}
CLASSES = re.compile(
    r"paddle\.(Tensor|nn\.Module|optimizer\.Optimizer|optim\.Optimizer|distribution\.Distribution"
    r"|distributions\.distribution\.Distribution|autograd\.function\.FunctionCtx|profiler\.Profiler)\."
)
PREFIX = {
    "torchaudio": "paddlespeech", "transformers": "paddleformers",
}


def E(s):
    return ast.parse(s, mode="eval").body


def prefix_api(api):
    pk, rest = api.split(".", 1)
    return "%s.%s" % (PREFIX.get(pk, "paddle"), rest)


def target(api, en, recv):
    """The text of the function the generated call has to use."""
    meth = gen.class_method_of(api)
    t = prefix_api(api) if en["Matcher"] == "ChangePrefixMatcher" else en["paddle_api"]
    if meth and recv is not None:
        if CLASSES.match(t):
            t = recv + "." + CLASSES.sub("", t, 1)
        elif en["Matcher"] == "ChangePrefixMatcher":
            t = recv + "." + meth
    return t


def bind(en, pos, kws):
    p, kwo, over = gen.params(en)
    b = dict(zip(p, pos))
    b.update(kws)
    return b


def spec(api, en, pos, kws, recv):
    """(list of expected statements with the converted call as the last
    expression); keywords compared as sets."""
    m = en["Matcher"]
    tgt = target(api, en, recv)
    drop = NO_COUNTERPART[m]
    if m != "GenericMatcher":
        args = list(pos)
        kw = [(k, v) for k, v in kws if k not in drop]
        return None, "%s(%s)" % (tgt, ", ".join(args + [("%s=%s" % kv if kv[0] else "**" + kv[1]) for kv in kw]))
    b = bind(en, pos, kws)
    uns = en.get("unsupport_args") or []
    for k in uns:
        b.pop(k, None)
    kc = en.get("kwargs_change") or {}
    new = {}
    for k, v in b.items():
        if k in kc:
            t = kc[k]
            for q in ([] if not t else t if isinstance(t, list) else [t]):
                new[q] = v
        elif k not in drop:
            new[k] = v
    for k, v in (en.get("paddle_default_kwargs") or {}).items():
        new.setdefault(k, str(v))
    vals = []
    for t in kc.values():
        vals += t if isinstance(t, list) else [t]
    sp = {}
    for k in ("dtype", "pin_memory", "requires_grad", "out"):
        if k in new and k not in [t for t in kc.values()]:
            sp[k] = new.pop(k)
    code = "%s(%s)" % (tgt, ", ".join("%s=%s" % kv for kv in new.items()))
    if sp.get("dtype", "None") != "None":
        code += ".astype(%s)" % sp["dtype"]
    if sp.get("pin_memory", "False") != "False":
        code += ".pin_memory()"
    out = sp.get("out", "None")
    rg = sp.get("requires_grad")
    if rg is None:
        return None, code if out == "None" else "paddle.assign(%s, output=%s)" % (code, out)
    if out != "None":
        return "paddle.assign(%s, output=%s)\n(%s).stop_gradient = not (%s)\n" % (code, out, out, rg), out
    return "OUT = %s\nOUT.stop_gradient = not (%s)\n" % (code, rg), "OUT"


def canon(node):
    """dump with keywords in a fixed order and generated names replaced."""

    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            kws = []
            for k in n.keywords:
                if k.arg is None and isinstance(k.value, ast.Dict) and all(q is None for q in k.value.keys):
                    kws += [ast.keyword(arg=None, value=v) for v in k.value.values]
                else:
                    kws.append(k)
            n.keywords = kws
            n.keywords = sorted(n.keywords, key=lambda k: (k.arg or "", ast.dump(k.value)))
            return n

        def visit_Name(self, n):
            return ast.Name(id="OUT", ctx=n.ctx) if re.fullmatch(r"out_\d+", n.id) else n

    return ast.dump(T().visit(node))


def judge(api, en, pos, kws, recv, form, header=None):
    call = "%s(%s)" % (recv + "." + gen.class_method_of(api) if gen.class_method_of(api) else api,
                       ", ".join(list(pos) + [("%s=%s" % kv if kv[0] else "**" + kv[1]) for kv in kws]))
    pk = "torch" if gen.class_method_of(api) else api.split(".")[0]
    src = "import %s\n%s\n" % (pk, form.format(call))
    r = rules.run_src(src, record=False)
    if r.status == "error":
        raise Violation("%s: %s" % (api, r.error), program=src)
    if r.status != "converted":
        raise Violation("%s: reported as %s although the call is legal and the API is mapped" % (api, r.status), program=src)
    pre, last = spec(api, en, pos, kws, recv)
    exp = ast.parse((pre or "") + form.format(last)).body
    got = rules.body_after_imports(r.tree)
    tail = got[-len(exp):]
    lead = got[: -len(exp)]
    if [canon(n) for n in tail] != [canon(n) for n in exp] or not all(
        isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Expr, ast.Assign, ast.If)) for n in lead
    ):
        raise Violation(
            "%s: converted to\n%s\nbut the table asks for\n%s"
            % (api, "\n".join(map(ast.unparse, got)), "\n".join(map(ast.unparse, exp))),
            program=src,
        )
    if lead and not any(isinstance(n, (ast.FunctionDef, ast.ClassDef)) for n in lead):
        raise Violation("%s: unexpected statements in front of the call\n%s" % (api, "\n".join(map(ast.unparse, got))), program=src)
    return src


SPECIAL = {
    "dtype": ["None", "'int32'", "DT"],
    "pin_memory": ["False", "True"],
    "requires_grad": ["True", "False", "flag", "a or b", "a if b else c"],
    "out": ["None", "buf", "bufs[0]"],
}
EXTRA = ["layout", "generator", "memory_format", "sparse_grad", "foreach", "dtype", "device", "out", "requires_grad", "dim", "axis", "inplace", "async_op"]


def mk(r, p, rich):
    if p in SPECIAL and r.random() < 0.7:
        return r.choice(SPECIAL[p])
    return gen.expr(r) if rich and p != "out" and p != "dtype" else "A_" + p


def ok_expr(s):
    """texts that astor prints back faithfully and that name no torch API"""
    return True


def shapes(r, en, n):
    """argument lists of a table entry with a parameter list: every
    combination when there are few, otherwise sampled"""
    pos, kwo, over = gen.params(en)
    uns = set(en.get("unsupport_args") or [])
    mn = en.get("min_input_args") or 0
    seen = set()
    out = []
    groups = _exclusive(en)
    usable = []
    for p in pos:
        if p in uns:
            break
        usable.append(p)
    allk = [p for p in pos + kwo if p not in uns] + over
    if len(allk) <= 6:
        cand = []
        for np in range(len(usable) + 1):
            rest = [p for p in allk if p not in pos[:np]]
            for k in range(1 << len(rest)):
                cand.append((np, tuple(p for i, p in enumerate(rest) if k >> i & 1)))
        r.shuffle(cand)
    else:
        cand = []
        for _ in range(n * 3):
            np = r.randrange(len(usable) + 1)
            rest = [p for p in allk if p not in pos[:np]]
            q = r.choice([0.1, 0.3, 0.6, 1.0])
            cand.append((np, tuple(p for p in rest if r.random() < q)))
    for np, ks in cand:
        cap = np + sum(1 for k in ks if k not in kwo)
        if cap < mn or cap > len(pos) or (np, ks) in seen:
            continue
        req = [p for p in pos[:mn]]
        have = set(pos[:np]) | set(ks)
        if not set(req) <= have and not over:
            continue
        if any(len(g & have) > 1 for g in groups):
            continue
        seen.add((np, ks))
        out.append((np, ks))
        if len(out) >= n:
            break
    return out


def _exclusive(en):
    kc = en.get("kwargs_change") or {}
    g = {}
    for p, t in kc.items():
        for q in t if isinstance(t, list) else [t]:
            if q:
                g.setdefault(q, set()).add(p)
    return [s for s in g.values() if len(s) > 1]


RECV_ALL = ["x", "self.w", "x[0]", "(a + b)", "f(x)", "t['a.b']", "(-x)", "x[i, :2]"]


def case(item):
    api, thorough = item
    T = gen.tables()
    en = T.api[api]
    r = rng("c08", api)
    pos, kwo, over = gen.params(en)
    n = 0
    sample = None
    RECVS = RECV_ALL if api.startswith("torch.Tensor.") else ["x", "x[0]", "f(x)"]
    if en["Matcher"] == "GenericMatcher":
        sh = shapes(r, en, 400 if thorough else 60)
        for i, (np, ks) in enumerate(sh):
            rich = i % 3 == 2
            args = [mk(r, p, rich) for p in pos[:np]]
            kl = list(ks)
            r.shuffle(kl)
            kws = [(k, mk(r, k, rich)) for k in kl]
            sample = judge(api, en, args, kws, "x" if i == 0 else r.choice(RECVS), r.choice(["res = {}", "{}", "res = g({})", "return_ = [{}]"]))
            n += 1
    else:
        for i in range(120 if thorough else 16):
            args = [gen.expr(r) if i % 2 else "A_%d" % k for k in range(r.randrange(4))]
            if r.random() < 0.2:
                args.insert(r.randrange(len(args) + 1), "*st")
            names = r.sample(EXTRA + ["p%d" % q for q in range(6)], r.randrange(5))
            kws = [(k, gen.expr(r) if i % 2 else "A_" + k) for k in names]
            for nm in r.choice([(), (), ("dd",), ("dd", "ee")]):
                kws.insert(r.randrange(len(kws) + 1), (None, nm))
            uns = en.get("unsupport_args") or []
            kws = [kv for kv in kws if kv[0] not in uns]
            sample = judge(api, en, args, kws, "x" if i == 0 else r.choice(RECVS), r.choice(["res = {}", "{}", "res = g({})"]))
            n += 1
    return Case(api, True, sample=sample, n=n)


def attr_case(api):
    T = gen.tables()
    en = T.attr[api]
    n = 0
    for form in ("res = {}", "{}", "f({}, k={})"):
        meth = gen.class_method_of(api)
        if meth:
            continue
        src = "import %s\n%s\n" % (api.split(".")[0], form.format(api, api))
        r = rules.run_src(src, record=False)
        if r.status != "converted":
            raise Violation("%s: %s" % (api, r.error or r.status), program=src)
        t = prefix_api(api) if en["Matcher"] == "ChangePrefixMatcher" else en["paddle_api"]
        exp = ast.parse(form.format(t, t)).body
        got = rules.body_after_imports(r.tree)[-1:]
        if [canon(x) for x in got] != [canon(x) for x in exp]:
            raise Violation("%s: converted to %s, the table asks for %s" % (api, "\n".join(map(ast.unparse, got)), form.format(t, t)), program=src)
        n += 1
    return Case(api, True, n=n) if n else None


def candidates():
    T = gen.tables()
    apis = []
    for k, v in T.api.items():
        if v.get("Matcher") not in RULES or not all(p.isidentifier() for p in k.split(".")):
            continue
        if not all(a.isidentifier() or a == "*" for a in v.get("args_list") or []):
            continue
        if k.startswith("torch.torch."):
            continue  # the table spells a redundant package: two ways to read "the prefix"
        m = gen.class_method_of(k)
        if m and any(c + m in T.api for c in gen.CLASS_PREFIX if c + m != k):
            continue  # a method of several classes: which one is meant is not decided by the text
        apis.append(k)
    return sorted(apis)


def bounded(chk):
    apis = candidates()
    run_cases(chk, "every API of the table-driven rules", case, [(a, THOROUGH) for a in apis],
              "each API with argument subsets, positional prefixes, orders, receivers, special values and random expressions; an API counts once",
              "%d APIs, %d argument lists each at most" % (len(apis), 400 if THOROUGH else 60), budget=600 if THOROUGH else 60)
    T = gen.tables()
    at = sorted(k for k, v in T.attr.items() if v.get("Matcher") in RULES and all(p.isidentifier() for p in k.split(".")))
    run_cases(chk, "every attribute of the table-driven rules", attr_case, at, "each attribute in three contexts", "%d attributes" % len(at))
