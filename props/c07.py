"""C07: arguments are bound to the parameters Python would bind them to."""
import ast
import logging

from vlib import gen
from vlib.bounded import Case, run_cases
from vlib.common import Violation, rng, THOROUGH, tb_short

PAR = ["input", "dim", "other", "out", "dtype", "device", "a1", "keepdim", "generator", "layout", "n", "size"]


class FakeTransformer:
    file_name = "f.py"
    file = "f.py"
    mode = "default"


def matcher(entry):
    from paconvert.base import BaseMatcher

    lg = logging.getLogger("c07")
    lg.disabled = True
    return BaseMatcher(FakeTransformer(), "torch.f", "torch.f", entry, lg)


def entry_of(r):
    ps = r.sample(PAR, r.randrange(0, 9))
    al = list(ps)
    if r.random() < 0.5:
        al.insert(r.randrange(0, len(al) + 1), "*")
    en = {"Matcher": "GenericMatcher", "paddle_api": "paddle.f"}
    if al or r.random() < 0.7:
        en["args_list"] = al
    pos = al[: al.index("*")] if "*" in al else al
    if r.random() < 0.7:
        en["min_input_args"] = r.randrange(0, len(pos) + 1)
    if r.random() < 0.5:
        en["unsupport_args"] = r.sample(PAR, r.randrange(0, 4))
    if r.random() < 0.3:
        en["overload_args_list"] = r.sample(PAR, r.randrange(0, 3))
    return en


def call_of(r, en):
    al = [a for a in en.get("args_list", []) if a != "*"]
    pos, kwo, over = gen.params(en)
    npos = r.randrange(0, min(len(pos), 6) + 1 + (r.random() < 0.15))
    args = [simple(r) for _ in range(npos)]
    if r.random() < 0.06 and args:
        args[r.randrange(len(args))] = "*z"
    rest = [a for a in pos[npos:] + kwo + over + (en.get("unsupport_args") or [])]
    rest = [a for a in dict.fromkeys(rest) if a not in pos[:npos]]
    kws = [a for a in rest if r.random() < 0.5]
    if r.random() < 0.12:
        kws.append(r.choice(["zzz", "yyy"]))
    r.shuffle(kws)
    parts = args + ["%s=%s" % (k, "None" if r.random() < 0.3 else simple(r)) for k in kws]
    if r.random() < 0.06:
        parts.append("**kw")
    return "f(%s)" % ", ".join(parts)


def simple(r):
    if r.random() < 0.12:
        return gen.exotic(r)
    return r.choice(["x", "y.z", "1", "-2", "'s'", "None", "(a + b)", "[1, 2]", "g(x, k=1)", "x[0]", "not q", "(lambda t: t)", "(1, 2)", "a if b else c", "1.5", "{'k': v}", "'None'", "x is None", "a[1:2, ::3]", "...", "True", "False", "0", "0.0", "''", "()", "[]", "b''", "x   [ 0 ]", "'a   b'"])


def norm(text):
    return ast.dump(ast.parse("(" + text.strip() + "\n)", mode="eval").body)


def same_expr(text, node):
    try:
        return norm(text) == ast.dump(node)
    except SyntaxError:
        return False


def expected(en, call):
    """(set of admissible outcomes, binding)."""
    pos, kwo, over = gen.params(en)
    al = [a for a in (en.get("args_list") or []) if a != "*"]
    uns = en.get("unsupport_args") or []
    outs = set()
    kept = []
    for a in call.args:
        if isinstance(a, ast.Starred):
            outs.add("none")
    for k in call.keywords:
        if k.arg is None:
            outs.add("none")
        elif k.arg in uns:
            if isinstance(k.value, ast.Constant) and k.value.value is None:
                continue
            outs.add("none")
        elif k.arg not in al and k.arg not in over:
            outs.add("misidentify")
        else:
            kept.append(k)
    cap = len(call.args) + sum(1 for k in kept if k.arg not in kwo)
    if outs:
        # a call with several faults may be rejected for any of them
        ncap = len(call.args) + sum(1 for k in call.keywords if k.arg not in kwo)
        if ncap > len(pos) or cap < (en.get("min_input_args") or 0):
            outs.add("misidentify")
        return outs, None
    if cap < (en.get("min_input_args") or 0) or cap > len(pos):
        outs.add("misidentify")
    bind = {}
    for p, a in zip(pos, call.args):
        if p in uns:
            outs.add("none")
        bind[p] = a
    for k in kept:
        bind[k.arg] = k.value
    if outs:
        return outs, None
    return {"ok"}, bind


def case(i):
    r = rng("c07", i)
    en = entry_of(r)
    src = call_of(r, en)
    try:
        call = ast.parse(src).body[0].value
    except SyntaxError:
        return None
    return judge(en, src, call, i)


def judge(en, src, call, key):
    import copy

    m = matcher(copy.deepcopy(en))
    if not hasattr(m, "parse_args_and_kwargs"):
        return None
    before = ast.dump(call)
    na, nk = list(call.args), list(call.keywords)
    ins = "table entry %r\ncall %s" % (en, src)
    try:
        got = m.parse_args_and_kwargs(call.args, call.keywords)
    except Exception as e:
        raise Violation("binding fails: " + tb_short(e), input=ins)
    if ast.dump(call) != before or call.args != na or call.keywords != nk:
        raise Violation("the analysed call was modified: now %s" % ast.unparse(call), input=ins)
    if m.api_mapping_dict != en:
        raise Violation("the table entry was modified: %r" % m.api_mapping_dict, input=ins)
    outs, bind = expected(en, call)
    kind = "none" if got is None else "misidentify" if got == "misidentify" else "ok"
    if kind not in outs:
        raise Violation("outcome %s (%r), expected %s" % (kind, got, sorted(outs)), input=ins)
    if kind == "ok":
        if set(got) != set(bind):
            raise Violation("bound parameters %s, expected %s" % (sorted(map(str, got)), sorted(bind)), input=ins)
        for k, v in got.items():
            if not same_expr(v, bind[k]):
                raise Violation("%s bound to %r, expected %s" % (k, v, ast.unparse(bind[k])), input=ins)
    # the raw argument lists
    if hasattr(m, "parse_args") and hasattr(m, "parse_kwargs"):
        a = m.parse_args([x for x in call.args if not isinstance(x, ast.Starred)])
        plain = [x for x in call.args if not isinstance(x, ast.Starred)]
        if len(a) != len(plain) or not all(same_expr(t, n) for t, n in zip(a, plain)):
            raise Violation("parse_args gives %r" % (a,), input=ins)
        for allow in (False, True):
            k = m.parse_kwargs(call.keywords, allow_none=allow)
            reject = any(q.arg in (en.get("unsupport_args") or []) for q in call.keywords if q.arg) or (not allow and any(q.arg is None for q in call.keywords))
            if (k is None) != reject:
                raise Violation("parse_kwargs(allow_none=%s) gives %r" % (allow, k), input=ins)
            if k is not None and (list(k) != [q.arg for q in call.keywords] or not all(same_expr(k[q.arg], q.value) for q in call.keywords)):
                raise Violation("parse_kwargs gives %r" % (k,), input=ins)
        if ast.dump(call) != before:
            raise Violation("the analysed call was modified", input=ins)
    return Case((repr(en), src), bool(call.args or call.keywords), sample=ins[:300])


def table_case(api):
    """Real table entries with random calls."""
    T = gen.tables()
    en = T.api.get(api) or T.attr.get(api)
    if not all(a.isidentifier() or a == "*" for a in en.get("args_list") or []):
        return None
    n = 0
    r = rng("c07t", api)
    for _ in range(6 if not THOROUGH else 60):
        src = call_of(r, en)
        try:
            call = ast.parse(src).body[0].value
        except SyntaxError:
            continue
        judge(en, src, call, api)
        n += 1
    return Case(api, True, n=n)


def bounded(chk):
    n = 200000 if THOROUGH else 25000
    run_cases(chk, "random parameter tables and calls", case, range(n),
              "tables of 0-8 parameters with keyword-only, unsupported and overload parameters; calls with up to 7 positional arguments and any keywords, *, **, None values; non-trivial: at least one argument",
              "%d (table, call) pairs, at most 8 parameters" % n)
    T = gen.tables()
    apis = sorted(a for a in set(T.api) | set(T.attr) if (T.api.get(a) or T.attr.get(a) or {}).get("args_list"))
    run_cases(chk, "real table entries", table_case, apis, "every entry with a parameter list, six random calls each; each entry counts once", "%d entries" % len(apis))
