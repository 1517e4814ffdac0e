"""C16: every mapped call converts to well-formed code that keeps its arguments.

contracts/c16_rules.json is the contract table of the hand-written rules:
which parameters have no Paddle counterpart, and in which places of the
generated code the argument of each parameter is used."""
import ast
import builtins
import json
import os
import re

from vlib import explore, gen, rules
from vlib.bounded import Case, run_cases
from vlib.common import VERIF, Violation, rng, THOROUGH

RULES = ("GenericMatcher", "ChangePrefixMatcher", "ChangeAPIMatcher")


def hand_written():
    T = gen.tables()
    return sorted(k for k, v in T.api.items() if v.get("Matcher") and v["Matcher"] not in RULES)


_C = None


def contract_table():
    global _C
    if _C is None:
        with open(os.path.join(VERIF, "contracts", "c16_rules.json")) as f:
            _C = json.load(f)
    return _C


def undefined(tree, ok):
    """names used but defined nowhere"""
    d = set(ok) | set(dir(builtins)) | {"__file__"}
    used = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                d.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                used.add(n.id)
            else:
                d.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            d.add(n.name)
        elif isinstance(n, ast.arg):
            d.add(n.arg)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            d.add(n.name)
    return used - d


def norm_name(t):
    return re.sub(r"_\d+\b", "_N", t)


def dotted(n):
    if isinstance(n, ast.Name):
        return norm_name(n.id)
    if isinstance(n, ast.Attribute):
        d = dotted(n.value)
        return None if d is None else d + "." + n.attr
    return None


def roles(tree, marker):
    """the places a marker is used, each with all that is done with it: the
    operators, calls and assignments around it, innermost last"""
    out = set()
    has = {}

    def inside(n):
        k = id(n)
        if k not in has:
            has[k] = isinstance(n, ast.Name) and n.id == marker or any(inside(c) for c in ast.iter_child_nodes(n))
        return has[k]

    def walk(n, ctx):
        if not inside(n):
            return
        if isinstance(n, ast.Name):
            out.add("/".join(ctx))
        elif isinstance(n, ast.Call):
            fn = dotted(n.func) if not inside(n.func) else None
            if fn is None:
                fn = norm_name(n.func.attr if isinstance(n.func, ast.Attribute) else type(n.func).__name__)
                walk(n.func.value if isinstance(n.func, ast.Attribute) else n.func, ctx + ["receiver of " + fn])
            for i, a in enumerate(n.args):
                walk(a, ctx + ["%s:%s" % (fn, i if not contains_star(n.args) else "*")])
            for k in n.keywords:
                walk(k.value, ctx + ["%s:%s" % (fn, k.arg)])
        elif isinstance(n, ast.Assign):
            t = n.targets[0]
            if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                for x, v in zip(t.elts, n.value.elts):
                    walk(v, ctx + [(dotted(x) or "?") + " ="])
            else:
                # `res = <call>` is the form of the statement of the program
                walk(n.value, ctx + ([] if dotted(t) == "res" else [(dotted(t) or "?") + " ="]))
                for t in n.targets:
                    walk(t, ctx + ["assigned"])
        elif isinstance(n, ast.BinOp):
            op = type(n.op).__name__
            same = op in ("Add", "Mult")
            walk(n.left, ctx + [op if same else op + " left"])
            walk(n.right, ctx + [op if same else op + " right"])
        elif isinstance(n, ast.UnaryOp):
            walk(n.operand, ctx + [type(n.op).__name__])
        elif isinstance(n, ast.Compare):
            walk(n.left, ctx + ["%s left" % type(n.ops[0]).__name__])
            for o, c in zip(n.ops, n.comparators):
                walk(c, ctx + ["%s right" % type(o).__name__])
        elif isinstance(n, ast.Attribute):
            walk(n.value, ctx + ["." + n.attr])
        elif isinstance(n, ast.Subscript):
            walk(n.value, ctx + ["[%s]" % (ast.unparse(n.slice) if not inside(n.slice) else "")])
            walk(n.slice, ctx + ["index"])
        elif isinstance(n, (ast.Tuple, ast.List)):
            for i, e in enumerate(n.elts):
                walk(e, ctx + ["%s %s" % (type(n).__name__, i if not contains_star(n.elts) else "*")])
        elif isinstance(n, (ast.Module, ast.Expr)):
            for c in ast.iter_child_nodes(n):
                walk(c, ctx)
        else:
            for field, v in ast.iter_fields(n):
                for c in v if isinstance(v, list) else [v]:
                    if isinstance(c, ast.AST):
                        walk(c, ctx + ["%s %s" % (type(n).__name__, field)])

    walk(tree, [])
    return out


def contains_star(args):
    return any(isinstance(a, ast.Starred) for a in args)


def droppable(api, p, used, tab):
    if p in tab.get(api, {}).get("drop", []):
        return True
    if p == "pretrained" and "weights" in used:
        return True
    if p == "output_size" and "output_ratio" in used:
        return True
    return False


def judge(api, res, used, vals, tab):
    if res.status == "error":
        raise Violation("%s: the conversion fails: %s" % (api, res.error), program=res.src)
    if res.status != "converted":
        return
    body = rules.body_after_imports(res.tree)
    if not body and "delete" not in tab.get(api, {}).get("drop", []):
        return
    und = undefined(res.tree, rules.names(ast.parse(res.src)))
    if und:
        raise Violation("%s: the generated code uses names that nothing defines: %s\n%s" % (api, sorted(und), res.out), program=res.src, key="%s undefined %s" % (api, sorted(und)))
    subs = None
    markers = all(vals[p] == "A_" + p for p in used)
    one = sum(vals[p] != "A_" + p for p in used) == 1
    for p in used:
        if "A_" + p not in vals[p]:
            continue
        if "cuda_A_" + p in vals[p]:
            # the text of the constants may be adapted, the rest may not
            if not droppable(api, p, used, tab) and "cuda_A_" + p not in rules.names(res.tree):
                raise Violation("%s: the name cuda_A_%s of the argument %s=%s does not occur in the converted code\n%s" % (api, p, p, vals[p], res.out), program=res.src)
            continue
        if subs is None:
            subs = {ast.dump(n) for n in ast.walk(res.tree)}
        if ast.dump(ast.parse(vals[p], mode="eval").body) not in subs:
            if not droppable(api, p, used, tab):
                raise Violation("%s: the argument %s=%s does not occur in the converted code\n%s" % (api, p, vals[p], res.out), program=res.src)
        elif markers or one and vals[p] == "A_" + p:
            check_roles(api, p, "A_" + p, "the argument of " + p, res, tab, vals if one else None)
    if (markers or one) and "RECV." in res.src:
        check_roles(api, "RECV", "RECV", "the object the method is called on", res, tab, vals if one else None)


def weak(path, text=None):
    """without what depends on the text of the other arguments"""
    if text is not None:
        path = path.replace(norm_name(text) + ".", "")
    return re.sub(r"\[.*?\](?=/|$)", "[]", re.sub(r"\bA_\w+\.", "", path))


def check_roles(api, p, marker, what, res, tab, vals):
    """With plain names as arguments the set of places is one of the recorded
    sets; with one argument of another form (vals) every place is a recorded
    one.  For rules whose paths are not all known only a place that was never
    seen counts."""
    m = gen.class_method_of(api)
    if m and any(c + m in gen.tables().api for c in gen.CLASS_PREFIX if c + m != api):
        return  # a method of several classes: another rule may have been at work
    en = tab.get(api, {})
    rec, known = en.get("roles", {}).get(p), en.get("vroles", {}).get(p)
    if rec is None or known is None:
        return
    got = sorted(roles(res.tree, marker))
    if not vals:
        ok = got in rec or not en.get("exact") and set(got) <= set(known)
    else:
        v = next(t for k, t in vals.items() if t != "A_" + k)
        last = 0 if en.get("exact") else -1
        ok = {"/".join(weak(t, v).split("/")[last:]) for t in got if not t.startswith("?")} <= {"/".join(weak(t).split("/")[last:]) for t in known}
    if not ok:
        raise Violation("%s: %s is used as %s, the contract of the rule allows %s\n%s" % (api, what, got, known if vals else rec, res.out), program=res.src)


def case(item):
    api, ns, nv = item
    tab = contract_table()
    ex = explore.Explorer(api, rng("c16", api))
    n = conv = 0
    sample = None
    keyed = None
    for res, used, vals in ex.runs(ns, nv, 3 if THOROUGH else 1):
        n += 1
        try:
            judge(api, res, used, vals, tab)
        except Violation as v:
            # possibly a known finding: look at the rest of the API first
            if not v.detail.get("key"):
                raise
            keyed = keyed or v
        if res.status == "converted":
            conv += 1
            sample = res.src
    if keyed:
        raise keyed
    return Case(api, conv > 0, sample=sample, n=n)


def bounded(chk):
    T = gen.tables()
    hw = [a for a in hand_written() if explore.entry(a) is not None]
    ns, nv = (4000, 3000) if THOROUGH else (300, 300)
    # the big ones first, so that the workers finish together
    hw.sort(key=lambda a: -len(T.api[a].get("args_list") or []))
    run_cases(chk, "hand-written rules", case, [(a, ns, nv) for a in hw],
              "every mapped API with a hand-written rule: subsets of its parameters, positional prefixes, values the rule compares with, 25 expression forms; an API counts once if some call of it is converted",
              "%d APIs, at most %d call shapes and %d value combinations each" % (len(hw), ns, nv), budget=480 if THOROUGH else 60)
