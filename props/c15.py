"""C15: min mode leaves prefix-only APIs exactly as written."""
import ast
import re

from vlib import gen
from vlib.bounded import Case, run_cases
from vlib.common import Violation, rng, THOROUGH
from vlib.conv import convert
from props.c10 import impset
from props.c14 import canon

DROPPED = ("layout", "generator", "memory_format", "sparse_grad", "foreach")
IDENT = re.compile(r"[A-Za-z_][\w.]*$")


class Pools:
    def __init__(self):
        T = gen.tables()
        ok = lambda v: v and "disable" not in v
        pre = lambda v: ok(v) and v.get("Matcher") == "ChangePrefixMatcher"
        self.call = sorted(k for k, v in T.api.items() if pre(v) and IDENT.match(k) and not gen.class_method_of(k))
        self.alias = sorted(a for a, k in T.alias.items() if pre(T.api.get(k)) and IDENT.match(a) and not gen.class_method_of(a) and not gen.class_method_of(k))
        self.attr = sorted(k for k, v in T.attr.items() if pre(v) and IDENT.match(k) and not gen.class_method_of(k))
        self.method = sorted(k for k, v in T.api.items() if pre(v) and gen.class_method_of(k))
        self.mattr = sorted(k for k, v in T.attr.items() if pre(v) and gen.class_method_of(k))
        self.other = sorted(k for k, v in T.api.items() if ok(v) and v.get("Matcher") in ("GenericMatcher", "ChangeAPIMatcher") and IDENT.match(k) and not gen.class_method_of(k) and k.startswith("torch."))
        self.rule = sorted(k for k, v in T.api.items() if ok(v) and v.get("Matcher") not in ("GenericMatcher", "ChangeAPIMatcher", "ChangePrefixMatcher") and IDENT.match(k) and not gen.class_method_of(k) and k.startswith("torch."))
        self.methods_of = {}
        for k in T.api:
            m = gen.class_method_of(k)
            if m:
                self.methods_of.setdefault(m, []).append(k)
        self.T = T


_P = None


def pools():
    global _P
    if _P is None:
        _P = Pools()
    return _P


STYLES = 6


def spell(api, style, k):
    """(import statement, spelling of the api)"""
    parts = api.split(".")
    pkg = parts[0]
    if style == 0 or len(parts) == 1:
        return "import " + pkg, api
    if style == 1:
        return "import %s as al%d" % (pkg, k), "al%d.%s" % (k, ".".join(parts[1:]))
    if style == 2 and len(parts) > 2:
        return "import %s as al%d" % (".".join(parts[:-1]), k), "al%d.%s" % (k, parts[-1])
    if style == 3 and len(parts) > 2:
        return "from %s import %s as al%d" % (".".join(parts[:-2]), parts[-2], k), "al%d.%s" % (k, parts[-1])
    if style == 4 and len(parts) > 2:
        return "import " + ".".join(parts[:-1]), api
    return "from %s import %s as nm%d" % (".".join(parts[:-1]), parts[-1], k), "nm%d" % k


def plain(r, depth=0):
    c = r.randrange(8)
    return [lambda: r.choice(["x", "y", "inp"]), lambda: str(r.randrange(9)), lambda: "'s'", lambda: "cfg.n", lambda: "(x + %d)" % r.randrange(5), lambda: "[1, x]", lambda: "fn(x, k=%d)" % r.randrange(4), lambda: "d['a b']"][c]()


def plain_self(r, depth=0):
    return "self" if r.random() < 0.3 else plain(r, depth)


def args_for(r, api, P, e=plain):
    ent = P.T.api.get(P.T.alias.get(api, api)) or {}
    if ent.get("args_list"):
        a = gen.legal_args(r, ent, e)
    else:
        a = ", ".join(e(r) for _ in range(r.randrange(3)))
    parts = [a] if a else []
    if r.random() < 0.35:
        for kw in r.sample(["dtype", "device", "requires_grad", "zq", "layout", "generator", "memory_format", "foreach", "out", "non_blocking", "inplace", "name", "dim", "axis", "async_op", "keepdim", "self_", "pin_memory", "copy", "sparse_grad", "input", "x", "alpha", "eps", "reduction", "size_average", "reduce"], r.choice([1, 1, 2, 2, 4, 5])):
            if not re.search(r"(^|[ ,(])%s=" % kw, a):
                parts.append("%s=%s" % (kw, e(r)))
    if r.random() < 0.06 and "=" not in a:
        parts.insert(1 if a else 0, "*z")
    if r.random() < 0.06:
        parts.append("**kw")
    return ", ".join(parts)


class Drop(ast.NodeTransformer):
    """Drops the listed keywords of the calls of prefix-only APIs (marked by
    the spelled names in `names`)."""

    def __init__(self, names, methods):
        self.names, self.methods = names, methods

    def visit_Call(self, n):
        self.generic_visit(n)
        f = ast.unparse(n.func)
        if f in self.names or (isinstance(n.func, ast.Attribute) and n.func.attr in self.methods):
            n.keywords = [k for k in n.keywords if k.arg not in DROPPED]
        return n


def prefix_use(r, P, k, names, methods, imports, depth=0):
    c = r.random()
    if c < 0.12 and P.method:
        api = r.choice(P.method)
        m = gen.class_method_of(api)
        if len(P.methods_of[m]) == 1 and m not in ("T", "data"):
            methods.add(m)
            return "x%s.%s(%s)" % (r.choice(["", "", "[0]", ".T"]), m, args_for(r, api, P, r.choice([plain, plain_self])))
        names.add(api)
        imports.append("import torch")
        return "%s(%s)" % (api, args_for(r, api, P))
    api = r.choice(P.call if c < 0.7 or not P.alias else P.alias)
    if c > 0.88 and P.attr:
        api = r.choice(P.attr)
        imp, sp = spell(api, r.randrange(5) if api.count(".") > 1 else r.randrange(2), "%d_%d" % (k, len(names)) if False else k * 10 + len(names) % 10)
        imports.append(imp)
        names.add(sp)
        return sp
    st = r.randrange(STYLES)
    imp, sp = spell(api, st, k * 10 + len(names) % 10)
    imports.append(imp)
    names.add(sp)
    if depth == 0 and r.random() < 0.15 and not sp.startswith("nm"):
        return sp
    e = plain
    if depth < 1 and r.random() < 0.3:
        return "%s(%s, %s)" % (sp, prefix_use(r, P, k, names, methods, imports, depth + 1), plain(r))
    return "%s(%s)" % (sp, args_for(r, api, P, e))


FORMS = [
    "v = %s", "print(%s)", "if x:\n    v = %s\nelse:\n    v = 2", "def f(a, b=3):\n    return %s", "for i in range(3):\n    w = %s", "v = (%s, 1)", "v = [%s for q in z]", "lam = lambda q: %s",
    "with %s as c:\n    pass", "class K:\n    a = %s", "v = -%s", "%s", "v = %s if x else y", "v = w[%s]", "assert %s, 'm'", "try:\n    v = %s\nexcept Exception:\n    pass", "v: int = %s", "return_ = {1: %s}",
    "v = %s[0]", "v = %s [1:2, x]", "v = (%s\n     , 1)", "v = {%s: 1}", "v = x == %s", "v = %s < y", "f(*%s)", "f(**%s)", "f(k=%s)", "del z[%s]", "while %s:\n    break", "v = not %s", "v = f'{x}' + %s", "v = 'a' + %s", "global q; q = %s",
    "def f(a=%s):\n    if a:\n        for i in a:\n            return i", "@deco(%s)\ndef f():\n    pass", "v = [1,\n     2, %s,\n     3]", "x[%s] = 1", "v += %s", "raise %s", "v = yy, %s, *zz",
]


def chunks(text):
    """Statements behind each marker m_<k> = <k>."""
    out, cur = {}, None
    for s in ast.parse(text).body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id.startswith("mark__"):
            cur = int(s.targets[0].id[6:])
            out[cur] = []
        elif cur is not None:
            out[cur].append(s)
    return out


def unmark(t):
    return "\n".join(l[6:] if l.startswith(">>>>>>") else l for l in t.split("\n"))


def dump(ss):
    return "\n".join(ast.unparse(s) for s in ss)


def case(i):
    r = rng("c15", i)
    P = pools()
    imports = ["import torch"] if r.random() < 0.6 else []
    lines = []
    names, methods = set(), set()
    kinds = {}
    n = r.randrange(1, 6)
    for k in range(n):
        lines.append("mark__%d = %d" % (k, k))
        c = r.random()
        if c < 0.65:
            kinds[k] = "prefix"
            u = prefix_use(r, P, k, names, methods, imports)
        elif c < 0.8:
            kinds[k] = "other"
            api = r.choice(P.other if r.random() < 0.7 else P.rule)
            imp, sp = spell(api, r.randrange(STYLES - 1), k * 10 + 9)
            imports.append(imp)
            u = "%s(%s)" % (sp, args_for(r, api, P))
        elif c < 0.93:
            kinds[k] = "mixed"
            api = r.choice(P.other)
            imp, sp = spell(api, r.randrange(STYLES - 1), k * 10 + 9)
            imports.append(imp)
            ent = P.T.api[api]
            if ent.get("unsupport_args") or not ent.get("args_list"):
                kinds[k] = "other"
                u = "%s(%s)" % (sp, plain(r))
            else:
                inner = prefix_use(r, P, k, names, methods, imports, 1)
                u = "%s(%s)" % (sp, inner)
        else:
            kinds[k] = "prefix"
            u = "print(x)"
        form = r.choice(FORMS)
        if u.startswith("print"):
            form = "%s"
        lines += (form % u).split("\n")
    imports += r.sample(["import numpy as np", "from math import sqrt", "import os"], r.randrange(2))
    if methods:
        imports.append("import torch")
    imports = list(dict.fromkeys(imports))
    r.shuffle(imports)
    if imports and r.random() < 0.15:
        # imports inside of a block stay, too
        j = r.randrange(len(imports))
        imports = [l for l in imports[:j]] + [r.choice(["if True:", "try:", "def g_():", "class G_:", "with q:", "for i in z:"])] + ["    " + l for l in imports[j:]]
        if imports[j] == "try:":
            imports += ["except ImportError:", "    import torch.nn as nn_", "    from torch.nn import functional as F_"]
    if r.random() < 0.04:
        # a long program
        lines = lines[:1] + ["zz_%d = call(%d, 'some words to make it longer')" % (j, j) for j in range(r.choice([80, 300]))] + lines[1:]
    prog = "\n".join(imports + lines) + "\n"
    try:
        src = chunks(prog)
    except SyntaxError:
        return None
    a = convert(prog, mode="min")
    b = convert(prog)
    ctx = dict(program=prog, output=a.out)
    if not a.ok or not b.ok:
        if a.ok == b.ok:
            return None  # fails in both modes: not a matter of min mode (C16)
        raise Violation("conversion fails in %s mode only: %s" % ("min" if b.ok else "default", a.error or b.error), **ctx)
    try:
        got, dft = chunks(unmark(a.out)), chunks(unmark(b.out))
    except SyntaxError:
        return None
    if sorted(got) != sorted(src):
        raise Violation("statements were lost in min mode", **ctx)
    if a.ret[0] + a.ret[1] != b.ret[0] + b.ret[1] or a.ret[0] != b.ret[0]:
        raise Violation("counts differ between the modes: (converted, not supported) = %s in min mode, %s in default mode" % (a.ret, b.ret), **ctx)
    miss = impset(ast.parse(prog).body) - impset(ast.parse(unmark(a.out)).body)
    if miss:
        raise Violation("imports are missing in min mode: %s" % sorted(map(str, miss)), **ctx)
    for k, kind in kinds.items():
        if kind == "prefix":
            want = [Drop(names, methods).visit(ast.parse(ast.unparse(s)).body[0]) for s in src[k]]
            if dump(got[k]) not in (dump(want), dump(src[k])):
                raise Violation("a use of a prefix-only API was changed in min mode: expected %r, got %r" % (dump(want), dump(got[k])), **ctx)
        elif kind == "other":
            if canon(dump(got[k])) != canon(dump(dft[k])):
                raise Violation("an API that is not prefix-only is converted differently in min mode: %r in default mode, %r in min mode" % (dump(dft[k]), dump(got[k])), **ctx)
    # marks: the blocks of prefix-only uses are not marked
    cur = None
    for l in a.out.split("\n"):
        if re.match(r">{6}\s*(import|from)\s", l):
            raise Violation("an import statement is marked in min mode: %r" % l, **ctx)
        m = re.match(r"(>{6})?mark__(\d+) = ", l)
        if m:
            cur = int(m.group(2))
        elif cur is not None and kinds[cur] == "prefix" and l.startswith(">>>>>>"):
            raise Violation("a line that only uses prefix-only APIs is marked: %r" % l, **ctx)
    return Case(prog, nontrivial=bool(names or methods), sample=prog[:300])


def each(job):
    """Every prefix-only API in every spelling: unchanged, counted, unmarked."""
    api, kind = job
    P = pools()
    r = rng("c15e", api)
    for st in range(STYLES):
        if kind == "attr" and st == STYLES - 1 and True:
            # a bare imported name is only resolved in certain positions (C09)
            continue
        imp, sp = spell(api, st, 1)
        if kind == "attr":
            if sp.startswith("nm"):
                continue
            use = sp
        elif kind == "method":
            use = None
        else:
            use = "%s(%s)" % (sp, args_for(r, api, P))
        if kind == "method":
            m = gen.class_method_of(api)
            if st == 1:
                # through its class
                imp, use = "import torch", "%s(%s)" % (api, args_for(r, api, P))
                sp = api
            elif st or len(P.methods_of[m]) > 1:
                continue
            else:
                imp, use = "import torch", "x.%s(%s)" % (m, args_for(r, api, P, plain_self))
        prog = "%s\nv = %s\n" % (imp, use)
        try:
            want = Drop({sp}, {gen.class_method_of(api)}).visit(ast.parse("v = %s" % use).body[0])
        except SyntaxError:
            continue
        o = convert(prog, mode="min")
        ctx = dict(program=prog, output=o.out)
        if not o.ok:
            raise Violation("conversion failed in min mode: " + o.error, **ctx)
        body = ast.parse(unmark(o.out)).body
        if not body or ast.dump(body[-1]) not in (ast.dump(want), ast.dump(ast.parse("v = %s" % use).body[0])):
            raise Violation("prefix-only %s was changed in min mode" % api, **ctx)
        if ">>>>>>" in o.out:
            raise Violation("prefix-only %s is marked in min mode" % api, **ctx)
        if o.ret != (1, 0):
            raise Violation("one use of %s is counted as (converted, not supported) = %s in min mode" % (api, o.ret), **ctx)
        if ast.dump(ast.parse(imp).body[0]) not in [ast.dump(s) for s in body]:
            raise Violation("the import %r is gone in min mode" % imp, **ctx)
    if kind == "call" and "." in api:
        # an attribute below the API stays as written, too
        prog = "import %s\nv = %s.zz_field\n" % (api.split(".")[0], api)
        o = convert(prog, mode="min")
        if o.ok and api not in P.T.alias and "v = %s.zz_field" % api not in unmark(o.out).split("\n"):
            raise Violation("an attribute below prefix-only %s was changed in min mode" % api, program=prog, output=o.out)
    return Case(api, sample=api)


def replay(api, where, kws, npos=0):
    """one use in min mode; raises Violation"""
    P = pools()
    m = gen.class_method_of(api)
    if m and len(P.methods_of.get(m, [api])) > 1:
        return
    for extra in ([], list(kws), list(kws)[:1], ["dtype"], ["alpha"], ["layout"]):
        if where == "attr":
            use = "x." + m if m else api
        else:
            use = "%s(%s)" % ("x." + m if m else api, ", ".join(["a%d" % i for i in range(max(npos, 1))] + ["%s=b" % k for k in extra]))
        prog = "import %s\nv = %s\n" % ("torch" if m else api.split(".")[0], use)
        o = convert(prog, mode="min")
        ctx = dict(program=prog, output=o.out)
        if not o.ok:
            raise Violation("conversion failed in min mode: " + o.error, **ctx)
        want = Drop({api}, {m}).visit(ast.parse("v = " + use).body[0])
        body = ast.parse(unmark(o.out)).body
        if not body or ast.dump(body[-1]) not in (ast.dump(want), ast.dump(ast.parse("v = " + use).body[0])):
            raise Violation("prefix-only %s was changed in min mode" % api, **ctx)
        if ">>>>>>" in o.out or o.ret != (1, 0):
            raise Violation("prefix-only %s is marked or not counted as converted in min mode: %s" % (api, o.ret), **ctx)


def bounded(chk):
    P = pools()
    jobs = [(a, "call") for a in P.call + P.alias] + [(a, "attr") for a in P.attr] + [(a, "method") for a in P.method]
    run_cases(chk, "every prefix-only API", each, jobs, "every API (and alias) whose table rule is the prefix change, in each of %d import spellings" % STYLES, "one use per program", budget=200 if THOROUGH else 20)
    n = 60000 if THOROUGH else 8000
    run_cases(chk, "programs", case, range(n), "programs mixing prefix-only and other APIs under several import spellings and statement forms, compared with their source and with default mode; non-trivial: a prefix-only API is used", "<= 5 uses", budget=300 if THOROUGH else 20)
