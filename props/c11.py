"""C11: the receiver of a converted method or attribute is preserved."""
import ast

from vlib import explore, gen
from vlib.bounded import Case, run_cases
from vlib.common import Violation, rng, THOROUGH
from vlib.conv import convert

# rules whose Paddle form does not depend on the object (a free function or a constant)
NO_RECEIVER = set()

KEYS = [
    "k", "\\1", "\\g<0>", "\\n", "a\\b", "paddle.Tensor", "torch.Tensor", "x.abs", "paddle.nn.Module", "'q'", '"', "{}", "{0}", "%s", "%(a)s", "\u4e2d", "a.b", "(", ")", "[", "#", ",", "=", "",
    "paddle.optimizer.Optimizer", "\t", "\\\\", "$", "\\g<name>", "a b", "a   b", "  x", "x  ", "a\n  b", " . ", "A  (  B", "a ,b", "A=b", "'  '", "i\u0307\u0308", "\u00c5", "\ufb01", "0x1F", "\r\n", "\x0c", "\x00", ">>>>>>", "misidentify", "delete", ".", "..", "x, y", "\\x41", "None", "paddle.Tensor|a",
    "a first line of a text which is long enough to be printed as a block   \n  and a second line, with   blanks\n\tand a third one\n", "x" * 120, "one \\n two \n three four five six seven eight nine ten eleven twelve thirteen fourteen",
]
FORMS = [
    "x", "inp", "x[%r]", "fn(%r)", "obj[%r][0]", "d[%r, 1]", "fn(a, key=%r)", "(a + b)", "(a * fn(%r))", "(-x)", "(a == b)", "x[1:2]", "x[..., 0]", "fn(lambda q: q[%r])", "fn([%r, y])", "fn(f'{x}')",
    "fn(b'\\\\1')", "x[a, :, None]", "fn(*args_)", "fn(**kw)", "x[y[%r]]", "(a @ b)", "(a < b)", "(~m)", "fn(x if y else z)", "fn({'a': %r})", "m.weight", "self.w", "w_.bias", "x[-1]", "fn(%r)(y)",
    "fn(argument_number_one, argument_number_two, key_three=%r, key_four=another_function(argument_number_five, argument_number_six))", "some_list_of_values[first_index_name + second_index_name * third_index_name, fourth_index_name:fifth_index_name]",
    "(first_operand_with_a_name * second_operand_with_a_name + third_operand_with_a_name - fourth_operand_with_a_name)", "fn(first_condition_of_many and second_condition_of_many or third_condition_of_many and not fourth_condition_of_many)",
    "fn(q for q in x)", "fn(a)[0](b)[%r]",
]


def methods():
    T = gen.tables()
    out = []
    for k, v in sorted(T.api.items()):
        m = gen.class_method_of(k)
        if m and v.get("Matcher"):
            out.append((k, m, "call"))
    for k, v in sorted(T.attr.items()):
        m = gen.class_method_of(k)
        if m and v.get("Matcher"):
            out.append((k, m, "attr"))
    return out


def norm(n):
    n = ast.parse(ast.unparse(n), mode="eval").body
    return ast.dump(n)


def check(api, recv, use, mode="default"):
    src = "import torch\nres = %s\n" % use
    o = convert(src, mode=mode)
    if not o.ok:
        raise Violation("%s: conversion failed: %s" % (api, o.error), program=src)
    text = "\n".join(l[6:] if l.startswith(">>>>>>") else l for l in o.out.split("\n"))
    try:
        t = ast.parse(text)
    except SyntaxError as e:
        raise Violation("%s: the result is not valid Python: %s\n%s" % (api, e, o.out), program=src)
    want = norm(ast.parse(recv, mode="eval").body)
    if not any(ast.dump(n) == want for n in ast.walk(t)):
        raise Violation("%s: the receiver %s does not occur in the converted code:\n%s" % (api, recv, o.out), program=src)
    return o


def recv(r):
    f = r.choice(FORMS)
    n = f.count("%r")
    return f % tuple(r.choice(KEYS) for _ in range(n)) if n else f


def case(item):
    api, m, kind, n = item
    r = rng("c11", api)
    if api in NO_RECEIVER:
        return None
    cnt = conv = 0
    sample = None
    for i in range(n):
        rv = recv(r) if i else "RECV0"
        if kind == "attr":
            use = "%s.%s" % (rv, m)
        else:
            sh = explore.shapes(api, r, 6, explore.REQUIRED.get(api)) if explore.entry(api).get("args_list") else [(1, ()), (0, ())]
            if not sh:
                sh = [(0, ())]
            np, ks = r.choice(sh)
            pos = explore.signature(api)[0]
            uns = set(explore.entry(api).get("unsupport_args") or [])
            ks = [k for k in ks if k not in uns]
            args = ["A_%d" % j for j in range(np)] + ["%s=A_%s" % (k, k) for k in ks]
            use = "%s.%s(%s)" % (rv, m, ", ".join(args))
        try:
            ast.parse(use)
        except SyntaxError:
            continue
        o = check(api, rv, use, r.choice(["default", "default", "min"]))
        cnt += 1
        if o.conv.success_api_count:
            conv += 1
            sample = use
    return Case(api, nontrivial=conv > 0, sample=sample, n=cnt)


def bounded(chk):
    ms = methods()
    n = 1500 if THOROUGH else 60
    run_cases(chk, "receivers", case, [(a, m, k, n) for a, m, k in ms], "every mapped method and attribute of a class with random receiver expressions (subscripts and calls with keys containing backslashes, quotes, class names, format characters) and argument lists, default and min mode; an API counts if some use was converted", "%d APIs x %d receivers" % (len(ms), n), budget=420 if THOROUGH else 30)
