"""Random Python programs that use the mapped APIs (seeded)."""
import json
import os
import re

from .common import REPO

P = os.path.join(REPO, "paconvert")


def load(name):
    with open(os.path.join(P, name)) as f:
        return json.load(f)


class Tables:
    def __init__(self):
        self.api = load("api_mapping.json")
        self.attr = load("attribute_mapping.json")
        self.alias = load("api_alias_mapping.json")
        self.wild = load("api_wildcard_mapping.json")


_T = None


def tables():
    global _T
    if _T is None:
        _T = Tables()
    return _T


CLASS_PREFIX = (
    "torch.Tensor.",
    "torch.nn.Module.",
    "torch.optim.Optimizer.",
    "torch.autograd.function.FunctionCtx.",
    "torch.distributions.distribution.Distribution.",
)


def class_method_of(api):
    for c in CLASS_PREFIX:
        if api.startswith(c) and "." not in api[len(c):]:
            return api[len(c):]
    return None


def params(entry):
    """(positional, keyword-only, overload) parameter names of an entry."""
    al = entry.get("args_list") or []
    groups, cur, pos = [[], []], 0, None
    for a in al:
        if a == "*":
            cur = min(cur + 1, 1)
        elif a.isidentifier():
            groups[cur].append(a)
    return groups[0], groups[1], list(entry.get("overload_args_list") or [])


NAMES = ["x", "y", "inp", "w0", "hidden", "k1"]


# texts that a careless treatment of source text would break
EXOTIC = [
    r"'a\nb'", r"'a\nb' 'c  d'", r"'  lead and trail  '", r"'back\\slash\\n'", r"'{}'", r"'{0} {x}'", r"'%s %d'", "'tab\\there'", "'quo\"te'", '"it\'s"', "'é中文'", "'a # b'", "'f(x, y)'", "'x=1'", "'torch.abs'", "'a.b.c'", "b'by\\x00te'", "1e-08", "10 ** 9", "1j", "-0.0", "0x1f", "123456789012345678901234567890",
    "x[1:2, ::3]","x[..., None]","x[:, 0][a, b]", "d['k']['l'].m(n)[0]", "{'k': v, **w}", "{1, 2}", "{q: w for q, w in z.items() if w}", "(q for q in z if q)", "[*u, *v]", "fn(*u, **v)", "(yield_ or z)", "f'{x}'", "f'{x!r:>{w}}'", "(lambda a, *b, c=1, **d: (a, b))", "(a < b < c)", "a if (b if c else d) else e", "not (a and b)", "-(x + y) ** 2", "~x & y | z ^ w", "x @ y", "x is not None", "x not in y", "self.cfg.model.dims[0]", "np.zeros((2, 3)).astype('float32')", "()", "(x,)", "[[]]", "{}", "...",
    "' '.join(str(item) for item in some_rather_long_iterable_name if item is not None and item != another_name)",
    "some_function_name(argument_number_one, argument_number_two, argument_number_three, keyword_one=value_one, keyword_two=value_two)",
    "[first_element_of_list, second_element_of_list, third_element_of_list, fourth_element_of_list, fifth_element_of_list]",
    "first_condition_name_of_many and second_condition_name_of_many or third_condition_name_of_many and not fourth_condition_name",
    "value_one_with_long_name if condition_one_with_long_name and condition_two_with_long_name else value_two_with_long_name",
    "first_operand_name_long * second_operand_name_long + third_operand_name_long - fourth_operand_name_long / fifth_operand_name",
    "'a string which is so long that any pretty printer may want to break it into parts somewhere, and has   runs   of blanks'",
]


def exotic(r):
    return r.choice(EXOTIC)


def expr(r, depth=0):
    if r.random() < (0.1 if depth == 0 else 0.02):
        return "(%s)" % exotic(r)
    c = r.randrange(16 if depth < 2 else 7)
    if c < 3:
        return r.choice(NAMES)
    if c == 3:
        return str(r.randrange(-3, 50))
    if c == 4:
        return r.choice(["'abc'", '"q"', "1.5", "True", "None", "'a.b'"])
    if c == 5:
        return "cfg.%s" % r.choice(["lr", "dim", "n"])
    if c == 6:
        return "cfg['%s']" % r.choice(["k", "torch", "a b"])
    e = lambda: expr(r, depth + 1)
    if c == 7:
        return "(%s %s %s)" % (e(), r.choice(["+", "*", "-", "//", "%", "@"]), e())
    if c == 8:
        return "[%s]" % ", ".join(e() for _ in range(r.randrange(3)))
    if c == 9:
        return "(%s, %s)" % (e(), e())
    if c == 10:
        return "fn(%s)" % ", ".join(e() for _ in range(r.randrange(3)))
    if c == 11:
        return "(%s if %s else %s)" % (e(), e(), e())
    if c == 12:
        return "(not %s)" % e()
    if c == 13:
        return "(lambda q: %s)" % e()
    if c == 14:
        return "(%s %s %s)" % (e(), r.choice(["<", "==", "is", "and", "or", "in"]), e())
    return "[%s for q in %s]" % (e(), e())


def legal_args(r, entry, e=expr, allow_unsupported=False):
    """A legal argument list for a table entry with args_list."""
    pos, kwo, over = params(entry)
    uns = set(entry.get("unsupport_args") or [])
    usable = [p for p in pos]
    mn = entry.get("min_input_args") or 0
    if not usable and not kwo:
        return ""
    npos = r.randrange(0, len(usable) + 1)
    args = []
    used = 0
    for i in range(npos):
        if usable[i] in uns and not allow_unsupported:
            break
        args.append(e(r))
        used += 1
    rest = [p for p in usable[used:] if p not in uns or allow_unsupported]
    # the first parameters are the required ones: give those by keyword
    need = max(0, mn - used)
    kws = rest[:need]
    more = [p for p in rest[need:] + [k for k in kwo if k not in uns] if r.random() < 0.4]
    kws = kws + more
    r.shuffle(kws)
    return ", ".join(args + ["%s=%s" % (k, e(r)) for k in kws])


class Imports:
    """A random import header and the spellings it allows."""

    CH = [
        ("import torch", {"torch": "torch"}),
        ("import torch as th", {"th": "torch"}),
        ("import torch.nn as nn", {"nn": "torch.nn"}),
        ("from torch import nn", {"nn": "torch.nn"}),
        ("import torch.nn.functional as F", {"F": "torch.nn.functional"}),
        ("from torch.nn import functional as F2", {"F2": "torch.nn.functional"}),
        ("from torch import optim", {"optim": "torch.optim"}),
        ("import torch.optim.lr_scheduler as sched", {"sched": "torch.optim.lr_scheduler"}),
        ("import torchvision", {"torchvision": "torchvision"}),
        ("from torch.utils.data import DataLoader as DL", {"DL": "torch.utils.data.DataLoader"}),
        ("from torch import linalg as LA, Tensor", {"LA": "torch.linalg"}),
    ]
    OTHER = [
        "import numpy as np",
        "import sys",
        "from math import sqrt, pi as PI",
        "import collections.abc",
        "from functools import partial",
        "import random, json as js",
    ]

    def __init__(self, r, always_torch=True):
        ch = [self.CH[0]] if always_torch else []
        ch += [c for c in self.CH[1:] if r.random() < 0.3]
        self.map = {}
        lines = []
        for s, m in ch:
            lines.append(s)
            self.map.update(m)
        lines += [o for o in self.OTHER if r.random() < 0.3]
        r.shuffle(lines)
        self.lines = lines

    def spell(self, r, api):
        opts = []
        for k, full in self.map.items():
            if api == full:
                opts.append(k)
            elif api.startswith(full + "."):
                opts.append(k + api[len(full):])
        return r.choice(opts) if opts else None


class Prog:
    """Programs with calls, attributes and methods of mapped APIs in nested
    blocks; `pick` decides which table entries are used."""

    def __init__(self, r, pool=None, rejected=0.25, unknown=0.15):
        self.r = r
        self.T = tables()
        self.pool = pool or default_pool()
        self.imp = Imports(r)
        self.rejected = rejected
        self.unknown = unknown

    def api_use(self, depth=0):
        r = self.r
        c = r.random()
        if c < self.unknown:
            nm = r.choice(["torch.nope", "torch.nn.Nope", "torch.nn.functional.nope", "torchvision.nope", "torch.nope.deep.er", "torch.cuda.nope_x"])
            sp = self.imp.spell(r, nm) or "torch.nope"
            return sp + (r.choice(["", "(%s)" % expr(r)]))
        api = r.choice(self.pool["call"]) if c < 0.75 else None
        if api is None:
            kind = r.random()
            if kind < 0.4:
                at = r.choice(self.pool["attr"])
                m = class_method_of(at)
                if m:
                    return "%s.%s" % (self.receiver(), m)
                return self.imp.spell(r, at) or "torch.float32"
            api = r.choice(self.pool["method"])
            m = class_method_of(api)
            return "%s.%s(%s)" % (self.receiver(), m, self.args(api))
        sp = self.imp.spell(r, api)
        if sp is None:
            return "torch.abs(%s)" % expr(r)
        if r.random() < 0.12:
            return sp
        return "%s(%s)" % (sp, self.args(api, depth))

    def receiver(self):
        r = self.r
        return r.choice(
            ["x", "inp", "self.w", "model.weight", "x[0]", "x['k']", "(x + y)", "fn(x)", "self.lin.bias", "torch.abs(x)", "x.T", "x.data"]
        )

    def args(self, api, depth=0):
        r = self.r
        en = self.T.api.get(api) or {}

        def e(rr):
            if depth < 2 and rr.random() < 0.25:
                return self.api_use(depth + 1)
            return expr(rr)

        c = r.random()
        if c < self.rejected:
            k = r.randrange(6)
            if k == 0:
                return "zzz_unknown=%s" % e(r)
            if k == 1:
                return ", ".join(e(r) for _ in range(r.randrange(9)))
            if k == 2:
                return "*%s" % r.choice(NAMES)
            if k == 3:
                return "**%s" % r.choice(NAMES)
            if k == 4:
                uns = en.get("unsupport_args") or ["dtype"]
                return "%s, %s=%s" % (e(r), r.choice(uns), r.choice(["None", "x", "3"]))
            return ""
        if en.get("args_list"):
            return legal_args(r, en, e)
        a = [e(r) for _ in range(r.randrange(3))]
        if r.random() < 0.3:
            a.append("%s=%s" % (r.choice(["dim", "dtype", "out", "generator", "layout"]), e(r)))
        return ", ".join(a)

    def simple(self):
        r = self.r
        u = self.api_use()
        c = r.randrange(8)
        if c < 3:
            return "%s = %s" % (r.choice(["a", "b", "res"]), u)
        if c == 3:
            return u
        if c == 4:
            return "print(%s, %s)" % (u, self.api_use())
        if c == 5:
            return "lst = [%s for q in range(3)]" % u
        if c == 6:
            return "v = %s" % expr(r)
        return "assert isinstance(x, %s)" % (self.imp.spell(r, "torch.Tensor") or "int")

    def block(self, depth=0):
        r = self.r
        out = []
        for _ in range(r.randrange(1, 4)):
            c = r.randrange(14) if depth < 3 else 0
            ind = lambda ls: ["    " + l for l in ls]
            sub = lambda: ind(self.block(depth + 1))
            if c < 7:
                out.append(self.simple())
            elif c == 7:
                out += ["if %s:" % (self.api_use() if r.random() < 0.4 else "x")] + sub()
                if r.random() < 0.5:
                    out += ["else:"] + sub()
            elif c == 8:
                out += ["for i in range(3):"] + sub()
            elif c == 9:
                out += ["while x:"] + sub()
            elif c == 10:
                out += ["try:"] + sub() + ["except Exception as e:"] + sub()
                if r.random() < 0.4:
                    out += ["finally:"] + sub()
            elif c == 11:
                out += ["with ctx() as c:"] + sub()
            elif c == 12:
                out += ["def f%d(x, y=None):" % r.randrange(9)] + sub()
            else:
                b = self.imp.spell(r, "torch.nn.Module")
                out += ["class C%d(%s):" % (r.randrange(9), b or "object")] + sub()
        return out

    def text(self):
        return "\n".join(self.imp.lines + self.block()) + "\n"


_POOL = None


def default_pool():
    """Table entries converted by the table-driven rules, plus unsupported
    ones; no hand-written rules (those are C16's)."""
    global _POOL
    if _POOL is None:
        T = tables()
        rules = ("GenericMatcher", "ChangePrefixMatcher", "ChangeAPIMatcher", None)
        calls, meths = [], []
        for k, v in T.api.items():
            if v.get("Matcher") not in rules:
                continue
            if k.startswith("torch.") and not re.search(r"[^\w.]", k):
                (meths if class_method_of(k) else calls).append(k)
        calls += [a for a in T.alias if T.alias[a] in T.api and T.api[T.alias[a]].get("Matcher") in rules and a.startswith("torch.")]
        generic = [k for k in calls if T.api.get(k, {}).get("Matcher") == "GenericMatcher"]
        none = [k for k in calls if k in T.api and T.api[k].get("Matcher") is None]
        attrs = [k for k, v in T.attr.items() if v.get("Matcher") in rules or v.get("Matcher") == "PaddleFlagMatcher"]
        _POOL = dict(
            call=sorted(calls) + sorted(generic) * 3 + sorted(none) * 3 + ["torch.autograd.Variable"] * 20,
            method=sorted(meths),
            attr=sorted(attrs),
        )
    return _POOL
