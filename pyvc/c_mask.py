"""Contract of mask_change_prefix_apis (paconvert/converter.py): the masked text
has the same length as the text, and each character is the one of the text or an
underscore, in particular it has the same line breaks and no quote of its own.

hides(t, u): t is u with some characters, none of them a line break, replaced by
underscores.  It is reflexive and transitive; it is kept by replacing pieces of
the text by pieces which hide them (contract of re.sub with a function)."""
import z3

from .c_mark import CV, converter
from .contracts import *
from .engine import *
from .values import *

hides = z3.Function("hides", STR, STR, BOOL)
NL, US = z3.StringVal("\n"), z3.StringVal("_")


class Chars(StepSpec):
    """the loop over the characters of a match"""

    def __init__(self, chars):
        self.chars = chars
        self.out = None

    def applies(self, e, l):
        return l is self.chars

    def step(self, e, i, appended):
        got = [g for g in appended.values() if g]
        e.prove("one character for each character of a match", len(got) == 1 and len(got[0]) == 1)
        if len(got) == 1 and len(got[0]) == 1:
            same(e, e.unwrap(e.resolve(got[0][0]), "str"), z3.Select(self.chars.arr, i))

    def after(self, e, l, names):
        if len(names) != 1:
            return {}
        w = e.sym_list("masked_chars", "str", self.chars.n)
        j = z3.FreshConst(INT, "j")
        e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w.n), char_ok(z3.Select(w.arr, j), z3.Select(self.chars.arr, j))), patterns=[z3.Select(w.arr, j)]))
        return {names[0]: w}


def char_ok(new, old):
    return z3.Or(new == old, z3.And(new == US, old != NL))


def same(e, new, old):
    e.prove("a character of a match stays or becomes an underscore", z3.Or(new == old, new == US))
    e.prove("a line break of a match stays", z3.Implies(old == NL, new == NL))


def callback(e, f):
    """the replacement of a match hides it"""
    chars = e.sym_list("matched", "str")
    j = z3.FreshConst(INT, "j")
    e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < chars.n), z3.Length(z3.Select(chars.arr, j)) == 1), patterns=[z3.Select(chars.arr, j)]))
    m = e.new(VObj("match"))

    def group(e, a, k):
        if k or a and [e.resolve(x) for x in a] != [0]:
            raise Unsupported("a group of the match")
        return chars

    m.fields["group"] = Native(group)
    m.fields["__getitem__"] = lambda e, k: group(e, [k], {})
    e.loop_spec = Chars(chars)
    r = e.resolve(e.call(f, [m], {}))
    e.loop_spec = None
    if r is chars:
        return
    if not (isinstance(r, SStr) and isinstance(r.prov, tuple) and r.prov[0] == "join"):
        raise Unsupported("the replacement of a match: %r" % (r,))
    l = r.prov[2]
    i = e.fresh("i", INT)
    e.prove("the characters of a match are joined again", r.prov[1] == "")
    e.prove("a masked match is as long as the match", e.length(l) == chars.n)
    e.assume(z3.And(0 <= i, i < chars.n))
    same(e, e.unwrap(e.elem_at(l, i), "str"), z3.Select(chars.arr, i))


class Apis(StepSpec):
    """the loop over the APIs to mask"""

    def __init__(self, code):
        self.code = code
        self.found = []

    def applies(self, e, l):
        return not l.concrete

    def texts(self, env):
        return [k for k in self.keep if k in env and isinstance(env[k], SStr)]

    def havoc(self, e):
        # the locals that hold the text, before the loop
        self.keep = [k for k, v in self.entry.items() if isinstance(v, SStr) and v.t.eq(self.code.t)]

    def begin(self, e, i):
        for k in self.texts(self.frame.env):
            e.assume(hides(self.frame.env[k].t, self.code.t))
        self.found.clear()

    def step(self, e, i, appended):
        fs = list(self.found)
        for k in self.texts(self.frame.env):
            t = self.frame.env[k].t
            e.prove("the text stays masked only", hides(t, self.code.t))
        for f in fs:
            callback(e, f)

    def after(self, e, l, names):
        for k in self.texts(self.frame.env):
            e.assume(hides(self.frame.env[k].t, self.code.t))
        return {}


@contract(("C03",), CV + ".mask_change_prefix_apis", name="masking", setup=[no_logs])
def masking(e):
    code = e.fresh_val("text", "str")
    e.assume(hides(code.t, code.t))
    sp = Apis(code)

    def sub(e, a, k):
        if k or len(a) != 2:
            raise Unsupported("sub with options")
        f, t = e.resolve(a[0]), e.unwrap(e.resolve(a[1]), "str")
        if not isinstance(f, (Func, Bound)):
            raise Unsupported("sub with %r" % (f,))
        sp.found.append(f)
        r = e.fresh_val("masked", "str")
        e.assume(hides(r.t, t))
        e.assume(z3.Implies(z3.And(hides(r.t, t), hides(t, code.t)), hides(r.t, code.t)))
        return r

    def compile_(e, a, k):
        o = e.new(VObj("pattern"))
        o.fields["sub"] = Native(sub)
        return o

    e.externs["re.compile"] = compile_
    e.externs["re.sub"] = lambda e, a, k: sub(e, list(a[1:]), k)
    e.externs["re.escape"] = lambda e, a, k: SStr(z3.Function("re_escape", STR, STR)(e.unwrap(e.resolve(a[0]), "str")))
    c = converter(e, "min", e.new(VSet([])))
    apis = e.sym_set("change_prefix_apis")
    m = e.new(VObj("change_prefix_api_map"))
    m.fields["__getitem__"] = lambda e, k: apis
    c.fields["change_prefix_api_map"] = m
    e.loop_spec = sp
    r = e.resolve(run(e, method(e, CV, "mask_change_prefix_apis"), [code, e.fresh_val("file", "str")], {}, c))
    if not isinstance(r, SStr):
        raise Unsupported("result %r" % (r,))
    e.prove("the result is the text with some characters masked", hides(r.t, code.t))
