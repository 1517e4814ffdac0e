"""Contract of mark_unsupport (paconvert/converter.py)."""
import ast

import z3

from . import regex
from .c_helper import flat
from .contracts import *
from .engine import *
from .values import *

CV = "paconvert.converter.Converter"
MARK, NOTE = z3.StringVal(">>>>>>"), z3.StringVal("Not Support auto convert")
ref_f = z3.Function("refers_inside", STR, STR, BOOL)  # the line has, behind a character which is neither word nor dot, the package and a dot
PKGS = ["torch", "torch_xla", "p1"]
INSIDE, ANYWHERE = r"[^\w.]%s\.", r"(?:^|[^\w.])%s\."


def starts(p, l):
    return z3.PrefixOf(z3.Concat(p, z3.StringVal(".")), l)


def refers(p, l):
    return z3.Or(starts(p, l), ref_f(p, l))


def line_regex(which):
    """re.match and re.search of a pattern made around a package name, compared with the
    languages of the specification (automata; the package names are literals of the pattern)"""

    def f(e, a, k):
        if k or len(a) != 2:
            raise Unsupported("re with flags")
        pat, line = e.resolve(a[0]), e.resolve(a[1])
        parts = flat(pat)
        syms = [x for x in parts if isinstance(x, SStr)]
        if len(syms) != 1:
            raise Unsupported("pattern %r" % (pat,))
        p, l = syms[0].t, e.unwrap(line, "str")
        if z3.is_app(p) and p.decl().name() == "re_escape":
            p = p.arg(0)
        tpl = lambda n: "".join(x if isinstance(x, str) else n for x in parts)
        inc = lambda a, b: all(regex.included(a(n), b(n)) for n in PKGS)
        T = lambda n: (which, tpl(n))
        I, W = lambda n: ("search", INSIDE % n), lambda n: ("search", ANYWHERE % n)
        if inc(T, I) and inc(I, T):
            return SBool(ref_f(p, l))
        if inc(T, W) and inc(W, T):
            return SBool(refers(p, l))
        t = z3.Function("matches_" + (which + tpl("%")).encode().hex(), STR, STR, BOOL)(p, l)
        if inc(T, W):
            return SBool(z3.And(t, refers(p, l)))
        if inc(W, T):
            return SBool(z3.Or(t, refers(p, l)))
        return SBool(t)

    return f


def sub(e, a, k):
    """re.sub changes nothing where a character is missing which every match has"""
    p, r, s = [e.resolve(x) for x in a[:3]]
    if not (isinstance(p, str) and isinstance(r, str)) or k or len(a) != 3:
        raise Unsupported("re.sub")
    if isinstance(s, str):
        import re

        return re.sub(p, r, s)
    cs = regex.needs(p)
    t = e.unwrap(s, "str")
    out = z3.Function("re_sub_" + (p + "\0" + r).encode().hex(), STR, STR)(t)
    if cs:
        out = z3.If(z3.Or([z3.Contains(t, z3.StringVal(c)) for c in sorted(cs)]), out, t)
    return SStr(out)


def converter(e, mode, pkgs):
    o = e.new(VObj("imports of the file"))
    o.fields["__getitem__"] = lambda e, k: pkgs if e.resolve(k) == "torch_packages" else unsup("imports_map[file][%r]" % (k,))
    m = e.new(VObj("imports_map"))
    m.fields["__getitem__"] = lambda e, k: o
    return obj(e, CV, mode=mode, imports_map=m, logger=Ext("logger"))


def unsup(msg):
    raise Unsupported(msg)


def flag_names(e):
    """which local tells that the last line was a note, and which that a string is open"""
    out = []
    for text in ("Not Support auto convert", '"""'):
        c = converter(e, "default", e.new(VSet([])))
        run(e, method(e, CV, "mark_unsupport"), [text, "f.py"], {}, c)
        names = sorted(k for k, v in e.last_env.items() if v is True)
        if len(names) != 1:
            raise Unsupported("flags of the loop: %s" % names)
        out.append(names[0])
    if out[0] == out[1]:
        raise Unsupported("flags of the loop")
    return out


class Lines(StepSpec):
    def __init__(self, e, lines0, n, pkgs, mode, flags):
        self.l0, self.n, self.pkgs, self.mode, self.flags = lines0, n, pkgs, mode, flags
        self.lists = []

    def applies(self, e, l):
        return l.n is not None and z3.is_expr(l.n) and e.check(l.n != self.n) == z3.unsat

    def is_line_list(self, v):
        return isinstance(v, VList) and not v.concrete and v.arr is not None and v.arr.eq(self.l0)

    def havoc(self, e):
        # the list of lines may be rewritten in place, line by line
        self.before = {}
        self.lists = [v for k, v in self.frame.env.items() if self.is_line_list(v)]
        uniq = []
        for v in self.lists:
            if not any(v is x for x in uniq):
                uniq.append(v)
        self.lists = uniq
        for v in self.lists:
            v.arr = e.fresh("lines", v.arr.sort())
            v.prov = None
            self.before[id(v)] = v.arr

    def allowed(self, e):
        return {id(v) for v in self.lists}

    def marked(self, arr, j):
        return z3.Or(z3.Select(arr, j) == z3.Select(self.l0, j), z3.Select(arr, j) == z3.Concat(MARK, z3.Select(self.l0, j)))

    def begin(self, e, i):
        j = z3.FreshConst(INT, "j")
        for v in self.lists:
            e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= i, j < self.n), z3.Select(v.arr, j) == z3.Select(self.l0, j)), patterns=[z3.Select(v.arr, j)]))
            e.assume(z3.Select(v.arr, i) == z3.Select(self.l0, i))
        line = z3.Select(self.l0, i)
        Q3, Q2, Q1 = z3.StringVal('"""'), z3.StringVal('"'), z3.StringVal("'")
        e.assume(z3.Implies(z3.Contains(line, Q3), z3.Contains(line, Q2)))
        # contract of mask_change_prefix_apis: a masked line has no other quotes than the line
        ml = z3.Select(self.masked, i)
        for q in (Q1, Q2):
            e.assume(z3.Implies(z3.Contains(ml, q), z3.Contains(line, q)))
        e.assume(z3.Implies(z3.Contains(ml, Q3), z3.Contains(ml, Q2)))

    def step(self, e, i, appended):
        line = z3.Select(self.l0, i)
        j = e.fresh("j", INT)
        new = None
        for v in self.lists:
            e.prove("a line is only changed when its turn comes", z3.Implies(z3.And(j >= 0, j < self.n, j != i), z3.Select(v.arr, j) == z3.Select(self.before[id(v)], j)))
            e.prove("the number of lines stays", v.n == self.n)
        outs = [k for k, g in appended.items() if g]
        changed = [v for v in self.lists if not v.arr.eq(self.before[id(v)])]
        if self.out_name:
            g = appended.get(self.out_name, [])
            e.prove("one line of output for each line", len(g) == 1)
            if len(g) != 1:
                return
            new = e.unwrap(e.resolve(g[0]), "str")
        else:
            if len(changed) > 1:
                raise Unsupported("several lists of lines change")
            new = z3.Select(changed[0].arr, i) if changed else line
        e.prove("a line stays or gets the marker in front", z3.Or(new == line, new == z3.Concat(MARK, line)))
        e.assume(z3.Length(z3.Concat(MARK, line)) > z3.Length(line))
        is_marked = new == z3.Concat(MARK, line)
        e.assume(z3.Concat(MARK, line) != line)
        st, env = self.state, self.frame.env
        bv = lambda d, k: d[k] if isinstance(d[k], bool) else d[k].t if isinstance(d[k], SBool) else unsup("flag %s" % k)
        f, s = self.flags
        F, S, F1, S1 = [z3.BoolVal(x) if isinstance(x, bool) else x for x in (bv(st, f), bv(st, s), bv(env, f), bv(env, s))]
        note = z3.Contains(line, NOTE)
        AT = z3.StringVal("@")
        quotes = z3.Or(z3.Contains(line, z3.StringVal('"')), z3.Contains(line, z3.StringVal("'")))
        k = z3.FreshConst(STR, "p")
        e.prove("a note is noticed", z3.Implies(note, F1))
        e.prove("the first line after a note is marked", z3.Implies(z3.And(z3.Not(note), F, line != AT), z3.And(is_marked, z3.Not(F1))))
        e.prove("only a note asks for a mark on the next line", z3.Implies(z3.And(z3.Not(note), z3.Not(F)), z3.Not(F1)))
        e.prove("a note itself is not marked", z3.Implies(note, z3.Not(is_marked)))
        e.prove("a line without quotes does not open or close a string", z3.Implies(z3.Not(quotes), S1 == S))
        plain = z3.And(z3.Not(note), z3.Not(F), z3.Not(quotes))
        e.prove("a line inside a triple-quoted string is not marked", z3.Implies(z3.And(plain, S), z3.Not(is_marked)))
        if self.mode == "default":
            p = e.fresh("pkg", STR)
            e.prove("a line which refers to a recognised package is marked", z3.Implies(z3.And(plain, z3.Not(S), z3.Select(self.pkgs.present, p), refers(p, line)), is_marked))
            e.prove("no other line is marked", z3.Implies(z3.And(plain, is_marked), z3.Exists([k], z3.And(z3.Select(self.pkgs.present, k), refers(k, line)))))

    out_name = None

    def after(self, e, l, names):
        j = z3.FreshConst(INT, "j")
        res = {}
        for v in self.lists:
            e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), self.marked(v.arr, j)), patterns=[z3.Select(v.arr, j)]))
        if self.out_name in names:
            w = e.sym_list("out", "str", self.n)
            e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), self.marked(w.arr, j)), patterns=[z3.Select(w.arr, j)]))
            res[self.out_name] = w
        return res


@contract(("C03",), CV + ".mark_unsupport", name="marking", setup=[no_logs], timeout_ms=4000)
def marking(e):
    e.externs["re.sub"] = sub
    flags = flag_names(e)
    for n in ("match", "search"):
        e.externs["re." + n] = line_regex(n)
    e.externs["re.escape"] = lambda e, a, k: SStr(z3.Function("re_escape", STR, STR)(e.unwrap(e.resolve(a[0]), "str")))
    mode = ["default", "min"][e.choose(2)]
    pkgs = e.sym_set("torch_packages")
    pkgs.frozen = True
    c = converter(e, mode, pkgs)
    code = e.fresh_val("code", "str")
    na = z3.Function("split_n", STR, STR, INT)
    aa = z3.Function("split_a", STR, STR, z3.ArraySort(INT, STR))
    nl = z3.StringVal("\n")
    masked = e.fresh_val("masked", "str")
    e.assume(na(masked.t, nl) == na(code.t, nl))  # masking keeps the lines: proved in c_mask.py
    e.assume(na(code.t, nl) >= 1)
    e.summaries[CV + ".mask_change_prefix_apis"] = lambda e, s, a, k: masked
    sp = Lines(e, aa(code.t, nl), na(code.t, nl), pkgs, mode, flags)
    sp.masked = aa(masked.t, nl)
    # a list which is returned instead of the rewritten lines
    f = method(e, CV, "mark_unsupport").node
    for r in ast.walk(f):
        if isinstance(r, ast.Return) and isinstance(r.value, ast.Call) and isinstance(r.value.func, ast.Attribute) and r.value.func.attr == "join" and isinstance(r.value.args[0], ast.Name):
            nm = r.value.args[0].id
            if any(isinstance(x, ast.Attribute) and x.attr == "append" and isinstance(x.value, ast.Name) and x.value.id == nm for x in ast.walk(f)):
                sp.out_name = nm
    e.loop_spec = sp
    r = run(e, method(e, CV, "mark_unsupport"), [code, e.fresh_val("file", "str")], {}, c)
    e.prove("the packages are not changed", not e.frozen_hits)
    if not (isinstance(r, SStr) and isinstance(r.prov, tuple) and r.prov[0] == "join"):
        raise Unsupported("result %r" % (r,))
    l = r.prov[2]
    i = e.fresh("i", INT)
    e.prove("the lines are joined again", r.prov[1] == "\n")
    e.prove("the result has as many lines", l.n == sp.n)
    e.prove("every line of the result is the line of the code, or the marker and that line", z3.Implies(z3.And(0 <= i, i < sp.n), sp.marked(l.arr, i)))
