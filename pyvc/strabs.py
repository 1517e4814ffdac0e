"""Abstraction of the string sort by the integers.

Strings become integers: literals become distinct numerals, string operations become
uninterpreted functions.  Every model over strings gives a model over integers (choose an
injection), so an unsat answer carries over.  Without string operations a sat answer
carries over as well (both sorts are countably infinite)."""
import z3

from .values import STR, INT, MP


class StrAbs:
    def __init__(self):
        self.cache = {}
        self.keep = []
        self.lits = {}
        self.decls = {}
        self.strops = False
        self.quant = False
        self.sorts = {}

    def sort(self, s):
        if s == STR:
            return INT
        if s.kind() == z3.Z3_ARRAY_SORT:
            return z3.ArraySort(self.sort(s.domain()), self.sort(s.range()))
        return s

    def lit(self, s):
        if s not in self.lits:
            self.lits[s] = z3.IntVal(1000003 + len(self.lits))
        return self.lits[s]

    def decl(self, d):
        k = d.get_id()
        if k not in self.decls:
            dom = [self.sort(d.domain(i)) for i in range(d.arity())]
            rng = self.sort(d.range())
            same = all(dom[i] == d.domain(i) for i in range(d.arity())) and rng == d.range()
            nd = d if same else z3.Function("S~" + d.name(), *(dom + [rng]))
            self.decls[k] = (nd, d)
        return self.decls[k][0]

    def tr(self, t):
        i = t.get_id()
        hit = self.cache.get(i)
        if hit is not None:
            if hit[1]:
                self.strops = True
            if hit[2]:
                self.quant = True
            return hit[0]
        so, qu = self.strops, self.quant
        self.strops = self.quant = False
        r = self._tr(t)
        if z3.is_quantifier(t):
            self.quant = True
        self.cache[i] = (r, self.strops, self.quant)
        self.keep.append(t)
        self.strops, self.quant = self.strops or so, self.quant or qu
        return r

    def translate(self, t):
        """(abstraction, uses string operations, has quantifiers)"""
        self.strops = self.quant = False
        r = self.tr(t)
        return r, self.strops, self.quant

    def _tr(self, t):
        if z3.is_quantifier(t):
            n = t.num_vars()
            cs, ns = [], []
            for i in range(n):
                s = t.var_sort(i)
                c = z3.z3.FreshConst(s, "v")
                cs.append(c)
                ns.append(self.tr(c))
            # de Bruijn: var 0 is the innermost (last)
            body = z3.substitute_vars(t.body(), *reversed(cs))
            nb = self.tr(body)
            if t.is_lambda():
                return z3.Lambda(ns, nb)
            pats = []
            for i in range(t.num_patterns()):
                p = t.pattern(i)
                ts = [self.tr(z3.substitute_vars(p.arg(k), *reversed(cs))) for k in range(p.num_args())]
                pats.append(MP(*ts) if len(ts) > 1 else ts[0])
            f = z3.ForAll if t.is_forall() else z3.Exists
            return f(ns, nb, patterns=pats) if pats else f(ns, nb)
        if z3.is_string_value(t):
            return self.lit(t.as_string())
        k = t.decl().kind()
        old = t.children()
        ch = [self.tr(c) for c in old]
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.decl(t.decl())(*ch) if ch else self.decl(t.decl())()
        if k == z3.Z3_OP_EQ:
            return ch[0] == ch[1]
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*ch)
        if k == z3.Z3_OP_ITE:
            return z3.If(*ch)
        if k == z3.Z3_OP_SELECT:
            return z3.Select(*ch)
        if k == z3.Z3_OP_STORE:
            return z3.Store(*ch)
        if k == z3.Z3_OP_CONST_ARRAY:
            return z3.K(self.sort(t.sort()).domain(), ch[0])
        if k == z3.Z3_OP_AND:
            return z3.And(ch)
        if k == z3.Z3_OP_OR:
            return z3.Or(ch)
        strs = t.sort() == STR or any(c.sort() == STR or c.sort().kind() in (z3.Z3_SEQ_SORT, z3.Z3_RE_SORT) for c in old) or t.sort().kind() in (z3.Z3_SEQ_SORT, z3.Z3_RE_SORT)
        if strs:
            self.strops = True
            if t.sort().kind() == z3.Z3_RE_SORT:
                return self.opaque(t)
            dom = [self.sort(c.sort()) if c.sort().kind() != z3.Z3_RE_SORT else c.sort() for c in t.children()]
            ch2 = [c if t.arg(i).sort().kind() == z3.Z3_RE_SORT else ch[i] for i, c in enumerate(ch)]
            f = z3.Function("Sop~%s/%d" % (t.decl().name(), len(ch)), *([x.sort() for x in ch2] + [self.sort(t.sort())]))
            return f(*ch2)
        if not ch:
            return t
        if all(c.eq(o) for c, o in zip(ch, old)):
            return t
        a = (z3.Ast * len(ch))(*[c.as_ast() for c in ch])
        return z3.z3._to_expr_ref(z3.Z3_mk_app(t.ctx_ref(), t.decl().ast, len(ch), a), t.ctx)

    def opaque(self, t):
        return z3.Const("re~%d" % t.get_id(), INT)
