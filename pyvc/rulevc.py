"""Verification conditions of the conversion rules (the generate_code methods
of api_matcher.py), per rule and mapped API.

The real method is executed on symbolic argument texts: every argument of the
call is a text about which nothing is known but that it is the printed form of
an expression.  It is carried through the code as a placeholder; each decision
the rule takes on it (comparison, containment, prefix, pattern, ...) splits the
path, z3 discards the branches no text satisfies, and the remaining paths are all
executed.  Together with the enumeration of every set of arguments the call may
pass (the sets are finite for each API), every path of the rule is covered, for
all texts.  On each path the postcondition is decided on the generated code with
the placeholders in it.

Callees under their own contract are replaced by it: enable_utils_code (C10: the
helper becomes available, once), parse_args_and_kwargs (C07: the dict of the
arguments bound to their parameters).  What the executor does not know
(operations on the text other than those below) makes the obligation undecided."""
import ast
import itertools
import os
import re
import time

import z3

from vlib import common, explore, gen

MAXPATHS = 20000


class Unsupported(Exception):
    pass


class Path:
    """the decisions of the current execution"""

    cur = None

    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.alts = []
        self.memo = {}
        self.pin = {}
        self.fuzzy = []
        self.solver_s = 0.0

    def value(self, base, chain):
        """the concrete text of a derived value, if the base is pinned"""
        if base not in self.pin:
            return None
        return apply_chain(self.pin[base], chain)

    def decide(self, base, chain, op, lit):
        v = self.value(base, chain)
        if v is not None:
            return holds(v, op, lit)
        key = (base, chain, op, lit)
        if key in self.memo:
            return self.memo[key]
        opts = []
        for b in (True, False):
            if self.feasible(key, b):
                opts.append(b)
        if not opts:
            raise Unsupported("contradictory path")
        if len(opts) == 2:
            i = len(self.taken)
            b = self.prefix[i] if i < len(self.prefix) else True
            if i >= len(self.prefix):
                self.alts.append(self.taken + [False])
            self.taken.append(b)
        else:
            b = opts[0]
        self.memo[key] = b
        if b and op == "==" and not chain:
            self.pin[base] = lit
            for (q, ch, o, l), t in self.memo.items():
                if q == base and holds(apply_chain(lit, ch), o, l) != t:
                    raise Unsupported("contradictory path")
        return b

    CACHE = {}

    def feasible(self, key, b):
        base, chain, op, lit = key
        cons = [(o, l, t) for (q, ch, o, l), t in self.memo.items() if q == base and not ch and o in ("==", "in", "startswith", "endswith")]
        if chain or op not in ("==", "in", "startswith", "endswith"):
            return True
        cons = tuple(sorted(cons + [(op, lit, b)]))
        if cons not in self.CACHE:
            t0 = time.time()
            s = z3.Solver()
            s.set("timeout", 2000)
            x = z3.String("x")
            s.add(z3.Length(x) > 0)
            for o, l, t in cons:
                l = z3.StringVal(l)
                f = x == l if o == "==" else z3.Contains(x, l) if o == "in" else z3.PrefixOf(l, x) if o == "startswith" else z3.SuffixOf(l, x)
                s.add(f if t else z3.Not(f))
            self.CACHE[cons] = s.check() != z3.unsat
            self.solver_s += time.time() - t0
        return self.CACHE[cons]


def holds(v, op, lit):
    if op == "==":
        return v == lit
    if op == "in":
        return lit in v
    if op == "startswith":
        return v.startswith(lit)
    if op == "endswith":
        return v.endswith(lit)
    if op == "isdigit":
        return v.isdigit()
    if op in ("kw", "count"):
        return False
    if op == "re":
        return re.search(lit, v) is not None
    if op == "match":
        return re.match(lit, v) is not None
    if op == "int==":
        try:
            return int(v) == lit
        except ValueError:
            return False
    raise Unsupported(op)


def apply_chain(v, chain):
    for f, a in chain:
        if f == "slice":
            v = v[slice(*a)]
        elif f == "sub":
            v = re.sub(a[0], a[1], v)
        else:
            v = getattr(v, f)(*a)
    return v


class SymInt:
    def __init__(self, base, chain):
        self.base, self.chain = base, chain

    def __eq__(self, o):
        if not isinstance(o, int):
            raise Unsupported("comparison of the number of an argument")
        return Path.cur.decide(self.base, self.chain, "int==", o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise Unsupported("hash of the number of an argument")


class Sym(str):
    """the text of an argument; its str value is a placeholder"""

    __slots__ = ("base", "chain")

    def __new__(cls, base, chain=()):
        if chain:
            name = "%s__d%d" % (base, Path.cur.fuzzy.index((base, chain)) if (base, chain) in Path.cur.fuzzy else len(Path.cur.fuzzy))
            if (base, chain) not in Path.cur.fuzzy:
                Path.cur.fuzzy.append((base, chain))
        else:
            name = base
        self = str.__new__(cls, name)
        self.base, self.chain = base, chain
        return self

    def _derive(self, f, *a):
        chain = self.chain + ((f, a),)
        v = Path.cur.value(self.base, chain)
        return v if v is not None else Sym(self.base, chain)

    def _d(self, op, lit):
        if isinstance(lit, Sym):
            raise Unsupported("comparison of two argument texts")
        return Path.cur.decide(self.base, self.chain, op, str(lit))

    def __eq__(self, o):
        if isinstance(o, Sym):
            if (o.base, o.chain) == (self.base, self.chain):
                return True
            raise Unsupported("comparison of two argument texts")
        return isinstance(o, str) and self._d("==", o)

    def __ne__(self, o):
        return not self == o

    __hash__ = str.__hash__

    def __contains__(self, o):
        return self._d("in", o)

    def startswith(self, o, *a):
        if a:
            raise Unsupported("startswith with bounds")
        return any(self._d("startswith", q) for q in (o if isinstance(o, tuple) else (o,)))

    def endswith(self, o, *a):
        if a:
            raise Unsupported("endswith with bounds")
        return any(self._d("endswith", q) for q in (o if isinstance(o, tuple) else (o,)))

    def isdigit(self):
        return Path.cur.decide(self.base, self.chain, "isdigit", "")

    def __bool__(self):
        if self.chain:
            return not self._d("==", "")
        return True

    def strip(self, *a):
        if a == ("\n",) or not a:
            return self
        return self._derive("strip", *a)

    def lstrip(self, *a):
        return self._derive("lstrip", *a)

    def rstrip(self, *a):
        return self if a == ("\n",) else self._derive("rstrip", *a)

    def replace(self, *a):
        return self._derive("replace", *a)

    def lower(self):
        return self._derive("lower")

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._derive("slice", i.start, i.stop, i.step)
        raise Unsupported("a character of an argument text")

    def __str__(self):
        v = Path.cur.value(self.base, self.chain)
        return v if v is not None else str.__str__(self)

    def __format__(self, spec):
        if spec:
            raise Unsupported("format specification")
        return self.__str__()


def _no(name):
    def f(self, *a, **k):
        raise Unsupported("str.%s of an argument text" % name)

    return f


for _n in ("split", "rsplit", "splitlines", "find", "rfind", "index", "rindex", "count", "__len__", "__iter__", "upper", "title", "join", "partition",
           "rpartition", "isidentifier", "isalpha", "isalnum", "isnumeric", "isdecimal", "isspace", "isupper", "islower", "zfill", "center", "translate",
           "encode", "expandtabs", "casefold", "capitalize", "swapcase", "removeprefix", "removesuffix", "__lt__", "__gt__", "__le__", "__ge__", "__mod__", "__mul__", "format"):
    setattr(Sym, _n, _no(_n))


class Idx:
    """the position of the last dot of a printed method: the end of the receiver"""

    def __init__(self, off=0):
        self.off = off

    def __add__(self, n):
        return Idx(self.off + n)


class FuncText(str):
    """the printed form of <receiver>.<method>: the text of the receiver, a dot
    and the name, which has no dot in it"""

    def __new__(cls, base, attr):
        self = str.__new__(cls, base + "." + attr)
        self.base, self.attr = base, attr
        return self

    def strip(self, *a):
        if a in ((), ("\n",)):
            return self
        raise Unsupported("strip of a printed method")

    rstrip = strip

    def rfind(self, c, *a):
        if c == "." and not a:
            return Idx()
        raise Unsupported("rfind in a printed method")

    rindex = rfind

    def rsplit(self, c=None, n=-1):
        if c == "." and n == 1:
            return [Sym(self.base), self.attr]
        raise Unsupported("rsplit of a printed method")

    def rpartition(self, c):
        if c == ".":
            return (Sym(self.base), ".", self.attr)
        raise Unsupported("rpartition of a printed method")

    def removesuffix(self, t):
        if t == "." + self.attr:
            return Sym(self.base)
        raise Unsupported("removesuffix of a printed method")

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step is None:
            if i.start in (None, 0) and isinstance(i.stop, Idx) and i.stop.off == 0:
                return Sym(self.base)
            if isinstance(i.start, Idx) and i.start.off in (0, 1) and i.stop is None:
                return ("." if i.start.off == 0 else "") + self.attr
        raise Unsupported("a part of a printed method")

    def __bool__(self):
        return True


for _n in ("split", "splitlines", "find", "index", "count", "__len__", "__iter__", "upper", "lower", "title", "join", "partition", "replace", "startswith", "endswith", "__contains__",
           "lstrip", "isidentifier", "translate", "encode", "casefold", "removeprefix", "__eq__", "__ne__", "__lt__", "__gt__", "__mod__", "__mul__", "format"):
    setattr(FuncText, _n, (lambda nm: lambda self, *a, **k: (_ for _ in ()).throw(Unsupported("str.%s of a printed method" % nm)))(_n))
FuncText.__hash__ = str.__hash__


class AstorProxy:
    """astor with its contract: the text of a placeholder is a symbolic text"""

    def __getattr__(self, n):
        import astor

        if n != "to_source":
            raise Unsupported("astor." + n)

        def to_source(node, *a, **k):
            if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == "RECV":
                return FuncText("RECV", node.attr)
            if isinstance(node, ast.Name) and (node.id.startswith("A_") or node.id == "RECV"):
                return Sym(node.id)
            if any(isinstance(q, ast.Name) and (q.id.startswith("A_") or q.id == "RECV") for q in ast.walk(node)):
                raise Unsupported("the text of an expression around an argument")
            return astor.to_source(node, *a, **k)

        return to_source


MANY = 9


def count(base, least):
    """the number of arguments: any; MANY stands for more than the rule distinguishes"""
    for t in range(least, MANY):
        if Path.cur.decide(base, (), "count", t):
            return t
    return MANY


def counted(r, base):
    """the number of arguments on the path, or 0"""
    ks = [k[3] for k, t in r.path.memo.items() if k[0] == base and k[2] == "count" and t]
    if ks:
        return ks[0]
    return MANY if any(k[0] == base and k[2] == "count" for k in r.path.memo) else 0


class AbsArgs:
    """the texts of the positional arguments (contract of parse_args)"""

    def __bool__(self):
        return Path.cur.decide("ARGS", (), "==", "some")

    def __getattr__(self, n):
        raise Unsupported("the positional arguments one by one: " + n)

    def __iter__(self):
        raise Unsupported("the positional arguments one by one")

    def __len__(self):
        if not self:
            return 0
        return count("ARGS", 1)

    def __getitem__(self, i):
        raise Unsupported("the positional arguments one by one")


class AbsKwargs:
    """the keyword arguments (contract of parse_kwargs): any set of names"""

    def __init__(self):
        self.removed = []

    def __len__(self):
        memo = Path.cur.memo
        return count("KW", sum(1 for k, t in memo.items() if k[2] == "kw" and t)) - len(self.removed)

    def has(self, k):
        memo = Path.cur.memo
        if any(q[0] == "KW" and q[2] == "count" and t and q[3] <= sum(1 for j, u in memo.items() if j[2] == "kw" and u and j[3] != str(k)) for q, t in memo.items()):
            return False
        return k not in self.removed and Path.cur.decide("KW", (), "kw", str(k))

    def __contains__(self, k):
        return self.has(k)

    def pop(self, k, *d):
        if not self.has(k):
            if d:
                return d[0]
            raise KeyError(k)
        self.removed.append(k)
        return "KWVALUE_%s" % k

    def __delitem__(self, k):
        self.pop(k)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        raise Unsupported("the keyword arguments one by one")

    def __getitem__(self, k):
        raise Unsupported("the value of a keyword argument")

    def __setitem__(self, k, v):
        raise Unsupported("a new keyword argument")

    def __getattr__(self, n):
        raise Unsupported("the keyword arguments: " + n)


class ReProxy:
    def __getattr__(self, name):
        real = getattr(re, name)
        if name in ("search", "match", "fullmatch", "sub", "findall", "split", "finditer"):
            def f(*a, **k):
                if any(isinstance(x, Sym) for x in a):
                    if name in ("search", "match") and len(a) == 2 and not k and not isinstance(a[0], Sym):
                        return Path.cur.decide(a[1].base, a[1].chain, "re" if name == "search" else "match", a[0])
                    if name == "sub" and len(a) == 3 and not k and isinstance(a[0], str) and isinstance(a[1], str) and isinstance(a[2], Sym):
                        return a[2]._derive("sub", a[0], a[1])
                    raise Unsupported("re.%s of an argument text" % name)
                return real(*a, **k)

            return f
        return real


def sym_int(*a, **k):
    if a and isinstance(a[0], Sym):
        if len(a) > 1 or k:
            raise Unsupported("int with a base")
        return SymInt(a[0].base, a[0].chain)
    return int(*a, **k)


def sym_eval(x, *a):
    if isinstance(x, Sym):
        raise Unsupported("eval of an argument text")
    return eval(x, *a)


class Result:
    __slots__ = ("text", "tree", "kind", "path", "error", "helper", "args")


class Env:
    """one rule object for one API, the module patched for symbolic execution"""

    def __init__(self, api, en, mode="default", origin=None):
        import paconvert.api_matcher as M
        import paconvert.base as B

        self.M, self.B, self.api, self.en, self.mode, self.origin = M, B, api, en, mode, origin or api
        self.cls = getattr(M, en["Matcher"])

    def __enter__(self):
        BM = self.B.BaseMatcher
        self.saved = [(o, n, o.__dict__.get(n)) for o, n in ((self.M, "re"), (self.M, "int"), (self.M, "eval"), (self.M, "astor"), (self.B, "re"), (self.B, "astor"),
                                                             (BM, "enable_utils_code"), (BM, "parse_args"), (BM, "parse_kwargs"), (BM, "args_and_kwargs_to_str"))]
        env = self

        def enable(m):
            t = m.generate_utils_code()
            if t:
                env.helper.append(t)

        self.M.re = ReProxy()
        self.M.int = sym_int
        self.M.eval = sym_eval
        self.M.astor = self.B.astor = AstorProxy()
        self.B.re = ReProxy()
        BM.enable_utils_code = enable
        return self

    def __exit__(self, *a):
        for o, n, v in self.saved:
            if v is None:
                if n in o.__dict__:
                    delattr(o, n)
            else:
                setattr(o, n, v)

    def abstract_arguments(self):
        """the arguments are replaced by the contracts of the functions that parse and
        print them (C07, C08): any arguments"""
        env = self
        BM = self.B.BaseMatcher

        def parse_kwargs(m, kwargs, allow_none=False):
            if not allow_none:
                raise Unsupported("parse_kwargs without allow_none")
            if m.api_mapping_dict.get("unsupport_args"):
                raise Unsupported("unsupported arguments in the table")
            return AbsKwargs()

        def text(m, args, kwargs):
            if not isinstance(args, AbsArgs) or not isinstance(kwargs, AbsKwargs):
                raise Unsupported("other arguments")
            env.removed = list(kwargs.removed)
            return "ARGS_TEXT"

        BM.parse_args = lambda m, args: AbsArgs()
        BM.parse_kwargs = parse_kwargs
        BM.args_and_kwargs_to_str = text

    def matcher(self):
        import copy
        import logging

        en = self.given = copy.deepcopy(self.en)
        # anything of the transformer the rule asks for is outside this contract
        m = self.cls(Opaque(self.mode), self.api, self.origin, en, logging.getLogger("none"))
        meth = gen.class_method_of(self.api)
        if meth:
            m.parse_func(self.func())
        return m

    def func(self):
        return ast.parse("RECV." + gen.class_method_of(self.api), mode="eval").body

    def paths(self, names, call=None):
        """every path of generate_code for a call passing the named arguments"""
        call = call or (lambda m: m.generate_code({k: Sym("A_" + k) for k in names}))
        todo = [[]]
        n = 0
        while todo:
            p = Path(todo.pop())
            n += 1
            if n > MAXPATHS:
                raise Unsupported("too many paths")
            Path.cur = p
            r = Result()
            r.path, r.error, r.tree, r.kind, r.args = p, None, None, None, list(names)
            self.helper = []
            try:
                out = call(self.matcher())
                self.outcome(r, out)
            except Unsupported:
                raise
            except RecursionError:
                raise Unsupported("recursion")
            except Exception as e:
                r.kind = "error"
                r.error = common.tb_short(e)
            r.helper = list(self.helper)
            todo += p.alts
            yield r

    def outcome(self, r, out):
        if out is None:
            r.kind = "unsupported"
        elif isinstance(out, str) and not isinstance(out, Sym) and out in ("misidentify", "unchange"):
            r.kind = out
        elif isinstance(out, str):
            text = str(out)
            # a pinned text is that text
            text = re.sub(r"\bA_\w+|\bRECV\w*", lambda m: self.final(r.path, m.group()), text)
            r.text = text
            r.kind = "code" if text.strip() else "unsupported"
            if r.kind == "code":
                try:
                    r.tree = ast.parse(text)
                except SyntaxError as e:
                    r.kind = "error"
                    r.error = "the generated code does not parse: %s\n%s" % (e, text)
        elif isinstance(out, list) and all(isinstance(n, ast.AST) for n in out):
            self.outcome(r, ast.unparse(ast.Module(body=out, type_ignores=[])))
        elif isinstance(out, ast.AST):
            r.kind = "code"
            r.tree = out if isinstance(out, ast.Module) else ast.Module(body=[ast.Expr(out)], type_ignores=[])
            r.text = ast.unparse(r.tree)
        else:
            r.kind = "error"
            r.error = "the rule returned %r" % (out,)

    def final(self, p, name):
        base, d = name, None
        if "__d" in name and name.rsplit("__d", 1)[1].isdigit():
            base, d = name.rsplit("__d", 1)
        if d is not None and int(d) < len(p.fuzzy):
            b, chain = p.fuzzy[int(d)]
            v = p.value(b, chain)
            return v if v is not None else name
        v = p.value(base, ())
        return v if v is not None else name


class Opaque:
    def __init__(self, mode="default"):
        self.__dict__["_mode"] = mode

    def __getattr__(self, n):
        if n == "mode":
            return self.__dict__["_mode"]
        raise Unsupported("the rule uses transformer." + n)


def eligible(cls):
    """the rules which only define how code is generated from bound arguments"""
    for k in cls.__mro__:
        if k.__name__ == "BaseMatcher":
            return True
        if any(n in vars(k) for n in ("get_paddle_nodes", "get_paddle_class_nodes")):
            return False
    return False


def parses(en):
    import paconvert.api_matcher as M

    return any("parse_args_and_kwargs" in vars(k) for k in getattr(M, en["Matcher"]).__mro__ if k.__name__ not in ("BaseMatcher", "object"))


def argument_sets(api, en):
    """every set of arguments a legal call may pass, required ones included"""
    pos, kwo, va, vk, req = explore.signature(api, explore.REQUIRED.get(api))
    if va:
        return None
    if vk and parses(en):
        # the rule binds arguments itself and takes any keyword
        kwo = kwo + ["other_kw"]
    uns = set(en.get("unsupport_args") or [])
    over = list(en.get("overload_args_list") or [])
    allk = list(dict.fromkeys(p for p in pos + kwo + over if p not in uns))
    if req & uns:
        return []
    opt = [p for p in allk if p not in req]
    if len(opt) > 13:
        return None
    out = []
    for k in range(1 << len(opt)):
        have = req | {p for i, p in enumerate(opt) if k >> i & 1}
        if sum(1 for p in have if p not in kwo) > len(pos) and pos:
            continue
        if sum(1 for p in have if p not in kwo) < (en.get("min_input_args") or 0):
            continue
        if api in explore.NEED and not any(a <= have for a in explore.NEED[api]):
            continue
        out.append([p for p in allk if p in have])
    return out


def illegal(api, r):
    """a call PyTorch itself rejects"""
    if api in explore.NEED:
        have = {a for a in r.args if r.path.pin.get("A_" + a) != "None"}
        return not any(q <= have for q in explore.NEED[api])
    return False


def witness(r, api):
    """source texts of the arguments that take this path in the real code, or None"""
    import astor

    vals = {}
    p = r.path
    for a in r.args:
        base = "A_" + a
        if base in p.pin:
            c = [p.pin[base]]
        else:
            c = [base]
            for (q, ch, op, lit), t in p.memo.items():
                if q == base and t:
                    c += explore.literal_sources("in" if op in ("re", "match") else op, str(lit), a) if op not in ("isdigit", "int==") else ["0", "1", "12"]
                    c += ["'%s'" % str(lit)]
            c += explore.pool(a)
        ok = None
        for s in c:
            try:
                text = astor.to_source(ast.parse(s, mode="eval").body).strip("\n")
            except Exception:
                continue
            if base in p.pin and text != p.pin[base]:
                continue
            try:
                if all(holds(apply_chain(text, ch), op, lit) == t for (q, ch, op, lit), t in p.memo.items() if q == base):
                    ok = s
                    break
            except Exception:
                continue
        if ok is None:
            return None
        vals[a] = ok
    return vals


# ------------------------------------------------------------------ C16
def _allowed_names():
    import builtins

    from paconvert.global_var import GlobalManager

    ok = set(dir(builtins)) | {"paddle", "__file__"}
    for v in GlobalManager.TORCH_PACKAGE_MAPPING.values():
        ok.add(v.split(".")[0])
    return ok


def helper_names(texts):
    d = set()
    for t in texts:
        for n in ast.walk(ast.parse(t)):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                d.add(n.name)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                d.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                d |= {(a.asname or a.name).split(".")[0] for a in n.names}
    return d


def post_c16(api, r, tab, allowed):
    """the postcondition of a rule on one path; a text says what fails"""
    from props import c16

    if r.kind in ("unsupported", "misidentify", "unchange"):
        return None
    if r.kind == "error":
        return "the rule fails: %s" % r.error
    body = r.tree.body
    if not isinstance(body[-1], ast.Expr):
        return "the last statement of the generated code is not an expression\n%s" % r.text
    names = {n.id for n in ast.walk(r.tree) if isinstance(n, ast.Name)}
    marks = {"A_" + a for a in r.args}
    derived = {"%s__d%d" % (b, i): b for i, (b, ch) in enumerate(r.path.fuzzy)}
    # derived texts are taken for expressions only where the text is merely
    # renamed inside; a cut text has to be quoted by the rule
    for i, (b, ch) in enumerate(r.path.fuzzy):
        if "%s__d%d" % (b, i) in names and any(f in ("slice", "strip", "lstrip", "rstrip") for f, _ in ch):
            raise Unsupported("a cut text is used as an expression")
    und = c16.undefined(r.tree, allowed | marks | set(derived) | {"RECV"} | helper_names(r.helper))
    if und:
        return "the generated code uses names that nothing defines: %s\n%s" % (sorted(und), r.text)
    present = names | {derived[n] for n in derived if n in names or n in r.text}
    for a in r.args:
        if "A_" + a in r.path.pin or "A_" + a in present or any(t and op == "int==" for (q, ch, op, l), t in r.path.memo.items() if q == "A_" + a):
            continue
        if not c16.droppable(api, a, r.args, tab):
            return "the argument of %s does not occur in the generated code\n%s" % (a, r.text)
    pl = plain(r)
    t = tab.get(api, {}).get("roles" if pl else "vroles", {})
    for a, got in places(r, names):
        rec = t.get(a)
        if rec is not None and (got not in rec if pl else not set(got) <= set(rec)):
            return "%s is used as %s, the contract of the rule allows %s\n%s" % (a, got, rec, r.text)
    return None


def plain(r):
    """the path of a call whose arguments are plain names"""
    return not r.path.pin and all(holds(apply_chain(q, ch), op, lit) == t for (q, ch, op, lit), t in r.path.memo.items())


def places(r, names):
    from props import c16

    for a in list(r.args) + ["RECV"]:
        m = a if a == "RECV" else "A_" + a
        if m in names:
            yield a, sorted(c16.roles(r.tree, m))


def collect(api, en):
    """the places of the arguments on all paths (to write the contract table)"""
    import paconvert.api_matcher as M

    fam, un = {}, {}
    if not eligible(getattr(M, en["Matcher"])):
        return None
    sets = argument_sets(api, en)
    if not sets:
        return None
    with Env(api, en) as env:
        for names in sets:
            for order in ([names] if len(names) < 2 else [names, names[::-1]]):
                for r in env.paths(order):
                    if r.kind != "code":
                        continue
                    ids = {n.id for n in ast.walk(r.tree) if isinstance(n, ast.Name)}
                    for a, got in places(r, ids):
                        if plain(r):
                            fam.setdefault(a, set()).add(tuple(got))
                        un.setdefault(a, set()).update(got)
    return {a: sorted(map(list, v)) for a, v in sorted(fam.items())}, {a: sorted(v) for a, v in sorted(un.items())}


def work_c16(item):
    api, en = item
    from props import c16
    import paconvert.api_matcher as M
    from vlib import rules as R

    t0 = time.time()
    res = dict(api=api, status="discharged", paths=0, sets=0, why="", viol=None, solver=0.0, cls=en["Matcher"])
    cls = getattr(M, en["Matcher"], None)
    tab = c16.contract_table()
    try:
        if cls is None or not eligible(cls):
            raise Unsupported("the rule does not work on bound arguments alone")
        sets = argument_sets(api, en)
        if not sets:
            raise Unsupported("no finite set of argument names" if sets is None else "a required argument is not supported")
        allowed = _allowed_names()
        bad = []
        with Env(api, en) as env:
            for names in sets:
                res["sets"] += 1
                for order in ([names] if len(names) < 2 else [names, names[::-1]]):
                    for r in env.paths(order):
                        if illegal(api, r):
                            continue
                        res["paths"] += 1
                        res["solver"] += r.path.solver_s
                        why = post_c16(api, r, tab, allowed)
                        if why:
                            bad.append((why, witness(r, api), order))
                            break
                if len(bad) > 20:
                    break
        for why, vals, order in bad:
            if vals is None:
                continue
            # replay on the real converter
            q = R.run(api, [], [(k, vals[k]) for k in order])
            try:
                c16.judge(api, q, order, vals, tab)
            except common.Violation as v:
                res["status"] = "refuted"
                res["viol"] = dict(what=v.what, has_input=True, **v.detail)
                res["why"] = why
                break
        else:
            if bad:
                raise Unsupported("not confirmed by a run of the converter: " + bad[0][0][:400])
    except Unsupported as e:
        res["status"], res["why"] = "undecided", str(e)
    except Exception as e:
        res["status"], res["why"] = "undecided", "verifier: " + common.tb_short(e)
    res["secs"] = time.time() - t0
    return res


def prove_c16(chk):
    from props import c16

    T = gen.tables()
    items = [(a, T.api[a]) for a in c16.hand_written() if T.api.get(a)]
    items.sort(key=lambda q: -len(q[1].get("args_list") or []))
    record(chk, "C16.rule", common.pmap(work_c16, items, chunk=1), "keeps the arguments, in their places, in well-formed code")


OUTSIDE = ("the rule does not work on bound arguments alone", "no finite set of argument names", "a required argument is not supported")


def record(chk, name, results, what):
    quiet = bool(os.environ.get("VERIF_DEBUG"))
    out = []
    for r in results:
        fn = r["cls"] + "." + r.get("meth", "generate_code")
        if r["status"] == "undecided" and r["why"] in OUTSIDE:
            out.append("%s (%s)" % (r["api"], r["cls"]))
            continue
        chk.obligations.append(dict(name="%s[%s, %s] %s" % (name, fn, r["api"], what), status=r["status"], backend="rulevc+z3", secs=r["secs"],
                                    vcs=r["paths"], why=r["why"], function=fn, info=""))
        if quiet and r["status"] != "discharged":
            print("   %s %s (%s): %s" % (r["status"], r["api"], r["cls"], r["why"]))
        d = chk.functions.setdefault("api_matcher." + fn, dict(obligations=0, vcs=0, paths=0, contracts=[]))
        d["obligations"] += 1
        d["vcs"] += r["paths"]
        d["paths"] += r["paths"]
        d["contracts"].append("%s %s: %d argument sets" % (name, r["api"], r["sets"]))
        chk.solver_s += r["solver"]
        if r["viol"]:
            v = dict(r["viol"])
            w = v.pop("what")
            hi = v.pop("has_input", True)
            chk.violation(w, replay=hi, obligation=r["why"], **v)
    if out:
        chk.notes.append("%s: outside the reach of rulevc (rules that work on the nodes of the call or take any number of arguments), bounded check only: %s" % (name, ", ".join(out)))
    for a in ("rulevc: the text of an argument is a closed expression text (astor), so a placeholder name may stand for it",
              "rulevc: a comparison the rule makes with text it has itself built around an argument is decided on the placeholder",
              "rulevc: the order of the arguments in the call is explored forwards and backwards only"):
        if a not in chk.assumptions:
            chk.assumptions.append(a)


# ------------------------------------------------------------------ C08
def post_c08(api, en, r):
    from props import c08

    if r.kind == "error":
        return "the rule fails: %s" % r.error
    if r.kind != "code":
        return "the call is reported as %s although it is legal and the API is mapped" % r.kind
    if r.path.fuzzy:
        raise Unsupported("the rule works on a changed argument text")
    kws = []
    for a in r.args:
        lit = r.path.pin.get("A_" + a)
        kws.append((a, "A_" + a if lit is None else ast.unparse(ast.parse(lit, mode="eval").body)))
    pre, last = c08.spec(api, en, [], kws, "RECV")
    exp = ast.parse((pre or "") + last).body
    got = r.tree.body
    if [c08.canon(n) for n in exp] != [c08.canon(n) for n in ast.parse(r.text).body]:
        return "generated\n%s\nbut the table asks for\n%s" % (r.text, "\n".join(map(ast.unparse, exp)))
    return None


def work_c08(item):
    api, en = item
    from props import c08
    import paconvert.api_matcher as M

    t0 = time.time()
    res = dict(api=api, status="discharged", paths=0, sets=0, why="", viol=None, solver=0.0, cls=en["Matcher"])
    cls = getattr(M, en["Matcher"], None)
    try:
        if cls is None or not eligible(cls):
            raise Unsupported("the rule does not work on bound arguments alone")
        sets = argument_sets(api, en)
        if not sets:
            raise Unsupported("no finite set of argument names" if sets is None else "a required argument is not supported")
        groups = c08._exclusive(en)
        bad = []
        with Env(api, en) as env:
            for names in sets:
                if any(len(g & set(names)) > 1 for g in groups):
                    continue
                res["sets"] += 1
                for r in env.paths(names if res["sets"] % 2 else names[::-1]):
                    res["paths"] += 1
                    res["solver"] += r.path.solver_s
                    why = post_c08(api, en, r)
                    if why:
                        bad.append((why, witness(r, api), r.args))
                        break
                if len(bad) > 20:
                    break
        for why, vals, order in bad:
            if vals is None:
                continue
            try:
                c08.judge(api, en, [], [(k, vals[k]) for k in order], "x", "res = {}")
            except common.Violation as v:
                res["status"], res["why"] = "refuted", why
                res["viol"] = dict(what=v.what, has_input=True, **v.detail)
                break
        else:
            if bad:
                raise Unsupported("not confirmed by a run of the converter: " + bad[0][0][:400])
    except Unsupported as e:
        res["status"], res["why"] = "undecided", str(e)
    except Exception as e:
        res["status"], res["why"] = "undecided", "verifier: " + common.tb_short(e)
    res["secs"] = time.time() - t0
    return res


def work_c08_prefix(item):
    """a rule which passes the arguments on: any arguments, by the contracts of
    parse_args, parse_kwargs and args_and_kwargs_to_str"""
    api, en = item
    from props import c08

    t0 = time.time()
    res = dict(api=api, status="discharged", paths=0, sets=1, why="", viol=None, solver=0.0, cls=en["Matcher"], meth="get_paddle_nodes")
    meth = gen.class_method_of(api)
    try:
        with Env(api, en) as env:
            env.abstract_arguments()
            drop = c08.NO_COUNTERPART[en["Matcher"]]
            want = ast.dump(ast.parse("%s(ARGS_TEXT)" % c08.target(api, en, "RECV")))
            call = (lambda m: m.get_paddle_class_nodes(env.func(), None, None)) if meth else (lambda m: m.get_paddle_nodes(None, None))
            bad = None
            for r in env.paths([], call):
                res["paths"] += 1
                has = {k[3] for k, t in r.path.memo.items() if k[2] == "kw" and t}
                hasnot = {k[3] for k, t in r.path.memo.items() if k[2] == "kw" and not t}
                if r.kind == "error":
                    bad = "the rule fails: " + r.error
                elif r.kind != "code" or ast.dump(ast.parse(r.text)) != want:
                    bad = "generated %s, the table asks for %s(<the arguments>)" % (r.text if r.kind == "code" else r.kind, c08.target(api, en, "RECV"))
                elif set(env.removed) - set(drop):
                    bad = "the argument %s is dropped" % sorted(set(env.removed) - set(drop))
                elif any(k not in env.removed and k not in hasnot for k in drop):
                    bad = "an argument without Paddle counterpart is passed on"
                if bad:
                    break
        if bad:
            try:
                more = ["kw_%d" % i for i in range(MANY)]
                many = (sorted(has | set(env.removed)) + more)[: max(counted(r, "KW"), len(has))]
                for ks in (sorted(has | set(env.removed)), many, drop, ["dim"]):
                    c08.judge(api, en, ["A_0"], [(k, "A_" + k) for k in ks if k not in (en.get("unsupport_args") or [])], "x", "res = {}")
            except common.Violation as v:
                res["status"], res["why"] = "refuted", bad
                res["viol"] = dict(what=v.what, has_input=True, **v.detail)
            else:
                raise Unsupported("not confirmed by a run of the converter: " + bad)
    except Unsupported as e:
        res["status"], res["why"] = "undecided", str(e)
    except Exception as e:
        res["status"], res["why"] = "undecided", "verifier: " + common.tb_short(e)
    res["secs"] = time.time() - t0
    return res


def prove_c08(chk):
    T = gen.tables()
    items = [(a, e) for a, e in T.api.items() if e.get("Matcher") == "GenericMatcher"]
    items.sort(key=lambda q: -len(q[1].get("args_list") or []))
    record(chk, "C08.rule", common.pmap(work_c08, items, chunk=1), "generates what the table asks for")
    items = [(a, e) for a, e in T.api.items() if e.get("Matcher") in ("ChangePrefixMatcher", "ChangeAPIMatcher") and not a.startswith("torch.torch.")]
    record(chk, "C08.rule", common.pmap(work_c08_prefix, items), "calls the tabled API with the arguments of the call")


# ------------------------------------------------------------------ C11
def last_dot_lemma():
    """the last dot of R + "." + m is the one in front of m, if m has no dot"""
    from cvc5 import pythonic as c

    t0 = time.time()
    R, m, a, b = c.Strings("R m a b")
    s = c.Solver()
    s.setOption("strings-exp", "true")
    s.setOption("tlimit-per", "20000")
    dot = c.StringVal(".")
    # the text also splits as a + "." + b with no dot in b, and a is not R
    s.add(c.Not(c.Contains(m, dot)), c.Concat(R, dot, m) == c.Concat(a, dot, b), c.Not(c.Contains(b, dot)), a != R)
    r = s.check()
    return dict(name="C11.lemma the last dot of the printed method is the end of its receiver", status="discharged" if r == c.unsat else "undecided", backend="cvc5", secs=time.time() - t0,
                vcs=1, why=str(r), function="BaseMatcher.parse_func", info=""), time.time() - t0


def work_c11(item):
    api, en, kind = item
    from props import c11
    from props import c08
    import paconvert.api_matcher as M

    t0 = time.time()
    res = dict(api=api + (" (attribute)" if kind == "attr" else ""), status="discharged", paths=0, sets=0, why="", viol=None, solver=0.0, cls=en["Matcher"],
               meth="get_paddle_class_attribute_nodes" if kind == "attr" else "get_paddle_class_nodes")
    cls = getattr(M, en["Matcher"], None)
    try:
        bad = []
        with Env(api, en) as env:
            if kind == "attr":
                plan = [([], lambda m: m.get_paddle_class_attribute_nodes(env.func()))]
            elif en["Matcher"] in ("ChangePrefixMatcher", "ChangeAPIMatcher"):
                env.abstract_arguments()
                plan = [([], lambda m: m.get_paddle_class_nodes(env.func(), None, None))]
            else:
                if cls is None or not eligible(cls):
                    raise Unsupported("the rule does not work on bound arguments alone")
                sets = argument_sets(api, en)
                if not sets:
                    raise Unsupported("no finite set of argument names" if sets is None else "a required argument is not supported")
                plan = [(q, None) for q in sets]
            for names, call in plan:
                res["sets"] += 1
                for r in env.paths(names, call):
                    res["paths"] += 1
                    res["solver"] += r.path.solver_s
                    if illegal(api, r):
                        continue
                    why = None
                    if r.kind == "error":
                        why = "the rule fails: " + r.error
                    elif r.kind == "code" and "RECV" not in {n.id for n in ast.walk(r.tree) if isinstance(n, ast.Name)}:
                        why = "the receiver does not occur in the generated code\n" + r.text
                    if why:
                        bad.append((why, witness(r, api) if r.kind != "error" else {k: "A_" + k for k in names}))
                        break
                if len(bad) > 10:
                    break
        m = gen.class_method_of(api)
        for why, vals in bad:
            if vals is None:
                continue
            try:
                for rv in ("x", "x['\\\\1']", "x['.']", "fn(a.b)[0]"):
                    use = "%s.%s" % (rv, m) if kind == "attr" else "%s.%s(%s)" % (rv, m, ", ".join("%s=%s" % kv for kv in vals.items()))
                    c11.check(api, rv, use)
            except common.Violation as v:
                res["status"], res["why"] = "refuted", why
                res["viol"] = dict(what=v.what, has_input=True, **v.detail)
                break
        else:
            if bad:
                raise Unsupported("not confirmed by a run of the converter: " + bad[0][0][:400])
    except Unsupported as e:
        res["status"], res["why"] = "undecided", str(e)
    except Exception as e:
        res["status"], res["why"] = "undecided", "verifier: " + common.tb_short(e)
    res["secs"] = time.time() - t0
    return res


def prove_c11(chk):
    T = gen.tables()
    ob, secs = last_dot_lemma()
    chk.obligations.append(ob)
    chk.solver_s += secs
    items = []
    for tab, kinds in ((T.api, ("call",)), (T.attr, ("attr",))):
        for a, e in sorted(tab.items()):
            if gen.class_method_of(a) and e.get("Matcher"):
                items += [(a, e, k) for k in kinds]
    items.sort(key=lambda q: -len(q[1].get("args_list") or []))
    record(chk, "C11.receiver", common.pmap(work_c11, items), "the receiver occurs in the generated code, unchanged")


# ------------------------------------------------------------------ C14
STATE_SKIP = {"CPP_EXTENSION_LIST", "AUTOGRAD_FUNC_NODES", "Generator"}  # set back by run, numbers of names (c_state.py)


def _plain_state(v):
    return isinstance(v, (list, dict, set, bytearray)) or type(v).__module__ == "collections"


def state():
    """what outlives a rule: containers of the modules and classes, defaults, the tables"""
    import types

    import paconvert.api_matcher as M
    import paconvert.base as B
    import paconvert.utils as U
    from paconvert.global_var import GlobalManager as G

    out = {}

    def func(q, f):
        if isinstance(f, (staticmethod, classmethod)):
            f = f.__func__
        if isinstance(f, types.FunctionType):
            for i, d in enumerate(f.__defaults__ or ()):
                if _plain_state(d):
                    out[q + " default %d" % i] = repr(d)
            for k, d in (f.__kwdefaults__ or {}).items():
                if _plain_state(d):
                    out[q + " default " + k] = repr(d)
            if f.__dict__:
                out[q + " attributes"] = repr(sorted(f.__dict__))

    for mod in (M, B, U):
        for n, v in list(vars(mod).items()):
            if n.startswith("__") or n in STATE_SKIP:
                continue
            if _plain_state(v):
                out[mod.__name__ + "." + n] = repr(v)
            elif isinstance(v, type) and v.__module__ == mod.__name__:
                out[mod.__name__ + "." + n + " names"] = repr(sorted(vars(v)))
                for k, w in list(vars(v).items()):
                    if _plain_state(w):
                        out["%s.%s.%s" % (mod.__name__, n, k)] = repr(w)
                    func("%s.%s.%s" % (mod.__name__, n, k), w)
            else:
                func(mod.__name__ + "." + n, v)
    for k, v in vars(G).items():
        if _plain_state(v):
            out["GlobalManager." + k] = repr(v)
    return out


def work_c14(item):
    api, en = item
    import paconvert.api_matcher as M
    from vlib import rules as R

    t0 = time.time()
    res = dict(api=api, status="discharged", paths=0, sets=0, why="", viol=None, solver=0.0, cls=en["Matcher"])
    cls = getattr(M, en["Matcher"], None)
    meth = gen.class_method_of(api)
    try:
        with Env(api, en) as env:
            if en["Matcher"] in ("ChangePrefixMatcher", "ChangeAPIMatcher"):
                env.abstract_arguments()
                plan = [([], (lambda m: m.get_paddle_class_nodes(env.func(), None, None)) if meth else (lambda m: m.get_paddle_nodes(None, None)))]
                res["meth"] = "get_paddle_nodes"
            else:
                if cls is None or not eligible(cls):
                    raise Unsupported("the rule does not work on bound arguments alone")
                sets = argument_sets(api, en)
                if not sets:
                    raise Unsupported("no finite set of argument names" if sets is None else "a required argument is not supported")
                plan = [(q, None) for q in sets]
            s0 = state()
            bad = None
            for names, call in plan:
                res["sets"] += 1
                for r in env.paths(names, call):
                    res["paths"] += 1
                    res["solver"] += r.path.solver_s
                    if env.given != env.en:
                        ks = [k for k in set(env.given) | set(env.en) if env.given.get(k) != env.en.get(k)]
                        bad = ("the rule changes %s of its table entry: %r" % (ks, {k: env.given.get(k) for k in ks}), r, names)
                        break
                if bad:
                    break
            s1 = state()
            if s0 != s1 and not bad:
                bad = ("the rule changes %s" % sorted(k for k in set(s0) | set(s1) if s0.get(k) != s1.get(k)), r, names)
        if bad:
            why, r, names = bad
            vals = (witness(r, api) or {k: "A_" + k for k in names})
            before = state()
            R.run(api, [], [(k, vals[k]) for k in names])
            after = state()
            ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
            # other state may be a cache, which does no harm: the bounded check decides
            ch = [k for k in ch if k.startswith("GlobalManager.")]
            if ch:
                res["status"], res["why"] = "refuted", why
                res["viol"] = dict(what="a conversion changes %s" % ", ".join(ch), has_input=True, api=api, arguments={k: vals[k] for k in names},
                                   before={k: str(before.get(k))[:300] for k in ch}, after={k: str(after.get(k))[:300] for k in ch})
            else:
                raise Unsupported("not confirmed by a run of the converter: " + why[:400])
    except Unsupported as e:
        res["status"], res["why"] = "undecided", str(e)
    except Exception as e:
        res["status"], res["why"] = "undecided", "verifier: " + common.tb_short(e)
    res["secs"] = time.time() - t0
    return res


def prove_c14(chk):
    T = gen.tables()
    items = [(a, e) for a, e in T.api.items() if e.get("Matcher") and not a.startswith("torch.torch.")]
    items.sort(key=lambda q: -len(q[1].get("args_list") or []))
    record(chk, "C14.rule", common.pmap(work_c14, items, chunk=1), "leaves the tables, classes and defaults as they were")


# ------------------------------------------------------------------ C15
PREFIX = "ChangePrefixMatcher"
ORIGIN = "ORIG.name"


def work_c15(item):
    """a prefix-only rule in min mode: the code is the spelling of the program and the
    arguments as written, apart from the keywords without Paddle counterpart"""
    api, en, where = item
    from props import c15

    t0 = time.time()
    res = dict(api=api, status="discharged", paths=0, sets=1, why="", viol=None, solver=0.0, cls=en["Matcher"], meth="get_paddle_nodes")
    meth = gen.class_method_of(api)
    try:
        with Env(api, en, "min", ORIGIN) as env:
            env.abstract_arguments()
            node = ast.parse("RECV." + (meth or "name"), mode="eval").body
            same = lambda r: r.kind == "unchange" or r.kind == "code" and ast.dump(r.tree) == ast.dump(ast.parse(ORIGIN))
            todo = []
            if where == "attr" and meth:
                todo.append(("attribute", lambda m: m.get_paddle_class_attribute_nodes(node), lambda r: r.kind == "unchange"))
            elif where == "attr":
                todo.append(("attribute", lambda m: m.get_paddle_api(), same))
            elif meth:
                todo.append(("call", lambda m: m.get_paddle_class_nodes(node, None, None), "RECV." + meth))
            if where != "attr":
                # by its name, a method is called through its class
                todo.append(("attribute", lambda m: m.get_paddle_api(), same))
                todo.append(("call", lambda m: m.get_paddle_nodes(None, None), ORIGIN))
            bad = None
            for what, call, want in todo:
                for r in env.paths([], call):
                    res["paths"] += 1
                    has = {k[3] for k, t in r.path.memo.items() if k[2] == "kw" and t}
                    hasnot = {k[3] for k, t in r.path.memo.items() if k[2] == "kw" and not t}
                    if r.kind == "error":
                        bad = "the rule fails: " + r.error
                    elif callable(want):
                        if not want(r):
                            bad = "the %s becomes %s" % (what, r.text if r.kind == "code" else r.kind)
                    elif r.kind == "unchange":
                        pass
                    elif r.kind != "code" or ast.dump(ast.parse(r.text)) != ast.dump(ast.parse(want + "(ARGS_TEXT)")):
                        bad = "the call %s(<the arguments>) becomes %s" % (want, r.text if r.kind == "code" else r.kind)
                    elif set(env.removed) - set(c15.DROPPED):
                        bad = "the argument %s is dropped" % sorted(set(env.removed) - set(c15.DROPPED))
                    if bad:
                        break
                if bad:
                    break
        if bad:
            try:
                ks = sorted((has | set(getattr(env, "removed", ()))) - set(c15.DROPPED))
                ks += ["kw_%d" % i for i in range(max(0, counted(r, "KW") - len(ks)))]
                c15.replay(api, where, ks, counted(r, "ARGS"))
            except common.Violation as v:
                res["status"], res["why"] = "refuted", bad
                res["viol"] = dict(what=v.what, has_input=True, **v.detail)
            else:
                raise Unsupported("not confirmed by a run of the converter: " + bad)
    except Unsupported as e:
        res["status"], res["why"] = "undecided", str(e)
    except Exception as e:
        res["status"], res["why"] = "undecided", "verifier: " + common.tb_short(e)
    res["secs"] = time.time() - t0
    return res


def prove_c15(chk):
    T = gen.tables()
    pre = lambda v: v and v.get("Matcher") == PREFIX and "disable" not in v
    items = [(a, e, "call") for a, e in T.api.items() if pre(e)] + [(a, e, "attr") for a, e in T.attr.items() if pre(e)]
    record(chk, "C15.rule", common.pmap(work_c15, items), "keeps the spelling and the arguments in min mode")


def prove(pid, chk):
    if pid == "C15":
        prove_c15(chk)
    elif pid == "C14":
        prove_c14(chk)
    elif pid == "C16":
        prove_c16(chk)
    elif pid == "C08":
        prove_c08(chk)
    elif pid == "C11":
        prove_c11(chk)
