"""Driving single conversion rules: one call of one mapped API, converted by
the real converter, with the argument texts observed.

astor.to_source is wrapped while a rule runs: the text of an argument is a str
subclass that records every comparison the rule makes with it, so that the
values a rule distinguishes are discovered (and tried) instead of guessed."""
import ast
import contextlib
import itertools

from . import gen
from .conv import convert

MARK = "A_"


class Rec(str):
    log = []

    def _rec(self, op, other):
        if isinstance(other, str):
            Rec.log.append((str(self), op, str(other)))

    def __eq__(self, o):
        self._rec("==", o)
        return str.__eq__(self, o)

    def __ne__(self, o):
        self._rec("==", o)
        return str.__ne__(self, o)

    __hash__ = str.__hash__

    def __contains__(self, o):
        self._rec("in", o)
        return str.__contains__(self, o)

    def startswith(self, o, *a):
        for q in o if isinstance(o, tuple) else (o,):
            self._rec("startswith", q)
        return str.startswith(self, o, *a)

    def endswith(self, o, *a):
        for q in o if isinstance(o, tuple) else (o,):
            self._rec("endswith", q)
        return str.endswith(self, o, *a)

    def strip(self, *a):
        r = str.strip(self, *a)
        return Rec(r) if r == str(self) or a == ("\n",) else Rec(r)

    def replace(self, *a):
        self._rec("in", a[0])
        return Rec(str.replace(self, *a))

    def lower(self):
        return Rec(str.lower(self))

    def split(self, *a, **k):
        return [Rec(x) for x in str.split(self, *a, **k)]

    def find(self, o, *a):
        self._rec("in", o)
        return str.find(self, o, *a)


@contextlib.contextmanager
def recording():
    import astor

    real = astor.to_source
    Rec.log = []

    def wrapped(node, *a, **k):
        return Rec(real(node, *a, **k))

    astor.to_source = wrapped
    try:
        yield Rec.log
    finally:
        astor.to_source = real


HEAD_CACHE = {}


def head(api):
    pk = api.split(".")[0]
    return "import %s\n" % pk


def spelled(api):
    m = gen.class_method_of(api)
    return "RECV." + m if m else api


def call_text(api, pos, kws):
    return "%s(%s)" % (spelled(api), ", ".join(list(pos) + ["%s=%s" % kv for kv in kws]))


class Result:
    __slots__ = ("src", "ok", "error", "out", "tree", "stmts", "last", "prelude", "status", "log", "helper", "conv")


def run(api, pos, kws, form="res = {}", mode="default", record=True, header=None, no_format=True):
    """Convert one call. status: converted / unsupported / misidentified / error."""
    imp = head(api) if gen.class_method_of(api) is None else "import torch\n"
    src = (header or imp) + form.format(call_text(api, pos, kws)) + "\n"
    return run_src(src, mode, record, no_format)


def run_src(src, mode="default", record=True, no_format=True):
    r = Result()
    r.src = src
    r.log = []
    if record:
        with recording() as log:
            o = convert(src, mode=mode, no_format=no_format)
            r.log = list(log)
    else:
        o = convert(src, mode=mode, no_format=no_format)
    r.ok = o.ok
    r.error = o.error
    r.out = o.out
    r.conv = o.conv
    r.tree = None
    if not o.ok:
        r.status = "error"
        return r
    s, f = o.ret
    text = "\n".join(l[6:] if l.startswith(">>>>>>") else l for l in o.out.split("\n"))
    try:
        r.tree = ast.parse(text)
    except SyntaxError as e:
        r.status = "error"
        r.error = "the output does not parse: %s\n%s" % (e, o.out)
        return r
    r.status = "unsupported" if f else ("converted" if s else "misidentified")
    return r


def body_after_imports(tree):
    return [n for n in tree.body if not isinstance(n, (ast.Import, ast.ImportFrom))]


def names(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def all_texts(tree):
    return ast.unparse(tree)
