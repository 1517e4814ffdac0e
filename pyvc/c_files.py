"""Contracts of the file effects (paconvert/converter.py, paconvert/utils.py)."""
import z3

from .contracts import *
from .engine import *
from .library import x_path
from .values import *

CV = "paconvert.converter.Converter"
UH = "paconvert.utils.UtilsFileHelper"
content0 = z3.Function("content_before", STR, STR)
below_f = z3.Function("below", STR, STR, BOOL)  # a path below a directory
join_f = z3.Function("os_path_join_2", STR, STR, STR)
base_f = z3.Function("os_path_basename_1", STR, STR)
dirname_f = z3.Function("os_path_dirname_1", STR, STR)
isdir_f = z3.Function("os_path_isdir", STR, BOOL)
isfile_f = z3.Function("os_path_isfile", STR, BOOL)
islink_f = z3.Function("os_path_islink", STR, BOOL)
exists_f = z3.Function("os_path_exists", STR, BOOL)


class Files:
    """the file system: predicates of the state before, and the effects in order"""

    def __init__(self, e):
        self.e = e
        self.effects = []
        self.made = []
        x = e.externs
        x["os.makedirs"] = self.makedirs
        x["os.mkdir"] = self.makedirs
        x["os.path.isdir"] = lambda e, a, k: self.pred(isdir_f, a)
        x["os.path.exists"] = lambda e, a, k: self.pred(exists_f, a)
        x["builtins.open"] = self.open
        x["os.getcwd"] = lambda e, a, k: SStr(z3.Const("cwd", STR))
        for n, ps in (("os.remove", 1), ("os.unlink", 1), ("os.rmdir", 1), ("os.removedirs", 1), ("shutil.rmtree", 1), ("shutil.copyfile", 2), ("shutil.copy", 2), ("shutil.copy2", 2), ("shutil.copytree", 2), ("shutil.move", 2), ("os.rename", 2), ("os.replace", 2), ("os.symlink", 2), ("os.link", 2), ("os.chmod", 1), ("os.truncate", 1)):
            x[n] = self.effect(n, ps)
        p, q = z3.FreshConst(STR, "p"), z3.FreshConst(STR, "q")
        e.assume(z3.ForAll([p], z3.Implies(isdir_f(p), exists_f(p)), patterns=[isdir_f(p)]))
        e.assume(z3.ForAll([p], z3.Implies(isfile_f(p), z3.And(exists_f(p), z3.Not(isdir_f(p)))), patterns=[isfile_f(p)]))

    def s(self, v):
        return self.e.unwrap(self.e.resolve(v), "str")

    def pred(self, f, a):
        t = self.s(a[0])
        return SBool(z3.simplify(z3.Or([f(t)] + [t == m for m in self.made])))

    def makedirs(self, e, a, k):
        self.made.append(self.s(a[0]))
        self.effects.append(("makedirs", self.s(a[0])))

    def effect(self, n, ps):
        def f(e, a, k):
            self.effects.append((n,) + tuple(self.s(v) for v in a[:ps]))

        return f

    def open(self, e, a, k):
        path = self.s(a[0])
        mode = e.resolve(a[1] if len(a) > 1 else k.get("mode", "r"))
        o = e.new(VObj("file"))
        if mode in ("r", "rt", "rb"):
            o.fields["read"] = Native(lambda e, a, k: SStr(content0(path)) if mode == "r" else fail("bytes"))
        elif mode == "w":
            eff = ["write", path, []]
            self.effects.append(eff)
            o.fields["write"] = Native(lambda e, a, k: eff[2].append(e.resolve(a[0])))
        else:
            raise Unsupported("open with mode %r" % (mode,))
        o.fields["close"] = Native(lambda e, a, k: None)
        return o


def fail(msg):
    raise Unsupported(msg)


# ------------------------------------------------------------------ one file
@contract(("C05",), CV + ".transfer_file", name="effects of converting a file", setup=[no_logs])
def transfer_file(e):
    fs = Files(e)
    old, new = e.fresh_val("old_path", "str"), e.fresh_val("new_path", "str")
    c = obj(e, CV, logger=Ext("logger"), calculate_speed=False, no_format=e.fresh_val("no_format", "bool"), only_complete=e.fresh_val("only_complete", "bool"), line_count=0)
    e.summaries[CV + ".transfer_node"] = lambda e, s, a, k: None
    e.summaries[CV + ".mark_unsupport"] = lambda e, s, a, k: e.fresh_val("marked", "str")
    for n in ("black.format_str", "isort.code", "autoflake.fix_code"):
        e.externs[n] = lambda e, a, k: (e.fresh_val("formatted", "str") if e.choose(2) else raise_(e))
    e.externs["black.Mode"] = lambda e, a, k: e.new(VObj("mode"))
    e.externs["ast.parse"] = lambda e, a, k: SRef(e.fresh("root", RefSort))
    e.externs["astor.to_source"] = lambda e, a, k: e.fresh_val("source", "str")
    try:
        run(e, method(e, CV, "transfer_file"), [old, new], {}, c)
    except PyRaise:
        # a file that cannot be read or parsed: nothing is written
        for x in fs.effects:
            e.prove("only the output file is written", writes(x, new.t))
        return
    py = z3.SuffixOf(z3.StringVal(".py"), old.t)
    req = z3.And(z3.Not(py), z3.SuffixOf(z3.StringVal("requirements.txt"), old.t))
    e.prove("exactly one file is written", len(fs.effects) == 1)
    for x in fs.effects:
        e.prove("only the output file is written", writes(x, new.t))
        if x[0] == "write":
            e.prove("the file is written whole, once", len(x[2]) == 1)
            txt = x[2][0] if x[2] else ""
            rep = z3.Function("py_replace_all", STR, STR, STR, STR)(content0(old.t), z3.StringVal("torch"), z3.StringVal("paddlepaddle-gpu"))
            e.prove("in requirements every torch is replaced, nothing else", z3.Implies(req, e.unwrap(txt, "str") == rep))
            e.prove("files which are neither Python nor requirements are copied", z3.Or(py, req))
        elif x[0] in ("shutil.copyfile", "shutil.copy", "shutil.copy2"):
            e.prove("the file itself is copied", x[1] == old.t)
            e.prove("Python files and requirements are not just copied", z3.Not(z3.Or(py, req)))
        else:
            e.prove("only the output file is written", False)


def raise_(e):
    raise PyRaise("ValueError")


def writes(x, p):
    if x[0] == "write":
        return x[1] == p
    if x[0] in ("shutil.copyfile", "shutil.copy", "shutil.copy2"):
        return x[2] == p
    return False


# ------------------------------------------------------------------ a directory
@contract(("C05",), "paconvert.converter.listdir_nohidden", name="entries of a directory")
def listdir(e):
    names = e.sym_list("names", "str")
    e.externs["os.listdir"] = lambda e, a, k: names
    d = e.fresh_val("path", "str")
    f = e.src.lookup("paconvert.converter", "listdir_nohidden")
    if not isinstance(f, Func):
        raise Unsupported("listdir_nohidden not found")
    l = e.resolve(run(e, f, [d]))
    if not isinstance(l, VList):
        raise Unsupported("result %r" % (l,))
    n = e.length(l)
    at = lambda i: e.unwrap(e.elem_at(l, i), "str")
    hid = lambda s: z3.PrefixOf(z3.StringVal("."), s)
    i, m = e.fresh("i", INT), e.fresh("m", INT)
    q = z3.FreshConst(INT, "q")
    e.prove("hidden entries are left out", z3.Implies(z3.And(i >= 0, i < n), z3.Not(hid(at(i)))))
    e.prove("only entries of the directory", z3.Implies(z3.And(i >= 0, i < n), z3.Exists([q], z3.And(q >= 0, q < names.n, z3.Select(names.arr, q) == at(i)))))
    e.prove("no other entry is left out", z3.Implies(z3.And(m >= 0, m < names.n, z3.Not(hid(z3.Select(names.arr, m)))), z3.Exists([q], z3.And(q >= 0, q < n, at(q) == z3.Select(names.arr, m)))))
    e.prove("no entry is listed twice", z3.Implies(n > names.n, z3.BoolVal(False)))


class EntryStep(StepSpec):
    def __init__(self, names, fs, calls, check):
        self.names, self.fs, self.calls, self.check = names, fs, calls, check

    def applies(self, e, l):
        return l is self.names

    def begin(self, e, i):
        self.mark = len(self.fs.effects), len(self.calls)

    def step(self, e, i, appended):
        m, k = self.mark
        self.check(e, i, self.fs.effects[m:], self.calls[k:])


search_f = None


def excluded(e, exclude, path):
    """some pattern is found in the path (the same uninterpreted predicate the engine gives re.search)"""
    from .library import EXTERNS

    q = z3.FreshConst(INT, "q")
    r = EXTERNS["re.search"](e, [SStr(z3.Select(exclude.arr, q)), SStr(path)], {})
    t = e.truth_term(r)
    return q, t


@contract(("C05",), CV + ".transfer_dir", name="effects of converting a directory", setup=[no_logs], budget=90)
def transfer_dir(e):
    fs = Files(e)
    in_dir, out_dir = e.fresh_val("in_dir", "str"), e.fresh_val("out_dir", "str")
    root = e.fresh_val("output_root", "str")
    ex = e.sym_list("exclude", "str")
    names = e.sym_list("names", "str")
    c = obj(e, CV, logger=Ext("logger"), out_dir=root)
    calls, files = [], []
    found = z3.Function("pattern_found", STR, STR, BOOL)
    e.externs["re.search"] = lambda e, a, k: SBool(found(e.unwrap(e.resolve(a[0]), "str"), e.unwrap(e.resolve(a[1]), "str")))
    e.summaries["paconvert.converter.listdir_nohidden"] = lambda e, s, a, k: names if e.truth(SBool(fs.s(a[0]) == in_dir.t)) else fail("another directory is listed")
    e.summaries[CV + ".transfer_dir"] = lambda e, s, a, k: calls.append(a)
    e.summaries[CV + ".transfer_file"] = lambda e, s, a, k: files.append(a)
    q = z3.FreshConst(INT, "q")
    some = lambda p: z3.Exists([q], z3.And(q >= 0, q < ex.n, found(z3.Select(ex.arr, q), p)), patterns=[z3.Select(ex.arr, q)])
    d, n = z3.FreshConst(STR, "d"), z3.FreshConst(STR, "n")
    e.assume(z3.ForAll([d, n], below_f(join_f(d, n), d), patterns=[join_f(d, n)]))

    def check(e, i, effects, rec):
        item = z3.Select(names.arr, i)
        old, new = join_f(in_dir.t, item), join_f(out_dir.t, item)
        skip = z3.Or(old == root.t, some(old))
        e.prove("every entry which is not excluded is converted", z3.Or(z3.BoolVal(len(rec) == 1), skip))
        e.prove("an entry is converted at most once", len(rec) <= 1)
        for a in rec:
            e.prove("excluded entries and the output itself are left out", z3.Not(skip))
            e.prove("an entry goes to the same relative path", z3.And(fs.s(a[0]) == old, fs.s(a[1]) == new))
            e.prove("the same patterns are excluded below", e.resolve(a[2]) is ex)
        for x in effects:
            e.prove("directories are only made to mirror directories", z3.And(x[1] == new, isdir_f(old), z3.Not(skip)) if x[0] == "makedirs" else False)
            e.prove("nothing outside of the output is touched", z3.And([below_f(p, out_dir.t) for p in x[1:] if z3.is_expr(p)]))
        e.prove("an entry of a directory is not written directly", not files)

    e.loop_spec = EntryStep(names, fs, calls, check)
    try:
        run(e, method(e, CV, "transfer_dir"), [in_dir, out_dir, ex], {}, c)
    except PyRaise:
        e.prove("refused only if the input does not exist", z3.Not(z3.Or(isfile_f(in_dir.t), isdir_f(in_dir.t), islink_f(in_dir.t))))
        e.prove("a refused input has no effect", not fs.effects and not files and not calls)
        return
    isf = isfile_f(in_dir.t)
    skip = some(in_dir.t)
    e.prove("a file is converted exactly if it is not excluded", z3.Implies(isf, z3.BoolVal(len(files) == 1) == z3.Not(skip)))
    e.prove("at most one file is written", len(files) <= 1)
    new = z3.If(isdir_f(out_dir.t), join_f(out_dir.t, base_f(in_dir.t)), out_dir.t)
    for a in files:
        e.prove("only files are converted as files", isf)
        e.prove("a file goes to the output path", z3.And(fs.s(a[0]) == in_dir.t, fs.s(a[1]) == new))
    for x in fs.effects:
        e.prove("only the directory of the output file is made or replaced", z3.And(isf, x[1] == dirname_f(new), z3.Not(skip)) if x[0] in ("makedirs", "os.remove") else False)
        if x[0] == "os.remove":
            e.prove("a directory is never removed", z3.Not(isdir_f(x[1])))
        if x[0] == "makedirs":
            e.prove("an existing directory is not made again", z3.Not(isdir_f(x[1])))


# ------------------------------------------------------------------ a whole conversion
@contract(("C05",), CV + ".run", name="effects of a conversion", setup=[no_logs])
def run_effects(e):
    from .c_conv import converter, run_env

    run_env(e)
    fs = Files(e)
    order = []
    c, _ = converter(e, log_markdown=True, show_all_api=False, show_unalign_api=False, show_unsupport_api=False, calculate_speed=False, convert_rate=0.0, out_dir=None, no_format=False, only_complete=False)
    e.summaries["paconvert.utils.UtilsFileHelper"] = lambda e, s, a, k: (order.append(("helper", a, k)), e.new(VObj("helper", write_code=Native(lambda e, a, k: order.append(("write", a, k))))))[1]

    def transfer(e, s, a, k):
        order.append(("transfer", a, k))
        t = fs.s(a[0])
        if not e.fork(z3.Or(isfile_f(t), isdir_f(t), islink_f(t))):
            raise PyRaise("ValueError")  # contract of transfer_dir

    e.summaries[CV + ".transfer_dir"] = transfer
    ab = z3.Function("os_path_abspath_1", STR, STR)
    arg_in = e.fresh_val("in_dir", "str")
    arg_out = [None, e.fresh_val("out_dir", "str")][e.choose(2)]
    exc = [None, e.fresh_val("exclude", "str")][e.choose(2)]
    i = ab(arg_in.t)
    o = z3.Concat(z3.Const("cwd", STR), z3.StringVal("/paddle_project")) if arg_out is None else ab(arg_out.t)
    isf = isfile_f(i)
    try:
        run(e, method(e, CV, "run"), [arg_in, arg_out, exc], {}, c)
    except PyRaise:
        e.prove("a refused request converts nothing", z3.Or(z3.BoolVal(not any(x[0] == "transfer" for x in order)), z3.Not(z3.Or(isf, isdir_f(i)))))
        for x in fs.effects:
            e.prove("a refused request changes nothing", x[0] == "makedirs" and arg_out is None)
        return
    of = z3.If(z3.Or([isdir_f(o)] + [m == o for m in fs.made]), join_f(o, base_f(i)), o)
    e.prove("writing over the input is refused", z3.And(o != i, z3.Implies(isf, of != i)))
    tr = [x for x in order if x[0] == "transfer"]
    e.prove("the input is converted once", len(tr) == 1)
    for x in tr:
        e.prove("from the input to the output", z3.And(fs.s(x[1][0]) == i, fs.s(x[1][1]) == o))
        e.prove("the output is known while the input is read", e.unwrap(c.fields["out_dir"], "str") == o)
    hs = [x for x in order if x[0] == "helper"]
    for x in hs:
        p = fs.s(x[1][0] if x[1] else x[2]["fileName"])
        dm = e.resolve(x[2].get("is_dir_mode", x[1][1] if len(x[1]) > 1 else False))
        if isinstance(dm, bool):
            e.prove("the helper file is the output file or at the root of the output", p == (z3.Concat(o, z3.StringVal("/paddle_utils.py")) if dm else of))
            e.prove("directories get a helper file, files do not", z3.Or(z3.And(isf, z3.BoolVal(not dm)), z3.And(z3.Not(isf), z3.BoolVal(dm))))
        else:
            raise Unsupported("is_dir_mode")
    for x in fs.effects:
        e.prove("the conversion itself makes at most the default output directory", arg_out is None and x[0] == "makedirs" and x[1] == o)
    k = [x[0] for x in order]
    e.prove("helpers are written after the files", k == ["helper", "transfer", "write"])
