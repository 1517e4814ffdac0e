"""C05: the output mirrors the input, nothing else is touched."""
import os
import re
import shutil

from vlib.bounded import Case, run_cases
from vlib.common import Violation, rng, THOROUGH, tb_short
from vlib.conv import convert, fresh_helper_state, make_converter, new_dir
from vlib.fsguard import guard

DIRS = ["pkg", "sub", "data", "deep", ".git", ".hidden", "__pycache__", "skipme", "my_skipme_x", "tests", "out_old", "a.py.d", "x.txt"]
# names close to the special ones
RARE = ["requirements-dev.in", "requirements.txt.bak", "requirements", "Requirements.TXT", "requirements.txt~", "a.py.txt", "xpy", "py", "~tmp", "_priv.dat", "a b.txt", "é.txt", "__pycache__x", "x.ipynb", "setup.py", "paddle_project", "converted", "out", "ut", "a..b", "-x", "#1"]
FILES = ["a.py", "b.py", "__init__.py", "model.py", "requirements.txt", "README.md", "w.bin", "c.pyc", "noext", ".env", ".x.py", "cfg.yaml", "skipme.txt", "setup.cfg", "t.PY", "paddle.txt", "torch.py.bak", "req.txt", "python", "x.pyi"]
PY = [
    "import numpy as np\nx = np.abs(1)\n", "import torch\ny = torch.abs(x)\n", "x = 1\n", "", "import torch.nn as nn\nclass A(nn.Module):\n    pass\n",
    "import torch\nz = torch.nope(1)\n", "# only a comment\n", "def f():\n    return 'torch'\n", "import torch\nw = torch.zeros(3).cuda()\n",
]
HELPER = "import torch\ntorch.backends.cudnn.enabled = True\n"
REQ = ["torch\nnumpy\n", "torch==1.0\ntorchvision>=2 # torch\n", "", "numpy", "x-torch-y\n\ntorch\n", "# 依赖 torch\n"]


def content(r, name):
    if name.endswith(".py"):
        return r.choice(PY).encode()
    if name.endswith("requirements.txt"):
        if r.random() < 0.05:
            return "".join("package_%d>=%d\n" % (k, k) for k in range(12000)).encode() + b"torch\n"
        return r.choice(REQ).encode()
    if r.random() < 0.04:
        return bytes([r.randrange(256) for _ in range(997)]) * r.choice([70, 140, 1100])
    return r.choice([b"", b"torch\n", bytes(r.randrange(256) for _ in range(r.randrange(80))), b"a\r\nb\rc\n", "ünï torch".encode(), b"\xff\xfe\x00"])


def make_tree(r, d, depth=0):
    os.makedirs(d, exist_ok=True)
    for f in r.sample(FILES, r.randrange(0 if depth else 1, 6)) + r.sample(RARE, r.choice([0, 0, 1, 2])):
        p = os.path.join(d, f)
        if not os.path.exists(p):
            with open(p, "wb") as h:
                h.write(content(r, f))
    if r.random() < 0.1:
        os.symlink(os.path.join(d, "nowhere"), os.path.join(d, "dangling"))
    if depth < 4:
        for s in r.sample(DIRS, r.randrange(0, 3 if depth else 4)) + r.sample(RARE, r.choice([0, 0, 0, 1])):
            p = os.path.join(d, s)
            if not os.path.exists(p):
                make_tree(r, p, depth + 1)


def snapshot(root):
    out = {}
    for base, ds, fs in os.walk(root):
        for x in ds:
            p = os.path.join(base, x)
            out[os.path.relpath(p, root)] = ("link", os.readlink(p)) if os.path.islink(p) else ("dir",)
        for x in fs:
            p = os.path.join(base, x)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as h:
                    out[os.path.relpath(p, root)] = ("file", h.read())
    return out


def show(snap, prefix=""):
    return {k: (v[0] if v[0] != "file" else repr(v[1][:60])) for k, v in snap.items() if k.startswith(prefix)}


def case(i):
    r = rng("c05", i)
    root = os.path.realpath(new_dir("t"))
    cwd0 = os.getcwd()
    try:
        src = os.path.join(root, "in", "src")
        make_tree(r, src)
        os.makedirs(os.path.join(root, "work"))
        with open(os.path.join(root, "work", "keep.txt"), "w") as h:
            h.write("keep")
        kind = r.choice(["dir", "dir", "dir", "file"])
        pats = r.choice([None, None, None, "skipme", "skipme,b\\.py$", "/data/", "pkg/sub", "\\.md$,/tests(/|$)", "__init__"])
        opt = dict(no_format=True)
        if r.random() < 0.15:
            opt = dict(no_format=False)
        helper = False
        if kind == "dir":
            if r.random() < 0.2:
                with open(os.path.join(src, "zz_helper.py"), "w") as h:
                    h.write(HELPER)
                helper = True
            rel = r.choice(["sibling", "existing", "inside", "inside-deep", "default", "default-in-src", "relative", "existing-with-files", "prefix-name"])
            os.chdir(os.path.join(root, "work"))
            given = src + r.choice(["", "", "/", "/."])
            if rel == "sibling":
                out = arg = os.path.join(root, "o", "ut")
            elif rel == "existing":
                out = arg = os.path.join(root, "ex")
                os.makedirs(out)
            elif rel == "existing-with-files":
                out = arg = os.path.join(root, "ex2")
                os.makedirs(os.path.join(out, "old"))
                with open(os.path.join(out, "old", "f.txt"), "w") as h:
                    h.write("old")
            elif rel == "inside":
                out = arg = os.path.join(src, "converted")
            elif rel == "inside-deep":
                out = arg = os.path.join(src, "pkg", "conv", "erted")
                if r.random() < 0.5:
                    os.makedirs(out, exist_ok=True)
            elif rel == "default":
                arg, out = None, os.path.join(root, "work", "paddle_project")
            elif rel == "default-in-src":
                os.chdir(src)
                arg, out = None, os.path.join(src, "paddle_project")
            elif rel == "prefix-name":
                out = arg = src + "_out"
                os.makedirs(out, exist_ok=True)
            else:
                arg, out = "../rel/out", os.path.join(root, "rel", "out")
                given = r.choice(["../in/src", given])
            inp = src
        else:
            fs = [os.path.join(b, f) for b, _, ff in os.walk(src) for f in ff if not os.path.islink(os.path.join(b, f))]
            if not fs:
                return None
            inp = given = r.choice(sorted(fs))
            os.chdir(os.path.join(root, "work"))
            rel = r.choice(["file", "newdirs", "existing-dir", "default", "existing-file", "same", "same-dir"])
            bn = os.path.basename(inp)
            if rel == "file":
                arg = out = os.path.join(root, "work", "res.out")
            elif rel == "newdirs":
                arg = out = os.path.join(root, "n", "m", bn)
            elif rel == "existing-dir":
                arg = os.path.join(root, "ed")
                os.makedirs(arg)
                out = os.path.join(arg, bn)
            elif rel == "default":
                arg, out = None, os.path.join(root, "work", "paddle_project", bn)
            elif rel == "existing-file":
                arg = out = os.path.join(root, "work", "old.py")
                with open(out, "w") as h:
                    h.write("old")
            elif rel == "same":
                arg = out = r.choice([inp, os.path.join(inp, "x.py")])
            else:
                arg, out = os.path.dirname(inp), inp
        before = snapshot(root)
        desc = dict(kind=kind, relation=rel, exclude=pats, options=opt, tree=show(before), inp=os.path.relpath(inp, root), out=os.path.relpath(out, root))

        def bad(msg, after=None):
            raise Violation(msg, input=repr(desc), observed=show(after) if after else None)

        fresh_helper_state()
        refused = False
        with guard(root) as escaped:
            try:
                c, _ = make_converter(**opt)
                c.run(given, arg, pats)
            except AssertionError as e:
                refused = True
            except Exception as e:
                if not escaped:
                    bad("the conversion fails: " + tb_short(e))
        if escaped:
            bad("touches %r outside the scratch directory" % (escaped,))
        after = snapshot(root)
        orel = os.path.relpath(out, root)
        over = kind == "dir" and orel in before and before[orel][0] == "file"
        if over or rel in ("same", "same-dir"):
            if after != before:
                bad("a request to write over the input changed files", after)
            if not refused:
                bad("a request to write over the input is not refused", after)
            return Case((i, rel), True)
        if refused:
            bad("the conversion was refused")
        # nothing outside the output changed (missing parents of it may appear)
        parents = set()
        q = orel
        while q:
            q = os.path.dirname(q)
            parents.add(q)
        inside = lambda p: p == orel or p.startswith(orel + os.sep)
        for p in set(before) | set(after):
            if inside(p):
                continue
            if before.get(p) != after.get(p):
                if p in parents and p not in before and after[p] == ("dir",):
                    continue
                bad("%s outside the output was %s" % (p, "removed" if p not in after else "changed or created"), after)
        # expected output
        want = {}
        wantdirs = set()
        plist = (pats.split(",") if pats else []) + ["__pycache__"]
        if kind == "file":
            if not any(re.search(p, inp) for p in plist):
                want[orel] = inp
        else:
            for base, ds, fs in os.walk(src):
                keep = []
                for x in sorted(ds):
                    p = os.path.join(base, x)
                    if x.startswith(".") or any(re.search(q, p) for q in plist) or p == out or p.startswith(out + os.sep):
                        continue
                    keep.append(x)
                    wantdirs.add(os.path.join(orel, os.path.relpath(p, src)))
                ds[:] = keep
                for x in fs:
                    p = os.path.join(base, x)
                    if x.startswith(".") or os.path.islink(p) or any(re.search(q, p) for q in plist):
                        continue
                    if os.path.relpath(p, root) not in before:
                        continue
                    want[os.path.join(orel, os.path.relpath(p, src))] = p
        got = {p: v[1] for p, v in after.items() if inside(p) and v[0] == "file"}
        old = {p: v[1] for p, v in before.items() if inside(p) and v[0] == "file"}
        for p in want:
            if p not in got:
                bad("no output file for %s" % os.path.relpath(want[p], root), after)
        extra = {p for p in got if p not in want and old.get(p) != got[p]}
        if helper:
            extra.discard(os.path.join(orel, "paddle_utils.py"))
            if os.path.join(orel, "paddle_utils.py") not in got and "zz_helper.py" in [os.path.basename(p) for p in want]:
                bad("the helper file is missing", after)
        if extra:
            bad("unexpected output files %s" % sorted(extra), after)
        lost = {p for p in old if p not in got}
        if lost:
            bad("files %s of the output directory disappeared" % sorted(lost), after)
        for p, v in after.items():
            if inside(p) and p != orel and v == ("dir",) and p not in before and p not in wantdirs:
                bad("unexpected output directory %s" % p, after)
        for p, sp in want.items():
            data = before[os.path.relpath(sp, root)][1]
            if sp.endswith(".py"):
                if sp.endswith("zz_helper.py"):
                    continue
                ref = convert(data.decode(), name=os.path.basename(sp), **opt)
                if ref.ok and got[p].decode("UTF-8") != ref.out:
                    bad("%s is not the conversion of its input file" % p, after)
            elif os.path.basename(sp) == "requirements.txt":
                if got[p].decode("UTF-8") != data.decode("UTF-8").replace("torch", "paddlepaddle-gpu"):
                    bad("%s: wrong requirements %r from %r" % (p, got[p], data), after)
            elif got[p] != data:
                bad("%s is not byte-identical to its input" % p, after)
        return Case((i, rel), len(want) > 1, sample=repr(desc)[:500])
    finally:
        os.chdir(cwd0)
        shutil.rmtree(root, ignore_errors=True)


def bounded(chk):
    n = 20000 if THOROUGH else 7000
    run_cases(chk, "random directory trees", case, range(n),
              "random trees (depth <= 5, hidden, excluded, binary, requirements, Python and dangling links), single files, nine relations of the output path to the input, exclude lists; whole-tree snapshots before and after; non-trivial: at least two files expected",
              "%d trees" % n)
