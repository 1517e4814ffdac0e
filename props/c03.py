"""C03: marking puts '>>>>>>' in front of whole lines, and of the right ones."""
import ast
import re

from vlib import gen
from vlib.bounded import Case, run_cases
from vlib.common import Violation, rng, THOROUGH
from vlib.conv import convert, make_converter

MARK = ">>>>>>"
NOTE = "Not Support auto convert"
PKGS = ["torch", "torchvision", "mmcv", "transformers", "einops", "datasets", "torch_xla", "timm", "diffusers"]
KEEP = ["torch.abs", "torch.nn.Module", "torch.nn", "torch.add", "torchvision.ops.nms", "torch.Tensor", "torch.nn.functional.relu"]


def refers(line, pkgs):
    return any(re.search(r"(?:^|[^\w.])" + re.escape(p) + r"\.", line) for p in pkgs)


def verdicts(text, pkgs, mode, keep):
    """Per line: 'must', 'must-not' or 'free' (the property does not say)."""
    out = []
    in_str = False
    flagged = False
    for line in text.split("\n"):
        if NOTE in line:
            out.append("must-not" if not refers(line, pkgs) and not flagged else "free")
            flagged = True
            if '"' in line or "'" in line:
                body = re.sub(r"\"[^\"]*\"|'[^']*'", "", line)
                if '"""' in body and body.count('"""') % 2:
                    in_str = not in_str
            continue
        if flagged:
            if line == "@":
                out.append("free")
                continue
            out.append("must")
            flagged = False
            if line.count('"""') % 2:
                return out + ["free"] * (text.count("\n") + 1 - len(out))
            continue
        if '"""' in line:
            if line.count('"""') % 2:
                if line.count('"') == 3 and "'" not in line:
                    # the part inside of the string does not count
                    a, b = line.split('"""')
                    outside = b if in_str else a
                    out.append("free" if refers(outside, pkgs) else "must-not")
                    in_str = not in_str
                    continue
                in_str = not in_str
            out.append("free" if refers(line, pkgs) else "must-not")
            continue
        if in_str:
            out.append("must-not")
            continue
        scan = line
        if mode == "min":
            for k in sorted(keep, key=len, reverse=True):
                pat = r"(?<![\w.])" + r"\s*\.\s*".join(map(re.escape, k.split("."))) + r"(?![\w.])"
                scan = re.sub(pat, lambda m: "_" * len(m.group(0)), scan)
            s = line.strip()
            if s.startswith("import ") or s.startswith("from "):
                out.append("must-not")
                continue
        if not refers(scan, pkgs):
            # text between quotes does not count; removing it can only join
            # characters around it, so be silent when quotes are present
            out.append("must-not" if not refers(re.sub(r"[\"'][^\"']*[\"']", "", scan), pkgs) else "free")
        elif '"' in line or "'" in line:
            out.append("free")
        else:
            out.append("must")
    return out


def unmark(text):
    lines = text.split("\n")
    return "\n".join(l[len(MARK):] if l.startswith(MARK) else l for l in lines), [l.startswith(MARK) for l in lines]


def judge(before, after, pkgs, mode, keep, src):
    b, a = before.split("\n"), after.split("\n")
    if len(a) != len(b):
        raise Violation("marking changed the number of lines from %d to %d" % (len(b), len(a)), program=src, observed=after)
    want = verdicts(before, pkgs, mode, keep)
    for i, (x, y, w) in enumerate(zip(b, a, want)):
        if y != x and y != MARK + x:
            raise Violation("line %d %r became %r" % (i + 1, x, y), program=src, observed=after)
        marked = y != x
        if w == "must" and not marked:
            raise Violation("line %d %r still refers to %s (or is flagged) but is not marked" % (i + 1, x, pkgs), program=src, observed=after)
        if w == "must-not" and marked:
            raise Violation("line %d %r is marked but refers to none of %s" % (i + 1, x, pkgs), program=src, observed=after)
    return sum(1 for w in want if w != "free")


FRAG = [
    "torch.abs(x)", "torch.nope(x)", "mytorch.abs(x)", "self.torch.x", "_torch.y", "torch_x.y", "x = torch", "torchvision.ops.nms(a)",
    "torch.nn.Module", "torch.nn.functional.relu(x)", "mmcv.Config", "paddle.abs(y)", "f(torch.nope)", "(torch.abs, torch.nope)", "a.b.torch.c",
    "x[torch.nope.y]", "-torch.nope.z", "1torch.x", "éttorch.q", "é torch.q", "@torch.jit.script", "torch .abs(x)", "torch.", "\ttorch.x", "einops.layers.torch.Rearrange()",
    "transformers.x", "paddleformers.transformers.y", "a = 1", "", "def f(x):", "return x", "lambda: torch.y", "torch.nn.ModuleList", "torch.absolute(z)", "x=torch.add", "torch.Tensor.add_",
    "{}".format("torch.z"), "datasets.load", "mydatasets.load", "#torch.comment", "# torch.comment", "@", "import torch.nn", "from torch.nn import x", "timm.create", "timm", "diffusers.x", "torch_xla.core",
]
QUOTED = [
    "'torch.abs'", '"torch.abs"', "f('torch.a', torch.b)", '"""doc torch.x"""', "s = 'it'", "d[\"k\"]", "x = 'a' + torch.b('c')", "print(\"(torch.x\")",
]


def text_of(r):
    lines = []
    big = r.random()
    for _ in range(r.randrange(1, 14) if big < 0.97 else r.randrange(60, 400)):
        c = r.random()
        ind = r.choice(["", "", "    ", "        ", "\t"])
        if c < 0.62:
            lines.append(ind + r.choice(["", "x = ", "return ", "y += ", "(", "foo(a, ", "if "]) + r.choice(FRAG) + r.choice(["", "", ":", ")", "  # c", " "]))
        elif c < 0.75:
            lines.append(ind + r.choice(QUOTED))
        elif c < 0.87:
            q = r.choice(["'", '"'])
            lines.append(ind + q + NOTE + " torch.Tensor.x, please judge whether it is Pytorch API and convert by yourself" + q)
        else:
            lines.append(ind + r.choice(["", "", "", "x = ", "f(", "return ", "s = t +"]) + '"""' + r.choice(["", "", "", "see torch.abs", "torch.nope", " torchvision.x"]))
            for _ in range(r.randrange(3)):
                lines.append(ind + r.choice(FRAG))
            lines.append(ind + r.choice(["", "", "", "end of torch.nope ", "torch.x"]) + '"""' + r.choice(["", "", "", ")", " % y", ".format(z)"]))
        if r.random() < 0.04:
            # characters that some ways to split or strip lines would lose
            lines[-1] += r.choice(["\r", "  ", "\t", "\x0c", "\u2028", "\x1c", "\x85", "\x0b", "\xa0"])
        if r.random() < 0.02:
            n = len(lines) - 1
            pad = r.choice([" + a", ", b", " " * 7, " or c.torch"]) * r.choice([20, 60, 150, 400])
            if '"' not in lines[n] and "'" not in lines[n] and lines[n].strip():
                lines[n] = lines[n] + pad if r.random() < 0.5 else "y =" + pad.replace("torch", "t") + " , " + lines[n].strip()
    return "\n".join(lines) + r.choice(["", "\n", "\n\n"])


def direct_case(i):
    r = rng("c03", i)
    text = text_of(r)
    pkgs = set(r.sample(PKGS, r.randrange(0, 4) if r.random() < 0.95 else r.randrange(4, len(PKGS) + 1)))
    if r.random() < 0.7:
        pkgs.add("torch")
    mode = r.choice(["default", "default", "min"])
    keep = set(r.sample(KEEP, r.randrange(0, 4))) if mode == "min" else set()
    c, _ = make_converter(mode=mode)
    file = "/nowhere/f.py"
    if not hasattr(c, "mark_unsupport"):
        return None
    c.imports_map[file] = {"torch_packages": set(pkgs), "other_packages": set(), "may_torch_packages": set(), "api_alias_name_map": {}}
    if hasattr(c, "change_prefix_api_map"):
        c.change_prefix_api_map[file] = set(keep)
    src = "# packages %s mode %s kept %s\n%s" % (sorted(pkgs), mode, sorted(keep), text)
    try:
        out = c.mark_unsupport(text, file)
    except Exception as e:
        raise Violation("marking fails: %s: %s" % (type(e).__name__, e), program=src)
    n = judge(text, out, pkgs, mode, keep, src)
    return Case(src, n > 1, sample=src[:300])


def e2e_case(i):
    r = rng("c03e", i)
    p = gen.Prog(r, unknown=0.5)
    src = p.text()
    mode = "default"
    o = convert(src, mode=mode, no_format=r.random() < 0.6)
    if not o.ok:
        raise Violation("the conversion fails: " + o.error, program=src)
    before, marks = unmark(o.out)
    pkgs = {"torch"} | ({"torchvision"} if "torchvision" in p.imp.map else set())
    n = judge(before, o.out, pkgs, mode, set(), src)
    return Case(src, any(marks), sample=src[:300])


def bounded(chk):
    n = 400000 if THOROUGH else 60000
    run_cases(chk, "marking of random texts", direct_case, range(n),
              "texts of 1-13 lines of references, near misses, quotes, triple-quoted blocks and notes; random package sets, both modes; non-trivial: at least two lines decided by the property",
              "%d texts of at most ~20 lines" % n)
    n = 40000 if THOROUGH else 6000
    run_cases(chk, "marks in converted programs", e2e_case, range(n),
              "random programs, half of the API uses unknown; output without markers must parse and the marked lines must be those the property names; non-trivial: something is marked",
              "%d programs" % n)
