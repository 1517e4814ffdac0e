"""C12: API lookup against an independent reading of the four tables, and the
ground requirements of the tables themselves."""
import logging
import re

from vlib import explore, gen
from vlib.bounded import Case, run_cases
from vlib.common import Violation, rng, THOROUGH
from vlib.conv import convert

LOG = logging.getLogger("c12")
LOG.disabled = True


def transformer(mode="default"):
    from collections import defaultdict
    import ast

    from paconvert.transformer.basic_transformer import BasicTransformer

    im = defaultdict(dict)
    im["f.py"] = {"torch_packages": {"torch"}, "may_torch_packages": set(), "other_packages": set(), "api_alias_name_map": {}}
    return BasicTransformer(ast.parse("x"), "f.py", mode, im, LOG, defaultdict(dict), defaultdict(int))


def spec_lookup(T, name, table):
    """(canonical name, entry or None)"""
    c = T.alias.get(name, name)
    e = table.get(c)
    if c not in table:
        for w in T.wild:
            if re.match(w, c):
                e = T.wild[w]
    if not e or "disable" in e or "Matcher" not in e:
        return c, None, e
    return c, e, e


def mapped(T, name, table, wild=True):
    c = T.alias.get(name, name)
    return c in table or wild and any(re.match(w, c) for w in T.wild)


_t = {}


def lookup_one(name):
    T = gen.tables()
    for mode in ("default", "min"):
        if mode not in _t:
            _t[mode] = transformer(mode)
        tr = _t[mode]
        both = 0
        for fn, table, kind in (("get_api_matcher", T.api, "call"), ("get_attribute_matcher", T.attr, "attribute")):
            try:
                m = getattr(tr, fn)(name, "origin_x")
            except Exception as e:
                raise Violation("%s lookup of %r fails: %r" % (kind, name, e), input=name)
            c, e, raw = spec_lookup(T, name, table)
            if (m is None) != (e is None):
                raise Violation("%s lookup of %r gives %s, the tables say %s" % (kind, name, m and type(m).__name__, e), input=name)
            if m is not None:
                if type(m).__name__ != e["Matcher"] or m.torch_api != c or m.origin_attr != "origin_x" or m.api_mapping_dict != e:
                    raise Violation("%s lookup of %r gives rule %s for %s with entry %s; the tables say %s for %s" % (kind, name, type(m).__name__, m.torch_api, m.api_mapping_dict, e, c), input=name)
        a, b = tr.in_api_mapping(name), tr.in_attribute_mapping(name)
        if bool(a) != mapped(T, name, T.api):
            raise Violation("in_api_mapping(%r) is %s" % (name, a), input=name)
        if bool(b) != mapped(T, name, T.attr, wild=False):
            raise Violation("in_attribute_mapping(%r) is %s" % (name, b), input=name)
        want = T.alias.get(name, name)
        if tr.get_canonical_torch_api(name) != want:
            raise Violation("canonical name of %r is %r, the alias table says %r" % (name, tr.get_canonical_torch_api(name), want), input=name)
        e = T.api.get(want) or T.attr.get(want)
        pre = mode == "min" and e is not None and "disable" not in e and e.get("Matcher") == "ChangePrefixMatcher"
        if want not in T.api and want not in T.attr:
            pre = mode == "min" and any(re.match(w, want) and v.get("Matcher") == "ChangePrefixMatcher" and "disable" not in v for w, v in T.wild.items())
        if bool(tr.in_min_mode(name)) != pre:
            raise Violation("in_min_mode(%r) is %s in %s mode" % (name, tr.in_min_mode(name), mode), input=name)
    return Case(name, mapped(T, name, T.api) or mapped(T, name, T.attr), sample=name)


def e2e(name):
    """using any table name, called or not, never aborts a conversion"""
    pk = name.split(".")[0]
    if "*" in name or not pk.isidentifier() or pk in ("scikit-learn",):
        return None
    T = gen.tables()
    c = T.alias.get(name, name)
    src = "import %s\nimport torch\nv = %s\n" % (pk, name)
    if gen.class_method_of(c):
        src += "w = %s(x)\nu = %s(x, y)\n" % (name, name)
    elif c in T.api:
        sh = explore.shapes(c, rng("c12e", c), 3, explore.REQUIRED.get(c)) if T.api[c].get("args_list") else [(1, ())]
        pos = explore.signature(c)[0]
        for np, ks in sh:
            src += "w = %s(%s)\n" % (name, ", ".join(["a%d" % i for i in range(np)] + ["%s=b%d" % (k, i) for i, k in enumerate(ks)]))
    for mode in ("default", "min"):
        o = convert(src, mode=mode)
        if not o.ok:
            raise Violation("using %s aborts the conversion: %s" % (name, o.error), program=src, mode=mode)
    return Case(name, True, sample=src)


def entry_rules(chk):
    """the ground part: exhaustive over the tables"""
    from paconvert.global_var import GlobalManager as G
    import paconvert.api_matcher as M

    T = gen.tables()
    n = 0

    def bad(what, name):
        chk.violation(what, input=name)

    for a, b in (("API_MAPPING", T.api), ("ATTRIBUTE_MAPPING", T.attr), ("ALIAS_MAPPING", T.alias), ("API_WILDCARD_MAPPING", T.wild)):
        n += 1
        if getattr(G, a) != b:
            bad("GlobalManager.%s is not the table of its file" % a, a)
    for k in T.alias:
        n += 3
        for t, w in ((T.api, "call"), (T.attr, "attribute")):
            if k in t:
                bad("%s is an alias and an entry of the %s table" % (k, w), k)
        if T.alias[k] in T.alias:
            bad("the alias %s stands for another alias %s" % (k, T.alias[k]), k)
    for k in T.api:
        n += 1
        if k in T.attr:
            bad("%s is in the call and in the attribute table" % k, k)
    for k in list(T.api) + list(T.attr):
        n += 1
        if any(re.match(w, k) for w in T.wild) and not (T.api.get(k) or T.attr.get(k)):
            pass
    tr = transformer()
    for t in (T.api, T.attr, T.wild):
        for k, v in t.items():
            n += 4
            m = v.get("Matcher")
            if m is None:
                continue
            cls = getattr(M, m, None)
            if not (isinstance(cls, type) and issubclass(cls, M.BaseMatcher)):
                bad("%s names the rule %s, which does not exist" % (k, m), k)
                continue
            if t is T.wild:
                continue
            try:
                cls(tr, k, k, v, LOG).get_paddle_api()
            except Exception as e:
                bad("the entry of %s does not satisfy the requirements of %s: %r" % (k, m, e), k)
            if m == "ChangeAPIMatcher" and ("paddle_api" not in v or "unsupport_args" in v or "kwargs_change" in v or "paddle_default_kwargs" in v):
                bad("%s: ChangeAPIMatcher needs a paddle_api and no argument changes" % k, k)
            if m == "ChangePrefixMatcher" and k.split(".")[0] not in G.TORCH_PACKAGE_MAPPING:
                bad("%s: ChangePrefixMatcher needs a package with a Paddle counterpart" % k, k)
            if m == "GenericMatcher":
                al = v.get("args_list") or []
                ok = set(al) | set(v.get("overload_args_list") or [])
                if "paddle_api" not in v:
                    bad("%s: GenericMatcher needs a paddle_api" % k, k)
                for f in ("kwargs_change", "unsupport_args"):
                    for p in v.get(f) or []:
                        if p not in ok:
                            bad("%s: %s names the unknown parameter %s" % (k, f, p), k)
                if (v.get("min_input_args") or 0) > len([p for p in al if p != "*"]):
                    bad("%s: more required arguments than parameters" % k, k)
    chk.add_bounded("tables", n, len(T.api) + len(T.attr) + len(T.alias) + len(T.wild), "ground requirements of every entry of the four tables (exhaustive)", [], bound="none: the tables are finite and enumerated", exhaustive=True)


def names(n):
    T = gen.tables()
    base = list(T.api) + list(T.attr) + list(T.alias) + list(T.alias.values())
    out = list(dict.fromkeys(base))
    r = rng("c12")
    for _ in range(n):
        b = r.choice(base)
        c = r.randrange(9)
        if c == 0:
            b = b + "." + r.choice(["x", "__init__", "T"])
        elif c == 1:
            b = b.rsplit(".", 1)[0]
        elif c == 2:
            b = b + r.choice(["_", "s", "2"])
        elif c == 3:
            b = r.choice(["transformers.", "transformers", "einops.layers.torch.", "einops.layers.torch", "einops.layers."]) + r.choice(["A", "models.x", ""])
        elif c == 4:
            b = "".join(r.choice("torch.nAz_0*+?([{\\|^$ \n\u4e2d") for _ in range(r.randrange(12)))
        elif c == 5:
            b = b.upper()
        elif c == 8:
            b = r.choice(["x.", "torch.", "my_", "self.", "", "."]) + r.choice(["transformers.", "einops.layers.torch.", "einops.layers.torchx", "transformersx", "xtransformers", "Einops.layers.torch.A"]) + r.choice(["A", "nn.x", "", "torch.abs"])
        elif c == 6:
            b = b.replace("torch", r.choice(["paddle", "torchvision", "x.torch"]), 1)
        else:
            b = b[r.randrange(len(b)):] if b else b
        out.append(b)
    return out


def bounded(chk):
    entry_rules(chk)
    n = 200000 if THOROUGH else 20000
    run_cases(chk, "lookup", lookup_one, names(n), "every key and alias of the tables, and random names around them (prefixes, suffixes, wildcard matches, arbitrary strings), in default and min mode", "%d random names" % n, budget=300 if THOROUGH else 15)
    T = gen.tables()
    run_cases(chk, "use of every name", e2e, list(T.api) + list(T.attr) + list(T.alias), "every name of the tables used as a value and called with legal arguments, default and min mode", "up to four uses per name (exhaustive over the names)", budget=200 if THOROUGH else 15)
