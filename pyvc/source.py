"""The repository's functions, read from the working tree on every run."""
import ast
import os

from vlib.common import REPO

from .values import Cls, Ext, Func


class Module:
    def __init__(self, name):
        self.name = name
        rel = name.replace(".", "/")
        p = os.path.join(REPO, rel + ".py")
        if not os.path.exists(p):
            p = os.path.join(REPO, rel, "__init__.py")
        self.path = p
        with open(p, encoding="UTF-8") as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.defs = {}
        self.imports = {}
        self.assigns = {}
        for n in self.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    self.imports[a.asname or a.name] = (n.module, a.name)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.assigns[n.targets[0].id] = n.value


class Source:
    def __init__(self):
        self.mods = {}

    def module(self, name):
        if name not in self.mods:
            self.mods[name] = Module(name)
        return self.mods[name]

    def is_repo(self, name):
        return name.split(".")[0] == "paconvert"

    def lookup(self, mod, name):
        """A module-level name: Func, Cls, Ext or None."""
        m = self.module(mod)
        if name in m.defs:
            n = m.defs[name]
            q = mod + "." + name
            return Cls(n, mod, q) if isinstance(n, ast.ClassDef) else Func(n, mod, None, q)
        if name in m.assigns:
            return ("assign", mod, name, m.assigns[name])
        if name in m.imports:
            v = m.imports[name]
            if isinstance(v, str):
                return Ext(v)
            src, nm = v
            if nm == "*":
                return None
            if self.is_repo(src):
                return self.lookup(src, nm)
            return Ext(src + "." + nm)
        for k, v in m.imports.items():
            if isinstance(v, tuple) and v[1] == "*" and self.is_repo(v[0]):
                r = self.lookup(v[0], name)
                if r is not None:
                    return r
        # 'from x import *' was stored under '*'
        return None

    def cls(self, qual):
        mod, name = qual.rsplit(".", 1)
        return self.lookup(mod, name)

    def bases(self, c):
        out = []
        for b in c.node.bases:
            if isinstance(b, ast.Name):
                r = self.lookup(c.module, b.id)
                out.append(r if r is not None else Ext(b.id))
            else:
                out.append(Ext(ast.unparse(b)))
        return out

    def mro(self, c):
        out = [c]
        for b in self.bases(c):
            if isinstance(b, Cls):
                out += [x for x in self.mro(b) if x not in out]
            else:
                out.append(b)
        return out

    def method(self, c, name, after=None):
        """(definition, defining class) of a method; `after`: start behind that class."""
        seen = after is None
        for k in self.mro(c):
            if isinstance(k, Ext):
                if seen:
                    return Ext(k.name + "." + name), k
                continue
            if seen:
                for n in k.node.body:
                    if isinstance(n, ast.FunctionDef) and n.name == name:
                        return Func(n, k.module, k, k.qual + "." + name), k
            if after is not None and k.qual == after.qual:
                seen = True
        return None, None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Ext):
                continue
            for n in k.node.body:
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    return k, n.value
        return None, None
