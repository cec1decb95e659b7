"""Loads the analysed program (the package's modules) as syntax trees and
resolves imports, classes and methods.  Nothing of /repo is imported or run."""
import ast, os, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "evoMPS"
SKIP = {"cuda_alternatives"}


class AnalysisBroken(Exception):
    pass


class ModInfo(object):
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.src = open(path, encoding="utf-8").read()
        self.tree = ast.parse(self.src, path)
        self.rel = os.path.relpath(path, REPO)
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        for p in ast.walk(self.tree):
            for c in ast.iter_child_nodes(p):
                c._parent = p
        self._collect(self.tree.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                n._mod = self
                self.funcs.setdefault(n.name, n)
            elif isinstance(n, ast.ClassDef):
                n._mod = self
                self.classes[n.name] = n
                n._methods = {}
                for m in n.body:
                    if isinstance(m, ast.FunctionDef):
                        m._mod = self
                        m._cls = n
                        n._methods[m.name] = m
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports.setdefault(a.asname or a.name.split(".")[0], ("mod", a.name if a.asname else a.name.split(".")[0]))
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    base = PKG + ("." + base if base else "")
                for a in n.names:
                    self.imports.setdefault(a.asname or a.name, ("from", base, a.name))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = n.value
            elif isinstance(n, ast.Try):
                # the except branch (pure Python fallback) is preferred when it
                # rebinds a name imported from a compiled module
                for h in n.handlers:
                    self._collect(h.body)
                self._collect(n.body)
                self._collect(n.orelse)
            elif isinstance(n, ast.If):
                self._collect(n.body)
                self._collect(n.orelse)


class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        d = os.path.join(self.repo, PKG)
        self.mods = {}
        for f in sorted(os.listdir(d)):
            if f.endswith(".py"):
                nm = f[:-3]
                self.mods[nm] = ModInfo(nm, os.path.join(d, f))
        if not self.mods:
            raise AnalysisBroken("no modules found")
        self.classes = {}
        for m in self.mods.values():
            for c, n in m.classes.items():
                if c in self.classes:
                    n.name = c + "@" + m.name       # same name in two modules: keep them apart
                self.classes[n.name] = n
        self._mro = {}

    def digest(self):
        h = hashlib.sha256()
        for m in sorted(self.mods):
            h.update(self.mods[m].src.encode())
        return h.hexdigest()

    def mod(self, name):
        if name not in self.mods:
            raise AnalysisBroken("module %s vanished" % name)
        return self.mods[name]

    def func(self, mod, name):
        m = self.mod(mod)
        f = self.resolve_name(m, name)
        if not isinstance(f, ast.FunctionDef):
            raise AnalysisBroken("function %s.%s vanished" % (mod, name))
        return f

    def resolve_name(self, m, name, depth=0):
        """module-level name -> FunctionDef | ClassDef | ('lib', dotted) | ('pkgmod', ModInfo) | ('const', node) | None"""
        if depth > 8:
            return None
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.imports:
            i = m.imports[name]
            if i[0] == "mod":
                dotted = i[1]
                if dotted.startswith(PKG + "."):
                    nm = dotted.split(".", 1)[1]
                    if nm in self.mods:
                        return ("pkgmod", self.mods[nm])
                return ("lib", dotted)
            _, base, nm = i
            if base == PKG or base == "":
                if nm in self.mods:
                    return ("pkgmod", self.mods[nm])
            if base.startswith(PKG + "."):
                b = base.split(".", 1)[1]
                if b in self.mods:
                    return self.resolve_name(self.mods[b], nm, depth + 1)
                # compiled module: use the fallback of the same name
                if "core_common" in self.mods and nm in self.mods["core_common"].funcs:
                    return self.mods["core_common"].funcs[nm]
                return ("lib", base + "." + nm)
            if base in self.mods:
                return self.resolve_name(self.mods[base], nm, depth + 1)
            return ("lib", base + "." + nm)
        if name in m.consts:
            v = m.consts[name]
            if isinstance(v, ast.Name) and v.id != name:
                return self.resolve_name(m, v.id, depth + 1)
            return ("const", v)
        return None

    def mro(self, cname):
        if cname in self._mro:
            return self._mro[cname]
        c = self.classes.get(cname)
        if c is None:
            return []
        out = [c]
        for b in c.bases:
            bn = b.id if isinstance(b, ast.Name) else (b.attr if isinstance(b, ast.Attribute) else None)
            for x in self.mro(bn) if bn else []:
                if x not in out:
                    out.append(x)
        self._mro[cname] = out
        return out

    def method(self, cname, mname, after=None):
        mro = self.mro(cname)
        if after is not None:
            names = [c.name for c in mro]
            mro = mro[names.index(after) + 1:] if after in names else mro
        for c in mro:
            if mname in c._methods:
                return c._methods[mname]
        return None

    def all_functions(self, skip=SKIP):
        for m in self.mods.values():
            if m.name in skip:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    yield m, n


def qualname(fn):
    parts = []
    n = fn
    while n is not None and not isinstance(n, ast.Module):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            parts.append(n.name.split("@")[0])
        elif isinstance(n, ast.Lambda):
            parts.append("<lambda>")
        n = getattr(n, "_parent", None)
    return ".".join(reversed(parts))
