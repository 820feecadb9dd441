"""Index of the real source tree: every run parses /repo's current files with `ast`.
Nothing is copied by hand; a contract names a function and gets this AST."""
import ast
import builtins
import os

REPO = os.environ.get("PYVER_REPO", "/repo")


class FuncInfo:
    def __init__(self, node, module, cls, qual):
        self.node, self.module, self.cls, self.qual = node, module, cls, qual

    @property
    def decorators(self):
        return [ast.unparse(d) for d in self.node.decorator_list]

    def is_property(self):
        return any(d in ("property",) for d in self.decorators)

    def is_static(self):
        return "staticmethod" in self.decorators

    def is_classmethod(self):
        return "classmethod" in self.decorators


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods, self.consts, self.nested = {}, {}, {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(s, module, self, f"{module.name}:{node.name}.{s.name}")
                if any(d.endswith(".setter") for d in fi.decorators):
                    self.methods.setdefault("@set_" + s.name, fi)
                else:
                    self.methods[s.name] = fi
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                self.consts[s.target.id] = s.value

    def base_names(self):
        return [ast.unparse(b) for b in self.node.bases]


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.funcs, self.classes, self.consts, self.imports = {}, {}, {}, {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = FuncInfo(s, self, None, f"{self.name}:{s.name}")
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple):
                        for a, b in zip(t.elts, s.value.elts):
                            if isinstance(a, ast.Name):
                                self.consts[a.id] = b
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                self.consts[s.target.id] = s.value
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (
                        a.name if a.asname else a.name.split(".")[0]
                    )
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    pkg = self.name.split(".")
                    if not self.path.endswith("__init__.py"):
                        pkg = pkg[:-1]
                    pkg = pkg[: len(pkg) - (s.level - 1)]
                    base = ".".join(pkg + ([base] if base else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = f"{base}.{a.name}"
            elif isinstance(s, ast.Try):
                self._scan(s.body)
            elif isinstance(s, ast.If):
                self._scan(s.body)


class Source:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}

    def module(self, name):
        if name not in self.modules:
            rel = name.replace(".", "/")
            for cand in (f"{rel}.py", f"{rel}/__init__.py"):
                p = os.path.join(self.repo, cand)
                if os.path.exists(p):
                    self.modules[name] = Module(name, p)
                    break
            else:
                self.modules[name] = None
        return self.modules[name]

    def func(self, qual):
        mod, rest = qual.split(":")
        m = self.module(mod)
        if m is None:
            return None
        parts = rest.split(".")
        if len(parts) == 1:
            return m.funcs.get(parts[0])
        c = m.classes.get(parts[0])
        if c is None:
            return None
        return self.method(c, parts[1])

    def resolve(self, module, name, depth=0):
        """resolve a global name in module -> ('func',FuncInfo)|('class',ClassInfo)|('const',node,module)|('ext',dotted)|None"""
        if depth > 6:
            return None
        if name in module.funcs:
            return ("func", module.funcs[name])
        if name in module.classes:
            return ("class", module.classes[name])
        if name in module.consts:
            return ("const", module.consts[name], module)
        if name in module.imports:
            dotted = module.imports[name]
            return self.dotted(dotted, depth + 1)
        return None

    def dotted(self, dotted, depth=0):
        if dotted.startswith("ipyparallel"):
            if self.module(dotted) is not None:
                return ("mod", dotted)
            mod, _, nm = dotted.rpartition(".")
            if mod and self.module(mod) is not None:
                r = self.resolve(self.module(mod), nm, depth + 1)
                if r:
                    return r
        return ("ext", dotted)

    def bases(self, ci):
        out = []
        for b in ci.base_names():
            head = b.split(".")[0]
            r = self.resolve(ci.module, head)
            if r and r[0] == "mod" and "." in b:
                r = self.dotted(r[1] + "." + b.split(".", 1)[1])
            elif r and r[0] == "ext" and "." in b:
                r = ("ext", r[1] + "." + b.split(".", 1)[1])
            if r and r[0] == "class":
                out.append(r[1])
            else:
                out.append(b if not (r and r[0] == "ext") else r[1])
        return out

    def mro(self, ci):
        out, seen = [], set()

        def go(c):
            key = c if isinstance(c, str) else (c.module.name, c.name)
            if key in seen:
                return
            seen.add(key)
            out.append(c)
            if not isinstance(c, str):
                for b in self.bases(c):
                    go(b)

        go(ci)
        return out

    def method(self, ci, name, skip_first=False):
        for i, c in enumerate(self.mro(ci)):
            if skip_first and i == 0:
                continue
            if not isinstance(c, str) and name in c.methods:
                return c.methods[name]
        return None

    def class_const(self, ci, name):
        for c in self.mro(ci):
            if not isinstance(c, str) and name in c.consts:
                return c.consts[name], c.module
        return None

    def exc_is(self, name, handler, module):
        """is exception class `name` a subclass of `handler` (both bare names)?"""
        if name == handler or handler in ("Exception", "BaseException"):
            return True
        b1, b2 = getattr(builtins, name, None), getattr(builtins, handler, None)
        if isinstance(b1, type) and isinstance(b2, type):
            return issubclass(b1, b2)
        # repo exception class
        for mod in (module, self.module("ipyparallel.error")):
            if mod is None:
                continue
            r = self.resolve(mod, name)
            if r and r[0] == "class":
                for c in self.mro(r[1]):
                    cn = c if isinstance(c, str) else c.name
                    if cn.split(".")[-1] == handler:
                        return True
                    cb = getattr(builtins, cn, None)
                    if isinstance(cb, type) and isinstance(b2, type) and issubclass(cb, b2):
                        return True
                return False
        return False
