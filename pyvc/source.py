"""Mechanical extraction of the code under contract from /repo's working tree.

Nothing is copied or rewritten by hand: every function body that is executed symbolically is the AST of the current
file.  What the extraction drops is listed in DROPPED and repeated in every evidence file.
"""
import ast, hashlib, os, warnings

REPO = os.environ.get("VERIF_REPO", "/repo")

DROPPED = [
    "docstrings",
    "decorators @logger.catch(...) (loguru: log and re-raise), @junos_unsupported on non-junos lines (pass-through)",
    "calls on `logger`, print(), warnings.warn(), time.time() (logging/diagnostics only, arguments still evaluated "
    "for side effects are NOT evaluated)",
    "statements guarded by `debug` conditions are executed with debug == 0 (documented default)",
    "type annotations",
]


class FuncInfo:
    def __init__(self, module, cls, node, qual):
        self.module, self.cls, self.node, self.qual = module, cls, node, qual
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.is_property = any(d == "property" or d.endswith(".getter") for d in self.decorators)
        self.is_setter = any(d.endswith(".setter") for d in self.decorators)
        self.is_static = "staticmethod" in self.decorators
        self.is_classmethod = "classmethod" in self.decorators

    @property
    def key(self):
        return f"{self.module.name}:{self.qual}"

    def sha(self):
        return hashlib.sha256(ast.unparse(self.node).encode()).hexdigest()[:16]

    def __repr__(self):
        return f"<Func {self.key}>"


class ClassInfo:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.base_exprs = [ast.unparse(b) for b in node.bases]
        self.methods, self.setters, self.attrs = {}, {}, {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                fi = FuncInfo(module, self, st, f"{node.name}.{st.name}" )
                if fi.is_setter:
                    fi.qual += ".setter"
                    self.setters[st.name] = fi
                else:
                    self.methods[st.name] = fi
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                self.attrs[st.targets[0].id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value

    def __repr__(self):
        return f"<Class {self.name}>"


class Module:
    def __init__(self, src, name, path):
        self.src, self.name, self.path = src, name, path
        text = open(path, encoding="utf-8").read()
        self.sha = hashlib.sha256(text.encode()).hexdigest()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(text)
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        for st in self.tree.body:
            self._top(st)

    def _top(self, st):
        if isinstance(st, ast.FunctionDef):
            self.funcs[st.name] = FuncInfo(self, None, st, st.name)
        elif isinstance(st, ast.ClassDef):
            self.classes[st.name] = ClassInfo(self, st)
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                self.imports[a.asname or a.name] = (st.module, a.name)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.consts[t.id] = st.value
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.consts[st.target.id] = st.value
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body:
                self._top(s)


class Source:
    def __init__(self, repo=REPO, package="ciscoconfparse"):
        self.repo, self.package = repo, package
        self.modules = {}
        self.used = {}

    def module(self, name):
        """name: 'ciscoconfparse.ccp_util'"""
        if name not in self.modules:
            path = os.path.join(self.repo, *name.split(".")) + ".py"
            if not os.path.exists(path):
                path = os.path.join(self.repo, *name.split("."), "__init__.py")
            if not os.path.exists(path):
                return None
            self.modules[name] = Module(self, name, path)
        return self.modules[name]

    def resolve(self, module, name):
        """Resolve a global name of a module to FuncInfo / ClassInfo / ('const', Module, node) / ('ext', dotted)."""
        seen = set()
        while True:
            if (module.name, name) in seen:
                return None
            seen.add((module.name, name))
            if name in module.funcs:
                return module.funcs[name]
            if name in module.classes:
                return module.classes[name]
            if name in module.imports:
                mod, attr = module.imports[name]
                if mod and mod.split(".")[0] == self.package:
                    if attr is None:
                        return ("mod", self.module(mod))
                    m = self.module(mod)
                    if m is None:
                        return ("ext", f"{mod}.{attr}")
                    sub = self.module(f"{mod}.{attr}") if mod == self.package else None
                    if sub is not None and attr not in m.funcs and attr not in m.classes and attr not in m.imports:
                        return ("mod", sub)
                    module, name = m, attr
                    continue
                return ("ext", mod if attr is None else f"{mod}.{attr}")
            if name in module.consts:
                return ("const", module, module.consts[name])
            return None

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            for b in c.base_exprs:
                r = self.resolve(c.module, b.split(".")[-1])
                if isinstance(r, ClassInfo):
                    todo.append(r)
        return out

    def base_names(self, cls):
        names = set()
        for c in self.mro(cls):
            names.add(c.name)
            names.update(b.split(".")[-1] for b in c.base_exprs)
        return names

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, cls, name):
        for c in self.mro(cls):
            if name in c.setters:
                return c.setters[name]
            if name in c.methods:
                return None
        return None

    def find_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def get(self, key):
        """'ciscoconfparse.ccp_abc:BaseCfgLine.text' or '...:fn' or '...:Cls.name.setter'"""
        mod, qual = key.split(":")
        m = self.module(mod)
        if m is None:
            raise KeyError(key)
        parts = qual.split(".")
        if len(parts) == 1:
            return m.funcs[parts[0]]
        c = m.classes[parts[0]]
        if len(parts) == 3 and parts[2] == "setter":
            return c.setters[parts[1]]
        f = self.find_method(c, parts[1])
        if f is None:
            raise KeyError(key)
        return f
