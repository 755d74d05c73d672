"""Source front end: parses the package under verification from its current working tree on every run."""
import ast
import hashlib
import os

ROOT = os.environ.get("RAMP_REPO", "/repo")


class FuncInfo:
    def __init__(self, module, cls, node, kind="function"):
        self.module = module
        self.cls = cls
        self.node = node
        self.kind = kind  # function / method / property / setter / classmethod / staticmethod
        self.name = node.name
        self.qual = f"{module.name}:{cls.name + '.' if cls else ''}{node.name}" + (
            ".setter" if kind == "setter" else ""
        )
        self.loops = [
            n for n in ast.walk(node) if isinstance(n, (ast.For, ast.While, ast.ListComp))
        ]
        self.decorators = [ast.unparse(d) for d in node.decorator_list]

    @property
    def source_hash(self):
        return hashlib.sha256(ast.dump(self.node).encode()).hexdigest()[:16]

    @property
    def where(self):
        return f"{os.path.relpath(self.module.path, ROOT)}:{self.node.lineno}"


class ClassInfo:
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.bases = [ast.unparse(b) for b in node.bases]
        self.methods, self.props, self.setters, self.classmethods, self.consts = {}, {}, {}, {}, {}
        self.static = set()
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                decs = [ast.unparse(d) for d in n.decorator_list]
                if "property" in decs:
                    self.props[n.name] = FuncInfo(module, self, n, "property")
                elif any(d.endswith(".setter") for d in decs):
                    self.setters[n.name] = FuncInfo(module, self, n, "setter")
                elif "classmethod" in decs:
                    self.classmethods[n.name] = FuncInfo(module, self, n, "classmethod")
                elif "staticmethod" in decs:
                    self.static.add(n.name)
                    self.methods[n.name] = FuncInfo(module, self, n, "staticmethod")
                else:
                    self.methods[n.name] = FuncInfo(module, self, n, "method")
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value


class ModuleInfo:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(self.source, path)
        self.functions, self.classes, self.imports, self.assigns = {}, {}, {}, {}
        self.cache = {}
        self._collect(self.tree.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.functions[n.name] = FuncInfo(self, None, n)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = ClassInfo(self, n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = ("module", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                mod = n.module or ""
                if n.level:
                    pkg = self.name.split(".")[: -n.level]
                    mod = ".".join(pkg + ([n.module] if n.module else []))
                for a in n.names:
                    self.imports[a.asname or a.name] = ("from", mod, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value:
                self.assigns[n.target.id] = n.value
            elif isinstance(n, ast.Try):
                self._collect(n.body)
            elif isinstance(n, ast.If):
                pass


class Program:
    def __init__(self, root=None):
        self.root = root or ROOT
        self.modules = {}
        base = os.path.join(self.root, "ramp")
        for d, dirs, files in os.walk(base):
            dirs[:] = [x for x in dirs if x not in ("__pycache__", "example", "test", "results")]
            for f in files:
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    try:
                        self.modules[rel] = ModuleInfo(rel, p)
                    except SyntaxError as e:  # pragma: no cover
                        raise RuntimeError(f"cannot parse {p}: {e}")

    def find(self, qual):
        mod, _, name = qual.partition(":")
        m = self.modules.get(mod)
        if m is None:
            return None
        if "." in name:
            cls, _, meth = name.partition(".")
            c = m.classes.get(cls)
            if c is None:
                return None
            if meth.endswith(".setter"):
                return c.setters.get(meth[: -len(".setter")])
            return c.methods.get(meth) or c.props.get(meth) or c.classmethods.get(meth)
        return m.functions.get(name)

    def find_class(self, name):
        for m in self.modules.values():
            if name in m.classes:
                return m.classes[name]
        return None
