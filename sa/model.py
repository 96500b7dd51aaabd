"""Program model: modules, imports, classes with their resolution order, functions."""
import ast
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "most_queue"
SKIP_DIRS = {"tests", "__pycache__", "misc"}


class AnalysisBroken(Exception):
    """an anchor of the analysis is gone: the check gives no verdict (error exit)"""


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.imports = {}      # local name -> ('mod', dotted) | ('sym', dotted module, name)
        self.functions = {}
        self.classes = {}
        self.assigns = {}      # module level names -> value node
        self.rel = os.path.relpath(path, REPO)


class FuncInfo:
    def __init__(self, node, module, cls=None):
        self.node, self.module, self.cls = node, module, cls
        self.name = node.name
        self.is_static = any(_dec(d) == "staticmethod" for d in node.decorator_list)
        self.is_classmethod = any(_dec(d) == "classmethod" for d in node.decorator_list)
        self.is_property = any(_dec(d) in ("property", "cached_property") for d in node.decorator_list)

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def __repr__(self):
        return f"<{self.module.name}:{self.qual}>"


def _dec(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Name):
        return d.id
    if isinstance(d, ast.Attribute):
        return d.attr
    return ""


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods = {}
        self.class_attrs = {}
        self.bases = []
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = FuncInfo(s, module, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.class_attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.class_attrs[s.target.id] = s.value

    def mro(self):
        # linearisation (depth first, last occurrence kept); the repository uses single inheritance
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_after(self, cls, name):
        m = self.mro()
        i = m.index(cls)
        for c in m[i + 1:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def class_attr(self, name):
        for c in self.mro():
            if name in c.class_attrs:
                return c, c.class_attrs[name]
        return None

    def __repr__(self):
        return f"<class {self.module.name}.{self.name}>"


class Program:
    def __init__(self, repo=None, skip_dirs=SKIP_DIRS):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"package {root} not found")
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in skip_dirs)
            for f in sorted(files):
                if f.endswith(".py"):
                    self._load(os.path.join(d, f))
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_expr(m, b)
                    if isinstance(r, ClassInfo):
                        c.bases.append(r)

    def _load(self, path):
        rel = os.path.relpath(path, self.repo)
        name = rel[:-3].replace(os.sep, ".")
        if name.endswith(".__init__"):
            name = name[:-9]
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisBroken(f"{rel} does not parse: {e}")
        m = Module(name, path, tree, src)
        self.modules[name] = m
        self._collect(m, tree.body)

    def _collect(self, m, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.imports[a.asname] = ("mod", a.name)
                    else:
                        m.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = m.name.split(".")[:-s.level]
                    base = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    m.imports[a.asname or a.name] = ("sym", base, a.name)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.functions[s.name] = FuncInfo(s, m)
            elif isinstance(s, ast.ClassDef):
                m.classes[s.name] = ClassInfo(s, m)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.assigns[t.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                if isinstance(s, ast.If) and _is_main(s.test):
                    continue
                self._collect(m, s.body)

    def lookup(self, module, name, depth=0):
        """resolve a global name used in module"""
        if depth > 8:
            return None
        if name in module.functions:
            return module.functions[name]
        if name in module.classes:
            return module.classes[name]
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == "mod":
                return ("module", imp[1])
            _, mod, sym = imp
            if mod in self.modules:
                r = self.lookup(self.modules[mod], sym, depth + 1)
                if r is not None:
                    return r
            if mod + "." + sym in self.modules:
                return ("module", mod + "." + sym)
            return ("ext", mod + "." + sym)
        if name in module.assigns:
            return ("global", module, name, module.assigns[name])
        return None

    def resolve_expr(self, module, node):
        if isinstance(node, ast.Name):
            return self.lookup(module, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value)
            if isinstance(b, tuple) and b[0] == "module":
                if b[1] in self.modules:
                    return self.lookup(self.modules[b[1]], node.attr)
                return ("ext", b[1] + "." + node.attr)
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", b[1] + "." + node.attr)
            if isinstance(b, ClassInfo):
                return b.find(node.attr)
        return None

    def add_source(self, name, src):
        """an entry point of the analysis: a small program over the repository's API, read like the rest, never run"""
        m = Module(name, "<" + name + ">", ast.parse(src), src)
        self.modules[name] = m
        self._collect(m, m.tree.body)
        for c in m.classes.values():
            for b in c.node.bases:
                r = self.resolve_expr(m, b)
                if isinstance(r, ClassInfo):
                    c.bases.append(r)
        return m

    # ---- anchors
    def cls(self, modname, name):
        m = self.modules.get(PKG + "." + modname)
        if m is None:
            # the class may have moved: accept it anywhere if unique
            c = [x.classes[name] for x in self.modules.values() if name in x.classes]
            if len(c) == 1:
                return c[0]
            raise AnalysisBroken(f"module {modname} (class {name}) not found")
        if name in m.classes:
            return m.classes[name]
        r = self.lookup(m, name)
        if isinstance(r, ClassInfo):
            return r
        raise AnalysisBroken(f"class {modname}.{name} not found")

    def func(self, modname, name):
        m = self.modules.get(PKG + "." + modname)
        if m is None:
            raise AnalysisBroken(f"module {modname} not found")
        r = self.lookup(m, name)
        if isinstance(r, FuncInfo):
            return r
        raise AnalysisBroken(f"function {modname}.{name} not found")

    def method(self, cls, name):
        f = cls.find(name)
        if f is None:
            raise AnalysisBroken(f"method {cls.name}.{name} not found")
        return f

    def stores_attr(self, name):
        """is an attribute of that name assigned anywhere in the program"""
        if not hasattr(self, "_stored"):
            self._stored = set()
            for mod in self.modules.values():
                for n in ast.walk(mod.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        self._stored.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3:
                        if isinstance(n.args[1], ast.Constant):
                            self._stored.add(n.args[1].value)
        return name in self._stored

    def all_functions(self):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f


def _is_main(test):
    return (isinstance(test, ast.Compare) and isinstance(test.left, ast.Name)
            and test.left.id == "__name__")
