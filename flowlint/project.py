"""Parsed source of the package under analysis: modules, classes, imports."""
import ast
import os

REPO = os.environ.get("FLOWLINT_REPO", "/repo")


class AnchorMissing(Exception):
    """A construct the rule is anchored at is not in the source any more."""


class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.methods, self.attrs, self.aliases = {}, {}, {}
        self.decorators = node.decorator_list
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = (st.annotation, st.value)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = (None, st.value)
        self.bases = []        # ClassInfo or dotted external name
        self._mro = None

    @property
    def qual(self):
        return self.module.name + "." + self.name

    def mro(self):
        if self._mro is None:
            self._mro = self._linearize()
        return self._mro

    def _linearize(self):
        seqs = []
        for b in self.bases:
            seqs.append(list(b.mro()) if isinstance(b, ClassInfo) else [b])
        seqs.append(list(self.bases))
        out = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                break
            out.append(h)
            seqs = [[x for x in s if x is not h and x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def lookup(self, name, after=None):
        """(owner class, kind, node) for the first definition in MRO order"""
        m = self.mro()
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            if not isinstance(c, ClassInfo):
                continue
            if name in c.methods:
                return c, "method", c.methods[name]
            if name in c.attrs:
                return c, "attr", c.attrs[name]
        return None

    def is_sub(self, other):
        return other in self.mro()

    def ext_bases(self):
        return [b for b in self.mro() if not isinstance(b, ClassInfo)]

    def __repr__(self):
        return f"<class {self.qual}>"


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)
        self.globals = {}     # name -> ("class", ClassInfo) | ("func", node) | ("import", dotted) | ("expr", node)
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.ClassDef):
                self.globals[st.name] = ("class", ClassInfo(st.name, self, st))
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.globals[st.name] = ("func", st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.globals[a.asname] = ("import", a.name)
                    else:
                        self.globals[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    parts = parts[:len(parts) - st.level]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    self.globals[a.asname or a.name] = ("import", base + "." + a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = ("expr", st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.globals[st.target.id] = ("expr", st.value)
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                for h in st.handlers:
                    self._scan(h.body)
            elif isinstance(st, ast.With):
                self._scan(st.body)


class Project:
    def __init__(self, root=None, pkg="flowMC"):
        self.root = root or REPO
        self.modules = {}
        src = os.path.join(self.root, "src")
        base = os.path.join(src, pkg)
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                name = os.path.relpath(path, src)[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(path) as fh:
                    text = fh.read()
                self.modules[name] = Module(name, path, text)
        if not self.modules:
            raise AnchorMissing(f"no Python source under {base}")
        for m in self.modules.values():
            for kind, v in list(m.globals.values()):
                if kind == "class":
                    v.bases = [self._base(m, b) for b in v.node.bases]
        for m in self.modules.values():
            for kind, v in list(m.globals.values()):
                if kind == "class":
                    v._mro = None

    def _base(self, m, node):
        if isinstance(node, ast.Subscript):
            node = node.value
        d = dotted(node)
        if d is None:
            return "?"
        r = self.resolve(m, d)
        if r and r[0] == "class":
            return r[1]
        return r[1] if r and r[0] == "ext" else d

    def resolve(self, m, dname):
        """resolve a dotted name used in module m"""
        parts = dname.split(".")
        g = m.globals.get(parts[0])
        if g is None:
            return None
        if g[0] == "import":
            return self.resolve_abs(".".join([g[1]] + parts[1:]))
        if len(parts) == 1:
            if g[0] == "class":
                return ("class", g[1])
            if g[0] == "func":
                return ("func", m, g[1])
            return ("expr", m, g[1])
        if g[0] == "class":
            return ("classattr", g[1], parts[1:])
        return None

    def resolve_abs(self, d, depth=0):
        if depth > 10:
            return ("ext", d)
        if d in self.modules:
            return ("module", self.modules[d])
        parts = d.split(".")
        for k in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:k])
            if mn in self.modules:
                m = self.modules[mn]
                g = m.globals.get(parts[k])
                if g is None:
                    return ("ext", d)
                if g[0] == "import":
                    return self.resolve_abs(".".join([g[1]] + parts[k + 1:]), depth + 1)
                if g[0] == "class":
                    return ("class", g[1]) if k == len(parts) - 1 else ("classattr", g[1], parts[k + 1:])
                if g[0] == "func":
                    return ("func", m, g[1])
                return ("expr", m, g[1])
        return ("ext", d)

    def all_classes(self):
        for m in self.modules.values():
            for kind, v in m.globals.values():
                if kind == "class":
                    yield v

    def find_class(self, name):
        """class by name, wherever it lives"""
        c = [k for k in self.all_classes() if k.name == name]
        if len(c) == 1:
            return c[0]
        if not c:
            raise AnchorMissing(f"class {name} not found")
        raise AnchorMissing(f"class {name} is defined {len(c)} times")

    def maybe_class(self, name):
        try:
            return self.find_class(name)
        except AnchorMissing:
            return None

    def find_func(self, name):
        c = [(m, v) for m in self.modules.values() for n, (k, v) in m.globals.items() if k == "func" and n == name]
        if len(c) == 1:
            return c[0]
        raise AnchorMissing(f"function {name}: {len(c)} definitions")

    def subclasses(self, base):
        return [c for c in self.all_classes() if c is not base and c.is_sub(base)]

    def is_abstract(self, fn):
        for d in fn.decorator_list:
            n = dotted(d)
            if n and n.split(".")[-1] == "abstractmethod":
                return True
        return False


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return None if b is None else b + "." + node.attr
    return None
