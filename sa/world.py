"""Loading of a source tree and resolution of names to qualified names."""
import ast
import builtins
import os

from .terms import *  # noqa

BUILTINS = set(dir(builtins))
# Spelling variants of one external object.
ALIASES = {
    "os.path": "os.path", "posixpath": "os.path",
    "pandas.core.frame.DataFrame": "pandas.DataFrame", "pandas.core.series.Series": "pandas.Series",
    "numpy.bool_": "builtins.bool", "builtins.IOError": "builtins.OSError",
    "numpy.core.multiarray.zeros": "numpy.zeros", "collections.abc.Callable": "typing.Callable",
    "numba.types.int64": "numba.int64", "numba.types.float64": "numba.float64", "numba.types.boolean": "numba.boolean",
    "numba.core.types.int64": "numba.int64", "cloudpickle.cloudpickle.loads": "pickle.loads", "cloudpickle.loads": "pickle.loads",
    "vaex.dataframe.DataFrameLocal": "vaex.dataframe.DataFrame",
    "vaex.DataFrame": "vaex.dataframe.DataFrame", "os.scandir": "os.scandir",
}


class Func:
    def __init__(self, world, module, qual, node, cls=None):
        self.world, self.module, self.qual, self.node, self.cls = world, module, qual, node, cls
        self.is_gen = False
        for n in _own_nodes(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True

    @property
    def file(self):
        return self.module.file

    def decorators(self):
        return [ast.unparse(d) for d in getattr(self.node, "decorator_list", [])]


def _own_nodes(fn):
    """Nodes of a function body, nested functions excluded."""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Module:
    def __init__(self, world, name, file, tree, is_pkg):
        self.world, self.name, self.file, self.tree, self.is_pkg = world, name, file, tree, is_pkg
        self.imports = {}  # local name -> qualified
        self.defs = {}  # local name -> FunctionDef/ClassDef
        self.assigns = {}  # local name -> list of value nodes
        self.mutated = set()
        self._consts = {}
        self.scan(tree.body)
        for n in ast.walk(tree):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                for t in n.targets if hasattr(n, "targets") else [n.target]:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        self.mutated.add(t.value.id)
            if isinstance(n, ast.Global):
                self.mutated.update(n.names)

    def scan(self, body):
        for n in body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        top = a.name.split(".")[0]
                        self.imports[top] = top
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (n.level - 1)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    self.imports[a.asname or a.name] = base + "." + a.name
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(n.value)
                    elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                        for x, y in zip(t.elts, n.value.elts):
                            if isinstance(x, ast.Name):
                                self.assigns.setdefault(x.id, []).append(y)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                self.assigns.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                self.assigns.setdefault(n.target.id, []).append(n)
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                self.scan(n.body)
                self.scan(getattr(n, "orelse", []))


class World:
    """All modules of one source tree."""

    def __init__(self, root, pkg="oups"):
        self.root, self.pkg = root, pkg
        self.modules = {}
        self.funcs = {}  # qual -> Func
        self.classes = {}  # qual -> (module, ClassDef)
        self.errors = []
        for d, _, fs in os.walk(os.path.join(root, pkg)):
            if "__pycache__" in d:
                continue
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                name = rel[: -len(".__init__")] if is_pkg else rel
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                tree = ast.parse(src, filename=path)
                self.modules[name] = Module(self, name, os.path.relpath(path, root), tree, is_pkg)
        for m in self.modules.values():
            for n, node in m.defs.items():
                self._register(m, m.name + "." + n, node)

    def _register(self, m, qual, node, cls=None):
        if isinstance(node, ast.ClassDef):
            self.classes[qual] = (m, node)
            for x in node.body:
                if isinstance(x, ast.FunctionDef):
                    # getter / setter of one property keep distinct names
                    q = qual + "." + x.name
                    if any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in x.decorator_list):
                        q += ".setter"
                    self.funcs[q] = Func(self, m, q, x, qual)
        else:
            self.funcs[qual] = Func(self, m, qual, node, cls)
            for x in _own_nodes(node):
                if isinstance(x, ast.FunctionDef):
                    self._register(m, qual + ".<locals>." + x.name, x)

    # -------------------------------------------------------------- names
    def canon(self, q, depth=0):
        """Canonical qualified name, following re-exports within the package."""
        if q in ALIASES:
            q = ALIASES[q]
        if depth > 12:
            return q
        parts = q.split(".")
        # longest module prefix within the package
        for i in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:i])
            m = self.modules.get(mn)
            if m is not None:
                rest = parts[i:]
                nm = rest[0]
                if nm in m.defs or nm in m.assigns:
                    return q
                if nm in m.imports:
                    return self.canon(".".join([m.imports[nm]] + rest[1:]), depth + 1)
                return q
        return q

    def resolve(self, module, name):
        """Qualified name of a module-level name, or None."""
        if name in module.defs or name in module.assigns:
            return module.name + "." + name
        if name in module.imports:
            return self.canon(module.imports[name])
        if name in BUILTINS:
            return self.canon("builtins." + name)
        return None

    def constant(self, qual):
        """Expression node and module of a constant of the package, or None."""
        mn, _, n = qual.rpartition(".")
        m = self.modules.get(mn)
        if m is None or n in m.defs:
            return None
        vals = m.assigns.get(n)
        if not vals:
            return None
        if len(vals) != 1 or n in m.mutated:
            return (m, None)
        return (m, vals[0])
