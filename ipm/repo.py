"""Source model of the package: modules, functions, imports (parsed on every run)."""
import ast
import builtins
import os

from .terms import mk

PKG = "impurityModel"


class AnalysisBroken(Exception):
    """an anchor vanished or the sources cannot be parsed"""


class Func:
    def __init__(self, qual, mod, node):
        self.qual, self.mod, self.node = qual, mod, node
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.all_params = self.params + self.kwonly
        nd = len(a.defaults)
        self.defaults = dict(zip(self.params[len(self.params) - nd:], a.defaults)) if nd else {}
        self.defaults.update({k: d for k, d in zip(self.kwonly, a.kw_defaults) if d is not None})
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(node))

    @property
    def file(self):
        return self.mod.rel


def walk_scope(fn):
    """walk a function body without entering nested functions/classes/lambdas"""
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(n))


class Module:
    def __init__(self, name, path, rel, dotted):
        self.name, self.path, self.rel, self.dotted = name, path, rel, dotted
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        try:
            self.tree = ast.parse(self.src, path)
        except SyntaxError as e:
            raise AnalysisBroken(f"{rel}: syntax error: {e}")
        self.funcs = {}
        self.imports = {}  # name -> ('lib', dotted) | ('mod', short) | ('obj', short, name)
        self.assigns = {}  # module level name -> list of value nodes
        self.main = None
        self.classes = {}


class Repo:
    def __init__(self, root=None):
        self.root = root or os.environ.get("IPM_REPO", "/repo")
        self.modules = {}
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"package directory {base} not found")
        dotted2short = {}
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ("test", "tests", "__pycache__"))
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)
                dotted = rel[:-3].replace(os.sep, ".")
                short = f[:-3]
                if f == "__init__.py":
                    dotted = dotted[: -len(".__init__")]
                    short = dotted
                if short in self.modules:
                    short = dotted
                self.modules[short] = Module(short, p, rel, dotted)
                dotted2short[dotted] = short
        self.dotted2short = dotted2short
        for m in self.modules.values():
            self._index(m)
        # functions imported by name into another module are reachable under both names
        self.funcs = {}
        for m in self.modules.values():
            for n, fd in m.funcs.items():
                self.funcs[f"{m.name}.{n}"] = fd

    def _index(self, m):
        def top(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.funcs[s.name] = Func(f"{m.name}.{s.name}", m, s)
                elif isinstance(s, ast.ClassDef):
                    m.classes[s.name] = s
                elif isinstance(s, ast.Import):
                    for al in s.names:
                        self._imp(m, al)
                elif isinstance(s, ast.ImportFrom):
                    self._impfrom(m, s)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.assigns.setdefault(t.id, []).append(s.value)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    m.assigns.setdefault(s.target.id, []).append(s.value)
                elif isinstance(s, ast.If):
                    if _is_main(s.test):
                        m.main = s
                        m.funcs["__main__"] = Func(f"{m.name}.__main__", m, main_function(s))
                    else:
                        top(s.body)
                        top(s.orelse)
                elif isinstance(s, ast.Try):
                    top(s.body)
                    for h in s.handlers:
                        top(h.body)
                    top(s.orelse)
                elif isinstance(s, ast.With):
                    top(s.body)

        top(m.tree.body)

    def _imp(self, m, al):
        if al.name.split(".")[0] == PKG:
            if al.asname:
                m.imports[al.asname] = ("mod", self.dotted2short.get(al.name, al.name))
            else:
                m.imports[PKG] = ("pkg", PKG)
        elif al.asname:
            m.imports[al.asname] = ("lib", al.name)
        else:
            m.imports[al.name.split(".")[0]] = ("lib", al.name.split(".")[0])

    def _impfrom(self, m, s):
        modname = s.module or ""
        if s.level:
            parts = m.dotted.split(".")
            if not m.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            modname = ".".join(parts + ([modname] if modname else []))
        for al in s.names:
            n = al.asname or al.name
            if modname.split(".")[0] == PKG:
                full = f"{modname}.{al.name}"
                if full in self.dotted2short:
                    m.imports[n] = ("mod", self.dotted2short[full])
                else:
                    m.imports[n] = ("obj", self.dotted2short.get(modname, modname), al.name)
            else:
                m.imports[n] = ("lib", f"{modname}.{al.name}")

    def resolve(self, mod, name, depth=0):
        """global name in module -> term (fn / mod / lib / glob / cls / undef)"""
        m = self.modules.get(mod)
        if m is None or depth > 6:
            return mk("undef", f"{mod}.{name}")
        if name in m.funcs:
            return mk("fn", m.funcs[name].qual)
        if name in m.classes:
            return mk("cls", f"{mod}.{name}")
        if name in m.imports:
            i = m.imports[name]
            if i[0] == "lib":
                return mk("lib", i[1])
            if i[0] == "mod":
                return mk("mod", i[1])
            if i[0] == "pkg":
                return mk("pkg", i[1])
            return self.resolve(i[1], i[2], depth + 1)
        if name in m.assigns:
            return mk("glob", mod, name)
        if hasattr(builtins, name):
            return mk("lib", name)
        return mk("undef", f"{mod}.{name}")

    def fn(self, qual):
        """a public function by anchor name; follows re-exports"""
        if qual in self.funcs:
            return self.funcs[qual]
        mod, name = qual.rsplit(".", 1)
        t = self.resolve(mod, name)
        if t.op == "fn":
            return self.funcs[t.a[0]]
        raise AnalysisBroken(f"anchor function {qual} not found")

    def has(self, qual):
        try:
            self.fn(qual)
            return True
        except AnalysisBroken:
            return False


def main_function(s):
    """what a module does as a program, as a function"""
    f = ast.FunctionDef(name="__main__", args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[],
                        kw_defaults=[], kwarg=None, defaults=[]), body=s.body, decorator_list=[], returns=None,
                        type_comment=None, type_params=[])
    ast.copy_location(f, s)
    return f


def _is_main(test):
    while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        test = test.operand
    return isinstance(test, ast.Compare) and any(
        isinstance(x, ast.Name) and x.id == "__name__" for x in [test.left, *test.comparators])
