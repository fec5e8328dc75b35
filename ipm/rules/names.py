"""C27: names, attributes and call signatures, from the syntax tree and the scopes.

* every name read in a function resolves to a binding of an enclosing scope, of the module or a builtin
* every local variable that is read has an assignment that can reach the read
* no variable bound only under a selector value is read under another one
* every attribute taken from a module of the package or of a pinned library exists (ipm/libtable.json is a
  listing of the pinned libraries made with the project's interpreter)
* every call of a function of the package, or of a library function with a known signature, binds
"""
import ast
import builtins
import json
import os
import symtable

from ..execute import Exec
from ..report import proved, violated, undecided
from ..terms import T, literals, show

TABLE = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "libtable.json"), encoding="utf-8"))
MODS, TYPES = TABLE["modules"], TABLE["types"]
SPECIAL = {"__name__", "__file__", "__doc__", "__package__", "__spec__", "__builtins__", "__path__", "__loader__", "__annotations__",
           "__class__", "__debug__", "__all__"}


# ---------------------------------------------------------------- scopes
def undefined_names(m):
    """(name, function) of names that are bound nowhere; and the number of names resolved per scope"""
    top = symtable.symtable(m.src, m.path, "exec")
    glob = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    star = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree))

    def declared(t):
        for s in t.get_symbols():
            if t.get_type() == "function" and s.is_declared_global() and s.is_assigned():
                glob.add(s.get_name())
        for c in t.get_children():
            declared(c)

    declared(top)
    bad, count = [], {}

    def visit(t, fn):
        n = 0
        for s in t.get_symbols():
            if not s.is_referenced():
                continue
            n += 1
            x = s.get_name()
            free = s.is_global() or t.get_type() == "module" and not (s.is_assigned() or s.is_imported() or s.is_namespace())
            if free and x not in glob and not hasattr(builtins, x) and x not in SPECIAL and not star:
                bad.append((x, fn))
        count[fn] = count.get(fn, 0) + n
        for c in t.get_children():
            name = c.get_name()
            sub = fn
            if t.get_type() == "module":
                sub = f"{m.name}.{name}" if c.get_type() == "function" and name not in (
                    "lambda", "listcomp", "genexpr", "dictcomp", "setcomp") else f"{m.name}"
            visit(c, sub)

    visit(top, m.name)
    return bad, count


def line_of(m, fn, name):
    node = m.tree
    if "." in fn and fn.split(".", 1)[1] in m.funcs:
        node = m.funcs[fn.split(".", 1)[1]].node
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and n.id == name:
            return n.lineno
    return 1


# ---------------------------------------------------------------- reaching assignments
class Reach:
    """local names that no assignment can have reached when they are read"""

    def __init__(self, fn, params, locals_):
        self.locals = locals_
        self.bad = {}
        self.reads = 0
        self.breaks = []
        self.conts = []
        self.cur = set(params)
        self.block(fn.body)

    def block(self, ss):
        for s in ss:
            if self.cur is None:
                return
            self.stmt(s)

    def targets(self, t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if isinstance(n.ctx, ast.Store):
                    self.cur.add(n.id)
            elif isinstance(n, ast.Name):
                self.read(n)
        # subscripts and attributes read their parts

    def read(self, n):
        if n.id in self.locals:
            self.reads += 1
            if n.id not in self.cur:
                self.bad.setdefault(n.id, n.lineno)

    def expr(self, e):
        if e is None or self.cur is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.read(e)
            elif isinstance(e.ctx, ast.Store):
                self.cur.add(e.id)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            self.expr(e.generators[0].iter)
            own = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            hide = own & self.locals
            self.locals -= own
            for i, g in enumerate(e.generators):
                if i:
                    self.expr(g.iter)
                for c in g.ifs:
                    self.expr(c)
            if isinstance(e, ast.DictComp):
                self.expr(e.key)
                self.expr(e.value)
            else:
                self.expr(e.elt)
            self.locals |= hide
            return
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value)
            self.cur.add(e.target.id)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension, ast.Slice)):
                self.expr(c)

    def join(self, *ss):
        ss = [s for s in ss if s is not None]
        if not ss:
            return None
        return set().union(*ss)

    def loop(self, s, head):
        self.breaks.append([])
        self.conts.append([])
        entry = set(self.cur)
        # names assigned further down the body reach its beginning in the next iteration
        self.cur |= {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        head()
        body0 = set(self.cur)
        self.block(s.body)
        end = self.join(self.cur, *self.conts[-1])
        self.cur = self.join(entry, end, body0)
        self.block(s.orelse)
        self.cur = self.join(self.cur, *self.breaks[-1])
        self.breaks.pop()
        self.conts.pop()

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.expr(d)
            if not isinstance(s, ast.ClassDef):
                for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                    self.expr(d)
            self.cur.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                self.cur.add(a.asname or a.name.split(".")[0])
        elif isinstance(s, ast.If):
            self.expr(s.test)
            c = set(self.cur)
            self.block(s.body)
            a = self.cur
            self.cur = c
            self.block(s.orelse)
            self.cur = self.join(a, self.cur)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter)
            self.loop(s, lambda: self.targets(s.target))
        elif isinstance(s, ast.While):
            self.loop(s, lambda: self.expr(s.test))
            if isinstance(s.test, ast.Constant) and s.test.value:
                pass
        elif isinstance(s, ast.Try):
            c = set(self.cur)
            self.block(s.body)
            after = self.cur
            anywhere = c | {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            outs = []
            for h in s.handlers:
                self.cur = set(anywhere)
                if h.name:
                    self.cur.add(h.name)
                self.block(h.body)
                outs.append(self.cur)
            self.cur = after
            if self.cur is not None:
                self.block(s.orelse)
            self.cur = self.join(self.cur, *outs)
            if s.finalbody:
                dead = self.cur is None
                if dead:
                    self.cur = set(anywhere)
                self.block(s.finalbody)
                if dead:
                    self.cur = None
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr)
                if i.optional_vars is not None:
                    self.targets(i.optional_vars)
            self.block(s.body)
        elif isinstance(s, ast.Match):
            self.expr(s.subject)
            c = set(self.cur)
            outs = [c]
            for k in s.cases:
                self.cur = set(c)
                for n in ast.walk(k.pattern):
                    nm = getattr(n, "name", None) or getattr(n, "rest", None)
                    if nm:
                        self.cur.add(nm)
                self.expr(k.guard)
                self.block(k.body)
                outs.append(self.cur)
            self.cur = self.join(*outs)
        elif isinstance(s, ast.Return):
            self.expr(s.value)
            self.cur = None
        elif isinstance(s, ast.Raise):
            self.expr(s.exc)
            self.expr(s.cause)
            self.cur = None
        elif isinstance(s, ast.Break):
            if self.breaks:
                self.breaks[-1].append(self.cur)
            self.cur = None
        elif isinstance(s, ast.Continue):
            if self.conts:
                self.conts[-1].append(self.cur)
            self.cur = None
        elif isinstance(s, ast.Assign):
            self.expr(s.value)
            for t in s.targets:
                self.targets(t)
        elif isinstance(s, ast.AnnAssign):
            self.expr(s.value)
            if s.value is not None:
                self.targets(s.target)
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.read(s.target)
            self.expr(s.value)
            self.targets(s.target)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        self.read(n)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.expr(c)


def local_names(fn):
    from ..repo import walk_scope

    out, glob = set(), set()
    for n in walk_scope(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out.update(a.asname or a.name.split(".")[0] for a in n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    # names that only comprehensions bind live there
    comp = set()
    for n in walk_scope(fn):
        if isinstance(n, ast.comprehension):
            comp |= {x for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    ids = {id(x) for x in comp}
    real = {n.id for n in walk_scope(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in ids}
    only = {x.id for x in comp} - real
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    return (out - only - glob) | params, params


# ---------------------------------------------------------------- attributes
def lib_lookup(dotted):
    """('m'|'c'|'o'|None-if-unknown|'missing', signature)"""
    parts = dotted.split(".")
    for i in range(len(parts), 0, -1):
        mod = ".".join(parts[:i])
        if mod in MODS:
            rest = parts[i:]
            if not rest:
                return "m", None
            d = MODS[mod].get(rest[0])
            if d is None:
                return "missing", None
            if len(rest) > 1:
                return (None, None) if d != "m" else (None, None)
            if isinstance(d, list):
                return d[0], d[1]
            return d, None
    return None, None


def chain(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        return e.id, parts[::-1]
    return None, None


VALUE_TYPES = {"mpi4py.MPI.COMM_WORLD": "Intracomm", "mpi4py.MPI.COMM_SELF": "Intracomm"}


class Attributes(ast.NodeVisitor):
    def __init__(self, ck, m, f, bound):
        self.ck, self.m, self.f, self.bound = ck, m, f, bound
        self.bad, self.n, self.unknown = [], 0, 0
        self.done = set()
        self.types = self.infer()

    def resolve(self, name):
        if name in self.bound:
            return None
        return self.ck.repo.resolve(self.m.name, name)

    def dotted(self, e):
        """library path or ('type', T) of an expression"""
        base, parts = chain(e)
        if base is None:
            return None
        t = self.resolve(base)
        if t is None:
            return None
        if t.op == "lib":
            return ".".join([t.a[0], *parts])
        if t.op == "glob" and not parts:
            vs = self.ck.repo.modules[t.a[0]].assigns[t.a[1]]
            if len(vs) == 1:
                b, p = chain(vs[0])
                if b:
                    u = self.ck.repo.resolve(t.a[0], b)
                    if u.op == "lib":
                        return ".".join([u.a[0], *p])
        return None

    def infer(self):
        """locals that only ever hold one kind of object"""
        kinds = {}
        a = self.f.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            kinds[x.arg] = {None}
        from ..repo import walk_scope

        for n in walk_scope(self.f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                kinds.setdefault(n.targets[0].id, set()).add(self.kind(n.value))
                n.targets[0]._seen = True
            elif isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name):
                kinds.setdefault(n.optional_vars.id, set()).add(self.kind(n.context_expr))
                n.optional_vars._seen = True
        for n in walk_scope(self.f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not getattr(n, "_seen", False):
                kinds.setdefault(n.id, set()).add(None)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                kinds.setdefault(n.name, set()).add(None)
        return {k: next(iter(v)) for k, v in kinds.items() if len(v) == 1 and None not in v}

    MAKERS = {"numpy.zeros": "ndarray", "numpy.ones": "ndarray", "numpy.empty": "ndarray", "numpy.array": "ndarray",
              "numpy.linspace": "ndarray", "numpy.arange": "ndarray", "numpy.zeros_like": "ndarray", "numpy.full": "ndarray",
              "numpy.eye": "ndarray", "numpy.loadtxt": "ndarray", "numpy.fromfile": "ndarray", "h5py.File": "File",
              "argparse.ArgumentParser": "ArgumentParser", "collections.OrderedDict": "OrderedDict",
              "collections.defaultdict": "defaultdict", "collections.Counter": "Counter", "bitarray.bitarray": "bitarray",
              "scipy.sparse.csr_matrix": "csr", "scipy.sparse.csc_matrix": "csc", "dict": "dict", "list": "list", "set": "set",
              "str": "str", "tuple": "tuple", "bytes": "bytes", "bytearray": "bytearray", "frozenset": "frozenset", "sorted": "list",
              "range": None, "mpi4py.MPI.Status": "Status"}

    def kind(self, e):
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return "dict"
        if isinstance(e, (ast.List, ast.ListComp)):
            return "list"
        if isinstance(e, (ast.Set, ast.SetComp)):
            return "set"
        if isinstance(e, (ast.JoinedStr,)) or isinstance(e, ast.Constant) and isinstance(e.value, str):
            return "str"
        if isinstance(e, ast.Tuple):
            return "tuple"
        if isinstance(e, ast.Call):
            d = self.dotted(e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if d is not None:
                return self.MAKERS.get(d)
        return None

    def visit_Attribute(self, e):
        self.check(e)
        self.generic_visit(e)

    def check(self, e):
        if id(e) in self.done or not isinstance(e.ctx, ast.Load):
            return
        base, parts = chain(e)
        if base is None:
            # a literal
            k = self.kind(e.value)
            if k in TYPES:
                self.n += 1
                if e.attr not in TYPES[k] and not e.attr.startswith("__"):
                    self.bad.append((e.lineno, f"{k} has no attribute {e.attr}"))
            return
        n = e
        while isinstance(n, ast.Attribute):
            self.done.add(id(n))
            n = n.value
        if base in self.bound:
            k = self.types.get(base)
            if k in TYPES:
                self.n += 1
                if parts[0] not in TYPES[k] and not parts[0].startswith("__"):
                    self.bad.append((e.lineno, f"{base} is a {k}, which has no attribute {parts[0]}"))
            return
        t = self.resolve(base)
        if t is None or t.op in ("undef",):
            return
        if t.op == "mod":
            m = self.ck.repo.modules.get(t.a[0])
            if m is None:
                return
            self.n += 1
            u = self.ck.repo.resolve(t.a[0], parts[0])
            names = {s.id for x in ast.walk(m.tree) if isinstance(x, (ast.Name,)) and isinstance(x.ctx, ast.Store) for s in [x]}
            if u.op == "undef" or u.op == "lib" and parts[0] not in m.imports:
                if parts[0] not in names and parts[0] not in SPECIAL:
                    self.bad.append((e.lineno, f"module {m.dotted} has no attribute {parts[0]}"))
            return
        d = self.dotted(ast.Name(id=base, ctx=ast.Load()))
        if d is None:
            return
        cur = d
        if cur in VALUE_TYPES:
            self.member(VALUE_TYPES[cur], parts[0], e, base)
            return
        for p in parts:
            nxt = cur + "." + p
            k, _ = lib_lookup(nxt)
            if k == "missing":
                if lib_lookup(cur)[0] == "m":
                    self.bad.append((e.lineno, f"{cur} has no attribute {p} in the pinned version"))
                self.n += 1
                return
            if k is None:
                self.unknown += 1
                return
            self.n += 1
            if nxt in VALUE_TYPES:
                i = parts.index(p)
                if i + 1 < len(parts):
                    self.member(VALUE_TYPES[nxt], parts[i + 1], e, nxt)
                return
            if k != "m":
                return
            cur = nxt

    def member(self, k, a, e, base):
        self.n += 1
        if a not in TYPES[k] and not a.startswith("__"):
            self.bad.append((e.lineno, f"{base} ({k}) has no attribute {a} in the pinned version"))

    # calls
    def visit_Call(self, e):
        s = None
        name = None
        d = self.dotted(e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
        if d is not None:
            k, s = lib_lookup(d)
            name = d
            if s is None and "." in d:
                own, _, meth = d.rpartition(".")
                if own in VALUE_TYPES:
                    x = TYPES[VALUE_TYPES[own]].get(meth)
                    s = method_sig(x)
        elif isinstance(e.func, ast.Attribute):
            base, parts = chain(e.func)
            if base is not None and len(parts) == 1:
                k = self.types.get(base) if base in self.bound else None
                if k is None and base not in self.bound:
                    dd = self.dotted(ast.Name(id=base, ctx=ast.Load()))
                    k = VALUE_TYPES.get(dd)
                if k in TYPES:
                    s = method_sig(TYPES[k].get(parts[0]))
                    name = f"{k}.{parts[0]}"
                t = self.resolve(base)
                if t is not None and t.op == "mod":
                    f = self.ck.repo.funcs.get(f"{t.a[0]}.{parts[0]}")
                    if f is None:
                        u = self.ck.repo.resolve(t.a[0], parts[0]) if t.a[0] in self.ck.repo.modules else None
                        if u is not None and u.op == "fn":
                            f = self.ck.repo.funcs[u.a[0]]
                    if f is not None:
                        s, name = repo_sig(f), f.qual
        if isinstance(e.func, ast.Name):
            t = self.resolve(e.func.id)
            if t is not None and t.op == "fn":
                f = self.ck.repo.funcs[t.a[0]]
                s, name = repo_sig(f), f.qual
        if s is not None:
            self.n += 1
            msg = binds(s, e)
            if msg:
                self.bad.append((e.lineno, f"call of {name}: {msg}"))
        self.generic_visit(e)


def method_sig(x):
    if not isinstance(x, list):
        return None
    pos, kwo, req, va, vk = x[1]
    if not pos:
        return None
    first = pos[0].lstrip("/")
    return [pos[1:], kwo, [r for r in req if r != first], va, vk]


def repo_sig(f):
    return [f.params, f.kwonly, [p for p in f.all_params if p not in f.defaults], bool(f.vararg), bool(f.kwarg)]


def binds(s, e):
    pos, kwo, req, va, vk = s
    if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
        return None
    names = [p.lstrip("/") for p in pos]
    if len(e.args) > len(pos) and not va:
        return f"{len(e.args)} positional arguments for {len(pos)}"
    got = set(names[:len(e.args)])
    for k in e.keywords:
        if k.arg in got and "/" + k.arg not in pos:
            return f"argument {k.arg} given twice"
        if k.arg in kwo or k.arg in names and "/" + k.arg not in pos:
            got.add(k.arg)
        elif not vk:
            return f"no parameter {k.arg}"
    miss = [r for r in req if r not in got]
    if miss:
        return f"no value for {', '.join(miss)}"
    return None


# ---------------------------------------------------------------- selector-dependent bindings
def plain_condition(x):
    """a test of a parameter against a constant, of the rank, or for absence"""
    while x.op == "not":
        x = x.a[0]
    if x.op == "eq":
        p, c = x.a
        return {p.op, c.op} <= {"param", "str", "num", "opt"} and p.op != c.op
    if x.op == "eq0":
        return x.a[0].op in ("rank",)
    if x.op in ("isnone",):
        return x.a[0].op in ("param", "opt")
    if x.op == "truth":
        return x.a[0].op in ("param", "opt")
    return False


def unbound_paths(v, c=()):
    """conditions under which the value is not bound"""
    if v.op == "unbound":
        yield c
    elif v.op == "gamma":
        from ..terms import b_not

        yield from unbound_paths(v.a[1], c + (v.a[0],))
        yield from unbound_paths(v.a[2], c + (b_not(v.a[0]),))


def rule(ck):
    obs = []
    for m in ck.repo.modules.values():
        bad, count = undefined_names(m)
        for fn in sorted(count):
            mine = sorted({x for x, f in bad if f == fn})
            for x in mine:
                obs.append(violated("name is bound", f"{fn}: {x}", f"{x} is bound in no enclosing scope",
                                    f"{m.rel}:{line_of(m, fn, x)}"))
            if not mine:
                obs.append(proved("name is bound", fn, f"{count[fn]} names resolve"))
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom) and s.level == 0 and s.module:
                for al in s.names:
                    if s.module.split(".")[0] == "impurityModel":
                        i = m.imports.get(al.asname or al.name)
                        if i and i[0] == "obj":
                            t = ck.repo.resolve(i[1], i[2])
                            if t.op == "undef" or t.op == "lib" and i[2] not in ck.repo.modules[i[1]].imports:
                                obs.append(violated("import exists", f"{m.name}: {s.module}.{al.name}",
                                                    "imported name does not exist", f"{m.rel}:{s.lineno}"))
                    elif s.module in MODS:
                        ok = al.name in MODS[s.module] or f"{s.module}.{al.name}" in MODS or al.name == "*"
                        obs.append((proved if ok else violated)("import exists", f"{m.name}: {s.module}.{al.name}",
                                                                "" if ok else "not in the pinned version", f"{m.rel}:{s.lineno}"))
        top = ast.FunctionDef(name="<module>", args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[],
                              kwarg=None, defaults=[]), decorator_list=[], returns=None,
                              body=[s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef))
                                    and not (m.main is not None and s is m.main)])
        av = Attributes(ck, m, top, set())
        for b in top.body:
            av.visit(b)
        for ln, msg in av.bad:
            obs.append(violated("attribute and signature exist", m.name, msg, f"{m.rel}:{ln}"))
        if not av.bad:
            obs.append(proved("attribute and signature exist", m.name, f"{av.n} attributes and calls resolved"))
        allf = list(m.funcs.values())
        for f in allf:
            nodes = [f.node] + [n for n in ast.walk(f.node) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not f.node]
            outer = set()
            for node in nodes:
                loc, params = local_names(node)
                q = f.qual if node is f.node else f"{f.qual}.{node.name}"
                module_level = f.qual.endswith(".__main__") and node is f.node
                seen = set(params)
                if module_level:
                    seen |= set(m.assigns) | set(m.imports) | set(m.funcs) | set(m.classes)
                r = Reach(node, seen, set(loc))
                for x, ln in sorted(r.bad.items()):
                    obs.append(violated("assignment reaches the read", f"{q}: {x}", f"{x} is read where no assignment can have reached it",
                                        f"{m.rel}:{ln}"))
                if not r.bad:
                    obs.append(proved("assignment reaches the read", q, f"{r.reads} reads of local variables"))
                outer |= loc
                av = Attributes(ck, m, node, outer if not module_level else loc - set(m.imports))
                for b in node.body:
                    av.visit(b)
                for ln, msg in av.bad:
                    obs.append(violated("attribute and signature exist", q, msg, f"{m.rel}:{ln}"))
                if not av.bad:
                    obs.append(proved("attribute and signature exist", q, f"{av.n} attributes and calls resolved, {av.unknown} outside the table"))
        for q in (f.qual for f in allf):
            try:
                res = ck.run(q)
            except Exception as e:
                obs.append(undecided("bound for every selector value", q, f"not analysable: {type(e).__name__} {e}"))
                continue
            found = False
            for e in res.events:
                if e.kind == "maybe_unbound":
                    for c in unbound_paths(e.args[0]):
                        ls = {x for p in c for x in literals([p])}
                        if ls and all(plain_condition(x) for x in ls):
                            pcl = {x for p in (e.pc or ()) for x in literals([p])}
                            if all(plain_condition(x) for x in pcl):
                                found = True
                                obs.append(violated("bound for every selector value", f"{q}: {e.name}",
                                                    f"not bound when {' and '.join(show(x, 4) for x in sorted(ls, key=lambda t: t.n))}",
                                                    f"{m.rel}:{getattr(e.node, 'lineno', 0)}"))
                                break
                if found:
                    break
            if not found:
                obs.append(proved("bound for every selector value", q))
    return obs


RULES = [rule]
