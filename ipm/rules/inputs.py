"""C03: no function changes an object that its caller passed in, directly or under another name, apart from the
documented in/out arguments, and no returned state shares storage with an argument.

A flow-sensitive may-alias analysis over the syntax tree: every expression is described by the caller-owned objects
it may be (a parameter or something reached inside of it) and by those it may contain; in-place operations, also those
of called functions, are then traced back to parameters.
"""
import ast

from ..known import KNOWN, MODS
from ..report import proved, violated, undecided

MUTATORS = {
    "append", "extend", "insert", "pop", "popitem", "clear", "update", "setdefault", "sort", "reverse", "remove", "add", "discard",
    "difference_update", "intersection_update", "symmetric_difference_update", "fill", "setall", "invert", "resize", "put",
    "itemset", "partition", "frombytes", "setdiag", "eliminate_zeros", "sum_duplicates", "sort_indices", "move_to_end", "setflags",
    "__setitem__", "__delitem__", "__iadd__", "__isub__", "__imul__",
}
ADDERS = {"append", "extend", "insert", "update", "setdefault", "add", "__setitem__"}
WRAP = {"list", "tuple", "set", "sorted", "dict", "frozenset", "reversed", "enumerate", "zip", "iter", "OrderedDict", "deque", "chain",
        "islice", "filter", "defaultdict", "Counter"}
SAME_LIB = {"asarray", "asanyarray", "atleast_1d", "atleast_2d", "ravel", "reshape", "squeeze", "transpose", "ascontiguousarray",
            "swapaxes", "moveaxis", "broadcast_to", "require"}
SAME_METH = {"reshape", "ravel", "view", "squeeze", "transpose", "swapaxes"}
FIRST_ARG = {"copyto", "put", "fill_diagonal", "place", "putmask", "shuffle", "heappush", "heappop", "heapify", "insort", "insort_left",
             "insort_right"}
FRESH_RESULT = {
    "finite.applyOp", "finite.add", "finite.a", "finite.c", "finite.daggerOp", "finite.addOps", "finite.applySz3d", "finite.applyLz3d",
    "finite.applySplus3d", "finite.applyLplus3d", "finite.applySminus3d", "finite.applyLminus3d",
}

EMPTY = frozenset()


class V:
    """the objects a value may be, those it may contain, and its kind where it is evident"""
    __slots__ = ("me", "inner", "kind")

    def __init__(self, me=EMPTY, inner=EMPTY, kind=None):
        self.me, self.inner, self.kind = me, inner, kind

    def __or__(self, o):
        return V(self.me | o.me, self.inner | o.inner, self.kind if self.kind == o.kind else None)

    def element(self):
        return V(self.inner, self.inner)


NOTHING = V()


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = dict(a)
    for k, v in b.items():
        out[k] = out[k] | v if k in out else v
    return out


class Effects:
    def __init__(self):
        self.mutated = {}  # root -> (line, how)
        self.returns = NOTHING
        self.captured = {}  # local object -> roots of the containers it was put into


class Walk:
    """one function"""

    def __init__(self, ana, f):
        self.ana, self.f = ana, f
        self.eff = Effects()
        self.mod = f.mod.name
        self.local = {}
        self.used = evidence(f.node)
        self.breaks, self.conts = [], []

    def run(self):
        env = {}
        for p in self.f.all_params:
            env[p] = V(frozenset({("p", p)}), frozenset({("e", p)}))
        self.params = set(env)
        self.block(self.f.node.body, env)
        return self.eff

    # ------------------------------------------------------------ effects
    def mutate(self, v, node, how, only_containers=None):
        for r in v.me:
            if r[0] in ("p", "e"):
                self.eff.mutated.setdefault(r, (getattr(node, "lineno", 0), how))

    def capture(self, container, v):
        roots = frozenset(r for r in container.me if r[0] in ("p", "e"))
        if roots:
            for r in v.me:
                if r[0] == "l":
                    self.eff.captured[r] = self.eff.captured.get(r, EMPTY) | roots

    def fresh(self, node, inner=EMPTY, kind=None):
        return V(frozenset({("l", node.lineno, node.col_offset)}), inner, kind)

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.expr(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.expr(s.value, env), env, s.value)
        elif isinstance(s, ast.AugAssign):
            self.augassign(s, env)
        elif isinstance(s, (ast.Expr, ast.Await)):
            self.expr(s.value, env)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.eff.returns = self.eff.returns | self.expr(s.value, env)
            return None
        elif isinstance(s, ast.Raise):
            for x in (s.exc, s.cause):
                if x is not None:
                    self.expr(x, env)
            return None
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.expr(t.value, env), s, "del")
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(s, ast.If):
            self.expr(s.test, env)
            a = self.block(s.body, dict(env))
            b = self.block(s.orelse, dict(env))
            return join(a, b)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.expr(s.iter, env)
            return self.loop(s, env, lambda e: self.assign(s.target, it.element(), e, None))
        elif isinstance(s, ast.While):
            return self.loop(s, env, lambda e: self.expr(s.test, e))
        elif isinstance(s, ast.Break):
            if self.breaks:
                self.breaks[-1].append(env)
            return None
        elif isinstance(s, ast.Continue):
            if self.conts:
                self.conts[-1].append(env)
            return None
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.expr(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, None)
            return self.block(s.body, env)
        elif isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            before = dict(env)
            a = self.block(s.body, env)
            out = self.block(s.orelse, a) if a is not None else None
            for h in s.handlers:
                out = join(out, self.block(h.body, dict(join(before, a))))
            if s.finalbody:
                out = self.block(s.finalbody, out if out is not None else dict(before))
            return out
        elif isinstance(s, ast.Match):
            v = self.expr(s.subject, env)
            out = dict(env)
            for c in s.cases:
                e = dict(env)
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        e[n.name] = v | v.element()
                out = join(out, self.block(c.body, e))
            return out
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.local[s.name] = s
            inner = dict(env)
            for a in s.args.posonlyargs + s.args.args + s.args.kwonlyargs + [x for x in (s.args.vararg, s.args.kwarg) if x]:
                inner[a.arg] = NOTHING
            saved = self.eff.returns, self.breaks, self.conts
            self.breaks, self.conts = [], []
            self.block(s.body, inner)
            self.eff.returns, self.breaks, self.conts = saved
            env[s.name] = NOTHING
        elif isinstance(s, ast.Assert):
            self.expr(s.test, env)
        return env

    def loop(self, s, env, head):
        env = dict(env)
        self.breaks.append([])
        self.conts.append([])
        for _ in range(3):
            e = dict(env)
            head(e)
            e = self.block(s.body, e)
            for c in self.conts[-1]:
                e = join(e, c)
            self.conts[-1].clear()
            env = join(env, e)
        out = self.block(s.orelse, env) if s.orelse else env
        for b in self.breaks.pop():
            out = join(out, b)
        self.conts.pop()
        return out

    def assign(self, t, v, env, value):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(
                    isinstance(x, ast.Starred) for x in value.elts + t.elts):
                vs = [self.expr(x, env) for x in value.elts]
                for x, y, z in zip(t.elts, vs, value.elts):
                    self.assign(x, y, env, z)
            else:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, v.element(), env, None)
        elif isinstance(t, ast.Subscript):
            base = self.expr(t.value, env)
            self.expr(t.slice, env)
            self.mutate(base, t, "item assignment")
            self.store(t.value, v, env)
            self.capture(base, v)
        elif isinstance(t, ast.Attribute):
            base = self.expr(t.value, env)
            if t.attr in ("flat", "real", "imag", "shape", "dtype", "data"):
                self.mutate(base, t, f"assignment of .{t.attr}")

    def store(self, base, v, env):
        """the container named at the root now holds v"""
        while isinstance(base, (ast.Subscript, ast.Attribute)):
            base = base.value
        if isinstance(base, ast.Name) and base.id in env:
            o = env[base.id]
            keep = frozenset(r for r in v.me | v.inner if r[0] != "l")
            env[base.id] = V(o.me, o.inner | keep, o.kind)

    def augassign(self, s, env):
        v = self.expr(s.value, env)
        t = s.target
        if isinstance(t, ast.Subscript):
            base = self.expr(t.value, env)
            self.mutate(base, s, "item update")
            if isinstance(s.op, ast.Add):
                self.store(t.value, V(EMPTY, v.inner), env)
            return
        if not isinstance(t, ast.Name):
            return
        o = env.get(t.id, NOTHING)
        roots = frozenset(r for r in o.me if r[0] in ("p", "e"))
        if roots:
            seq, mapping = self.container(t.id, roots)
            inplace = False
            if isinstance(s.op, (ast.Sub, ast.Div, ast.Pow, ast.FloorDiv, ast.MatMult)):
                inplace = seq
            elif isinstance(s.op, ast.Mult):
                inplace = seq and not is_int(s.value)
            elif isinstance(s.op, ast.Add):
                inplace = v.kind == "list" or seq and v.kind == "num"
            elif isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.BitXor)):
                inplace = mapping
            if inplace:
                self.mutate(V(roots), s, "augmented assignment in place")
        env[t.id] = V(o.me, o.inner | (v.inner if isinstance(s.op, (ast.Add, ast.BitOr)) else EMPTY), o.kind)

    def container(self, name, roots):
        names = {name} | {r[1] for r in roots if r[0] == "p"}
        return any(n in self.used[0] for n in names), any(n in self.used[1] for n in names)

    # ------------------------------------------------------------ expressions
    def expr(self, n, env):
        if n is None or isinstance(n, ast.Constant):
            return V(kind="num") if isinstance(n, ast.Constant) and isinstance(n.value, (int, float, complex)) else NOTHING
        if isinstance(n, ast.Name):
            return env.get(n.id, NOTHING)
        if isinstance(n, ast.NamedExpr):
            v = self.expr(n.value, env)
            self.assign(n.target, v, env, n.value)
            return v
        if isinstance(n, ast.IfExp):
            self.expr(n.test, env)
            return self.expr(n.body, env) | self.expr(n.orelse, env)
        if isinstance(n, ast.BoolOp):
            out = self.expr(n.values[0], env)
            for x in n.values[1:]:
                out = out | self.expr(x, env)
            return out
        if isinstance(n, ast.Starred):
            v = self.expr(n.value, env)
            return V(v.inner, v.inner)
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            inner = EMPTY
            for x in n.elts:
                v = self.expr(x, env)
                inner |= v.me | v.inner
            return self.fresh(n, inner, "list" if isinstance(n, ast.List) else None)
        if isinstance(n, ast.Dict):
            inner = EMPTY
            for k, x in zip(n.keys, n.values):
                if k is not None:
                    self.expr(k, env)
                v = self.expr(x, env)
                inner |= v.inner if k is None else v.me | v.inner
            return self.fresh(n, inner)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e = dict(env)
            for g in n.generators:
                self.assign(g.target, self.expr(g.iter, e).element(), e, None)
                for c in g.ifs:
                    self.expr(c, e)
            if isinstance(n, ast.DictComp):
                self.expr(n.key, e)
            v = self.expr(n.value if isinstance(n, ast.DictComp) else n.elt, e)
            return self.fresh(n, v.me | v.inner, "list" if isinstance(n, ast.ListComp) else None)
        if isinstance(n, ast.Subscript):
            v = self.expr(n.value, env)
            self.expr(n.slice, env)
            if isinstance(n.slice, ast.Slice) or isinstance(n.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in n.slice.elts):
                return V(EMPTY, v.inner, v.kind if v.kind == "list" else None)
            return v.element()
        if isinstance(n, ast.Attribute):
            v = self.expr(n.value, env)
            return v if n.attr in ("T", "real", "imag", "flat") else NOTHING
        if isinstance(n, ast.BinOp):
            a, b = self.expr(n.left, env), self.expr(n.right, env)
            kind = "list" if isinstance(n.op, ast.Add) and "list" in (a.kind, b.kind) else \
                "num" if a.kind == b.kind == "num" else None
            return V(EMPTY, a.inner | b.inner if isinstance(n.op, ast.Add) else EMPTY, kind)
        if isinstance(n, ast.UnaryOp):
            v = self.expr(n.operand, env)
            return V(kind="num") if v.kind == "num" else NOTHING
        if isinstance(n, ast.Call):
            return self.call(n, env)
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            if n.value is not None:
                self.expr(n.value, env)
            return NOTHING
        if isinstance(n, ast.Lambda):
            return NOTHING
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.expr(c, env)
        return NOTHING

    def call(self, n, env):
        args = [self.expr(a, env) for a in n.args]
        kws = {k.arg: self.expr(k.value, env) for k in n.keywords}
        f = n.func
        everything = args + list(kws.values())
        inner = EMPTY
        for v in everything:
            inner |= v.inner
        for k in n.keywords:
            if k.arg == "out" or k.arg and k.arg.startswith("overwrite") and getattr(k.value, "value", False) is True:
                self.mutate(kws["out"] if k.arg == "out" else args[0] if args else NOTHING, n, f"argument {k.arg}")
        callee = self.ana.resolve(self.mod, f, self.local, env)
        if callee is not None:
            return self.known_call(callee, n, args, kws)
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if isinstance(f, ast.Name) or self.is_lib(f):
            if name in FIRST_ARG and args:
                self.mutate(args[0], n, f"{name}()")
            if name == "at" and args:
                self.mutate(args[0], n, "ufunc.at()")
            if name in WRAP:
                return self.fresh(n, inner, "list" if name in ("list", "sorted") else None)
            if name in SAME_LIB and args:
                return args[0]
            if name == "array" and any(k.arg == "copy" and getattr(k.value, "value", True) is False for k in n.keywords) and args:
                return args[0]
            if name == "copy" and args:
                return self.fresh(n, args[0].inner)
            if name == "next" and args:
                return args[0].element()
            if name in ("max", "min") and args:
                return args[0].element() if len(args) == 1 else NOTHING
            return self.fresh(n)
        if isinstance(f, ast.Attribute):
            base = self.expr(f.value, env)
            if name in MUTATORS:
                self.mutate(base, n, f".{name}()")
                if name in ADDERS:
                    for v in everything:
                        self.store(f.value, V(v.me if name not in ("extend", "update") else EMPTY, v.inner), env)
                        if name not in ("extend", "update"):
                            self.capture(base, v)
            if name in ("Bcast", "Recv") and args:
                self.mutate(args[0], n, f"{name}()")
            if name in ("Reduce", "Allreduce", "Gather", "Allgather", "Scatter") and len(args) > 1:
                self.mutate(args[1], n, f"{name}()")
            if name in ("get", "pop", "setdefault"):
                out = base.element()
                for v in args[1:]:
                    out = out | v
                return out
            if name == "popitem":
                return V(EMPTY, base.inner)
            if name == "copy":
                return self.fresh(n, base.inner, base.kind)
            if name in ("values", "items"):
                return V(EMPTY, base.inner)
            if name in SAME_METH:
                return base
            if name == "bcast" and args:
                return args[0]
            return self.fresh(n)
        return self.fresh(n)

    def is_lib(self, f):
        while isinstance(f, ast.Attribute):
            f = f.value
        if not isinstance(f, ast.Name) or f.id in self.params or f.id in self.local:
            return False
        return self.ana.repo.resolve(self.mod, f.id).op == "lib"

    def known_call(self, g, n, args, kws):
        eff = self.ana.effects(g)
        at = dict(zip(g.params, args)) if not any(isinstance(a, ast.Starred) for a in n.args) else {}
        at.update({k: v for k, v in kws.items() if k})
        for r, (_, how) in eff.mutated.items():
            v = at.get(r[1])
            if v is not None:
                self.mutate(v if r[0] == "p" else V(v.inner), n, f"{how} in {g.qual}")
        out = self.fresh(n)
        for r in eff.returns.me:
            v = at.get(r[1]) if r[0] in ("p", "e") else None
            if v is not None:
                out = out | (v if r[0] == "p" else v.element())
        for r in eff.returns.inner:
            v = at.get(r[1]) if r[0] in ("p", "e") else None
            if v is not None:
                out = V(out.me, out.inner | (v.me if r[0] == "p" else v.inner))
        return out


def is_int(n):
    return isinstance(n, ast.Constant) and isinstance(n.value, int)


def evidence(fn):
    """names used as arrays or lists (subscripted, or iterated), and as sets or dictionaries"""
    seq, mapping = set(), set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
            seq.add(n.value.id)
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.iter):
                if isinstance(x, ast.Name) and (x is n.iter or isinstance(n.iter, ast.Call) and x in n.iter.args and isinstance(
                        n.iter.func, ast.Name) and n.iter.func.id in ("enumerate", "zip", "reversed")):
                    seq.add(x.id)
                    mapping.add(x.id)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id == "len" and n.args and isinstance(n.args[0], ast.Name):
                seq.add(n.args[0].id)
                mapping.add(n.args[0].id)
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in (
                    "keys", "values", "items", "intersection", "difference", "union", "update", "add", "issubset", "pop"):
                mapping.add(n.func.value.id)
        elif isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
            for x in n.comparators:
                if isinstance(x, ast.Name):
                    mapping.add(x.id)
    return seq, mapping


class Analysis:
    def __init__(self, repo):
        self.repo = repo
        self.done = {}
        self.busy = set()

    def resolve(self, mod, f, local, env):
        """the function of the package that an expression names"""
        if isinstance(f, ast.Name):
            if f.id in local or f.id in env:
                return None
            t = self.repo.resolve(mod, f.id)
            return self.repo.funcs.get(t.a[0]) if t.op == "fn" else None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id not in env:
            t = self.repo.resolve(mod, f.value.id)
            if t.op == "mod":
                t = self.repo.resolve(t.a[0], f.attr)
                return self.repo.funcs.get(t.a[0]) if t.op == "fn" else None
        return None

    def effects(self, f):
        if f.qual in self.done:
            return self.done[f.qual]
        if f.qual in self.busy:
            return Effects()
        self.busy.add(f.qual)
        try:
            e = Walk(self, f).run()
        finally:
            self.busy.discard(f.qual)
        self.done[f.qual] = e
        return e


def unchanged_inputs(ck):
    ana = Analysis(ck.repo)
    out = []
    for q in sorted(KNOWN):
        f = ck.repo.funcs.get(q)
        if f is None or not f.all_params:
            continue
        try:
            e = ana.effects(f)
        except RecursionError:
            out.append(undecided("caller's objects are not changed", q, "too deeply nested"))
            continue
        may = MODS.get(q, ())
        bad = {r: x for r, x in e.mutated.items() if r[1] not in may}
        for r, (line, how) in sorted(bad.items()):
            what = "argument" if r[0] == "p" else "part of the argument"
            out.append(violated("caller's objects are not changed", f"{q}: {r[1]}", f"{what} {r[1]} is changed by {how}",
                                f"{f.file}:{line}"))
        if not bad:
            out.append(proved("caller's objects are not changed", q, f"{len(f.all_params)} parameters"))
        if q in FRESH_RESULT:
            shared = [r for r in e.returns.me if r[0] in ("p", "e")]
            for r in e.returns.me:
                shared += [c for c in e.captured.get(r, ()) if c[0] in ("p", "e")]
            for r in sorted(set(shared)):
                out.append(violated("result shares no storage with an argument", f"{q}: {r[1]}",
                                    f"the result may be {'the argument' if r[0] == 'p' else 'a part of the argument'} {r[1]}",
                                    f"{f.file}:{f.node.lineno}"))
            if not shared:
                out.append(proved("result shares no storage with an argument", q))
        for p in may:
            d = f.defaults.get(p)
            if isinstance(d, (ast.Dict, ast.List, ast.Set)) or isinstance(d, ast.Call) and getattr(d.func, "id", "") in (
                    "dict", "list", "set", "OrderedDict", "defaultdict"):
                if any(r[1] == p for r in e.mutated):
                    out.append(violated("no state is left in default arguments", f"{q}: {p}",
                                        "the default object is shared by all calls and is changed", f"{f.file}:{f.node.lineno}"))
    return out


def results_apart_from_caches(ck):
    """C04: what is returned and later normalised or pruned is not the cached entry itself"""
    return [o for o in unchanged_inputs(ck) if o.rule == "result shares no storage with an argument"]


RULES = [unchanged_inputs]
RULES04 = [results_apart_from_caches]
