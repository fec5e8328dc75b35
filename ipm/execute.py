"""Abstract executor: one pass over the syntax tree of a function, producing gated
value numbers, a guarded log of container updates and an ordered list of effects.

Loops are summarised, never iterated at run time values; conditions are terms; no
code of the analysed package is executed and no solver is involved.
"""
import ast
from fractions import Fraction as F

from .known import KNOWN, MODS
from .repo import Func, walk_scope
from .terms import (
    count_of,
    FALSE, HALF, J, MONE, NONE, ONE, PI, TRUE, ZERO, S, T, add, as_int, b_and, b_not, b_or, conj, contradicts,
    div, eq, fn_abs, fn_exp, fn_sqrt, gamma, implied, im_part, is_num, isnone, le0, literals, lt0, mk, mul, neg,
    num, numlit, poly, power, re_part, scale, show, simp, simp_bool, sub, subst, subterms, truth, tup, unpoly,
    BOOLOPS, is_const, eq0, sgnpow,
)

ELEMENTWISE = {"conj": conj, "re": re_part, "im": im_part, "abs": fn_abs}
DICTLIKE = {
    "psi", "op", "hOp", "nBaths", "valBaths", "dnValBaths", "dnConBaths", "dnTol", "n0imp", "psi1", "psi2",
    "opResult", "h_dict", "restrictions", "data", "total", "nValBaths", "tOp", "dnTols", "n0imps", "h_dict_ground",
}
DICTRET = {
    "finite.applyOp", "finite.a", "finite.c", "finite.add", "finite.daggerOp", "finite.getUop", "finite.addOps",
    "finite.getSOCop", "finite.gethHfieldop", "finite.get2p3dSlaterCondonUop", "finite.getDensityMatrix",
    "finite.getDensityMatrixCubic", "spectra.getDipoleOperator", "spectra.getNIXSOperator",
    "finite.getNoSpinUop", "get_spectra_using_CF.get_CF_hamiltonian", "get_spectra.get_hamiltonian_operator",
    "get_spectra_using_CF.get_hamiltonian_operator_using_CF", "get_spectra.read_pickled_file",
    "finite.applySz3d", "finite.applyLz3d", "finite.applySplus3d", "finite.applySminus3d", "finite.applyLplus3d",
    "finite.applyLminus3d",
}
MUTATORS = {
    "append", "extend", "insert", "add", "update", "pop", "popitem", "remove", "discard", "clear", "sort", "reverse",
    "setdefault", "fill", "frombytes", "difference_update", "intersection_update", "symmetric_difference_update",
    "setflags", "resize", "setall", "invert", "move_to_end", "put", "itemset", "__setitem__", "write",
}
IMPURE = {"time.time", "time.perf_counter", "input", "open", "sys.exit", "exit", "quit"}
MPI_CALLS = {
    "bcast", "Bcast", "send", "recv", "Send", "Recv", "reduce", "Reduce", "allreduce", "Allreduce", "gather", "Gather",
    "allgather", "Allgather", "scatter", "Scatter", "alltoall", "Alltoall", "barrier", "Barrier", "isend", "irecv",
    "ssend", "sendrecv", "Allgatherv", "Gatherv", "Abort", "scan", "exscan", "Ibcast", "ibarrier", "Ibarrier",
    "Isend", "Irecv", "probe", "iprobe", "reduce_scatter",
}


class Upd:
    __slots__ = ("kind", "key", "val", "pc", "loops", "node", "fn", "seq", "extra")

    def __init__(self, kind, key, val, pc, loops, node, fn, seq, extra=None):
        self.kind, self.key, self.val, self.pc, self.loops = kind, key, val, pc, loops
        self.node, self.fn, self.seq, self.extra = node, fn, seq, extra

    def __repr__(self):
        g = " & ".join(show(x, 5) for x in self.pc)
        lo = ", ".join(repr(x) for x in self.loops)
        return f"[{self.kind} {show(self.key) if self.key is not None else ''} := " \
               f"{show(self.val) if self.val is not None else ''} | {g} | {lo}]"


class Cell:
    __slots__ = ("id", "kind", "init", "log", "node", "fn", "loops", "pc", "name", "t")

    def __init__(self, id, kind, init, node, fn, loops, pc):
        self.id, self.kind, self.init, self.log = id, kind, init, []
        self.node, self.fn, self.loops, self.pc = node, fn, loops, pc
        self.name = None
        self.t = mk("cell", id)


class Loop:
    __slots__ = ("kind", "key", "lv", "count", "rev", "order", "node", "fn", "exits", "src", "pc", "uid", "cond")

    def __init__(self, kind, key, lv, count, rev, order, node, fn, src, uid):
        self.kind, self.key, self.lv, self.count, self.rev, self.order = kind, key, lv, count, rev, order
        self.node, self.fn, self.src, self.uid = node, fn, src, uid
        self.exits = []
        self.pc = ()
        self.cond = None

    def __repr__(self):
        return f"{self.kind}:{show(self.lv, 4)}{'~' if self.rev else ''}"


class Event:
    __slots__ = ("kind", "name", "args", "kw", "res", "pc", "loops", "node", "fn", "seq", "stack", "raw", "extra")

    def __init__(self, kind, name, args, kw, res, pc, loops, node, fn, seq, stack, raw=None, extra=None):
        self.kind, self.name, self.args, self.kw, self.res = kind, name, args, kw, res
        self.pc, self.loops, self.node, self.fn, self.seq, self.stack = pc, loops, node, fn, seq, stack
        self.raw = raw if raw is not None else args
        self.extra = extra

    def __repr__(self):
        g = " & ".join(show(x, 4) for x in self.pc)
        return f"<{self.kind} {self.name}({', '.join(show(a, 4) for a in self.args)}) @{self.fn}:" \
               f"{getattr(self.node, 'lineno', 0)} | {g} | {self.loops}>"


class Frame:
    def __init__(self, fn, mod, env, pcbase, yield_cb=None):
        self.fn, self.mod, self.env, self.pcbase = fn, mod, env, pcbase
        self.returns = []
        self.yield_cb = yield_cb
        self.loopctl = []
        self.globals = set()
        self.nloops = 0


class Spec:
    """iteration domain"""

    def __init__(self, count=None, elem=None, const=None, rev=False, order="seq", src=None, product=None, filt=None):
        self.count, self.elem, self.const, self.rev, self.order = count, elem, const, rev, order
        self.src, self.product, self.filt = src, product, filt


def subscripted_by(it, target, body):
    """is what is iterated subscripted by its own elements, as only a mapping can be?"""
    if not isinstance(target, ast.Name) or not isinstance(it, (ast.Name, ast.Attribute, ast.Subscript)):
        return False
    src = ast.dump(it)
    return any(isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Name) and x.slice.id == target.id
               and ast.dump(x.value) == src for s in body for x in ast.walk(s))


def polarity(c):
    """of a condition and its opposite, the one with the smaller value is looked at first"""
    k = m = 0
    todo = [c]
    while todo:
        x = todo.pop()
        if x.op == "not":
            k += 1
            todo.append(x.a[0])
        elif x.op in ("and", "or", "ex", "all", "gamma"):
            m += x.op in ("or", "all")
            todo += [y for y in x.a if isinstance(y, T)]
        elif x.op == "le0":
            m += 1
    return (k + m, c.op in ("or", "all", "le0"))


def not_negative(t):
    """a sum of lengths, counters and ranks"""
    return all(c[1] == 0 and c[0] >= 0 and all(x.op in ("len", "lv", "count", "rank", "nranks") for x, _ in m)
               for m, c in poly(t).items())


class Exec:
    MAXDEPTH = 12

    def __init__(self, repo, inline=(), opaque=(), unroll=4):
        self.repo = repo
        self.inline = set(inline)
        self.opaque_extra = set(opaque)
        self.unroll = unroll
        self.cells = {}
        self.loccell = {}
        self.gens = []
        self.events = []
        self.pc = ()
        self.loops = ()
        self.frames = []
        self.seq = 0
        self.wl = 0
        self.dry = 0
        self.lambdas = {}
        self.mappings = set()  # terms known to be mappings
        self._glob = {}
        self.notes = []
        self.mods_stack = []
        self.nuid = 0
        self.mus = {}

    # ------------------------------------------------------------ utilities
    @property
    def fr(self):
        return self.frames[-1]

    @property
    def env(self):
        return self.frames[-1].env

    @property
    def facts(self):
        return literals(self.pc or ())

    def new_uid(self, lv):
        self.nuid += 1
        return mk("loopid", self.nuid, lv)

    def tick(self):
        self.seq += 1
        return self.seq

    def event(self, kind, name, args, kw, res, node, raw=None, extra=None):
        e = Event(kind, name, tuple(args), dict(kw or {}), res, self.pc, self.loops, node, self.fr.fn, self.tick(),
                  tuple(f.fn for f in self.frames), raw, extra)
        self.events.append(e)
        return e

    def new_cell(self, kind, init, node):
        c = Cell(len(self.cells), kind, init, node, self.fr.fn, self.loops, self.pc)
        self.cells[c.id] = c
        return c

    def cell_of(self, t, create=False):
        """cell for a location term"""
        if t.op == "cell":
            return self.cells[t.a[0]]
        c = self.loccell.get(t)
        if c is None and create:
            c = self.new_cell("loc", t, None)
            self.loccell[t] = c
        return c

    def log(self, loc, kind, key, val, node, extra=None):
        c = self.cell_of(loc, True)
        c.log.append(Upd(kind, key, val, self.pc, self.loops, node, self.fr.fn, self.tick(), extra))

    # ------------------------------------------------------------ freezing
    def freeze(self, t):
        """immutable description of the current content of a value"""
        if t.op == "genobj":
            t = self.generated(t)
        if t.op == "cell":
            c = self.cells[t.a[0]]
            r = self._literal(c)
            if r is not None:
                return r
            if not c.log and c.kind in ("array", "copy") and c.init is not None:
                return c.init
            return mk("snap", c.id, len(c.log))
        c = self.loccell.get(t)
        if c is not None and any(u.kind != "mu" for u in c.log):
            return mk("snap", c.id, len(c.log))
        if t.op == "tup":
            return tup(*[self.freeze(x) for x in t.a])
        if t.op == "gamma":
            return gamma(t.a[0], self.freeze(t.a[1]), self.freeze(t.a[2]))
        if t.op in ("keys", "items", "values", "enumerate", "zip", "seq", "rev", "sorted", "concat", "product", "pos"):
            return mk(t.op, *[self.freeze(x) if isinstance(x, T) else x for x in t.a])
        return t

    def _literal(self, c):
        if c.kind == "list":
            e = self.list_elems(c)
            if e is not None:
                return mk("list", *[self.freeze(x) for x in e])
        if c.kind in ("dict", "set"):
            e = self.dict_elems(c)
            if e is not None:
                if c.kind == "set":
                    return mk("setlit", *[self.freeze(k) for k, _ in e])
                return mk("dict", *[tup(self.freeze(k), self.freeze(v)) for k, v in e])
        return None

    def _unguarded(self, c, u):
        return u.loops == c.loops and self._pcrel(u.pc, c.pc) == ()

    def _pcrel(self, pc, base):
        """pc literals not in base and not known now"""
        b = literals(base)
        f = self.facts
        return tuple(x for x in pc if x not in b and not implied(x, b) and not implied(x, f))

    def list_elems(self, c, ver=None):
        if c.kind != "list" or c.init is None or c.init.op != "list":
            return None
        out = list(c.init.a)
        for u in c.log[:ver]:
            if u.kind == "append" and self._unguarded(c, u):
                out.append(u.val)
            elif u.kind == "extend" and self._unguarded(c, u) and u.val.op in ("list", "tup"):
                out.extend(u.val.a)
            elif u.kind == "set" and self._unguarded(c, u) and as_int(u.key) is not None and \
                    -len(out) <= as_int(u.key) < len(out):
                out[as_int(u.key)] = u.val
            else:
                return None
        return out

    def dict_elems(self, c, ver=None):
        if c.init is None or c.init.op not in ("dict", "setlit"):
            return None
        out = [(p.a[0], p.a[1]) for p in c.init.a] if c.init.op == "dict" else [(p, TRUE) for p in c.init.a]
        for u in c.log[:ver]:
            if u.kind in ("set", "add") and self._unguarded(c, u):
                for n, (k, v) in enumerate(out):
                    e = eq(k, u.key)
                    if e is TRUE:
                        out[n] = (k, u.val)
                        break
                    if e is not FALSE:
                        return None
                else:
                    out.append((u.key, u.val))
            else:
                return None
        return out

    # ------------------------------------------------------------ reading
    def same_key(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            return None
        if a.op == "tup" and b.op == "tup" and len(a.a) == len(b.a):
            r = [self.same_key(x, y) for x, y in zip(a.a, b.a)]
            if any(x is False for x in r):
                return False
            return True if all(x is True for x in r) else None
        if a.op == "slice" or b.op == "slice":
            return None
        e = eq(a, b)
        if e is TRUE:
            return True
        if e is FALSE or contradicts(e, self.facts):
            return False
        return None

    def read(self, base, key, node=None, ver=None, depth=0):
        c = self.cell_of(base)
        if c is None:
            return self.idx0(base, key)
        log = c.log if ver is None else c.log[:ver]
        if c.kind == "list" and as_int(key) is not None:
            e = self.list_elems(c, ver)
            if e is not None:
                k = as_int(key)
                if -len(e) <= k < len(e):
                    return e[k]
        facts = self.facts
        i = len(log) - 1
        while i >= 0:
            u = log[i]
            i -= 1
            if u.kind == "set":
                s = self.same_key(u.key, key)
                if s is None and outside(u.key, key):
                    s = False
                if s is True:
                    if len(u.loops) <= len(self.loops) and u.loops == self.loops[: len(u.loops)]:
                        rel = [x for x in u.pc if not implied(x, facts)]
                        if not rel:
                            return simp(u.val, facts)
                        if contradicts(b_and(*rel), facts):
                            continue
                        if depth < 4:
                            older = self.read(base, key, node, i + 1, depth + 1)
                            return gamma(b_and(*rel), u.val, older)
                    elif contradicts(b_and(*u.pc), facts):
                        continue
                    return mk("get", c.t if c.kind != "loc" else c.init, len(log), key)
                if s is False:
                    continue
                if contradicts(b_and(*u.pc), facts):
                    continue
                if key is not None and key.op in ("slice",) or u.key is not None and u.key.op == "slice":
                    pass
                # different symbolic key: may alias
                return mk("get", c.t if c.kind != "loc" else c.init, len(log), key)
            if u.kind == "mu":
                ks = u.extra
                if ks is None or any(self.same_key(k, key) is not False for k in ks):
                    return mk("muget", u.val, c.t if c.kind != "loc" else c.init, key)
                continue
            if u.kind == "append" and c.kind == "list" and as_int(key) == -1 and \
                    u.loops == self.loops[: len(u.loops)] and not [x for x in u.pc if not implied(x, facts)]:
                return u.val
            if contradicts(b_and(*u.pc), facts):
                continue
            return mk("get", c.t if c.kind != "loc" else c.init, len(log), key)
        init = c.init
        if init is None:
            return mk("get", c.t, 0, key)
        return self.idx0(init, key)

    def idx0(self, x, k):
        """subscript of an immutable term"""
        if x.op == "gamma":
            return gamma(x.a[0], self.idx(x.a[1], k), self.idx(x.a[2], k))
        if k.op == "gamma" and x.op in ("tup", "list", "dict", "cell"):
            return gamma(k.a[0], self.idx0(x, k.a[1]), self.idx0(x, k.a[2]))
        if k.op == "bool":
            k = num(int(k.a[0]))
        if x.op in ("tup", "list") and len(x.a) == 2 and k.op == "mod" and as_int(k.a[1]) == 2:
            return gamma(eq0(k), x.a[0], x.a[1])
        if x.op in ("tup", "list"):
            i = as_int(k)
            if i is not None and -len(x.a) <= i < len(x.a):
                return x.a[i]
            if k.op == "slice":
                lo, hi, st = k.a
                vals = [None if v is NONE else as_int(v) for v in (lo, hi, st)]
                if all(v is not None or w is NONE for v, w in zip(vals, (lo, hi, st))):
                    return mk(x.op, *x.a[slice(*vals)])
            if len(x.a) >= 2 and k.op in BOOLOPS:
                return gamma(k, x.a[1], x.a[0])
        if x.op == "dict":
            for p in x.a:
                if eq(p.a[0], k) is TRUE:
                    return p.a[1]
            if all(p.a[0].op in ("str", "num", "bool", "tup") for p in x.a) and len(x.a) <= 8:
                r = mk("missing", x, k)
                for p in reversed(x.a):
                    c = eq(k, p.a[0])
                    r = gamma(c, p.a[1], r)
                return r
        if x.op == "zeros":
            return ZERO if k.op != "slice" else mk("idx", x, k)
        if x.op == "snap":
            c = self.cells[x.a[0]]
            return self.read(c.t if c.kind != "loc" else c.init, k, None, x.a[1])
        if x.op == "pos" and k.op != "slice":
            pass
        if k.op == "slice":
            lo, hi, st = k.a
            if lo is NONE and hi is NONE and (st is NONE or st is ONE):
                return mk("copyof", x) if False else x
            if st is MONE and hi is NONE and (lo is NONE or lo is MONE):
                return rev(x)
            if x.op == "range":
                return mk("slc", x, k)
        if x.op == "tuple" and k.op != "slice":
            x = x.a[0]
        if x.op == "seq" and k.op != "slice":
            x = x.a[0]
        if x.op == "range" and k.op != "slice":
            a, b, s = x.a
            if as_int(k) is None or as_int(k) >= 0:
                return add(a, mul(s, k))
        # what is done with every element
        if x.op in ELEMENTWISE and len(x.a) == 1:
            return ELEMENTWISE[x.op](self.idx(x.a[0], k))
        if x.op == "transpose" and len(x.a) == 1 and k.op == "tup" and len(k.a) == 2:
            return self.idx(x.a[0], tup(k.a[1], k.a[0]))
        if x.op == "poly":
            ((m, c), *more) = poly(x).items()
            if not more and c != (1, 0) and m:
                return scale(self.idx(unpoly({m: (F(1), F(0))}), k), c)
        return mk("idx", x, k)

    def idx(self, base, k):
        if base.op == "gamma":
            return gamma(base.a[0], self.idx(base.a[1], k), self.idx(base.a[2], k))
        if base.op == "cell" or base in self.loccell:
            if k.op == "slice" and base.op == "cell":
                c = self.cells[base.a[0]]
                if c.kind == "list":
                    e = self.list_elems(c)
                    if e is not None:
                        r = self.idx0(mk("list", *e), k)
                        if r.op == "list":
                            return self.mklist(list(r.a), None)
                    if k.a == (NONE, NONE, MONE) or (k.a[0] is MONE and k.a[1] is NONE and k.a[2] is MONE):
                        return rev(self.freeze(base))
            return self.read(base, k)
        return self.idx0(base, k)

    def mklist(self, elems, node):
        c = self.new_cell("list", mk("list", *elems), node)
        return c.t

    # ------------------------------------------------------------ running functions
    def run(self, qual, **spec):
        """analyse one function; spec gives constant/term values for parameters"""
        f = self.repo.fn(qual)
        env = {}
        for p in f.all_params:
            env[p] = spec.get(p, mk("param", p))
        if f.vararg:
            env[f.vararg] = mk("param", "*" + f.vararg)
        if f.kwarg:
            env[f.kwarg] = mk("param", "**" + f.kwarg)
        fr = Frame(f.qual, f.mod.name, env, self.pc)
        self.frames.append(fr)
        if f.is_gen:
            fr.yield_cb = lambda v, node: self.event("yield", "", (self.freeze(v),), {}, None, node, raw=(v,))
        self.block(f.node.body)
        res = self.finish(fr, keep=True)
        return Result(self, f, fr, res)

    def run_stmts(self, modname, stmts, fname="<module>"):
        fr = Frame(f"{modname}.{fname}", modname, {}, self.pc)
        fr.toplevel = True
        self.frames.append(fr)
        self.block(stmts)
        return Result(self, None, fr, None)

    def finish(self, fr, keep=False):
        """value of the call as a gamma over return paths"""
        rets = fr.returns
        if self.pc is not None:
            rets = rets + [(self.pc, NONE, self.loops, None, self.tick())]
        n = len(fr.pcbase)
        val = None
        for pc, v, loops, node, _ in reversed(rets):
            c = b_and(*[x for x in pc[n:]])
            extra = loops[fr.nloops:]
            for L in reversed(extra):
                c = mk("ex", L.lv, c) if c not in (TRUE, FALSE) else c
                if v is not NONE and v.op not in ("num", "bool", "str") and L.lv in set(subterms(v)):
                    v = mk("first", way(L), c, v)
            val = v if val is None else gamma(c, v, val)
        return NONE if val is None else val

    # ------------------------------------------------------------ state merging
    def merge(self, base, states):
        """states: list of (pc, env) alternatives that share prefix base; sets self.pc and env"""
        states = [(p, e) for p, e in states if p is not None]
        if not states:
            self.pc = None
            return
        if len(states) == 1:
            self.pc, self.fr.env = states[0]
            return
        n = len(base)
        conds = [b_and(*p[n:]) for p, _ in states]
        env = states[-1][1]
        for (p, e), c in reversed(list(zip(states[:-1], conds[:-1]))):
            if e is env:
                continue
            out = {}
            for k in set(e) | set(env):
                a = e.get(k)
                b = env.get(k)
                if a is None:
                    a = mk("unbound", "")
                if b is None:
                    b = mk("unbound", "")
                out[k] = a if a is b else gamma(c, a, b)
            env = out
        self.fr.env = dict(env)
        tot = b_or(*conds)
        if tot is TRUE:
            self.pc = base
        else:
            f = literals(base)
            tot = simp_bool(tot, f)
            self.pc = base if tot is TRUE else base + tuple(sorted(literals([tot]), key=lambda t: t.n))

    def assume(self, c):
        c = truth(c)
        if c is TRUE or self.pc is None:
            return
        if c is FALSE:
            self.pc = None
            return
        f = self.facts
        new = [x for x in (c.a if c.op == "and" else (c,)) if not implied(x, f)]
        # alternatives that the new facts exclude
        f = f | set(new)
        todo = [x for x in f if x.op == "or"]
        while todo:
            x = todo.pop()
            left = []
            for y in x.a:
                if any(contradicts(z, f) for z in literals([y])):
                    continue
                left.append(y)
            if not left:
                self.pc = None
                return
            if len(left) == 1:
                u = [z for z in literals([left[0]]) if not implied(z, f)]
                if u:
                    new += u
                    f |= set(u)
                    todo = [z for z in f if z.op == "or"]
        self.pc = self.pc + tuple(new)

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            if self.pc is None:
                return
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.notes.append((self.fr.fn, s, f"unsupported statement {type(s).__name__}"))
            self.event("unknown", type(s).__name__, (), {}, None, s)
            return
        m(s)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for al in s.names:
            nm = al.asname or al.name.split(".")[0]
            self.env[nm] = mk("lib", al.name if al.asname else al.name.split(".")[0])

    def s_ImportFrom(self, s):
        for al in s.names:
            nm = al.asname or al.name
            mod = s.module or ""
            full = f"{mod}.{al.name}"
            if full in self.repo.dotted2short:
                self.env[nm] = mk("mod", self.repo.dotted2short[full])
            elif mod in self.repo.dotted2short:
                self.env[nm] = self.global_name(self.repo.dotted2short[mod], al.name)
            else:
                self.env[nm] = self.libterm(full)

    def s_Expr(self, s):
        if isinstance(s.value, (ast.Yield,)):
            self.ev(s.value)
            return
        self.ev(s.value)

    def s_Assign(self, s):
        v = self.ev(s.value)
        if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "iter" and v.op != "cell":
            v = mk("iterator", v, numlit(len(self.loops)))
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            if t.id in self.fr.globals:
                self.event("globalset", t.id, (self.freeze(v),), {}, None, node)
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if not star:
                src = self.unpack(v, n)
                for e, x in zip(t.elts, src):
                    self.assign(e, x, node)
            else:
                k = star[0]
                fv = self.freeze(v)
                for i, e in enumerate(t.elts):
                    if i < k:
                        self.assign(e, self.idx(v, num(i)), node)
                    elif i == k:
                        self.assign(e.value, self.idx0(fv, mk("slice", num(k), num(k - n + 1) if k - n + 1 else NONE,
                                                             NONE)), node)
                    else:
                        self.assign(e, self.idx(v, num(i - n)), node)
        elif isinstance(t, ast.Subscript):
            base, k = self.place(t)
            self.store(base, k, v, node)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            self.log(self.locroot(base), "setattr", S(t.attr), v, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)

    def unpack(self, v, n):
        if v.op == "gamma":
            a = self.unpack(v.a[1], n)
            b = self.unpack(v.a[2], n)
            return [gamma(v.a[0], x, y) for x, y in zip(a, b)]
        if v.op in ("tup", "list") and len(v.a) == n:
            return list(v.a)
        if v.op == "cell":
            e = self.list_elems(self.cells[v.a[0]])
            if e is not None and len(e) == n:
                return e
        if v.op in ("keys", "seq", "tuple", "sorted"):
            fz = self.freeze(v)
            return [mk("idx", fz, num(i)) for i in range(n)]
        sp = None
        if v.op in ("cell", "snap"):
            sp = self.spec(v)
            if sp is not None and sp.elem is not None and sp.const is None and sp.src is not None and \
                    sp.src.op == "comp":
                return [sp.elem(num(i)) for i in range(n)]
        return [self.idx(v, num(i)) for i in range(n)]

    def locroot(self, t):
        return t

    def store(self, base, k, v, node):
        if base.op == "gamma":
            c = base.a[0]
            pc0 = self.pc
            self.assume(c)
            if self.pc is not None:
                self.store(base.a[1], k, v, node)
            self.pc = pc0
            self.assume(b_not(c))
            if self.pc is not None:
                self.store(base.a[2], k, v, node)
            self.pc = pc0
            return
        if base.op in ("unbound", "none"):
            return
        if base.op in ("num", "poly"):  # a view of some array
            for c in self.cells.values() if isinstance(self.cells, dict) else self.cells:
                if c.kind == "array":
                    self.log(c.t, "ext", None, tup(base, k, v), node)
            return
        if base.op == "call" and base.a[0] == "h5py.File" or base.op == "param" and base.a[0].startswith("h5"):
            self.event("meth", "create_dataset", (base, self.freeze(k)), {"data": self.freeze(v)}, NONE, node)
            return
        if k.op == "bool":
            k = num(int(k.a[0]))
        self.log(base, "set", k, v, node)

    def s_AugAssign(self, s):
        op = s.op
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, t)
            rhs = self.ev(s.value)
            if old.op == "cell":
                c = self.cells[old.a[0]]
                if c.kind == "list" and isinstance(op, ast.Add):
                    self.log(old, "extend", None, self.freeze(rhs), s)
                    return
                if c.kind == "list" and isinstance(op, ast.Mult):
                    self.log(old, "iop", None, tup(S("Mult"), self.freeze(rhs)), s)
                    return
                if c.kind in ("dict", "set"):
                    kind = {ast.BitOr: "update", ast.Sub: "difference_update", ast.BitAnd: "intersection_update"}.get(
                        type(op), "iop")
                    self.log(old, kind, None, self.freeze(rhs), s)
                    return
                fz = self.freeze(old)
                val = self.binop(op, fz, self.freeze(rhs), s)
                self.log(old, "iop", None, tup(S(type(op).__name__), self.freeze(rhs), val), s)
                if not c.loops == self.loops or True:
                    pass
                self.env[t.id] = val if False else old
                return
            val = self.binop(op, old, rhs, s)
            if old.op not in ("num", "str", "bool", "poly", "tup", "sum", "mu", "lv", "none"):
                self.event("iop", type(op).__name__, (old, self.freeze(rhs)), {}, val, s)
            self.assign(t, val, s)
        elif isinstance(t, ast.Subscript):
            base, k = self.place(t)
            old = self.idx(base, k)
            rhs = self.ev(s.value)
            if old.op == "cell" and self.cells[old.a[0]].kind in ("list", "set", "dict", "array"):
                c = self.cells[old.a[0]]
                if c.kind == "list" and isinstance(op, ast.Add):
                    self.log(old, "extend", None, self.freeze(rhs), s)
                    return
                if c.kind in ("set", "dict"):
                    self.log(old, "update", None, self.freeze(rhs), s)
                    return
            val = self.binop(op, old, rhs, s)
            self.event("augstore", type(op).__name__, (self.freeze(base), k, self.freeze(rhs)), {}, val, s,
                       raw=(base, k, rhs))
            self.store(base, k, val, s)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            self.log(base, "setattr", S(t.attr), self.ev(s.value), s)

    def s_If(self, s):
        c = self.cond(s.test)
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def branch(self, c, fa, fb):
        c = simp_bool(truth(c), self.facts)
        if c is TRUE:
            fa()
            return
        if c is FALSE:
            fb()
            return
        n = b_not(c)
        if polarity(n) < polarity(c):
            c, fa, fb = n, fb, fa
        pc0, env0 = self.pc, self.env
        self.fr.env = dict(env0)
        self.assume(c)
        if self.pc is not None:
            fa()
        sa = (self.pc, self.fr.env)
        self.pc = pc0
        self.fr.env = dict(env0)
        self.assume(b_not(c))
        if self.pc is not None:
            fb()
        sb = (self.pc, self.fr.env)
        self.merge(pc0, [sa, sb])

    def s_Return(self, s):
        v = NONE if s.value is None else self.ev(s.value)
        if self.pc is None:
            return
        self.fr.returns.append((self.pc, v, self.loops, s, self.tick()))
        self.event("return", self.fr.fn, (self.freeze(v),), {}, None, s, raw=(v,))
        self.pc = None

    def s_Raise(self, s):
        nm = ""
        args = ()
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                nm = ast.unparse(e.func)
                args = tuple(self.freeze(self.ev(a)) for a in e.args if not isinstance(a, ast.Starred))
            else:
                nm = ast.unparse(e)
        if self.pc is None:
            return
        self.event("raise", nm, args, {}, None, s)
        self.pc = None

    def s_Assert(self, s):
        c = self.cond(s.test)
        self.event("assert", "", (c,), {}, None, s)
        self.assume(c)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value)
                self.log(base, "pop", self.evslice(t.slice), None, s)
            elif isinstance(t, ast.Name):
                self.env.pop(t.id, None)

    def s_Global(self, s):
        self.fr.globals.update(s.names)

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s):
        k = len(self.lambdas)
        self.lambdas[k] = (s, self.fr.env, self.fr.mod, self.fr.fn)
        self.env[s.name] = mk("lambda", k)

    def s_ClassDef(self, s):
        self.env[s.name] = mk("cls", s.name)

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s)
        self.block(s.body)
        for it in s.items:
            self.event("withexit", "", (), {}, None, s)

    def s_Try(self, s):
        pc0 = self.pc
        env0 = dict(self.env)
        # idiom: try: C[k] op= v  except KeyError: ...
        cond = None
        if len(s.body) == 1 and isinstance(s.body[0], (ast.AugAssign, ast.Assign)) and s.handlers and all(
            isinstance(h.type, ast.Name) and h.type.id == "KeyError" for h in s.handlers
        ):
            b = s.body[0]
            sub_ = None
            if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Subscript):
                sub_ = b.target
            elif isinstance(b, ast.Assign) and isinstance(b.value, ast.Subscript):
                sub_ = b.value
            if sub_ is not None:
                base = self.ev(sub_.value)
                cond = self.contains(self.evslice(sub_.slice), base)
        if cond is None:
            self.wl += 1
            cond = b_not(mk("exc", self.fr.fn, self.wl))
        self.fr.env = dict(env0)
        self.assume(cond)
        if self.pc is not None:
            self.block(s.body)
            if self.pc is not None:
                self.block(s.orelse)
        states = [(self.pc, self.fr.env)]
        for h in s.handlers:
            self.pc = pc0
            self.fr.env = dict(env0)
            self.assume(b_not(cond))
            if self.pc is None:
                continue
            if h.name:
                self.env[h.name] = mk("excobj")
            self.event("handler", ast.unparse(h.type) if h.type else "", (), {}, None, h)
            self.block(h.body)
            states.append((self.pc, self.fr.env))
        self.merge(pc0, states)
        if self.pc is not None and s.finalbody:
            self.block(s.finalbody)

    def s_Match(self, s):
        subj = self.ev(s.subject)

        def go(i):
            if i >= len(s.cases):
                return
            cs = s.cases[i]
            c, binds = self.pattern(cs.pattern, subj)

            def fa():
                for k, v in binds.items():
                    self.env[k] = v
                if cs.guard is not None:
                    g = self.cond(cs.guard)
                    self.branch(g, lambda: self.block(cs.body), lambda: go(i + 1))
                else:
                    self.block(cs.body)

            self.branch(c, fa, lambda: go(i + 1))

        go(0)

    def pattern(self, p, subj):
        if isinstance(p, ast.MatchValue):
            return self.cmp1(ast.Eq(), subj, self.ev(p.value)), {}
        if isinstance(p, ast.MatchSingleton):
            return eq(subj, self.const(p.value)), {}
        if isinstance(p, ast.MatchOr):
            return b_or(*[self.pattern(q, subj)[0] for q in p.patterns]), {}
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ({p.name: subj} if p.name else {})
            c, b = self.pattern(p.pattern, subj)
            if p.name:
                b = dict(b, **{p.name: subj})
            return c, b
        if isinstance(p, ast.MatchSequence):
            cs, bs = [], {}
            for i, q in enumerate(p.patterns):
                c, b = self.pattern(q, self.idx(subj, num(i)))
                cs.append(c)
                bs.update(b)
            return b_and(*cs), bs
        self.wl += 1
        return mk("exc", "match", self.wl), {}

    # ------------------------------------------------------------ loops
    def s_Break(self, s):
        ctl = self.fr.loopctl[-1]
        ctl["breaks"].append((self.pc, dict(self.env)))
        self.pc = None

    def s_Continue(self, s):
        ctl = self.fr.loopctl[-1]
        ctl["continues"].append((self.pc, dict(self.env)))
        self.pc = None

    def s_For(self, s):
        if isinstance(s.iter, ast.Call) and not any(isinstance(n, ast.Call) for n in ast.walk(s.iter.func)):
            f = self.ev_callee(s.iter.func)
            g = None
            if f.op == "fn" and self.repo.funcs[f.a[0]].is_gen:
                g = self.repo.funcs[f.a[0]]
                gname = g.qual
            if g is not None and len(self.frames) < self.MAXDEPTH:
                self.gen_loop(g, s)
                return
        it = self.ev(s.iter)
        if subscripted_by(s.iter, s.target, s.body) and it.op not in ("cell", "tup", "list", "range"):
            self.mappings.add(it)
            self.mappings.add(self.freeze(it))
        names = assigned_names(s.body) | target_names(s.target)
        self.for_loop(it, lambda x: self.assign(s.target, x, s), lambda: self.block(s.body), names, s,
                      lambda: self.block(s.orelse))

    def generated(self, t):
        """the list of everything a generator yields"""
        if t.op != "genobj":
            return t
        k = t.a[0]
        g, env, node, r = self.gens[k]
        if r is None:
            c = self.new_cell("list", mk("list"), node)
            self.gens[k][3] = c.t

            def bind(v):
                self.log(c.t, "append", None, v, node)

            self.gen_run(g, env, node, bind, lambda: None, set())
            r = c.t
        return r

    def gen_loop(self, g, s):
        args, kws = self.evargs(s.iter)
        env = self.bind(g, args, kws, s.iter)
        names = assigned_names(s.body) | target_names(s.target)
        self.gen_run(g, env, s.iter, lambda v: self.assign(s.target, v, s), lambda: self.block(s.body), names)
        if s.orelse:
            self.block(s.orelse)

    def gen_run(self, g, env, iternode, bind, body, names):
        outer = self.fr

        ctl = {"breaks": [], "continues": [], "base": self.pc}

        def cb(v, node):
            gfr = self.frames.pop()
            outer.loopctl.append(ctl)
            base = self.pc
            bind(v)
            body()
            if ctl["breaks"]:
                raise NotImplementedError("break out of a generator")
            st = [(self.pc, outer.env)] + ctl["continues"]
            ctl["continues"] = []
            self.merge(base, st)
            outer.loopctl.pop()
            self.frames.append(gfr)
            if self.pc is None:
                self.pc = base

        self.event("call", g.qual, tuple(self.freeze(env[p]) for p in g.all_params), {}, None, iternode)
        fr = Frame(g.qual, g.mod.name, env, self.pc, yield_cb=cb)
        fr.nloops = len(self.loops)
        fr.carry_outer = (outer, names)
        pc0 = self.pc
        self.frames.append(fr)
        self.block(g.node.body)
        self.frames.pop()
        if self.pc is None:
            self.pc = pc0

    def for_loop(self, it, bind, body, names, node, orelse=None):
        if it.op == "genobj":
            g, env, gnode, r = self.gens[it.a[0]]
            if r is None:
                self.gens[it.a[0]][3] = mk("opaque", "exhausted generator", it.a[0])
                self.gen_run(g, env, gnode, bind, body, names)
                if orelse:
                    orelse()
                return
            it = r
        if it.op == "gamma":
            # iterate over either container
            self.branch(it.a[0], lambda: self.for_loop(it.a[1], bind, body, names, node, orelse),
                        lambda: self.for_loop(it.a[2], bind, body, names, node, orelse))
            return
        sp = self.spec(it)
        if sp.product is not None:
            parts = sp.product

            def nest(i, acc):
                if i == len(parts):
                    bind(tup(*acc))
                    body()
                    return
                self.for_loop(parts[i], lambda x: acc.append(x), lambda: (nest(i + 1, acc), acc.pop()), names, node)

            nest(0, [])
            if orelse:
                orelse()
            return
        if sp.const is not None:
            self.unrolled(sp.const, bind, body, node, orelse)
            return
        key = count_of(sp.count)
        level = sum(1 for L in self.loops if L.key is key)
        lv = mk("lv", key, level)
        L = Loop("for", key, lv, sp.count, sp.rev, sp.order, node, self.fr.fn, self.freeze(it), self.new_uid(lv))
        L.pc = self.pc
        elem = sp.elem(lv)
        self.loop_body(L, lambda: bind(elem), body, names, node, orelse, filt=sp.filt(lv) if sp.filt else TRUE)

    def unrolled(self, elems, bind, body, node, orelse):
        base0 = self.pc
        breaks = []
        for x in elems:
            if self.pc is None:
                break
            ctl = {"breaks": [], "continues": []}
            self.fr.loopctl.append(ctl)
            base = self.pc
            bind(x)
            body()
            self.fr.loopctl.pop()
            self.merge(base, [(self.pc, self.fr.env)] + ctl["continues"])
            breaks += ctl["breaks"]
        if orelse and self.pc is not None:
            orelse()
        self.merge(base0, breaks + [(self.pc, self.fr.env)]) if breaks else None

    def carried(self, names):
        fr = self.fr
        out = [(fr, n) for n in names if n in fr.env]
        k = len(self.frames) - 1
        while hasattr(self.frames[k], "carry_outer"):
            o, ns = self.frames[k].carry_outer
            out += [(o, n) for n in ns if n in o.env]
            k -= 1
            if k < 0:
                break
        return out

    def loop_body(self, L, bind, body, names, node, orelse=None, cond=None, filt=TRUE):
        """common part of for and while loops"""
        fr = self.fr
        pc0 = self.pc
        car = self.carried(names)
        init = {(f, n): f.env[n] for f, n in car}
        modified = {}
        env_save = [(f, dict(f.env)) for f in self.frames]
        # --- dry pass: which containers change in one iteration
        if True:
            marks = {c.id: len(c.log) for c in self.cells.values()}
            nev = len(self.events)
            rets = [(f, len(f.returns)) for f in self.frames]
            ctlmarks = [(c, len(c["breaks"]), len(c["continues"])) for f in self.frames for c in f.loopctl]
            wl0 = self.wl
            self.dry += 1
            if self.dry <= 2:
                self._iter(L, bind, body, car, cond, filt)
                for cid, n in marks.items():
                    c = self.cells[cid]
                    if len(c.log) > n:
                        ups = [u for u in c.log[n:]]
                        ks = None
                        if all(u.kind in ("set", "append") and u.key is not None or u.kind == "mu" for u in ups):
                            ks = []
                            for u in ups:
                                if u.kind == "mu":
                                    if u.extra is None:
                                        ks = None
                                        break
                                    ks += u.extra
                                else:
                                    ks.append(u.key)
                        modified[cid] = ks
                        del c.log[n:]
                # location cells created during the dry pass
                for t, c in list(self.loccell.items()):
                    if c.id not in marks and c.log:
                        ups = c.log
                        ks = [u.key for u in ups] if all(u.kind == "set" for u in ups) else None
                        c.log = []
                        modified[c.id] = ks
            self.dry -= 1
            del self.events[nev:]
            for f, n in rets:
                del f.returns[n:]
            for c, nb, nc in ctlmarks:
                del c["breaks"][nb:]
                del c["continues"][nc:]
            for f, e in env_save:
                f.env = dict(e)
            self.pc = pc0
        # --- barriers
        for cid, ks in modified.items():
            c = self.cells[cid]
            if ks is not None:
                # keys that use terms created inside the loop stay symbolic
                ks = list(dict.fromkeys(ks))
            c.log.append(Upd("mu", None, L.lv, self.pc, self.loops, node, fr.fn, self.tick(), ks))
        st, brk, bodybase = self._iter(L, bind, body, car, cond, filt)
        # --- after the loop
        n = len(bodybase)
        bconds = [b_and(*p[n:]) for p, _ in brk]
        B = b_or(*bconds) if bconds else FALSE
        for c, (p, e) in zip(bconds, brk):
            L.exits.append(("break", c))
        post = {}
        if st is not None:
            for f, nme in car:
                post[(f, nme)] = self._post(f, nme, st)
        out = {}
        for (f, nme) in car:
            mu = mk("mu", L.uid, nme)
            self.mus[mu] = (L, init[(f, nme)], post.get((f, nme)))
            if (f, nme) in post and post[(f, nme)] is not None:
                out[(f, nme)] = self.summarise(L, mu, init[(f, nme)], post[(f, nme)], bool(brk))
            else:
                out[(f, nme)] = init[(f, nme)]
        # variables first bound inside the loop
        fresh = {}
        if st is not None:
            for nme in names:
                if nme not in {m for f, m in car if f is fr} and nme in st[1]:
                    v = st[1][nme]
                    fresh[nme] = mk("last", way(L), v, mk("unbound", "")) if v.op not in ("fn", "lib") else v
        for f, e in env_save:
            f.env = dict(e)
        self.pc = pc0
        for (f, nme), v in out.items():
            f.env[nme] = v
        for nme, v in fresh.items():
            fr.env[nme] = v
        if L.kind == "while" and cond is not None:
            pass
        if brk:
            exb = mk("ex", L.lv, B) if B not in (TRUE, FALSE) else B
            base = self.pc
            nb_env = fr.env
            self.fr.env = dict(nb_env)
            self.assume(b_not(exb))
            if self.pc is not None and orelse:
                orelse()
            normal = (self.pc, self.fr.env)
            alts = []
            for c, (p, e) in zip(bconds, brk):
                env = dict(nb_env)
                for nme, v in e.items():
                    if (fr, nme) in init:
                        iv = init[(fr, nme)]
                        mu = mk("mu", L.uid, nme)
                        if v is mu:
                            # value before this iteration
                            env[nme] = iv if out[(fr, nme)] is iv else mk("atbreak", way(L), v, iv)
                        else:
                            ss = set(subterms(v))
                            env[nme] = v if (mu not in ss and L.lv not in ss) else mk("atbreak", way(L), v, iv)
                    elif nme not in nb_env or nme in names:
                        env[nme] = mk("atbreak", way(L), v, mk("unbound", "")) if v.op not in (
                            "num", "str", "bool") else v
                cc = mk("ex", L.lv, c) if c not in (TRUE, FALSE) else c
                alts.append((base + (cc,), env))
            self.merge(base, alts + [normal])
        elif orelse:
            orelse()

    def _post(self, f, nme, st):
        if f is self.fr:
            return st[1].get(nme)
        return st[2].get((id(f), nme))

    def _iter(self, L, bind, body, car, cond, filt):
        fr = self.fr
        self.loops = self.loops + (L,)
        for f, nme in car:
            f.env[nme] = mk("mu", L.uid, nme)
        base = self.pc
        if cond is not None:
            c = cond()
            L.cond = c
            self.assume(c)
        if filt is not TRUE:
            self.assume(filt)
        bodybase = base
        ctl = {"breaks": [], "continues": []}
        fr.loopctl.append(ctl)
        st = None
        if self.pc is not None:
            inner = self.pc
            bind()
            body()
            self.merge(inner, [(self.pc, fr.env)] + ctl["continues"])
            if self.pc is not None:
                st = (self.pc, fr.env, {(id(f), n): f.env.get(n) for f, n in car if f is not fr})
                if filt is not TRUE:
                    # iterations that are filtered out leave everything unchanged
                    e = dict(fr.env)
                    for f, n in car:
                        if f is fr:
                            e[n] = gamma(filt, e[n], mk("mu", L.uid, n))
                    st = (st[0], e, st[2])
        fr.loopctl.pop()
        self.loops = self.loops[:-1]
        return (st, ctl["breaks"], bodybase)

    def summarise(self, L, mu, init, post, has_break):
        if post is mu:
            return init
        uid = L.uid
        ss = set(subterms(post))
        if mu not in ss:
            if L.kind == "for" and not has_break and L.lv not in ss and is_const(post):
                return mk("last", way(L), post, init)
            return mk("last", way(L), post, init)
        if L.kind == "for":
            if init.op in ("cell", "none"):
                return mk("muout", uid, mu.a[1], init, post)
            d = delta(post, mu)
            if d is not None and mu not in set(subterms(d)):
                return add(init, loop_sum(L.lv, L.count, d))
            r = ratio(post, mu)
            if r is not None and mu not in set(subterms(r)):
                return mul(init, mk("prod", L.lv, r))
            # flags
            fl = flag(post, mu)
            if fl is not None:
                c, v = fl
                if mu not in set(subterms(c)) and v in (TRUE, FALSE):
                    return gamma(mk("ex", L.lv, c), v, init)
            if post.op == "concat" and post.a[0] is mu and mu not in set(
                x for y in post.a[1:] for x in subterms(y)
            ):
                return concat(init, mk("concatloop", L.lv, concat(*post.a[1:]), S("rev" if L.rev else "fwd")))
            if post.op == "concat" and post.a[-1] is mu and mu not in set(
                x for y in post.a[:-1] for x in subterms(y)
            ):
                return concat(mk("concatloop", L.lv, concat(*post.a[:-1]), S("fwd" if L.rev else "rev")), init)
            if post.op == "gamma" and post.a[1].op == "concat" and post.a[2].op == "concat" and \
                    post.a[1].a[0] is mu and post.a[2].a[0] is mu:
                x = gamma(post.a[0], concat(*post.a[1].a[1:]), concat(*post.a[2].a[1:]))
                if mu not in set(subterms(x)):
                    return concat(init, mk("concatloop", L.lv, x, S("rev" if L.rev else "fwd")))
        return mk("muout", uid, mu.a[1], init, post)

    def s_While(self, s):
        # counted loop:  i = a; while i < n: ...; i += 1
        r = self.counted_while(s)
        if r is not None:
            nme, start, bound = r
            body = s.body[:-1]
            names = assigned_names(s.body)
            it = mk("range", start, bound, ONE)
            self.for_loop(it, lambda x: self.env.__setitem__(nme, x), lambda: self.block(body), names - {nme}, s,
                          lambda: self.block(s.orelse))
            self.env[nme] = gamma(lt0(sub(start, bound)), bound, start)
            return
        names = assigned_names(s.body)
        self.wl += 1
        lv = mk("wl", self.fr.fn, self.wl)
        L = Loop("while", lv, lv, None, False, "seq", s, self.fr.fn, None, self.new_uid(lv))
        L.pc = self.pc
        self.loop_body(L, lambda: None, lambda: self.block(s.body), names, s,
                       (lambda: self.block(s.orelse)) if s.orelse else None, cond=lambda: self.cond(s.test))

    def counted_while(self, s):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)):
            return None
        nme = t.left.id
        if not isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq)):
            return None
        if not s.body or not isinstance(s.body[-1], ast.AugAssign):
            return None
        last = s.body[-1]
        if not (isinstance(last.target, ast.Name) and last.target.id == nme and isinstance(last.op, ast.Add)
                and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        inner = assigned_names(s.body[:-1])
        if nme in inner:
            return None
        for n in ast.walk(t.comparators[0]):
            if isinstance(n, ast.Name) and n.id in inner:
                return None
            if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id == "len"):
                return None
        for n in walk_scope(s):
            if isinstance(n, ast.Continue):
                return None
        # len(x) bound: x must not be changed in the body
        for n in ast.walk(t.comparators[0]):
            if isinstance(n, ast.Call):
                nm = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} - {"len"}
                for b in s.body:
                    for q in ast.walk(b):
                        if isinstance(q, ast.Attribute) and isinstance(q.value, ast.Name) and q.value.id in nm and \
                                q.attr in MUTATORS:
                            return None
        if nme not in self.env:
            return None
        start = self.env[nme]
        if start.op in ("mu", "muout") and False:
            return None
        bound = self.ev(t.comparators[0])
        if isinstance(t.ops[0], ast.LtE):
            bound = add(bound, ONE)
        return nme, start, bound

    # ------------------------------------------------------------ iteration domains
    def dictlike(self, t):
        if t in self.mappings:
            return True
        if t.op == "param":
            return t.a[0] in DICTLIKE
        if t.op == "call":
            return t.a[0] in DICTRET
        if t.op == "cell":
            return self.cells[t.a[0]].kind == "dict"
        if t.op == "snap":
            c = self.cells[t.a[0]]
            return c.kind == "dict" or (c.kind == "loc" and self.dictlike(c.init))
        if t.op == "idx":
            b = t.a[0]
            return b.op == "param" and b.a[0] in ("opResult", "h_dict", "psis", "ops") and t.a[1].op != "slice"
        if t.op in ("dict", "pickle"):
            return True
        if t.op == "gamma":
            return self.dictlike(t.a[1])
        return False

    def spec(self, it):
        o = it.op
        if o in ("seq", "tuple"):
            return self.spec(it.a[0])
        if o in ("list", "tup"):
            if len(it.a) <= 24:
                return Spec(const=list(it.a))
            return Spec(count=num(len(it.a)), elem=lambda p: mk("idx", it, p))
        if o == "str":
            if len(it.a[0]) <= 16:
                return Spec(const=[S(ch) for ch in it.a[0]])
        if o == "cell":
            c = self.cells[it.a[0]]
            e = self.list_elems(c) if c.kind == "list" else None
            if e is not None and len(e) <= 24:
                return Spec(const=e)
            if c.kind == "dict":
                d = self.dict_elems(c)
                if d is not None and len(d) <= 24:
                    return Spec(const=[k for k, _ in d])
            if c.kind == "set":
                d = self.dict_elems(c)
                if d is not None and len(d) <= 1:
                    return Spec(const=[k for k, _ in d])
            s = self.comp_spec(c)
            if s is not None:
                return s
            if c.kind == "list" and c.init is not None and c.init.op == "seq" and all(u.kind == "mu" for u in c.log):
                return self.spec(c.init.a[0])
            fz = self.freeze(it)
            if c.kind == "dict":
                return Spec(count=mk("len", fz), elem=lambda p: mk("key", fz, p), order="dict")
            if c.kind == "set":
                return Spec(count=mk("len", fz), elem=lambda p: mk("elem", fz, p), order="set")
            return Spec(count=mk("len", fz), elem=lambda p: self.idx0(fz, p))
        if o == "range":
            a, b, s = it.a
            ia, ib, is_ = as_int(a), as_int(b), as_int(s)
            if ia is not None and ib is not None and is_ is not None and is_ != 0:
                r = list(range(ia, ib, is_))
                if len(r) <= self.unroll:
                    return Spec(const=[num(x) for x in r])
            if is_ == 1:
                n = sub(b, a)
                return Spec(count=n, elem=lambda p: add(a, p))
            if is_ == -1:
                n = sub(a, b)
                return Spec(count=n, elem=lambda p: add(b, ONE, p), rev=True)
            return Spec(count=mk("count3", a, b, s), elem=lambda p: add(a, mul(s, p)))
        if o == "enumerate":
            sp = self.spec(it.a[0])
            st = it.a[1]
            if sp.product is not None:
                return Spec(count=mk("len", it), elem=lambda p: tup(add(p, st), mk("idx", it.a[0], p)))
            if sp.const is not None:
                return Spec(const=[tup(add(num(i), st), x) for i, x in enumerate(sp.const)])
            if sp.filt is not None:
                return Spec(count=mk("len", self.freeze(it)), elem=lambda p: tup(add(p, st), mk("idx", self.freeze(
                    it.a[0]), p)))
            if sp.rev:
                return Spec(count=sp.count, elem=lambda p: tup(add(sub(sub(sp.count, ONE), p), st), sp.elem(p)),
                            rev=True, order=sp.order)
            return Spec(count=sp.count, elem=lambda p: tup(add(p, st), sp.elem(p)), order=sp.order)
        if o == "zip":
            sps = [self.spec(x) for x in it.a]
            if any(s.product is not None or s.filt is not None for s in sps):
                fz = self.freeze(it)
                return Spec(count=mk("len", fz), elem=lambda p: mk("idx", fz, p))
            cons = [s for s in sps if s.const is not None]
            if cons:
                n = min(len(s.const) for s in cons)

                def at(s, x, i):
                    if s.const is not None:
                        return s.const[i]
                    return s.elem(num(i)) if not s.rev else s.elem(sub(sub(s.count, ONE), num(i)))

                return Spec(const=[tup(*[at(s, x, i) for s, x in zip(sps, it.a)]) for i in range(n)])
            cnts = []
            for s in sps:
                if s.count not in cnts:
                    cnts.append(s.count)
            cnt = cnts[0] if len(cnts) == 1 else mk("min", *sorted(cnts, key=lambda t: t.n))
            revs = {s.rev for s in sps}
            if revs == {True}:
                return Spec(count=cnt, elem=lambda p: tup(*[s.elem(p) for s in sps]), rev=True)
            return Spec(
                count=cnt,
                elem=lambda p: tup(*[s.elem(p if not s.rev else sub(sub(s.count, ONE), p)) for s in sps]),
                order="set" if any(s.order == "set" for s in sps) else "seq",
            )
        if o == "rev":
            sp = self.spec(it.a[0])
            if sp.const is not None:
                return Spec(const=list(reversed(sp.const)))
            if sp.product is None:
                return Spec(count=sp.count, elem=sp.elem, rev=not sp.rev, order=sp.order, filt=sp.filt)
        if o == "items":
            x = it.a[0]
            if x.op == "cell":
                d = self.dict_elems(self.cells[x.a[0]])
                if d is not None and len(d) <= 24:
                    return Spec(const=[tup(k, v) for k, v in d])
            elif x.op == "dict" and len(x.a) <= 24:
                return Spec(const=list(x.a))
            fz = self.freeze(x)
            cell = self.cells[x.a[0]] if x.op == "cell" else None
            if cell is not None:
                s = self.comp_spec(cell, items=True)
                if s is not None:
                    return s

            def el(p):
                k = mk("key", fz, p)
                return tup(k, self.val_of(x, fz, k))

            return Spec(count=mk("len", fz), elem=el, order="dict")
        if o == "keys":
            x = it.a[0]
            if x.op == "cell":
                return self.spec(x)
            if x.op == "dict" and len(x.a) <= 24:
                return Spec(const=[p.a[0] for p in x.a])
            fz = self.freeze(x)
            return Spec(count=mk("len", fz), elem=lambda p: mk("key", fz, p), order="dict")
        if o == "values":
            sp = self.spec(mk("items", it.a[0]))
            if sp.const is not None:
                return Spec(const=[p.a[1] for p in sp.const])
            return Spec(count=sp.count, elem=lambda p: sp.elem(p).a[1], order=sp.order, filt=sp.filt)
        if o == "product":
            return Spec(product=list(it.a))
        if o == "concat":
            pass
        if o in ("set", "frozenset", "setlit", "union", "difference", "intersection"):
            return Spec(count=mk("len", it), elem=lambda p: mk("elem", it, p), order="set")
        if o == "dict" and len(it.a) <= 24:
            return Spec(const=[p.a[0] for p in it.a])
        if o == "snap":
            c = self.cells[it.a[0]]
            if c.kind == "set":
                return Spec(count=mk("len", it), elem=lambda p: mk("elem", it, p), order="set")
            if len(c.log) == it.a[1]:
                s = self.comp_spec(c)
                if s is not None and c.kind == "list":
                    return s
        if o == "idx" and it.a[1].op == "slice" and it.a[1].a[0] in (NONE, ZERO) and it.a[1].a[2] in (NONE, ONE) and \
                (as_int(it.a[1].a[1]) or 0) > 0 and it.a[0].op in ("seq", "tuple"):
            sp = self.spec(it.a[0])
            if sp.count is not None and not sp.rev and sp.product is None and sp.filt is None:
                return Spec(count=mk("min", *sorted([sp.count, it.a[1].a[1]], key=lambda t: t.n)), elem=sp.elem,
                            order=sp.order)
        fz = self.freeze(it)
        if self.dictlike(it):
            return Spec(count=mk("len", fz), elem=lambda p: mk("key", fz, p), order="dict")
        order = "set" if fz.op in ("set", "frozenset") else "seq"
        return Spec(count=length(fz), elem=lambda p: self.idx(it, p) if not self.is_setlike(it) else mk("elem", fz, p),
                    order="set" if self.is_setlike(it) else order)

    def is_setlike(self, t):
        if t.op in ("set", "frozenset", "setlit"):
            return True
        if t.op == "meth" and t.a[0] in ("intersection", "difference", "union", "symmetric_difference"):
            return True
        if t.op == "cell":
            return self.cells[t.a[0]].kind == "set"
        if t.op == "snap":
            return self.cells[t.a[0]].kind == "set"
        if t.op in ("setdiff",):
            return True
        return False

    def val_of(self, x, fz, k):
        if fz.op == "snap" or x.op == "cell" or x in self.loccell:
            c = self.cell_of(x)
            if c is not None and any(u.kind != "mu" for u in c.log):
                return mk("idx", fz, k)
            if c is not None and c.init is not None and c.init.op not in ("dict", "list"):
                return mk("idx", c.init, k) if c.kind != "loc" else mk("idx", fz, k)
        return mk("idx", fz, k)

    def comp_spec(self, c, items=False):
        """container filled by one unconditional append/set per iteration of one loop"""
        ups = [u for u in c.log if u.kind != "mu"]
        if len(ups) != 1 or c.init is None or c.init.a:
            return None
        u = ups[0]
        if u.kind not in (("set",) if c.kind == "dict" else ("append",)):
            return None
        if c.kind not in ("list", "dict"):
            return None
        if len(u.loops) != len(c.loops) + 1 or u.loops[: len(c.loops)] != c.loops:
            return None
        L = u.loops[-1]
        if L.kind != "for" or L.exits:
            return None
        # nothing else may exclude iterations
        rel = self._pcrel(u.pc, c.pc)
        filt = None
        if rel:
            if c.kind == "dict":
                return None
            g = b_and(*rel)

            def filt(p, g=g):
                return subst(g, {L.lv: p})

        src = mk("comp", L.lv, u.val)
        if c.kind == "dict":
            if items:
                return Spec(count=L.count, elem=lambda p: tup(subst(u.key, {L.lv: p}), subst(u.val, {L.lv: p})),
                            order=L.order, src=src)
            return Spec(count=L.count, elem=lambda p: subst(u.key, {L.lv: p}), order=L.order, src=src)
        return Spec(count=L.count, elem=lambda p: subst(u.val, {L.lv: p}), rev=L.rev, order=L.order, src=src, filt=filt)

    # ------------------------------------------------------------ expressions
    def cond(self, e):
        return truth(self.ev(e))

    def const(self, v):
        if v is None:
            return NONE
        if v is Ellipsis:
            return mk("ellipsis")
        if isinstance(v, str):
            return S(v)
        if isinstance(v, bytes):
            return mk("bytes", v.decode("latin1"))
        return numlit(v)

    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.notes.append((self.fr.fn, e, f"unsupported expression {type(e).__name__}"))
            return mk("opaque", type(e).__name__, getattr(e, "lineno", 0))
        if self.pc is None:
            return mk("dead")
        return m(e)

    def e_Constant(self, e):
        return self.const(e.value)

    def e_Name(self, e):
        return self.name(e.id, e)

    def name(self, n, node):
        v = self.env.get(n)
        if v is not None:
            if has_unbound(v):
                f = self.facts
                v2 = simp(v, f)
                if has_unbound(v2):
                    self.event("maybe_unbound", n, (v2,), {}, None, node)
                    while v2.op == "gamma" and v2.a[0].op in ("in", "not") and "unbound" in (v2.a[1].op, v2.a[2].op):
                        # depends on what a file contains: read on, for files that have it
                        v2 = v2.a[1] if v2.a[2].op == "unbound" else v2.a[2]
                v = v2
            if v.op == "gamma" and self.pc:
                v = simp(v, self.facts)
            if v.op == "iterator":  # what is left of it in later rounds
                return v.a[0] if as_int(v.a[1]) >= len(self.loops) else mk("rest", v.a[0])
            return v
        fr = self.fr
        if getattr(fr, "closure", None):
            for env in fr.closure:
                if n in env:
                    return env[n]
        if n in local_names_of(self, fr):
            self.event("unbound", n, (), {}, None, node)
            return mk("unbound", "")
        return self.global_name(fr.mod, n)

    def global_name(self, mod, n):
        t = self.repo.resolve(mod, n)
        if t.op == "lib":
            return self.libterm(t.a[0])
        if t.op == "glob":
            return self.globval(t)
        return t

    def globval(self, t):
        if t in self._glob:
            return self._glob[t]
        self._glob[t] = t
        mod, n = t.a
        m = self.repo.modules[mod]
        vals = m.assigns.get(n)
        if vals is None:
            vals = self.repo.real.modules[mod].assigns[n]
        r = t
        if len(vals) == 1:
            v = vals[0]
            sub_ = Exec(self.repo)
            sub_.frames.append(Frame(f"{mod}.<module>", mod, {}, ()))
            sub_._glob = self._glob
            try:
                x = sub_.ev(v)
                x = sub_.freeze(x)
            except RecursionError:
                x = t
            if x.op in ("comm", "rank", "nranks", "num", "str", "pi", "tup", "bool", "none", "list", "dict", "poly",
                        "fn", "lib", "setlit", "mod"):
                r = x
        self._glob[t] = r
        return r

    def libterm(self, d):
        if d in ("numpy.pi", "math.pi", "scipy.pi", "scipy.constants.pi"):
            return PI
        if d == "mpi4py.MPI.COMM_WORLD":
            return mk("comm")
        return mk("lib", d)

    def e_Attribute(self, e):
        b = self.ev(e.value)
        return self.attr(b, e.attr, e)

    def attr(self, b, a, node):
        if b.op == "lib":
            return self.libterm(b.a[0] + "." + a)
        if b.op == "mod":
            return self.global_name(b.a[0], a)
        if b.op == "pkg":
            d = b.a[0] + "." + a
            if d in self.repo.dotted2short and self.repo.dotted2short[d] != d:
                return mk("mod", self.repo.dotted2short[d])
            return mk("pkg", d)
        if b.op == "comm":
            if a == "rank":
                return mk("rank")
            if a == "size":
                return mk("nranks")
        if b.op == "gamma":
            return gamma(b.a[0], self.attr(b.a[1], a, node), self.attr(b.a[2], a, node))
        if b.op == "cmdline":
            return mk("opt", a)
        if a == "real":
            return re_part(self.val(b))
        if a == "imag":
            return im_part(self.val(b))
        if a == "T":
            x = self.freeze(b)
            if x.op == "transpose":
                return x.a[0]
            return mk("transpose", x)
        if a == "shape":
            return mk("shape", self.freeze(b))
        return mk("attr", self.freeze(b), a)

    def val(self, t):
        """arithmetic value of a term (arrays frozen)"""
        if t.op == "cell" or t in self.loccell:
            return self.freeze(t)
        return t

    def e_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.concat_elts(e, "tup")
        return tup(*[self.ev(x) for x in e.elts])

    def concat_elts(self, e, op):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                fv = self.freeze(v)
                if fv.op in ("tup", "list"):
                    parts.append(mk(op, *fv.a))
                else:
                    parts.append(mk("splat", fv))
            else:
                parts.append(mk(op, self.ev(x)))
        r = []
        for p in parts:
            if p.op == op and r and r[-1].op == op:
                r[-1] = mk(op, *(r[-1].a + p.a))
            else:
                r.append(p)
        if len(r) == 1 and r[0].op == op:
            return r[0]
        return mk("concat", *[p.a[0] if p.op == "splat" else p for p in r])

    def e_List(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            t = self.concat_elts(e, "list")
            if t.op == "list":
                return self.mklist(list(t.a), e)
            # a product-domain unpacked into a list etc.
            if t.op == "concat" and len(t.a) == 1:
                return mk("seq", t.a[0])
            return t
        return self.mklist([self.ev(x) for x in e.elts], e)

    def e_Set(self, e):
        return self.new_cell("set", mk("setlit", *[self.ev(x) for x in e.elts]), e).t

    def e_Dict(self, e):
        items = []
        c = self.new_cell("dict", mk("dict"), e)
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v)
                self.log(c.t, "update", None, self.freeze(x), e)
            else:
                kk = self.ev(k)
                vv = self.ev(v)
                items.append((kk, vv))
                self.log(c.t, "set", kk, vv, e)
        if all(k is not None for k in e.keys):
            d = {}
            c.log = []
            c.init = mk("dict", *[tup(k, v) for k, v in items])
        return c.t

    def e_Starred(self, e):
        return mk("splat", self.freeze(self.ev(e.value)))

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.USub):
            return self.neg(self.val(v))
        if isinstance(e.op, ast.UAdd):
            return self.val(v)
        if isinstance(e.op, ast.Not):
            return b_not(self.truthval(v))
        return mk("invert", self.val(v))

    def truthval(self, v):
        if v.op == "cell":
            f = self.freeze(v)
            if f.op in ("list", "dict", "setlit"):
                return TRUE if f.a else FALSE
            return b_not(eq0(mk("len", f)))
        return truth(v)

    def neg(self, v):
        if v.op == "gamma":
            return gamma(v.a[0], self.neg(v.a[1]), self.neg(v.a[2]))
        return neg(v)

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        pc0 = self.pc
        vals = []
        for x in e.values:
            v = self.ev(x)
            vals.append(v)
            c = self.truthval(v)
            self.assume(c if is_and else b_not(c))
            if self.pc is None:
                break
        self.pc = pc0
        ts = [self.truthval(v) for v in vals]
        if all(v.op in BOOLOPS for v in vals):
            return (b_and if is_and else b_or)(*ts)
        r = vals[-1]
        for v, c in reversed(list(zip(vals[:-1], ts[:-1]))):
            r = gamma(c, r, v) if is_and else gamma(c, v, r)
        return r

    def e_IfExp(self, e):
        c = simp_bool(truth(self.truthval(self.ev(e.test))), self.facts)
        if c is TRUE:
            return self.ev(e.body)
        if c is FALSE:
            return self.ev(e.orelse)
        pc0 = self.pc
        yes, no = e.body, e.orelse
        n = b_not(c)
        if polarity(n) < polarity(c):
            c, yes, no = n, no, yes
        self.assume(c)
        a = self.ev(yes) if self.pc is not None else None
        self.pc = pc0
        self.assume(b_not(c))
        b = self.ev(no) if self.pc is not None else None
        self.pc = pc0
        if a is None:
            return b
        if b is None:
            return a
        return gamma(c, a, b)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(e.op, a, b, e)

    def is_seq(self, t):
        if t.op in ("str", "tup", "list", "concat", "fstr", "concatloop", "repeat", "tuple", "joined", "bytes", "sorted"):
            return True
        if t.op == "cell":
            return self.cells[t.a[0]].kind == "list"
        if t.op == "snap":
            return self.cells[t.a[0]].kind == "list"
        if t.op == "gamma":
            return self.is_seq(t.a[1]) or self.is_seq(t.a[2])
        if t.op == "seq":
            return True
        if t.op == "slc":
            return True
        if t.op == "meth" and t.a[0] in ("join", "zfill", "rjust", "format", "replace"):
            return True
        if t.op in ("muout", "mu", "last") and len(t.a) > 2 and isinstance(t.a[2], T):
            return self.is_seq(t.a[2])
        return False

    def pieces(self, a, b):
        """the beginning and the end of the same thing (of which a sum would make no sense)"""
        sl = []
        for x in (a, b):
            if x.op != "idx" or len(x.a) != 2 or x.a[1].op != "slice" or x.a[1].a[2] is not NONE:
                return False
            lo, hi, _ = x.a[1].a
            sl.append((lo in (NONE, ZERO), hi is NONE))
        return a.a[0] is b.a[0] and a.a[0].op == "param" and sl in ([(True, False), (False, True)], [(False, True), (True, False)])

    def binop(self, op, a, b, node):
        o = type(op).__name__
        if isinstance(op, ast.Add) and (self.is_seq(a) or self.is_seq(b) or self.pieces(a, b)):
            if a.op == "cell" or b.op == "cell":
                fa, fb = self.freeze(a), self.freeze(b)
                if fa.op == "list" and fb.op == "list":
                    return self.mklist(list(fa.a + fb.a), node)
                return concat(fa, fb)
            return concat(a, b)
        if isinstance(op, ast.Mult) and (self.is_seq(a) or self.is_seq(b)):
            x, n = (a, b) if self.is_seq(a) else (b, a)
            k = as_int(n)
            fx = self.freeze(x)
            if fx.op == "list" and k is not None and k * len(fx.a) <= 24:
                # the same objects are repeated
                src = list(self.cells[x.a[0]].init.a) if x.op == "cell" and not self.cells[x.a[0]].log else list(fx.a)
                return self.mklist(src * max(k, 0), node)
            if fx.op == "str" and k is not None:
                return S(fx.a[0] * k)
            raw = None
            if x.op == "cell":
                raw = self.list_elems(self.cells[x.a[0]])
            if raw is not None:
                c = self.new_cell("replist", mk("repeat", mk("list", *raw), n), node)
                return c.t
            return mk("repeat", fx, n)
        if isinstance(op, ast.BitOr) and any(x.op == "cell" and self.cells[x.a[0]].kind in ("dict", "set") for x in
                                             (a, b)):
            fa, fb = self.freeze(a), self.freeze(b)
            return mk("union", fa, fb)
        if isinstance(op, (ast.Sub, ast.BitAnd)) and (self.is_setlike(a) or self.is_setlike(b)):
            return mk("meth", "difference" if isinstance(op, ast.Sub) else "intersection", self.freeze(a),
                      self.freeze(b))
        if isinstance(op, ast.Mod) and a.op in ("str", "fstr"):
            return mk("strmod", a, self.freeze(b))
        for x, y in ((a, b), (b, a)):  # an array of constants and a number
            if x.op == "cell" and y.op == "num" and self.cells[x.a[0]].kind == "array" and not self.cells[x.a[0]].log and \
                    self.cells[x.a[0]].init.op == "zeros" and (isinstance(op, ast.Mult) or y is ZERO and isinstance(op, (ast.Add, ast.Sub))):
                z = self.cells[x.a[0]].init
                return self.new_cell("array", mk("zeros", *[v for v in z.a if v.op != "str"], S("?")), node).t
        a, b = self.val(a), self.val(b)
        a, b = self.as_number(a), self.as_number(b)
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            for x, y, flip in ((a, b, False), (b, a, True)):
                if x.op == "gamma" and is_const(y):
                    f = lambda z: self.binop(op, z, y, node) if not flip else self.binop(op, y, z, node)  # noqa
                    return gamma(x.a[0], f(x.a[1]), f(x.a[2]))
        if isinstance(op, ast.Add):
            return parity_sign(self.gadd(a, b))
        if isinstance(op, ast.Sub):
            return parity_sign(self.gadd(a, self.neg(b)))
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.Pow):
            return power(a, b)
        if isinstance(op, ast.MatMult):
            return mk("dot", a, b)
        ia, ib = as_int(a), as_int(b)
        if ia is not None and ib is not None:
            try:
                v = {
                    ast.FloorDiv: lambda: ia // ib, ast.Mod: lambda: ia % ib, ast.LShift: lambda: ia << ib,
                    ast.RShift: lambda: ia >> ib, ast.BitAnd: lambda: ia & ib, ast.BitOr: lambda: ia | ib,
                    ast.BitXor: lambda: ia ^ ib,
                }[type(op)]()
                return num(v)
            except (ZeroDivisionError, ValueError, KeyError):
                pass
        if isinstance(op, ast.LShift):
            return mk("shl", a, b)
        if isinstance(op, ast.RShift):
            return mk("shr", a, b)
        if isinstance(op, ast.Mod):
            return mod_(a, b)
        if isinstance(op, ast.FloorDiv):
            if ib == 1:
                return a
            return mk("floordiv", a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if a.op in BOOLOPS and b.op in BOOLOPS:
                if isinstance(op, ast.BitAnd):
                    return b_and(a, b)
                if isinstance(op, ast.BitOr):
                    return b_or(a, b)
            nm = {ast.BitAnd: "bitand", ast.BitOr: "bitor", ast.BitXor: "bitxor"}[type(op)]
            for x, y in ((a, b), (b, a)):
                if nm == "bitand" and x is ONE and y.op != "cell":
                    return mod_(y, num(2))
            x, y = sorted((a, b), key=lambda t: t.n)
            return mk(nm, x, y)
        return mk("binop", o, a, b)

    def gadd(self, a, b):
        if a.op == "gamma" and b.op == "gamma" and a.a[0] is b.a[0]:
            return gamma(a.a[0], add(a.a[1], b.a[1]), add(a.a[2], b.a[2]))
        return add(a, b)

    def as_number(self, a):
        if a.op in BOOLOPS and a.op != "bool":
            return gamma(a, ONE, ZERO)
        if a.op == "bool":
            return num(int(a.a[0]))
        return a

    def e_Compare(self, e):
        left = self.ev(e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            out.append(self.cmp1(op, left, right))
            left = right
        return b_and(*out) if len(out) > 1 else out[0]

    def cmp1(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(a, b)
            return c if isinstance(op, ast.In) else b_not(c)
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = self.is_(a, b)
            return c if isinstance(op, ast.Is) else b_not(c)
        fa, fb = self.val(a), self.val(b)
        if isinstance(op, ast.Eq):
            return self.eqv(fa, fb)
        if isinstance(op, ast.NotEq):
            return b_not(self.eqv(fa, fb))
        fa, fb = self.as_number(fa), self.as_number(fb)
        d = self.gadd(fa, self.neg(fb))
        if fa.op == "gamma" and is_const(fb):
            f = {ast.Lt: lambda x: lt0(sub(x, fb)), ast.LtE: lambda x: le0(sub(x, fb)),
                 ast.Gt: lambda x: lt0(sub(fb, x)), ast.GtE: lambda x: le0(sub(fb, x))}[type(op)]
            return gamma(fa.a[0], f(fa.a[1]), f(fa.a[2]))
        if fb.op == "gamma" and is_const(fa):
            f = {ast.Lt: lambda x: lt0(sub(fa, x)), ast.LtE: lambda x: le0(sub(fa, x)),
                 ast.Gt: lambda x: lt0(sub(x, fa)), ast.GtE: lambda x: le0(sub(x, fa))}[type(op)]
            return gamma(fb.a[0], f(fb.a[1]), f(fb.a[2]))
        if isinstance(op, ast.Lt):
            return lt0(d)
        if isinstance(op, ast.LtE):
            return le0(d)
        if isinstance(op, ast.Gt):
            return lt0(self.neg(d))
        return le0(self.neg(d))

    def eqv(self, a, b):
        if a.op in ("fn", "lib") and b.op in ("fn", "lib"):
            return TRUE if a is b else FALSE
        if a.op in BOOLOPS and b.op == "bool":
            return a if b.a[0] else b_not(a)
        if b.op in BOOLOPS and a.op == "bool":
            return b if a.a[0] else b_not(b)
        for x, y in ((a, b), (b, a)):  # a flag
            if y.op == "bool" and x.op in ("param", "opt", "attr", "glob"):
                return truth(x) if y.a[0] else b_not(truth(x))
        return eq(a, b)

    def is_(self, a, b):
        if a is NONE or b is NONE:
            x = b if a is NONE else a
            if x.op in ("cell", "fn", "lambda", "lib"):
                return FALSE
            return isnone(x)
        return self.eqv(self.val(a), self.val(b))

    def contains(self, k, c):
        if c.op in ("keys",):
            c = c.a[0]
        if c.op == "gamma":
            return gamma(c.a[0], self.contains(k, c.a[1]), self.contains(k, c.a[2]))
        if c.op == "locals" and k.op == "str":
            v = self.env.get(k.a[0])
            return FALSE if v is None else bound_when(v)
        if c.op in ("tup", "list"):
            return b_or(*[eq(k, x) for x in c.a])
        if c.op == "cell":
            cc = self.cells[c.a[0]]
            e = self.list_elems(cc) if cc.kind == "list" else (
                self.dict_elems(cc) if cc.kind in ("dict", "set") else None)
            if e is not None:
                xs = [x[0] if isinstance(x, tuple) else x for x in e]
                if len(xs) <= 12:
                    return b_or(*[eq(k, x) for x in xs]) if xs else FALSE
        if c.op in ("setlit",):
            return b_or(*[eq(k, x) for x in c.a])
        if c.op == "dict":
            return b_or(*[eq(k, p.a[0]) for p in c.a])
        if c.op == "range":
            a, b, s = c.a
            if s is ONE:
                one = poly(b).get((), (0, 0))[0] == 1 and len(poly(b)) > 1
                return b_and(le0(sub(a, k)), le0(sub(k, sub(b, ONE))) if one else lt0(sub(k, b)))
        if c.op in ("set", "frozenset", "tuple", "seq") and len(c.a) == 1:
            return self.contains(k, c.a[0])
        if c.op == "str" and k.op == "str":
            return TRUE if k.a[0] in c.a[0] else FALSE
        # presence is decided if a matching store dominates
        cell = self.cell_of(c)
        if cell is not None:
            for u in reversed(cell.log):
                if u.kind == "set" and self.same_key(u.key, k) is True and \
                        u.loops == self.loops[: len(u.loops)] and not [x for x in u.pc if not implied(x, self.facts)]:
                    return TRUE
                if u.kind in ("pop", "clear", "popitem", "difference_update"):
                    break
            else:
                if not cell.log and cell.init is not None and cell.init.op == "dict" and not cell.init.a:
                    return FALSE
        return mk("in", k, self.freeze(c))

    def e_Subscript(self, e):
        b, k = self.place(e)
        return self.load(b, k, e)

    def place(self, e):
        """container and key of a subscript; x[i][j] of an array is x[i, j]"""
        if isinstance(e.value, ast.Subscript):
            b, k = self.place(e.value)
            if b.op == "cell" and self.cells[b.a[0]].kind == "array":
                z = self.cells[b.a[0]].init
                n = len(z.a[0].a) if z.op in ("zeros", "empty", "ones", "full") and z.a and z.a[0].op == "tup" else 0
                ks = list(k.a) if k.op == "tup" else [k]
                if len(ks) < n and not any(x.op in ("slice", "ellipsis", "cell", "list", "tup", "snap", "nparray") for x in ks):
                    k2 = self.evslice(e.slice)
                    return b, trailing(ks + (list(k2.a) if k2.op == "tup" else [k2]))
            b = self.load(b, k, e.value)
        else:
            b = self.ev(e.value)
        return b, self.evslice(e.slice)

    def load(self, b, k, e):
        if b.op == "cls" or (b.op == "lib" and b.a[0] in ("dict", "list", "tuple", "set")):
            return b
        r = self.idx(b, k)
        if any(x.op == "missing" for x in subterms(r)):
            miss = miss_cond(r)
            if miss is not FALSE:
                pc0 = self.pc
                self.assume(miss)
                if self.pc is not None:
                    self.event("raise", "KeyError", (k,), {}, None, e)
                self.pc = pc0
                self.assume(b_not(miss))
                r = simp(r, self.facts)
        self.event("load", "", (self.freeze(b), k), {}, r, e, raw=(b, k))
        return r

    def evslice(self, s):
        if isinstance(s, ast.Slice):
            lo = NONE if s.lower is None else self.val(self.ev(s.lower))
            hi = NONE if s.upper is None else self.val(self.ev(s.upper))
            st = NONE if s.step is None else self.val(self.ev(s.step))
            return mk("slice", lo, hi, st)
        if isinstance(s, ast.Tuple):
            return trailing([self.evslice(x) for x in s.elts])
        v = self.ev(s)
        if v.op == "tup":
            return trailing([self.freeze(x) for x in v.a])
        return self.freeze(v)

    def e_Slice(self, e):
        return self.evslice(e)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(S(v.value))
            elif isinstance(v, ast.FormattedValue):
                x = self.freeze(self.ev(v.value))
                spec = NONE if v.format_spec is None else self.ev(v.format_spec)
                if spec is NONE and v.conversion == -1 and x.op == "str":
                    parts.append(x)
                else:
                    parts.append(mk("fmt", x, spec))
        if all(p.op == "str" for p in parts):
            return S("".join(p.a[0] for p in parts))
        return mk("fstr", *parts)

    def e_FormattedValue(self, e):
        return mk("fmt", self.freeze(self.ev(e.value)), NONE)

    def e_Lambda(self, e):
        k = len(self.lambdas)
        self.lambdas[k] = (e, self.fr.env, self.fr.mod, self.fr.fn)
        return mk("lambda", k)

    def e_Await(self, e):
        return mk("opaque", "await", e.lineno)

    def e_Yield(self, e):
        v = NONE if e.value is None else self.ev(e.value)
        if self.fr.yield_cb:
            self.fr.yield_cb(v, e)
        return NONE

    # comprehensions -----------------------------------------------------
    def comp(self, e, kind):
        c = self.new_cell(kind, mk({"list": "list", "set": "setlit", "dict": "dict"}[kind]), e)
        env0 = self.fr.env
        self.fr.env = dict(env0)
        gens = e.generators
        pc_outer = self.pc

        def go(i):
            if i == len(gens):
                if kind == "dict":
                    k = self.freeze(self.ev(e.key))
                    v = self.ev(e.value)
                    self.log(c.t, "set", k, v, e)
                elif kind == "set":
                    k = self.freeze(self.ev(e.elt))
                    self.log(c.t, "add", k, TRUE, e)
                else:
                    self.log(c.t, "append", None, self.ev(e.elt), e)
                return
            g = gens[i]
            it = self.ev(g.iter)
            names = target_names(g.target)

            def body():
                pc0 = self.pc
                for t in g.ifs:
                    self.assume(truth(self.truthval(self.ev(t))))
                    if self.pc is None:
                        break
                if self.pc is not None:
                    go(i + 1)
                self.pc = pc0

            for n in names:
                self.fr.env.pop(n, None)
            self.for_loop(it, lambda x: self.assign(g.target, x, e), body, set(), e)

        go(0)
        self.fr.env = env0
        self.pc = pc_outer
        return c.t

    def e_ListComp(self, e):
        return self.comp(e, "list")

    def e_GeneratorExp(self, e):
        return self.comp(e, "list")

    def e_SetComp(self, e):
        return self.comp(e, "set")

    def e_DictComp(self, e):
        return self.comp(e, "dict")

    # ------------------------------------------------------------ calls
    def ev_callee(self, f):
        return self.ev(f)

    def evargs(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                fv = v
                if v.op == "cell":
                    el = self.list_elems(self.cells[v.a[0]])
                    if el is not None:
                        args.extend(el)
                        continue
                if v.op in ("tup", "list"):
                    args.extend(v.a)
                    continue
                args.append(mk("splat", self.freeze(fv)))
            else:
                args.append(self.ev(a))
        kws = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value)
                d = None
                if v.op == "cell":
                    d = self.dict_elems(self.cells[v.a[0]])
                if d is not None and all(x.op == "str" for x, _ in d):
                    for x, y in d:
                        kws[x.a[0]] = y
                else:
                    kws["**"] = self.freeze(v)
            else:
                kws[k.arg] = self.ev(k.value)
        return args, kws

    def e_Call(self, e):
        f = e.func
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value)
            if b.op not in ("lib", "mod", "pkg") and not (b.op == "cls"):
                args, kws = self.evargs(e)
                return self.method(b, f.attr, args, kws, e)
            fn = self.attr(b, f.attr, f)
        else:
            fn = self.ev(f)
        args, kws = self.evargs(e)
        return self.call(fn, args, kws, e)

    def call(self, fn, args, kws, node):
        if self.pc is None:
            return mk("dead")
        if any(a.op == "genobj" for a in args):
            args = [self.generated(a) for a in args]
        if fn.op == "gamma":
            pc0 = self.pc
            c = simp_bool(fn.a[0], self.facts)
            if c is TRUE:
                return self.call(fn.a[1], args, kws, node)
            if c is FALSE:
                return self.call(fn.a[2], args, kws, node)
            self.assume(c)
            a = self.call(fn.a[1], args, kws, node) if self.pc is not None else NONE
            self.pc = pc0
            self.assume(b_not(c))
            b = self.call(fn.a[2], args, kws, node) if self.pc is not None else NONE
            self.pc = pc0
            return gamma(c, a, b)
        if fn.op == "missing":
            return mk("dead")
        if fn.op == "lambda":
            return self.call_lambda(fn, args, kws, node)
        if fn.op == "fn":
            return self.call_repo(fn.a[0], args, kws, node)
        if fn.op == "lib":
            return self.call_lib(fn.a[0], args, kws, node)
        if fn.op == "attr":
            return self.method(fn.a[0], fn.a[1], args, kws, node)
        if fn.op == "partial":
            kk = dict(zip([x.a[0] for x in fn.a[2].a], fn.a[3].a))
            kk.update(kws)
            return self.call(fn.a[0], list(fn.a[1].a) + args, kk, node)
        fa = tuple(self.freeze(x) for x in args)
        r = mk("call", show(fn, 3), *fa, *[mk("kw", k, self.freeze(v)) for k, v in sorted(kws.items())])
        self.event("call", show(fn, 3), fa, {k: self.freeze(v) for k, v in kws.items()}, r, node, raw=tuple(args))
        return r

    def call_lambda(self, fn, args, kws, node):
        d, env, mod, fname = self.lambdas[fn.a[0]]
        if len(self.frames) >= self.MAXDEPTH:
            return mk("opaque", "depth", getattr(node, "lineno", 0))
        fake = Func(f"{fname}.<{getattr(d, 'name', 'lambda')}>", self.repo.modules[mod], d) if isinstance(
            d, ast.FunctionDef) else None
        if fake is None:
            a = d.args
            params = [x.arg for x in a.posonlyargs + a.args]
            loc = {}
            nd = len(a.defaults)
            for p, dv in zip(params[len(params) - nd:], a.defaults):
                loc[p] = self.ev(dv)
            for p, v in zip(params, args):
                loc[p] = v
            for x in a.kwonlyargs:
                if x.arg in kws:
                    loc[x.arg] = kws[x.arg]
            for k, v in kws.items():
                loc[k] = v
            fr = Frame(fname, mod, loc, self.pc)
            fr.closure = [env] + list(getattr(self.fr, "closure", []))
            fr.nloops = len(self.loops)
            fr.lam = d
            self.frames.append(fr)
            r = self.ev(d.body)
            self.frames.pop()
            return r
        loc = self.bind(fake, args, kws, node)
        return self.inline_body(fake, loc, node, closure=[env])

    def bind(self, f, args, kws, node):
        env = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(f.params):
                env[f.params[i]] = v
            else:
                extra.append(v)
        bad = []
        if extra and not f.vararg:
            bad.append("too many positional arguments")
        if f.vararg:
            env[f.vararg] = tup(*extra)
        for k, v in kws.items():
            if k in f.all_params:
                if k in env:
                    bad.append(f"argument {k} given twice")
                env[k] = v
            elif f.kwarg:
                pass
            elif k != "**":
                bad.append(f"unexpected keyword {k}")
        if f.kwarg:
            env[f.kwarg] = mk("opaque", "kwargs", 0)
        for p in f.all_params:
            if p not in env:
                if p in f.defaults:
                    sub_ = Exec(self.repo)
                    sub_.frames.append(Frame(f.qual, f.mod.name, {}, ()))
                    sub_._glob = self._glob
                    env[p] = sub_.freeze(sub_.ev(f.defaults[p]))
                elif "**" in kws or any(a.op == "splat" for a in args):
                    env[p] = mk("opaque", "splat", 0)
                else:
                    bad.append(f"missing argument {p}")
                    env[p] = mk("unbound", "")
        if bad:
            self.event("badcall", f.qual, (), {}, None, node, extra=bad)
        return env

    def is_opaque(self, qual):
        if qual in self.opaque_extra:
            return True
        if qual in self.inline:
            return False
        return qual in KNOWN

    def call_repo(self, qual, args, kws, node):
        f = self.repo.funcs[qual]
        env = self.bind(f, args, kws, node)
        rec = any(fr.fn == qual for fr in self.frames)
        if f.is_gen and not rec and len(self.frames) < self.MAXDEPTH:
            self.gens.append([f, env, node, None])
            return mk("genobj", len(self.gens) - 1)
        if self.is_opaque(qual) or rec or len(self.frames) >= self.MAXDEPTH or f.is_gen:
            fa = tuple(self.freeze(env[p]) for p in f.all_params)
            raw = tuple(env[p] for p in f.all_params)
            extra = ()
            if f.vararg:
                extra = (self.freeze(env[f.vararg]),)
            r = mk("call", qual, *fa, *extra)
            ev = self.event("call", qual, fa, {}, r, node, raw=raw)
            for p in self.repo_mods(qual):
                if p in env and env[p].op not in ("none", "num", "str"):
                    self.mutate_arg(env[p], "ext", tup(S(qual), S(p), r), node)
            return r
        self.event("enter", qual, tuple(self.freeze(env[p]) for p in f.all_params), {}, None, node,
                   raw=tuple(env[p] for p in f.all_params))
        return self.inline_body(f, env, node)

    def mutate_arg(self, t, kind, val, node):
        if t.op == "gamma":
            pc0 = self.pc
            for c, x in ((t.a[0], t.a[1]), (b_not(t.a[0]), t.a[2])):
                self.pc = pc0
                self.assume(c)
                if self.pc is not None:
                    self.mutate_arg(x, kind, val, node)
            self.pc = pc0
            return
        if t.op in ("none", "num", "str", "bool", "tup"):
            return
        self.log(t, kind, None, val, node)

    def inline_body(self, f, env, node, closure=None):
        fr = Frame(f.qual, f.mod.name, env, self.pc)
        fr.nloops = len(self.loops)
        if closure:
            fr.closure = closure + list(getattr(self.fr, "closure", []))
        self.frames.append(fr)
        pc0 = self.pc
        loops0 = self.loops
        self.block(f.node.body)
        val = self.finish(fr)
        # control comes back on any returning path
        rel = []
        n = len(pc0)
        for pc, v, loops, nd, _ in fr.returns + ([(self.pc, NONE, self.loops, None, 0)] if self.pc is not None else []):
            c = b_and(*pc[n:])
            for L in reversed(loops[fr.nloops:]):
                c = mk("ex", L.lv, c) if c not in (TRUE, FALSE) else c
            rel.append(c)
        self.frames.pop()
        self.loops = loops0
        if not rel:
            self.pc = None
            return mk("dead")
        tot = simp_bool(b_or(*rel), literals(pc0))
        # returns inside loops make the exact condition awkward: keep only conjunctive facts
        if tot is TRUE or any(len(x[2]) > fr.nloops for x in fr.returns):
            self.pc = pc0
        else:
            self.pc = pc0 + tuple(sorted(literals([tot]), key=lambda t: t.n))
        return val

    _mods_cache = {}

    def repo_mods(self, qual):
        """names of parameters whose objects the function may change (directly or through callees)"""
        if qual in KNOWN:
            return MODS.get(qual, ())
        key = (id(self.repo), qual)
        if key in Exec._mods_cache:
            return Exec._mods_cache[key]
        Exec._mods_cache[key] = ()
        ex = Exec(self.repo)
        ex.mods_only = True
        try:
            ex.run(qual)
        except RecursionError:
            return ()
        out = mutated_params(ex)
        f = self.repo.funcs[qual]
        res = tuple(p for p in f.all_params if p in out)
        Exec._mods_cache[key] = res
        return res

    # -------------------------------------------------------- library calls
    def call_lib(self, d, args, kws, node):
        short = d.replace("numpy.", "np.", 1) if d.startswith("numpy.") else d
        fa = [self.freeze(x) for x in args]
        fk = {k: self.freeze(v) for k, v in kws.items()}
        r = self._lib(short, args, kws, fa, fk, node)
        self.event("call", short, tuple(fa), fk, r, node, raw=tuple(args))
        return r

    def _lib(self, d, args, kws, fa, fk, node):
        n = len(args)
        base = d.split(".")[-1]
        mathy = d.split(".")[0] in ("math", "np", "cmath", "scipy") or "." not in d
        if n == 1 and not kws and d.split(".")[0] in ("math", "np", "cmath"):
            x = self.as_number(self.val(args[0]))
            if base == "sqrt":
                return fn_sqrt(x)
            if base in ("conj", "conjugate"):
                return conj(x)
            if base in ("abs", "absolute", "fabs"):
                return fn_abs(x)
            if base == "exp":
                return fn_exp(x)
            if base == "real":
                return re_part(x)
            if base == "imag":
                return im_part(x)
            if base == "transpose":
                return x.a[0] if x.op == "transpose" else mk("transpose", x)
            if base == "square":
                return power(x, num(2))
            if base == "negative":
                return neg(x)
            if base == "shape":
                return mk("shape", x)
        if d == "np.sum" and n == 1 and not kws:
            x = self.val(args[0])
            if args[0].op == "cell":
                s = self.reduce(args[0], "sum")
                if s is not None:
                    return s
            if x.op == "abs2":
                return mk("norm2", x.a[0])
            return mk("npsum", x)
        if d == "np.sum":
            ax = fk.get("axis", fa[1] if n > 1 else NONE)
            return mk("npsum", fa[0], ax)
        if d in ("np.dot", "np.matmul") and n == 2:
            return mk("dot", fa[0], fa[1])
        if d == "np.vdot" and n == 2:
            return mk("inner", fa[0], fa[1])
        if d == "np.linalg.norm" and n == 1 and not kws:
            return fn_sqrt(mk("norm2", fa[0]))
        if d in ("pow", "np.power", "math.pow") and n == 2:
            return power(self.as_number(fa[0]), self.as_number(fa[1]))
        if d in ("np.add", "operator.add") and n == 2:
            return add(fa[0], fa[1])
        if d in ("np.subtract", "operator.sub") and n == 2:
            return sub(fa[0], fa[1])
        if d in ("np.multiply", "operator.mul") and n == 2:
            return mul(fa[0], fa[1])
        if d in ("np.divide", "np.true_divide", "operator.truediv") and n == 2:
            return div(fa[0], fa[1])
        if d == "abs" and n == 1:
            return fn_abs(self.as_number(fa[0]))
        if d == "sum":
            if args[0].op == "cell" and self.cells[args[0].a[0]].kind == "list":
                s = self.reduce(args[0], "sum")
                if s is not None:
                    return add(s, fa[1]) if n > 1 else s
            sp = self.try_spec(args[0])
            if sp is not None:
                if sp.const is not None:
                    s = add(*[self.as_number(self.val(x)) for x in sp.const]) if sp.const else ZERO
                    return add(s, fa[1]) if n > 1 else s
                if sp.count is not None and sp.elem is not None and fa[0].op in ("values", "keys", "range"):
                    lv = self.fresh_lv(sp.count)
                    return loop_sum(lv, sp.count, sp.elem(lv))
            return mk("call", "sum", *fa)
        if d in ("any", "all") and n == 1:
            if args[0].op == "cell":
                s = self.reduce(args[0], d)
                if s is not None:
                    return s
            return truth(mk("call", d, *fa))
        if d == "math.prod" and n == 1 and args[0].op == "cell":
            s = self.reduce(args[0], "prod")
            if s is not None:
                return s
        if d == "math.fsum" and n == 1 and args[0].op == "cell":
            s = self.reduce(args[0], "sum")
            if s is not None:
                return s
        if d == "range":
            v = [self.val(x) for x in args]
            if n == 1:
                return mk("range", ZERO, v[0], ONE)
            if n == 2:
                return mk("range", v[0], v[1], ONE)
            return mk("range", *v)
        if d == "np.arange" and n in (1, 2) and not kws:
            v = [self.val(x) for x in args]
            return mk("range", ZERO, v[0], ONE) if n == 1 else mk("range", v[0], v[1], ONE)
        if d == "enumerate":
            return mk("enumerate", args[0], fa[1] if n > 1 else fk.get("start", ZERO))
        if d == "zip":
            return mk("zip", *args)
        if d == "reversed" and n == 1:
            return rev(args[0])
        if d == "itertools.product" and n >= 1:
            rp = fk.get("repeat")
            a = list(args)
            if rp is not None and as_int(rp) is not None:
                a = a * as_int(rp)
            if any(x.op == "splat" for x in a):
                return mk("call", "itertools.product", *fa)
            return mk("product", *a)
        if d in ("map", "filter") and n == 2:
            c = self.new_cell("list", mk("list"), node)

            def bd(x):
                self._mapx = x

            def body():
                x = self._mapx
                if d == "map":
                    self.log(c.t, "append", None, self.call(args[0], [x], {}, node), node)
                else:
                    pc0 = self.pc
                    self.assume(truth(self.call(args[0], [x], {}, node)))
                    if self.pc is not None:
                        self.log(c.t, "append", None, x, node)
                    self.pc = pc0

            if args[0].op in ("fn", "lambda", "lib"):
                self.for_loop(args[1], bd, body, set(), node)
                return c.t
        if d == "len" and n == 1:
            x = args[0]
            if x.op == "cell":
                c = self.cells[x.a[0]]
                e = self.list_elems(c) if c.kind == "list" else self.dict_elems(c) if c.kind in ("dict", "set") else \
                    None
                if e is not None:
                    return num(len(e))
                if c.kind == "list":
                    s = self.reduce(x, "count")
                    if s is not None and not any(u.op == "sum" for u in subterms(s)):
                        return s
            return length(fa[0])
        if d in ("list",):
            if n == 0:
                return self.mklist([], node)
            x = args[0]
            if x.op in ("tup", "list"):
                return self.mklist(list(x.a), node)
            if x.op == "cell" and self.cells[x.a[0]].kind == "list":
                e = self.list_elems(self.cells[x.a[0]])
                if e is not None:
                    return self.mklist(e, node)
                c = self.new_cell("list", self.freeze(x), node)
                return c.t
            if x.op in ("items", "keys", "values", "enumerate", "zip", "rev", "product", "sorted"):
                return mk("seq", mk(x.op, *[self.freeze(y) if isinstance(y, T) and x.op != "product" else y for y in
                                            x.a]))
            c = self.new_cell("list", mk("seq", self.freeze(x)), node)
            return c.t
        if d == "tuple":
            if n == 0:
                return tup()
            x = args[0]
            if x.op in ("tup", "list"):
                return tup(*x.a)
            if x.op == "cell":
                e = self.list_elems(self.cells[x.a[0]])
                if e is not None:
                    return tup(*e)
                return mk("tuple", self.freeze(x))
            return mk("tuple", self.freeze(x))
        if d in ("set", "frozenset"):
            if n == 0:
                if d == "set":
                    return self.new_cell("set", mk("setlit"), node).t
                return mk("setlit")
            x = self.unwrapped(args[0])
            if d == "set":
                return self.new_cell("set", mk("set", self.freeze(x)), node).t
            return mk("frozenset", self.freeze(x))
        if d in ("dict", "collections.OrderedDict"):
            if n == 0:
                return self.new_cell("dict", mk("dict", *[tup(S(k), v) for k, v in kws.items()]), node).t
            x = args[0]
            if x.op == "zip" and len(x.a) == 2:
                return self.new_cell("dict", mk("dictzip", self.freeze(x.a[0]), self.freeze(x.a[1])), node).t
            return self.new_cell("dict", self.freeze(x), node).t
        if d == "collections.defaultdict":
            c = self.new_cell("dict", mk("dict"), node)
            c.name = ("default", fa[0] if fa else NONE)
            c.init = mk("defaultdict", fa[0] if fa else NONE)
            return c.t
        if d in ("np.zeros", "np.empty", "np.ones", "np.full"):
            nm = {"np.zeros": "zeros", "np.empty": "empty", "np.ones": "ones", "np.full": "full"}[d]
            na = 2 if nm == "full" else 1
            dt = fk.get("dtype", fa[na] if len(fa) > na else None)
            dt = () if dt is None or dtype_name(dt) == "float" else (S(dtype_name(dt)),)
            return self.new_cell("array", mk(nm, *fa[:na], *[x for k, x in sorted(fk.items()) if
                                                              k in ("shape", "fill_value")], *dt), node).t
        if d in ("np.zeros_like", "np.empty_like", "np.ones_like"):
            return self.new_cell("array", mk(base[:-5], mk("shape", fa[0]), S("?")), node).t
        if d in ("np.copy", "copy.copy", "copy.deepcopy") and n == 1:
            return self.copyof(args[0], node)
        if d in ("np.array", "np.asarray") and n >= 1:
            x = args[0]
            if d == "np.asarray":
                return x if x.op != "cell" or self.cells[x.a[0]].kind == "array" else mk("nparray", fa[0])
            return mk("nparray", fa[0])
        if d == "np.angle" and n == 1 and all(re == 0 or im == 0 for re, im in poly(fa[0]).values()) and fa[0].op == "poly":
            # of real quantities
            parts = [unpoly({m: (c[k], F(0)) for m, c in poly(fa[0]).items() if c[k]}) for k in (1, 0)]
            if not any(x.op in ("conj", "exp") for t in parts for x in subterms(t)):
                return mk("call", "np.arctan2", *parts)
        if d == "np.eye" or d == "np.identity":
            return mk("eye", fa[0])
        if d in ("float", "complex", "np.float64", "np.complex128") and n == 1:
            return self.as_number(self.val(args[0])) if fa[0].op != "str" else mk("call", d, *fa)
        if d == "complex" and n == 2 and not any(x.op in ("str", "tup", "list", "none") for x in fa):
            return add(self.as_number(self.val(args[0])), mul(J, self.as_number(self.val(args[1]))))
        if d == "bool" and n == 1:
            return self.truthval(args[0])
        if d == "int" and n == 1:
            x = self.as_number(self.val(args[0]))

            def as_integer(x):
                if x.op == "gamma":
                    return gamma(x.a[0], as_integer(x.a[1]), as_integer(x.a[2]))
                if as_int(x) is not None or x.op in ("len", "rank", "nranks", "lv", "sgnpow"):
                    return x
                return mk("int", x)

            return as_integer(x)
        if d in ("divmod",) and n == 2:
            a_, b_ = fa
            return tup(self.binop(ast.FloorDiv(), a_, b_, node), self.binop(ast.Mod(), a_, b_, node))
        if d == "isinstance" and n == 2:
            t = args[1]
            nm = [show(x, 2) for x in t.a] if t.op == "tup" else [t.a[0] if t.op == "lib" else show(t, 2)]
            if fa[0].op == "tup" and nm == ["tuple"]:
                return TRUE
            if fa[0].op == "num" and nm == ["tuple"]:
                return FALSE
            return b_or(*[mk("isinstance", fa[0], x) for x in nm])
        if d == "sorted":
            if fk.get("key") is not None and fk["key"].op == "lambda":
                me = mk("sortedby")
                try:
                    by = self.freeze(self.call(fk["key"], [me], {}, node))
                except Exception:
                    by = None
                if by is me:
                    fk = {k: v for k, v in fk.items() if k != "key"}
                elif by is not None:
                    fk = dict(fk, key=mk("by", by))
            if fk.get("reverse") is FALSE:
                fk = {k: v for k, v in fk.items() if k != "reverse"}
            key = tuple(mk("kw", k, v) for k, v in sorted(fk.items()))
            x = fa[0]
            while x.op in ("tuple", "seq") and len(x.a) == 1 and isinstance(x.a[0], T):
                x = x.a[0]
            return mk("sorted", x, *key)
        if d in ("np.amin", "np.amax"):
            d = "np." + base[1:]
        if d in ("min", "max") and n == 1 and not kws and fa[0].op in ("tup", "list") and len(fa[0].a) == 2:
            fa, n = list(fa[0].a), 2
        if d in ("min", "max") and n == 1 and not kws:
            return mk("call", "np." + d, fa[0])
        if d in ("min", "max", "np.minimum", "np.maximum") and n == 2 and not kws:
            d = d[3:6] if d[:3] == "np." else d
            a_, b_ = self.as_number(fa[0]), self.as_number(fa[1])
            x, y = sorted((a_, b_), key=lambda t: t.n)
            for u, v in ((x, y), (y, x)):
                if u.op == "num" and u.a[1] == 0 and u.a[0] <= 0 and not_negative(v):
                    return v if d[:3] == "max" else u
            return mk(d, x, y)
        if d in ("locals", "globals", "vars"):
            return mk("locals")
        if d == "print":
            return NONE
        if d == "functools.partial" and n >= 1:
            return mk("partial", args[0], tup(*args[1:]), tup(*[S(k) for k in kws]), tup(*kws.values()))
        if d == "argparse.ArgumentParser":
            return mk("parser")
        if d == "vars" and n == 1 and fa[0].op == "cmdline":
            return mk("optdict")
        if d == "getattr" and n == 2 and fa[1].op == "str":
            return self.attr(args[0], fa[1].a[0], node)
        if d in ("sys.exit", "exit", "quit", "os._exit"):
            self.event("raise", "SystemExit", tuple(fa), {}, None, node)
            self.pc = None
            return mk("dead")
        if d == "slice":
            v = fa + [NONE] * 3
            if n == 1:
                return mk("slice", NONE, v[0], NONE)
            return mk("slice", v[0], v[1], v[2])
        if d in ("iter",):
            return args[0]
        if d == "next" and n >= 1:
            self.wl += 1
            return mk("next", fa[0], *fa[1:])
        if d == "np.fill_diagonal" and n == 2:
            self.log(args[0], "filldiag", None, fa[1], node)
            return NONE
        if d.endswith("csr_matrix") and n >= 1:
            pass
        if d in IMPURE:
            self.wl += 1
            return mk("call", d, *fa, mk("nonce", self.wl))
        if d == "time.time" or d.startswith("random") or d.startswith("np.random"):
            self.wl += 1
            return mk("call", d, *fa, mk("nonce", self.wl))
        if d == "bitarray.bitarray":
            x = fa[0] if fa else ZERO
            return self.new_cell("bits", mk("bits", x), node).t
        if d in ("np.put", "np.place", "np.copyto", "np.random.shuffle", "random.shuffle", "heapq.heapify",
                 "np.add.at", "np.putmask", "bisect.insort") and n:
            self.mutate_arg(args[0], "ext", tup(S(d)), node)
        out = fk.get("out")
        if "out" in kws and kws["out"].op not in ("none",):
            self.mutate_arg(kws["out"], "ext", tup(S(d)), node)
        return mk("call", d, *fa, *[mk("kw", k, v) for k, v in sorted(fk.items())])

    def unwrapped(self, x):
        """what matters of an argument whose order and repetitions do not matter"""
        while True:
            if x.op in ("keys", "tuple", "seq", "set", "frozenset", "sorted") and len(x.a) == 1 and isinstance(x.a[0], T):
                x = x.a[0]
            elif x.op == "cell" and not self.cells[x.a[0]].log and self.cells[x.a[0]].init is not None and \
                    self.cells[x.a[0]].init.op in ("seq", "set", "tuple", "frozenset", "sorted"):
                x = self.cells[x.a[0]].init
            else:
                return x

    def fresh_lv(self, count):
        key = count_of(count)
        level = sum(1 for L in self.loops if L.key is key)
        return mk("lv", key, level)

    def try_spec(self, t):
        try:
            return self.spec(t)
        except Exception:
            return None

    def copyof(self, t, node):
        kind = "copy"
        if t.op == "cell":
            kind = self.cells[t.a[0]].kind
        elif self.dictlike(t):
            kind = "dict"
        c = self.new_cell(kind, self.freeze(t), node)
        return c.t

    def reduce(self, t, how):
        """sum/any/all/prod/count over a comprehension-like list"""
        c = self.cells[t.a[0]]
        if c.kind != "list" or c.init is None or c.init.op != "list":
            return None
        vals = []
        for x in c.init.a:
            vals.append((TRUE, (), x))
        for u in c.log:
            if u.kind == "mu":
                continue
            if u.kind != "append" or u.loops[: len(c.loops)] != c.loops:
                return None
            rel = self._pcrel(u.pc, c.pc)
            extra = u.loops[len(c.loops):]
            if any(L.exits or L.kind != "for" for L in extra):
                return None
            vals.append((b_and(*rel), extra, u.val))
        if how in ("any", "all"):
            out = []
            for g, loops, v in vals:
                v = self.truthval(v)
                x = b_and(g, v) if how == "any" else b_or(b_not(g), v)
                for L in reversed(loops):
                    if x not in (TRUE, FALSE):
                        x = mk("ex" if how == "any" else "all", L.lv, x)
                out.append(x)
            return b_or(*out) if how == "any" else b_and(*out)
        if how in ("sum", "count"):
            tot = ZERO
            for g, loops, v in vals:
                v = self.as_number(self.val(v)) if how == "sum" else ONE
                if self.is_seq(v):
                    return None
                x = gamma(g, v, ZERO)
                for L in reversed(loops):
                    x = loop_sum(L.lv, L.count, x)
                tot = add(tot, x)
            return tot
        if how == "prod":
            tot = ONE
            for g, loops, v in vals:
                x = gamma(g, self.as_number(self.val(v)), ONE)
                for L in reversed(loops):
                    x = mk("prod", L.lv, x)
                tot = mul(tot, x)
            return tot
        return None

    # -------------------------------------------------------- methods
    def method(self, b, m, args, kws, node):
        if self.pc is None:
            return mk("dead")
        if b.op == "gamma":
            pc0 = self.pc
            c = simp_bool(b.a[0], self.facts)
            if c is TRUE:
                return self.method(b.a[1], m, args, kws, node)
            if c is FALSE:
                return self.method(b.a[2], m, args, kws, node)
            self.assume(c)
            x = self.method(b.a[1], m, args, kws, node) if self.pc is not None else NONE
            self.pc = pc0
            self.assume(b_not(c))
            y = self.method(b.a[2], m, args, kws, node) if self.pc is not None else NONE
            self.pc = pc0
            return gamma(c, x, y)
        fa = tuple(self.freeze(x) for x in args)
        fk = {k: self.freeze(v) for k, v in kws.items()}
        if b.op == "comm":
            return self.mpi(m, args, kws, fa, fk, node)
        if b.op == "parser":
            if m in ("error", "exit"):
                self.event("raise", "parser." + m, fa, {}, None, node)
                self.pc = None
                return mk("dead")
            r = mk("cmdline") if m == "parse_args" else mk("parser") if m == "add_argument_group" else NONE
            self.event("meth", m, (b,) + fa, fk, r, node)
            return r
        fb = self.freeze(b)
        pos = len(self.events)
        r = self._meth(b, fb, m, args, kws, fa, fk, node)
        if self.pc is not None:
            self.event("meth", m, (fb,) + fa, fk, r, node, raw=(b,) + tuple(args))
        return r

    def mpi(self, m, args, kws, fa, fk, node):
        if m == "Get_rank":
            return mk("rank")
        if m == "Get_size":
            return mk("nranks")
        pos = ROOTED.get(m)
        if pos is not None and not any(x.op == "splat" for x in fa) and "**" not in kws:
            args, kws = list(args), dict(kws)
            if len(args) > pos and "root" not in kws:
                kws["root"] = args.pop(pos)
            kws.setdefault("root", ZERO)
            if m in ("reduce", "Reduce"):
                if len(args) == pos and "op" not in kws:
                    kws["op"] = args.pop(pos - 1)
                if "op" in kws and show(kws["op"]).endswith("MPI.SUM"):
                    del kws["op"]
            fa = tuple(self.freeze(x) for x in args)
            fk = {k: self.freeze(v) for k, v in kws.items()}
        self.wl += 1
        r = mk("mpi", m, self.wl, *fa, *[mk("kw", k, v) for k, v in sorted(fk.items())])
        self.event("mpi", m, fa, fk, r, node, raw=tuple(args), extra={k: v for k, v in kws.items()})
        # buffers
        if m in ("Bcast", "Recv", "Irecv"):
            if args:
                self.mutate_arg(self.bufroot(args[0]), "mpi", r, node)
        elif m in ("Reduce", "Allreduce", "Gather", "Allgather", "Scatter", "Alltoall"):
            t = args[1] if len(args) > 1 else kws.get("recvbuf")
            if t is not None:
                self.mutate_arg(self.bufroot(t), "mpi", r, node)
        return r

    def bufroot(self, t):
        # a view such as v[1, :] of an array: attribute the write to the array
        if t.op in ("get", "muget", "idx"):
            return t
        return t

    def _meth(self, b, fb, m, args, kws, fa, fk, node):
        n = len(args)
        kind = self.cells[b.a[0]].kind if b.op == "cell" else None
        if m in ("items", "keys", "values") and n == 0:
            return mk(m, b)
        if m in ("conj", "conjugate") and n == 0:
            return conj(self.val(b))
        if m == "copy" and n == 0:
            return self.copyof(b, node)
        if m == "transpose" and n == 0:
            return self.attr(b, "T", node)
        if m in ("dot",) and n == 1:
            return mk("dot", fb, fa[0])
        if m in ("todense", "toarray", "tocsr", "tocsc", "tocoo") and n == 0:
            return mk("toarray", fb)
        if m == "append" and n == 1:
            self.log(b, "append", None, args[0], node)
            return NONE
        if m == "extend" and n == 1:
            x = args[0]
            fx = fa[0]
            if b.op == "cell" and kind == "list":
                if fx.op in ("list", "tup") and len(fx.a) <= 24:
                    src = self.list_elems(self.cells[x.a[0]]) if x.op == "cell" else list(fx.a)
                    for y in src if src is not None else fx.a:
                        self.log(b, "append", None, y, node)
                    return NONE
                if x.op == "cell":
                    sp = self.comp_spec(self.cells[x.a[0]])
                    if sp is not None:
                        holder = []
                        self.for_loop(x, lambda v: holder.append(v),
                                      lambda: self.log(b, "append", None, holder.pop(), node), set(), node)
                        return NONE
            self.log(b, "extend", None, fx, node)
            return NONE
        if m == "add" and n == 1 and (kind in ("set",) or b.op == "param"):
            self.log(b, "add", fa[0], TRUE, node)
            return NONE
        if m == "get" and n in (1, 2) and (kind == "dict" or self.dictlike(b) or b.op in ("idx", "param", "snap",
                                                                                         "get", "call")):
            dflt = args[1] if n == 2 else NONE
            c = self.contains(fa[0], b)
            v = self.idx(b, fa[0])
            r = gamma(c, v, dflt)
            self.event("load", "get", (fb, fa[0]), {}, r, node, raw=(b, fa[0]))
            return r
        if m == "setdefault" and n in (1, 2):
            dflt = args[1] if n == 2 else NONE
            c = self.contains(fa[0], b)
            pc0 = self.pc
            old = self.idx(b, fa[0])
            self.assume(b_not(c))
            if self.pc is not None:
                self.log(b, "set", fa[0], dflt, node, extra="setdefault")
            self.pc = pc0
            return gamma(c, old, dflt)
        if m == "pop" and (kind in ("dict", "list", "set") or b.op in ("param", "idx", "call", "get", "cell", "loc")):
            old = self.idx(b, fa[0]) if n else mk("popped", fb)
            if n == 2:
                c = self.contains(fa[0], b)
                if args[1] is NONE:
                    self.log(b, "pop", fa[0], None, node)
                    return gamma(c, old, NONE)
                pc0 = self.pc
                self.assume(c)
                if self.pc is not None:
                    self.log(b, "pop", fa[0], None, node)
                self.pc = pc0
                return gamma(c, old, args[1])
            self.log(b, "pop", fa[0] if n else None, None, node)
            return old
        if m == "update" and n == 1:
            x = args[0]
            if kind == "set":
                self.log(b, "update", None, fa[0], node)
            else:
                if b.op == "cell" and fa[0].op == "dict":
                    for p in fa[0].a:
                        self.log(b, "set", p.a[0], p.a[1], node)
                else:
                    self.log(b, "update", None, fa[0], node, extra=x)
            return NONE
        if m == "update" and kws:
            for k, v in kws.items():
                self.log(b, "set", S(k), v, node)
            return NONE
        if m in MUTATORS:
            if m == "frombytes":
                self.log(b, "frombytes", None, fa[0], node)
                return NONE
            self.log(b, m, None, tup(*fa), node)
            return NONE if m not in ("popitem",) else mk("popped", fb)
        if m == "real" or m == "imag":
            pass
        if m in ("min", "max") and not kws and n == 0:
            return mk("call", "np." + m, fb)
        if m in ("mean", "sum") and not kws and n == 0:
            return mk("npsum", fb) if m == "sum" else mk("npmean", fb)
        if m == "sum":
            return mk("npsum", fb, fk.get("axis", fa[0] if fa else NONE))
        if m == "format" and b.op == "str":
            return mk("meth", "format", b, *fa)
        if m == "create_dataset":
            return mk("meth", m, fb, *fa)
        if m == "__getitem__" and n == 1:
            return self.idx(b, fa[0])
        if m == "tolist" and n == 0 and b.op in ("range", "nparray"):
            return self._lib("list", [b if b.op == "range" else b.a[0]], {}, [fb], {}, node)
        if m == "__contains__" and n == 1:
            return self.contains(fa[0], b)
        if m == "__len__" and n == 0:
            return self._lib("len", [b], {}, [fb], {}, node)
        if m == "__setitem__" and n == 2:
            self.store(b, fa[0], args[1], node)
            return NONE
        if m == "__delitem__" and n == 1:
            self.log(b, "pop", fa[0], None, node)
            return NONE
        if m == "count" and b.op == "str":
            pass
        if b.op == "cell" and kind == "bits" and m in ("count", "to01", "tobytes", "tolist", "any", "all"):
            return mk("meth", m, fb, *fa)
        return mk("meth", m, fb, *fa, *[mk("kw", k, v) for k, v in sorted(fk.items())])


def trailing(ks):
    """x[i, :] is x[i]"""
    whole = mk("slice", NONE, NONE, NONE)
    if not any(k is whole or k.op == "ellipsis" for k in ks):
        return tup(*ks)
    ks = list(ks)
    while len(ks) > 1 and (ks[-1] is whole or ks[-1].op == "ellipsis"):
        ks.pop()
    return tup(*ks) if len(ks) > 1 else ks[0]


ROOTED = {"bcast": 1, "Bcast": 1, "gather": 1, "Gather": 2, "scatter": 1, "Scatter": 2, "reduce": 2, "Reduce": 3}


class Result:
    def __init__(self, ex, f, frame, value):
        self.ex, self.f, self.frame, self.value = ex, f, frame, value
        self.returns = frame.returns
        self.env = frame.env
        self.events = ex.events
        self.cells = ex.cells

    def calls(self, name):
        return [e for e in self.events if e.kind in ("call", "enter") and e.name == name]

    def cell(self, t):
        """the cell a value refers to (through snapshots)"""
        if t.op in ("cell", "snap"):
            return self.cells[t.a[0]]
        return self.ex.loccell.get(t)


# ---------------------------------------------------------------- helpers
DTYPES = {
    "np.float64": "float", "np.double": "float", "float64": "float", "d": "float", "np.complex128": "complex",
    "complex128": "complex", "D": "complex", "np.cdouble": "complex", "f": "float32", "<f4": "float32", "f4": "float32",
    "f8": "float", "c16": "complex", "np.complex_": "complex", "np.float_": "float", "np.int_": "int", "<c16": "complex", "<f8": "float", "np.single": "float32", "np.int64": "int", "int64": "int", "builtins.int": "int",
}


def dtype_name(t):
    n = str(t.a[0]) if t.op in ("lib", "str") else show(t)
    n = n.replace("numpy.", "np.")
    n = DTYPES.get(n, n)
    return n[3:] if n.startswith("np.") else n


def outside(k, sl):
    """a position that does not belong to a slice such as [:k] or [k + 1:]"""
    if k is None or sl is None or sl.op != "slice" or k.op not in ("param", "lv", "poly", "num", "idx"):
        return False
    lo, hi, st = sl.a
    if st is not NONE:
        return False
    if hi is not NONE and lo in (NONE, ZERO) and hi is k:
        return True
    return hi is NONE and lo is add(k, ONE)


def way(L):
    """the counter of a loop, where the order of the iterations matters"""
    return mk("backward", L.lv) if L.rev else L.lv


def rev(x):
    if x.op == "rev":
        return x.a[0]
    if x.op in ("list", "tup"):
        return mk(x.op, *reversed(x.a))
    if x.op == "seq":
        return rev(x.a[0])
    return mk("rev", x)


def length(x):
    if x.op in ("tup", "list", "setlit", "dict"):
        return num(len(x.a))
    if x.op == "str":
        return num(len(x.a[0]))
    if x.op in ("keys", "items", "values", "seq", "tuple", "sorted", "rev"):
        return length(x.a[0])
    if x.op == "enumerate":
        return length(x.a[0])
    if x.op == "range" and x.a[2] is ONE:
        return sub(x.a[1], x.a[0])
    if x.op == "nparray":
        return length(x.a[0])
    if x.op == "shape":
        return mk("len", x)
    return mk("len", x)


def concat(*ps):
    out = []
    for p in ps:
        for x in p.a if p.op == "concat" else (p,):
            if x.op == "str" and x.a[0] == "":
                continue
            if x.op in ("tup", "list") and not x.a:
                continue
            if out and x.op == "str" and out[-1].op == "str":
                out[-1] = S(out[-1].a[0] + x.a[0])
            elif out and x.op in ("tup", "list") and out[-1].op == x.op:
                out[-1] = mk(x.op, *(out[-1].a + x.a))
            else:
                out.append(x)
    if not out:
        return ps[0] if ps else S("")
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


def mod_(a, b):
    ib = as_int(b)
    if ib == 1 and as_int(a) is None:
        return sub(a, mk("int", a))
    if ib is not None and ib > 0:
        # reduce integer coefficients
        d = {}
        for m, c in poly(a).items():
            if c[1] == 0 and c[0].denominator == 1 and m != () and int(c[0]) % ib == 0 and all(k > 0 for _, k in m):
                continue
            if c[1] == 0 and c[0].denominator == 1 and (m == () or ib == 2 and all(k > 0 for _, k in m)):
                c = (F(int(c[0]) % ib), F(0))
            d[m] = c
        a2 = unpoly(d)
        if as_int(a2) is not None:
            return num(as_int(a2) % ib)
        if a2.op == "mod" and a2.a[1] is b:
            return a2
        return mk("mod", a2, b)
    return mk("mod", a, b)


def parity_sign(t):
    """1 - 2 * (n % 2) is (-1)**n"""
    if t.op != "poly":
        return t
    for m, c in poly(t).items():
        if len(m) == 1 and m[0][1] == 2 and m[0][0].op == "re":  # re**2 + im**2
            z = m[0][0].a[0]
            im = ((mk("im", z), 2),)
            if poly(t).get(im) == c:
                d = dict(poly(t))
                del d[m], d[im]
                return parity_sign(add(unpoly(d), scale(mul(z, conj(z)), c)))
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mod" and as_int(m[0][0].a[1]) == 2 and c[1] == 0 and \
                c[0].denominator == 1 and int(c[0]) % 2 == 0:
            h = c[0] / 2
            d = dict(poly(t))
            del d[m]
            return parity_sign(add(unpoly(d), num(h), scale(sgnpow(m[0][0].a[0]), (-h, F(0)))))
    return t


def loop_sum(lv, count, x):
    if x is ZERO:
        return ZERO
    if lv not in set(subterms(x)):
        if x.op == "gamma":
            return gamma(x.a[0], loop_sum(lv, count, x.a[1]), loop_sum(lv, count, x.a[2]))
        return mul(count, x) if count is not None else mk("sum", lv, x)
    if x.op == "poly":
        # constants factors out, sum of terms splits
        d = poly(x)
        if len(d) > 1:
            return add(*[loop_sum(lv, count, unpoly({m: c})) for m, c in d.items()])
        (m, c), = d.items()
        inner, outer = [], []
        for y, k in m:
            (inner if lv in set(subterms(y)) else outer).append((y, k))
        from .terms import C1
        o = unpoly({tuple(outer): c})
        i = unpoly({tuple(inner): C1})
        return mul(o, mk("sum", lv, i))
    return mk("sum", lv, x)


def delta(post, mu):
    """post - mu when post is mu plus something"""
    if post is mu:
        return ZERO
    if post.op == "gamma":
        a, b = delta(post.a[1], mu), delta(post.a[2], mu)
        if a is None or b is None:
            return None
        return gamma(post.a[0], a, b)
    d = poly(post)
    from .terms import C1
    if d.get(((mu, 1),)) == C1:
        r = sub(post, mu)
        return r
    return None


def ratio(post, mu):
    if post is mu:
        return ONE
    if post.op == "gamma":
        a, b = ratio(post.a[1], mu), ratio(post.a[2], mu)
        if a is None or b is None:
            return None
        return gamma(post.a[0], a, b)
    d = poly(post)
    out = {}
    for m, c in d.items():
        if (mu, 1) not in m:
            return None
        out[tuple(x for x in m if x != (mu, 1))] = c
    return unpoly(out) if out else None


def flag(post, mu):
    """post == gamma(c, const, mu) possibly nested, or boolean and/or with mu"""
    if post.op == "gamma":
        if post.a[2] is mu and post.a[1] in (TRUE, FALSE):
            return post.a[0], post.a[1]
        if post.a[1] is mu and post.a[2] in (TRUE, FALSE):
            return b_not(post.a[0]), post.a[2]
        c = post.a[0]
        if c.op == "truth" and c.a[0] is mu:
            # ok and X
            if post.a[2] is mu:
                return b_not(truth(post.a[1])), FALSE
            if post.a[1] is mu:
                return truth(post.a[2]), TRUE
        f2 = flag(post.a[2], mu)
        if f2 is not None and post.a[1] is f2[1]:
            return b_or(c, f2[0]), f2[1]
        f1 = flag(post.a[1], mu)
        if f1 is not None and post.a[2] is mu:
            return b_and(c, f1[0]), f1[1]
    tm = mk("truth", mu)
    if post.op == "and" and tm in post.a:
        return b_not(b_and(*[x for x in post.a if x is not tm])), FALSE
    if post.op == "or" and tm in post.a:
        return b_or(*[x for x in post.a if x is not tm]), TRUE
    return None


def miss_cond(r):
    if r.op == "missing":
        return TRUE
    if r.op == "gamma":
        return b_or(b_and(r.a[0], miss_cond(r.a[1])), b_and(b_not(r.a[0]), miss_cond(r.a[2])))
    if r.op == "tup":
        return b_or(*[miss_cond(x) for x in r.a])
    return FALSE


def bound_when(v):
    """condition under which a variable has a value"""
    if v.op == "unbound":
        return FALSE
    if v.op == "gamma":
        return b_or(b_and(v.a[0], bound_when(v.a[1])), b_and(b_not(v.a[0]), bound_when(v.a[2])))
    if v.op in ("last", "atbreak") and has_unbound(v):
        return mk("ex", v.a[0], TRUE)
    return TRUE


def has_unbound(v):
    if v.op == "unbound":
        return True
    if v.op == "gamma":
        return has_unbound(v.a[1]) or has_unbound(v.a[2])
    if v.op in ("last", "atbreak") and isinstance(v.a[-1], T):
        return has_unbound(v.a[-1])
    return False


def assigned_names(stmts):
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    st = list(stmts)
    while st:
        n = st.pop()
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgt(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            tgt(n.target)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, (ast.With,)):
            for it in n.items:
                if it.optional_vars is not None:
                    tgt(it.optional_vars)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets escape comprehensions
            for q in ast.walk(n):
                if isinstance(q, ast.NamedExpr):
                    tgt(q.target)
            continue
        st.extend(ast.iter_child_nodes(n))
    return out


def target_names(t):
    out = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


_LOCALS = {}


def local_names_of(ex, fr):
    if hasattr(fr, "toplevel") or hasattr(fr, "lam"):
        return ()
    key = (id(ex.repo), fr.fn)
    r = _LOCALS.get(key)
    if r is None:
        f = ex.repo.funcs.get(fr.fn)
        r = assigned_names(f.node.body) if f is not None else set()
        if f is not None:
            for n in walk_scope(f.node):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    r = r - set(n.names)
        _LOCALS[key] = r
    return r


def root_of(t, ex):
    """set of root terms whose object a location term may be part of"""
    out = set()
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op in ("idx", "get", "attr", "slc", "rev", "seq", "tuple", "transpose", "re", "im", "last", "muout",
                    "atbreak", "first", "muget"):
            for y in x.a:
                if isinstance(y, T) and y.op not in ("lv", "num", "str", "wl"):
                    if x.op in ("idx", "attr", "slc", "get") and y is not x.a[0]:
                        continue
                    if x.op == "muget" and y is not x.a[1]:
                        continue
                    go(y)
        elif x.op == "gamma":
            go(x.a[1])
            go(x.a[2])
        elif x.op in ("key", "elem"):
            go(x.a[0])
        elif x.op == "snap":
            c = ex.cells[x.a[0]]
            if c.kind == "loc":
                go(c.init)
            else:
                out.add(c.t)
        else:
            out.add(x)

    go(t)
    return out


def mutated_params(ex):
    """parameters of the analysed function whose objects are changed in place"""
    out = {}
    for loc, c in ex.loccell.items():
        ups = [u for u in c.log if u.kind not in ("mu",)]
        if not ups:
            continue
        for r in root_of(loc, ex):
            if r.op == "param":
                out.setdefault(r.a[0], []).extend(ups)
    for e in ex.events:
        if e.kind == "iop":
            for r in root_of(e.args[0], ex):
                if r.op == "param":
                    out.setdefault(r.a[0], []).append(e)
    # cells of local containers that merely hold parameters are not followed here
    return out
