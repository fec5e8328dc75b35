"""Closed summaries of a function: container names, loop counters and recurrences are
replaced by what they denote, so two summaries are the same function exactly when the
resulting terms are identical."""
import copy
import re
import sys

from .terms import (
    FALSE, NONE, ONE, TRUE, ZERO, S, T, add, b_and, b_not, b_or, literals, mk, neg, poly, sub, subst, subterms, tup,
    truth, gamma, unpoly, const_eq, as_int,
)
from .execute import Exec, root_of
from . import logic

sys.setrecursionlimit(50000)
INF = 10 ** 9


def loopterm(L):
    return mk("L", L.lv, S("rev" if L.rev else L.kind))


class Summary:
    def __init__(self, res, pmap=None, errs=True):
        self.res = res
        self.ex = res.ex
        self.memo = {}
        self.stack = []
        self.low = INF
        self.vis = set()  # recursive things met while expanding
        self.objmemo = {}
        self.line = {}  # expanded update -> source line
        self.errlits = set()
        self.clauses = set()
        self.known = None
        self.named = {}  # containers only named as the base of a loop-carried read
        self._errors()

    # ------------------------------------------------------------ errors
    def _errors(self):
        for e in self.res.events:
            if e.kind in ("raise", "assert"):
                ls = [x for x in e.pc]
                c = b_and(*ls)
                if e.kind == "assert":
                    t = truth(e.args[0]) if e.args else TRUE
                    base = set(literals(self.res.frame.pcbase))
                    own = b_and(*(set(literals([c])) - base)) if c.op == "and" or c in base else c
                    for x in t.a if t.op == "and" else (t,):
                        self.errlits.add(b_or(b_not(own), x))
                    self.clauses.add(b_or(b_not(c), t))
                    continue
                self.clauses.add(b_not(c))
                if e.loops and e.kind == "raise":
                    # inside a loop the facts behind are about each iteration
                    lits = {x for p in ls for x in literals([p])}
                    for L in e.loops:
                        rel = lits - {x for p in L.pc or () for x in literals([p])}
                        if rel and rel != lits:
                            self.errlits.add(b_not(b_and(*rel)))
                self.errlits.add(b_not(c))

        # behind an early return its condition is known not to hold
        base = literals(self.res.frame.pcbase)
        late = set(base)
        rets = self.res.frame.returns
        for i, (pc, *_) in enumerate(rets[:-1]):
            lits = literals(pc) - base
            if len(lits) == 1 and not rets[i][2]:
                late.add(b_not(next(iter(lits))))
        if late:
            for e in list(self.errlits):
                if e.op == "or":
                    left = [x for x in e.a if b_not(x) not in late]
                    if len(left) < len(e.a):
                        self.errlits.add(b_or(*left))

    def facts(self):
        """what holds wherever no error has been raised"""
        out = []
        for e in sorted(self.clauses, key=lambda t: t.n):
            t = self.x(e)
            if t not in (TRUE, FALSE):
                out.append(t)
        return out

    def guard(self, pc, drop=()):
        d = set()
        for p in drop:
            d |= literals([p])
        ls = []
        for p in pc:
            for x in literals([p]):
                if x not in d:
                    ls.append(x)
        g = b_and(*ls)
        ls = literals([g]) if g is not TRUE else set()
        return b_and(*self.settled(ls))

    def settled(self, ls):
        """drop the literals that hold because the error paths have been left"""
        ls = set(ls) - self.errlits
        cl = [e for e in self.errlits if e.op == "or" and any(x in ls for x in e.a)]
        if not cl:
            return ls

        def follows(x, known):
            known = set(known)
            todo = list(cl)
            while True:
                left = []
                for e in todo:
                    open_ = [y for y in e.a if not (b_not(y) in known or b_not(y) in self.errlits)]
                    if len(open_) == 1:
                        if open_[0] is x:
                            return True
                        known.add(open_[0])
                    elif open_:
                        left.append(e)
                if len(left) == len(todo):
                    return False
                todo = left

        for x in sorted(ls, key=lambda t: t.n):
            if any(x in e.a for e in cl) and follows(x, ls - {x}):
                ls.discard(x)
        return ls

    def under(self, c):
        if not self.errlits:
            return c
        if c.op == "and" or c in self.errlits:
            return b_and(*self.settled(literals([c])))
        n = b_not(c)
        if n.op == "and" or n in self.errlits:
            return b_not(b_and(*self.settled(literals([n]))))
        return c

    # ------------------------------------------------------------ expansion
    def x(self, t):
        if t is None:
            return NONE
        hit = self.memo.get(t)
        if hit is not None and not (hit[1] and not hit[1].isdisjoint(self.stack)):
            self.vis |= hit[1]
            return hit[0]
        m = {}
        old, self.low = self.low, INF
        oldv, self.vis = self.vis, set()
        self._collect(t, m, set())
        r = subst(t, m) if m else t
        if self.low == INF:
            self.memo[t] = (r, frozenset(self.vis))
        self.low = min(old, self.low)
        self.vis |= oldv
        return r

    def closed(self, key, make, selfref):
        """expand a possibly self-referring thing; memoised when the result is closed"""
        if key in self.stack:
            k = self.stack.index(key)
            self.low = min(self.low, k)
            return selfref(len(self.stack) - k)
        hit = self.objmemo.get(key)
        if hit is not None and hit[1].isdisjoint(self.stack):
            self.vis |= hit[1]
            return hit[0]
        old, self.low = self.low, INF
        oldv, self.vis = self.vis, {key}
        self.stack.append(key)
        k = len(self.stack) - 1
        try:
            r = make()
        finally:
            self.stack.pop()
        mine = INF if self.low >= k else self.low
        if mine == INF:
            self.objmemo[key] = (r, frozenset(self.vis))
        self.low = min(old, mine)
        self.vis |= oldv
        return r

    def _collect(self, t, m, seen):
        st = [t]
        while st:
            y = st.pop()
            if y in seen or y in m:
                continue
            seen.add(y)
            o = y.op
            if o == "cell":
                m[y] = self.obj(self.ex.cells[y.a[0]], None)
            elif o == "snap":
                m[y] = self.obj(self.ex.cells[y.a[0]], y.a[1])
            elif o == "mu":
                m[y] = self.rec(y)
            elif o == "muout":
                m[y] = mk("recout", self.rec(mk("mu", y.a[0], y.a[1])))
            elif o == "get":
                c = self.ex.cell_of(y.a[0])
                if c is not None:
                    m[y] = position(self.obj(c, y.a[1]), self.x(y.a[2]))
                else:
                    st.extend(z for z in y.a if isinstance(z, T))
            elif o == "muget":
                c = self.ex.cell_of(y.a[1])
                if c is not None:
                    m[y] = mk("muget", self.x(y.a[0]), self.head(c), self.x(y.a[2]))
                else:
                    st.extend(z for z in y.a if isinstance(z, T))
            elif o == "gamma":
                c, a, b = y.a
                c = self.under(c)
                if a.op == "missing" or b.op == "missing":  # an error otherwise
                    c = FALSE if a.op == "missing" else TRUE
                if c is TRUE or c is FALSE:
                    m[y] = self.x(a if c is TRUE else b)
                else:
                    c = self.x(c)
                    m[y] = pull(c, self.given(self.x(a), literals([c])), self.given(self.x(b), literals([b_not(c)])))
            elif o == "concatloop" and self.pieces(y.a[1]) is not None:
                # a tuple built element by element
                lv, L = self.x(y.a[0]), mk("L", self.x(y.a[0]), S("for" if y.a[2].a[0] == "fwd" else "rev"))
                m[y] = mk("tuple", mk("obj", S("list"), mk("list"), *[
                    mk("upd", S("append"), NONE, self.x(v), self.x(b_and(*self.settled(literals([g])))), tup(L))
                    for v, g in self.pieces(y.a[1])]))
            elif o == "mpi":
                # which of several equal communications is a matter of the sequence of effects
                m[y] = mk("mpi", *[self.x(z) if isinstance(z, T) else z for i, z in enumerate(y.a) if i != 1])
            elif o == "wl":
                m[y] = mk("while", self.wlcond(y))
            elif o == "poly":
                for mo, _ in y.a[0]:
                    for z, _ in mo:
                        st.append(z)
            else:
                for z in y.a:
                    if isinstance(z, T):
                        st.append(z)
                    elif isinstance(z, tuple):
                        for q in _flat(z):
                            if isinstance(q, T):
                                st.append(q)

    def xin(self, t, pc):
        """expanded as it is under the conditions"""
        return self.given(self.x(t), literals([self.x(p) for p in pc]))

    def given(self, t, known):
        """the value where the conditions are known to hold"""
        known = frozenset(x for x in known if not any(y.op in ("lv", "recself") for y in subterms(x)))
        if not known or not any(y.op in ("obj", "gamma") for y in subterms(t)):
            return t
        if self.known is None:
            self.known = ()
            self.known = tuple(f for f in self.facts() if not any(y.op in ("lv", "recself") for y in subterms(f)))
        old = list(logic.FACTS)
        logic.FACTS[:] = self.known
        try:
            return _given(t, known, {})
        finally:
            logic.FACTS[:] = old

    def pieces(self, t):
        """elements of a tuple and when they are there"""
        if t.op == "tup":
            return [(v, TRUE) for v in t.a]
        if t.op == "gamma":
            a, b = self.pieces(t.a[1]), self.pieces(t.a[2])
            if a is not None and b is not None and len(a) <= 1 and len(b) <= 1:
                return [(v, b_and(t.a[0], g)) for v, g in a] + [(v, b_and(b_not(t.a[0]), g)) for v, g in b]
        return None

    def wlcond(self, y):
        def make():
            for (L, i, p) in self.ex.mus.values():
                if L.lv is y and L.cond is not None:
                    return self.x(L.cond)
            return S("?")

        return self.closed(("wl", y), make, lambda d: S("self"))

    def rec(self, mu):
        d = self.ex.mus.get(mu)
        if d is None:
            return mk("rec?", S(str(mu.a[1])))
        L, init, post = d

        def make():
            return mk("rec", self.x(L.lv) if L.kind == "for" and not L.rev else mk("backward", self.x(L.lv)) if L.kind == "for" else mk("while", self.wlcond(L.lv)), self.x(init),
                      self.x(post) if post is not None else NONE)

        return self.closed(("mu", mu), make, lambda d: mk("recself", d))

    def head(self, c):
        self.named[c.id] = c
        if c.kind == "loc":
            return mk("objh", S("loc"), self.x(c.init))
        return mk("objh", S(c.kind), self.x(c.init) if c.init is not None else NONE,
                  *[loopx(self, L) for L in c.loops])

    # ------------------------------------------------------------ containers
    def obj(self, c, ver):
        if ver is not None and ver >= len(c.log):
            ver = None
        def make():
            ups = self.updates(c, ver)
            init = self.x(c.init) if c.init is not None else NONE
            if c.kind == "loc" and not ups:
                return init
            kind = c.kind
            if kind == "copy" or kind == "loc" and c.init.op == "call":
                kind = "fresh"
            return mk("obj", S(kind), init, *ups)

        return self.closed(("obj", c.id, ver), make, lambda d: mk("objself", self.head(c)))

    def updates(self, c, ver=None):
        log = c.log if ver is None else c.log[:ver]
        raw = []
        dl = set(c.loops)
        for i, u in enumerate(log):
            if u.kind == "mu":
                if ver is not None:
                    # a marker stands for the earlier iterations of an enclosing loop that is still running
                    if not any(v.kind != "mu" and any(L.lv is u.val for L in v.loops) for v in c.log[i:ver]):
                        self.named[c.id] = c
                        raw.append([i, u, "iter", None, u.val, TRUE, ()])
                continue
            kind, key, val = u.kind, u.key, u.val
            g = list(u.pc)
            if kind == "set" and key is not None:
                acc = self.accum(c, key, val)
                if acc is not None:
                    kind, val = "acc", acc
            if kind in ("setitem",):
                kind = "set"
            loops = tuple(L for L in u.loops if L not in dl)
            raw.append((i, u, kind, key, val, self.guard(g, c.pc), loops))
        raw = from_the_front(c, raw)
        # a first value stored when the key is missing is an accumulation
        out = []
        accs = {}
        for r in raw:
            if r[2] == "acc":
                accs.setdefault((r[3], r[4], r[6]), []).append(r)
        acckeys = {(k[0], k[2]) for k in accs}
        differ = {}
        for r in raw:
            i, u, kind, key, val, g, loops = r
            if kind == "set" and (key, loops) in acckeys:
                lits = [x for p in u.pc for x in literals([p])]
                if any(self.member(c, key, b_not(x)) for x in lits):
                    kind = "acc"
                    if (key, val, loops) not in accs:
                        # the first value differs from the increments
                        other = [q for q in raw if q[2] == "acc" and q[3] is key and q[6] == loops and any(
                            self.member(c, key, x) for p in q[1].pc for x in literals([p]))]
                        if len(other) == 1:
                            differ[id(other[0])] = (val, g)
                            continue
            out.append([i, u, kind, key, val, g, loops])
        for row in out:
            r = next((r for r in raw if r[0] == row[0] and id(r) in differ), None)
            if r is not None:
                m = next(x for p in row[1].pc for x in literals([p]) if self.member(c, row[3], x))
                row[4] = gamma(m, row[4], differ[id(r)][0])
                row[5] = b_or(row[5], differ[id(r)][1])
        # a zero stored first is only the start of the accumulation that follows
        out = [r for r in out if not (r[2] == "acc" and r[4] is ZERO and any(
            q is not r and q[2] == "acc" and q[3] is r[3] and q[6] == r[6] and (q[5] is TRUE or literals([q[5]]) <= literals([r[5]])) for q in out))]
        # overwritten values
        live = []
        for n, r in enumerate(out):
            if r[2] == "set" and any(
                q[2] == "set" and q[3] is r[3] and q[6] == r[6] and literals([q[5]]) <= literals([r[5]])
                for q in out[n + 1:]
            ):
                continue
            live.append(r)
        out = live
        # merge alternatives
        merged = []
        for r in out:
            for q in merged:
                if q[2:5] == r[2:5] and q[6] == r[6] and r[2] in ("set", "acc", "pop", "add"):
                    q[5] = b_or(q[5], r[5])
                    break
            else:
                merged.append(r)
        ups = []
        for i, u, kind, key, val, g, loops in merged:
            if kind == "acc":
                g = self.accguard(c, key, g)
            if kind == "ext":
                val = tup(*val.a)
            t = mk("upd", S(kind), self.x(key) if key is not None else NONE, self.x(val) if val is not None else NONE,
                   self.x(g), tup(*[loopx(self, L) for L in loops]))
            ups.append(t)
            self.line.setdefault(t, (u.fn, getattr(u.node, "lineno", 0)))
        if c.kind not in ("list",) and not any(m[2] in ("append", "extend", "insert") for m in merged):
            return sorted(dict.fromkeys(ups), key=lambda t: t.n)
        return exclusive_order(ups, lambda t: (t.a[3], t.a[4]))

    def accguard(self, c, key, g):
        """what is already there has been let in before: its own test adds nothing"""
        ds = [literals([d]) for d in (g.a if g.op == "or" else (g,))]
        if g.op == "and":
            # (in or limits) as one conjunct
            out = []
            for x in g.a:
                if x.op == "or":
                    rest = [y for y in x.a if not self.member(c, key, y)]
                    if rest and len(rest) < len(x.a):
                        x = b_or(*rest)
                out.append(x)
            return b_and(*out)
        free = [d for d in ds if not any(self.member(c, key, x) for x in d)]
        if not free:
            return g
        keep = []
        for d in ds:
            if any(self.member(c, key, x) for x in d):
                r = {x for x in d if not self.member(c, key, x)}
                if any(r <= f or {x for x in f if not self.member(c, key, b_not(x))} >= r for f in free):
                    continue
            keep.append({x for x in d if not self.member(c, key, b_not(x))})
        return b_or(*[b_and(*d) for d in keep])

    def member(self, c, key, x):
        return x.op == "in" and x.a[0] is key and self.is_self(c, x.a[1])

    def is_self(self, c, t):
        if t is c.t or c.kind == "loc" and t is c.init:
            return True
        if t.op == "snap" and t.a[0] == c.id:
            return True
        if t.op == "keys":
            return self.is_self(c, t.a[0])
        if t.op == "dict" and c.init is not None and t is c.init:
            return True
        return False

    def selfread(self, c, key, s):
        if s.op in ("get", "muget"):
            base = s.a[0] if s.op == "get" else s.a[1]
            return (base is c.t or (c.kind == "loc" and base is c.init)) and s.a[2] is key
        if s.op == "idx" and c.kind == "loc":
            return s.a[0] is c.init and s.a[1] is key
        return False

    def accum(self, c, key, val):
        # v + self[key]
        d = poly(val)
        hit = [m for m, k in d.items() if len(m) == 1 and m[0][1] == 1 and k == (1, 0) and self.selfread(c, key, m[0][0])]
        if len(hit) == 1:
            rest = dict(d)
            del rest[hit[0]]
            r = unpoly(rest)
            return r
        # d.get(key, 0) + v
        for m, k in d.items():
            if len(m) == 1 and m[0][1] == 1 and k == (1, 0) and m[0][0].op == "gamma":
                g = m[0][0]
                if self.member(c, key, g.a[0]) and self.selfread(c, key, g.a[1]) and g.a[2] is ZERO:
                    rest = dict(d)
                    del rest[m]
                    return unpoly(rest)
                if self.member(c, key, b_not(g.a[0])) and self.selfread(c, key, g.a[2]) and g.a[1] is ZERO:
                    rest = dict(d)
                    del rest[m]
                    return unpoly(rest)
        if val.op == "gamma":
            if self.member(c, key, val.a[0]):
                a = self.accum(c, key, val.a[1])
                if a is not None and a is val.a[2]:
                    return a
            if self.member(c, key, b_not(val.a[0])):
                a = self.accum(c, key, val.a[2])
                if a is not None and a is val.a[1]:
                    return a
        return None

    # ------------------------------------------------------------ items
    def items(self):
        """name -> closed term"""
        out = {}
        out["value"] = self.x(self.res.value)
        # mutated inputs
        for c in list(self.ex.cells.values()):
            if c.kind == "loc":
                r = root_of(c.init, self.ex)
                if r is not None and all(self.is_input(y) for y in r) and r:
                    ups = self.updates(c)
                    if ups:
                        k = "input:" + repr(self.x(c.init))
                        out[k] = mk("obj", S("loc"), self.x(c.init), *ups)
        out["raise"] = self.raises()
        out.update(self.outputs())
        out["effects"] = self.effects()
        out["carried"] = self.carried()
        out.update(self.prints())
        return out

    def carried(self):
        """containers that the results only read what earlier iterations left in"""
        done = set()
        ts = []
        while True:
            todo = [c for i, c in self.named.items() if i not in done]
            if not todo:
                break
            for c in todo:
                done.add(c.id)
                if any(k[0] == "obj" and k[1] == c.id and k[2] is None for k in self.objmemo):
                    continue
                ts.append(self.obj(c, None))
        return mk("effs", *sorted(dict.fromkeys(ts), key=lambda t: t.n))

    # ------------------------------------------------------------ outputs
    OUTCALLS = {
        "finite.printThermalExpValues", "finite.printExpValues", "spectra.simulate_spectra", "finite.assert_hermitian",
        "mpi_comm.allgather_dict", "get_spectra.main", "get_spectra_using_CF.main", "plotSpectra.plot_spectra_in_file",
    }

    DRAWN = {"plot", "imshow", "pcolormesh", "contourf", "scatter"}

    def outputs(self):
        """item -> term: datasets, files, closing and calls made for their effect"""
        out = {}
        self.unnamed = False
        for e in self.res.events:
            key = val = None
            if e.kind == "meth" and e.name == "add_argument" and e.args[0].op == "parser":
                self.option(e, out)
                continue
            if e.kind == "meth" and e.name == "create_dataset":
                nm = e.args[1] if len(e.args) > 1 else e.kw.get("name")
                data = e.kw.get("data")
                if data is None and len(e.args) > 3:
                    data = e.args[-1]
                key, val = ("dataset", nm), (e.args[0], data)
            elif e.kind == "call" and e.name in ("np.savetxt", "np.save", "np.savez", "np.savez_compressed"):
                nm = e.args[0] if e.args else e.kw.get("fname")
                data = e.args[1] if len(e.args) > 1 else e.kw.get("X")
                if e.name.startswith("np.savez"):
                    if nm is not None and nm.op == "str" and len(e.args) < 2:
                        for k, v in sorted(e.kw.items()):
                            t = mk("eff", S("stored"), self.xin(v, e.pc), self.x(self.guard(e.pc)),
                                   tup(*[loopx(self, L) for L in e.loops]))
                            self.line.setdefault(t, (e.fn, getattr(e.node, "lineno", 0)))
                            out.setdefault(f"file {nm.a[0]}[{k}]", []).append(t)
                        continue
                    data = mk("named", *[tup(S(k), v) for k, v in sorted(e.kw.items())])
                key, val = ("file", nm), (S(e.name[3:]), data)
            elif e.kind == "meth" and e.name in ("tofile",):
                key, val = ("file", e.args[1] if len(e.args) > 1 else None), (S("binary"), e.args[0])
            elif e.kind == "call" and e.name in ("h5py.File", "open"):
                mode = e.args[1] if len(e.args) > 1 else e.kw.get("mode", S("r"))
                if mode.op == "str" and mode.a[0] in ("r", "rb", "rt"):
                    continue
                key, val = ("open", e.args[0]), (S(e.name), mode)
            elif e.name.rsplit(".", 1)[-1] in self.DRAWN and (e.kind == "meth" or e.name.startswith("matplotlib.")):
                a = [bound_part(v) for v in (e.args[1:] if e.kind == "meth" else e.args)]
                a = [v for v in a if v.op != "str"][:2]
                key = ("drawing", S(e.name.rsplit(".", 1)[-1]))
                val = tuple(a) + tuple(tup(S(k), e.kw[k]) for k in ("extent", "origin") if k in e.kw)
            elif e.kind == "meth" and e.name == "close":
                key, val = ("close", None), (e.args[0],)
            elif e.kind == "call" and e.name in self.OUTCALLS:
                key, val = ("call", S(e.name)), tuple(e.args) + tuple(tup(S(k), v) for k, v in sorted(e.kw.items()))
            if key is None:
                continue
            if key[1] is not None and key[1].op != "str":
                self.unnamed = True
                continue
            k = key[0] + (" " + key[1].a[0] if key[1] is not None else "")
            t = mk("eff", S(key[0]), *[self.xin(v, e.pc) if v is not None else NONE for v in val],
                   self.x(self.guard(e.pc)), tup(*[loopx(self, L) for L in e.loops]))
            self.line.setdefault(t, (e.fn, getattr(e.node, "lineno", 0)))
            out.setdefault(k, []).append(t)
        return {k: mk("effs", *v) for k, v in out.items()}

    def option(self, e, out):
        flags = [a for a in e.args[1:]]
        if not flags or any(a.op != "str" for a in flags):
            self.unnamed = True
            return
        names = [a.a[0] for a in flags]
        long = [x for x in names if x.startswith("--")]
        pos = [x for x in names if not x.startswith("-")]
        dest = e.kw.get("dest")
        dest = dest.a[0] if dest is not None and dest.op == "str" else (pos or [x.lstrip("-").replace("-", "_") for x in long]
                                                                       or [names[0].lstrip("-")])[0]
        fs = []
        for k, v in sorted(e.kw.items()):
            if k in ("help", "metavar", "dest"):
                continue
            v = self.x(v)
            if v.op in ("list", "tup"):
                v = tup(*v.a)
            fs.append(tup(S(k), v))
        n = sum(k.startswith("option ") for k in out)
        t = mk("eff", S("option"), tup(*map(S, sorted(pos or long or names))), tup(*fs), self.x(self.guard(e.pc)))
        self.line.setdefault(t, (e.fn, getattr(e.node, "lineno", 0)))
        out.setdefault("option " + dest, []).append(t)
        if pos:
            out.setdefault("positional", []).append(S(pos[0]))

    def prints(self):
        """printed values by the text in front of them, and the head lines of tables"""
        out = {}
        pending = ""
        for e in self.res.events:
            if e.kind != "call" or e.name != "print":
                continue
            parts = []
            for a in e.args:
                parts += text_parts(a)
            label = ""
            rows = []
            for p in parts:
                if p.op == "str":
                    label += " " + p.a[0]
                elif p.op != "kw":
                    rows.append((label, p))
                    label = ""
            if not rows:
                w = label.split()
                pending = label
                if len(w) > 6:
                    rows.append(("head line " + w[0], S(" ".join(w))))
            elif len(rows) == 1 and not rows[0][0].split():
                rows[0] = (pending, rows[0][1])
            if len(rows) > 3 and not any(l.split() for l, _ in rows):
                rows = [("row", tup(*[v for _, v in rows]))]
            for l, v in rows:
                k = "print " + " ".join(re.sub(r"[^\w<>^()#-]+", " ", l).split())
                t = mk("eff", S("print"), self.x(v), self.x(self.guard(e.pc)), tup(*[loopx(self, L) for L in e.loops]))
                self.line.setdefault(t, (e.fn, getattr(e.node, "lineno", 0)))
                out.setdefault(k, []).append(t)
        return {k: mk("effs", *v) for k, v in out.items()}

    def is_input(self, y):
        return getattr(y, "op", None) in ("param", "glob") or (isinstance(y, tuple))

    def raises(self):
        rs = []
        errs = [e for e in self.res.events if e.kind in ("raise", "assert")]
        for e in errs:
            lits = {x for p in e.pc for x in literals([p])}
            if e.kind == "assert":
                own = literals([b_not(truth(e.args[0]))]) if e.args else set()
            else:
                own = set()
            # that an earlier check has not failed adds nothing to this one
            lits = {x for x in lits if x in own or not (any(
                f is not e and self.fails(f, x, e) for f in errs))}
            g = self.x(b_and(*lits, *own))
            if g is FALSE:
                continue
            for d in g.a if g.op == "or" else (g,):
                t = mk("err", d, tup(*[anyway(loopx(self, L)) for L in e.loops]))
                self.line.setdefault(t, (e.fn, getattr(e.node, "lineno", 0)))
                rs.append(t)
        return mk("errs", *sorted(set(rs), key=lambda t: t.n))

    def fails(self, f, x, e):
        """check f fails when x does not hold, wherever e is executed"""
        if f.loops != e.loops[:len(f.loops)]:
            return False
        le = {y for p in e.pc for y in literals([p])} | literals([b_not(x)])
        ls = {y for p in f.pc for y in literals([p])}
        if not ls <= le:
            return False
        if f.kind == "assert":
            c = truth(f.args[0]) if f.args else TRUE
            return any(literals([b_not(y)]) <= le for y in (c.a if c.op == "and" else (c,)))
        return True

    def effects(self):
        es = []
        evs = []
        for e in self.res.events:
            if e.kind == "mpi" or (e.kind == "yield"):
                ls = literals([self.guard(e.pc)])
                p = evs[-1] if evs else None
                if p and p.kind == e.kind and p.name == e.name and p.loops == e.loops and len(p.args) == len(e.args) \
                        and set(p.kw) == set(e.kw):
                    # the same communication in both alternatives
                    A = literals([self.guard(p.pc)])
                    d1, d2 = A - ls, ls - A
                    if len(d1) == 1 and len(d2) == 1 and b_not(next(iter(d1))) in d2:
                        c = next(iter(d1))
                        q = copy.copy(p)
                        q.args = tuple(gamma(c, x, y) for x, y in zip(p.args, e.args))
                        q.kw = {k: gamma(c, p.kw[k], e.kw[k]) for k in p.kw}
                        q.pc = tuple(sorted(A & ls, key=lambda t: t.n))
                        evs[-1] = q
                        continue
                evs.append(e)
        for e in evs:
            if True:
                t = mk("eff", S(e.kind), S(e.name), tup(*[self.xin(a, e.pc) for a in e.args]),
                       tup(*[tup(S(k), self.xin(v, e.pc)) for k, v in sorted(e.kw.items())]),
                       self.x(self.guard(e.pc)), tup(*[loopx(self, L) for L in e.loops]))
                self.line.setdefault(t, (e.fn, getattr(e.node, "lineno", 0)))
                es.append(t)
        return mk("effs", *exclusive_order(es, lambda t: (t.a[-2], t.a[-1])))


def from_the_front(c, raw):
    """a list that only grows at its start is one that grows at its end the other way round"""
    if c.kind != "list" or not raw or c.init is None or c.init.op not in ("list", "tup") or c.init.a:
        return raw
    if any(r[2] != "insert" or any(L.kind != "for" or L.exits for L in r[6]) for r in raw):
        return raw
    out = []
    for i, u, kind, key, val, g, loops in reversed(raw):
        if val.op != "tup" or len(val.a) != 2 or as_int(val.a[0]) != 0:
            return raw
        flipped = []
        for L in loops:
            L = copy.copy(L)
            L.rev = not L.rev
            flipped.append(L)
        out.append((i, u, "append", None, val.a[1], g, tuple(flipped)))
    return out


def exclusive_order(ts, guard):
    """neighbours that never both happen have no order"""
    ts = list(ts)
    for _ in range(len(ts)):
        done = True
        for i in range(len(ts) - 1):
            (g, l), (h, m) = guard(ts[i]), guard(ts[i + 1])
            if ts[i].n > ts[i + 1].n and l is m and b_and(g, h) is FALSE:
                ts[i], ts[i + 1] = ts[i + 1], ts[i]
                done = False
        if done:
            break
    return ts


def bound_part(t):
    """the value of a variable that is read, so it has one"""
    m = {}
    for y in subterms(t):
        if y.op == "gamma" and "unbound" in (y.a[1].op, y.a[2].op):
            m[y] = y.a[1] if y.a[2].op == "unbound" else y.a[2]
    return subst(t, m) if m else t


def position(d, k):
    """look something up; the position of an element of a sequence is known"""
    if d.op == "obj" and d.a[0].a[0] == "dict" and len(d.a) == 3 and d.a[1].op == "dict" and not d.a[1].a and k.op == "idx":
        u = d.a[2]
        if u.a[0].a[0] == "set" and u.a[3] is TRUE and len(u.a[4].a) == 1 and u.a[4].a[0].a[0] is u.a[2] and u.a[2].op == "lv" and \
                u.a[1] is mk("idx", k.a[0], u.a[2]) and u.a[2].a[0] is mk("count", mk("len", k.a[0])):
            return k.a[1]
    return mk("get", d, k)


def _given(t, known, memo):
    if (t, known) in memo:
        return memo[t, known]
    m = {}
    st, seen = [t], set()
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == "gamma":
            c = decided(y.a[0], known)
            if c is TRUE or c is FALSE:
                m[y] = _given(y.a[1] if c is TRUE else y.a[2], known, memo)
                continue
            if not any(z.op in ("lv", "recself") for z in subterms(y.a[0])):
                a, b = (_given(z, known | literals([k]), memo) for z, k in ((y.a[1], y.a[0]), (y.a[2], b_not(y.a[0]))))
                if a is not y.a[1] or b is not y.a[2]:
                    m[y] = pull(y.a[0], a, b)
                continue
        elif y.op == "obj":
            new = [_given(y.a[1], known, memo)]
            for u in y.a[2:]:
                if u.op != "upd":
                    new.append(u)
                    continue
                g = decided(u.a[3], known)
                if g is not FALSE:
                    v = [_given(z, known, memo) for z in u.a[1:3]]
                    new.append(mk("upd", u.a[0], v[0], v[1], g, u.a[4]))
            if tuple(new) != y.a[1:]:
                ups = new[1:]
                if not any(u.op != "upd" or u.a[0].a[0] in ("append", "extend", "insert", "ext") for u in ups) and y.a[0].a[0] != "list":
                    ups = sorted(dict.fromkeys(ups), key=lambda u: u.n)
                m[y] = mk("obj", y.a[0], new[0], *ups)
            continue
        if y.op == "poly":
            st += [z for mo, _ in y.a[0] for z, _ in mo]
        else:
            for z in y.a:
                if isinstance(z, T):
                    st.append(z)
                elif isinstance(z, tuple):
                    st += [q for q in _flat(z) if isinstance(q, T)]
    r = memo[t, known] = subst(t, m) if m else t
    return r


def decided(c, known):
    """a condition without the parts that are known"""
    if c in known:
        return TRUE
    n = b_not(c)
    if n in known:
        return FALSE
    if c.op in ("and", "or"):
        parts = [decided(x, known) for x in c.a]
        return c if all(x is y for x, y in zip(parts, c.a)) else (b_and if c.op == "and" else b_or)(*parts)
    k = const_eq(c)
    if k and any(x.op == "eq" and const_eq(x) and const_eq(x)[0] is k[0] and const_eq(x)[1] is not k[1] for x in known):
        return FALSE
    if any(y.op in ("lv", "recself") for y in subterms(c)) or not atoms(c) <= set().union(*map(atoms, known), *map(atoms, logic.FACTS)):
        return c
    k = b_and(*known, *[f for f in logic.FACTS if atoms(f) & atoms(c)])
    if logic.implies(k, c) is True:
        return TRUE
    if logic.implies(k, n) is True:
        return FALSE
    return c


def atoms(c):
    if c.op in ("and", "or", "not"):
        return frozenset().union(*map(atoms, c.a))
    k = const_eq(c)
    return frozenset((k[0] if k else c,))


def anyway(L):
    """an error in any iteration is an error, whatever their order"""
    return mk("L", L.a[0], S("for")) if L.a[1].a[0] == "rev" else L


def loopx(sm, L):
    lv = sm.x(L.lv) if L.kind == "for" else mk("while", sm.wlcond(L.lv))
    return mk("L", lv, S("rev" if L.rev else L.kind))


def pull(c, a, b):
    """what both alternatives have in common stands outside"""
    if c.op == "not":
        return pull(c.a[0], b, a)
    if a.op in ("poly", "num") or b.op in ("poly", "num"):
        da, db = poly(a), poly(b)
        both = {m: k for m, k in da.items() if db.get(m) == k}
        if both:
            ra = {m: k for m, k in da.items() if m not in both}
            rb = {m: k for m, k in db.items() if m not in both}
            return add(unpoly(both), gamma(c, unpoly(ra), unpoly(rb)))
    return gamma(c, a, b)


def text_parts(a):
    """literal pieces and values of a formatted text"""
    if a.op == "meth" and a.a[0] == "format" and a.a[1].op == "str":
        import string

        out = []
        vals = [v for v in a.a[2:] if v.op != "kw"]
        kws = {v.a[0]: v.a[1] for v in a.a[2:] if v.op == "kw"}
        n = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(a.a[1].a[0]):
                if lit:
                    out.append(S(lit))
                if field is not None:
                    if field == "":
                        out.append(vals[n])
                        n += 1
                    elif field.isdigit():
                        out.append(vals[int(field)])
                    else:
                        out.append(kws[field])
        except (ValueError, IndexError, KeyError):
            return [a]
        return out
    if a.op == "fstr":
        out = []
        for x in a.a:
            x = x.a[0] if isinstance(x, T) and x.op == "fmt" else x
            out += text_parts(x) if isinstance(x, T) else [S(str(x))]
        return out
    if a.op == "strmod" and a.a[0].op == "str":
        import re

        vals = list(a.a[1].a) if a.a[1].op == "tup" else [a.a[1]]
        out = []
        n = 0
        for piece in re.split(r"(%[-+ #0-9.]*[a-zA-Z])", a.a[0].a[0]):
            if re.fullmatch(r"%[-+ #0-9.]*[a-zA-Z]", piece) and n < len(vals):
                out.append(vals[n])
                n += 1
            elif piece:
                out.append(S(piece))
        return out
    if a.op == "concat":
        return [y for x in a.a for y in text_parts(x)]
    return [a]


def _flat(y):
    for z in y:
        if isinstance(z, tuple):
            yield from _flat(z)
        else:
            yield z
