"""C13: whether a collective communication is executed, and how often, never depends on the rank.

A condition or trip count is rank-dependent when it contains the rank, what only one rank received or
collected, the share of the work of this rank, or data documented as local to a rank - unless that went
through a communication that gives every rank the same value.
"""
from ..report import proved, violated, undecided
from ..terms import T, literals, show, b_and, b_not, mk, subst, subterms, TRUE, FALSE
from ..execute import simp_bool
from ..compare import children

UNIFORM = {"bcast", "Bcast", "allreduce", "Allreduce", "allgather", "Allgather", "Allgatherv"}
ONE_SIDED = {"reduce", "Reduce", "gather", "Gather", "scatter", "Scatter", "recv", "Recv"}
P2P = {"send", "Send", "recv", "Recv", "isend", "irecv", "Isend", "Irecv", "wait", "Wait", "waitall", "Waitall", "sendrecv", "Sendrecv",
       "probe", "iprobe", "Probe", "Iprobe", "ssend", "bsend"}
LOCAL = {
    "mpi_comm.allgather_dict": {"data"},
    "mpi_comm.dict_chunks_from_one_MPI_rank": {"data"},
    "finite.expand_basis": {"h_dict"},
    "finite.expand_basis_and_hamiltonian": {"h_dict"},
    "finite.get_hamiltonian_matrix_from_h_dict": {"h_dict"},
}


class Taint:
    """what differs between ranks, followed through containers and loop-carried values"""

    def __init__(self, ex, local):
        self.ex, self.local = ex, local
        self.memo = {}
        self.cells = {}

    def of(self, t):
        """a subterm of t that differs between ranks, or None"""
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = None
        if t.op == "rank" or t.op == "param" and t.a[0] in self.local:
            r = t
        elif t.op == "mpi":
            r = None if mpi_name(t) in UNIFORM else t
        elif t.op == "call" and t.a[0] == "finite.get_job_tasks":
            r = t
        elif t.op in ("cell", "snap") and isinstance(t.a[0], int):
            r = self.cell(t.a[0])
        else:
            if t.op in ("get", "muget"):
                c = self.ex.cell_of(t.a[0] if t.op == "get" else t.a[1])
                if c is not None:
                    r = self.cell(c.id)
            if t.op == "mu" and t in self.ex.mus:
                L, init, post = self.ex.mus[t]
                for c in (init, post):
                    if r is None and isinstance(c, T):
                        r = self.of(c)
            for c in children(t):
                if r is None:
                    r = self.of(c)
        self.memo[t] = r
        return r

    def cell(self, i):
        if i in self.cells:
            return self.cells[i]
        self.cells[i] = None
        c = self.ex.cells[i]
        r = None
        if c.kind == "loc" and c.init is not None:
            r = self.of(c.init)
        for u in c.log:
            if u.kind == "mu":
                continue
            ts = [x for x in (u.key, u.val) if isinstance(x, T)]
            if any(y.op == "mpi" and mpi_name(y) in UNIFORM for x in ts for y in subterms(x)):
                # filled from what every rank has got
                self.cells[i] = None
                return None
            if r is None:
                for x in ts + [L.lv for L in u.loops] + [y for p in (u.pc or ()) for y in literals([p]) if y not in base_literals(c)]:
                    r = self.of(x)
                    if r is not None:
                        break
        self.cells[i] = r
        return r


def base_literals(c):
    return {x for p in (c.pc or ()) for x in literals([p])}


def mpi_name(t):
    return str(getattr(t.a[0], "a", (t.a[0],))[0])


def rule(ck):
    obs = []
    for q in sorted(ck.repo.funcs):
        f = ck.repo.funcs[q]
        try:
            res = ck.run(q)
        except Exception as e:
            obs.append(undecided("collective on every rank", q, f"not analysable: {type(e).__name__} {e}"))
            continue
        colls = [e for e in res.events if e.kind == "mpi" and e.name not in P2P]
        if not colls:
            continue
        local = LOCAL.get(q, set())
        tt = Taint(res.ex, local)
        merged = []
        for e in colls:
            ls = {x for p in (e.pc or ()) for x in literals([p])}
            merged.append([e, ls])
        # the same communication in both alternatives of a rank-dependent branch
        done = False
        while not done:
            done = True
            for i in range(len(merged)):
                for k in range(i + 1, len(merged)):
                    (e, A), (g, B) = merged[i], merged[k]
                    if e.name != g.name or e.loops != g.loops or e.kw.get("root") is not g.kw.get("root"):
                        continue
                    d1, d2 = A - B, B - A
                    if len(d1) == 1 and len(d2) == 1 and b_not(next(iter(d1))) in d2:
                        merged[i] = [e, A & B]
                        del merged[k]
                        done = False
                        break
                if not done:
                    break
        # inside a loop over the ranks the communication of every rank may be spelled out
        for e, ls in merged:
            where = f"{f.mod.rel}:{getattr(e.node, 'lineno', f.node.lineno)}"
            c = f"{q}: {e.name}"
            bad = None
            for x in sorted(ls, key=lambda t: t.n):
                w = tt.of(x)
                if w is not None:
                    bad = (x, w, "executed only where")
                    break
            if bad is None:
                for L in e.loops:
                    for x in [y for y in children(L.lv)]:
                        w = tt.of(x)
                        if w is not None:
                            bad = (x, w, "repeated over")
            if bad is None:
                obs.append(proved("collective on every rank", c, f"{len(ls)} conditions and {len(e.loops)} loops do not depend on the rank", where))
            else:
                obs.append(violated("collective on every rank", c, f"{bad[2]} {show(bad[0], 5)}, which depends on {show(bad[1], 3)}", where))
        roots(ck, q, f, colls, obs)
        stops(q, f, res, colls, obs, tt)
    return obs


def communicating(ck):
    """function -> conditions, in its parameters, under which it takes part in a collective communication"""
    out = {}
    for _ in range(6):
        changed = False
        for q in ck.repo.funcs:
            try:
                res = ck.run(q)
            except Exception:
                continue
            cs = set(out.get(q, ()))
            for e in res.events:
                ls = frozenset(x for p in (e.pc or ()) for x in literals([p]))
                if e.kind == "mpi" and e.name not in P2P:
                    cs.add(selectors(ls))
                elif e.kind == "call" and e.name in out:
                    for g in happening(ck, e, out[e.name]):
                        cs.add(selectors(ls | g))
            if cs != out.get(q, set()) and cs:
                out[q] = cs
                changed = True
        if not changed:
            break
    return out


def selectors(ls):
    """the part of a condition that is about selector parameters"""
    return frozenset(x for x in ls if all(y.op in ("eq", "not", "or", "and", "param", "str", "truth", "isnone", "bool", "num", "eq0")
                                           for y in subterms(x)))


def happening(ck, e, guards):
    """conditions under which a call communicates, given its arguments and where it stands"""
    f = ck.repo.funcs[e.name]
    m = {mk("param", p): a for p, a in zip(f.all_params, e.args)}
    here = frozenset(x for p in (e.pc or ()) for x in literals([p]))
    for g in guards:
        ls = set()
        for x in g:
            y = simp_bool(subst(x, m), here)
            ls |= literals([y]) if y is not TRUE else set()
        if FALSE in ls or b_and(*ls, *here) is FALSE or any(b_not(x) in here for x in ls):
            continue
        yield frozenset(x for x in ls if x not in here)


def calls(ck):
    """a function that communicates is called by every rank, equally often"""
    obs = []
    com = communicating(ck)
    for q, f in sorted(ck.repo.funcs.items()):
        try:
            res = ck.run(q)
        except Exception:
            continue
        tt = Taint(res.ex, LOCAL.get(q, set()))
        for e in res.events:
            if e.kind != "call" or e.name not in com or e.name == q:
                continue
            hs = list(happening(ck, e, com[e.name]))
            where = f"{f.mod.rel}:{getattr(e.node, 'lineno', 0)}"
            c = f"{q}: {e.name}"
            if not hs:
                obs.append(proved("communicating call on every rank", c, "does not communicate when called like this", where))
                continue
            w = None
            for x in [y for p in (e.pc or ()) for y in literals([p])] + [y for L in e.loops for y in children(L.lv)]:
                w = tt.of(x)
                if w is not None:
                    break
            if w is None:
                obs.append(proved("communicating call on every rank", c, "independent of the rank", where))
            elif any(selectors(h) == h for h in hs):
                obs.append(violated("communicating call on every rank", c, f"under {show(x, 4)}, which depends on {show(w, 3)}", where))
            else:
                obs.append(undecided("communicating call on every rank", c, f"under {show(x, 4)}", where))
    return obs


def roots(ck, q, f, colls, obs):
    for e in colls:
        r = e.kw.get("root")
        if r is None:
            continue
        w = next((y for y in subterms(r) if y.op == "rank"), None)
        where = f"{f.mod.rel}:{getattr(e.node, 'lineno', f.node.lineno)}"
        if w is not None:
            obs.append(violated("same root on every rank", f"{q}: {e.name}", f"root {show(r, 4)}", where))
        else:
            obs.append(proved("same root on every rank", f"{q}: {e.name}", show(r, 3), where))


def stops(q, f, res, colls, obs, tt):
    """no rank stops alone while others communicate"""
    n = 0
    for i, e in enumerate(res.events):
        if e.kind != "raise":
            continue
        n += 1
        later = [g for g in res.events[i:] if g in colls]
        if e.loops:
            later += [g for g in colls if g.loops[:1] == e.loops[:1]]
        if not later:
            continue
        for x in sorted({x for p in (e.pc or ()) for x in literals([p])}, key=lambda t: t.n):
            w = tt.of(x)
            if w is not None:
                obs.append(violated("all ranks stop together", f"{q}: raise", f"only where {show(x, 5)}, which depends on {show(w, 3)}",
                                    f"{f.mod.rel}:{getattr(e.node, 'lineno', 0)}"))
                break
    obs.append(proved("all ranks stop together", q, f"{n} errors raised"))


RULES = [rule, calls]
