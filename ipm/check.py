"""Comparison of every specified function with its specification."""
from . import words
from .repo import Repo, AnalysisBroken
from .specrepo import SpecRepo
from .execute import Exec, Frame
from .summary import Summary
from .compare import Leaf, Cmp, children, verdict, SAME, DIFF, UNKNOWN
from .terms import mk, NONE, b_not, isnone, show, as_frac, INT_ATOMS, subterms
import ast

TUNING = {"chunk_maxsize"}
INLINE = {"finite.addToFirst"}


def default_value(repo, f, p):
    ex = Exec(repo)
    ex.frames.append(Frame(f.qual, f.mod.name, {}, ()))
    return ex.freeze(ex.ev(f.defaults[p]))


def alternatives(t):
    return alternatives(t.a[1]) | alternatives(t.a[2]) if t.op == "gamma" else {t}


def rankwise(t):
    """does it differ between ranks, other than by what has been communicated?"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "rank":
            return True
        if x.op == "mpi" or x.op == "obj" and any(u.op == "upd" and u.a[0].a[0] == "mpi" for u in x.a[2:]):
            continue
        todo += children(x)
    return False


CACHED = {"finite.applyOp": (2, 6), "spectra.getGreen": (4, 10), "finite.expand_basis_and_hamiltonian": (3, 2),
          "finite.expand_basis": (3, 2)}


def roots(t):
    """where the storage of a cache comes from: a new dictionary, an argument, an earlier iteration"""
    if t.op == "gamma":
        return roots(t.a[1]) | roots(t.a[2])
    if t.op == "obj":
        return {("copy", x[1]) if x[0] == "argument" and t.a[0].a[0] == "dict" else x for x in roots(t.a[1])}
    if t.op == "dict" and not t.a:
        return {("new", "")}
    if t.op == "param":
        return {("argument", t.a[0])}
    if t.op == "unbound":
        return {("an earlier iteration", "")}
    if t.op in ("get", "idx") and as_frac(t.a[1]) is not None:
        return {("one entry", str(as_frac(t.a[1])))}
    return {("other", "")}


def caches(items):
    """(operation, operator) -> origins of the cache used for it, with one of the calls"""
    out, seen = {}, set()
    for t in items:
        for x in (subterms(t) if t is not None else ()):
            if x in seen or x.op != "call" or x.a[0] not in CACHED:
                continue
            seen.add(x)
            op, c = CACHED[x.a[0]]
            if len(x.a) <= max(op, c) or x.a[c].op == "kw":
                continue
            for r in roots(x.a[c]):
                out.setdefault((x.a[0], x.a[op]), {}).setdefault(r, x)
    return out


def lasting(c):
    """iterations a cache survives, apart from those it has an entry of its own for"""
    if c.op == "gamma":
        return lasting(c.a[1]) | lasting(c.a[2])
    if c.op != "obj":
        return set()
    r = {u.a[2] for u in c.a[2:] if u.op == "upd" and u.a[0].a[0] == "iter"}
    if c.a[1].op in ("get", "idx"):
        r -= set(subterms(c.a[1].a[1]))
    return r


def shared(calls):
    """one cache for operators that change while it lives"""
    for (f, o), rs in sorted(calls.items(), key=lambda kv: (kv[0][0], kv[0][1].n)):
        if o.op not in ("idx", "get", "elem") or o.a[1].op != "lv":
            continue
        for r, x in sorted(rs.items()):
            if o.a[1] in lasting(x.a[CACHED[f][1]]):
                return (f, o), x
    return None


def entry(c):
    """the list a cache is an entry of, and its position"""
    while c.op == "obj":
        c = c.a[1]
    if c.op in ("get", "idx") and len(c.a) == 2 and c.a[0].op == "obj":
        return c.a[0].a[:3], c.a[1]
    return None, None


def misused(a, b):
    """a cache that the specification does not use for this operator"""
    for k, rs in sorted(a.items(), key=lambda kv: (kv[0][0], kv[0][1].n)):
        i = CACHED[k[0]][1]
        for y in b.get(k, {}).values():
            for x in rs.values():
                (u, p), (v, q) = entry(x.a[i]), entry(y.a[i])
                if u is not None and u == v and k[1].op in ("idx", "get") and q is k[1].a[1] and p.op in ("lv", "num") and \
                        p is not q and len(rs) == len(b[k]) == 1:
                    return k, ("another entry", ""), x, y
    for k, rs in sorted(a.items(), key=lambda kv: (kv[0][0], kv[0][1].n)):
        want = b.get(k)
        if not want or any(r[0] == "other" and r not in want for r in rs) and len(rs) == 1:
            continue
        for r, x in sorted(rs.items()):
            if r in want or r[0] in ("new", "other"):
                continue
            if r[0] in ("argument", "copy", "an earlier iteration") or r[0] == "one entry" and any(
                    y.op == "lv" for y in subterms(k[1])):
                return k, r, x, next(iter(want.values()))
    return None


class Checker:
    def __init__(self, root=None):
        self.repo = Repo(root)
        self.spec = SpecRepo(self.repo)
        self.specs = self.spec.specs()
        self.cmp = Cmp()
        self.cache = {}
        self.runs = {}

    def args_for(self, q):
        """positional parameters of the code get the names of the specification"""
        f, g = self.repo.fn(q), self.spec.spec_funcs.get(q)
        if g is None:
            return {}
        m = {}
        names = set(g.all_params)
        for i, p in enumerate(f.params):
            if p in names:
                m[p] = mk("param", p)
            elif i < len(g.params) and g.params[i] not in f.all_params:
                m[p] = mk("param", g.params[i])
            elif p in f.defaults:
                m[p] = ("default", p)
        for p in f.kwonly:
            if p not in names and p in f.defaults:
                m[p] = ("default", p)
        return m

    def summary(self, q, which, case=()):
        repo = self.repo if which == "code" else self.spec
        ex = Exec(repo, inline=(INLINE | self.inner(q)) - {q})
        kw = {}
        if which == "code":
            for p, v in self.args_for(q).items():
                if isinstance(v, tuple):
                    v = self.default(self.repo.fn(q), p)
                    if v is None:
                        continue
                kw[p] = v
        back = {v.a[0]: p for p, v in kw.items() if v.op == "param"}
        pc = ()
        for p, isn in case:
            if isn:
                kw[back.get(p, p)] = NONE
            else:
                pc += (b_not(isnone(mk("param", p))),)
        ex.pc = pc
        return Summary(ex.run(q, **kw))

    def run(self, q):
        """plain abstract execution of a function of the package"""
        if q not in self.runs:
            try:
                self.runs[q] = Exec(self.repo).run(q)
            except Exception as e:
                self.runs[q] = e
        r = self.runs[q]
        if isinstance(r, Exception):
            raise r
        return r

    def inner(self, q):
        """functions looked through when this one is described"""
        if q.startswith("product_state_representation."):
            return {k for k in self.spec.spec_funcs if k.startswith("product_state_representation.")}
        if q.endswith(".ubytes"):
            return {q.replace("ubytes", "ubitarray"), "product_state_representation.bytes2bitarray",
                    "product_state_representation.bitarray2bytes"}
        if q.endswith(".utuple"):
            return {"create.binary_search_bigger", "remove.binary_search"}
        return set()

    def cases(self, q):
        """parameters named in braces are analysed separately for None and for a value"""
        d = self.specs[q][1]
        if not d.startswith("{"):
            return [()]
        ps = d[1:d.index("}")].replace(",", " ").split()
        out = [()]
        for p in ps:
            out = [o + ((p, f),) for o in out for f in (True, False)]
        return out

    def default(self, f, p):
        d = f.defaults[p]
        if isinstance(d, ast.Constant):
            ex = Exec(self.repo)
            return ex.const(d.value)
        return None

    def defaults(self, q):
        """values parameters have when they are left out"""
        f, g = self.repo.fn(q), self.spec.spec_funcs.get(q)
        out = {}
        if g is None or q.endswith("__main__"):
            return out
        used = set()
        for i, p in enumerate(f.params):
            r = p if p in g.all_params else g.params[i] if i < len(g.params) and g.params[i] not in f.all_params else None
            if r is not None:
                used.add((p, r))
        for p, r in sorted(used):
            if r not in g.defaults:
                continue
            if p not in f.defaults:
                d = [Leaf(f"parameter {p} has no value when left out", NONE, NONE, True)]
            else:
                x, y = (default_value(R, h, n) for R, h, n in ((self.repo, f, p), (self.spec, g, r)))
                if r in TUNING:  # any positive value will do
                    d = [Leaf("value when left out", x, y, True)] if as_frac(x) is not None and as_frac(x) <= 0 else []
                else:
                    d = [] if x is y else self.cmp.top(x, y)
            out["default " + r] = (verdict(d), d)
        return out

    def compare(self, q):
        """item -> (status, leaves)"""
        if q in self.cache:
            return self.cache[q]
        out = {}
        INT_ATOMS.clear()
        self.lines = {}
        out.update(self.defaults(q))
        for case in self.cases(q):
            tag = "".join(f"[{p} {'absent' if n else 'given'}]" for p, n in case)
            a = self.summary(q, "code", case)
            b = self.summary(q, "spec", case)
            ia, ib = a.items(), b.items()
            facts = b.facts()
            for k in sorted(set(ia) | set(ib)):
                x, y = ia.get(k), ib.get(k)
                if y is None and k.split(" ")[0] in ("dataset", "file", "open", "close", "option", "print"):
                    continue   # further output is allowed
                if x is None and k.startswith("print "):
                    d = [Leaf("not printed with this text", x, y, False)]
                elif x is None or y is None:
                    d = [Leaf("additional change of an input" if y is None else "missing change of an input", x, y, True)]
                    ok = y is None and x.op == "obj" and len(x.a) <= 5 or x is None
                    d[0].definite = ok
                else:
                    d = self.cmp.top(x, y, () if k == "raise" else facts)
                    if k.startswith("file "):  # raw bytes
                        for l in d:
                            if l.kind == "type of the elements":
                                l.definite = True
                    if k == "carried":
                        for l in d:  # how many helpers there are is a matter of style
                            if l.kind.startswith(("additional", "missing")) and NONE in (l.a, l.b) or l.kind == "order":
                                l.definite = False
                if d and x is not None and y is not None and verdict(d) != DIFF:
                    if (k == "value" or k.startswith(("input:", "file ", "dataset "))) and rankwise(x) and not rankwise(y):
                        d = [Leaf("depends on the rank", x, y, True)]
                    elif k == "value":
                        for p in sorted(alternatives(x), key=lambda t: t.n):
                            if p.op == "param" and not any(z.op == "param" for z in alternatives(y)) and any(
                                    z.op == "obj" and z.a[1] is p for z in alternatives(y)):
                                d = [Leaf("the argument itself instead of a new one", p, y, True)]
                if d and (k == "value" or k.startswith("input:")) and x is not None and y is not None and q in self.specs and \
                        ia.get("raise") is ib.get("raise"):
                    d = self.inwords(q, x, y, d)
                out[k + tag] = (verdict(d), d)
            ca, cb = caches(ia.values()), caches(ib.values())
            if cb:
                m = misused(ca, cb)
                d = [Leaf(f"cache of {m[0][0]} taken from {' '.join(m[1]).strip()}", m[2], m[3], True)] if m else []
                m = shared(ca)
                if m and not shared(cb):
                    d = [Leaf(f"one cache of {m[0][0]} for several operators", m[0][1], m[1].a[CACHED[m[0][0]][1]], True)]
                out["cache" + tag] = (verdict(d), d)
            self.lines.update(a.line)
        self.cache[q] = out
        return out

    def inwords(self, q, x, y, d):
        """the same in the theory of bit words, where both have a reading there"""
        r = words.compare(q, [a.arg for a in self.repo.fn(q).node.args.args], x, y)
        if r is None:
            return d
        if r[0] == "differ":
            at = ", ".join(f"{k} = {v!r}" for k, v in r[1].items())
            return [Leaf(f"value for {at}", r[2], r[3], True)] + [l for l in d if l.definite][:2]
        return [Leaf(l.kind, l.a, l.b, False) for l in d]
