"""Decides small propositional questions about closed conditions.

Conditions are broken into atoms.  Comparisons of one quantity with several bounds, and
equalities of one value with several constants, are one multi-valued atom.  Two conditions are
equivalent when they agree in every cell; a cell in which they differ only counts when the linear
relations between the quantities (a length is not negative, a counter is below its count, a rank
below the number of ranks) leave it possible.
"""
from fractions import Fraction as F
from itertools import product

from .terms import (
    FALSE, NONE, T, TRUE, b_not, const_eq, is_int, is_real, poly, unpoly, subterms, _mono_key,
)

LIMIT = 6000
COMPOUND = ("and", "or", "not")


class TooMuch(Exception):
    pass


class Atoms:
    """multi-valued atoms of a set of formulas"""

    def __init__(self):
        self.keys = {}     # key -> list of cells
        self.crit = {}     # arithmetic base -> critical values
        self.consts = {}   # value -> constants it is compared with
        self.free = []     # opaque atoms
        self.tests = []    # substring tests, decided for known constants and opaque otherwise

    # ------------------------------------------------------------ collection
    def collect(self, t):
        o = t.op
        if o in ("and", "or", "not"):
            for x in t.a:
                self.collect(x)
        elif t is TRUE or t is FALSE:
            pass
        elif o in ("lt0", "le0", "eq0") and linear(t.a[0]) is not None:
            b, k, c, isabs = linear(t.a[0])
            v = self.crit.setdefault(b, set())
            x = -c / k
            v.add(x)
            if isabs:
                v.add(-x)
                v.add(F(0))
        elif o == "eq" and const_eq(t):
            u, k = const_eq(t)
            self.consts.setdefault(u, set()).add(k)
        elif o == "isnone":
            self.consts.setdefault(t.a[0], set()).add(NONE)
        elif string_test(t):
            self.consts.setdefault(string_test(t)[0], set())
            if t not in self.tests:
                self.tests.append(t)
        elif t not in self.free:
            self.free.append(t)

    def cells(self):
        out = []
        n = 1
        for b, vs in self.crit.items():
            vs = sorted(vs)
            integer = is_integer(b)
            cs = [(None, vs[0])]
            for i, v in enumerate(vs):
                if not integer or v.denominator == 1:
                    cs.append((v, v))
                if i + 1 < len(vs) and not (integer and vs[i + 1] - v <= 1 and v.denominator == 1):
                    cs.append((v, vs[i + 1]))
            cs.append((vs[-1], None))
            out.append(("num", b, cs))
            n *= len(cs)
        for u, ks in self.consts.items():
            out.append(("const", u, sorted(ks, key=lambda t: t.n) + [frozenset(ks)]))
            n *= len(ks) + 1
        for x in self.free + self.tests:
            out.append(("free", x, [True, False]))
            n *= 2
            if n > LIMIT:
                raise TooMuch
        if n > LIMIT:
            raise TooMuch
        return out


def string_test(t):
    """value, kind and text of a test like  x in 'text'  or  x.startswith('text')"""
    if t.op == "in" and len(t.a) == 2 and t.a[1].op == "str" and t.a[0].op != "str":
        return t.a[0], "in", t.a[1].a[0]
    if t.op == "truth" and t.a[0].op == "meth" and len(t.a[0].a) == 3:
        m, u, k = t.a[0].a
        m = m if isinstance(m, str) else m.a[0] if m.op == "str" else ""
        if m in ("startswith", "endswith") and k.op == "str" and u.op != "str":
            return u, m, k.a[0]
    return None


def linear(p):
    """p = k * base + c with a base of leading coefficient one; base may stand under abs"""
    d = dict(poly(p))
    c = d.pop((), (F(0), F(0)))
    if c[1] != 0 or not d or any(x[1] != 0 for x in d.values()):
        return None
    lead = d[sorted(d, key=_mono_key)[-1]][0]
    b = unpoly({m: (x[0] / lead, F(0)) for m, x in d.items()})
    if b.op == "abs" and (is_real(b.a[0]) or is_integer(b.a[0])) and b.a[0].op != "gamma":
        q = linear(b.a[0])
        if q is not None and q[2] == 0 and not q[3]:
            return q[0], lead * abs(q[1]), c[0], True
    return b, lead, c[0], False


def is_integer(t):
    for m, c in poly(t).items():
        if c[1] != 0 or c[0].denominator != 1:
            return False
        for x, k in m:
            if k < 0 or not is_int(x) and x.op not in ("floordiv", "mod", "int", "bitand", "bitor"):
                return False
            if x.op in ("floordiv", "mod", "bitand", "bitor") and not all(is_integer(y) for y in x.a):
                return False
    return True


def value(t, cell):
    """truth of a formula in a cell: key -> cell value"""
    o = t.op
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if o == "and":
        return all(value(x, cell) for x in t.a)
    if o == "or":
        return any(value(x, cell) for x in t.a)
    if o == "not":
        return not value(t.a[0], cell)
    if o in ("lt0", "le0", "eq0"):
        q = linear(t.a[0])
        if q is not None:
            b, k, c, isabs = q
            lo, hi = cell["num", b]
            if lo is not None and lo == hi:
                v = k * (abs(lo) if isabs else lo) + c
                return v < 0 if o == "lt0" else v <= 0 if o == "le0" else v == 0
            # open interval between critical values: any inner point decides
            x = -c / k
            for w in (x, -x, F(0)) if isabs else (x,):
                if (lo is None or lo < w) and (hi is None or w < hi):
                    raise KeyError(b)
            v = (lo + hi) / 2 if lo is not None and hi is not None else lo + 1 if lo is not None else hi - 1
            v = k * (abs(v) if isabs else v) + c
            if o == "eq0":
                return False
            return v < 0
    if o == "eq" and const_eq(t):
        u, k = const_eq(t)
        v = cell["const", u]
        if isinstance(v, frozenset):
            if k not in v:
                raise KeyError(u)
            return False
        return v is k
    if o == "isnone":
        v = cell["const", t.a[0]]
        if isinstance(v, frozenset):
            if NONE not in v:
                raise KeyError(t)
            return False
        return v is NONE
    st = string_test(t)
    if st:
        v = cell["const", st[0]]
        if isinstance(v, T) and v.op == "str":
            v = v.a[0]
            return v in st[2] if st[1] == "in" else v.startswith(st[2]) if st[1] == "startswith" else v.endswith(st[2])
    return cell["free", t]


def assignments(at):
    cs = at.cells()
    for vals in product(*[c[2] for c in cs]):
        yield cs, vals


POSITIONS = ("np.argmax", "np.argmin", "np.count_nonzero", "np.linalg.matrix_rank", "np.linalg.norm", "abs", "np.abs", "math.factorial", "math.comb",
             "np.std", "np.var", "math.hypot", "np.hypot", "np.ndim", "np.size", "id", "ord")
FACTS = []  # clauses that hold wherever no error has been raised


def possible(cs, vals):
    """may the cell exist, as far as linear relations between integers tell?"""
    if FACTS:
        cell = {c[:2]: v for c, v in zip(cs, vals)}
        for f in FACTS:
            try:
                if not value(f, cell):
                    return False
            except (KeyError, IndexError):
                pass
    cons = []  # (dict atom->coef, const) meaning sum + const <= 0
    names = set()
    for (kind, key, _), v in zip(cs, vals):
        if kind != "num":
            continue
        d = {}
        for m, c in poly(key).items():
            d[m] = c[0]
            names.update(x for x, _ in m)
        integer = is_integer(key)
        step = F(1) if integer else F(1, 1000)
        lo, hi = v
        if lo is not None and lo == hi:
            cons.append((d, -lo))
            cons.append(({m: -c for m, c in d.items()}, lo))
        else:
            if hi is not None:
                cons.append((d, -hi + (step if hi.denominator == 1 or not integer else 0)))
            if lo is not None:
                cons.append(({m: -c for m, c in d.items()}, lo + (step if lo.denominator == 1 or not integer else 0)))
    if not cons:
        return True
    return feasible(cons + known_relations(names))


def known_relations(names):
    out = []
    todo = list(names)
    seen = set()

    def le(*terms):  # sum of terms <= 0
        d = {}
        k = F(0)
        for t, c in terms:
            if t is None:
                k += c
                continue
            for m, x in poly(t).items():
                if x[1] != 0:
                    return
                if m == ():
                    k += c * x[0]
                else:
                    d[m] = d.get(m, 0) + c * x[0]
                    for y, _ in m:
                        if y not in seen:
                            todo.append(y)
        out.append(({m: c for m, c in d.items() if c}, k))

    one = F(1)
    while todo and len(seen) < 30:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("len", "rank", "lv", "count", "abs", "abs2", "norm2", "norm"):
            le((x, -one))
        if x.op == "call" and x.a[0] in ("bisect.bisect", "bisect.bisect_left", "bisect.bisect_right") and len(x.a) == 3:
            from .terms import mk
            le((x, -one))
            le((x, one), (mk("len", x.a[1]), -one))
        if x.op == "call" and x.a[0] in POSITIONS and len(x.a) >= 2:
            le((x, -one))
        if x.op == "meth" and x.a[0] in ("count", "index", "bit_length", "bit_count"):
            le((x, -one))
        if x.op == "nranks":
            le((x, -one), (None, one))
        if x.op == "rank":
            from .terms import mk
            le((x, one), (mk("nranks"), -one), (None, one))
        if x.op == "lv" and isinstance(x.a[0], T) and x.a[0].op == "count" and isinstance(x.a[0].a[0], T):
            le((x, one), (x.a[0].a[0], -one), (None, one))
        if x.op in ("floordiv", "mod") and len(x.a) == 2 and x.a[1].op == "num" and x.a[1].a[0] > 0 and x.a[1].a[1] == 0:
            k = x.a[1].a[0]
            if x.op == "mod":
                le((x, -one))
                le((x, one), (None, 1 - k))
            else:
                le((x, k), (x.a[0], -one))
                le((x, -k), (x.a[0], one), (None, 1 - k))
        if x.op == "floordiv" and len(x.a) == 2 and x.a[1].op in ("nranks", "len", "param"):
            # at most the dividend when both are not negative
            if x.a[0].op in ("len", "lv", "rank"):
                le((x, -one))
                le((x, one), (x.a[0], -one))
        if x.op == "min":
            for y in x.a:
                le((x, one), (y, -one))
        if x.op == "max":
            for y in x.a:
                le((y, one), (x, -one))
    return out


def feasible(cons):
    """Fourier-Motzkin elimination over the rationals"""
    cons = [(dict(d), k) for d, k in cons]
    while True:
        for d, k in cons:
            if not d and k > 0:
                return False
        cons = [c for c in cons if c[0]]
        if not cons:
            return True
        vs = {}
        for d, _ in cons:
            for m, c in d.items():
                p, q = vs.get(m, (0, 0))
                vs[m] = (p + (c > 0), q + (c < 0))
        m = min(vs, key=lambda v: (vs[v][0] * vs[v][1], _mono_key(v)))
        up = [c for c in cons if c[0].get(m, 0) > 0]
        dn = [c for c in cons if c[0].get(m, 0) < 0]
        rest = [c for c in cons if not c[0].get(m, 0)]
        if len(up) * len(dn) + len(rest) > 400:
            return True
        for d1, k1 in up:
            for d2, k2 in dn:
                a, b = d1[m], -d2[m]
                d = {}
                for x in set(d1) | set(d2):
                    if x != m:
                        v = d1.get(x, 0) * b + d2.get(x, 0) * a
                        if v:
                            d[x] = v
                rest.append((d, k1 * b + k2 * a))
        seen = {}
        for d, k in rest:
            key = frozenset(d.items())
            if key not in seen or seen[key][1] < k:
                seen[key] = (d, k)
        cons = list(seen.values())


def equivalent(a, b):
    """True, False (a possible cell tells them apart) or None"""
    at = Atoms()
    at.collect(a)
    at.collect(b)
    try:
        bad = None
        for cs, vals in assignments(at):
            cell = {c[:2]: v for c, v in zip(cs, vals)}
            if value(a, cell) != value(b, cell):
                bad = bad or []
                bad.append((cs, vals))
                if len(bad) > 200:
                    return None
    except TooMuch:
        return None
    if not bad:
        return True
    return False if any(possible(*x) for x in bad) else True


def implies(a, b):
    from .terms import b_or
    return equivalent(b_or(b_not(a), b), TRUE)


def shared(a, b):
    """are both conditions about the same quantities?"""
    x, y = Atoms(), Atoms()
    x.collect(a)
    y.collect(b)
    return (set(x.crit), set(x.consts), set(x.free)) == (set(y.crit), set(y.consts), set(y.free))


def branches(t, conds):
    """conditions of nested case distinctions"""
    if t.op == "gamma":
        conds.append(t.a[0])
        branches(t.a[1], conds)
        branches(t.a[2], conds)


def resolve(t, cell):
    while t.op == "gamma":
        t = t.a[1] if value(t.a[0], cell) else t.a[2]
    return t


def cases(a, b):
    """distinct pairs of values of two case distinctions over the possible cells (None: too many),
    and the quantities only one of them depends on"""
    at = Atoms()
    qs = []
    for t in (a, b):
        conds = []
        branches(t, conds)
        one = Atoms()
        for c in conds:
            at.collect(c)
            one.collect(c)
        qs.append(set(one.crit) | set(one.consts) | set(one.free))
    out = {}
    try:
        for cs, vals in assignments(at):
            cell = {c[:2]: v for c, v in zip(cs, vals)}
            x, y = resolve(a, cell), resolve(b, cell)
            if x is y or out.get((x, y)):
                continue
            out[x, y] = possible(cs, vals)
            if len(out) > 60:
                return None, ()
    except TooMuch:
        return None, ()
    return [k for k, v in out.items() if v], (qs[0] - qs[1], qs[1] - qs[0])
