"""Random interpretation of closed scalar terms.

Arithmetic, comparisons, case distinctions and finite sums keep their meaning; every other
operation is an uninterpreted function, so equal arguments give equal values.  Two terms that
get different values from one interpretation are different functions of their quantities
(provided that both are built from the same uninterpreted operations).
"""
import cmath
import hashlib
import math
import random
from itertools import product
from fractions import Fraction as F

from .terms import ONE, T, TRUE, FALSE, add, is_int, is_real, mk, neg, poly, scale, sub, subst, subterms

MEAN = {"num", "bool", "poly", "conj", "re", "im", "abs", "abs2", "sqrt", "exp", "inv", "pi", "floordiv", "mod", "min", "max",
        "gamma", "lt0", "le0", "eq0", "and", "or", "not", "sgnpow", "sum", "prod", "ex", "all", "pow", "tup", "str", "none",
        "eq", "bitand", "bitor", "shl", "shr", "int", "count", "lv", "len", "rank", "nranks", "rec", "recout", "recself", "norm2", "backward"}
FREE = {"param", "idx", "key", "elem", "call", "fn", "lib", "libcall", "attr", "glob", "opt", "in", "truth", "isnone", "slice",
        "range", "meth", "kw", "get", "values", "dictzip"}
ROUND = {"math.ceil": math.ceil, "math.floor": math.floor, "np.ceil": math.ceil, "np.floor": math.floor}
PYROUND = {"round", "np.round", "np.rint", "np.around"}
REALFN = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "arcsin": math.asin, "asin": math.asin, "arccos": math.acos,
          "acos": math.acos, "arctan": math.atan, "atan": math.atan, "log": math.log, "sinh": math.sinh, "cosh": math.cosh,
          "arctan2": math.atan2, "atan2": math.atan2, "hypot": math.hypot}
BUDGET = 6000


def sign(x):
    return (x > 0) - (x < 0)


REALFN["sign"] = sign


def counted(r):
    """is it the recurrence of a counted loop?"""
    x = r.a[0]
    return isinstance(x, T) and (x.op == "lv" or x.op == "backward" and x.a[0].op == "lv")


def counter(r):
    return r.a[0].a[0] if r.a[0].op == "backward" else r.a[0]


def realfn(t):
    """the real function a call stands for"""
    if t.op in ("call", "libcall") and isinstance(t.a[0], str) and t.a[0].split(".")[0] in ("np", "math", "numpy"):
        f = REALFN.get(t.a[0].split(".")[-1])
        if f is not None and len(t.a) == (3 if f in (math.atan2, math.hypot) else 2):
            return f
    return None


_DIGEST = {}


def digest(t):
    """a name of the term that does not depend on what else has been analysed"""
    d = _DIGEST.get(t)
    if d is None:
        def of(v):
            if isinstance(v, T):
                return digest(v)
            if isinstance(v, (tuple, list)):
                return "(" + ",".join(of(x) for x in v) + ")"
            if isinstance(v, (set, frozenset)):
                return "{" + ",".join(sorted(of(x) for x in v)) + "}"
            return repr(v)
        if t.op == "poly":
            parts = sorted(of(c) + "*" + ",".join(sorted(digest(x) + "^" + str(k) for x, k in m)) for m, c in t.a[0])
        else:
            parts = [of(x) for x in t.a]
            if t.op in ("and", "or", "eq", "min", "max", "setlit"):
                parts.sort()
        d = _DIGEST[t] = hashlib.blake2b((t.op + "(" + ";".join(parts)).encode(), digest_size=8).hexdigest()
    return d


class Stop(Exception):
    """not interpretable, or outside of the domain"""


class Interp:
    def __init__(self, seed, complexes, integers):
        self.seed = seed
        self.complexes, self.integers = complexes, integers
        self.memo = {}
        self.steps = 0
        self.env = {}
        self.recs = []  # values of the recurrences being unfolded
        self.strs = ("?",)
        self.truths = {}  # outcomes of the elementary conditions
        self.entries = {}  # numbers of entries of the vectors
        self.forced = {}  # values chosen so that a comparison is met exactly

    def rnd(self, key, kind):
        r = random.Random(repr((self.seed, key)))
        if kind == "real" and self.seed % 2:
            return r.uniform(0.2, 2.5)
        if kind == "int":
            return r.randint(0, 6)
        if kind == "len":
            return r.randint(1, 5)
        if kind == "complex":
            return complex(r.uniform(-2, 2), r.uniform(-2, 2))
        return r.uniform(0.2, 2.5) * (1 if r.random() < 0.75 else -1)

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.memo and not self.env and not self.recs:
            return self.memo[t]
        self.steps += 1
        if self.steps > BUDGET:
            raise Stop
        r = self._ev(t)
        if isinstance(r, bool) and t.op in ATOMS:
            self.truths.setdefault(t, set()).add(r)
        if not self.env and not self.recs:
            self.memo[t] = r
        return r

    def number(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float, complex)):
            if isinstance(v, complex) and abs(v.imag) < 1e-12:
                v = v.real
            if isinstance(v, float) and (v != v or abs(v) > 1e60):
                raise Stop
            return v
        raise Stop

    def real(self, v):
        v = self.number(v)
        if isinstance(v, complex):
            raise Stop
        return v

    def integer(self, v):
        v = self.real(v)
        if abs(v - round(v)) > 1e-9:
            raise Stop
        return int(round(v))

    def coef(self, c):
        if c[1] == 0:
            return int(c[0]) if c[0].denominator == 1 else float(c[0])
        return complex(float(c[0]), float(c[1]))

    def _ev(self, t):
        o, a = t.op, t.a
        ev = self.ev
        if o == "num":
            return self.coef(a)
        if o == "bool":
            return a[0]
        if o == "pi":
            return math.pi
        if o == "str":
            return ("s", a[0])
        if o == "none":
            return ("none",)
        if o == "poly":
            s = 0
            for m, c in a[0]:
                p = self.coef(c)
                for x, k in m:
                    v = self.number(ev(x))
                    if k < 0 and abs(v) < 1e-9:
                        raise Stop
                    p = p * v ** k if k > 0 or not isinstance(v, int) else p * float(v) ** k if not isinstance(v, complex) else p * v ** k
                s = s + p
            return self.number(s)
        if o == "conj":
            v = self.number(ev(a[0]))
            return v.conjugate()
        if o == "re":
            v = self.number(ev(a[0]))
            return v.real
        if o == "im":
            v = self.number(ev(a[0]))
            return v.imag
        if o == "abs":
            return abs(self.number(ev(a[0])))
        if o == "abs2":
            return abs(self.number(ev(a[0]))) ** 2
        if o == "sqrt":
            v = self.number(ev(a[0]))
            return self.number(cmath.sqrt(v))
        if o == "exp":
            v = self.number(ev(a[0]))
            if isinstance(v, (int, float)) and abs(v) > 60 or abs(v) > 60:
                raise Stop
            return self.number(cmath.exp(v))
        if o == "inv":
            v = self.number(ev(a[0]))
            if abs(v) < 1e-9:
                raise Stop
            return self.number(1 / v)
        if o == "pow":
            x, y = self.number(ev(a[0])), self.number(ev(a[1]))
            try:
                return self.number(x ** y)
            except (OverflowError, ZeroDivisionError):
                raise Stop
        if o in ("floordiv", "mod"):
            x, y = self.real(ev(a[0])), self.real(ev(a[1]))
            if abs(y) < 1e-9:
                raise Stop
            if not isinstance(x, int) or not isinstance(y, int):
                if is_near(x) and is_near(y):
                    x, y = round(x), round(y)
                else:
                    raise Stop
            return x // y if o == "floordiv" else x % y
        if o in ("min", "max"):
            vs = [self.real(ev(x)) for x in a]
            return min(vs) if o == "min" else max(vs)
        if o == "gamma":
            return ev(a[1]) if self.boolean(ev(a[0])) else ev(a[2])
        if o in ("lt0", "le0", "eq0"):
            v = self.number(ev(a[0]))
            if o == "eq0":
                return abs(v) < 1e-9
            v = self.real(v)
            if abs(v) < 1e-9:
                return o == "le0"
            return v < 0
        if o == "and":
            return all(self.boolean(ev(x)) for x in a)
        if o == "or":
            return any(self.boolean(ev(x)) for x in a)
        if o == "not":
            return not self.boolean(ev(a[0]))
        if o == "sgnpow":
            return -1 if self.integer(ev(a[0])) % 2 else 1
        if o in ("sum", "prod", "ex", "all") and a[0].op == "lv":
            n = self.integer(ev(a[0].a[0]))
            if not 0 <= n <= 12:
                raise Stop
            r = {"sum": 0, "prod": 1, "ex": False, "all": True}[o]
            old = self.env
            for i in range(n):
                self.env = dict(old)
                self.env[a[0]] = i
                v = ev(a[1])
                r = r + self.number(v) if o == "sum" else r * self.number(v) if o == "prod" else \
                    (r or self.boolean(v)) if o == "ex" else (r and self.boolean(v))
            self.env = old
            return r
        if o == "tup":
            return ("t",) + tuple(self.freeze(ev(x)) for x in a)
        if o in ("rec", "recout"):
            r = t if o == "rec" else a[0]
            if r.op != "rec" or not counted(r):
                raise Stop
            lv = counter(r)
            if lv.a[0].op != "count":
                raise Stop
            total = self.integer(ev(lv.a[0]))
            if r.a[0] is lv:
                steps = range(ev(lv) if o == "rec" else total)
            else:
                steps = range(total - 1, ev(lv) if o == "rec" else -1, -1)
            if not 0 <= len(steps) <= 12:
                raise Stop
            old = self.env
            self.recs.append(None)
            try:
                v = ev(r.a[1])
                for i in steps:
                    self.recs[-1] = v
                    self.env = dict(old)
                    self.env[lv] = i
                    v = ev(r.a[2])
            finally:
                self.recs.pop()
                self.env = old
            return v
        if o == "recself":
            if len(self.recs) < a[0] or self.recs[-a[0]] is None:
                raise Stop
            return self.recs[-a[0]]
        if o == "eq" and (a[0].op == "str") != (a[1].op == "str"):
            x, y = a if a[1].op == "str" else a[::-1]
            v = self.freeze(ev(x))
            if not isinstance(v, tuple) or v[0] != "s":
                v = ("s", random.Random(repr((self.seed, "str", v))).choice(self.strs))
            return v == self.freeze(ev(y))
        if o == "eq":
            return self.freeze(ev(a[0])) == self.freeze(ev(a[1]))
        if o in ("bitand", "bitor", "shl", "shr"):
            x, y = [self.integer(ev(z)) for z in a]
            if o in ("shl", "shr") and not 0 <= y <= 200:
                raise Stop
            return x & y if o == "bitand" else x | y if o == "bitor" else x << y if o == "shl" else x >> y
        if o == "int":
            return int(self.real(ev(a[0])))
        if o == "count":
            return self.integer(ev(a[0]))
        if o == "lv":
            if a[0].op != "count":
                return self.rnd(digest(t), "int")
            n = self.integer(ev(a[0]))
            if n < 1:
                raise Stop
            return random.Random(repr((self.seed, digest(t)))).randint(0, min(n, 12) - 1)
        if o == "len":
            return self.rnd(("len", self.freeze(ev(a[0]))), "len")
        if o == "nranks":
            return random.Random(repr((self.seed, "nranks"))).randint(1, 5)
        if o == "rank":
            return random.Random(repr((self.seed, "rank"))).randint(0, 4) % random.Random(repr((self.seed, "nranks"))).randint(1, 5)
        if extremum(t):
            d = a[1].a[0]
            n = ev(mk("len", d))
            vs = [self.real(ev(mk("idx", d, mk("key", d, mk("num", F(i), F(0)))))) for i in range(n)]
            return extremum(t)(vs)
        if o == "call" and a[0] in ROUND and len(a) == 2:
            v = self.real(ev(a[1]))
            return round(v) if is_near(v) else ROUND[a[0]](v)
        if o == "call" and a[0] in PYROUND and len(a) == 2:
            return round(self.real(ev(a[1])))
        if o in ("call", "libcall") and realfn(t):
            return realfn(t)(*[self.real(ev(x)) for x in a[1:]])
        if o == "idx" and len(a) == 2 and a[1].op == "num" and a[1].a[1] == 0 and a[1].a[0] < 0 and a[0].op in FREE:
            n = self.integer(ev(mk("len", a[0])))
            if n + a[1].a[0] < 0:
                raise Stop
            return self._ev(mk("idx", a[0], mk("num", F(n + int(a[1].a[0])), F(0))))
        if o == "norm2":  # of a vector whose entries are looked up one by one
            n = self.entries.get(a[0], 0)
            if n < 2:
                raise Stop
            return sum(abs(self.number(ev(mk("idx", a[0], mk("num", F(i), F(0)))))) ** 2 for i in range(n))
        key = self.key(t)
        if key in self.forced:
            return self.forced[key]
        kind = "int" if t in self.integers or is_int(t) else "complex" if t in self.complexes else "real"
        if o in ("in", "truth", "isnone") or o in BOOLS:
            return random.Random(repr((self.seed, key))).random() < 0.5
        return self.rnd(key, kind)

    def key(self, t):
        """the name of an uninterpreted value"""
        if t.op not in FREE:
            if not self.env and not self.recs:
                return ("shared", digest(t))
            inner = set(subterms(t))
            return ("shared", digest(t)) + tuple(sorted((digest(x), self.freeze(v)) for x, v in self.env.items() if x in inner)) + \
                (tuple(None if v is None else self.freeze(v) for v in self.recs) if any(x.op == "recself" for x in inner) else ())
        if t.op == "call" and t.a[0] == "scipy.special.sph_harm" and len(t.a) == 5:  # periodic in the azimuth
            try:
                phi = self.real(self.ev(t.a[3]))
            except (Stop, TypeError, ValueError):
                raise Stop
            return (t.op, t.a[0]) + tuple(self.freeze(self.ev(x)) for x in (t.a[1], t.a[2], t.a[4])) + \
                (self.freeze(math.cos(phi)), self.freeze(math.sin(phi)))
        return (t.op,) + tuple(self.freeze(self.ev(x)) if isinstance(x, T) else ("lit", repr(x)) if not isinstance(x, tuple) else
                               ("n", digest(t)) for x in t.a)

    def meet(self, c):
        """choose a quantity so that the comparison holds with equality"""
        p = poly(c.a[0])
        for m, k in sorted(p.items(), key=lambda mk: (len(mk[0]), [digest(x) for x, _ in mk[0]])):
            if len(m) != 1 or m[0][1] != 1 or k[1] != 0:
                continue
            t = m[0][0]
            if t.op not in FREE or t.op in ("in", "truth", "isnone", "slice", "range", "kw") or realfn(t) or \
                    t.op == "call" and (t.a[0] in ROUND or t.a[0] in PYROUND) or \
                    any(t in subterms(x) for n, _ in p.items() for x, _ in n if x is not t):
                continue
            v = self.real(self.ev(c.a[0]))
            old = self.real(self.ev(t))
            new = old - v / float(k[0])
            if isinstance(old, int):
                if not is_near(new) or new < -0.5:
                    continue
                new = int(round(new))
            elif self.seed % 2 and new < 0:
                continue
            self.forced[self.key(t)] = new
            self.memo.clear()
            return abs(self.real(self.ev(c.a[0]))) < 1e-9
        return False

    def boolean(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float, complex)):
            return abs(v) > 1e-9
        raise Stop

    def freeze(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return ("n", v)
        if isinstance(v, (float, complex)):
            if is_near(v):
                return ("n", int(round(v.real)))
            return ("c", round(v.real, 7), round(v.imag, 7))
        return v


ATOMS = {"lt0", "le0", "eq0", "eq", "in", "truth", "isnone", "isinstance"}
BOOLS = {"exc", "isinstance"}


def is_near(v):
    return abs(v.imag) < 1e-9 and abs(v.real - round(v.real)) < 1e-9


def same(x, y):
    if isinstance(x, tuple) or isinstance(y, tuple):
        return x == y
    if isinstance(x, bool) != isinstance(y, bool):
        x, y = complex(x), complex(y)
    return abs(x - y) <= 1e-7 * (1 + abs(x) + abs(y))


def extremum(t):
    """the greatest or smallest of the values of a mapping"""
    if t.op in ("call", "libcall") and len(t.a) == 2 and isinstance(t.a[0], str) and isinstance(t.a[1], T) and t.a[1].op == "values":
        return {"max": max, "min": min}.get(t.a[0].rsplit(".", 1)[-1])
    return None


def plain(t):
    """with mappings of given keys to given values, never changed, as they are given"""
    m = {x: x.a[1] for x in subterms(t) if x.op == "obj" and len(x.a) == 2 and x.a[1].op == "dictzip" and
         all(y.op == "param" for y in x.a[1].a)}
    return subst(t, m) if m else t


def turned(x, y):
    """do two angles differ by full turns?"""
    if isinstance(x, float) and isinstance(y, float):
        k = (x - y) / (2 * math.pi)
        return round(k) != 0 and abs(k - round(k)) < 1e-9
    return False


def heads(t, shared):
    """uninterpreted operations outside of the shared parts; None when a part has no reading"""
    out = set()
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > 400:
            return None
        if x in shared:
            continue
        if extremum(x):
            todo.append(x.a[1].a[0])
            continue
        if x.op not in MEAN:
            if x.op not in FREE:
                return None
            if x.op == "call" and (x.a[0] in ROUND or x.a[0] in PYROUND and len(x.a) == 2) or realfn(x):
                pass
            elif x.op in ("call", "libcall", "fn", "lib", "meth", "attr", "glob", "opt", "param"):
                out.add((x.op, str(x.a[0])))
            else:
                out.add((x.op,))
        if x.op == "poly":
            todo += [y for m, _ in x.a[0] for y, _ in m]
        else:
            todo += [y for y in x.a if isinstance(y, T)]
            if any(isinstance(y, tuple) for y in x.a) and x.op in FREE:
                return None
    return out


def built(t):
    """containers made by the function that the value reads"""
    return {x.a[0] for x in subterms(t) if x.op in ("get", "idx", "key", "elem") and x.a[0].op in
            ("obj", "set", "setlit", "dict", "sorted", "seq", "tuple", "rev")}


def free_counters(t, bound=frozenset()):
    out = set()
    todo = [(t, bound)]
    seen = set()
    while todo:
        x, bd = todo.pop()
        if (x, bd) in seen:
            continue
        seen.add((x, bd))
        if x.op == "lv":
            if x not in bd:
                out.add(x)
            continue
        if x.op == "rec" and counted(x):
            lv = counter(x)
            todo += [(lv, bd), (x.a[1], bd), (x.a[2], bd | {lv})]
        elif x.op == "recout" and x.a[0].op == "rec" and counted(x.a[0]):
            r = x.a[0]
            lv = counter(r)
            todo += [(lv.a[0], bd), (r.a[1], bd), (r.a[2], bd | {lv})]
        elif x.op in ("sum", "prod", "ex", "all"):
            todo.append((x.a[0].a[0], bd))
            todo.append((x.a[1], bd | {x.a[0]}))
        elif x.op == "poly":
            todo += [(y, bd) for m, _ in x.a[0] for y, _ in m]
        else:
            todo += [(y, bd) for y in x.a if isinstance(y, T)]
    return out


def used_heads(ts):
    out = set()
    for x in ts:
        if x.op in ("call", "libcall", "fn", "lib", "meth", "attr", "glob", "opt", "param"):
            out.add((x.op, str(x.a[0])))
        elif x.op in FREE:
            out.add((x.op,))
    return out


SAMPLES = 60


def compare(a, b, suba, subb, facts=()):
    """'differ', 'agree' or None.  suba, subb: everything either side is made of"""
    a, b = plain(a), plain(b)
    shared = suba & subb
    ha, hb = heads(a, shared), heads(b, shared)
    if ha is None or hb is None:
        return None
    # counters of different loops do not correspond
    la, lb = ({x for x in free_counters(t)} for t in (a, b))
    if la != lb and a.op != "lv" and b.op != "lv" and not (la >= lb and la <= shared or lb >= la and lb <= shared):
        return None
    if built(a) != built(b):  # what is looked up in them depends on how they have been filled
        return None
    ua, ub = used_heads(suba), used_heads(subb)
    foreign = any(h not in ub and h[0] != "param" for h in ha) or any(h not in ua and h[0] != "param" for h in hb)
    cx, ints = set(), set()
    for t in (a, b):
        for x in subterms(t):
            if x.op in ("conj", "im", "re", "abs2"):
                cx.update(y for y in subterms(x.a[0]) if y.op not in MEAN and not is_real(y))
            if x.op == "eq0" and all(c[1] == 0 and c[0].denominator == 1 for c in poly(x.a[0]).values()) and () in poly(x.a[0]):
                ints.update(y for m in poly(x.a[0]) for y, k in m if k == 1 and y.op in FREE and y not in cx)
            if x.op in ("floordiv", "mod", "count", "sgnpow", "bitand", "bitor", "shl", "shr"):
                for z in x.a:
                    if isinstance(z, T):
                        ints.update(y for m in poly(z) for y, _ in m if y.op not in MEAN)
    truths, met = set(), {}
    n = agree = differ = positive = turns = 0
    here = {x for t in (a, b) for x in subterms(t)}
    facts = [f for f in facts if any(x in here and (x.op in FREE or x.op == "lv") for x in subterms(f)) and
             not any(x.op == "str" for x in subterms(f))]
    for f in facts:  # x == int(x)
        ints.update(x.a[0] for x in subterms(f) if x.op == "int" and x.a[0].op in FREE and x.a[0] not in cx and
                    any(y.op == "eq0" and y.a[0] in (sub(x, x.a[0]), sub(x.a[0], x)) for y in subterms(f)))
    rounded = any(x.op in ("max", "min", "count") or x.op == "call" and (x.a[0] in ROUND or x.a[0] in PYROUND)
                  for t in (a, b) for x in subterms(t))
    entries = {}
    for x in suba | subb:
        if x.op == "idx" and len(x.a) == 2 and x.a[1].op == "num" and x.a[1].a[1] == 0 and x.a[1].a[0] >= 0:
            entries[x.a[0]] = max(entries.get(x.a[0], 0), int(x.a[1].a[0]) + 1)
    strs = tuple(sorted({x.a[0] for x in here if x.op == "str"})) + ("?",)
    edges = sorted({x for t in (a, b) for x in subterms(t) if x.op in ("lt0", "le0", "eq0") and not
                    free_counters(x) - la - lb}, key=digest)[:12]
    limits = {x for t in (a, b) for x in subterms(t) if x.op in ("min", "max") and len(x.a) == 2 and not free_counters(x) and
              any(y.op == "num" for y in x.a)}
    for e in list(edges):  # either sign of what only counts by its size
        sizes = [x for x in subterms(e) if x.op == "abs" and not any(y.op == "abs" for y in subterms(x.a[0]))] if e.op == "eq0" else []
        if 0 < len(sizes) <= 2:
            for signs in product((1, -1), repeat=len(sizes)):
                edges.append(mk("eq0", subst(e.a[0], {x: x.a[0] if k == 1 else neg(x.a[0]) for x, k in zip(sizes, signs)})))
    edges += [mk("eq0", add(sub(*x.a), d)) for x in sorted(limits, key=digest)[:2] for c in x.a if c.op == "num"
              for h in (scale(c, (F(1, 2), F(0))),) for d in 2 * (ONE, neg(ONE), h, neg(h))]
    first = list(range(SAMPLES + 4 * len(edges)))
    more = list(range(1000, 1000 + 4 * SAMPLES)) if a.op in ATOMS | {"and", "or"} and (la or lb) else []
    for seed in first + more:  # conditions on counters may rarely be met
        if seed >= 1000 and (foreign or n > 10 or differ >= 2 and (positive >= 2 or not rounded)):
            break
        it = Interp(seed, cx, ints)
        it.strs = strs
        it.entries = entries
        try:
            if 1000 > seed >= SAMPLES and not it.meet(edges[(seed - SAMPLES) // 4]):
                continue
            if any(holds(it, f) is False for f in facts):
                continue
            x, y = it.ev(a), it.ev(b)
            if same(x, y):
                agree += 1
                truths.add(x if isinstance(x, bool) else None)
                for c, v in it.truths.items():
                    met.setdefault(c, set()).update(v)
            elif turned(x, y):
                turns += 1
            else:
                differ += 1
                positive += seed % 2
        except (Stop, OverflowError, ZeroDivisionError, RecursionError, TypeError, ValueError):
            n += seed < SAMPLES
            if n > 30:
                break
    if differ >= 2 and not foreign and (positive >= 2 or not rounded):
        return "differ"
    if agree >= 8 and not differ and not turns and truths not in ({True}, {False}) and (
            None in truths or all(len(v) == 2 for v in met.values())):
        return "agree"
    return None


def holds(it, f):
    try:
        return it.boolean(it.ev(f))
    except Exception:
        return None


def missed(lv, count, guard, facts=()):
    """does the guard hold in some iterations that are not done with the other number of them?"""
    if heads(guard, set()) is None:
        return False
    facts = [f for f in facts if not any(x.op == "str" for x in subterms(f))]
    ints = {y for t in (count, lv, guard, *facts) for x in subterms(t) if x.op in ("count", "lt0", "le0", "eq0", "min", "max")
            for z in x.a for m in poly(z) for y, _ in m if y.op in FREE}
    n = 0
    for seed in range(4 * SAMPLES):
        it = Interp(seed, set(), ints)
        try:
            m, k = it.integer(it.ev(count)), it.integer(it.ev(lv.a[0]))
            for v in range(max(m, 0), min(k, 12)):
                it.env = {lv: v}
                if it.boolean(it.ev(guard)) and all(holds(it, f) is not False for f in facts):
                    n += 1
                    break
        except (Stop, OverflowError, ZeroDivisionError, RecursionError, TypeError, ValueError):
            pass
        if n >= 3:
            return True
    return False
