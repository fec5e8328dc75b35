"""Hash-consed value numbers (terms) with a canonical polynomial normal form.

Two expressions of the analysed program get the same term exactly when the
rewrite rules below (ring axioms with complex rational coefficients, sqrt/abs/
conjugate laws, boolean normalisation) make them equal.  No program is run.
"""
from fractions import Fraction as F


class T:
    __slots__ = ("op", "a", "n")

    def __repr__(self):
        return show(self)


_TAB = {}
_CNT = [0]


def mk(op, *a):
    k = (op, a)
    t = _TAB.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.n = _CNT[0]
        _CNT[0] += 1
        _TAB[k] = t
    return t


def num(re, im=0):
    return mk("num", F(re), F(im))


def numlit(v):
    """literal of the source: decimal literals are read exactly"""
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return num(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("float_special", repr(v))
        return num(F(repr(v)))
    if isinstance(v, complex):
        return mk("num", F(repr(v.real)), F(repr(v.imag)))
    raise TypeError(v)


ZERO = num(0)
ONE = num(1)
MONE = num(-1)
HALF = num(F(1, 2))
J = num(0, 1)
TRUE = mk("bool", True)
FALSE = mk("bool", False)
NONE = mk("none")
PI = mk("pi")


def S(s):
    return mk("str", s)


def tup(*xs):
    return mk("tup", *xs)


def is_num(t):
    return t.op == "num"


def as_int(t):
    if t.op == "num" and t.a[1] == 0 and t.a[0].denominator == 1:
        return int(t.a[0])
    if t.op == "bool":
        return int(t.a[0])
    return None


def as_frac(t):
    if t.op == "num" and t.a[1] == 0:
        return t.a[0]
    if t.op == "bool":
        return F(int(t.a[0]))
    return None


# ---------------------------------------------------------------- polynomials
def _cm(x, y):
    return (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])


def _ca(x, y):
    return (x[0] + y[0], x[1] + y[1])


C1 = (F(1), F(0))
C0 = (F(0), F(0))


def poly(t):
    """dict mono -> coef"""
    if t.op == "num":
        return {(): (t.a[0], t.a[1])} if (t.a[0] or t.a[1]) else {}
    if t.op == "bool":
        return {(): C1} if t.a[0] else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {((t, 1),): C1}


def _mono_key(m):
    return (len(m), tuple((x.n, e) for x, e in m))


def unpoly(d):
    d = {m: c for m, c in d.items() if c != C0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk("num", c[0], c[1])
        if c == C1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(d.items(), key=lambda mc: _mono_key(mc[0]))))


def add(*ts):
    d = {}
    for t in ts:
        for m, c in poly(t).items():
            d[m] = _ca(d.get(m, C0), c)
    return unpoly(d)


def scale(t, c):
    return unpoly({m: _cm(k, c) for m, k in poly(t).items()})


def neg(t):
    return scale(t, (F(-1), F(0)))


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def _mono_mul(m1, m2):
    """returns (mono, extra factor terms)"""
    e = {}
    for x, k in m1 + m2:
        e[x] = e.get(x, 0) + k
    extra = []
    # sqrt(x)^2 -> x ; inv(p)^-k -> p^k ; pow merging ; conj pairs -> abs2
    changed = True
    while changed:
        changed = False
        for x in list(e):
            k = e.get(x, 0)
            if k == 0:
                e.pop(x, None)
                changed = True
                continue
            if x.op == "sqrt" and (k >= 2 or k <= -2):
                q = 2 if k > 0 else -2
                e[x] = k - q
                extra.append(x.a[0] if q > 0 else div(ONE, x.a[0]))
                changed = True
            elif x.op == "inv" and k < 0:
                e.pop(x)
                for _ in range(-k):
                    extra.append(x.a[0])
                changed = True
            elif x.op == "abs" and k >= 2:
                e[x] = k - 2
                extra.append(mk("abs2", x.a[0]))
                changed = True
            elif x.op == "sgnpow" and abs(k) >= 2:
                # ((-1)**n)**2 == 1
                e[x] = k % 2
                changed = True
            elif x.op == "conj" and k > 0 and e.get(x.a[0], 0) > 0:
                q = min(k, e[x.a[0]])
                e[x] -= q
                e[x.a[0]] -= q
                e[mk("abs2", x.a[0])] = e.get(mk("abs2", x.a[0]), 0) + q
                changed = True
        exps = [x for x in e if x.op == "exp" and e[x] != 0]
        if len(exps) > 1 or (len(exps) == 1 and e[exps[0]] != 1):
            tot = ZERO
            for x in exps:
                tot = add(tot, mul(num(e.pop(x)), x.a[0]))
            r = fn_exp(tot)
            if r.op == "exp":
                e[r] = 1
            else:
                extra.append(r)
            changed = True
    m = tuple(sorted(((x, k) for x, k in e.items() if k), key=lambda p: p[0].n))
    return m, extra


def mul2(a, b):
    if a.op == "gamma" and is_const(b):
        return gamma(a.a[0], mul2(a.a[1], b), mul2(a.a[2], b))
    if b.op == "gamma" and is_const(a):
        return gamma(b.a[0], mul2(a, b.a[1]), mul2(a, b.a[2]))
    pa, pb = poly(a), poly(b)
    # p * inv(p)
    for p, q in ((a, b), (b, a)):
        if q.op == "inv" and p.op == "poly":
            r = _ratio(p, q.a[0])
            if r is not None:
                return mk("num", r[0], r[1])
    d = {}
    rest = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m, extra = _mono_mul(m1, m2)
            c = _cm(c1, c2)
            if extra:
                t = unpoly({m: c})
                for x in extra:
                    t = mul2(t, x)
                rest.append(t)
            else:
                d[m] = _ca(d.get(m, C0), c)
    r = unpoly(d)
    if rest:
        r = add(r, *rest)
    return r


def _ratio(p, q):
    """complex rational r with p == r*q, else None"""
    dp, dq = poly(p), poly(q)
    if set(dp) != set(dq) or not dp:
        return None
    r = None
    for m in dp:
        c = _cdiv(dp[m], dq[m])
        if r is None:
            r = c
        elif r != c:
            return None
    return r


def _cdiv(x, y):
    n = y[0] * y[0] + y[1] * y[1]
    return _cm(x, (y[0] / n, -y[1] / n))


def mul(*ts):
    r = ONE
    for t in ts:
        r = mul2(r, t)
    return r


def is_const(t):
    return t.op in ("num", "bool")


def div(a, b):
    if b.op == "bool":
        b = num(int(b.a[0]))
    if b.op == "num":
        if b.a[0] == 0 and b.a[1] == 0:
            return mk("divzero", a)
        return scale(a, _cdiv(C1, (b.a[0], b.a[1]))) if a.op != "gamma" else mul2(
            a, mk("num", *_cdiv(C1, (b.a[0], b.a[1])))
        )
    if a is b:
        return ONE
    pb = poly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = unpoly({tuple((x, -k) for x, k in m): _cdiv(C1, c)})
        # normalise special atoms through a multiplication
        r = ONE
        for x, k in m:
            r = mul2(r, _atom_pow(x, -k))
        r = scale(r, _cdiv(C1, c))
        return mul2(a, r)
    r = _ratio(a, b)
    if r is not None:
        return mk("num", r[0], r[1])
    # leading coefficient one
    lead = sorted(pb.items(), key=lambda mc: _mono_key(mc[0]))[-1][1]
    bn = scale(b, _cdiv(C1, lead))
    return scale(mul2(a, mk("inv", bn)), _cdiv(C1, lead))


def _atom_pow(x, k):
    if x.op == "inv" and k < 0:
        r = ONE
        for _ in range(-k):
            r = mul2(r, x.a[0])
        return r
    m, extra = _mono_mul(((x, k),), ())
    t = unpoly({m: C1})
    for e in extra:
        t = mul2(t, e)
    return t


def power(a, b):
    fb = as_frac(b)
    if fb is not None and fb.denominator == 1:
        n = int(fb)
        if a.op == "gamma" and n >= 0:
            return gamma(a.a[0], power(a.a[1], b), power(a.a[2], b))
        if 0 <= n <= 8:
            r = ONE
            for _ in range(n):
                r = mul2(r, a)
            return r
        if -8 <= n < 0:
            return div(ONE, power(a, num(-n)))
    if fb == F(1, 2):
        return fn_sqrt(a)
    if fb == F(-1, 2):
        return div(ONE, fn_sqrt(a))
    if a is MONE:
        return sgnpow(b)
    return mk("pow", a, b)


def sgnpow(k):
    """(-1)**k, exponent reduced modulo 2 in its integer coefficients"""
    d = {}
    sign = 1
    for m, c in poly(k).items():
        if c[1] != 0 or c[0].denominator != 1:
            return mk("pow", MONE, k)
        r = int(c[0]) % 2
        if r:
            if m == ():
                sign = -sign
            else:
                d[m] = C1
    t = unpoly(d)
    if t is ZERO:
        return num(sign)
    # parity(x mod 2) == parity(x)
    if t.op == "mod" and as_int(t.a[1]) == 2:
        t = t.a[0]
        r = sgnpow(t)
        return r if sign == 1 else neg(r)
    r = mk("sgnpow", t)
    return r if sign == 1 else neg(r)


def _isqrt_frac(q):
    if q < 0:
        return None
    from math import isqrt

    a, b = isqrt(q.numerator), isqrt(q.denominator)
    if a * a == q.numerator and b * b == q.denominator:
        return F(a, b)
    return None


def fn_sqrt(x):
    f = as_frac(x)
    if f is not None and f >= 0:
        r = _isqrt_frac(f)
        if r is not None:
            return num(r)
        # sqrt(p/q) = sqrt(p*q)/q with square factors removed
        n = f.numerator * f.denominator
        out = 1
        k = 2
        while k * k <= n and k < 1000:
            while n % (k * k) == 0:
                n //= k * k
                out *= k
            k += 1
        return scale(mk("sqrt", num(n)), (F(out, f.denominator), F(0)))
    if x.op == "abs2":
        return mk("abs", x.a[0])
    # pull out a positive rational content with an exact root
    p = poly(x)
    if p and x.op == "poly":
        lead = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))[-1][1]
        if lead[1] == 0 and lead[0] > 0 and lead[0] != 1:
            return mul2(fn_sqrt(num(lead[0])), mk("sqrt", scale(x, _cdiv(C1, lead))))
    return mk("sqrt", x)


def fn_exp(x):
    if x is ZERO:
        return ONE
    return mk("exp", x)


REAL_OPS = {"abs", "abs2", "norm2", "re", "im", "len", "pi", "lv", "count", "norm", "int", "rank", "nranks",
            "floordiv", "mod", "sgnpow", "num_real"}
_REAL_HOOK = []


def is_real(t):
    if t.op == "num":
        return t.a[1] == 0
    if t.op in REAL_OPS or t.op in ("bool", "eq", "eq0", "lt0", "le0", "and", "or", "not", "in"):
        return True
    if t.op == "poly":
        return all(c[1] == 0 and all(is_real(x) for x, _ in m) for m, c in t.a[0])
    if t.op in ("sqrt", "inv", "exp", "sum", "prod", "rsum") and isinstance(t.a[-1], T):
        return is_real(t.a[-1])
    if t.op == "gamma":
        return is_real(t.a[1]) and is_real(t.a[2])
    for h in _REAL_HOOK:
        if h(t):
            return True
    return False


class assume_real:
    """context manager: terms satisfying the predicate are real"""

    def __init__(self, pred):
        self.pred = pred

    def __enter__(self):
        _REAL_HOOK.append(self.pred)

    def __exit__(self, *a):
        _REAL_HOOK.remove(self.pred)


def conj(t):
    if t.op == "num":
        return mk("num", t.a[0], -t.a[1])
    if t.op == "poly":
        r = ZERO
        for m, c in t.a[0]:
            f = mk("num", c[0], -c[1])
            for x, k in m:
                f = mul2(f, _atom_pow_term(conj(x), k))
            r = add(r, f)
        return r
    if is_real(t):
        return t
    if t.op == "conj":
        return t.a[0]
    if t.op in ("sqrt", "inv", "exp"):
        if t.op == "inv":
            return div(ONE, conj(t.a[0]))
        if t.op == "exp":
            return fn_exp(conj(t.a[0]))
    if t.op == "gamma":
        return gamma(t.a[0], conj(t.a[1]), conj(t.a[2]))
    if t.op == "inner":
        return mk("inner", t.a[1], t.a[0])
    if t.op in ("transpose",):
        return mk("transpose", conj(t.a[0]))
    return mk("conj", t)


def _atom_pow_term(x, k):
    if k >= 0:
        r = ONE
        for _ in range(k):
            r = mul2(r, x)
        return r
    return div(ONE, _atom_pow_term(x, -k))


def re_part(t):
    if is_real(t):
        return t
    if t.op == "conj":
        return re_part(t.a[0])
    return mk("re", t)


def im_part(t):
    if is_real(t):
        return ZERO
    if t.op == "num":
        return num(t.a[1])
    # real factor/sign extraction
    p = poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if c[1] == 0 and c != C1:
            return scale(im_part(unpoly({m: C1})), c)
    return mk("im", t)


def fn_abs(t):
    f = as_frac(t)
    if f is not None:
        return num(abs(f))
    p = poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if c[1] == 0 and c[0] != 1:
            return mul2(num(abs(c[0])), fn_abs(unpoly({m: C1})))
    elif p:
        # sign-normalise
        lead = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))[-1][1]
        if lead[1] == 0 and lead[0] < 0:
            t = neg(t)
    if t.op in ("abs", "abs2", "norm2", "norm", "len", "exp") and is_real(t):
        return t
    if t.op == "conj":
        return fn_abs(t.a[0])
    if len(p) == 1:
        (m, c), = p.items()
        if c == C1 and len(m) == 1 and m[0][1] == 2:
            return t if is_real(m[0][0]) else mk("abs2", m[0][0])
    return mk("abs", t)


# ---------------------------------------------------------------- booleans
def b_not(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.a[0]
    if t.op == "lt0":
        return le0(neg(t.a[0]))
    if t.op == "le0":
        return lt0(neg(t.a[0]))
    if t.op == "and":
        return b_or(*[b_not(x) for x in t.a])
    if t.op == "or":
        return b_and(*[b_not(x) for x in t.a])
    if t.op == "ex":
        return mk("all", t.a[0], b_not(t.a[1]))
    if t.op == "all":
        return mk("ex", t.a[0], b_not(t.a[1]))
    if t.op == "gamma":
        return gamma(t.a[0], b_not(t.a[1]), b_not(t.a[2]))
    if t.op == "num":
        return FALSE if (t.a[0] or t.a[1]) else TRUE
    if t.op == "none":
        return TRUE
    return mk("not", t)


def _lead_pos(p):
    """positive rational scaling so that leading coefficient has modulus one"""
    d = poly(p)
    if not d:
        return p
    lead = sorted(d.items(), key=lambda mc: _mono_key(mc[0]))[-1][1]
    if lead[1] == 0:
        return scale(p, (1 / abs(lead[0]), F(0)))
    return p


def unabs(p, rel):
    """|x| < y is x < y and -x < y"""
    if p.op not in ("poly", "abs"):
        return None
    d = poly(p)
    at = [(m, c) for m, c in d.items() if any(x.op == "abs" for x, _ in m)]
    if len(at) != 1 or at[0][1][1] != 0 or len(at[0][0]) != 1 or at[0][0][0][1] != 1:
        return None
    (m, c), = at
    x = m[0][0].a[0]
    if not (is_real(x) or is_int(x)):
        return None
    rest = dict(d)
    del rest[m]
    rest = unpoly(rest)
    x = scale(x, (c[0], F(0)))
    f = b_and if c[0] > 0 else b_or
    return f(rel(add(rest, x)), rel(sub(rest, x)))


def by_parity(p, rel):
    """a condition on n % 2 alone"""
    if p.op not in ("poly", "mod"):
        return None
    d = poly(p)
    ms = [m for m in d if m != ()]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
        return None
    x = ms[0][0][0]
    if x.op != "mod" or as_int(x.a[1]) != 2 or d[ms[0]][1] != 0 or d.get((), C1)[1] != 0:
        return None
    c, k = d[ms[0]][0], d.get((), (F(0), F(0)))[0]
    even, odd = rel(k), rel(k + c)
    z = mk("eq0", x)
    return TRUE if even and odd else FALSE if not even and not odd else z if even else mk("not", z)


def lt0(p):
    f = as_frac(p)
    if f is not None:
        return TRUE if f < 0 else FALSE
    r = by_parity(p, lambda v: v < 0)
    if r is not None:
        return r
    x = neg(p)
    if x.op in ("abs", "abs2", "norm2"):
        return b_not(eq0(x))
    if p.op in ("abs", "abs2", "norm2"):
        return FALSE
    if p.op == "gamma":
        return gamma(p.a[0], lt0(p.a[1]), lt0(p.a[2]))
    r = unabs(p, lt0)
    if r is not None:
        return r
    return mk("lt0", _lead_pos(p))


def le0(p):
    f = as_frac(p)
    if f is not None:
        return TRUE if f <= 0 else FALSE
    r = by_parity(p, lambda v: v <= 0)
    if r is not None:
        return r
    if p.op in ("abs", "abs2", "norm2"):
        return eq0(p)
    if neg(p).op in ("abs", "abs2", "norm2"):
        return TRUE
    if p.op == "gamma":
        return gamma(p.a[0], le0(p.a[1]), le0(p.a[2]))
    r = unabs(p, le0)
    if r is not None:
        return r
    return mk("le0", _lead_pos(p))


NONNUM = {"str", "tup", "none", "list", "cell", "dict", "concat", "fstr", "set", "bytes", "keys", "values", "items", "setlit", "frozenset",
          "sorted", "obj"}


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "gamma" and (b.op in ("num", "str", "none", "bool")):
        return gamma(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == "gamma" and (a.op in ("num", "str", "none", "bool")):
        return gamma(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if a.op == "bool" and b.op not in NONNUM and b.op != "num":
        a, b = b, a
    if b.op == "bool" and a.op in ("eq", "eq0", "lt0", "le0", "and", "or", "not", "in", "ex", "all", "bool"):
        return a if b.a[0] else b_not(a)
    if a.op in ("tup", "list") and b.op == a.op:
        if len(a.a) != len(b.a):
            return FALSE
        return b_and(*[eq(x, y) for x, y in zip(a.a, b.a)])
    if a.op in NONNUM or b.op in NONNUM:
        if a.op in NONNUM and b.op in NONNUM and a.op in ("str", "none", "tup", "list") and b.op in (
            "str", "none", "tup", "list"
        ):
            return FALSE  # different constants
        if (a.op in ("none", "str") and b.op in ("num", "poly", "bool")) or (
            b.op in ("none", "str") and a.op in ("num", "poly", "bool")
        ):
            return FALSE
        if NONE in (a, b):
            x = a if b is NONE else b
            return isnone(x)
        x, y = sorted((a, b), key=lambda t: t.n)
        return mk("eq", x, y)
    d = sub(a, b)
    return eq0(d)


def eq0(d):
    f = as_frac(d)
    if f is not None:
        return TRUE if f == 0 else FALSE
    if d.op == "num":
        return FALSE
    if d.op == "gamma":
        return gamma(d.a[0], eq0(d.a[1]), eq0(d.a[2]))
    if d.op == "prod":
        return mk("ex", d.a[0], eq0(d.a[1]))
    r = by_parity(d, lambda v: v == 0)
    if r is not None:
        return r
    if d.op == "poly":
        r = evenness(d)
        if r is not None:
            return r
    if d.op in ("sgnpow", "exp", "pi"):
        return FALSE
    if d.op in ("abs", "abs2", "conj"):
        return eq0(d.a[0])
    if d.op == "sqrt":
        return eq0(d.a[0])
    p = poly(d)
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] > 0:
            return mk("eq0", m[0][0]) if m[0][0] is d else eq0(m[0][0])
        if m:
            fs = [eq0(x) for x, k in m if k > 0]
            return b_or(*fs) if fs else FALSE
    sg = -1 if p.get((), (0, 0))[0] < 0 else 1
    if p.get((), (0, 0))[0] * sg > 0 and all(
        c[1] == 0 and c[0] * sg > 0 and all(k > 0 and nonneg(x) for x, k in m) for m, c in p.items()
    ):
        return FALSE
    lead = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))[-1][1]
    d = scale(d, _cdiv(C1, lead))
    return mk("eq0", d)


def evenness(d):
    """x // n * n == x is x % n == 0"""
    p = poly(d)
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "floordiv" and c[1] == 0:
            x, n = m[0][0].a
            k = as_int(n)
            if k and k > 1 and c[0] in (k, -k):
                rest = add(d, scale(m[0][0], (-c[0], F(0))))
                if rest is scale(x, (-c[0] / k, F(0))):
                    return mk("eq0", mk("mod", x, n))
    return None


def nonneg(x):
    return x.op in ("lv", "len", "rank", "abs", "abs2", "norm2", "index?") or (
        x.op == "call" and x.a[0] in ("bisect.bisect_left", "bisect.bisect"))


def isnone(x):
    if x is NONE:
        return TRUE
    if x.op in ("num", "poly", "str", "tup", "list", "cell", "bool", "dict", "concat", "sum", "len", "set", "get", "muget"):
        return FALSE
    if x.op == "gamma":
        return gamma(x.a[0], isnone(x.a[1]), isnone(x.a[2]))
    return mk("isnone", x)


def _absorb(parts, neutral, absorbing, op):
    out = []
    seen = set()
    for p in parts:
        if p is neutral:
            continue
        if p is absorbing:
            return absorbing
        sub_ = p.a if p.op == op else (p,)
        for x in sub_:
            if x not in seen:
                seen.add(x)
                out.append(x)
    for x in out:
        if b_not_shallow(x) in seen:
            return absorbing
    return out


def b_not_shallow(x):
    if x.op == "not":
        return x.a[0]
    if x.op == "lt0":
        return mk("le0", _lead_pos(neg(x.a[0])))
    if x.op == "le0":
        return mk("lt0", _lead_pos(neg(x.a[0])))
    if x.op == "ex":
        return mk("all", x.a[0], b_not(x.a[1]))
    if x.op == "all":
        return mk("ex", x.a[0], b_not(x.a[1]))
    return mk("not", x)


def const_eq(x):
    """(term, constant) of an equality with a constant"""
    if x.op == "eq":
        u, v = x.a
        if u.op == "str":
            u, v = v, u
        if v.op == "str" and u.op != "str":
            return u, v
    return None


def by_const(y, known):
    """TRUE / FALSE when the known constants decide the literal"""
    n = y.op == "not"
    k = const_eq(y.a[0] if n else y)
    if k is None or k[0] not in known:
        return None
    same = known[k[0]] is k[1]
    if not n and same:
        return TRUE
    return TRUE if same != n else FALSE


def bounded_away(ls):
    """a <= n <= b for an integer n that is none of a..b"""
    lo, hi = {}, {}
    for x in ls:
        if x.op not in ("le0", "lt0"):
            continue
        d = dict(poly(x.a[0]))
        c = d.pop((), (F(0), F(0)))[0]
        n = unpoly(d)
        if not d or not is_int(n):
            continue
        k = -c if x.op == "le0" else -c - 1
        hi[n] = min(k, hi.get(n, k))
        lo[neg(n)] = max(-k, lo.get(neg(n), -k))
    no = None
    for n in hi:
        if n in lo and 0 <= hi[n] - lo[n] <= 12 and hi[n] == int(hi[n]) and lo[n] == int(lo[n]):
            if no is None:
                no = {y.a[0] for y in ls if y.op == "not" and y.a[0].op == "eq0"}
            if all(eq0(sub(n, num(i))).a[0] in no for i in range(int(lo[n]), int(hi[n]) + 1)):
                return True
    return False


def merged(ls, q, f):
    """for all x: p and for all x: q, in one quantifier"""
    by = {}
    for x in ls:
        if x.op == q:
            by.setdefault(x.a[0], []).append(x)
    if all(len(v) < 2 for v in by.values()):
        return ls
    out = []
    for x in ls:
        if x.op != q:
            out.append(x)
        elif by.get(x.a[0]):
            y = mk(q, x.a[0], f(*[z.a[1] for z in by.pop(x.a[0])]))
            if y not in out:
                out.append(y)
    return out


def b_and(*ps):
    ps = [truth(p) for p in ps]
    r = _absorb(ps, TRUE, FALSE, "and")
    if isinstance(r, T):
        return r
    # (a or b) absorbed when a present
    s = set(r)
    known = {}
    for x in r:
        k = const_eq(x)
        if k is not None:
            if known.setdefault(k[0], k[1]) is not k[1]:
                return FALSE
    if known:
        r1 = []
        for x in r:
            if x.op == "or":
                ys = []
                for y in x.a:
                    v = by_const(y, known)
                    if v is TRUE:
                        break
                    if v is None:
                        ys.append(y)
                else:
                    x = b_or(*ys) if len(ys) < len(x.a) else x
                    if x is FALSE:
                        return FALSE
                    r1.extend(x.a if x.op == "and" else (x,))
                continue
            if x.op == "not" and by_const(x, known) is TRUE:
                continue
            if by_const(x, known) is FALSE:
                return FALSE
            r1.append(x)
        r = r1
        s = set(r)
    r2 = []
    for x in r:
        if x.op == "or":
            if any(y in s for y in x.a):
                continue
            keep = [y for y in x.a if b_not_shallow(y) not in s]
            if len(keep) < len(x.a):
                x = b_or(*keep)
                if x is FALSE:
                    return FALSE
        if x not in r2:
            r2.append(x)
    for x in list(r2):
        if x.op == "or":
            ks = [const_eq(y) for y in x.a]
            if all(k is not None and k[0] is ks[0][0] for k in ks):
                vals = {k[1] for k in ks}
                for y in list(r2):
                    if y.op == "not":
                        k = const_eq(y.a[0])
                        if k is not None and k[0] is ks[0][0] and k[1] not in vals:
                            r2.remove(y)
    r2 = merged(r2, "all", b_and)
    if not r2:
        return TRUE
    if len(r2) == 1:
        return r2[0]
    if bounded_away(r2):
        return FALSE
    return mk("and", *sorted(r2, key=lambda t: t.n))


def b_or(*ps):
    ps = [truth(p) for p in ps]
    r = _absorb(ps, FALSE, TRUE, "or")
    if isinstance(r, T):
        return r
    # complementary conjunctions: (a & c) | (!a & c)
    changed = True
    r = list(r)
    while changed and len(r) > 1:
        changed = False
        for i in range(len(r)):
            for k in range(i + 1, len(r)):
                A = set(r[i].a) if r[i].op == "and" else {r[i]}
                B = set(r[k].a) if r[k].op == "and" else {r[k]}
                if A <= B:
                    r.pop(k)
                    changed = True
                elif B <= A:
                    r.pop(i)
                    changed = True
                else:
                    da, db = A - B, B - A
                    if len(da) == 1 and len(db) == 1 and b_not_shallow(next(iter(da))) is next(iter(db)):
                        m = b_and(*(A & B))
                        r = [x for q, x in enumerate(r) if q not in (i, k)] + [m]
                        if m is TRUE:
                            return TRUE
                        changed = True
                    elif len(da) == 1 and any(b_not_shallow(next(iter(da))) is y for y in db):
                        y = b_not_shallow(next(iter(da)))
                        # A&B | ... : (c a) | (c !a d) -> (c a)|(c d)
                        r[k] = b_and(*(B - {y}))
                        changed = True
                    elif len(db) == 1 and any(b_not_shallow(next(iter(db))) is y for y in da):
                        y = b_not_shallow(next(iter(db)))
                        r[i] = b_and(*(A - {y}))
                        changed = True
                if changed:
                    break
            if changed:
                break
    r = merged(r, "ex", b_or)
    if not r:
        return FALSE
    if len(r) == 1:
        return r[0]
    return mk("or", *sorted(r, key=lambda t: t.n))


BOOLOPS = {"truth", "bool", "eq", "eq0", "lt0", "le0", "and", "or", "not", "in", "ex", "all", "isnone", "isinstance", "exc"}


def truth(t):
    """boolean value of an arbitrary term"""
    if t.op in BOOLOPS:
        return t
    if t.op == "num":
        return TRUE if (t.a[0] or t.a[1]) else FALSE
    if t.op == "str":
        return TRUE if t.a[0] else FALSE
    if t.op == "none":
        return FALSE
    if t.op in ("tup", "list"):
        return TRUE if t.a else FALSE
    if t.op == "gamma":
        a, b = truth(t.a[1]), truth(t.a[2])
        return gamma(t.a[0], a, b)
    if t.op in ("poly", "len", "floordiv", "mod", "sum", "prod", "bitand", "rank", "sqrt", "abs", "abs2", "norm2", "re", "im", "conj",
                "count", "int", "sgnpow", "nranks", "exp"):
        return b_not(eq0(t))
    return mk("truth", t)


def gamma(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return gamma(c.a[0], b, a)
    if c.op == "or":
        n = b_not(c)
        if n.op == "and":
            return gamma(n, b, a)
    if c.op == "le0" and b_not_shallow(c).op == "lt0":
        return gamma(b_not_shallow(c), b, a)
    if c.op == "all":
        return gamma(b_not(c), b, a)
    if a.op in BOOLOPS and b.op in BOOLOPS:
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if a.op == "tup" and b.op == "tup" and len(a.a) == len(b.a):
        return tup(*[gamma(c, x, y) for x, y in zip(a.a, b.a)])
    if a.op == "gamma" and a.a[0] is c:
        a = a.a[1]
    if b.op == "gamma" and b.a[0] is c:
        b = b.a[2]
    if a.op == "gamma" and a.a[0].op in ("and", "or"):
        d = simp_bool(a.a[0], literals([c]))
        if d is not a.a[0]:
            a = gamma(d, a.a[1], a.a[2])
    if b.op == "gamma" and b.a[0].op in ("and", "or"):
        d = simp_bool(b.a[0], literals([b_not(c)]))
        if d is not b.a[0]:
            b = gamma(d, b.a[1], b.a[2])
    if a is b:
        return a
    if c.op == "eq0" and c.a[0].op == "mod" and as_int(c.a[0].a[1]) == 2 and a is not ZERO and a.op in ("num", "poly", "sgnpow") and a is neg(b):
        return mul2(a, sgnpow(c.a[0].a[0]))
    # nested: gamma(c, gamma(d, x, y), y) = gamma(c&d, x, y)
    if a.op == "gamma" and a.a[2] is b:
        return gamma(b_and(c, a.a[0]), a.a[1], b)
    if a.op == "gamma" and a.a[1] is b:
        return gamma(b_and(c, b_not(a.a[0])), a.a[2], b)
    # nested: gamma(c, x, gamma(d, x, y)) = gamma(c|d, x, y)
    if b.op == "gamma" and b.a[1] is a:
        return gamma(b_or(c, b.a[0]), a, b.a[2])
    if b.op == "gamma" and b.a[2] is a:
        return gamma(b_or(c, b_not(b.a[0])), a, b.a[1])
    return mk("gamma", c, a, b)


def literals(pc):
    """set of literal facts of a path condition (iterable of terms)"""
    out = set()
    for p in pc:
        if p.op == "and":
            out.update(p.a)
        else:
            out.add(p)
    return out


def contradicts(x, facts):
    """is literal x incompatible with the facts (set of literals)?"""
    if x is FALSE:
        return True
    if x is TRUE:
        return False
    if b_not_shallow(x) in facts:
        return True
    if x.op == "eq":
        u, v = x.a
        if u.op in ("str", "none", "tup"):
            u, v = v, u
        for f in facts:
            if f.op == "eq" and f is not x:
                p, q = f.a
                if p.op in ("str", "none", "tup"):
                    p, q = q, p
                if p is u and q.op == "str" and v.op == "str" and q is not v:
                    return True
            elif f.op == "isnone" and v.op == "str" and f.a[0] is u:
                return True
    if x.op == "isnone":
        for f in facts:
            if f.op == "eq" and x.a[0] in f.a and any(y.op in ("str", "num", "tup") for y in f.a):
                return True
    if x.op == "eq0":
        for f in facts:
            if f.op == "eq0":
                d = sub(x.a[0], f.a[0])
                g = as_frac(d)
                if g is not None and g != 0:
                    return True
            elif f.op == "lt0":
                for d in (sub(f.a[0], x.a[0]), add(f.a[0], x.a[0])):
                    g = as_frac(d)
                    if g is not None and g >= 0:
                        return True
    if x.op == "lt0":
        for f in facts:
            if f.op in ("lt0", "le0"):
                g = as_frac(add(x.a[0], f.a[0]))
                if g is not None and g >= 0:
                    return True
            elif f.op == "eq0":
                for d in (sub(x.a[0], f.a[0]), add(x.a[0], f.a[0])):
                    g = as_frac(d)
                    if g is not None and g >= 0:
                        return True
    if x.op == "le0":
        for f in facts:
            if f.op == "lt0":
                g = as_frac(add(x.a[0], f.a[0]))
                if g is not None and g >= 0:
                    return True
            if f.op == "le0":
                g = as_frac(add(x.a[0], f.a[0]))
                if g is not None and g > 0:
                    return True
            if f.op == "eq0":
                for d in (sub(x.a[0], f.a[0]), add(x.a[0], f.a[0])):
                    g = as_frac(d)
                    if g is not None and g > 0:
                        return True
    if x.op == "and":
        return any(contradicts(y, facts) for y in x.a)
    if x.op == "or":
        return all(contradicts(y, facts) for y in x.a)
    if x.op == "not" and x.a[0] in facts:
        return True
    return False


def implied(x, facts):
    if x is TRUE or x in facts:
        return True
    if x is FALSE:
        return False
    if x.op == "and":
        return all(implied(y, facts) for y in x.a)
    if x.op == "or":
        return any(implied(y, facts) for y in x.a) or any(set(f.a) <= set(x.a) for f in facts if f.op == "or")
    return contradicts(b_not(x), facts)


def simp_bool(c, facts):
    if c.op in ("and", "or"):
        f = b_and if c.op == "and" else b_or
        c = f(*[simp_bool(x, facts) for x in c.a])
    if c in (TRUE, FALSE):
        return c
    if implied(c, facts):
        return TRUE
    if contradicts(c, facts):
        return FALSE
    return c


def simp(t, facts, memo=None):
    """resolve gammas whose condition is decided by the facts"""
    if not facts:
        return t
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = t
    if t.op == "gamma":
        c = simp_bool(t.a[0], facts)
        if c is TRUE:
            r = simp(t.a[1], facts, memo)
        elif c is FALSE:
            r = simp(t.a[2], facts, memo)
        else:
            r = gamma(c, simp(t.a[1], facts | literals([c]), None), simp(t.a[2], facts | literals([b_not(c)]), None))
    elif t.op == "sgnpow":
        c = simp_bool(mk("eq0", mk("mod", t.a[0], num(2))), facts)
        r = ONE if c is TRUE else MONE if c is FALSE else t
    elif t.op == "poly":
        if any(_has_gamma(x) for m, _ in t.a[0] for x, _ in m):
            r = ZERO
            for m, c in t.a[0]:
                f = mk("num", c[0], c[1])
                for x, k in m:
                    f = mul2(f, _atom_pow_term(simp(x, facts, memo), k))
                r = add(r, f)
    elif t.op == "tup":
        r = tup(*[simp(x, facts, memo) for x in t.a])
    memo[t] = r
    return r


def _has_gamma(t):
    return t.op in ("gamma", "sgnpow") or (t.op in ("poly", "tup", "sqrt", "inv", "conj") and any(
        x.op == "gamma" for x in subterms(t)))


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == "poly":
            for m, _ in x.a[0]:
                for y, _ in m:
                    st.append(y)
        else:
            for y in x.a:
                if isinstance(y, T):
                    st.append(y)
                elif isinstance(y, tuple):
                    st.extend(z for z in _flat(y) if isinstance(z, T))


def _flat(y):
    for z in y:
        if isinstance(z, tuple):
            yield from _flat(z)
        else:
            yield z


REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


def subst(t, m, memo=None):
    """replace terms by the mapping m (dict T->T) and renormalise"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.op == "poly":
        r = ZERO
        for mo, c in t.a[0]:
            f = mk("num", c[0], c[1])
            for x, k in mo:
                f = mul2(f, _atom_pow_term(subst(x, m, memo), k))
            r = add(r, f)
    elif not t.a or not any(isinstance(y, (T, tuple)) for y in t.a):
        r = t
    else:
        args = tuple(_subst_arg(y, m, memo) for y in t.a)
        if args != t.a and t.op in ("obj", "errs", "effs"):  # keep unordered parts in canonical order
            k = 2 if t.op == "obj" else 0
            ns = [x.n for x in t.a[k:] if isinstance(x, T)]
            if len(ns) > 1 and ns == sorted(ns):
                args = args[:k] + tuple(sorted(args[k:], key=lambda x: x.n))
        r = t if args == t.a else rebuild(t.op, args)
    memo[t] = r
    return r


def _subst_arg(y, m, memo):
    if isinstance(y, T):
        return subst(y, m, memo)
    if isinstance(y, tuple):
        return tuple(_subst_arg(z, m, memo) for z in y)
    return y


REBUILD.update(
    {
        "sqrt": fn_sqrt,
        "abs": fn_abs,
        "conj": conj,
        "exp": fn_exp,
        "re": re_part,
        "im": im_part,
        "inv": lambda p: div(ONE, p),
        "gamma": gamma,
        "and": b_and,
        "or": b_or,
        "not": b_not,
        "lt0": lt0,
        "le0": le0,
        "eq0": eq0,
        "eq": eq,
        "isnone": isnone,
        "truth": truth,
        "pow": power,
        "sgnpow": sgnpow,
        "abs2": lambda x: power(fn_abs(x), num(2)) if is_const(x) else mk("abs2", x),
    }
)


# ---------------------------------------------------------------- printing
def _cs(c):
    if c[1] == 0:
        return str(c[0])
    if c[0] == 0:
        return f"{c[1]}j"
    return f"({c[0]}+{c[1]}j)"


def show(t, depth=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth - 1) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    o, a = t.op, t.a
    d = depth - 1
    if o == "num":
        return _cs(a)
    if o == "bool":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "none":
        return "None"
    if o == "poly":
        parts = []
        for m, c in a[0]:
            fs = [show(x, d) + ("" if k == 1 else f"^{k}") for x, k in m]
            cs = _cs(c)
            if cs == "1" and fs:
                parts.append("*".join(fs))
            elif cs == "-1" and fs:
                parts.append("-" + "*".join(fs))
            else:
                parts.append("*".join([cs] + fs))
        return "(" + " + ".join(parts) + ")"
    if o in ("param", "free"):
        return str(a[0])
    if o == "lv":
        return f"#{a[1]}<{show(a[0], 2)}>"
    if o == "tup":
        return "(" + ", ".join(show(x, d) for x in a) + ")"
    if o == "idx":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "eq0":
        return f"{show(a[0], d)}==0"
    if o == "lt0":
        return f"{show(a[0], d)}<0"
    if o == "le0":
        return f"{show(a[0], d)}<=0"
    if o == "gamma":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if o == "call":
        return f"{a[0]}({', '.join(show(x, d) for x in a[1:])})"
    return f"{o}({', '.join(show(x, d) for x in a)})"


INT_ATOMS = set()  # quantities that bound a range


def count_of(c):
    """the number of iterations over a range: what it is made of are integers"""
    for m, _ in poly(c).items():
        for x, k in m:
            INT_ATOMS.add(x)
    return mk("count", c)


REBUILD["count"] = count_of
INTOPS = {"lv", "len", "rank", "nranks", "key", "count"}


def is_int(t):
    """integer for certain (range bounds are integers)"""
    for m, c in poly(t).items():
        if c[1] != 0 or c[0] != int(c[0]):
            return False
        for x, k in m:
            if k < 0 or x.op not in INTOPS and x not in INT_ATOMS:
                return False
    return True
