"""Interpretation of closed terms in the theory of bit words.

The representations of product states (C01, C02) are words over {0, 1} in different clothes: strings, integers, bit
arrays, bytes, sorted positions.  Two closed terms over such words are told apart when they have different values for
some word; all words of small width and random ones of larger width (beyond the machine word) are used.  What is
interpreted are the extracted normal forms; anything without a reading in the theory gives no answer.
"""
import random
from fractions import Fraction as F

from .terms import T

WIDTHS = (1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 31, 33, 63, 64, 65, 66, 80, 130)


class Stop(Exception):
    pass


class Bits(str):
    """the content of a bit array"""


class Ev:
    def __init__(self, params):
        self.params = params
        self.env = {}
        self.recs = []
        self.steps = 0
        self.memo = {}

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        closed = not self.env and not self.recs
        if closed and t in self.memo:
            return self.memo[t]
        self.steps += 1
        if self.steps > 60000:
            raise Stop
        v = self._ev(t)
        if closed:
            self.memo[t] = v
        return v

    def integer(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, F) and v.denominator == 1:
            return int(v)
        raise Stop

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, F)):
            return v
        raise Stop

    def cond(self, t):
        """connectives do not look at what does not matter"""
        if t.op in ("and", "or"):
            rest = None
            for x in t.a:
                try:
                    v = self.cond(x)
                except Stop as e:
                    rest = e
                    continue
                if v == (t.op == "or"):
                    return v
            if rest is not None:
                raise Stop
            return t.op == "and"
        if t.op == "not":
            return not self.cond(t.a[0])
        if t.op in ("ex", "all") and t.a[0].op == "lv":
            old = self.env
            r = t.op == "all"
            try:
                for i in range(self.count(t.a[0])):
                    self.env = dict(old)
                    self.env[t.a[0]] = i
                    if self.cond(t.a[1]) != r:
                        return not r
            finally:
                self.env = old
            return r
        if t.op == "truth":
            v = self.ev(t.a[0])
            if isinstance(v, Bits):
                return v != ""
            return bool(v)
        v = self.ev(t)
        if isinstance(v, (bool, int, F)):
            return bool(v)
        raise Stop

    def count(self, lv):
        if lv.a[0].op != "count":
            raise Stop
        n = self.integer(self.ev(lv.a[0].a[0]))
        return max(n, 0)

    def _ev(self, t):
        o, a, ev = t.op, t.a, self.ev
        if o == "param":
            if a[0] not in self.params:
                raise Stop
            return self.params[a[0]]
        if o == "num":
            if a[1] != 0:
                raise Stop
            return int(a[0]) if a[0].denominator == 1 else a[0]
        if o in ("str", "bool"):
            return a[0]
        if o == "bytes":
            return a[0].encode("latin1")
        if o == "none":
            return None
        if o == "poly":
            s = 0
            for m, c in a[0]:
                if c[1] != 0:
                    raise Stop
                p = c[0]
                for x, k in m:
                    v = self.num(ev(x))
                    if k < 0:
                        if not v:
                            raise Stop
                        v = F(v)
                    p = p * v ** k
                s += p
            return int(s) if F(s).denominator == 1 else s
        if o in COND:
            if o in ("lt0", "le0", "eq0"):
                v = self.num(ev(a[0]))
                return v < 0 if o == "lt0" else v <= 0 if o == "le0" else v == 0
            if o == "eq":
                x, y = ev(a[0]), ev(a[1])
                return x == y and isinstance(x, Bits) == isinstance(y, Bits)
            if o == "in":
                c = ev(a[1])
                x = ev(a[0])
                if isinstance(c, Bits):
                    return str(int(bool(x))) in c
                return x in c
            if o == "isnone":
                return ev(a[0]) is None
            return self.cond(t)
        if o == "gamma":
            return ev(a[1]) if self.cond(a[0]) else ev(a[2])
        if o in ("floordiv", "mod"):
            x, y = self.num(ev(a[0])), self.num(ev(a[1]))
            if not y:
                raise Stop
            return int(x // y) if o == "floordiv" else x % y
        if o in ("min", "max"):
            vs = [self.num(ev(x)) for x in a]
            return min(vs) if o == "min" else max(vs)
        if o in ("bitand", "bitor", "bitxor", "shl", "shr"):
            x, y = ev(a[0]), ev(a[1])
            if isinstance(x, Bits) or isinstance(y, Bits):
                raise Stop
            x, y = self.integer(x), self.integer(y)
            if o in ("shl", "shr") and not 0 <= y <= 4000:
                raise Stop
            return x & y if o == "bitand" else x | y if o == "bitor" else x ^ y if o == "bitxor" else x << y if o == "shl" else x >> y
        if o == "invert":
            return ~self.integer(ev(a[0]))
        if o == "pow":
            x, y = self.integer(ev(a[0])), self.integer(ev(a[1]))
            if not 0 <= y <= 4000 or abs(x) > 16:
                raise Stop
            return x ** y
        if o == "sgnpow":
            return -1 if self.integer(ev(a[0])) % 2 else 1
        if o == "abs":
            return abs(self.num(ev(a[0])))
        if o == "int":
            v = ev(a[0])
            return int(v)
        if o in ("sum", "prod") and a[0].op == "lv":
            old = self.env
            r = 0 if o == "sum" else 1
            try:
                for i in range(self.count(a[0])):
                    self.env = dict(old)
                    self.env[a[0]] = i
                    v = self.num(ev(a[1]))
                    r = r + v if o == "sum" else r * v
            finally:
                self.env = old
            return r
        if o in ("rec", "recout"):
            r = t if o == "rec" else a[0]
            if r.op != "rec" or r.a[0].op != "lv":
                raise Stop
            n = ev(r.a[0]) if o == "rec" else self.count(r.a[0])
            old = self.env
            self.recs.append(None)
            try:
                v = ev(r.a[1])
                for i in range(n):
                    self.recs[-1] = v
                    self.env = dict(old)
                    self.env[r.a[0]] = i
                    v = ev(r.a[2])
            finally:
                self.recs.pop()
                self.env = old
            return v
        if o == "recself":
            if len(self.recs) < a[0] or self.recs[-a[0]] is None:
                raise Stop
            return self.recs[-a[0]]
        if o == "tup":
            return tuple(ev(x) for x in a)
        if o == "list":
            return [ev(x) for x in a]
        if o == "setlit":
            return {ev(x) for x in a}
        if o in ("tuple", "seq", "sorted", "rev", "set", "frozenset", "nparray"):
            v = self.items(ev(a[0]))
            if len(a) > 1:
                raise Stop
            return tuple(v) if o == "tuple" else sorted(v) if o == "sorted" else v[::-1] if o == "rev" else \
                set(v) if o in ("set", "frozenset") else v
        if o == "range":
            v = [self.integer(ev(x)) for x in a]
            return list(range(*v))
        if o == "len":
            return len(ev(a[0]))
        if o == "concat":
            vs = [ev(x) for x in a]
            r = vs[0]
            for v in vs[1:]:
                if type(r) is not type(v):
                    raise Stop
                r = Bits(r + v) if isinstance(r, Bits) else r + v
            return r
        if o == "concatloop" and a[0].op == "lv":
            old = self.env
            parts = []
            try:
                for i in range(self.count(a[0])):
                    self.env = dict(old)
                    self.env[a[0]] = i
                    v = ev(a[1])
                    if type(v) not in (str, tuple, list):
                        raise Stop
                    parts.append(v)
            finally:
                self.env = old
            if self.word(a[2]) not in ("fwd", "rev"):
                raise Stop
            if self.word(a[2]) == "rev":
                parts.reverse()
            if not parts:
                return ""
            r = parts[0]
            for v in parts[1:]:
                r = r + v
            return r
        if o == "repeat":
            x, n = ev(a[0]), self.integer(ev(a[1]))
            if n > 4000:
                raise Stop
            return x * n
        if o == "slice":
            return slice(*[None if x is None else self.integer(x) for x in map(ev, a)])
        if o in ("idx", "get", "key", "elem"):
            return self.item(ev(a[0]), ev(a[1]), o)
        if o == "bits":
            v = ev(a[0])
            if isinstance(v, int):
                return Bits("0" * v) if v < 1 else self.stop()
            return self.tobits(v)
        if o == "obj":
            return self.obj(t)
        if o == "meth":
            return self.meth(a[0], [ev(x) for x in a[1:] if isinstance(x, T) and x.op != "kw"],
                             {x.a[0]: ev(x.a[1]) for x in a[1:] if x.op == "kw"})
        if o in ("call", "libcall") and isinstance(a[0], str):
            if len([x for x in a[1:] if x.op == "kw"]) and a[0] != "int.from_bytes" and a[0] != "int.to_bytes":
                raise Stop
            return self.call(a[0], [ev(x) for x in a[1:] if x.op != "kw"], {x.a[0]: ev(x.a[1]) for x in a[1:] if x.op == "kw"})
        raise Stop

    def stop(self):
        raise Stop

    def word(self, x):
        return x.a[0] if isinstance(x, T) and x.op == "str" else x

    def items(self, v):
        if isinstance(v, Bits):
            return [int(x) for x in v]
        if isinstance(v, (set, frozenset)):
            return sorted(v)
        if isinstance(v, dict):
            return list(v)
        return list(v)

    def tobits(self, v):
        if isinstance(v, str):
            if set(v) - set("01_ \n"):
                raise Stop
            return Bits(v)
        if isinstance(v, (list, tuple)):
            return Bits("".join(str(int(bool(x))) for x in v))
        raise Stop

    def item(self, x, k, o):
        if isinstance(k, slice):
            return Bits(x[k]) if isinstance(x, Bits) else x[k]
        if isinstance(x, dict):
            return list(x)[k] if o == "key" else x[k]
        if isinstance(x, (set, frozenset)):
            return sorted(x)[self.integer(k)]
        k = self.integer(k)
        return int(x[k]) if isinstance(x, Bits) else x[k]

    def obj(self, t):
        kind, init = t.a[0].a[0] if isinstance(t.a[0], T) else t.a[0], t.a[1]
        v = self.ev(init)
        if isinstance(v, Bits):
            v, cls = list(v), "bits"
        elif isinstance(v, list):
            v, cls = list(v), "list"
        elif isinstance(v, dict):
            v, cls = dict(v), "dict"
        elif isinstance(v, (set, frozenset)):
            v, cls = set(v), "set"
        elif isinstance(v, (str, tuple)) and kind == "list":
            v, cls = list(v), "list"
        else:
            raise Stop
        self.updates(list(t.a[2:]), v, cls, 0)
        return Bits("".join(v)) if cls == "bits" else v

    def updates(self, us, v, cls, depth):
        i = 0
        while i < len(us):
            u = us[i]
            if u.op != "upd" or len(u.a) != 5:
                raise Stop
            loops = u.a[4].a
            if len(loops) <= depth:
                if self.cond(u.a[3]):
                    self.update(u, v, cls)
                i += 1
                continue
            L = loops[depth]
            if L.op != "L" or L.a[0].op != "lv" or len(L.a) != 2 or self.word(L.a[1]) not in ("for", "comp"):
                raise Stop
            j = i
            while j < len(us) and len(us[j].a[4].a) > depth and us[j].a[4].a[depth] is L:
                j += 1
            old = self.env
            try:
                for p in range(self.count(L.a[0])):
                    self.env = dict(old)
                    self.env[L.a[0]] = p
                    self.updates(us[i:j], v, cls, depth + 1)
            finally:
                self.env = old
            i = j

    def update(self, u, v, cls):
        k = u.a[0].a[0]
        key, val = self.ev(u.a[1]), self.ev(u.a[2])
        if cls == "bits":
            def one(x):
                if isinstance(x, Bits) or not isinstance(x, (bool, int)) or x not in (0, 1):
                    raise Stop
                return str(int(x))
            if k == "set" and not isinstance(key, slice):
                v[self.integer(key)] = one(val)
            elif k == "append":
                v.append(one(val))
            elif k == "frombytes" and isinstance(val, bytes):
                v.extend("".join(format(b, "08b") for b in val))
            else:
                raise Stop
        elif cls == "list":
            if k == "append":
                v.append(val)
            elif k == "set" and not isinstance(key, slice):
                v[self.integer(key)] = val
            else:
                raise Stop
        elif cls == "set" and k == "add":
            v.add(val)
        elif cls == "dict" and k == "set":
            v[key] = val
        else:
            raise Stop

    def meth(self, m, args, kw):
        x, r = args[0], args[1:]
        if kw and m != "to_bytes":
            raise Stop
        if isinstance(x, Bits):
            if m == "to01" and not r:
                return str(x)
            if m == "tobytes" and not r:
                s = x + "0" * (-len(x) % 8)
                return bytes(int(s[k:k + 8], 2) for k in range(0, len(s), 8))
            if m == "count":
                y = str(int(bool(r[0]))) if r else "1"
                return x[slice(*(r[1:] + [None, None])[:2])].count(y)
            if m == "tolist" and not r:
                return [int(y) for y in x]
            if m in ("any", "all") and not r:
                return "1" in x if m == "any" else "0" not in x
            if m == "copy" and not r:
                return x
            if m in ("index", "find") and len(r) == 1 and isinstance(r[0], int):
                return getattr(str(x), m)(str(int(bool(r[0]))))
            raise Stop
        if type(x) is str and m in ("count", "index", "find", "rfind", "rindex", "zfill", "rjust", "ljust", "center", "lstrip", "rstrip", "strip",
                                    "replace", "join", "startswith", "endswith", "removeprefix", "removesuffix"):
            return getattr(x, m)(*r)
        if type(x) in (tuple, list) and m in ("count", "index"):
            return getattr(x, m)(*r)
        if type(x) is int and m in ("bit_length", "bit_count") and not r:
            return getattr(x, m)()
        if type(x) is int and m == "to_bytes":
            return x.to_bytes(*r, **kw)
        raise Stop

    def call(self, d, r, kw):
        import bisect
        if d == "int.from_bytes":
            return int.from_bytes(*r, **kw)
        if d == "int.to_bytes":
            return int.to_bytes(*r, **kw)
        if d in ("bin", "int", "str", "format", "abs", "min", "max", "sum", "len", "ord", "chr", "bool", "divmod", "any", "all", "pow", "hex"):
            if any(isinstance(x, Bits) for x in r) or any(type(x) is F for x in r):
                raise Stop
            return {"bin": bin, "int": int, "str": str, "format": format, "abs": abs, "min": min, "max": max, "sum": sum, "len": len,
                    "ord": ord, "chr": chr, "bool": bool, "divmod": divmod, "any": any, "all": all, "pow": pow, "hex": hex}[d](*r)
        if d in ("bisect.bisect", "bisect.bisect_left", "bisect.bisect_right") and all(type(x) in (int, tuple, list) for x in r):
            return getattr(bisect, d[7:])(*r)
        if d in ("math.ceil", "math.floor"):
            import math
            return getattr(math, d[5:])(r[0])
        if d.endswith("ba2int") and len(r) == 1 and isinstance(r[0], Bits) and r[0]:
            return int(r[0], 2)
        raise Stop


COND = {"lt0", "le0", "eq0", "eq", "in", "isnone", "and", "or", "not", "ex", "all", "truth"}


def words(rnd):
    """0/1 words: all short ones, random ones of every other width"""
    for n in range(1, 5):
        for k in range(2 ** n):
            yield format(k, f"0{n}b")
    for n in WIDTHS:
        yield "0" * n
        yield "1" * n
        yield "1" + "0" * (n - 1)
        yield "0" * (n - 1) + "1"
        for _ in range(3):
            yield "".join(rnd.choice("01") for _ in range(n))


def positions(w):
    return tuple(k for k, b in enumerate(w) if b == "1")


def padded(w):
    s = w + "0" * (-len(w) % 8)
    return bytes(int(s[k:k + 8], 2) for k in range(0, len(s), 8))


CLOTHES = {
    "str": str,
    "int": lambda w: int(w, 2),
    "tuple": positions,
    "bits": Bits,
    "bitarray": Bits,
    "bytes": padded,
}


def samples(q, params):
    """parameter values for one function: {name: value}"""
    mod, fn = q.split(".")
    rnd = random.Random(q)
    if mod == "product_state_representation":
        kind = fn.split("2")[0]
        if kind not in CLOTHES or not params or len(params) > 2:
            return
        for w in words(rnd):
            v = {params[0]: CLOTHES[kind](w)}
            if len(params) == 2:
                v[params[1]] = len(w)
            yield v
    elif mod in ("create", "remove") and fn.startswith("u"):
        kind = fn[1:]
        if kind not in CLOTHES or len(params) not in (2, 3):
            return
        for w in words(rnd):
            n = len(w)
            for i in range(n) if n < 5 else sorted({0, n - 1, rnd.randrange(n), rnd.randrange(n)}):
                v = dict(zip(params[-2:], (i, CLOTHES[kind](w))))
                if len(params) == 3:
                    v[params[0]] = n
                yield v
    elif mod in ("create", "remove") and fn.startswith("binary_search") and len(params) == 2:
        for w in words(rnd):
            p = positions(w)
            for x in {0, len(w) - 1, rnd.randrange(len(w)), rnd.randrange(len(w))}:
                yield {params[0]: p, params[1]: x}


def compare(q, params, a, b):
    """'differ' with a witness, 'agree', or None"""
    n = 0
    skipped = 0
    for v in samples(q, params):
        try:
            x, y = Ev(v).ev(a), Ev(v).ev(b)
        except (Stop, ArithmeticError, ValueError, TypeError, LookupError, AttributeError, RecursionError, OverflowError):
            skipped += 1
            if skipped > 20 and not n:
                return None
            continue
        n += 1
        if not alike(x, y):
            return "differ", v, x, y
    if n < 40 or skipped > n // 4:
        return None
    return "agree", n


def alike(x, y):
    if isinstance(x, Bits) != isinstance(y, Bits):
        return False
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        return type(x) is type(y) and len(x) == len(y) and all(alike(p, q) for p, q in zip(x, y))
    if isinstance(x, (str, bytes)) != isinstance(y, (str, bytes)):
        return False
    return x == y
