"""Three-valued comparison of a code summary with a specification summary.

SAME     the closed terms are identical (the code computes what the specification says)
DIFF     the skeletons agree and every remaining difference is of a kind that changes the
         result: another constant, coefficient, variable, callee, sign, strictness, a missing
         or additional factor, conjunct, update, error or communication
UNKNOWN  anything else (for instance code that is organised differently)
"""
from .terms import (
    FALSE, NONE, ONE, TRUE, ZERO, T, mk, poly, unpoly, show, subterms, is_real, neg, sub, as_frac, b_not, b_or, as_int, eq0, subst, b_and,
    literals, simp_bool, lt0, le0, add, num, scale,
)

SAME, DIFF, UNKNOWN = "same", "diff", "unknown"
from . import logic, interp
from .known import KNOWN

ADDED = ("missing or additional term", "missing or additional factor", "coefficient", "power", "missing condition", "additional condition",
         "case distinction")


class Leaf:
    __slots__ = ("kind", "a", "b", "definite")

    def __init__(self, kind, a, b, definite):
        self.kind, self.a, self.b, self.definite = kind, a, b, definite

    def __repr__(self):
        f = lambda t: show(t, 5)[:160] if isinstance(t, T) else str(t)
        return f"{self.kind}: code has {f(self.a)}, specification has {f(self.b)}"


class Cmp:
    def __init__(self):
        self.memo = {}
        self.plainmemo = {}
        self.called = {}
        self.interpreted = {}
        self.candidates = {}  # pairs of different values
        self.told = set()  # pairs told apart by interpretation alone
        self.facts = ()
        self.pins = None
        self.sub = (set(), set())

    def top(self, a, b, facts=()):
        """differences of two closed terms that stand for the same thing"""
        logic.FACTS[:] = facts
        self.facts = tuple(facts)
        self.interpreted = {}
        self.memo.clear()
        self.plainmemo.clear()
        self.called = {}
        self.candidates = {}
        self.sub = (set(subterms(a)), set(subterms(b)))
        a, b = self.numbers(a, 1), self.numbers(b, 0)
        self.sub = (set(subterms(a)), set(subterms(b)))
        out = self.judged(self.spine(a, b))
        if out and not all(x.definite for x in out):
            return self.explained(a, b, list(facts)) or out
        return out

    def judged(self, leaves):
        return [Leaf(x.kind, x.a, x.b, False) if x.definite and x.kind in ADDED and self.alien(x.a, 1) else x for x in leaves]

    def explained(self, a, b, facts):
        """is one replacement, which changes the value, all that separates the two terms?"""
        cs = [(x, y) for (x, y), d in self.candidates.items() if x is not a and not {x.op, y.op} & {"num", "str", "none", "bool", "lv", "rank", "nranks"}
              and all(l.definite for l in self.judged(d))]
        cs.sort(key=lambda p: (p[0].n, p[1].n))
        found = dict(self.candidates)
        for x, y in cs[:60]:
            if subst(a, {x: y}) is b:
                return self.judged(found[(x, y)])
        return self.replaced(a, b) or self.bound(a, b) or self.reordered(a, b) or self.loosely(a, b) or self.repaired(a, b)

    def loosely(self, a, b):
        """is a set put in an order that leaves some of its items in no particular one?"""
        here = sorted((x for x in self.sub[0] if x.op == "sorted" and len(x.a) == 2 and x.a[1].a[0] == "key" and
                       partial_key(x.a[1].a[1]) and isset(x.a[0])), key=lambda t: t.n)
        if not here or len({x.a[1] for x in here}) > 1:
            return None
        c = a
        for _ in range(8):
            m = min((x for x in subterms_of(c) if x.op == "sorted" and len(x.a) == 2 and x.a[1] is here[0].a[1]), key=lambda t: t.n,
                    default=None)
            if m is None:
                break
            c = subst(c, {m: mk("sorted", m.a[0])})
        return self.sure("order among equal keys is left open", here[0], mk("sorted", here[0].a[0])) if c is b else None

    def reordered(self, a, b):
        """is a mapping gone through in another order where the first match or the position counts?"""
        for x in sorted((x for x in self.sub[0] - self.sub[1] if x.op == "sorted" and x.a and isinstance(x.a[0], T)), key=lambda t: t.n)[:6]:
            d = x.a[0].a[0] if x.a[0].op in ("items", "keys") else x.a[0]
            if d.op != "param":
                continue
            m = {}
            for e in self.sub[0]:
                if e.op == "idx" and e.a[0] is x:
                    k = mk("key", d, e.a[1])
                    m[e] = k if x.a[0].op != "items" else mk("tup", k, mk("idx", d, k))
                    m[mk("idx", e, ZERO)], m[mk("idx", e, ONE)] = k, mk("idx", d, k)
            if m and any(y.op == "first" and x in subterms_of(y.a[1]) for y in self.sub[0]):
                c = a
                for _ in range(3):
                    c = subst(c, m)
                    if c is b:
                        return self.sure("order", x, d)
        return None

    def bound(self, a, b):
        """is one comparison, made once or in every iteration, off by the limit itself or by one?"""
        known = self.sub[1]
        forms = {}
        for x in sorted((x for x in self.sub[0] - known if x.op in ("lt0", "le0")), key=lambda t: t.n):
            s = {(x.op, skeleton(x.a[0])), (b_not(x).op, skeleton(b_not(x).a[0]))} if b_not(x).op in ("lt0", "le0") else None
            if s:
                forms.setdefault(frozenset(s), x)
        for ks, first in list(forms.items())[:12]:
            for f in (lambda x: (le0 if x.op == "lt0" else lt0)(x.a[0]), lambda x: (lt0 if x.op == "lt0" else le0)(add(x.a[0], ONE)),
                      lambda x: (lt0 if x.op == "lt0" else le0)(sub(x.a[0], ONE))):
                c, done = a, set()
                for _ in range(6):
                    todo = [x for x in subterms_of(c) if x.op in ("lt0", "le0") and x not in known and x not in done and
                            (x.op, skeleton(x.a[0])) in ks]
                    if not todo:
                        break
                    x = min(todo, key=lambda t: t.n)
                    z = f(x)
                    done |= {z, b_not(z)}
                    c = subst(c, {x: z, b_not(x): b_not(z)})
                    if c is b:
                        return self.sure("comparison", first, f(first))
        return None

    def replaced(self, a, b):
        """the smallest terms that only one side has: does exchanging two of them give the specification?"""
        sa, sb = self.sub
        xs = [x for x in minimal(sa, sb) if x is not a and x.op not in NOVALUE]
        ys = [y for y in minimal(sb, sa) if y is not b and y.op not in NOVALUE]
        if len(xs) > 40 or len(ys) > 40:
            return None
        tries = 0
        for x in [x for x in xs if x.op in ("call", "fn", "transpose")][:8]:
            if x.op == "transpose":
                # the matrix of a Hermitian operator is not symmetric
                ts = {t: t.a[0] for t in sa - sb if t.op == "transpose" and (t.a[0].a[0] if t.a[0].op == "toarray" else t.a[0]) is HMATRIX}
                if x in ts and subst(a, ts) is b:
                    return self.sure("rows and columns exchanged", x, x.a[0])
                continue
            # another argument in one of several calls of a function
            for q in sorted((q for q in sb if q.op == x.op and q.a[0] == x.a[0] and len(q.a) == len(x.a)), key=lambda t: t.n)[:20]:
                d = [i for i in range(1, len(x.a)) if x.a[i] is not q.a[i]]
                if len(d) == 1 and subst(a, {x: q}) is b:
                    r = self.judged(self.diff(x.a[d[0]], q.a[d[0]]))
                    return r if r and all(l.definite for l in r) else None
        for x in xs:
            for y in ys:
                if (x.op in BOOL) != (y.op in BOOL) or subterms_of(x) & {y} or subterms_of(y) & {x}:
                    continue
                for z in ((y, b_not(y)) if x.op in BOOL else (y,)):
                    tries += 1
                    if tries > 200:
                        return None
                    if subst(a, {x: z, b_not(x): b_not(z)} if x.op in BOOL else {x: z}) is b:
                        if any(subst(a, {c: v, b_not(c): b_not(v)}) is b for c in subterms_of(a) - subterms_of(b)
                               if c.op in BOOL and x in subterms_of(c) for v in (TRUE, FALSE)):
                            return None  # what is additional may never matter
                        if {x.op, z.op} == {"lt0", "le0"} and x.a[0] is z.a[0]:
                            return self.sure("comparison", x, z)
                        if any(interp.realfn(s) for t in (x, z) for s in subterms_of(t)) and self.interpret(x, z) != "differ":
                            return None  # the functions may have the same values
                        d = self.judged(self.diff(x, z))
                        return d if d and all(l.definite for l in d) else None
        return None

    def repaired(self, a, b):
        """is one restriction too many all that separates them?"""
        known = subterms_of(b)
        here = sorted((x for x in subterms(a) if x not in known), key=lambda t: t.n)
        for x in here[:400]:
            if x.op == "idx" and len(x.a) == 2 and x.a[1].op == "slice" and x.a[1].a[2] is NONE and \
                    (x.a[1].a[0] is not NONE and x.a[1].a[0] is not ZERO or as_int(x.a[1].a[1]) is not None):
                if subst(a, {x: x.a[0]}) is b:
                    return self.sure("truncated", x, x.a[0])
        todo = []
        for x in here[:400]:
            if x.op in ("and", "or"):
                todo += [(c, TRUE if x.op == "and" else FALSE) for c in x.a if c not in known and b_not(c) not in known]
            elif x.op == "gamma" and x.a[0] not in known and b_not(x.a[0]) not in known:
                todo += [(x.a[0], TRUE), (x.a[0], FALSE)]
            elif x.op == "upd" and x.a[3] is not TRUE and x.a[3] not in known and b_not(x.a[3]) not in known:
                todo.append((x.a[3], TRUE))
        for c, v in dict.fromkeys(todo):
            if self.triviality(c) or self.alien(c, 1):
                continue
            if any(c in subterms_of(f) or b_not(c) in subterms_of(f) for f in self.facts):
                continue  # it may follow from what is known there
            if subst(a, {c: v, b_not(c): b_not(v)}) is not b:
                continue
            z = subst(a, {c: b_not(v), b_not(c): v})
            if z is b:
                return None
            d = self.judged(self.diff(z, b))
            if d and all(l.definite for l in d) or self.fewer(z, b):
                return self.sure("additional condition", c, v)
        return None

    def fewer(self, z, b):
        """is something left out in that case?"""
        d = self.diff(z, b)
        return bool(d) and all(l.definite or l.kind.startswith("missing ") and l.a is NONE and l.b.op in ("upd", "eff") for l in d)

    def spine(self, a, b):
        """alternatives under the same condition, each where it applies"""
        if a is b:
            return []
        if not (a.op == b.op == "gamma" and a.a[0] is b.a[0]):
            return self.diff(a, b)
        c, out, facts = a.a[0], [], list(logic.FACTS)
        for x, y, k in ((a.a[1], b.a[1], c), (a.a[2], b.a[2], b_not(c))):
            known = literals([k])
            logic.FACTS[:] = [g for g in (simp_bool(f, known) for f in facts) if g is not TRUE] + [k]
            self.memo.clear()
            out += self.spine(x, y)
        logic.FACTS[:] = facts
        self.memo.clear()
        return out

    def numbers(self, t, other):
        """truth of what the other side compares with zero"""
        m = {x: b_not(eq0(x.a[0])) for x in self.sub[1 - other] if x.op == "truth" and eq0(x.a[0]) in self.sub[other]}
        return subst(t, m) if m else t

    def alien(self, t, other):
        """contains an operation of unknown meaning that the other side does not have"""
        if not isinstance(t, T):
            return False
        for x in subterms(t):
            if x in self.sub[other]:
                continue
            if x.op == "call" and x.a[0] not in KNOWN and x.a[0] not in self.callees(other) or x.op == "meth" and not any(
                    y.op == "meth" and y.a[0] == x.a[0] for y in self.sub[other]):
                return True
        return False

    def diff(self, a, b, ctx=""):
        """list of leaf differences between closed terms"""
        if a is b:
            return []
        k = (a, b, ctx)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = [Leaf("cycle", a, b, False)]
        r = self._diff(a, b, ctx)
        if ctx == "len" and {a.op, b.op} & {"min", "max"} and any(x.definite for x in r) and self.guarded(a):
            if self.lost(a, b) or r[0].kind == "bounded number of steps" and not self.counted(a):
                self.told.discard((a, b))
            else:  # what a tighter bound leaves out may be skipped anyway
                r = [Leaf(x.kind, x.a, x.b, False) if x.a is a and x.b is b else x for x in r]
        self.memo[k] = r
        if r and ctx != "len" and len(r) <= 6 and all(x.definite for x in r):
            self.candidates.setdefault((a, b), r)
        return r

    def guarded(self, a):
        """does a condition restrict a counter with this bound?"""
        return any(x.op in ("lt0", "le0", "eq0") and any(y.op == "lv" and a in subterms_of(y) for y in subterms(x))
                   for x in self.sub[0])

    def counted(self, a):
        """is a counter with this bound itself compared with something?"""
        return any(x.op in ("lt0", "le0", "eq0") and any(y.op == "lv" and a in subterms_of(y) for m in poly(x.a[0]) for y, _ in m)
                   for x in self.sub[0])

    def lost(self, a, b):
        """does the specification do something in iterations that the other bound leaves out?"""
        for lv in sorted((x for x in self.sub[1] if x.op == "lv" and x.a[0].op == "count" and any(
                y is b for m in poly(x.a[0].a[0]) for y, _ in m)), key=lambda t: t.n)[:4]:
            ups = [u for u in self.sub[1] if u.op in ("upd", "err") and any(L.op == "L" and L.a[0] is lv for L in u.a[-1].a)]
            for u in sorted(ups, key=lambda t: t.n)[:6]:
                if interp.missed(lv, subst(lv.a[0], {b: a}), u.a[-2], self.facts):
                    return True
        return False

    def maybe(self, kind, a, b):
        if self.decisive(kind, a, b):
            return [Leaf(kind, a, b, True)]
        if self.refuted(kind, a, b):
            self.told.add((a, b))
            return [Leaf(kind, a, b, True)]
        return [Leaf(kind, a, b, False)]

    def refuted(self, kind, a, b):
        """does an interpretation of the operations tell two scalars apart?"""
        if kind not in ("structure", "condition", "conditions", "terms", "factor", "factors", "comparison", "integer comparison",
                        "value", "kind", "function"):
            return False
        if {a.op, b.op} <= {"len", "count", "min", "max", "lv"} and not any(
                x.op in ("floordiv", "mod") for t in (a, b) for x in subterms(t)):
            return False
        if kind == "value" and "lv" not in (a.op, b.op):
            return False
        if kind != "value" and a.op not in interp.MEAN and b.op not in interp.MEAN and not any(
                interp.realfn(x) or interp.extremum(x) for x in (a, b)):
            return False
        if not {a.op, b.op} <= interp.MEAN | interp.FREE or "tup" in (a.op, b.op):
            return False
        return self.interpret(a, b) == "differ"

    def interpret(self, a, b):
        k = (a, b)
        if k not in self.interpreted:
            self.interpreted[k] = None
            self.interpreted[k] = interp.compare(a, b, *self.sub, facts=self.facts)
        return self.interpreted[k]

    def turned(self, a, b):
        """the same matrix, transposed or with the other sign of the imaginary part?"""
        if not {"transpose", "conj"} & {a.op, b.op}:
            return None
        (x, t, c), (y, t2, c2) = oriented(a), oriented(b)
        if x is not y:
            return None
        m = x.a[0] if x.op == "idx" and len(x.a) == 2 and x.a[1] is ZERO else x
        name = str(m.a[0]) if m.op in ("fn", "call") else ""
        if name not in MATRICES or (t, c) == (t2, c2) or MATRICES[name] and (t ^ t2) == (c ^ c2):
            return None
        return self.sure("rows and columns exchanged" if t != t2 else "conjugated", a, b)

    def decisive(self, kind, a, b):
        """are both sides so plain that different forms are different values?"""
        if b.op not in ("unbound", "undef") and unbound(a):
            return True
        if kind in ("constant kind", "size of", "integer comparison", "comparison", "container kind", "cycle", "arity"):
            return False
        if kind in ("condition", "conditions"):
            return self.plain(a, 1) and self.plain(b, 0) and same_literals(a, b)
        if kind in ("container", "structure") and not a.a and a.op in ("dict", "list", "tup", "setlit"):
            return b.op in ("obj", "tuple")  # nothing where there should be something
        if kind in ("container", "kind") and {a.op, b.op} & {"num", "str", "bool"}:
            return {a.op, b.op} & {"obj"} != set()
        if not self.plain(a, 1) or not self.plain(b, 0):
            return False
        if kind == "value" and {a.op, b.op} <= {"idx", "key", "elem"} and a.a[0] is b.a[0]:
            return b in a.a or a in b.a
        if {a.op, b.op} & {"len", "count", "min", "max", "lv"}:
            return False
        return True

    def plain(self, t, other):
        """made of understood operations on values that the other side has too"""
        k = (t, other)
        r = self.plainmemo.get(k)
        if r is None:
            n = 0
            r = True
            todo = [t]
            seen = set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                n += 1
                if n > 40:
                    r = False
                    break
                if x in self.sub[other]:
                    continue
                if x.op not in PLAIN or x.op == "call" and x.a[0] not in self.callees(other):
                    r = False
                    break
                todo += children(x)
            self.plainmemo[k] = r
        return r

    def simple(self, x, other):
        """a sum of quantities the other side has too"""
        return all(y in self.sub[other] for m in poly(x) for y, _ in m)

    def callees(self, side):
        """functions the other side uses as well, or whose meaning is known"""
        r = self.called.get(side)
        if r is None:
            r = self.called[side] = {x.a[0] for x in self.sub[side] if x.op == "call"} | BUILTIN
        return r

    def sure(self, kind, a, b):
        return [Leaf(kind, a, b, True)]

    def size(self, t):
        n = 0
        for _ in subterms(t):
            n += 1
            if n > 400:
                break
        return n

    # ---------------------------------------------------------------- dispatch
    def settled(self, a, b):
        """the same for the only values that a quantity takes?"""
        within = set(subterms(a)) | set(subterms(b))
        for x, k in self.pinned():
            if x in within and subst(a, {x: k}) is subst(b, {x: k}):
                return True
        for c in within:
            if c.op == "eq0" and (d := pin(c)) and d[0].op in ("idx", "call", "get"):
                x = d[0]
                if all(subst(a, {x: num(k)}) is subst(b, {x: num(k)}) for k in (0, 1)):
                    return True
        return False

    def pinned(self):
        """quantities that some check compares with a constant"""
        if self.pins is None or self.pins[0] is not self.facts:
            out = set()
            for f in self.facts:
                for c in subterms(f):
                    if c.op == "eq0" and (d := pin(c)):
                        out.add(d)
            self.pins = (self.facts, sorted(out, key=lambda d: (d[0].n, d[1].n)))
        return self.pins[1]

    def _diff(self, a, b, ctx):
        A, B = a.op, b.op
        if A in NUMERIC and B in NUMERIC and (rounding(a) or rounding(b)) and self.interpret(a, b) == "agree":
            return [Leaf("form", a, b, False)]
        if A in NUMERIC | {"param", "idx"} and B in NUMERIC | {"param", "idx"} and self.settled(a, b):
            return [Leaf("form", a, b, False)]
        if A == "rev" and a.a[0] is b or B == "rev" and b.a[0] is a:
            return self.sure("order reversed", a, b)
        if a.op != b.op and sequence(a) is sequence(b):
            return [Leaf("kind of sequence", a, b, False)]
        if A in BOOL and B in BOOL and (A in COND or B in COND or logic.string_test(a) or logic.string_test(b)):
            r = logic.equivalent(a, b)
            if r:
                return []
            if r is False and logic.shared(a, b):
                return self.sure("conditions", a, b)
            if A in COND and B in COND and (A in ("and", "or") or B in ("and", "or")) and self.interpret(a, b) == "agree":
                return [Leaf("form", a, b, False)]
        lit = ("num", "str", "bool", "none")
        if A in lit and B in lit:
            if A == B:
                return self.sure("constant", a, b)
            return self.maybe("constant kind", a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == "min" and len(x.a) == 2 and y in x.a and y.op == "len" and y.a[0].op in ("param", "elem", "idx", "key", "get") \
                    and all(z is y or z.op == "num" for z in x.a):
                return self.sure("bounded number of steps", a, b)
        if A in ("poly", "num") or B in ("poly", "num"):
            numeric = ("poly", "num", "idx", "call", "param", "get", "muget", "prod", "sum", "sqrt", "abs", "abs2", "conj",
                       "re", "im", "inv", "lv", "len", "exp", "norm", "key", "elem", "rec", "floordiv", "mod", "gamma",
                       "lib", "meth", "attr", "int", "sgnpow", "libcall", "norm2", "first", "last", "max", "min")
            if A in ("rec", "recout") and B == "poly" and self.accumulates(a if A == "rec" else a.a[0], b):
                return self.sure("accumulated in another way", a, b)
            if A in numeric and B in numeric:
                if (A == "gamma") != (B == "gamma"):
                    return self.gammadiff(a, b, ctx)
                return self.polydiff(a, b, ctx)
            return self.maybe("kind", a, b)
        if {A, B} == {"lt0", "le0"} or A == B and A in ("lt0", "le0", "eq0"):
            return self.reldiff(a, b, ctx)
        if A in ("not",) and B in ("not",):
            return self.diff(a.a[0], b.a[0], ctx)
        if b_not(a) is b and (A in BOOL or B in BOOL):
            return self.sure("negated condition", a, b)
        if A in ("and", "or") or B in ("and", "or"):
            if A == B or (A in BOOL and B in BOOL and not (A in ("and", "or") and B in ("and", "or"))):
                op = A if A in ("and", "or") else B
                return self.setdiff(a, b, op, ctx)
            if a is TRUE or b is TRUE:
                op = A if A in ("and", "or") else B
                return self.setdiff(a, b, "and", ctx) if op == "and" else self.maybe("condition", a, b)
            return self.maybe("condition", a, b)
        if A in BOOL and B in BOOL and (a is TRUE or b is TRUE):
            return self.setdiff(a, b, "and", ctx)
        if A == "obj" and B == "obj":
            return self.objdiff(a, b, ctx)
        if self.truncated(a, b):
            return self.sure("truncated", a, b)
        if self.oneobject(a, b):
            return self.sure("one shared object", a, b)
        if A == "obj" and a.a[0].a[0] == "loc" and a.a[1] is b:
            ups = [u for u in a.a[2:] if not never(u)]
            if ups:
                return [Leaf("additional update", u, NONE, True) for u in ups]
            return []
        if A == B == "sorted" and len(a.a) == 2 and len(b.a) == 1:
            k, rest = a.a[1].a[1], self.diff(a.a[0], b.a[0])
            if a.a[1].a[0] == "reverse" and k is TRUE:
                return self.sure("order reversed", a, b) + rest
            if a.a[1].a[0] == "key" and partial_key(k) and isset(a.a[0]):
                return self.sure("order among equal keys is left open", a, b) + rest
            return self.maybe("sorted", a, b) + rest
        if A == "sorted" and len(a.a) == 1 and B == "obj" and len(b.a) == 2 and b.a[0].a[0] == "list" and \
                b.a[1].op == "seq" and b.a[1].a[0] is a.a[0] and a.a[0].op in ("param", "key", "elem", "idx"):
            return self.sure("sorted", a, b)
        if A == "obj" or B == "obj":
            o, x = (a, b) if A == "obj" else (b, a)
            if B == "sorted" and A == "obj" and len(b.a) == 1 and unordered(a, b.a[0]):
                return self.sure("not sorted", a, b)
            e = elementwise(o)
            if e is not None and e[1] is mk("len", x):
                v = mk("idx", x, e[0])
                return self.diff(*((e[2], v) if A == "obj" else (v, e[2])), ctx)
            return self.maybe("container", a, b)
        if A == B and A in ("errs", "effs"):
            return self.multidiff(a, b, A, ctx)
        if A == "gamma" and B == "gamma":
            if a.a[1] is not b.a[1] or a.a[2] is not b.a[2]:
                r = self.bycases(a, b, ctx)
                if r is not None:
                    return r
            if a.a[0] is b.a[0] and a.a[1] is b.a[2] and a.a[2] is b.a[1]:
                return self.sure("alternatives exchanged", a, b)
            if a.a[1] is b.a[2] and a.a[2] is b.a[1]:
                return [Leaf("conditions", a, b, False)]
            return self.args(a, b, ctx)
        if A == "gamma" or B == "gamma":
            return self.gammadiff(a, b, ctx)
        if A == B:
            return self.same_op(a, b, ctx)
        if A == "conj" and b is a.a[0] or B == "conj" and a is b.a[0]:
            return self.sure("complex conjugation", a, b)
        if A == "call" and a.a[0] in ("round", "np.round") and len(a.a) == 3 and a.a[2].op == "num" and a.a[2].a[0] > 0 and \
                (B in ("int",) and b.a[0] is a.a[1] or b is a.a[1]):
            return self.sure("function", a, b)
        pairs = [{"re", "im"}, {"abs", "abs2"}, {"abs2", "norm"}, {"in", "not"}]
        if {A, B} in pairs:
            return self.sure("function", a, b)
        if A == "rev" and a.a[0] is b or B == "rev" and b.a[0] is a:
            return self.sure("order reversed", a, b)
        if B == "rest" and b.a[0] is a:
            return self.sure("starts over in every round", a, b)
        p, q = representative(a), representative(b)
        if p and q and p[1] is q[1]:
            return [Leaf("representative", a, b, p[0] != q[0])]
        if A in ("sorted", "call") and b in a.a and orders(a) and mk("idx", b, ZERO) in self.sub[1]:
            return [Leaf("sorted", a, b, False)]  # which the specification takes for sorted
        if A == "call" and a.a[0] == "np.sort" and len(a.a) == 2 and a.a[1] is b and B == "param" and ctx != "len":
            return self.sure("sorted", a, b)
        if A == "sorted" and (a.a[0] is b or B == "rev" and a.a[0] is b.a[0]):
            if B == "rev" and b.a[0].op in ("param", "key", "elem", "idx"):
                return self.sure("sorted", a, b)
            if B in ("param", "key", "elem", "idx"):
                return self.sure("sorted", a, b)
            return self.maybe("sorted", a, b)
        if B == "sorted" and len(b.a) == 1 and (b.a[0] is a or unordered(a, b.a[0])):
            return self.sure("not sorted", a, b)
        r = self.turned(a, b)
        if r:
            return r
        if A == "keys" and a.a[0] is b or B == "keys" and b.a[0] is a:
            return [Leaf("mapping for its keys", a, b, ctx == "eq")]
        if A == "int" and a.a[0] is b or B == "int" and b.a[0] is a:
            return [Leaf("conversion", a, b, False)]
        if A in ("bitand", "bitor") and any(x is b and y.op == "num" for x, y in (a.a, a.a[::-1])):
            return self.sure("masked", a, b)
        if ctx == "eq" and A in ("keys", "values", "items", "len", "set") and a.a[0] is b:
            return self.sure("only a part is compared", a, b)
        if A == "lv" and B == "idx" and b.a[1] is a and orders(b.a[0]) and (
                b in self.sub[0] or not any(orders(x) for x in self.sub[0])) and \
                not any(x.op == "call" and x not in self.sub[1] and x.a[0] not in self.callees(0) for x in self.sub[0]):
            return self.sure("not sorted", a, b)
        if ctx == "eq" or {A, B} == {"eq", "eq0"}:
            r = self.equated(a, b)
            if r is not None:
                return r
        if A == "kw" and b.op != "kw" and (a.a[0].a[0] if isinstance(a.a[0], T) else a.a[0]) in ("dx", "axis"):
            return self.sure("another argument", a, b)
        if A == "transpose" and B == "idx" and a.a[0].op == "idx" and a.a[0].a[0] is b.a[0] and b.a[1].op == "tup" and \
                len(b.a[1].a) == 2 and a.a[0].a[1] is b.a[1].a[1] and b.a[1].a[0].op == "slice" and set(b.a[1].a[0].a) == {NONE}:
            return self.sure("rows and columns exchanged", a, b)
        if A == "meth" and a.a[0] in ("reshape", mk("str", "reshape")) and len(a.a) == 4 and B == "transpose" and a.a[1] is b.a[0]:
            return self.sure("reshaped instead of transposed", a, b)
        if A in ("zeros", "ones", "full", "empty") and b.op in ("idx", "param", "key", "elem") and b in subterms_of(a):
            return self.sure("a constant instead of the data", a, b)
        if A == "ex" and B == "not" and b.a[0].op in ("eq", "eq0") and self.unpaired(a, b.a[0]):
            return self.sure("entries without a partner are not compared", a, b)
        leafy = ("param", "lv", "key", "elem", "idx", "glob", "lib", "fn", "pi")
        if A in leafy and B in leafy:
            # two different plain values in the same place
            if "lv" in (A, B) and {A, B} <= {"lv", "key", "elem", "idx"}:
                k = a if A == "key" else b
                if {A, B} == {"lv", "key"} and k.a[1] in (a, b) and self.keyed(k.a[0]):
                    return self.sure("key exchanged for its position", a, b)
                return self.maybe("value", a, b)
            return self.sure("value", a, b) if ctx != "len" and {A, B} <= {"param", "key", "pi", "glob"} else \
                self.maybe("value", a, b)
        return self.maybe("structure", a, b)

    def keyed(self, d):
        """a mapping (known to both sides) whose keys are not simply the positions"""
        if d not in self.sub[0] or d not in self.sub[1]:
            return False
        while d.op == "mpi" and len(d.a) > 1 and isinstance(d.a[1], T):
            d = d.a[1]
        if d.op == "param":
            return True
        return d.op == "obj" and d.a[0].a[0] == "dict" and d.a[1].op == "dict" and not d.a[1].a and len(d.a) > 2 and \
            all(u.a[0].a[0] == "set" and u.a[1].op in ("idx", "key", "elem") for u in d.a[2:])

    def truncated(self, a, b):
        """only a part of a sequence instead of all of it"""
        if a.op != "idx" or len(a.a) != 2 or a.a[1].op != "slice":
            return False
        x, (lo, hi, step) = a.a[0], a.a[1].a
        if (x is not b and not (x.op == "meth" and b in x.a)) or step is not NONE or b.op not in ("param", "idx", "key", "elem", "glob"):
            return False
        if any(y.op in ("len", "count") and y.a and (y.a[0] is b or y.a[0] is x) for t in (lo, hi) for y in subterms(t)):
            return False
        return (lo, hi) != (NONE, NONE) and not (lo is ZERO and hi is NONE)

    def oneobject(self, a, b):
        """the same new object several times instead of several new objects"""
        if a.op != "idx" or a.a[0].op != "repeat" or b.op != "get" or b.a[0].op != "obj" or len(b.a[0].a) != 3:
            return False
        r = a.a[0].a[0]
        u = b.a[0].a[2]
        return r.op == "list" and len(r.a) == 1 and r.a[0].op == "obj" and u.a[0].a[0] == "append" and u.a[2] is r.a[0] and \
            r.a[0] in self.sub[1]

    def equated(self, a, b):
        """an equality written as a vanishing difference"""
        if a.op == "eq" and b.op == "eq0":
            m = list(poly(b.a[0]).items())
            if len(m) == 2 and sorted(c for _, c in m) == [(-1, 0), (1, 0)] and all(len(k) == 1 and k[0][1] == 1 for k, _ in m):
                u, v = (k[0][0] for k, _ in m)
                d = self.same_op(a, mk("eq", u, v), "")
                return d if all(l.definite for l in d) else None
        return None

    def accumulates(self, r, b):
        """the greatest, smallest, product ... of what the specification adds up"""
        if not isinstance(r, T) or r.op != "rec":
            return False
        s = r.a[2]
        name = s.a[0].a[0] if s.a and isinstance(s.a[0], T) and s.a[0].op == "str" else s.a[0] if s.a else None
        if not (s.op in ("meth", "call", "libcall", "max", "min") and (s.op in ("max", "min") or str(name).rsplit(".", 1)[-1] in (
                "maximum", "minimum", "multiply", "max", "min", "fmax", "fmin"))):
            return False
        parts = [x for x in s.a if isinstance(x, T)]
        return any(x.op == "recself" for x in parts) and any(
            y.op == "sum" and y.a[0] is r.a[0] and y.a[1] in parts for m in poly(b) for y, _ in m)

    def unpaired(self, a, e):
        """entries present in two mappings are compared instead of the mappings"""
        cs = a.a[1].a if a.a[1].op == "and" else [a.a[1]]
        maps = list(e.a) if e.op == "eq" else [y for m in poly(e.a[0]) for y, _ in m]
        return len(maps) == 2 and any(c.op == "in" and c.a[0].op == "key" and {c.a[0].a[0], c.a[1]} == set(maps) for c in cs)

    def gammadiff(self, a, b, ctx):
        g, o = (a, b) if a.op == "gamma" else (b, a)
        for z, y in ((g.a[1], g.a[2]), (g.a[2], g.a[1])):
            if z is ZERO and y is o and self.vanishes(y, g.a[0] if z is g.a[1] else b_not(g.a[0])):
                return []
        if g.a[1] is o or g.a[2] is o:
            return self.sure("case distinction", a, b)
        return self.maybe("structure", a, b)

    def vanishes(self, y, c):
        """is the value zero anyway under the condition?"""
        if y.op == "prod":
            if c.op == "or":
                return all(self.vanishes(y, x) for x in c.a)
            return c.op == "ex" and c.a[0] is y.a[0] and self.vanishes(y.a[1], c.a[1])
        z = eq0(y)
        return z is TRUE or logic.implies(c, z) is True

    def bycases(self, a, b, ctx):
        """values compared in every possible case"""
        ps, alone = logic.cases(a, b)
        if ps is None:
            return None
        if ps and not all(x in self.sub[1 - i] or self.simple(x, 1 - i) for i in (0, 1) for x in alone[i]):
            return None
        out = []
        for x, y in ps:
            if x.op == "gamma" or y.op == "gamma":
                return None
            out += self.diff(x, y, ctx)
        if out and not all(l.definite for l in out):
            return None
        return out

    def args(self, a, b, ctx):
        if len(a.a) != len(b.a):
            return self.maybe("arity", a, b)
        out = []
        for x, y in zip(a.a, b.a):
            if isinstance(x, T) and isinstance(y, T):
                out += self.diff(x, y, ctx)
            elif x != y:
                if isinstance(x, tuple) and isinstance(y, tuple):
                    out += self.maybe("structure", a, b)
                else:
                    out += self.sure("name", a, b) if isinstance(x, str) and isinstance(y, str) else \
                        self.maybe("structure", a, b)
        return out

    def same_op(self, a, b, ctx):
        o = a.op
        if o == "idx" and len(a.a) == len(b.a) == 2 and a.a[1] is not b.a[1] and a.a[0] is not b.a[0]:
            p, q = (x.a[0].a[0] if x.a[0].op == "nparray" else x.a[0] for x in (a, b))
            if p is q and "slice" in (a.a[1].op, b.a[1].op):  # the entries are the same
                for x, y in ((a, b), (b, a)):
                    k = x.a[1]
                    if k.op == "slice" and y.a[1].op in BOOL:
                        return [Leaf("selection", a, b, k.a[2] is NONE and ((as_int(k.a[0]) or 0) > 0 or
                                     k.a[0] not in (NONE, ZERO) and k.a[1] is NONE))]
        if o in ("rec", "first", "last", "atbreak") and (a.a[0].op == "backward") != (b.a[0].op == "backward"):
            p, q = (x.a[0].a[0] if x.a[0].op == "backward" else x.a[0] for x in (a, b))
            if p is not q:
                return self.maybe("direction", a, b)
            flat = [subst(x, {mk("backward", p): p}) for x in (a, b)]
            return [Leaf("direction", a, b, flat[0] is flat[1] and ordered(a) and ordered(b))]
        if o == "param":
            if ctx == "len" and any(a.a[0] in g and b.a[0] in g for g in SIZES):
                return self.maybe("size of", a, b)
            return [Leaf("size of", a, b, a.a[0] in SIZED and b.a[0] in SIZED)] if ctx == "len" else self.sure("variable", a, b)
        if o == "len":
            p, q = (stripped(x.a[0]) for x in (a, b))
            if p.op in ("call", "gamma") and q.op in ("call", "gamma") and (p.op != q.op or p.a[0] != q.a[0]):
                return [Leaf("size of", a, b, False)]
            return self.diff(a.a[0], b.a[0], "len")
        if o == "upd" and a.a[3] is not b.a[3] and len(a.a) == len(b.a) and a.a[2] is not b.a[2]:
            g = [set(x.a[3].a if x.a[3].op == "and" else [] if x.a[3] is TRUE else [x.a[3]]) for x in (a, b)]
            if g[1] < g[0]:
                c = under(b, a.a[3])
                if c is not b and c.a[2] is a.a[2]:
                    b = c
        if o == "upd" and a.a[0] is not b.a[0] and len(a.a) == len(b.a) and a.a[1:] == b.a[1:] and \
                {a.a[0].a[0], b.a[0].a[0]} <= {"update", "difference_update", "intersection_update", "symmetric_difference_update"}:
            return self.sure("kind of update", a, b)
        if o == "upd" and a.a[0] is not b.a[0] and not {a.a[0].a[0], b.a[0].a[0]} <= {"set", "acc", "append", "add", "pop"}:
            return self.maybe("kind of update", a, b)
        if o == "upd" and len(a.a) == len(b.a) == 5 and a.a[4] is not b.a[4]:
            g = [set(x.a[3].a if x.a[3].op == "and" else [x.a[3]]) for x in (a, b)]
            if any(x.op == "in" for x in g[0] - g[1]):
                return [Leaf("loop over something else, filtered", a, b, False)]
        if o in ("lv", "count", "L", "range"):
            return self.args(a, b, "len")
        if o == "eff" and len(a.a) == len(b.a) > 3 and a.a[0] is b.a[0] and a.a[-1] is b.a[-1] and a.a[-1].op == "tup" and not a.a[-1].a:
            out = []
            for i, (x, y) in enumerate(zip(a.a, b.a)):
                out += self.diff(x, y, "done" if i == len(a.a) - 2 else ctx)
            return out
        if o in ("call", "fn"):
            if a.a[0] == b.a[0] == "scipy.special.sph_harm" and len(a.a) == len(b.a) == 5 and a.a[3] is not b.a[3]:
                out = []
                for i in (1, 2, 4):
                    out += self.diff(a.a[i], b.a[i], ctx)
                # the azimuth counts up to full turns
                return out + [Leaf("angle", a.a[3], b.a[3], self.interpret(a.a[3], b.a[3]) == "differ")]
            if a.a[0] != b.a[0]:
                if len(a.a) == len(b.a) and a.a[1:] == b.a[1:] or o == "fn":
                    return self.sure("function", a, b)
                return self.maybe("function", a, b)
            if str(a.a[0]).startswith("bisect.bisect") and len(a.a) > len(b.a) == 3 and a.a[1:3] == b.a[1:3] and \
                    not (len(a.a) <= 5 and a.a[3] is ZERO and (len(a.a) == 4 or a.a[4] is mk("len", a.a[1]))):
                return self.sure("restricted search", a, b)
            return self.args(a, b, "")
        if o in ("libcall", "lib"):
            if a.a[0] is not b.a[0] and a.a[0] != b.a[0]:
                x, y = str(a.a[0]), str(b.a[0])
                anti = [("max", "min"), ("sin", "cos"), ("argmax", "argmin"), ("cosh", "sinh")]
                for p, q in anti:
                    if (p in x and q in y) or (q in x and p in y):
                        return self.sure("function", a, b)
                return self.maybe("function", a, b)
            return self.args(a, b, "")
        if o == "meth":
            if a.a[0] is not b.a[0] and a.a[0] != b.a[0]:
                return self.maybe("function", a, b)
            return self.args(a, b, ctx)
        if o in ("dict", "setlit", "list", "tup"):
            if len(a.a) == len(b.a):
                if o in ("tup", "list") and sorted(x.n for x in a.a) == sorted(x.n for x in b.a):
                    return self.sure("order", a, b)
                return self.args(a, b, ctx)
            xs, ys = set(a.a), set(b.a)
            if xs < ys or ys < xs:
                return self.sure("missing or additional entry", a, b)
            return self.maybe("entries", a, b)
        if o == "concat":
            if len(a.a) == len(b.a):
                if sorted(x.n for x in a.a) == sorted(x.n for x in b.a):
                    return self.sure("order", a, b)
                return self.args(a, b, ctx)
            if set(a.a) < set(b.a) or set(b.a) < set(a.a):
                return self.sure("missing or additional part", a, b)
            return self.maybe("parts", a, b)
        if o in ("zeros", "ones", "empty", "full"):
            dt = [x.a[-1].a[0] if x.a and x.a[-1].op == "str" else "float" for x in (a, b)]
            sh = [[y for y in x.a if y.op != "str"] for x in (a, b)]
            if len(sh[0]) != len(sh[1]):
                return self.maybe("arity", a, b)
            out = []
            for x, y in zip(*sh):
                out += self.diff(x, y, "len")
            if "?" in dt and dt[0] != dt[1]:
                return out + [Leaf("type of the elements", a, b, False)]
            if dt[0] != dt[1]:
                out += self.sure("type of the elements", a, b) if "complex" in dt else self.maybe("type of the elements", a, b)
            return out
        if o == "slice" and len(a.a) == len(b.a) == 3 and a.a[0] is b.a[0] and a.a[2] is b.a[2] and NONE in (a.a[1], b.a[1]) and \
                "num" not in (a.a[1].op, b.a[1].op):
            return [Leaf("end of a slice", a, b, False)]
        if o == "eff" and a.a[0] is b.a[0] and a.a[0].op == "str" and a.a[0].a[0] == "mpi" and a.a[1] is not b.a[1]:
            return [Leaf("kind of communication", a, b, False)]
        if o == "eq":
            x, y = self.args(a, b, "eq"), self.args(a, mk("eq*", b.a[1], b.a[0]), "eq")
            return min((x, y), key=lambda d: (any(not l.definite for l in d), len(d)))
        return self.args(a, b, "" if o in ("call", "idx", "libcall", "meth", "key", "get", "muget", "attr") else ctx)

    # ---------------------------------------------------------------- arithmetic
    def polydiff(self, a, b, ctx):
        if a.op in interp.MEAN and b.op in interp.MEAN and self.interpret(a, b) == "agree":
            return [Leaf("form", a, b, False)]
        for t, o in ((a, b), (b, a)):
            for g in {y for m in poly(t) for y, _ in m if y.op == "gamma" and y not in subterms_of(o)}:
                one, two = subst(t, {g: g.a[1]}) is o, subst(t, {g: g.a[2]}) is o
                if one != two:
                    z = g.a[2] if one else g.a[1]
                    c = g.a[0] if one else b_not(g.a[0])
                    if not (z is ZERO and self.vanishes(g.a[1] if one else g.a[2], b_not(c))):
                        return self.sure("case distinction", a, b)
        P, Q = poly(a), poly(b)
        pa = {m: c for m, c in P.items() if Q.get(m) != c}
        qa = {m: c for m, c in Q.items() if P.get(m) != c}
        if set(pa) == set(qa):
            if ctx == "len" and set(pa) == {()}:
                return self.sure("constant", a, b)
            return self.sure("coefficient", a, b)
        same = set(pa) & set(qa)
        out = []
        for m in same:
            out += self.sure("coefficient", a, b)
            del pa[m], qa[m]
        if not pa or not qa:
            return out + self.sure("missing or additional term", a, b)
        if len(pa) != len(qa):
            return out + self.maybe("terms", a, b)
        if len(pa) > 4:
            return out + self.maybe("terms", a, b)
        rest = list(qa.items())
        for m, c in sorted(pa.items(), key=lambda mc: len(mc[0])):
            best = None
            for i, (m2, c2) in enumerate(rest):
                d = self.monodiff(m, c, m2, c2, a, b, ctx)
                sc = (sum(not x.definite for x in d), len(d))
                if best is None or sc < best[0]:
                    best = (sc, i, d)
            out += best[2]
            rest.pop(best[1])
        return out

    def monodiff(self, m, c, m2, c2, a, b, ctx):
        x, y = dict(m), dict(m2)
        for k in list(x):
            if k in y and x[k] == y[k]:
                del x[k], y[k]
        out = []
        if c != c2:
            out += self.sure("coefficient", a, b)
        for k in list(x):
            if k in y:
                out += self.sure("power", a, b)
                del x[k], y[k]
        if not x and not y:
            return out
        if not x or not y:
            if ctx == "len":
                return out + self.maybe("factor", a, b)
            r = x or y
            if any(z.op in ("gamma",) for z in r):
                return out + self.maybe("factor", a, b)
            if not m or not m2:
                return out + self.maybe("factor", a, b)
            return out + self.sure("missing or additional factor", a, b)
        if len(x) == 1 and len(y) == 1:
            (k1, e1), = x.items()
            (k2, e2), = y.items()
            if e1 != e2:
                return out + self.maybe("factor", a, b)
            return out + self.diff(k1, k2, ctx)
        if len(x) == len(y) <= 3:
            ys = list(y.items())
            for k1, e1 in x.items():
                best = None
                for i, (k2, e2) in enumerate(ys):
                    d = self.diff(k1, k2, ctx) if e1 == e2 else self.maybe("factor", a, b)
                    sc = (e1 != e2, sum(not z.definite for z in d), len(d))
                    if best is None or sc < best[0]:
                        best = (sc, i, d)
                out += best[2]
                ys.pop(best[1])
            return out
        return out + self.maybe("factors", a, b)

    def reldiff(self, a, b, ctx):
        p, q = a.a[0], b.a[0]
        if a.op != b.op:
            if p is q:
                return self.sure("strictness of a comparison", a, b)
            if p is neg(q):
                return self.sure("direction of a comparison", a, b)
            f = as_frac(sub(p, q))
            if f is not None and abs(f) == 1:
                if (a.op == "lt0" and f == -1) or (a.op == "le0" and f == 1):
                    return self.maybe("integer comparison", a, b)
                if as_frac(sub(p, q)).denominator == 1:
                    return self.sure("bound of a comparison", a, b)
            f = as_frac(sub(neg(p), q))
            d = self.diff(p, q, ctx)
            if f is not None and all(not x.definite for x in d):
                return self.maybe("comparison", a, b)
            return self.maybe("comparison", a, b)
        if p is neg(q) and a.op != "eq0":
            return self.sure("direction of a comparison", a, b)
        d1 = self.diff(p, q, ctx)
        return d1

    def setdiff(self, a, b, op, ctx):
        X = list(a.a) if a.op == op else ([] if a is TRUE and op == "and" else [a])
        Y = list(b.a) if b.op == op else ([] if b is TRUE and op == "and" else [b])
        common = set(X) & set(Y)
        X = [x for x in X if x not in common]
        Y = [y for y in Y if y not in common]
        if not X or not Y:
            r = X or Y
            if len(r) > 2:
                return self.maybe("conditions", a, b)
            harmless = all(self.triviality(x) for x in r) and not (ctx == "done" and all(emptiness(x) for x in r))
            if all(any(f is x or f.op == "or" and x in f.a and any(b_not(y) in f.a for y in common) for f in self.facts) for x in r):
                return [Leaf("known condition", a, b, False)]  # an error otherwise
            if harmless:
                return self.maybe("condition", a, b)
            return self.sure("missing condition" if Y else "additional condition", a, b)
        if len(X) == len(Y) <= 3:
            out = []
            ys = list(Y)
            for x in X:
                best = None
                for i, y in enumerate(ys):
                    d = self.diff(x, y, ctx)
                    sc = (sum(not z.definite for z in d), len(d))
                    if best is None or sc < best[0]:
                        best = (sc, i, d)
                out += best[2]
                ys.pop(best[1])
            if len(X) > 1 and any((l.a, l.b) in self.told for l in out) and self.interpret(a, b) != "differ":
                # the parts differ, but they need not correspond
                out = [Leaf(l.kind, l.a, l.b, l.definite and (l.a, l.b) not in self.told) for l in out]
            return out
        return self.maybe("conditions", a, b)

    def triviality(self, x):
        """conditions that often make no difference: emptiness, zero amplitude, None, type tests"""
        o = x.op
        if o == "not":
            return self.triviality(x.a[0])
        if any(y.op == "rank" for y in subterms(x)):
            return False
        if o == "eq0" and logic.is_integer(x.a[0]) and any(y.op in ("floordiv", "mod") for y in subterms(x)):
            return False
        if o in ("truth", "isnone", "isinstance", "eq0"):
            return True
        if o in ("lt0", "le0"):
            ss = list(subterms(x))
            return any(t.op == "len" for t in ss) and len(ss) < 8
        if o in ("ex", "all"):
            return self.triviality(x.a[1])
        if o in ("and", "or"):
            return all(self.triviality(y) for y in x.a)
        return False

    # ---------------------------------------------------------------- containers
    def objdiff(self, a, b, ctx):
        out = []
        if a.a[0] is not b.a[0]:
            return self.maybe("container kind", a, b)
        out = self.diff(a.a[1], b.a[1], ctx)
        ups = self.multi(list(a.a[2:]), list(b.a[2:]), a, b, ctx, "update")
        if out and any(NONE in (l.a, l.b) for l in ups):  # filled in another way
            out = [Leaf(l.kind, l.a, l.b, False) for l in out]
        return out + ups

    def multidiff(self, a, b, what, ctx):
        X, Y = list(a.a), list(b.a)
        if what == "errs":  # which check reports first does not matter
            for loops in {x.a[1] for x in X} | {y.a[1] for y in Y}:
                p = [x for x in X if x.a[1] is loops]
                q = [y for y in Y if y.a[1] is loops]
                if set(p) != set(q) and logic.equivalent(b_or(*[x.a[0] for x in p]), b_or(*[y.a[0] for y in q])):
                    X = [x for x in X if x not in p]
                    Y = [y for y in Y if y not in q]
        return self.multi(X, Y, a, b, ctx, "error" if what == "errs" else "communication")

    def multi(self, X, Y, a, b, ctx, what):
        from collections import Counter
        cx, cy = Counter(X), Counter(Y)
        x = list((cx - cy).elements())
        y = list((cy - cx).elements())
        if not (y and all(never(q) for q in Y)):  # else the facts contradict each other
            x = [p for p in x if not never(p)]
            y = [q for q in y if not never(q)]
        if not x and not y:
            if cx != cy:
                return []
            if X != Y:
                return self.order(X, Y, a, b)
            return []
        out = []
        nx, ny = len(x), len(y)
        if nx > 1 and ny == 1 or nx == 1 and ny > 1:
            d = self.split(x, y, ctx)
            if d is not None:
                return d
        if nx and ny:
            if nx * ny > 150:
                return self.maybe(what + "s", a, b)
            pairs = []
            for i, p in enumerate(x):
                for k, q in enumerate(y):
                    d = self.diff(p, q, ctx)
                    other = p.op != q.op or p.a[:1] != q.a[:1] or \
                        p.op == "eff" and p.a[1:2] != q.a[1:2]
                    pairs.append(((other, sum(not z.definite for z in d) > 0, len(d), sum(not z.definite for z in d), -alike(p, q)),
                                  i, k, d))
            pairs.sort(key=lambda t: t[0])
            ux, uy = set(), set()
            for sc, i, k, d in pairs:
                if i in ux or k in uy or sc[0] and len(x) != len(y):
                    continue
                ux.add(i)
                uy.add(k)
                out += d
            x = [p for i, p in enumerate(x) if i not in ux]
            y = [q for i, q in enumerate(y) if i not in uy]
        if x or y:
            # one-sided rest is only meaningful when everything else corresponds
            ok = (nx == 0 or ny == 0) and (max(nx, ny) <= 3 or not X)
            for p in x:
                out.append(Leaf("additional " + what, p, NONE, ok))
            for q in y:
                out.append(Leaf("missing " + what, NONE, q, ok))
        return out

    def split(self, x, y, ctx):
        """one update (or effect) done in several disjoint cases"""
        many, one = (x, y[0]) if len(y) == 1 else (y, x[0])
        def guard(u):
            return u.a[3] if u.op == "upd" else u.a[-2] if u.op == "eff" and u.a[0].a[0] != "option" else None
        gs, g = [guard(p) for p in many], guard(one)
        if len(many) > 4 or g is None or None in gs or any(p.op != one.op or p.a[0] is not one.a[0] and p.a[0] != one.a[0] for p in many):
            return None
        if logic.equivalent(b_or(*gs), g) is not True:
            return None
        for i, c in enumerate(gs):
            for e in gs[:i]:
                if logic.equivalent(b_and(c, e), FALSE) is not True:
                    return None
        out = []
        for p, c in zip(many, gs):
            p, o = under(with_guard(p, g), c), under(one, c)
            out += self.diff(*((p, o) if many is x else (o, p)), ctx)
        return out if not out or all(l.definite for l in out) else None

    def order(self, X, Y, a, b):
        return [Leaf("order", a, b, True)]


def ordered(t):
    """does the outcome depend on which iteration comes first?"""
    if t.op == "rec":  # one step divides by what the others have given
        return any(x.op == "inv" and any(y.op == "recself" for y in subterms(x)) for x in subterms(t.a[2])) and \
            (t.a[0] in subterms(t.a[2]) or t.a[0].op == "backward" and t.a[0].a[0] in subterms(t.a[2]))
    if t.op == "first":  # the position of what is found
        return any(x.op == "rec" and x.a[0] is t.a[0] for x in subterms(t.a[2]))
    return False


def skeleton(t):
    """the form of a term, whatever it says about earlier iterations"""
    m = {}
    for x in sorted(subterms(t), key=lambda t: -t.n):
        if x.op in ("rec", "recself"):
            m[x] = mk("recself", num(0))
    return subst(t, m)


NOVALUE = ("num", "str", "none", "bool", "lv", "rank", "nranks", "upd", "eff", "L", "tup", "kw", "recself")


def minimal(here, there):
    """terms of one side only, made of terms of both, and what is made of those directly"""
    new = [x for x in here if x not in there]
    low = [x for x in new if all(y in there for y in children(x))]
    known = there | set(low)
    return sorted(low, key=lambda t: t.n) + sorted(
        (x for x in new if not all(y in there for y in children(x)) and all(y in known for y in children(x))), key=lambda t: t.n)


def with_guard(u, g):
    args = list(u.a)
    args[3 if u.op == "upd" else -2] = g
    return mk(u.op, *args)


def under(u, c):
    """the update in the case that the condition holds"""
    g = u.a[3 if u.op == "upd" else -2]
    rest = with_guard(u, TRUE)
    for x in sorted((x for x in subterms(rest) if x.op == "gamma"), key=lambda t: t.n)[:20]:
        if logic.implies(c, x.a[0]) is True:
            rest = subst(rest, {x: x.a[1]})
        elif logic.implies(c, b_not(x.a[0])) is True:
            rest = subst(rest, {x: x.a[2]})
    return with_guard(rest, g)


def stripped(x):
    while x.op in ("idx", "key", "elem") and isinstance(x.a[0], T):
        x = x.a[0]
    return x


def emptiness(x):
    """is it about the number of elements of what the caller has given?"""
    if x.op == "not":
        x = x.a[0]
    ls = [y for y in subterms(x) if y.op in ("len", "truth")]
    return x.op in ("eq0", "lt0", "le0", "truth") and len(ls) == 1 and ls[0].a[0].op == "param" and \
        all(y.op in ("poly", "num", "len", "truth", "param", x.op) for y in subterms(x))


def children(x):
    out = []
    def go(v):
        if isinstance(v, T):
            out.append(v)
        elif isinstance(v, (tuple, frozenset)):
            for y in v:
                go(y)
    for v in x.a:
        go(v)
    return out


def subterms_of(t):
    return set(subterms(t))


def alike(p, q):
    """how many parts do they have in common?"""
    def parts(t):
        out = set()
        for x in t.a:
            if isinstance(x, T):
                out.add(x)
                if x.op in ("and", "or", "tup"):
                    out.update(y for y in x.a if isinstance(y, T))
        return out
    return len(parts(p) & parts(q))


def never(t):
    """an error or update under a condition that cannot hold"""
    c = t.a[0] if t.op == "err" else t.a[3] if t.op == "upd" else None
    return c is not None and logic.equivalent(c, FALSE) is True


def unbound(t):
    """does the value come from a name that is not bound (outside of recurrences)?"""
    todo = [t]
    n = 0
    while todo and n < 60:
        x = todo.pop()
        n += 1
        if x.op in ("unbound", "undef"):
            return True
        if x.op not in ("rec", "last", "recout", "gamma", "obj", "muget", "mu"):
            todo += children(x)
    return False


NUMERIC = {"poly", "num", "floordiv", "mod", "call", "libcall", "min", "max", "gamma", "abs", "int", "shl", "shr", "bitand", "bitor", "sgnpow", "prod"}
_ROUNDING = {}


def rounding(t):
    """is it made with operations that have many equivalent forms?"""
    r = _ROUNDING.get(t)
    if r is None:
        r = _ROUNDING[t] = any(
            x.op in ("floordiv", "mod", "int", "min", "max", "abs", "shl", "shr", "bitand", "bitor", "sgnpow") or
            x.op in ("call", "libcall") and (x.a[0] in interp.ROUND or x.a[0] in interp.PYROUND or x.a[0] in ("math.gcd", "divmod"))
            for x in subterms(t))
    return r


def pin(c):
    """x, k of x == k"""
    p = poly(c.a[0])
    xs = [m for m in p if m != ()]
    if len(xs) == 1 and len(xs[0]) == 1 and xs[0][0][1] == 1 and p[xs[0]][1] == 0 and xs[0][0][0].op in ("param", "idx", "call", "get", "attr"):
        x = xs[0][0][0]
        return x, sub(x, scale(c.a[0], (1 / p[xs[0]][0], p[xs[0]][1])))
    return None


def sequence(t):
    """a sequence without what only changes its type"""
    while t.op in ("tuple", "list", "toarray") and len(t.a) == 1 or \
            t.op in ("call", "libcall") and len(t.a) == 2 and t.a[0] in ("list", "tuple", "iter", "np.array", "np.asarray", "np.asanyarray"):
        t = t.a[-1]
    return t


PLAIN = {
    "num", "str", "none", "bool", "tup", "param", "poly", "idx", "key", "elem", "lv", "count", "conj", "re", "im", "abs", "abs2",
    "sqrt", "call", "fn", "opt", "glob", "pi", "floordiv", "mod", "slice", "eq", "eq0", "lt0", "le0", "not", "and", "or",
    "isnone", "range", "exp", "len", "in", "rank", "nranks", "toarray", "tuple", "lib", "libcall", "attr",
}


BUILTIN = {"range", "len", "min", "max", "np.min", "np.max", "abs", "round", "int", "float", "np.floor", "np.ceil", "math.floor",
           "math.ceil"}


def elementwise(o):
    """counter, number and value of the elements of a list filled by one loop"""
    if o.a[0].a[0] != "list" or len(o.a) != 3 or o.a[1].op != "list" or o.a[1].a:
        return None
    u = o.a[2]
    if u.a[0].a[0] != "append" or u.a[3] is not TRUE or len(u.a[4].a) != 1 or u.a[4].a[0].op != "L":
        return None
    lv = u.a[4].a[0].a[0]
    if lv.op != "lv" or lv.a[0].op != "count":
        return None
    return lv, lv.a[0].a[0], u.a[2]


def unordered(a, x):
    """the elements of x in a sequence of another order"""
    if a.op == "obj" and a.a[0].a[0] == "list" and len(a.a) == 2:
        a = a.a[1]
    if a.op in ("seq", "tuple", "list"):
        return a.a and (a.a[0] is x or isset(a.a[0]) and isset(x))
    return False


def isset(t):
    return t.op == "obj" and t.a[0].a[0] == "set" or t.op in ("set", "frozenset", "setlit")


def partial_key(k):
    """may different items have equal keys?"""
    if k.op == "lib":
        return k.a[0] in ("len", "max", "min")
    if k.op != "by":
        return False
    k = k.a[0]
    return k.op in ("len", "idx") and k.a[0].op == "sortedby"


HMATRIX = mk("param", "h")
MATRICES = {"finite.expand_basis_and_hamiltonian": True, "finite.get_hamiltonian_matrix": True,
            "finite.get_hamiltonian_matrix_from_h_dict": True, "finite.get_spherical_2_cubic_matrix": False}


def oriented(t):
    """matrix, transposed?, conjugated?"""
    f = [False, False]
    while t.op in ("transpose", "conj") and len(t.a) == 1:
        f[t.op == "conj"] ^= True
        t = t.a[0]
    return t, f[0], f[1]


def orders(t):
    """a permutation or a sequence obtained by sorting"""
    return t.op == "sorted" or t.op in ("call", "libcall", "lib", "meth") and "sort" in str(t.a[0])


def representative(t):
    """one number for a sequence: which one, and the sequence"""
    if t.op == "idx" and len(t.a) == 2 and t.a[1].op == "num":
        i = as_int(t.a[1])
        x = t.a[0]
        if x.op == "sorted" and len(x.a) == 1 or x.op == "call" and x.a[0] == "np.sort" and len(x.a) == 2:
            x = x.a[-1]
        return {0: ("first", x), -1: ("last", x)}.get(i)
    if t.op in ("min", "max") and len(t.a) == 1:
        return {"min": "first", "max": "last"}[t.op], t.a[0]
    if t.op == "call" and len(t.a) == 2 and isinstance(t.a[1], T):
        n = str(t.a[0])
        k = REPRESENTATIVE.get(n[3:] if n.startswith("np.") else n)
        return k and (k, t.a[1])
    return None


REPRESENTATIVE = {"min": "first", "amin": "first", "max": "last", "amax": "last", "mean": "mean", "average": "mean", "median": "median",
                  "sum": "sum", "nanmin": "first", "nanmax": "last", "nanmean": "mean", "ptp": "width", "std": "spread", "var": "variance"}


SIZES = ({"es", "psis", "energies", "observable"}, {"Ri", "Rj", "r", "RiNIXS", "RjNIXS", "radialMesh"},
         {"nBaths", "valBaths", "dnValBaths", "dnConBaths", "dnTol", "n0imp"})
SIZED = {"data", "total", "es", "psis", "tOps", "tOpsIn", "tOpsOut", "wIns", "wLoss", "w", "omega", "basis", "h_dict", "op", "psi",
         "nBaths", "tasks_tot", "qs", "ns", "epsilons", "process", "restrictions"}


def same_literals(a, b):
    """the same literals under another connective"""
    def lits(t, s):
        if t.op in ("and", "or"):
            for x in t.a:
                lits(x, s)
        else:
            s.add(t)
        return s
    return {a.op, b.op} == {"and", "or"} and lits(a, set()) == lits(b, set())


COND = {"and", "or", "not", "lt0", "le0", "eq0"}
BOOL = {"truth", "bool", "eq", "eq0", "lt0", "le0", "and", "or", "not", "in", "ex", "all", "isnone", "isinstance", "exc"}


def outline(t):
    """a short form that variants of one difference (in unrolled recurrences) share"""
    return show(t, 3)[:120] if isinstance(t, T) else t


def verdict(leaves):
    if not leaves:
        return SAME
    if all(x.definite for x in leaves) and len({(x.kind, outline(x.a), outline(x.b)) for x in leaves}) <= 16:
        return DIFF
    return UNKNOWN
