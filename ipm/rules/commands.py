"""C22: every shipped or documented program call is accepted by the program it names.

The option table and the sanity checks of each program are taken from its abstract execution
(the calls of add_argument, the conditions of its error paths); the calls are taken from the
shell scripts, the makefiles and the code blocks of the documentation.
"""
import os
import re
import shlex
from fractions import Fraction

from ..report import proved, violated, undecided
from ..repo import AnalysisBroken
from ..terms import T, as_int

RULE = "documented call is accepted"


class Unknown(Exception):
    pass


def documents(root):
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in (".git", "node_modules", "referenceOutput", "__pycache__"))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith((".sh", ".md", ".rst", ".yml", ".yaml")) or f == "Makefile":
                yield os.path.relpath(p, root), p


def invocations(root):
    """(file, line, module, tokens) of every `python -m impurityModel...`"""
    for rel, p in documents(root):
        try:
            lines = open(p, encoding="utf-8").read().split("\n")
        except UnicodeDecodeError:
            continue
        i = 0
        while i < len(lines):
            n = i
            s = lines[i]
            while s.rstrip().endswith("\\") and i + 1 < len(lines):
                i += 1
                s = s.rstrip()[:-1] + " " + lines[i]
            i += 1
            if s.lstrip().startswith("#") and rel.endswith((".sh", "Makefile")):
                continue
            for m in re.finditer(r"python[0-9.]*\s+-m\s+(impurityModel[\w.]*)([^`|;&>]*)", s):
                try:
                    toks = shlex.split(m.group(2), comments=True)
                except ValueError:
                    continue
                yield rel, n + 1, m.group(1), toks
            for m in re.finditer(r"python[0-9.]*\s+((?:[\w./$-]*/)?impurityModel/[\w/]+)\.py([^`|;&>]*)", s):
                q = m.group(1)
                q = q[q.index("impurityModel/"):].replace("/", ".")
                try:
                    toks = shlex.split(m.group(2), comments=True)
                except ValueError:
                    continue
                yield rel, n + 1, q, toks


def table(ck, mod):
    """options and error conditions of a program"""
    q = f"{mod}.__main__"
    if q not in ck.repo.funcs:
        return None
    sm = ck.summary(q, "code")
    if not any(e.kind == "meth" and e.name == "parse_args" for e in sm.res.events):
        return ("plain", sm, {}, [], [])
    opts, pos = {}, []
    for e in sm.res.events:
        if e.kind == "meth" and e.name == "add_argument" and e.args[0].op == "parser":
            names = [a.a[0] for a in e.args[1:] if a.op == "str"]
            if len(names) != len(e.args) - 1 or e.pc or e.loops:
                return ("unknown", sm, {}, [], [])
            o = {k: sm.x(v) for k, v in e.kw.items()}
            o["names"] = names
            if names[0].startswith("-"):
                long = [x for x in names if x.startswith("--")]
                o["dest"] = o["dest"].a[0] if "dest" in o and isinstance(o["dest"], T) else \
                    (long or names)[0].lstrip("-").replace("-", "_")
                for x in names:
                    opts[x] = o
            else:
                o["dest"] = names[0]
                pos.append(o)
    return ("argparse", sm, opts, pos, list(sm.items()["raise"].a))


def typed(o, tok):
    if "$" in tok:
        return None
    t = o.get("type")
    n = t.a[0] if t is not None and t.op == "lib" else "str"
    try:
        if n == "int":
            return Fraction(int(tok))
        if n == "float":
            return Fraction(repr(float(tok)))
    except (ValueError, OverflowError):
        raise Unknown(f"{tok!r} is not of type {n}")
    ch = o.get("choices")
    if ch is not None and ch.op in ("tup", "list"):
        if all(c.op == "str" for c in ch.a) and tok not in [c.a[0] for c in ch.a]:
            raise Unknown(f"{tok!r} is not among the choices")
    return tok


def default(o):
    d = o.get("default")
    if d is None:
        return None
    if d.op in ("list", "tup"):
        return [const(x) for x in d.a]
    return const(d)


def const(t):
    if t.op == "num" and t.a[1] == 0:
        return Fraction(t.a[0])
    if t.op in ("str", "bool"):
        return t.a[0]
    return None


def accept(opts, pos, toks):
    """values of all options, or Unknown with the reason why the parser rejects"""
    vals = {}
    bare = []
    i = 0
    isopt = [t.startswith("-") and not re.fullmatch(r"-\d+\.?\d*(e-?\d+)?|-\.\d+|-", t) for t in toks]
    while i < len(toks):
        t = toks[i]
        i += 1
        if not isopt[i - 1]:
            bare.append(t)
            continue
        name, eq, inl = t.partition("=")
        if name in ("-h", "--help"):
            raise Unknown("asks for help only")
        cand = [name] if name in opts else [x for x in opts if x.startswith(name)] if name.startswith("--") else []
        if len({opts[x]["dest"] for x in cand}) != 1:
            raise Unknown(f"option {name} is {'ambiguous' if cand else 'unknown'}")
        o = opts[cand[0]]
        args = [inl] if eq else []
        na = o.get("nargs")
        act = o.get("action")
        act = act.a[0] if act is not None and act.op == "str" else None
        if act in ("store_true", "store_false", "count"):
            vals[o["dest"]] = act == "store_true"
            continue
        if not eq:
            lim = 1 if na is None or na.op == "str" and na.a[0] == "?" else as_int(na) if as_int(na) is not None else 10 ** 6
            while i < len(toks) and not isopt[i] and len(args) < lim:
                args.append(toks[i])
                i += 1
        need(o, na, args, name)
        v = [typed(o, a) for a in args]
        vals[o["dest"]] = v[0] if (na is None or na.op == "str" and na.a[0] == "?") and v else v
    k = 0
    for o in pos:
        na = o.get("nargs")
        n = 1 if na is None else as_int(na)
        if n is None:
            n = 1 if na.op == "str" and na.a[0] == "?" else len(bare) - k
            if na.op == "str" and na.a[0] in "?*" and k >= len(bare):
                vals[o["dest"]] = default(o)
                continue
        if k + n > len(bare) or n < 1:
            raise Unknown(f"the argument {o['dest']} is missing")
        v = [typed(o, b) for b in bare[k:k + n]]
        vals[o["dest"]] = v[0] if na is None or na.op == "str" and na.a[0] == "?" else v
        k += n
    if k < len(bare):
        raise Unknown(f"surplus argument {bare[k]!r}")
    for o in opts.values():
        if o["dest"] not in vals:
            r = o.get("required")
            if r is not None and r.op == "bool" and r.a[0]:
                raise Unknown(f"the option {o['names'][0]} is required")
            vals[o["dest"]] = default(o)
    return vals


def need(o, na, args, name):
    n = len(args)
    ok = n == 1 if na is None else n >= 1 if na.op == "str" and na.a[0] == "+" else n <= 1 if na.op == "str" and \
        na.a[0] == "?" else True if na.op == "str" else n == as_int(na)
    if not ok:
        raise Unknown(f"option {name} has {n} values")


class Cannot(Exception):
    pass


def value(t, vals, env):
    """value of a closed term for given option values; Cannot when it depends on anything else"""
    o = t.op
    if t in env:
        return env[t]
    if o == "num" and t.a[1] == 0:
        return Fraction(t.a[0])
    if o in ("str", "bool"):
        return t.a[0]
    if o == "opt":
        v = vals.get(t.a[0])
        if v is None:
            raise Cannot
        return v
    if o == "len":
        v = value(t.a[0], vals, env)
        if isinstance(v, (list, str)):
            return Fraction(len(v))
        raise Cannot
    if o in ("call", "libcall") and t.a[0] in ("tuple", "list") and len(t.a) == 2:
        return value(t.a[1], vals, env)
    if o == "idx":
        v, k = value(t.a[0], vals, env), value(t.a[1], vals, env)
        if isinstance(v, list) and k.denominator == 1 and -len(v) <= k < len(v) and v[int(k)] is not None:
            return v[int(k)]
        raise Cannot
    if o == "poly":
        s = Fraction(0)
        for m, c in t.a[0]:
            if c[1] != 0:
                raise Cannot
            p = Fraction(c[0])
            for x, k in m:
                y = value(x, vals, env)
                if not isinstance(y, Fraction) or k < 0:
                    raise Cannot
                p *= y ** int(k)
            s += p
        return s
    if o == "min":
        return min(value(x, vals, env) for x in t.a)
    if o == "max":
        return max(value(x, vals, env) for x in t.a)
    if o == "eq0":
        return num_(t.a[0], vals, env) == 0
    if o == "lt0":
        return num_(t.a[0], vals, env) < 0
    if o == "le0":
        return num_(t.a[0], vals, env) <= 0
    if o == "eq":
        return value(t.a[0], vals, env) == value(t.a[1], vals, env)
    if o == "not":
        return not value(t.a[0], vals, env)
    if o == "and":
        return all([value(x, vals, env) for x in t.a])
    if o == "or":
        return any([value(x, vals, env) for x in t.a])
    raise Cannot


def num_(t, vals, env):
    v = value(t, vals, env)
    if isinstance(v, Fraction):
        return v
    raise Cannot


def rejected(err, vals):
    """an iteration in which the error condition certainly holds"""
    g, loops = err.a[0], err.a[1]

    def go(ls, env):
        if not ls:
            try:
                return value(g, vals, env) is True
            except Cannot:
                return False
        lv = ls[0].a[0]
        if lv.op != "lv" or lv.a[0].op != "count":
            return False
        try:
            n = value(lv.a[0].a[0], vals, env)
        except Cannot:
            return False
        for k in range(min(int(n), 64)):
            e = dict(env)
            e[lv] = Fraction(k)
            if go(ls[1:], e):
                return True
        return False

    return go(list(loops.a), {})


def calls(ck):
    out = []
    progs = {}
    seen = 0
    for rel, line, dotted, toks in invocations(ck.repo.root):
        if ".test." in dotted:
            continue
        seen += 1
        where = f"{rel}:{line}"
        name = f"{rel}: python -m {dotted} " + " ".join(toks)
        mod = ck.repo.dotted2short.get(dotted)
        if mod is None:
            out.append(violated(RULE, name, f"there is no module {dotted}", where))
            continue
        if mod not in progs:
            progs[mod] = table(ck, mod)
        t = progs[mod]
        if t is None:
            out.append(violated(RULE, name, f"{dotted} is not a program", where))
            continue
        kind, sm, opts, pos, errs = t
        if kind != "argparse":
            out.append(undecided(RULE, name, "the program reads its arguments itself", where))
            continue
        try:
            vals = accept(opts, pos, toks)
        except Unknown as e:
            out.append(violated(RULE, name, str(e), where))
            continue
        bad = [e for e in errs if rejected(e, vals)]
        if bad:
            out.append(violated(RULE, name, f"fails the check {bad[0].a[0]}", where))
        else:
            out.append(proved(RULE, name, f"{len(opts)} options, {len(errs)} checks", where))
    if seen < 3:
        raise AnalysisBroken("no documented program calls found")
    return out


def scripts(ck):
    """scripts and files the documentation names exist"""
    out = []
    root = ck.repo.root
    p = os.path.join(root, "README.md")
    if not os.path.exists(p):
        return out
    for n, s in enumerate(open(p, encoding="utf-8"), 1):
        for m in re.finditer(r"path/to/folder/impurityModel/([\w./-]+)", s):
            f = m.group(1)
            ok = os.path.exists(os.path.join(root, f))
            out.append((proved if ok else violated)("documented file exists", f"README.md: {f}", "", f"README.md:{n}"))
    for d in ("scripts",):
        for f in sorted(os.listdir(os.path.join(root, d))) if os.path.isdir(os.path.join(root, d)) else []:
            s = open(os.path.join(root, d, f), encoding="utf-8").read()
            for m in re.finditer(r"\$\{?DIR\}?\"?/\.\./([\w./-]+)\"?(?![\w./$-])", s):
                if m.group(1).endswith("_"):
                    continue
                ok = os.path.exists(os.path.join(root, m.group(1)))
                out.append((proved if ok else violated)("file used by a script exists", f"{d}/{f}: {m.group(1)}", "",
                                                         f"{d}/{f}:{s[:m.start()].count(chr(10)) + 1}"))
    return out


def siblings(ck):
    """both simulation programs have the same options, with the same types, values and defaults"""
    out = []
    a, b = table(ck, "get_spectra"), table(ck, "get_spectra_using_CF")
    if not a or not b or a[0] != "argparse" or b[0] != "argparse":
        return out
    rule = "both programs agree on their options"
    for n in sorted(set(a[2]) | set(b[2])):
        if n not in a[2] or n not in b[2]:
            out.append(violated(rule, f"option {n}", "offered by one program only"))
            continue
        p, q = a[2][n], b[2][n]
        diff = [k for k in ("type", "nargs", "default", "action", "choices", "required") if norm(p.get(k)) != norm(q.get(k))]
        if diff:
            out.append(violated(rule, f"option {n}", f"differ in {', '.join(diff)}: {p.get(diff[0])} and {q.get(diff[0])}"))
        else:
            out.append(proved(rule, f"option {n}"))
    return out


def norm(t):
    if isinstance(t, T) and t.op in ("list", "tup"):
        return ("seq", t.a)
    return t


RULES = [calls, scripts, siblings]
