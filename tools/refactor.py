"""Behaviour-preserving rewritings of the whole package, to see that the checks stay quiet.

python3 tools/refactor.py [NAME...]   (scratch copies under /tmp/ipmref)
"""
import ast, copy, os, shutil, sys, builtins
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(50000)
SRC = "/repo/impurityModel"
OUT = "/tmp/ipmref"


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def fns(tree):
    return [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


def blocks(n):
    for x in ast.walk(n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(x, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield x, f, b


def P(src):
    return ast.parse(src).body


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        loc = names(n, ast.Store) - {a.arg for a in n.args.args + n.args.kwonlyargs}
        # names read from an enclosing scope keep their names
        g = {x for s in ast.walk(n) if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names}
        strs = {x.value for x in ast.walk(n) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        m = {x: x + "_loc" for x in loc - g - strs}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]
        return n


class Negate(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class FlipCmp(ast.NodeTransformer):
    F = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.F:
            return ast.Compare(n.comparators[0], [self.F[type(n.ops[0])]()], [n.left])
        return n


class NotCmp(ast.NodeTransformer):
    F = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
         ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}

    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            n.test = ast.UnaryOp(ast.Not(), ast.Compare(t.left, [self.F[type(t.ops[0])]()], t.comparators))
        return n


class AugToAssign(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        t = copy.deepcopy(n.target)
        for x in ast.walk(t):
            if isinstance(getattr(x, "ctx", None), ast.Store):
                x.ctx = ast.Load()
        return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))


class AssignToAug(ast.NodeTransformer):
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, (ast.Add, ast.Sub, ast.Mult)) \
                and ast.dump(n.value.left).replace("Load()", "") == ast.dump(n.targets[0]).replace("Store()", ""):
            return ast.AugAssign(n.targets[0], n.value.op, n.value.right)
        return n


COUNT = [0]


def fresh(p="tmp"):
    COUNT[0] += 1
    return f"{p}_{COUNT[0]}"


class Temps(ast.NodeTransformer):
    """every call argument that is itself a call or an arithmetic expression gets a name"""
    def visit_stmts(self, b):
        out = []
        for s in b:
            pre = []
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and s.value is not None:
                v = s.value
                if isinstance(v, ast.Call):
                    for i, a in enumerate(v.args):
                        if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript)) and not any(
                                isinstance(x, (ast.Starred, ast.Yield)) for x in ast.walk(a)):
                            if not (isinstance(v.func, ast.Name) and v.func.id in ("print",)):
                                n = fresh()
                                pre.append(ast.Assign([ast.Name(n, ast.Store())], a))
                                v.args[i] = ast.Name(n, ast.Load())
                                continue
                        break
                elif isinstance(s, ast.Return) and isinstance(v, (ast.BinOp, ast.Tuple, ast.Dict, ast.ListComp)):
                    n = fresh()
                    pre.append(ast.Assign([ast.Name(n, ast.Store())], v))
                    s.value = ast.Name(n, ast.Load())
            out += pre + [s]
        return out

    def visit_FunctionDef(self, n):
        for x, f, b in list(blocks(n)):
            setattr(x, f, self.visit_stmts(b))
        return n


class InlineTemps(ast.NodeTransformer):
    """a name assigned once and read once in the next statement is replaced by its value"""
    def visit_FunctionDef(self, n):
        for x, f, b in list(blocks(n)):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                        and isinstance(t, (ast.Assign, ast.Return, ast.Expr)):
                    nm = s.targets[0].id
                    uses = [y for y in ast.walk(n) if isinstance(y, ast.Name) and y.id == nm]
                    inn = [y for y in ast.walk(t) if isinstance(y, ast.Name) and y.id == nm and isinstance(y.ctx, ast.Load)]
                    comp = any(isinstance(y, (ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.DictComp, ast.SetComp))
                               for y in ast.walk(t))
                    if len(uses) == 2 and len(inn) == 1 and not comp and not any(
                            isinstance(y, ast.Call) for y in ast.walk(t)):
                        class R(ast.NodeTransformer):
                            def visit_Name(self, m):
                                return s.value if m is inn[0] else m
                        b[i + 1] = R().visit(t)
                        del b[i]
                        continue
                i += 1
        return n


class RangeToWhile(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" \
                and len(n.iter.args) <= 2 and isinstance(n.target, ast.Name) and not n.orelse \
                and not any(isinstance(x, ast.Continue) for x in ast.walk(n)):
            a = n.iter.args
            lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
            c, h = fresh("i"), fresh("stop")
            return [ast.Assign([ast.Name(h, ast.Store())], hi), ast.Assign([ast.Name(c, ast.Store())], lo),
                    ast.While(ast.Compare(ast.Name(c, ast.Load()), [ast.Lt()], [ast.Name(h, ast.Load())]),
                              [ast.Assign([n.target], ast.Name(c, ast.Load()))] + n.body + P(f"{c} += 1"), [])]
        return n


class ZipToIndex(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "zip" and \
                isinstance(n.target, ast.Tuple) and all(isinstance(a, (ast.Name, ast.Attribute)) for a in n.iter.args):
            i = fresh("k")
            pre = [ast.Assign([t], ast.Subscript(a, ast.Name(i, ast.Load()), ast.Load()))
                   for t, a in zip(n.target.elts, n.iter.args)]
            it = ast.parse(f"range(len({ast.unparse(n.iter.args[0])}))", mode="eval").body
            return ast.For(ast.Name(i, ast.Store()), it, pre + n.body, n.orelse)
        return n


class EnumToIndex(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "enumerate" and \
                isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name) and len(n.iter.args) == 1 and \
                isinstance(n.iter.args[0], ast.Name):
            a = n.iter.args[0]
            it = ast.parse(f"range(len({a.id}))", mode="eval").body
            pre = [ast.Assign([n.target.elts[1]], ast.Subscript(a, ast.Name(n.target.elts[0].id, ast.Load()), ast.Load()))]
            return ast.For(n.target.elts[0], it, pre + n.body, n.orelse)
        return n


class IndexToEnum(ast.NodeTransformer):
    """for i in range(len(x)) -> for i, _ in enumerate(x)"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1 and \
                isinstance(it.args[0], ast.Call) and isinstance(it.args[0].func, ast.Name) and it.args[0].func.id == "len" \
                and isinstance(n.target, ast.Name):
            u = fresh("el")
            return ast.For(ast.Tuple([n.target, ast.Name(u, ast.Store())], ast.Store()),
                           ast.Call(ast.Name("enumerate", ast.Load()), it.args[0].args, []), n.body, n.orelse)
        return n


class ItemsToKeys(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and \
                isinstance(it.func.value, ast.Name) and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
            k = n.target.elts[0].id
            pre = [ast.Assign([n.target.elts[1]], ast.Subscript(it.func.value, ast.Name(k, ast.Load()), ast.Load()))]
            return ast.For(n.target.elts[0], it.func.value, pre + n.body, n.orelse)
        return n


class CompToLoop(ast.NodeTransformer):
    def stmts(self, b):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            kind = None
            wrap = None
            if isinstance(v, ast.ListComp):
                kind = "list"
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("sum", "tuple", "all", "any") \
                    and len(v.args) == 1 and isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)):
                kind = v.func.id
                wrap = v
                v = v.args[0]
            elif isinstance(v, ast.DictComp):
                kind = "dict"
            if kind in ("list", "sum", "tuple", "dict"):
                r = fresh("res")
                init = {"list": "[]", "tuple": "[]", "sum": "0", "dict": "{}"}[kind]
                if kind == "dict":
                    body = P(f"{r}[{ast.unparse(v.key)}] = {ast.unparse(v.value)}")
                elif kind == "sum":
                    body = P(f"{r} += {ast.unparse(v.elt)}")
                else:
                    body = P(f"{r}.append({ast.unparse(v.elt)})")
                for g in reversed(v.generators):
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    body = [ast.For(g.target, g.iter, body, [])]
                out += P(f"{r} = {init}") + body
                s.value = ast.parse(f"tuple({r})" if kind == "tuple" else r, mode="eval").body
            out.append(s)
        return out

    def visit_FunctionDef(self, n):
        for x, f, b in list(blocks(n)):
            setattr(x, f, self.stmts(b))
        return n


class EarlyContinue(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if n.body and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            s = n.body[-1]
            n.body = n.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])] + s.body
        return n


class SwapStmts(ast.NodeTransformer):
    """exchange neighbouring independent simple assignments"""
    def ok(self, s):
        if not isinstance(s, ast.Assign) or len(s.targets) != 1 or not isinstance(s.targets[0], ast.Name):
            return False
        for x in ast.walk(s.value):
            if isinstance(x, (ast.Yield, ast.NamedExpr)):
                return False
            if isinstance(x, ast.Call):
                f = ast.unparse(x.func)
                if "comm" in f or "pop" in f or "time" in f or "setdefault" in f or f[:1].islower() and "." not in f and \
                        not hasattr(builtins, f):
                    return False
        return True

    def visit_FunctionDef(self, n):
        for x, f, b in list(blocks(n)):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if self.ok(s) and self.ok(t):
                    a, c = s.targets[0].id, t.targets[0].id
                    if a != c and a not in names(t.value) and c not in names(s.value):
                        b[i], b[i + 1] = t, s
                        i += 2
                        continue
                i += 1
        return n


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        k = 1 if ast.get_docstring(n) is not None else 0
        n.body[k:k] = P("_unused = 0") + P("pass")
        return n


class ExtractRHS:
    """the right-hand side of assignments becomes a helper function of the module"""
    def __init__(self, every=1, start=0):
        self.every, self.start = every, start

    def visit(self, tree):
        new = []
        mod = {x.name for x in tree.body if isinstance(x, ast.FunctionDef)}
        n = 0
        for f in [x for x in tree.body if isinstance(x, ast.FunctionDef)]:
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
                continue
            loc = {a.arg for a in f.args.args + f.args.kwonlyargs} | names(f, ast.Store)
            for s in ast.walk(f):
                if isinstance(s, ast.Assign) and not isinstance(s.value, (ast.Constant, ast.Name)):
                    v = s.value
                    if any(isinstance(x, (ast.Lambda, ast.NamedExpr, ast.Starred)) for x in ast.walk(v)):
                        continue
                    if isinstance(v, (ast.List, ast.Dict)) and not (v.elts if isinstance(v, ast.List) else v.keys):
                        continue
                    n += 1
                    if n % self.every != self.start:
                        continue
                    bound = {x.id for c in ast.walk(v) if isinstance(c, ast.comprehension)
                             for x in ast.walk(c.target) if isinstance(x, ast.Name)}
                    free = sorted((names(v) & loc) - bound)
                    h = fresh("_helper")
                    new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in free], None, [], [], None, []),
                                               [ast.Return(v)], [], None, None, []))
                    s.value = ast.Call(ast.Name(h, ast.Load()), [ast.Name(a, ast.Load()) for a in free], [])
        i = next(i for i, x in enumerate(tree.body) if isinstance(x, (ast.FunctionDef, ast.If)))
        tree.body[i:i] = new
        return tree


class ExtractBody:
    """the body of the first loop of a function that only changes containers becomes a helper"""
    def visit(self, tree):
        new = []
        for f in [x for x in tree.body if isinstance(x, ast.FunctionDef)]:
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
                continue
            loc = {a.arg for a in f.args.args + f.args.kwonlyargs} | names(f, ast.Store)
            for s in ast.walk(f):
                if isinstance(s, ast.For) and len(s.body) >= 1:
                    m = ast.Module(s.body, [])
                    if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Raise)) for x in ast.walk(m)):
                        continue
                    st = names(m, ast.Store)
                    aug = {x.target.id for x in ast.walk(m) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
                    # names stored here must not be read elsewhere
                    inside = {id(y) for y in ast.walk(m)}
                    out = {y.id for y in ast.walk(f) if isinstance(y, ast.Name) and id(y) not in inside}
                    if aug or st & out:
                        continue
                    bound = {x.id for c in ast.walk(m) if isinstance(c, ast.comprehension)
                             for x in ast.walk(c.target) if isinstance(x, ast.Name)}
                    free = sorted((names(m) & loc) - st - bound)
                    h = fresh("_body")
                    new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in free], None, [], [], None, []),
                                               s.body, [], None, None, []))
                    s.body = [ast.Expr(ast.Call(ast.Name(h, ast.Load()), [ast.Name(a, ast.Load()) for a in free], []))]
                    break
        i = next(i for i, x in enumerate(tree.body) if isinstance(x, (ast.FunctionDef, ast.If)))
        tree.body[i:i] = new
        return tree


class Wrap:
    """f becomes a wrapper of _f_impl"""
    def visit(self, tree):
        out = []
        for x in tree.body:
            out.append(x)
            if isinstance(x, ast.FunctionDef) and not any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(x)):
                w = copy.deepcopy(x)
                x.name = "_" + w.name + "_impl"
                w.body = [ast.Return(ast.Call(ast.Name(x.name, ast.Load()),
                                              [ast.Name(a.arg, ast.Load()) for a in w.args.args],
                                              [ast.keyword(a.arg, ast.Name(a.arg, ast.Load())) for a in w.args.kwonlyargs]))]
                out.append(w)
        tree.body = out
        return tree


class DictGet(ast.NodeTransformer):
    """if k in d: d[k] += v else: d[k] = v  ->  d[k] = d.get(k, 0) + v"""
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1 and isinstance(n.body[0], ast.AugAssign) and \
                isinstance(n.orelse[0], ast.Assign) and isinstance(n.body[0].op, ast.Add) and \
                ast.unparse(n.body[0].target) == ast.unparse(n.orelse[0].targets[0]) and \
                ast.unparse(n.body[0].value) == ast.unparse(n.orelse[0].value):
            t = n.body[0].target
            return P(f"{ast.unparse(t)} = {ast.unparse(t.value)}.get({ast.unparse(t.slice)}, 0) + {ast.unparse(n.body[0].value)}")[0]
        return n


class KeywordArgs:
    def __init__(self, sigs):
        self.sigs = sigs

    def visit(self, tree):
        for c in ast.walk(tree):
            if isinstance(c, ast.Call) and not any(isinstance(a, ast.Starred) for a in c.args):
                n = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
                mod = c.func.value.id if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) else None
                if isinstance(c.func, ast.Attribute) and mod not in ("finite", "spectra", "psr", "create", "remove"):
                    continue
                ps = self.sigs.get(n)
                if ps and len(c.args) <= len(ps) and len(c.args) > 1 and n not in ("ubitarray", "ubytes", "ustr", "uint", "utuple", "add"):
                    c.keywords = [ast.keyword(p, a) for p, a in zip(ps[1:], c.args[1:])] + c.keywords
                    c.args = c.args[:1]
        return tree


class SplitTuple(ast.NodeTransformer):
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and \
                len(n.targets[0].elts) == len(n.value.elts):
            ts = set().union(*[names(t) for t in n.targets[0].elts])
            if not ts & names(n.value):
                return [ast.Assign([t], v) for t, v in zip(n.targets[0].elts, n.value.elts)]
        return n


class UnpackIndex(ast.NodeTransformer):
    """a, b = f(x) -> r = f(x); a = r[0]; b = r[1]"""
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, (ast.Call, ast.Name)) and \
                all(isinstance(t, ast.Name) for t in n.targets[0].elts):
            r = fresh("pair")
            return [ast.Assign([ast.Name(r, ast.Store())], n.value)] + \
                [ast.Assign([t], ast.Subscript(ast.Name(r, ast.Load()), ast.Constant(i), ast.Load()))
                 for i, t in enumerate(n.targets[0].elts)]
        return n


class ElseAfterReturn(ast.NodeTransformer):
    """if c: return a; rest -> if c: return a else: rest, and the reverse"""
    def visit_FunctionDef(self, n):
        for x, f, b in list(blocks(n)):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) \
                        and i + 1 < len(b):
                    s.orelse = b[i + 1:]
                    del b[i + 1:]
                    break
        return n


class NoElse(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        for x, f, b in list(blocks(n)):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                    b[i + 1:i + 1] = s.orelse
                    s.orelse = []
        return n


class AssertRaise(ast.NodeTransformer):
    def visit_Assert(self, n):
        return ast.If(ast.UnaryOp(ast.Not(), n.test), P("raise AssertionError('check failed')"), [])


class MergeAnd(ast.NodeTransformer):
    """if a: if b: X -> if a and b: X"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            return ast.If(ast.BoolOp(ast.And(), [n.test, n.body[0].test]), n.body[0].body, [])
        return n


class SplitAnd(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            b = n.body
            for t in reversed(n.test.values):
                b = [ast.If(t, b, [])]
            return b[0]
        return n


class TernaryToIf(ast.NodeTransformer):
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp):
            return ast.If(n.value.test, [ast.Assign(n.targets, n.value.body)], [ast.Assign(n.targets, n.value.orelse)])
        return n


class IfToTernary(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1 and isinstance(n.body[0], ast.Assign) and isinstance(n.orelse[0], ast.Assign) \
                and ast.unparse(n.body[0].targets[0]) == ast.unparse(n.orelse[0].targets[0]):
            return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        return n


class CommuteMul(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and not any(isinstance(x, (ast.List, ast.Tuple, ast.Constant)) and (
                not isinstance(x, ast.Constant) or isinstance(x.value, str)) for x in (n.left, n.right)):
            return ast.BinOp(n.right, n.op, n.left)
        return n


class Fstrings(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        parts, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts += v.value.replace("{", "{{").replace("}", "}}")
            elif v.conversion == -1:
                sp = "".join(x.value for x in v.format_spec.values) if v.format_spec else ""
                parts += "{" + (":" + sp if sp else "") + "}"
                args.append(v.value)
            else:
                return n
        return ast.Call(ast.Attribute(ast.Constant(parts), "format", ast.Load()), args, [])


class Hoist(ast.NodeTransformer):
    """len(x), c2i(...) and other calls in loop headers get a name before the loop"""
    def stmts(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and not (
                    isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr in ("items",)):
                n = fresh("seq")
                out.append(ast.Assign([ast.Name(n, ast.Store())], s.iter))
                s.iter = ast.Name(n, ast.Load())
            out.append(s)
        return out

    def visit_FunctionDef(self, n):
        for x, f, b in list(blocks(n)):
            setattr(x, f, self.stmts(b))
        return n


class ListCalls(ast.NodeTransformer):
    """for x in y -> for x in list(y)"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(ast.Name("list", ast.Load()), [n.iter], [])
        return n


class Annot(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        n.returns = ast.Constant("object")
        for a in n.args.args:
            a.annotation = ast.Constant("object")
        return n


def sigs():
    r = {}
    for d, _, fs in os.walk(SRC):
        if "test" in d:
            continue
        for f in fs:
            if f.endswith(".py"):
                for x in fns(ast.parse(open(os.path.join(d, f)).read())):
                    r[x.name] = [a.arg for a in x.args.args]
    return r


T = {
    "rename": Rename, "negate": Negate, "flipcmp": FlipCmp, "notcmp": NotCmp, "aug2assign": AugToAssign,
    "assign2aug": AssignToAug, "temps": Temps, "inlinetemps": InlineTemps, "range2while": RangeToWhile,
    "zip2index": ZipToIndex, "enum2index": EnumToIndex, "index2enum": IndexToEnum, "items2keys": ItemsToKeys,
    "comp2loop": CompToLoop, "earlycontinue": EarlyContinue, "swap": SwapStmts, "noop": Noop,
    "extractrhs": ExtractRHS, "extractrhs3": lambda: ExtractRHS(3, 1), "extractbody": ExtractBody, "wrap": Wrap,
    "dictget": DictGet, "kwargs": lambda: KeywordArgs(sigs()), "splittuple": SplitTuple, "unpackindex": UnpackIndex,
    "elsereturn": ElseAfterReturn, "noelse": NoElse, "assertraise": AssertRaise, "mergeand": MergeAnd, "splitand": SplitAnd,
    "ternary2if": TernaryToIf, "if2ternary": IfToTernary, "commute": CommuteMul, "fstrings": Fstrings, "hoist": Hoist,
    "listcalls": ListCalls, "annot": Annot,
}


def make(name):
    root = f"{OUT}/{name}"
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree("/repo", root, ignore=shutil.ignore_patterns(".git", "referenceOutput", "__pycache__"))
    for d, ds, fs in os.walk(root + "/impurityModel"):
        if "test" in d:
            continue
        for f in fs:
            if f.endswith(".py") and f != "__init__.py":
                p = os.path.join(d, f)
                t = ast.parse(open(p).read())
                t2 = T[name]().visit(t)
                ast.fix_missing_locations(t2)
                s = ast.unparse(t2)
                compile(s, p, "exec")
                open(p, "w").write(s + "\n")
    return root


if __name__ == "__main__":
    from ipm.check import Checker
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    tot = {}
    for name in args or T:
        root = make(name)
        try:
            ck = Checker(root)
        except Exception as e:
            print(name, "BROKEN", e)
            continue
        n = {"same": 0, "diff": 0, "unknown": 0, "crash": 0}
        for q in sorted(ck.specs):
            try:
                res = ck.compare(q)
            except Exception as e:
                n["crash"] += 1
                print("  CRASH", name, q, type(e).__name__, str(e)[:100])
                continue
            for item, (st, leaves) in res.items():
                n[st] += 1
                if st == "diff" or st == "unknown" and "-v" in sys.argv:
                    print(f"  {st.upper()} {name} {q} {item}")
                    for l in leaves[:3]:
                        print("       ", l.definite, str(l)[:260])
        from ipm.props import PROPS
        for rule in dict.fromkeys(r for p in PROPS.values() for r in p["rules"]):
            for o in rule(ck):
                if o.status == "violated":
                    n["diff"] += 1
                    print("  ALARM", name, o)
        print(name, n)
        shutil.rmtree(root, ignore_errors=True)
