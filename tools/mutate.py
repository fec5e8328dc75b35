"""Sampled AST mutants of the package: how many does the comparison tell from the code?

python3 tools/mutate.py N SEED [QUAL-PREFIX]   lists the mutants that are not reported
"""
import ast, copy, os, random, shutil, sys
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(50000)
SRC = "/repo/impurityModel"
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.LtE: [ast.Lt, ast.GtE], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}


def doc(fn):
    b = fn.body
    return b[0].value if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else None


def sites(fn):
    """list of (description, function(copy of node list index) -> mutated function)"""
    nodes = list(ast.walk(fn))
    d = doc(fn)
    locs = sorted({x.id for x in nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in fn.args.args})
    inpr = set()
    for x in nodes:
        if isinstance(x, ast.Call) and ast.unparse(x.func) == "print":
            inpr |= {id(y) for y in ast.walk(x)}
        if isinstance(x, ast.Assert):
            inpr |= {id(y) for y in ast.walk(x)}
    out = []
    for i, x in enumerate(nodes):
        if id(x) in inpr or x is d:
            continue
        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            for o in CMP[type(x.ops[0])]:
                out.append((i, "cmp", o))
        elif isinstance(x, (ast.BinOp, ast.AugAssign)) and type(x.op) in BIN:
            out.append((i, "bin", BIN[type(x.op)]))
            if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Sub, ast.Div)):
                out.append((i, "swapbin", None))
        elif isinstance(x, ast.BoolOp):
            out.append((i, "bool", None))
        elif isinstance(x, ast.Constant):
            if isinstance(x.value, bool):
                out.append((i, "const", not x.value))
            elif isinstance(x.value, int):
                out.append((i, "const", x.value + 1))
                if x.value:
                    out.append((i, "const", x.value - 1))
            elif isinstance(x.value, float):
                out.append((i, "const", x.value * 2 + 1))
            elif isinstance(x.value, complex):
                out.append((i, "const", -x.value))
            elif isinstance(x.value, str) and x.value:
                out.append((i, "const", x.value + "x"))
        elif isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.USub, ast.Not)):
            out.append((i, "unary", None))
        elif isinstance(x, ast.Call):
            if len(x.args) >= 2:
                out.append((i, "swapargs", None))
            if len(x.args) == 1 and not x.keywords and ast.unparse(x.func).split(".")[-1] in ("conj", "sorted", "abs", "sqrt", "copy", "int", "list", "tuple", "set"):
                out.append((i, "unwrap", None))
            for k in range(len(x.keywords)):
                out.append((i, "dropkw", k))
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in locs and len(locs) > 1:
            out.append((i, "name", random.choice([l for l in locs if l != x.id])))
        for f in ("body", "orelse"):
            b = getattr(x, f, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.AugAssign, ast.Assign, ast.Assert, ast.If, ast.Delete)) and getattr(s, "value", None) is not d or isinstance(s, ast.Assert):
                        if isinstance(s, ast.Expr) and id(s.value) in inpr or isinstance(s, ast.Expr) and s.value is d:
                            continue
                        out.append((i, f, k))
                if len(b) > 1 and not isinstance(x, ast.Module):
                    for k in range(len(b) - 1):
                        if not any(isinstance(s, ast.Expr) and id(s.value) in inpr for s in b[k:k + 2]):
                            out.append((i, "swapst" + f, k))
        if isinstance(x, ast.If) and not x.orelse:
            out.append((i, "always", None))
        if isinstance(x, ast.Slice):
            if x.upper is not None:
                out.append((i, "upper", None))
    return out


def apply(fn, site):
    i, kind, v = site
    x = list(ast.walk(fn))[i]
    if kind == "cmp":
        x.ops = [v()]
    elif kind == "bin":
        x.op = v()
    elif kind == "swapbin":
        x.left, x.right = x.right, x.left
    elif kind == "bool":
        x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
    elif kind == "const":
        x.value = v
    elif kind == "unary":
        x.op = ast.UAdd() if isinstance(x.op, ast.USub) else ast.Not()
        if isinstance(x.op, ast.Not):
            x.operand = ast.UnaryOp(ast.Not(), x.operand)
    elif kind == "swapargs":
        x.args[0], x.args[1] = x.args[1], x.args[0]
    elif kind == "unwrap":
        x.func, x.args = ast.Name("_id_", ast.Load()), x.args
    elif kind == "dropkw":
        del x.keywords[v]
    elif kind == "name":
        x.id = v
    elif kind in ("body", "orelse"):
        b = getattr(x, kind)
        b[v] = ast.copy_location(ast.Pass(), b[v])
    elif kind.startswith("swapst"):
        b = getattr(x, kind[6:])
        b[v], b[v + 1] = b[v + 1], b[v]
    elif kind == "always":
        x.test = ast.Constant(True)
    elif kind == "upper":
        x.upper = ast.BinOp(x.upper, ast.Add(), ast.Constant(1))
    class U(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            return n.args[0] if isinstance(n.func, ast.Name) and n.func.id == "_id_" else n
    U().visit(fn)
    return x


def files():
    for d, ds, fs in os.walk(SRC):
        if "test" in d:
            continue
        for f in sorted(fs):
            if f.endswith(".py") and f != "__init__.py":
                yield os.path.join(d, f)


def fns(tree):
    out = [n for n in tree.body if isinstance(n, ast.FunctionDef)]
    for s in tree.body:
        if isinstance(s, ast.If) and "__main__" in ast.unparse(s.test):
            out.append(s)
    return out


class Main:
    pass


def job(j):
    path, fi, site, seed = j
    root = f"/tmp/ipmmut/{os.getpid()}"
    if not os.path.exists(root):
        shutil.copytree("/repo", root, ignore=shutil.ignore_patterns(".git", "*.pickle", "referenceOutput", "__pycache__"))
    tree = ast.parse(open(path).read())
    fn = fns(tree)[fi]
    before = ast.unparse(fn)
    x = apply(fn, site)
    ast.fix_missing_locations(tree)
    mod = os.path.basename(path)[:-3]
    name = getattr(fn, "name", "__main__")
    try:
        s = ast.unparse(tree)
        compile(s, path, "exec")
    except Exception as e:
        return None
    after = ast.unparse(fn)
    if after == before:
        return None
    import difflib
    dl = [l for l in difflib.unified_diff(before.split("\n"), after.split("\n"), n=0, lineterm="") if not l.startswith(("---", "+++", "@@"))]
    tgt = root + path[len("/repo"):]
    open(tgt, "w").write(s + "\n")
    try:
        return (mod + "." + name, site[1], dl, decide(root))
    finally:
        shutil.copy(path, tgt)


def decide(root):
    from ipm.check import Checker
    st = {"diff": [], "unknown": [], "crash": []}
    try:
        ck = Checker(root)
        for q in sorted(ck.specs):
            try:
                r = ck.compare(q)
            except Exception as e:
                st["crash"].append(f"{q} {type(e).__name__}")
                continue
            for item, (v, leaves) in r.items():
                if v != "same":
                    ls = sorted(leaves, key=lambda l: l.definite)
                    st[v].append(f"{q} {item}: " + " || ".join(
                        f"{'S' if l.definite else 'M'} {l.kind} [{getattr(l.a,'op','-')}{ck.cmp.size(l.a) if l.a is not None else 0},{getattr(l.b,'op','-')}{ck.cmp.size(l.b) if l.b is not None else 0}] {str(l)[len(l.kind):][:230]}"
                        for l in ls[:3]) + f" ({len(ls)})")
    except Exception as e:
        st["crash"].append("repo " + repr(e)[:100])
    return st


if __name__ == "__main__":
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    pre = sys.argv[3] if len(sys.argv) > 3 else ""
    random.seed(seed)
    jobs = []
    for p in files():
        tree = ast.parse(open(p).read())
        mod = os.path.basename(p)[:-3]
        for fi, fn in enumerate(fns(tree)):
            if not f"{mod}.{getattr(fn, 'name', '__main__')}".startswith(pre):
                continue
            if isinstance(fn, ast.If):
                fn.args = ast.parse("def f(): pass").body[0].args
            jobs += [(p, fi, s, 0) for s in sites(fn)]
    random.shuffle(jobs)
    print(len(jobs), "sites")
    tot = {"diff": 0, "unknown": 0, "crash": 0, "same": 0}
    with ProcessPoolExecutor(8) as ex:
        for r in ex.map(job, jobs[:n], chunksize=4):
            if r is None:
                continue
            q, k, dl, st = r
            res = "diff" if st["diff"] else "crash" if st["crash"] else "unknown" if st["unknown"] else "same"
            tot[res] += 1
            if res != "diff":
                print(f"{res.upper():8s}{k:9s}{q}")
                for l in dl[:4]:
                    print("      ", l.strip()[:150])
                for l in (st["unknown"] + st["crash"])[:2]:
                    print("          ->", l[:700])
    print(tot)
    shutil.rmtree("/tmp/ipmmut", ignore_errors=True)
