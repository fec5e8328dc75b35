"""C15, C21: who writes files, and whether readers find what they look for.

* every creation of, writing to and closing of a file in the simulation modules happens where the rank is 0
* every dataset name a reader asks for is written by the simulation
* whenever a reader takes the existence of one dataset as a sign for another, both are written together
"""
from ..report import proved, violated, undecided
from ..repo import AnalysisBroken
from ..terms import T, literals, poly, show, subterms, eq0, mk
from ..compare import children
from ..known import KNOWN

WRITERS = {"np.savetxt", "np.save", "np.savez", "np.savez_compressed", "numpy.savetxt", "pickle.dump", "json.dump", "os.remove", "os.rename",
           "os.makedirs", "os.mkdir", "shutil.rmtree", "shutil.copy", "shutil.move", "os.unlink", "matplotlib.pyplot.savefig"}


def call_graph(ck):
    import ast

    callers = {}
    for q, f in ck.repo.funcs.items():
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Name, ast.Attribute)):
                base = n
                t = None
                if isinstance(n, ast.Name):
                    t = ck.repo.resolve(f.mod.name, n.id)
                elif isinstance(n.value, ast.Name):
                    u = ck.repo.resolve(f.mod.name, n.value.id)
                    if u.op == "mod" and u.a[0] in ck.repo.modules:
                        t = ck.repo.resolve(u.a[0], n.attr)
                if t is not None and t.op == "fn" and t.a[0] != q:
                    callers.setdefault(t.a[0], set()).add(q)
    return callers


def write_events(res):
    for e in res.events:
        if e.kind == "call" and e.name in WRITERS:
            yield e, e.name
        elif e.kind == "call" and e.name in ("open", "h5py.File"):
            mode = e.args[1] if len(e.args) > 1 else e.kw.get("mode")
            if mode is None or mode.op == "str" and not set(mode.a[0]) & set("wax+"):
                continue
            if mode.op != "str":
                continue
            yield e, e.name
        elif e.kind == "meth" and e.name in ("create_dataset", "create_group", "tofile", "require_dataset", "dump"):
            yield e, e.name


def is_rank0(x):
    return x.op == "eq0" and any(y.op == "rank" for y in [x.a[0]] + children(x.a[0])) and x is eq0(mk("rank"))


def other_rank(x):
    """an equation that singles out a rank other than 0 (the number of ranks is not known to be one)"""
    p = poly(x.a[0])
    if not all(len(m) <= 1 and all(y.op in ("rank", "nranks") and k == 1 for y, k in m) for m in p):
        return False
    c = {m[0][0].op if m else "": k[0] for m, k in p.items()}
    if not c.get("rank"):
        return False
    a, b = -c.get("nranks", 0) / c["rank"], -c.get("", 0) / c["rank"]  # rank = a * ranks + b
    return (a, b) == (1, -1) or a == 0 and b > 0


def writing(ck):
    obs = []
    callers = call_graph(ck)
    roots = [q for q, f in ck.repo.funcs.items() if ".ed." in f.mod.dotted and (q in KNOWN or q in ck.specs or not callers.get(q))]
    for q in sorted(roots):
        f = ck.repo.funcs[q]
        try:
            res = ck.run(q)
        except Exception as e:
            obs.append(undecided("rank 0 writes", q, f"not analysable: {type(e).__name__} {e}"))
            continue
        for e, name in write_events(res):
            ls = {x for p in (e.pc or ()) for x in literals([p])}
            where = f"{f.mod.rel}:{getattr(e.node, 'lineno', 0)}"
            what = next((a.a[0] for a in e.args if isinstance(a, T) and a.op == "str"), "")
            c = f"{q}: {name} {what}"
            if any(is_rank0(x) for x in ls):
                obs.append(proved("rank 0 writes", c, "", where))
            elif any(x.op == "eq0" and x is not eq0(mk("rank")) and other_rank(x) for x in ls):
                obs.append(violated("rank 0 writes", c, "done by another rank: " + ", ".join(show(x, 3) for x in ls), where))
            elif any(y.op == "rank" for x in ls for y in subterms(x)) or any(y.op in ("mu", "muget", "cell") for x in ls for y in subterms(x)):
                obs.append(undecided("rank 0 writes", c, "under " + ", ".join(show(x, 3) for x in ls), where))
            else:
                obs.append(violated("rank 0 writes", c, "no condition on the rank around it", where))
    return obs


def written(ck):
    """dataset name -> list of literal sets under which it is written (apart from the rank)"""
    out = {}
    unnamed = False
    for q, f in ck.repo.funcs.items():
        if ".ed." not in f.mod.dotted:
            continue
        try:
            res = ck.run(q)
        except Exception:
            unnamed = True
            continue
        for e in res.events:
            if e.kind == "meth" and e.name in ("create_dataset", "require_dataset"):
                nm = e.args[1] if len(e.args) > 1 else e.kw.get("name")
                if nm is None or nm.op != "str":
                    unnamed = True
                    continue
                out.setdefault(nm.a[0], []).append(frozenset(x for p in (e.pc or ()) for x in literals([p]) if not is_rank0(x)))
    return out, unnamed


def is_file(t):
    return t.op in ("libcall", "lib", "call") and t.a and getattr(t.a[0], "a", (t.a[0],))[0] == "h5py.File" or \
        t.op == "h5py.File" or "h5py.File" in str(t.a[:1])


def reading(ck):
    obs = []
    names, unnamed = written(ck)
    if not names:
        return [undecided("dataset is written", "package", "no named dataset found")]
    for q, f in sorted(ck.repo.funcs.items()):
        try:
            res = ck.run(q)
        except Exception as e:
            continue
        asked = {}
        for e in res.events:
            ts = list(e.args) + list(e.kw.values()) + list(e.pc or ())
            for t in ts:
                if not isinstance(t, T):
                    continue
                for y in subterms(t):
                    k = None
                    if y.op in ("idx", "get") and len(y.a) > 1 and isinstance(y.a[-1], T) and y.a[-1].op == "str" and is_file(y.a[0]):
                        k = y.a[-1].a[0]
                    elif y.op == "in" and isinstance(y.a[0], T) and y.a[0].op == "str" and is_file(y.a[1]):
                        k = y.a[0].a[0]
                    if k is not None:
                        asked.setdefault(k, getattr(e.node, "lineno", 0))
        import ast

        lits = {}
        handles = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                    and n.value.func.attr == "File":
                handles |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            elif isinstance(n, ast.withitem) and isinstance(n.context_expr, ast.Call) and isinstance(
                    n.context_expr.func, ast.Attribute) and n.context_expr.func.attr == "File" and isinstance(n.optional_vars, ast.Name):
                handles.add(n.optional_vars.id)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(
                    n.left, ast.Constant) and isinstance(n.left.value, str) and isinstance(n.comparators[0], ast.Name) and \
                    n.comparators[0].id in handles:
                asked.setdefault(n.left.value, n.lineno)
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in handles and isinstance(
                    n.slice, ast.Constant) and isinstance(n.slice.value, str) and isinstance(n.ctx, ast.Load):
                asked.setdefault(n.slice.value, n.lineno)
        for k, ln in sorted(asked.items()):
            where = f"{f.mod.rel}:{ln}"
            if k in names:
                obs.append(proved("dataset is written", f"{q}: {k}", "", where))
            elif unnamed:
                obs.append(undecided("dataset is written", f"{q}: {k}", "some datasets have computed names", where))
            else:
                obs.append(violated("dataset is written", f"{q}: {k}", "no function of the simulation writes it", where))
        for e in res.events:
            if e.kind != "maybe_unbound":
                continue
            v = e.args[0]
            need = [y.a[0].a[0] for y in subterms(v) if y.op == "in" and y.a[0].op == "str" and is_file(y.a[1])]
            has = [x.a[0].a[0] for p in (e.pc or ()) for x in literals([p]) if x.op == "in" and isinstance(x.a[0], T) and x.a[0].op == "str"
                   and is_file(x.a[1])]
            for a in need:
                if a not in names:
                    continue
                ok = any(not g for g in names[a]) or any(
                    any(g <= h for g in names[a] for h in names[b]) for b in has if b in names)
                c = f"{q}: {a} with {', '.join(sorted(set(has))) or 'any file'}"
                if ok:
                    obs.append(proved("written together", c))
                else:
                    obs.append(undecided("written together", c, "not written under the same conditions"))
    return obs


RULES15 = [writing]
RULES21 = [reading]
