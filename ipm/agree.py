"""Obligations of the form: function f computes what its specification says."""
from .compare import SAME, DIFF
from .report import proved, violated, undecided
from .repo import AnalysisBroken
from .terms import T, subterms, show


def topics_in(t, out, depth=0):
    """names, constants and callees occurring in a term"""
    if not isinstance(t, T):
        return
    for y in subterms(t):
        out.add(y.op)
        for z in y.a:
            if isinstance(z, str):
                out.add(z)


def leaf_topics(item, leaf):
    s = {leaf.kind}
    topics_in(leaf.a, s)
    topics_in(leaf.b, s)
    s.update(item.replace("[", " ").split())
    return s


def concerns(words, item, leaf):
    if not words:
        return True
    ts = leaf_topics(item, leaf)
    return any(w in ts or any(w == x.rsplit(".", 1)[-1] for x in ts) for w in words)


ITEMS = {"value", "effects", "raise", "input", "dataset", "file", "open", "close", "call", "option", "default", "carried", "drawing", "cache",
         "positional", "print"}
EVERYWHERE = {"C03": ["input"], "C13": ["effects"]}


def kind_of(item):
    return item.replace("[", " ").replace(":", " ").split()[0]


def obligations(ck, prop):
    """for every function specified for the property, one obligation per output"""
    obs = []
    missing = []
    for q, (ids, text) in sorted(ck.specs.items()):
        words = None
        for i in ids:
            pid, _, w = i.partition(":")
            if pid == prop:
                words = w.split("|") if w else []
        if words is None:
            words = EVERYWHERE.get(prop)
        if words is None:
            continue
        only = [w for w in words if w in ITEMS]
        topics = [w for w in words if w not in ITEMS]
        try:
            f = ck.repo.fn(q)
        except AnalysisBroken:
            missing.append(q)
            continue
        try:
            res = ck.compare(q)
        except AnalysisBroken:
            raise
        except Exception as e:  # a construct the executor has no rule for
            obs.append(undecided("agrees with specification", q, f"not analysable: {type(e).__name__} {e}"))
            continue
        for item, (st, leaves) in sorted(res.items()):
            if words and not topics and kind_of(item) not in only:
                continue
            if prop == "C13" and item == "effects" and not effects(ck, q):
                continue
            c = f"{q}: {item}"
            if st == SAME:
                obs.append(proved("agrees with specification", c, text.split("}")[-1].strip()))
            elif st == DIFF:
                mine = leaves if kind_of(item) in only else [l for l in leaves if concerns(topics, item, l)]
                if mine:
                    l = mine[0]
                    obs.append(violated("agrees with specification", c, str(l), locate(ck, f, l)))
                else:
                    obs.append(undecided("agrees with specification", c, "differs in what another property is about"))
            else:
                obs.append(undecided("agrees with specification", c,
                                     "organised differently: " + str(next((l for l in leaves if not l.definite), leaves[0]))[:300]))
    return obs, missing


def effects(ck, q):
    """does the function communicate, in the code or by its specification?"""
    if q in ck.spec.spec_funcs and any(e.kind in ("mpi", "yield") for e in ck.summary(q, "spec").res.events):
        return True
    try:
        return any(e.kind in ("mpi", "yield") for e in ck.run(q).events)
    except Exception:
        return True


def locate(ck, f, leaf):
    at = ck.lines.get(leaf.a)
    if at:
        return f"{at[0]}:{at[1]}"
    return f"{f.file}:{f.node.lineno}"
