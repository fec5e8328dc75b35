"""python3 -m ipm C05 [C06 ...]: decide properties on the current source of the repository."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)

from .agree import obligations  # noqa: E402
from .check import Checker  # noqa: E402
from .props import PROPS, ASSUMPTIONS  # noqa: E402
from .repo import AnalysisBroken  # noqa: E402
from .report import Ob, PROVED, VIOLATED, UNDECIDED  # noqa: E402


def known(pid):
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith(f"finding: property={pid} "):
                key, _, what = line[len(f"finding: property={pid} "):].partition(" :: ")
                out[key.strip()] = what.strip()
    return out


def decide(ck, pid):
    spec = PROPS[pid]
    obs, missing = obligations(ck, pid)
    for r in spec["rules"]:
        try:
            obs += r(ck)
        except AnalysisBroken:
            raise
        except Exception as e:  # a construct the rule cannot read
            if os.environ.get("IPM_DEBUG"):
                raise
            obs.append(Ob("rule applies", f"{r.__module__}.{r.__name__}", UNDECIDED, f"{type(e).__name__} {e}"))
    seen = {}
    for o in obs:
        seen.setdefault((o.rule, o.construct, o.status, o.detail), o)
    obs = list(seen.values())
    if not obs:
        raise AnalysisBroken(f"nothing left to decide for {pid}: missing {', '.join(missing)}")
    return obs, missing


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    write = "--no-evidence" not in argv
    verbose = "-v" in argv or "-vv" in argv
    ids = [a for a in argv if not a.startswith("-")] or sorted(PROPS)
    rc = 0
    ck = Checker()
    for pid in ids:
        t0 = time.time()
        try:
            obs, missing = decide(ck, pid)
        except AnalysisBroken as e:
            print(f"ANALYSIS-BROKEN property={pid} {e}")
            rc = max(rc, 2)
            continue
        kn = known(pid)
        bad = [o for o in obs if o.status == VIOLATED]
        new = [o for o in bad if o.key() not in kn]
        for o in bad:
            if o.key() in kn:
                print(f"KNOWN-FINDING: property={pid} {o.construct}: {kn[o.key()]}")
        ev = {
            "property": pid,
            "tier": tier if tier in ("quick", "thorough") else "quick",
            "seed": seed,
            "level": "other",
            "coverage": {
                "explanation": PROPS[pid]["how"],
                "obligations": len(obs),
                "discharged": sum(o.status == PROVED for o in obs),
                "violated": len(bad),
                "undecided": sum(o.status == UNDECIDED for o in obs),
                "functions_analysed": len({o.construct.split(":")[0] for o in obs}),
                "modules_parsed": len(ck.repo.modules),
                "anchors_missing": missing,
                "samples": [o.as_dict() for o in (bad + [o for o in obs if o.status != VIOLATED])[:400]],
            },
            "assumptions": ASSUMPTIONS,
            "wall_s": round(time.time() - t0, 3),
            "violations": len(new),
        }
        if write:
            d = os.path.join(HERE, "evidence")
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, f"{pid}.json"), "w", encoding="utf-8") as f:
                json.dump(ev, f, indent=1)
        if verbose:
            for o in obs:
                if o.status != PROVED or "-vv" in argv:
                    print("  ", o)
        print(f"{pid}: {ev['coverage']['obligations']} obligations, {ev['coverage']['discharged']} proved, "
              f"{len(bad)} violated, {ev['coverage']['undecided']} undecided ({ev['wall_s']} s)")
        if new:
            rp = os.path.join(HERE, "evidence", f"{pid}-violations.json")
            if write:
                with open(rp, "w", encoding="utf-8") as f:
                    json.dump([o.as_dict() for o in new], f, indent=1)
            for o in new:
                print(f"  {o.rule}: {o.construct} at {o.where}: {o.detail}")
            print(f"VIOLATION property={pid} replay={rp}")
            rc = max(rc, 1) if rc != 2 else 1
    return rc


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN", e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code) if False else sys.exit(code)
