"""Refills the generated tables of DESIGN.md (between <!-- name --> and <!-- /name -->).

    python3 tools/gen_design.py          tables of the properties
    python3 tools/gen_design.py seeds    also runs every check on every planted bug (in scratch copies)
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from ipm.check import Checker
from ipm.agree import EVERYWHERE
from ipm.props import PROPS, NOT_APPLICABLE

titles = {}
for line in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(line)
    titles[d["id"]] = d["title"]

ck = Checker("/repo")


def proptable():
    out = []
    for p in sorted(PROPS):
        subprocess.run([sys.executable, "-m", "ipm", p], cwd=HERE, capture_output=True)
        c = json.load(open(os.path.join(HERE, "evidence", p + ".json")))["coverage"]
        out.append(f"**{p} {titles[p]}.** *How:* {PROPS[p]['how']}. *Obligations:* {c['obligations']}, proved {c['discharged']}, undecided {c['undecided']}.")
        rows = []
        for q, (ids, text) in sorted(ck.specs.items()):
            parts = [i.partition(":")[2] for i in ids if i.partition(":")[0] == p]
            if parts:
                only = [x for x in parts if x]
                rows.append(f"`{q}`" + (f" ({', '.join(only).replace('|', ', ')} only)" if only and all(parts) else "") + f": {text}")
        if p in EVERYWHERE:
            rows.append("every other specified function: " + {"C03": "arguments left untouched", "C13": "communications, in order"}.get(p, ", ".join(EVERYWHERE[p])))
        out.append("\n".join("  - " + " ".join(r.split()) for r in rows))
        out.append("")
    return "\n".join(out)


def natable():
    return "\n".join(f"* {p} {titles.get(p, '')}: {r}" for p, r in sorted(NOT_APPLICABLE.items()))


def run_seed(d):
    name = os.path.basename(d)
    tmp = tempfile.mkdtemp(prefix="ipmseed")
    try:
        root = os.path.join(tmp, "repo")
        shutil.copytree("/repo", root, ignore=shutil.ignore_patterns(".git"))
        subprocess.run(["git", "init", "-q"], cwd=root)
        r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=root, capture_output=True)
        if r.returncode:
            return name, ["patch does not apply"]
        hit = []
        for p in sorted(PROPS):
            r = subprocess.run([sys.executable, "-m", "ipm", p, "--no-evidence"], cwd=HERE, capture_output=True,
                               env=dict(os.environ, IPM_REPO=root))
            if r.returncode == 1:
                hit.append(p)
        return name, hit
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def seedtable():
    ds = sorted(glob.glob(os.path.join(HERE, "seeded", "*")))
    with ThreadPoolExecutor(8) as ex:
        res = dict(ex.map(run_seed, ds))
    out = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
    for d in ds:
        n = os.path.basename(d)
        m = json.load(open(os.path.join(d, "meta.json")))
        hit = res[n]
        own = m["property"] in hit
        out.append(f"| {n} | {m['property']} | {' '.join(str(m['what_it_breaks']).split())[:160]} | "
                   + (", ".join(f"**{h}**" if h == m['property'] else h for h in hit) or "none (undecided)") + " |")
        if not own:
            print("not caught:", n, hit)
    return "\n".join(out)


path = os.path.join(HERE, "DESIGN.md")
s = open(path).read()


def put(s, name, text):
    return re.sub(rf"<!-- {name} -->.*?<!-- /{name} -->", lambda m: f"<!-- {name} -->\n{text}\n<!-- /{name} -->", s, flags=re.S)


s = put(s, "properties", proptable())
s = put(s, "notapplicable", natable())
if "seeds" in sys.argv[1:]:
    s = put(s, "seeds", seedtable())
open(path, "w").write(s)
