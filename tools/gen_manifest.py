"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ipm.props import PROPS, NOTES, NOT_APPLICABLE
checks = []
for pid in sorted(PROPS):
    checks.append(dict(
        property=pid,
        quick_cmd=f"python3 -m ipm {pid}",
        thorough_cmd=f"python3 -m ipm {pid}",
        evidence_file=f"evidence/{pid}.json",
        technique=PROPS[pid]["technique"],
        level="other",
        level_note=NOTES,
    ))
m = dict(version=1, setup_cmd="python3 -c 'import ast, sys; assert sys.version_info >= (3, 9)'", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT_APPLICABLE.items())],
         notes="All checks analyse the sources under /repo (or $IPM_REPO) on every run; nothing of the package is imported or executed.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
