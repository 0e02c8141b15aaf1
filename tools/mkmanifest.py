"""Write MANIFEST.json from dst/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in props.PROPS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique="deterministic simulation with fault injection: seeded search over schedules, histories and faults",
            level=props.PROPS[i].get("level", "exploration"),
            level_note=props.NOTE + " " + props.NOTES.get(i, "")))
na = [dict(property=i, reason=props.NA.get(i, "The workload that simulates this part is not built yet.")) for i in ids if i not in props.PROPS]
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import sys; sys.exit(sys.version_info < (3, 12))'", checks=checks, not_applicable=na,
    notes="No hooks are added to /repo: locks, threads, timers, queue, clock and file access are replaced through the "
          "standard library modules the code already uses, and preemption points come from sys.monitoring.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
