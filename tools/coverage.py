#!/usr/bin/env python3
"""Writes COVERAGE.md from the evidence files in evidence/ (run after a sweep of all checks).

    for id in $(python3 tools/coverage.py --ids); do ./check $id quick; done; python3 tools/coverage.py
"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
if "--ids" in sys.argv:
    print(*[p["id"] for p in props])
    sys.exit()

def num(n):
    return f"{n:,}".replace(",", " ")

rows, details = [], []
for p in props:
    f = os.path.join(HERE, "evidence", p["id"] + ".json")
    if not os.path.exists(f):
        rows.append(f"| {p['id']} | (not run) | | |")
        continue
    d = json.load(open(f))
    c = d["coverage"]
    what = []
    for k, t in (("programs", "programs"), ("programs_explored_completely", "of them in every schedule"),
                 ("states", "states"), ("transitions", "transitions"),
                 ("executions_of_the_real_code", "executions"), ("evaluations", "cases"),
                 ("distinct_outcomes", "distinct outcomes"), ("longest_execution_steps", "steps at most")):
        if c.get(k) and not (k == "evaluations" and c.get("executions_of_the_real_code") == c[k]):
            what.append(f"{num(c[k])} {t}")
    rows.append(f"| {p['id']} | {'; '.join(what)} | {'yes' if c.get('exhaustive') else 'no'} | {d['wall_s']:.0f} |")
    b = c.get("bounds", [])
    b = b if isinstance(b, list) else [b]
    details.append(f"* **{p['id']}** — " + "; ".join(str(x) for x in b))
    rule = c.get("oracle") or c.get("rule")
    if rule:
        details[-1] += f"  \n  oracle: {rule}"
    if c.get("largest"):
        details[-1] += f"  \n  longest to explore: {c['largest'][0]}"
tier = {json.load(open(os.path.join(HERE, 'evidence', p['id'] + '.json')))["tier"] for p in props
        if os.path.exists(os.path.join(HERE, "evidence", p["id"] + ".json"))}
with open(os.path.join(HERE, "COVERAGE.md"), "w") as o:
    o.write("# What the checks cover\n\nWritten by `tools/coverage.py` from the evidence of one run of every check, tier "
            + ", ".join(sorted(tier)) + ", 8 cores. *Complete*: the space\ndescribed under the bounds was explored in full; where it says"
            " no, part of it was explored under a preemption or deviation\nbound, or a domain is a family of chosen inputs (the evidence file says which). "
            "Seconds are for the whole check without the build.\n\n"
            "| check | covered | complete | seconds |\n|---|---|---|---|\n" + "\n".join(rows)
            + "\n\n## Bounds and oracles\n\n" + "\n".join(details) + "\n")
