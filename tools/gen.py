#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py and props.py."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
import spec, props
lines, checks, na = [], [], []
for p in spec.S:
    assert len(p["title"]) <= 80, p["id"]
    lines.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"]}}))
    if p["id"] in props.PROPS:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": getattr(spec, "NA", {}).get(p["id"], "check not built yet")})
assert set(props.PROPS) <= {p["id"] for p in spec.S}, set(props.PROPS) - {p["id"] for p in spec.S}
(V / "properties.jsonl").write_text("\n".join(lines) + "\n")
(V / "MANIFEST.json").write_text(json.dumps({"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: the harnesses compile /repo's sources unmodified, with compiler instrumentation (-fsanitize=thread against our own runtime, or ASan/UBSan) and link-time interposition."}, indent=1) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in lines: jsonschema.validate(json.loads(l), sch)
jsonschema.validate(json.load(open(V / "MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(lines), "properties", len(checks), "checks")

# ---- DESIGN.md: the text in DESIGN.in.md with the tables of repairs and planted bugs filled in
import json, pathlib, re
R = pathlib.Path(__file__).resolve().parent.parent
fixed = [l.strip() for l in (R/'known-findings.txt').read_text().splitlines() if l.startswith('fixed:')]
rows = []
commits = set()
for l in fixed:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l); commits.add(m.group(2))
    rows.append('| %s | %s | %s |' % m.groups())
fx = '| property | commit | what failed |\n|---|---|---|\n' + '\n'.join(rows)
notes = json.loads((R/'tools/seednotes.json').read_text())
rows = []
for d in sorted((R/'seeded').iterdir()) if (R/'seeded').is_dir() else []:
    m = json.loads((d/'meta.json').read_text())
    rows.append((m['property'], '| %s | %s | %s | %s |' % (m['property'], d.name, m['what_it_breaks'] + ' — needs: ' + m['needs'], notes.get(d.name, 'caught'))))
sd = '| property | id | what it breaks | check |\n|---|---|---|---|\n' + '\n'.join(r for _, r in sorted(rows))
t = (R/'tools/DESIGN.in.md').read_text()
(R/'DESIGN.md').write_text(t.replace('@NFIX@', str(len(commits)) + ' commits').replace('@FIXES@', fx).replace('@SEEDS@', sd))
