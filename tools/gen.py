#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INP = ["inputs"]
P = []
def prop(id, title, statement, text, why, files, mech, over=INP, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, over=over, note=note, na=na))

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")

checks, na = [], []
for p in P:
    have = glob.glob(os.path.join(V, "harness", "**", p["id"].lower() + "_*.go"), recursive=True)
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    if not have:
        na.append({"property": p["id"], "reason": "no harness built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "technique": "symbolic execution of the Go SSA of the real code with SMT (z3/cvc5) deciding each assertion over all inputs within the bounds; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": p["note"] or "Bounded: every assertion is decided by the solver for all values of the symbolic inputs within the bounds listed in the evidence file; nothing is claimed outside them. Trusts the SSA-to-SMT encoding (cross-checked by native re-execution of sampled models), the stubs listed in DESIGN.md, and the reference model written in the harness.",
    })
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "hooks": {"guard": "none: harnesses enter through a build overlay, /repo carries no hooks", "enable": "check.sh loads /repo with an overlay that adds harness files to its packages", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
        "notes": "Each check rebuilds the engine (Go, offline, standard toolchain plus the cached golang.org/x/tools) and regenerates the encoding from /repo's working tree.",
    }, f, indent=1)
    f.write("\n")
# bounds of every harness, and the table of planted bugs in DESIGN.md
with open(os.path.join(V, "notes", "BOUNDS.md"), "w") as f:
    f.write("# Bounds (generated by tools/gen.py from the harnesses)\n")
    for p in P:
        fs = sorted(glob.glob(os.path.join(V, "harness", "**", p["id"].lower() + "_*.go"), recursive=True))
        if not fs:
            continue
        f.write("\n## %s %s\n\n" % (p["id"], p["title"]))
        for h in fs:
            for l in open(h):
                if l.startswith("// bound:") or l.startswith("// outside:"):
                    f.write("- " + l[3:].strip() + "\n")
rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"], m["needs"]))
dp = os.path.join(V, "DESIGN.md")
s = open(dp).read()
a, b = s.index("| seed | caught by"), s.index("<!-- /seeds -->")
open(dp, "w").write(s[:a] + "| seed | caught by | breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + s[b:])
print(len(P), "properties,", len(checks), "claimed")
