#!/usr/bin/env python3
import json, props, specs
ids = sorted(set(props.T) & set(specs.PROPS)) + sorted(props.NA)
missing = sorted(set(specs.PROPS) - set(props.T))
if missing: print("no text for", missing)
with open("properties.jsonl", "w") as f:
    for p in sorted(set(ids)):
        d = props.T[p]
        f.write(json.dumps(dict(id=p, title=d["title"], statement=d["statement"], quantifier=dict(over=d["over"], text=d["text"]), why_tests_cant=d["why"],
            anchors=dict(files=d["files"], mechanism=[dict(name=a, where=b) for a, b in d["mech"]], observe_at=d["observe"], hook_needed=None))) + "\n")
checks = []
for p in sorted(set(props.T) & set(specs.PROPS)):
    s = specs.PROPS[p]
    checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p, evidence_file="evidence/%s.json" % p,
        technique="path-wise symbolic execution of the compiled LLVM IR with Z3, against a dense reference model",
        level="model_checking",
        level_note=(props.T[p]["note"] + " " if props.T[p]["note"] else "") + "Bounded: " + s["bounds"] + ". Within the bounds every path is explored and every assertion is decided for all values of the path; outside them nothing is claimed. Trusts the executor in engine/, clang 18 -O1, Z3, and the reference model in lib/model.hpp and the harness; counterexamples are replayed natively before they are reported."))
na = [dict(property=k, reason=v) for k, v in sorted(props.NA.items())]
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", hooks=dict(guard="none", enable="no hooks are needed: the harnesses include the headers of /repo as they are", source_commits=[]),
    checks=checks, not_applicable=na, notes="See DESIGN.md. specs.py holds the bounds, props.py the texts; gen.py writes this file and properties.jsonl."), open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

import os, re
o = []
for p in ids:
    if p in specs.PROPS:
        u = sorted(set(x["src"] for x in specs.PROPS[p]["units"]))
        o.append("**%s** %s. *Decided by*: `harness/%s`, both backends%s. *Bounds (quick)*: %s.%s%s\n" % (p, props.T[p]["title"], "`, `harness/".join(u), "" if all("plats" not in x for x in specs.PROPS[p]["units"]) else " (where they differ)",
            specs.PROPS[p]["bounds"], (" *Thorough*: " + specs.PROPS[p]["bounds_thorough"] + ".") if "bounds_thorough" in specs.PROPS[p] else "", (" *Note*: " + props.T[p]["note"]) if props.T[p]["note"] else ""))
    else:
        o.append("**%s** %s. *Not applicable*: %s\n" % (p, props.T[p]["title"], props.NA[p]))
d = open("DESIGN.md").read()
d = re.sub(r"(<!-- generated .*?-->\n).*?(<!-- /generated -->)", lambda m: m[1] + "\n".join(o) + m[2], d, flags=re.S)
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open("seeded/caught.json")) if os.path.exists("seeded/caught.json") else {}
for b in sorted(os.listdir("seeded")):
    m = "seeded/%s/meta.json" % b
    if os.path.exists(m):
        m = json.load(open(m)); rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], caught.get(b, "?")))
d = re.sub(r"(<!-- seeded table -->\n).*?(<!-- /seeded -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], d, flags=re.S)
fl = ["* " + l.strip() for l in open("known_findings.txt") if l.strip() and not l.startswith("#")]
d = re.sub(r"(<!-- findings -->\n).*?(<!-- /findings -->)", lambda m: m[1] + "\n".join(fl) + "\n" + m[2], d, flags=re.S)
open("DESIGN.md", "w").write(d)
