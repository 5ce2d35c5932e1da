"""Source of MANIFEST.json: python3 tools/gen_manifest.py > MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = {
    "C30": "Pure geometry without concurrency, time, I/O or several parties: nothing for a simulated schedule or fault to "
           "act on. It is a property of one function's inputs, for property-based testing or a proof.",
}
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PURE:
        na.append(dict(property=i, reason=PURE[i]))
    elif os.path.exists(os.path.join(HERE, "dst", "props", i.lower() + ".py")) and i in NOTES:
        checks.append(dict(property=i, quick_cmd="./check %s --tier quick" % i,
                           thorough_cmd="./check %s --tier thorough" % i,
                           technique="deterministic simulation with fault injection: " + NOTES[i]["technique"],
                           level="exploration", level_note=NOTES[i]["note"], evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason="The check is not finished yet."))
print(json.dumps(dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na,
                      notes="The simulator needs no hook in /repo: every seam it uses is public. See DESIGN.md."), indent=1))
