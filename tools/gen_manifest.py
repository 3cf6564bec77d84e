"""writes MANIFEST.json from the property list and the checks that exist"""
import json, os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "harness", "props", i.lower() + ".py")):
        n = NOTES.get(i, {})
        checks.append(dict(
            property=i,
            quick_cmd="./run.sh %s quick" % i,
            thorough_cmd="./run.sh %s thorough" % i,
            technique=n.get("technique", "TLA+ specification checked with TLC, bound by replay and trace validation"),
            level="model_checking",
            level_note=n.get("note", "bounded model checking of the specification; conformance on the generated behaviours and recorded traces only"),
        ))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get("reason", "check under construction")))
m = dict(
    version=1,
    setup_cmd="bash setup.sh",
    hooks=dict(guard="GGGEARS_VERIF (unused: no hooks are needed, the public API exposes the state)", enable="nothing to enable", source_commits=[]),
    checks=checks,
    not_applicable=na,
)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
