"""rewrites the "fixed" list of known_findings.json from the fix: commits of /repo"""
import json, os, subprocess

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
# property of every fix, in the order of the commits
PROPS = json.load(open(os.path.join(ROOT, "tools", "fixes.json")))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], text=True).splitlines()
fixed, missing = [], []
for l in log:
    h, s = l.split("\t", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    if s not in PROPS:
        missing.append(s)
        continue
    fixed.append("fixed: property=%s %s %s" % (PROPS[s][0], h, PROPS[s][1] or "before this commit it did not hold that: " + s))
path = os.path.join(ROOT, "known_findings.json")
k = json.load(open(path))
k["fixed"] = fixed
json.dump(k, open(path, "w"), indent=1)
print(len(fixed), "fixed;", "missing:", missing)
