"""Planting bugs (a development tool, no check uses it).

  plant.py make FILE       FILE defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
                           writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}
  plant.py try ID...       in a scratch copy: demo clean / demo patched / the property's check
  plant.py test ID...      in a scratch copy: the repository's tests with the patch
"""
import json, os, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
DEMO = """#!/bin/bash
# exit 0 when the library behaves, nonzero when it does not
. /opt/vp/env.sh 2>/dev/null
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
HEAD = """import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
"""


def copy():
    d = tempfile.mkdtemp(prefix="plant_")
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s" % d, shell=True)
    subprocess.check_call("cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % d, shell=True)
    v = "/repo/src/gggears/_version.py"
    if os.path.exists(v) and not os.path.exists(d + "/src/gggears/_version.py"):
        shutil.copy(v, d + "/src/gggears/")
    return d


def make(path):
    ns = {}
    exec(compile(open(path).read(), path, "exec"), ns)
    for b in ns["BUGS"]:
        d = copy()
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(d, f if "/" in f else "src/gggears/" + f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
        finally:
            shutil.rmtree(d)
        o = os.path.join(SEED, b["id"])
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.sh", "w").write(DEMO)
        os.chmod(o + "/demo.sh", 0o755)
        open(o + "/demo.py", "w").write(HEAD + b["demo"].lstrip("\n"))
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(o + "/meta.json", "w"), indent=1)
        print("made", b["id"])


def demo(i, d):
    r = subprocess.run(["bash", os.path.join(SEED, i, "demo.sh")], cwd=d, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:] or [""]


def attempt(ids):
    for i in ids:
        prop = json.load(open(os.path.join(SEED, i, "meta.json")))["property"]
        d = copy()
        try:
            c = demo(i, d)
            a = subprocess.run(["git", "-C", d, "apply", os.path.join(SEED, i, "patch.diff")])
            p = demo(i, d)
            r = subprocess.run(["bash", ROOT + "/run.sh", prop, "quick"], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            line = [l for l in r.stdout.splitlines() if l.startswith("  - ") or "MACH" in l or l.startswith("OK")][:1]
            ok = c[0] == 0 and p[0] != 0 and a.returncode == 0
            print("%-10s demo clean=%d patched=%d %s| %s check rc=%d %s" % (i, c[0], p[0], "" if ok else "BAD-DEMO %s %s" % (c[1], p[1]), prop, r.returncode, (line or [r.stderr[-200:]])[0][:160]), flush=True)
        finally:
            shutil.rmtree(d)


def tests(ids):
    for i in ids:
        d = copy()
        try:
            subprocess.check_call(["git", "-C", d, "apply", os.path.join(SEED, i, "patch.diff")])
            r = subprocess.run(
                ". /opt/vp/env.sh; export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s/src:/opt/vp/pytest_plugin; cd %s; /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_slice -n %s --timeout=600 --tb=line 2>&1 | tail -8" % (d, d, os.environ.get("N", "8")),
                shell=True, capture_output=True, text=True, executable="/bin/bash")
            last = r.stdout.strip().splitlines()
            print(i, last[-1] if last else r, "" if " failed" not in r.stdout else "\n".join(last)[-600:], flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    dict(make=lambda a: make(a[0]), **{"try": attempt, "test": tests})[sys.argv[1]](sys.argv[2:])
