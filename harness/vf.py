"""Shared machinery of the checks.

A check runs in the repository's own Python environment and
  * runs TLC on a specification in /verif/spec (model checking and/or generating
    behaviours of the specification),
  * replays generated behaviours against the real library (forked workers),
  * records measurements of real executions and lets TLC validate them against a
    trace specification.
Verdicts are total: exit 0, or exit 1 with a VIOLATION line.  Any other exit is a
failure of the machinery itself.
"""

import hashlib
import json
import math
import os
import random
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
BIG = 2000000000


class Broken(Exception):
    """The machinery (not the library) failed."""


# --------------------------------------------------------------------------- import
_loaded = False


def load():
    """Import the library from the working tree, never from cached byte code."""
    global _loaded
    if _loaded:
        return sys.modules["gggears"]
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    import numpy  # noqa
    import scipy.optimize  # noqa
    import scipy.spatial.transform  # noqa
    import build123d  # noqa
    import warnings

    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "vf_nopyc_%d" % os.getpid())
    sys.path.insert(0, os.path.join(REPO, "src"))
    import gggears

    src = os.path.abspath(gggears.__file__)
    if not src.startswith(os.path.abspath(REPO)):
        raise Broken("gggears imported from %s" % src)
    _loaded = True
    return gggears


# --------------------------------------------------------------------------- helpers
def q(x, unit=1e-6):
    """quantise a measurement for TLC (32 bit); not-a-number and overflow become BIG"""
    try:
        x = float(x)
    except Exception:
        return BIG
    if not math.isfinite(x):
        return BIG
    v = x / unit
    if v > BIG:
        return BIG
    if v < -BIG:
        return -BIG
    return int(round(v))


class Raw(str):
    """text that is already TLA+"""


def tla(v):
    """a Python value as a TLA+ expression; Fractions become <<n, d>>"""
    from fractions import Fraction

    if isinstance(v, Raw):
        return str(v)

    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, Fraction):
        return "<<%d, %d>>" % (v.numerator, v.denominator)
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    return "<<" + ", ".join(tla(x) for x in v) + ">>"


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:12]


def short(e):
    return "%s: %s" % (type(e).__name__, str(e).replace("\n", " ")[:300])


class Ctx:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed * 1000003 + int(prop[1:]))
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.records = 0
        self.models = []
        self.notes = []
        self.assumptions = []
        self.samples = []
        self.violations = []
        self.level = "model_checking"
        self.counters = {}
        self.nontrivial = {}
        self.known = load_known(prop)
        self.known_hit = {}
        self.lock = threading.Lock()
        self.deadline = self.t0 + (780 if self.tier == "quick" else 6 * 3600)

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, a, b):
        return a if self.quick else b

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ---------------------------------------------------------------- TLC
    def _run_tlc(self, module, cfg, args, timeout, files=()):
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, text in files:
            with open(os.path.join(d, name), "w") as h:
                h.write(text)
        with open(os.path.join(d, module + ".cfg"), "w") as h:
            h.write(cfg)
        out = os.path.join(d, "out.txt")
        cmd = ["tlc", "-metadir", os.path.join(d, "meta"), "-config", module + ".cfg"]
        cmd += list(args) + [module + ".tla"]
        env = dict(os.environ)
        env.pop("JAVA_TOOL_OPTIONS", None)
        env["TMPDIR"] = d
        with open(out, "w") as h:
            try:
                rc = subprocess.run(
                    cmd, cwd=d, stdout=h, stderr=subprocess.STDOUT, timeout=timeout, env=env
                ).returncode
            except subprocess.TimeoutExpired:
                rc = -99
        with open(out, errors="replace") as h:
            text = h.read()
        shutil.rmtree(d, ignore_errors=True)
        return rc, text

    @staticmethod
    def _cfg(spec, constants, invariants, properties, constraint, action_constraint, view,
             postcondition, deadlock):
        L = []
        if isinstance(spec, tuple):
            L += ["INIT " + spec[0], "NEXT " + spec[1]]
        else:
            L.append("SPECIFICATION " + spec)
        if constants:
            L.append("CONSTANTS")
            for k, v in constants.items():
                L.append("  %s = %s" % (k, v) if not str(v).startswith("<-") else "  %s %s" % (k, v))
        for i in invariants:
            L.append("INVARIANT " + i)
        for i in properties:
            L.append("PROPERTY " + i)
        if constraint:
            L.append("CONSTRAINT " + constraint)
        if action_constraint:
            L.append("ACTION_CONSTRAINT " + action_constraint)
        if view:
            L.append("VIEW " + view)
        if postcondition:
            L.append("POSTCONDITION " + postcondition)
        L.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        return "\n".join(L) + "\n"

    def model(self, module, constants=None, spec=("Init", "Next"), invariants=(), properties=(),
              constraint=None, action_constraint=None, view=None, simulate=None, depth=None,
              deadlock=False, timeout=600, workers=8, files=(), label=None):
        """Run TLC on a model; a property violated by the *model* is a broken machine.
        Returns the list of JSON values the specification printed."""
        cfg = self._cfg(spec, constants or {}, invariants, properties, constraint,
                        action_constraint, view, None, deadlock)
        args = ["-workers", str(workers)]
        if simulate:
            args = ["-workers", "1", "-simulate", "num=%d" % simulate, "-depth", str(depth),
                    "-seed", str(self.seed * 7919 + 17)]
        t = time.time()
        rc, text = self._run_tlc(module, cfg, args, timeout, files)
        if rc != 0:
            tail = "\n".join(l for l in text.splitlines() if not re.match(r'"|Parsing|Semantic|Linting', l))[-3000:]
            raise Broken("TLC on %s: exit %s\n%s" % (module, rc, tail))
        out = []
        for line in text.splitlines():
            if line.startswith('"') and line.endswith('"'):
                try:
                    out.append(json.loads(json.loads(line)))
                except ValueError:
                    raise Broken("unreadable TLC output " + line[:200])
        gen, dist = 0, 0
        m = re.findall(r"([\d,]+) states generated(?:.*?)([\d,]+) distinct", text)
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"([\d,]+) states checked", text) or re.findall(
                r"number of states generated: ([\d,]+)", text)
            if m:
                gen = int(m[-1].replace(",", ""))
        with self.lock:
            self.states += dist or gen
            self.transitions += gen
        self.models.append(
            dict(module=module, label=label or "", mode="simulate" if simulate else "exhaustive",
                 constants={k: str(v) for k, v in (constants or {}).items()}, generated=gen,
                 distinct=dist, printed=len(out), invariants=list(invariants) + list(properties),
                 seconds=round(time.time() - t, 1)))
        return out

    def mc(self, base, defs, consts=None, **kw):
        """model() of a specification whose constants are given as Python values"""
        text = "---- MODULE MC ----\nEXTENDS %s\n" % base
        text += "".join("MC_%s == %s\n" % (k, tla(v)) for k, v in defs.items()) + "====\n"
        c = dict(consts or {})
        c.update({k: "<- MC_" + k for k in defs})
        kw.setdefault("label", base)
        out = self.model("MC", c, files=[("MC.tla", text)], **kw)
        self.models[-1]["module"] = base
        self.models[-1]["constants"] = {k: str(v) for k, v in (consts or {}).items()}
        return out

    @staticmethod
    def maximal(histories):
        """drop histories that are prefixes of others, and duplicates"""
        keyed = {}
        prefixes = set()
        for h in histories:
            parts = tuple(json.dumps(s, sort_keys=True) for s in h)
            keyed[parts] = h
            for n in range(1, len(parts)):
                prefixes.add(parts[:n])
        return [h for k, h in keyed.items() if k not in prefixes]

    @staticmethod
    def par(thunks, width=4):
        """run independent TLC jobs side by side"""
        from concurrent.futures import ThreadPoolExecutor

        with ThreadPoolExecutor(width) as ex:
            return [f.result() for f in [ex.submit(t) for t in thunks]]

    def one_per_prefix(self, histories):
        """TLC prints every successor it considers for the last step of a simulated
        behaviour; keep one of them per behaviour"""
        groups = {}
        for h in histories:
            groups.setdefault(json.dumps(h[:-1], sort_keys=True), []).append(h)
        return [self.rng.choice(g) for _, g in sorted(groups.items())]

    def sample(self, items, n):
        items = list(items)
        if len(items) <= n:
            return items
        return [items[i] for i in sorted(self.rng.sample(range(len(items)), n))]

    # ---------------------------------------------------------------- trace validation
    def validate(self, module, records, constants=None, label=None, timeout=600, describe=None,
                 canaries=(), names=None):
        """Let TLC judge recorded measurements.  The trace specification steps through
        the records; for every record it evaluates the clauses of its kind and prints
        <<"BAD", index, clause>> for those that fail.  `canaries` are deliberately wrong
        records, which have to be rejected (they show that the binding is alive)."""
        recs = list(records)
        can = list(canaries)
        if not recs:
            raise Broken("no records for " + module)
        lines = "\n".join(json.dumps(r) for r in recs + can) + "\n"
        cfg = self._cfg("TraceSpec", constants or {}, (), (), None, None, None, "TraceDone", False)
        t = time.time()
        rc, text = self._run_tlc(module, cfg, ["-workers", "1"], timeout,
                                 [("trace.ndjson", lines)])
        if rc != 0:
            raise Broken("TLC trace run %s: exit %s\n%s" % (module, rc, text[-3000:]))
        bad = []
        for m in re.finditer(r'<<"BAD", (\d+), "([^"]*)">>', text):
            bad.append((int(m.group(1)) - 1, m.group(2)))
        m = re.findall(r"([\d,]+) states generated(?:.*?)([\d,]+) distinct", text)
        if not m or int(m[-1][1].replace(",", "")) != len(recs) + len(can) + 1:
            raise Broken("trace of %s not consumed: %s" % (module, text[-2000:]))
        clauses = len(re.findall(r"<<\"CLAUSES\"", text))
        hit = {i for i, _ in bad}
        self.records += len(recs)
        self.traces += 1
        self.models.append(dict(module=module, label=label or "", mode="trace validation",
                                records=len(recs), canaries_rejected=len(can),
                                generated=len(recs) + len(can) + 1,
                                seconds=round(time.time() - t, 1)))
        self.states += len(recs) + len(can) + 1
        self.transitions += len(recs) + len(can)
        per = {}
        for i, c in bad:
            if i < len(recs):
                per.setdefault(i, []).append(c)
        for i, cs in sorted(per.items()):
            r = recs[i]
            self.violation("clauses %s of %s fail: %s" % (
                ",".join(cs), module, ((describe(r) if describe else json.dumps(r)) + (" of %s" % (names[i],) if names else ""))[:1800]),
                dict(kind="trace", module=module, record=r, clauses=cs, of=names[i] if names else None))
        if not self.samples:
            self.samples.append(dict(module=module, record=recs[0]))
        for k in range(len(can)):
            if len(recs) + k not in hit:
                raise Broken("canary %d not rejected by %s: %s" % (k, module, can[k]))
        return per

    # ---------------------------------------------------------------- replay
    def replay(self, fn, items, timeout=240, nproc=None, label="replay", count_traces=True):
        """Run fn(item) -> list of mismatch strings (or dict(bad=[..], steps=n, rec=[..]))
        for each item in forked workers.  Exceptions, crashes and hangs of the library are
        mismatches too.  Returns the collected `rec` entries."""
        items = list(items)
        if not items:
            raise Broken("nothing to replay in " + label)
        res = run_pool(fn, items, nproc or NPROC, timeout, self.deadline)
        recs = []
        for i, r in enumerate(res):
            if r is None:
                raise Broken("item %d of %s was not executed" % (i, label))
            for b in r.get("bad", []):
                self.violation("%s: %s" % (label, b), dict(kind=label, item=items[i], mismatch=b))
            recs.extend(r.get("rec", []))
            self.steps += r.get("steps", 1)
            for k, v in r.get("count", {}).items():
                self.count(k, v)
        if count_traces:
            self.traces += len(items)
        if not self.samples:
            self.samples.append(dict(label=label, item=items[0]))
        return recs

    def violation(self, msg, payload=None):
        for k in self.known:
            if re.search(k["match"], msg):
                self.known_hit.setdefault(k["id"], k)
                return
        self.violations.append((msg, payload))

    # ---------------------------------------------------------------- finish
    def finish(self):
        ev = dict(
            property=self.prop,
            tier=self.tier,
            seed=self.seed,
            level=self.level,
            coverage=dict(
                states=self.states,
                transitions=self.transitions,
                traces_validated_against_impl=self.traces,
                samples=self.samples[:3],
                steps_replayed=self.steps,
                records_validated=self.records,
                models=self.models,
                counters=self.counters,
            ),
            wall_s=round(time.time() - self.t0, 1),
            violations=len(self.violations),
            assumptions=self.assumptions,
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1, default=str)
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s_%s.json" % (self.prop, digest(self.violations[0])))
            with open(path, "w") as h:
                json.dump([dict(msg=m, payload=p) for m, p in self.violations[:50]], h, indent=1,
                          default=str)
            for m, _ in self.violations[:5]:
                print("  - " + m[:600])
            if len(self.violations) > 5:
                print("  ... %d violations in total" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK %s %s: states=%d transitions=%d traces=%d steps=%d records=%d in %.1fs" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, self.steps,
            self.records, time.time() - self.t0))
        return 0


# --------------------------------------------------------------------------- findings
def load_known(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        for k in json.load(open(path)).get("known", []):
            if k["property"] == prop:
                out.append(k)
    return out


# --------------------------------------------------------------------------- pool
def _child(fn, rfd, wfd):
    r = os.fdopen(rfd, "r")
    w = os.fdopen(wfd, "w")
    import warnings

    warnings.simplefilter("ignore")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    for line in r:
        idx, item = json.loads(line)
        try:
            res = fn(item)
            if res is None:
                res = []
            if isinstance(res, list):
                res = dict(bad=res)
        except Broken as e:
            res = dict(broken=str(e))
        except BaseException as e:  # an exception of the library is an observation
            tb = traceback.extract_tb(e.__traceback__)
            loc = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:][::-1])
            res = dict(bad=["unexpected %s at %s" % (short(e), loc)])
        w.write(json.dumps([idx, res], default=_json_default) + "\n")
        w.flush()
    w.close()
    os._exit(0)


def _json_default(o):
    try:
        return o.tolist()
    except Exception:
        return str(o)


class _Worker:
    def __init__(self, fn, others):
        a, b = os.pipe()
        c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(b)
                os.close(c)
                for o in others:
                    try:
                        os.close(o.w)
                        os.close(o.r)
                    except OSError:
                        pass
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                _child(fn, a, d)
            finally:
                os._exit(1)
        os.close(a)
        os.close(d)
        self.pid, self.w, self.r = pid, b, c
        self.buf = b""
        self.job = None
        self.since = 0

    def cpu(self):
        """processor seconds used so far: waiting for a busy machine is not the library's fault"""
        try:
            f = open("/proc/%d/stat" % self.pid).read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return 0.0

    def send(self, idx, item):
        self.job, self.since, self.spent = idx, time.time(), self.cpu()
        data = (json.dumps([idx, item], default=_json_default) + "\n").encode()
        while data:
            n = os.write(self.w, data)
            data = data[n:]

    def stop(self, kill=False):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        if kill:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def run_pool(fn, items, nproc, timeout, deadline):
    load()
    results = [None] * len(items)
    pending = list(range(len(items)))[::-1]
    workers = []
    sys.stdout.flush()
    sys.stderr.flush()
    for _ in range(min(nproc, len(items))):
        workers.append(_Worker(fn, workers))
    try:
        for w in workers:
            if pending:
                i = pending.pop()
                w.send(i, items[i])
        while any(w.job is not None for w in workers):
            rl, _, _ = select.select([w.r for w in workers if w.job is not None], [], [], 1.0)
            now = time.time()
            for w in list(workers):
                if w.job is None:
                    continue
                dead = None
                if w.r in rl:
                    data = os.read(w.r, 1 << 20)
                    if not data:
                        dead = "the library crashed the process"
                    else:
                        w.buf += data
                        if b"\n" in w.buf:
                            line, w.buf = w.buf.split(b"\n", 1)
                            idx, res = json.loads(line)
                            if "broken" in res:
                                raise Broken(res["broken"])
                            results[idx] = res
                            w.job = None
                            if pending:
                                i = pending.pop()
                                w.send(i, items[i])
                elif now - w.since > timeout and not 0.01 * timeout < w.cpu() - w.spent <= timeout:
                    dead = "no answer within %d s" % timeout
                elif now > deadline:
                    dead = "no answer within %d s" % (now - w.since) if w.cpu() - w.spent > timeout / 2 else "deadline"
                if dead:
                    results[w.job] = dict(bad=[dead]) if dead != "deadline" else dict(bad=[], steps=0, count={"not run, deadline": 1})
                    w.stop(kill=True)
                    workers.remove(w)
                    if now > deadline:
                        for i in pending:
                            results[i] = dict(bad=[], steps=0, count={"not run, deadline": 1})
                        pending = []
                    if pending:
                        n = _Worker(fn, workers)
                        workers.append(n)
                        i = pending.pop()
                        n.send(i, items[i])
    finally:
        for w in workers:
            w.stop(kill=w.job is not None)
    return results
