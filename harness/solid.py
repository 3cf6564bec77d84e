"""Built parts (P18): records for SolidObs.tla, measured on the real CAD solids."""
import math
import random

import numpy as np

import dimobs
import outline
import vf
from placement import core_of, get

PI = math.pi
KINDS = dimobs.KINDS + ["herring", "crown", "long", "longring"]


def rz(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])


def pick(rng, kind):
    base = {"herring": rng.choice(["helical", "helring"]), "crown": rng.choice(["spur", "cycloid", "bevel", "helical"]), "long": "helical", "longring": "helring"}.get(kind, kind)
    while True:
        p = dimobs.params(rng, base, wide=False)
        z = rng.randint(24, 30) if p["ring"] else rng.randint(9, 15)
        p.update(z=z, hb=kind == "herring" or (p["hb"] and kind in ("helical", "helring")), cr=rng.uniform(20, 100) if kind == "crown" else 0.0)
        p["h"] = min(p["h"], 2.5 * p["m"])
        p["beta"] = max(-0.5, min(0.5, p["beta"]))
        if kind in ("long", "longring"):
            # a few teeth that wind around, up to more than a full turn
            p.update(z=rng.randint(6, 9) if kind == "long" else rng.randint(20, 24), beta=rng.choice([-1, 1]) * rng.uniform(0.5, 0.95), hb=rng.random() < 0.5, x=rng.uniform(0, 0.3))
            z = p["z"]
            tw = rng.choice([rng.uniform(0.6, 3.1), rng.uniform(1.8 * PI, 3.5 * PI) if kind == "long" else rng.uniform(PI, 1.7 * PI)])
            p["h"] = tw * (2 if p["hb"] else 1) * z / 2 * p["m"] / math.cos(p["beta"]) / math.tan(abs(p["beta"]))
        p["cb"] = math.cos(p["beta"]) if base in ("helical", "helring") else 1.0
        if p["gamma"]:
            R = z / 2 / math.sin(p["gamma"]) * p["m"]
            p["h"] = min(p["h"], 0.3 * R)
            if (1 - p["anc"]) * p["h"] > 0.5 * R:
                continue
        if p["al"]:
            p["x"] = max(p["x"], 0.1) if not p["ring"] and kind != "long" else p["x"]
            if dimobs.tip_angle(z / math.cos(p["gamma"]), p["x"] * p["cb"], math.tan(p["al"]) / p["cb"], (p["ha"] + p["x"]) * p["cb"] + 0.2, p["bl"] + p["cr"] / 1000) < 0.1:
                continue
        elif not p["ring"] and outline.tip_left(p, 0.35) < 0.25:
            continue
        break
    f = {}
    if p["al"]:
        f["root_fillet"] = rng.choice([0.0, rng.uniform(0.05, 0.2)]) if not p["uc"] else 0.0
        f["tip_fillet"] = rng.choice([0.0, 0.0, rng.uniform(0.03, 0.08)])
    else:
        f.update(inside_cycloid_coefficient=rng.uniform(0.35, 0.5), outside_cycloid_coefficient=rng.uniform(0.35, 0.5))
    p.update(rf=f.get("root_fillet", 0.0), tf=f.get("tip_fillet", 0.0))
    return p, f


def tooth(g, ratio):
    """profile of one tooth pitch at a section: points in the frame of the gear, mm, in order"""
    core = core_of(g)
    pr = core.curve_gen_at_z(core.z_vals[0] + ratio * (core.z_vals[-1] - core.z_vals[0]))
    P = []
    for c in pr.profile.get_curves():
        if c.active:
            P += [np.asarray(c(float(s))) for s in np.linspace(0, 1, 61)]
    s = core.transform.scale
    return np.asarray(pr.transform(np.array(P))) * s


def section(g, p, ratio):
    """cylindrical: area inside of the outline; bevel: solid angle inside of it"""
    P = tooth(g, ratio)
    z = p["z"]
    Q = np.vstack([P @ rz(2 * PI * j / z).T for j in range(z)])
    if not p["gamma"]:
        x, y = Q[:, 0], Q[:, 1]
        return 0.5 * abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1)))
    apex = np.array([0, 0, p["z"] * p["m"] / 2 / math.tan(p["gamma"])])
    D = Q - apex
    c = -D[:, 2] / np.linalg.norm(D, axis=1)
    ph = np.unwrap(np.arctan2(D[:, 1], D[:, 0]))
    ph2 = np.append(ph, ph[0] + 2 * PI)
    c2 = np.append(c, c[0])
    return abs(float(np.sum((1 - (c2[1:] + c2[:-1]) / 2) * np.diff(ph2))))


def simpson(f, n=4):
    return sum(w * f(i / n) for i, w in zip(range(n + 1), [1, 4, 2, 4, 1])) / (3 * n)


def volume(g, p):
    mt = p["m"] / p["cb"]
    w = dimobs.textbook(p, 0)
    if not p["gamma"]:
        A = simpson(lambda r: section(g, p, r)) if p["cr"] else section(g, p, 0.3)
        if p["ring"]:
            A = PI * w["r"][0] ** 2 - A
        return A * p["h"]
    R = p["z"] * mt / 2 / math.sin(p["gamma"])
    R0, R1 = R + p["anc"] * p["h"], R - (1 - p["anc"]) * p["h"]
    w1 = dimobs.textbook(p, 1)
    om_o = 2 * PI * (1 - math.cos(w["cone"][0]))
    shell = lambda r: (section(g, p, r) - om_o) * (R0 + (R1 - R0) * r) ** 2  # noqa
    V = simpson(shell) * (R0 - R1)
    ro0, ro1, h = w["r"][0], w1["r"][0], w1["ax"][0] - w["ax"][0]
    return V + PI * h / 3 * (ro0 ** 2 + ro0 * ro1 + ro1 ** 2)


def genus(s):
    """from the Euler-Poincare formula of the boundary"""
    V, E, F = len(s.vertices()), len(s.edges()), len(s.faces())
    L = sum(1 + len(f.inner_wires()) for f in s.faces())
    return (2 - (V - E + F - (L - F))) / 2


def free_edges(s):
    """edges that do not bound exactly two face sides"""
    from OCP.TopExp import TopExp_Explorer
    from OCP.TopAbs import TopAbs_EDGE
    from OCP.BRep import BRep_Tool
    from OCP.TopoDS import TopoDS
    import collections

    n = collections.Counter()
    keep = {}
    for f in s.faces():
        e = TopExp_Explorer(f.wrapped, TopAbs_EDGE)
        while e.More():
            x = TopoDS.Edge(e.Current())
            if not BRep_Tool.Degenerated_s(x):
                k = next((y for y in keep.get(hash(x), []) if y.IsSame(x)), None)
                if k is None:
                    keep.setdefault(hash(x), []).append(x)
                    k = x
                n[id(k)] += 1
            e.Next()
    return sum(1 for v in n.values() if v != 2)


def inside(s, q, tol):
    from OCP.BRepClass3d import BRepClass3d_SolidClassifier
    from OCP.TopAbs import TopAbs_IN
    from OCP.gp import gp_Pnt

    c = BRepClass3d_SolidClassifier(s.wrapped, gp_Pnt(*[float(v) for v in q]), tol)
    return c.State() == TopAbs_IN


def inside_by_rays(s, q, rng, n=7):
    """majority of the parities of crossings of rays (the kernel's classifier errs on long twisted faces)"""
    from OCP.IntCurvesFace import IntCurvesFace_ShapeIntersector
    from OCP.gp import gp_Pnt, gp_Dir, gp_Lin

    it = IntCurvesFace_ShapeIntersector()
    it.Load(s.wrapped, 1e-7)
    odd = 0
    for _ in range(n):
        d = np.array([rng.gauss(0, 1) for _ in range(3)])
        it.Perform(gp_Lin(gp_Pnt(*[float(v) for v in q]), gp_Dir(*[float(v) for v in d])), 0.0, 1e6)
        w = sorted(it.WParameter(i + 1) for i in range(it.NbPnt()))
        odd += len([v for i, v in enumerate(w) if i == 0 or v - w[i - 1] > 1e-6]) % 2
    return odd > n // 2


def dist(q, s):
    import build123d as bd
    import lifecycle

    return lifecycle.near(bd.Vertex(*[float(x) for x in q]), s)


def observe(job):
    import build123d as bd

    rng = random.Random(job["seed"])
    kind = job["kind"]
    p, f = pick(rng, kind)
    if "set" in job:
        p.update(job["set"])
        p["cb"] = math.cos(p["beta"])
    g = dimobs.make(p, **f)
    dimobs.put(g, rng)
    what = dict(p, seed=job["seed"], family=kind, **f)
    part = g.build_part()
    sols = part.solids()
    mt = p["m"] / p["cb"]
    u = lambda v: vf.q(v / mt, 1e-6)  # noqa  lengths in millionths of a module
    rec = dict(kind="solid", what=what, solids=len(sols), valid=int(bool(part.is_valid if not callable(part.is_valid) else part.is_valid())), ring=int(p["ring"]))
    if len(sols) != 1:
        return dict(rec=[dict(rec, kind="count")], bad=[], steps=1)
    s = sols[0]
    gen = genus(s)
    rec.update(genus2=int(round(2 * gen)), free=free_edges(s))
    V = volume(g, p)
    rec["dvol"] = vf.q(s.volume / V - 1, 1e-6)
    # vertices in the frame of the gear
    c, o, a = get(g)
    F = (o @ rz(a)).T
    X = np.array([[v.X, v.Y, v.Z] for v in s.vertices()])
    X = (X - c) @ F.T
    rad = np.hypot(X[:, 0], X[:, 1])
    w0, w1 = dimobs.textbook(p, 0), dimobs.textbook(p, 1)
    if not p["gamma"]:
        lo, hi = w0["ax"][2], w1["ax"][2]
        rec.update(bot=u(X[:, 2].min() - lo), top=u(X[:, 2].max() - hi), outer=u(rad.max() - (w0["r"][0] if p["ring"] else w0["r"][3])), inner=u(rad.min() - w0["r"][1]))
    else:
        R = p["z"] * mt / 2 / math.sin(p["gamma"])
        apex = np.array([0, 0, R * math.cos(p["gamma"])])
        d = np.linalg.norm(X - apex, axis=1)
        R0, R1 = R + p["anc"] * p["h"], R - (1 - p["anc"]) * p["h"]
        rec.update(bot=u(R0 - d.max()), top=u(d.min() - R1), outer=u(rad.max() - max(w0["r"][3], w1["r"][3])), inner=u(0))
    # turned by one angular pitch it is the same (a blank of spheres has seams: two vertices on each)
    if p["gamma"]:
        th = np.arccos(np.clip((apex[2] - X[:, 2]) / d, -1, 1))
        sel = th > 0.5 * (w0["cone"][0] + w0["cone"][1])
        rec.update(outer=u((th.max() - w0["cone"][3]) * R), inner=u((th[sel].min() - w0["cone"][1]) * R))
    elif p["ring"]:
        sel = rad < 0.5 * (w0["r"][0] + w0["r"][3])
    else:
        sel = rad > 0.5 * (w0["r"][1] + w0["r"][0])
    Xs = X[sel]
    Ys = Xs @ rz(2 * PI / p["z"]).T
    off = [np.linalg.norm(Xs - y, axis=1).min() for y in Ys]
    rec.update(odd=sum(1 for v in off if v > 2e-5 * mt), seams=2 * len(g.gearcore.z_vals) if p["gamma"] else 0, few=int(len(Xs) < 4 * p["z"]))
    # points of the outline at any height lie on the surface; next to it is inside / outside
    on, side = 0.0, 0
    for _ in range(job.get("points", 6)):
        r = rng.choice([0.0, 1.0, rng.random(), rng.random()])
        core = core_of(g)
        zc = core.z_vals[0] + r * (core.z_vals[-1] - core.z_vals[0])
        pr = core.curve_gen_at_z(zc)
        tr = core.transform * pr.transform
        t = rng.random()
        q = np.asarray(pr.tooth_curve(t))
        j = rng.randrange(p["z"])
        W = lambda v: c + o @ rz(a) @ rz(2 * PI * j / p["z"]) @ (F @ (np.asarray(tr(v)) - c))  # noqa
        on = max(on, dist(W(q), s))
    for _ in range(job.get("points", 6)):
        r = rng.uniform(0.1, 0.9)
        core = core_of(g)
        zc = core.z_vals[0] + r * (core.z_vals[-1] - core.z_vals[0])
        pr = core.curve_gen_at_z(zc)
        tr = core.transform * pr.transform
        q = np.asarray(pr.tooth_curve(rng.uniform(0.25, 0.75)))
        j = rng.randrange(p["z"])
        W = lambda v: c + o @ rz(a) @ rz(2 * PI * j / p["z"]) @ (F @ (np.asarray(tr(v)) - c))  # noqa
        e = 0.03 / (p["z"] / 2)
        # towards the centre line of the tooth / of the space
        for sg in (1, -1):
            want = (sg == 1) != p["ring"]
            v = W(rz(sg * e) @ q)
            if inside(s, v, 1e-7) != want and inside_by_rays(s, v, random.Random(job["seed"])) != want:
                side += 1
    rec.update(oslack=400 if p["gamma"] and p["beta"] else 0, on=u(on), side=side, fit=8000 if p["gamma"] else 1500 if kind == "long" else 2500 if kind == "longring" else 3000, slack=3000 if p["gamma"] and p["uc"] else 240 if p["gamma"] else 0)
    return dict(rec=[rec], bad=[], steps=1, count={kind: 1})
