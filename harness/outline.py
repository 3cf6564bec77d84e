"""Outlines of real gears at real sections (P12): records for OutlineObs.tla."""
import math
import random

import numpy as np

import dimobs
import vf
from placement import core_of, get

PI = math.pi
Z = np.array([0, 0, 1.0])
KINDS = dimobs.KINDS + ["pointed", "core"]


def unit(v):
    return v / np.linalg.norm(v)


def rz(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])


def inv(a):
    return math.tan(a) - a


def frame_of(g, p):
    """world -> frame of the gear in transverse modules"""
    c, o, a = get(g)
    F = (o @ rz(a)).T / (p["m"] / p["cb"])
    return lambda q: (np.asarray(q, float) - c) @ F.T


def measures(p, zz):
    """height above the pitch surface and distance from the section for points in the gear frame"""
    rp, gam = p["z"] / 2, p["gamma"]
    if not gam:
        return (lambda q: math.hypot(q[0], q[1]) - rp), (lambda q: abs(q[2] - zz))
    R = rp / math.sin(gam)
    apex = np.array([0, 0, rp / math.tan(gam)])
    return (lambda q: R * (math.acos(max(-1.0, min(1.0, np.dot(unit(q - apex), -Z)))) - gam)), (lambda q: abs(np.linalg.norm(q - apex) - (R - zz)))


def twist(p, zz):
    if p.get("hb"):
        lo, hi = -p["h"] * p["anc"], p["h"] * (1 - p["anc"])
        mid = (lo + hi) / 2 / (p["m"] / p["cb"])
        zz = mid - abs(mid - zz)
    return zz * math.tan(p["beta"]) * 2 / p["z"]


def half_angle(p, ratio):
    return (PI / 4 + p["x"] * math.tan(p["al"]) - p["bl"] - (2 * ratio - 1) ** 2 * p["cr"] * 1e-3) * 2 / p["z"]


def sharp_height(p, half):
    """height at which an involute tooth gets pointed (transverse modules)"""
    rp = p["z"] / 2
    al = math.atan(math.tan(p["al"]) / p["cb"])
    lo, hi = al, 1.5
    for _ in range(200):
        w = (lo + hi) / 2
        if inv(w) - inv(al) < half:
            lo = w
        else:
            hi = w
    return rp * math.cos(al) / math.cos(lo) - rp


def tip_left(p, c):
    """half tooth thickness that a cycloid tooth has left at its tip, in modules"""
    rp = p["z"] / 2 / math.cos(p["gamma"])
    rc, top = c * rp, rp + p["ha"]
    lo, hi = 0.0, PI * rc / rp
    at = lambda t: ((rp + rc) * math.cos(t) - rc * math.cos((rp + rc) / rc * t), (rp + rc) * math.sin(t) - rc * math.sin((rp + rc) / rc * t))  # noqa
    if math.hypot(*at(hi)) < top:
        return -1.0
    for _ in range(60):
        t = (lo + hi) / 2
        lo, hi = (t, hi) if math.hypot(*at(t)) < top else (lo, t)
    x, y = at(lo)
    return (min(half_angle(p, r) for r in (0, 0.5, 1)) * math.cos(p["gamma"]) - math.atan2(y, x)) * top


def pick(rng, kind):
    base = "spur" if kind == "pointed" else kind
    p = dimobs.params(rng, base)
    cout = rng.uniform(0.3, 0.5)
    while kind in ("cycloid", "cycbevel") and tip_left(p, cout) < 0.3:
        p, cout = dimobs.params(rng, base), rng.uniform(0.3, 0.5)
    f = dict(root_fillet=0.0, tip_fillet=0.0, tip_truncation=rng.choice([0.0, 0.1, rng.uniform(0, 0.2)]))
    p["trunc"] = f["tip_truncation"]
    if kind == "pointed":
        # teeth that end in a point below the tip circle
        for _ in range(1000):
            p.update(z=rng.randint(13, 30), x=rng.uniform(0.3, 0.9), ha=rng.uniform(1.0, 1.4), hd=1.2, bl=rng.choice([0, 0.05]), cr=0.0, uc=rng.random() < 0.4)
            sh = sharp_height(p, half_angle(p, 0))
            if sh < p["ha"] + p["x"] - 0.02:
                break
        f["tip_truncation"] = p["trunc"] = rng.choice([0.1, rng.uniform(0.02, 0.3), 0.0])
    else:
        if rng.random() < 0.5 and not (p["uc"] or kind.startswith("cyc") and False):
            f["root_fillet"] = rng.choice([rng.uniform(0.05, 0.25), rng.uniform(0.05, 0.25), rng.uniform(0.25, 0.7)])
        if rng.random() < 0.4:
            f["tip_fillet"] = rng.uniform(0.03, 0.1)
    p.update(rf=f["root_fillet"], tf=f["tip_fillet"])
    if kind.startswith("cyc"):
        f.update(inside_cycloid_coefficient=rng.uniform(0.3, 0.5), outside_cycloid_coefficient=cout)
    return p, f


def nearest(q, f, T, pts):
    """distance of q from the curve f sampled at T"""
    i = int(np.argmin(np.linalg.norm(pts - q, axis=1)))
    best = np.linalg.norm(pts[i] - q)
    for lo, hi in ((T[max(0, i - 1)], T[i]), (T[i], T[min(len(T) - 1, i + 1)])):
        if hi <= lo:
            continue
        g = (math.sqrt(5) - 1) / 2
        a, b = hi - g * (hi - lo), lo + g * (hi - lo)
        fa, fb = np.linalg.norm(f(a) - q), np.linalg.norm(f(b) - q)
        for _ in range(28):
            if fa < fb:
                hi, b, fb = b, a, fa
                a = hi - g * (hi - lo)
                fa = np.linalg.norm(f(a) - q)
            else:
                lo, a, fa = a, b, fb
                b = lo + g * (hi - lo)
                fb = np.linalg.norm(f(b) - q)
        best = min(best, fa, fb)
    return best


# parameters at which outlines once went wrong
CASES = [
    dict(kind="ring", z=159, al=0.4367221971418327, ha=1.2, hd=0.9621305154143764, ring=True, ho=-1.9444968664799083, trunc=0.17, rf=0.6108997247356389, tf=0.0524, ratio=0.5),
    dict(kind="ring", z=289, al=0.37712313724784874, ha=1.2, hd=1.0, ring=True, ho=-2.9, rf=0.6813873646956127, ratio=0.5),
    dict(kind="involute", z=85, al=0.4075579092890511, ha=0.8608817495516637, hd=1.052914764899224, beta=0.43558524283866606, rf=0.5239686815482549, tf=0.0827, ratio=0),
    dict(kind="bevel", z=11, m=1.805955851561782, al=0.3115179860653223, hd=1.2259857338600442, gamma=1.4461513035293991, uc=True, h=2.856, trunc=0.1, tf=0.0709, ratio=0),
    dict(kind="cycbevel", z=25, m=2.5, al=0.0, gamma=0.5300790568892559, h=4.2, cr=23.68, trunc=0.015636478140865728, ratio=0.5,
         inside_cycloid_coefficient=0.4950149244541157, outside_cycloid_coefficient=0.4425643915910725),
]


def observe(job):
    vf.load()
    rng = random.Random(job["seed"])
    kind = job["kind"]
    p, f = pick(rng, kind)
    ratio = rng.choice([0, 1, 0.5, rng.random()])
    if "case" in job:
        c = dict(job["case"])
        ratio = c.pop("ratio")
        p = dict(dict(kind=kind, m=1.0, al=20 * PI / 180, x=0.0, ha=1.0, hd=1.2, bl=0.0, cr=0.0, anc=0.0, beta=0.0, gamma=0.0, ring=False, ho=2.0, uc=False, hb=False, h=3.0,
                      cb=1.0, trunc=0.0, rf=0.0, tf=0.0), **{k: v for k, v in c.items() if not k.endswith("coefficient")})
        f = dict({k: v for k, v in c.items() if k.endswith("coefficient")}, root_fillet=p["rf"], tip_fillet=p["tf"], tip_truncation=p["trunc"])
    g = dimobs.make(p, **f)
    dimobs.put(g, rng)
    zz = (ratio - p["anc"]) * p["h"] / (p["m"] / p["cb"])
    z, rp, gam = p["z"], p["z"] / 2, p["gamma"]
    loc = frame_of(g, p)
    hgt, off = measures(p, zz)
    core = core_of(g)
    what = dict(p, ratio=ratio, seed=job["seed"], family=kind)
    B = core.boundary_at_z(core.z_vals[0] + ratio * (core.z_vals[-1] - core.z_vals[0]))
    C = core.boundary_at_z(core.z_vals[0] + ratio * (core.z_vals[-1] - core.z_vals[0]), continuous=False)
    pr = core.curve_gen_at_z(core.z_vals[0] + ratio * (core.z_vals[-1] - core.z_vals[0]))
    at = lambda t: loc(B(float(t) % 1.0))  # noqa
    k = rng.randrange(z)
    M = 241
    # a window of the outline around tooth k (the parameter is proportional to the arc length only roughly)
    T = np.linspace(-0.6, 1.6, M)
    tk = lambda t: at((k + t) / z)  # noqa
    P = np.array([tk(t) for t in T])
    H = np.array([hgt(q) for q in P])
    flat = max(off(q) for q in P)

    def onto(q):
        """distance of a point of the outline, turned by whole pitches, from the tooth"""
        a0 = math.atan2(P[M // 2][1], P[M // 2][0])
        j = round(((math.atan2(q[1], q[0]) - a0) % (2 * PI)) / (2 * PI / z))
        return nearest(rz(-j * 2 * PI / z) @ q, tk, T, P)

    # all teeth are alike, and both forms of the outline are the same
    nf = max(onto(at((rng.randrange(z) + rng.random()) / z)) for _ in range(5))
    n_curves = C.target_curve.num_curves if hasattr(C, "target_curve") and hasattr(C.target_curve, "num_curves") else -1
    chain = max(onto(loc(C(rng.random()))) for _ in range(5))
    H = np.append(H, [hgt(np.asarray(pr.tooth_curve(t))) for t in (0.0, 1.0)])
    # pieces of the profile join
    seg = [c for c in pr.profile.get_curves() if c.active]
    gaps = max([np.linalg.norm(np.asarray(x(1.0)) - y(0.0)) for x, y in zip(seg, seg[1:])] + [0.0])
    # also the first piece follows the last one of the tooth before
    gaps = max(gaps, np.linalg.norm(rz(2 * PI / z) @ np.asarray(seg[0](0.0)) - seg[-1](1.0)))
    closed = max(np.linalg.norm(loc(f(0.0)) - loc(f(1.0))) for f in (B, C))
    # tooth 0: angles about its centre line
    tw = twist(p, zz)
    t0 = np.array([at(t / z) for t in T])
    phi = np.array([math.atan2(q[1], q[0]) - tw for q in t0])
    phi = (phi + PI) % (2 * PI) - PI
    h0 = np.array([hgt(q) for q in t0])
    # the pitch circle is crossed by the tooth's two flanks
    cr = [i for i in range(M - 1) if (h0[i] < 0) != (h0[i + 1] < 0) and abs(phi[i]) < PI / z]
    angs = []
    for i in cr:
        lo, hi = T[i], T[i + 1]
        sgn = h0[i] < 0
        for _ in range(45):
            m = (lo + hi) / 2
            if (hgt(at(m / z)) < 0) == sgn:
                lo = m
            else:
                hi = m
        q = at(lo / z)
        angs.append((math.atan2(q[1], q[0]) - tw + PI) % (2 * PI) - PI)
    half = half_angle(p, ratio)
    simple = 1 if len(angs) == 2 else 0
    if len(angs) != 2:
        angs = [9, 9]
    # both flanks mirror each other
    tc, tm = pr.tooth_curve, pr.tooth_curve_mirror
    fm = lambda s: np.asarray(tm(float(s)))  # noqa
    S = np.linspace(0, 1, 81)
    mp = np.array([fm(t) for t in S])
    mir = max([nearest(np.asarray(tc(float(t))) * [1, -1, 1], fm, S, mp) for t in (0.13, 0.5, 0.94, rng.random())]
              + [np.linalg.norm(np.asarray(tc(float(t))) * [1, -1, 1] - fm(1 - t)) for t in (0, 1)])
    # every flank point below the centre line, no back tracking over the middle of tooth or space
    ta = [math.atan2(q[1], q[0]) for q in (tc(float(s)) for s in np.linspace(0, 1, 41))]
    if max(ta) > 1e-6 or min(ta) < -PI / z - 1e-6:
        simple = 0
    ha, hd = (p["ha"] + p["x"]) * p["cb"], (p["hd"] - p["x"]) * p["cb"]
    top, rt = ha, 1
    if kind == "pointed":
        sh = sharp_height(p, half)
        if p["trunc"] > 0:
            top = min(ha, sh - p["trunc"])
        else:
            top = sh
    u = lambda v: vf.q(v, 1e-6)  # noqa
    slack = u(3e-3) if p["kind"] == "bevel" and p["uc"] else 0
    sec = pr.transform.scale if gam else 1.0
    big = p["rf"] > 0.25  # a fillet that fills the space: the outline stays above the root
    hw = (angs[1] - angs[0]) / 2
    # the generating rack reaches so far below the base tangent that the undercut climbs over the pitch circle
    deep = p["uc"] and p["al"] and hd - rp / math.cos(gam) * math.sin(math.atan(math.tan(p["al"]) / p["cb"])) ** 2 > 0.55
    recs = [dict(kind="outline", hi=u(H.max()), lo=u(H.min()), top=u(top), bot=u(-hd), slack=slack, reachtop=rt, reachbot=0 if big else 1, flat=u(flat),
                 half=u((angs[1] - angs[0]) / 2 * rp), half2=u(-angs[0] * rp), want=u((hw if p["rf"] > 0.4 else min(hw, half) if deep else half) * rp), mid=u((angs[0] + angs[1]) / 2 * rp), wmid=0, gaps=u(gaps), closed=u(closed), nfold=u(nf),
                 mirror=u(mir), chain=u(chain), teeth=n_curves if n_curves > 0 else z, z=z, simple=simple, what=what)]
    for name, rad in (("root", p["rf"]), ("tip", p["tf"])):
        if not rad:
            continue
        cs = [c for c in tc.get_curves() if c.active] if hasattr(tc, "get_curves") else [tc]
        i = 0 if name == "root" else len(cs) - 1
        arc = cs[i]
        isarc = hasattr(arc, "radius") and hasattr(arc, "angle")
        d = lambda c, t, w: unit(np.asarray(c.derivative(t, direction=w)))  # noqa
        ang = lambda a, b: math.acos(max(-1.0, min(1.0, np.dot(a, b))))  # noqa
        circ = lambda q: unit(np.cross(Z, q))  # noqa
        if rad > 0.25 and (not isarc or len(cs) < 2 or abs(arc.radius - rad) > 1e-6):
            continue  # large ones need not fit
        if not isarc or len(cs) < 2:
            recs.append(dict(kind="fillet", there=0, kink1=0, kink2=0, ktol=0, radius=0, wrad=0, what=dict(what, where=name)))
            continue
        if name == "root":
            outer = abs(math.atan2(arc(0.0)[1], arc(0.0)[0]) + PI / z) < 1e-6
            k1 = ang(d(arc, 0.0, 1), circ(arc(0.0)))
            k2 = ang(d(arc, 1.0, -1), d(cs[1], 0.0, 1))
        else:
            k1 = ang(d(cs[-2], 1.0, -1), d(arc, 0.0, 1))
            k2 = ang(d(arc, 1.0, -1), circ(arc(1.0)))
        recs.append(dict(kind="fillet", there=1, kink1=u(k1), kink2=u(k2), ktol=u(2e-3), radius=u(arc.radius), wrad=u(rad), what=dict(what, where=name)))
    return dict(bad=[], rec=recs, count={kind: 1})


# tooth numbers whose angular pitch does not divide a full turn exactly in floating point
ODD = [25, 41, 50, 63, 82, 95]


def observe_wire(job):
    """boundary wires and boundary curves of full and partial gears"""
    gg = vf.load()
    rng = random.Random(job["seed"])
    kind = job["kind"]
    p = dimobs.params(rng, "spur" if kind == "partial" else kind, wide=False)
    p["z"] = rng.choice(ODD[-4:] if p["ring"] else ODD + [14, 20, 33])
    while p["al"] and tip_bad(p):
        q = dimobs.params(rng, p["kind"], wide=False)
        p = dict(q, z=p["z"])
    n = p["z"]
    if kind == "partial":
        p["z"] = n + rng.choice([0.25, 0.5, 0.75, 0.9])
    g = dimobs.make(p)
    dimobs.put(g, rng)
    ratio = rng.choice([0, 1, 0.5, rng.random()])
    core = core_of(g)
    zv = core.z_vals[0] + ratio * (core.z_vals[-1] - core.z_vals[0])
    pr = core.curve_gen_at_z(zv)
    tr = core.transform * pr.transform
    pitch = 2 * PI / p["z"]
    prof = lambda t: np.asarray(pr.profile(float(t)))  # noqa
    S = np.linspace(0, 1, 401)
    P = np.array([prof(t) for t in S])
    m = float(g.module)
    length = np.linalg.norm(np.diff(P, axis=0), axis=1).sum() * n * tr.scale
    w = g.build_boundary_wire(ratio)
    back = tr.invert()

    def off(q):
        """distance of a point from the teeth, in modules of the section"""
        q = back(np.asarray(q, float))
        a = (math.atan2(q[1], q[0]) + pitch / 2) % (2 * PI)
        j = int(a // pitch)
        qs = [rz(-(i % n) * pitch) @ q for i in (j - 1, j, j + 1)]
        return nearest(min(qs, key=lambda v: np.linalg.norm(P - v, axis=1).min()), prof, S, P)

    on = max(off(tuple(w.position_at(rng.random()))) for _ in range(5))
    gb = __import__("build123d")
    far = lambda q: w.distance_to(gb.Vertex(*[float(v) for v in q])) / tr.scale  # noqa
    covers = max(far(tr(rz(rng.randrange(n) * pitch) @ prof(rng.random()))) for _ in range(4))
    covers = max([covers] + [far(tr(rz(i * pitch) @ prof(0.5))) for i in (0, n - 1)])
    full = kind != "partial"
    # the boundary curves start and end with the first and the last tooth
    gap = 0.0
    for f in (core.boundary_at_z(zv), core.boundary_at_z(zv, continuous=False)):
        gap = max(gap, np.linalg.norm(np.asarray(f(0.0)) - tr(prof(0))), np.linalg.norm(np.asarray(f(1.0)) - tr(rz((n - 1) * pitch) @ prof(1))) if not full else 0.0,
                  off(f(rng.random())) * tr.scale)
    u = lambda v: vf.q(v, 1e-6)  # noqa
    rec = dict(kind="wire", closed=1 if bool(w.is_closed) == full else 0, one=1 if len(w.wires()) == 1 else 0, on=u(on), covers=u(covers),
               length=u(abs(w.length - length) / length), curves=u(gap / m), what=dict(p, ratio=ratio, seed=job["seed"], family=kind))
    return dict(bad=[], rec=[rec], count={kind: 1, "wire": 1})


def tip_bad(p):
    return dimobs.tip_angle(p["z"] / math.cos(p["gamma"]), p["x"] * p["cb"], math.tan(p["al"]) / p["cb"], (p["ha"] + p["x"]) * p["cb"] + 0.2, p["bl"] + p["cr"] / 1000) < 0.1
