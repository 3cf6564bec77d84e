"""Dimensions of gears with random real parameters and placements (records for DimObs.tla)."""
import math
import random

import vf
from meshobs import rand_rot
from placement import core_of

PI = math.pi
DEG = PI / 180
KINDS = ["spur", "involute", "ring", "helical", "helring", "bevel", "cycloid", "cycring", "cycbevel"]


def tip_angle(z, x, ta, ha, bl, al=None):
    """half tooth angle on the circle ha above the tip circle (module 1, transverse values)"""
    al = math.atan(ta)
    rp = z / 2
    ra = rp + ha
    rb = rp * math.cos(al)
    w = math.acos(min(1, rb / ra))
    inv = lambda a: math.tan(a) - a
    return (PI / 2 / z + (x * ta - bl) * 2 / z - inv(w) + inv(al)) * rp


def params(rng, kind, wide=True):
    """random admissible parameters: dict with the constructor arguments and derived values (sometimes far out)"""
    for _ in range(1000):
        p = dict(kind=kind, z=rng.randint(13, 45), m=rng.choice([0.4, 1.0, 1.0, 2.5, rng.uniform(0.3, 6)]),
                 al=rng.choice([14.5, 20, 20, 20, 25, rng.uniform(15, 25)]) * DEG,
                 x=rng.choice([0, 0, rng.uniform(-0.3, 0.5)]), ha=rng.choice([1.0, rng.uniform(0.7, 1.1)]),
                 hd=rng.choice([1.2, rng.uniform(1.0, 1.3)]), bl=rng.choice([0, 0, rng.uniform(0, 0.06)]),
                 cr=rng.choice([0, 0, rng.uniform(0, 100)]), anc=rng.choice([0, 0.5, 1, rng.random()]),
                 beta=0.0, gamma=0.0, ring=False, ho=2.0, uc=rng.random() < 0.6, hb=False)
        far = wide and rng.random() < 0.35
        lean = lambda: rng.choice([-1, 1]) * rng.uniform(*((1, 52) if far else (5, 35))) * DEG  # noqa
        if far:
            p.update(z=rng.choice([rng.randint(9, 20), rng.randint(45, 140), rng.randint(140, 320)]), m=10 ** rng.uniform(-1.5, 1.4), al=rng.uniform(12, 30) * DEG,
                     x=rng.choice([0, rng.uniform(-0.6, 0.9)]), bl=rng.choice([0, rng.uniform(-0.05, 0.15)]), cr=rng.choice([0, rng.uniform(0, 250)]),
                     anc=rng.choice([0, 1, rng.uniform(-1, 2)]))
        p["h"] = p["m"] * rng.uniform(*((0.1, 12) if far else (0.5, 4)))
        if kind in ("ring", "helring", "cycring"):
            p.update(ring=True, z=rng.randint(30, rng.choice([160, 320]) if far else 80), ha=rng.choice([1.2, rng.uniform(1.0, 1.3)]), hd=rng.choice([1.0, rng.uniform(0.8, 1.0)]), ho=-2.0, uc=False)
        if kind == "ring":
            p["ho"] = -rng.uniform(1.8, 3.5)
        if kind in ("helical", "helring"):
            p.update(beta=lean(), hb=rng.random() < 0.3)
        if kind in ("involute", "cycloid", "cycring") and rng.random() < 0.5:
            p["beta"] = lean()
        if kind in ("bevel", "cycbevel"):
            p.update(gamma=rng.uniform(*((7, 83) if far else (15, 70))) * DEG, h=p["m"] * rng.uniform(0.3, 2.5), x=rng.choice([0, 0, rng.uniform(-0.2, 0.3)]))
            if rng.random() < 0.4:
                p["beta"] = lean()
        if kind.startswith("cyc"):
            p.update(x=0.0, al=0.0)
        if p["hd"] - p["x"] < 0.05 or p["ha"] + p["x"] < 0.05:
            continue  # the pitch circle lies between root and tip
        cb = math.cos(p["beta"]) if kind in ("helical", "helring") else 1.0
        p["cb"] = cb
        if p["al"]:
            zv = p["z"] / math.cos(p["gamma"])
            if tip_angle(zv, p["x"] * cb, math.tan(p["al"]) / cb, (p["ha"] + p["x"]) * cb + 0.2, p["bl"] + p["cr"] / 1000) < 0.1:
                continue
            if kind == "bevel":
                # the root cone clear of the cusp of the octoid (numerically tangent otherwise)
                R = zv / 2 / math.tan(p["gamma"])
                base = math.asin(math.sin(p["gamma"]) * math.cos(p["al"]))
                if abs(p["gamma"] - (p["hd"] - p["x"]) / R - base) * R < 0.05:
                    continue
        return p
    raise vf.Broken("no admissible parameters for " + kind)


def make(p, **extra):
    gg = vf.load()
    kind = p["kind"]
    k = dict(number_of_teeth=p["z"], module=p["m"], height=p["h"], z_anchor=p["anc"], addendum_coefficient=p["ha"],
             dedendum_coefficient=p["hd"], backlash=p["bl"], crowning=p["cr"])
    if not kind.startswith("cyc"):
        k.update(pressure_angle=p["al"], profile_shift=p["x"], enable_undercut=p["uc"])
    k.update(extra)
    if kind == "spur":
        return gg.SpurGear(**k)
    if kind == "involute":
        return gg.InvoluteGear(helix_angle=p["beta"], **k)
    if kind == "ring":
        return gg.SpurRingGear(outside_ring_coefficient=-p["ho"], **k)
    if kind == "helical":
        return gg.HelicalGear(helix_angle=p["beta"], herringbone=p["hb"], **k)
    if kind == "helring":
        return gg.HelicalRingGear(helix_angle=p["beta"], herringbone=p["hb"], **k)
    if kind == "bevel":
        return gg.BevelGear(helix_angle=p["beta"], cone_angle=2 * p["gamma"], **k)
    return gg.CycloidGear(helix_angle=p["beta"], cone_angle=2 * p["gamma"], inside_teeth=p["ring"], **k)


def put(g, rng):
    import numpy as np

    t = core_of(g).transform
    g.center = np.array([rng.uniform(-60, 60) for _ in range(3)])
    t.orientation = rand_rot(rng)
    g.angle = rng.uniform(-7, 7)


def textbook(p, ratio):
    """radii (outside, root, pitch, tip), cone angles and axial offsets of the circles at a section"""
    mt = p["m"] / p["cb"]
    rp = p["z"] / 2 * mt
    ha, hd, ho = (p["ha"] + p["x"]) * p["m"], (p["hd"] - p["x"]) * p["m"], p["ho"] * mt
    s = (ratio - p["anc"]) * p["h"]
    if not p["gamma"]:
        return dict(r=[rp - ho, rp - hd, rp, rp + ha], cone=[0] * 4, ax=[s] * 4)
    R = rp / math.sin(p["gamma"])
    f = 1 - s / R
    cones = [p["gamma"] + d / R for d in (-ho, -hd, 0, ha)]
    return dict(r=[R * f * math.sin(c) for c in cones], cone=cones,
                ax=[R * math.cos(p["gamma"]) - R * f * math.cos(c) for c in cones])


def radii(item):
    import numpy as np

    rng = random.Random(item["seed"])
    p = params(rng, item["kind"])
    g = make(p)
    put(g, rng)
    ratio = rng.choice([0, 1, 0.5, rng.random()])
    u = g.rp
    n = lambda v: vf.q(v / u)
    w = textbook(p, ratio)
    w0, w1 = textbook(p, 0), textbook(p, 1)
    zz = g.p2z(ratio)
    rd = g.radii_data_gen(zz)
    rec = dict(kind="radii", what=dict(p, seed=item["seed"]), rp=n(rd.r_p), wp=n(w["r"][2]), ra=n(rd.r_a), wa=n(w["r"][3]), rd=n(rd.r_d),
               wd=n(w["r"][1]), ro=n(rd.r_o), wo=n(w["r"][0]), max=n(g.max_outside_radius),
               wmax=n(max(w0["r"][3], w1["r"][3], w0["r"][0], w1["r"][0])), addr=n(g.addendum_radius), wa0=n(w0["r"][3]),
               dedr=n(g.dedendum_radius), wd0=n(w0["r"][1]))
    slack = 0
    if p["kind"] == "bevel" and p["uc"]:
        # an undercut flank ends in a trochoid tangent to the root cone: the root is found up to 2e-3 modules
        slack = vf.q(2e-3 * p["m"] / u)
    rec["slack"] = slack
    out = [rec]
    if p["gamma"]:
        ax = core_of(g).transform.z_axis
        cent = [float(np.dot(c.center - g.center, ax)) for c in (rd.r_o_curve, rd.r_d_curve, rd.r_p_curve, rd.r_a_curve)]
        out.append(dict(kind="cones", what=dict(p, seed=item["seed"]), cones=[vf.q(c) for c in g.cone_angles_at_z(zz)],
                        wcones=[vf.q(c) for c in w["cone"]], cent=[n(c) for c in cent], wcent=[n(c) for c in w["ax"]], slack=slack))
        for name, ra in (("cone_angle_limits_bottom", 0), ("cone_angle_limits_top", 1)):
            out.append(dict(kind="cones", what=dict(p, seed=item["seed"]), cones=[vf.q(c) for c in getattr(g, name)],
                            wcones=[vf.q(c) for c in textbook(p, ra)["cone"]], cent=[0], wcent=[0], slack=slack))
    # the same gear scaled: all lengths in proportion
    f = rng.choice([2.0, 0.5, 3.7, 10 ** rng.uniform(-1, 1)])
    g2 = make(dict(p, m=p["m"] * f, h=p["h"] * f))
    qs = ["rp", "addendum_radius", "dedendum_radius", "max_outside_radius", "z_height"]
    if p["al"] and not p["gamma"]:
        qs.append("r_base")
    out.append(dict(kind="prop", what=dict(p, seed=item["seed"], f=f), got=[vf.q(getattr(g2, a) / g2.rp) for a in qs], want=[n(getattr(g, a)) for a in qs]))
    return dict(bad=[], steps=len(out), rec=out, count={p["kind"]: 1})


def canaries(recs):
    r = next(x for x in recs if x["kind"] == "radii")
    c = next(x for x in recs if x["kind"] == "cones")
    q = next(x for x in recs if x["kind"] == "prop")
    return [dict(r, ra=r["ra"] + 50), dict(r, rd=r["rd"] - 50), dict(r, max=r["max"] + 20), dict(r, ro=r["ro"] + 20), dict(r, dedr=0),
            dict(c, cones=[c["cones"][0] + 100] + c["cones"][1:]), dict(c, cent=[x + 30 for x in c["cent"]]), dict(q, got=[x + 30 for x in q["got"]])]


def describe(r):
    import json
    return json.dumps(r, default=str)
