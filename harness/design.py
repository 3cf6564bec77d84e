"""Configurations for Design.tla and the driver that asks the real gears."""
import math
from fractions import Fraction as F

import vf
from placement import core_of

PI = math.pi

HELIX = [(F(1), F(0)), (F(4, 5), F(3, 4)), (F(4, 5), F(-3, 4)), (F(12, 13), F(5, 12)), (F(12, 13), F(-5, 12)), (F(24, 25), F(7, 24))]
CONE = [(F(4, 5), F(3, 5)), (F(3, 5), F(4, 5)), (F(12, 13), F(5, 13)), (F(5, 13), F(12, 13))]
TANA = [F(5, 12), F(7, 24)]
MODS = [F(1, 2), F(1), F(3, 2), F(2), F(5), F(4, 5)]

DIMS = ["pitch_radius", "rp", "module", "number_of_teeth", "teeth_act", "inside_teeth", "pitch_angle",
        "core_rp", "center"]
CYL = DIMS + ["addendum_radius", "dedendum_radius", "outside", "max_outside_radius", "r_a_at", "r_d_at", "r_p_at"]
BEV = DIMS + ["radius_spherical", "core_R", "cone_tan", "center_spherical", "core_center_sphere", "sphere_at",
              "sphere_R_at", "r_p_at"]
INV = ["helix_tan"]
SECT = ["p2z", "z_height", "point_at", "point_bottom", "point_middle", "point_top", "loc_at", "loc_bottom",
        "loc_middle", "loc_top", "scale_at", "twist_at", "half_at", "r_p_at", "circle_center", "tooth_at"]

QUERIES = {
    "P11": dict(cyl=CYL, cylinv=CYL + INV + ["r_base", "base_circle"], bev=BEV, bevinv=BEV + INV + ["gamma_tan"]),
    "P13": dict(cyl=SECT + ["face_bottom", "face_top"], cylinv=SECT + ["face_bottom", "face_top", "base_center", "base_circle"],
                bev=SECT, bevinv=SECT),
}


def tip_ok(c):
    """keep teeth that are not pointed below the tip circle (truncation would change it)"""
    z, x, ha = float(c["z"]), float(c["x"]), float(c["ha"])
    ta = float(c["ta"])
    if not ta:
        return True
    cb = float(c["cb"]) if c["normal"] else 1.0
    tat = ta / cb
    al = math.atan(tat)
    rp = z / 2
    ra = rp + (ha + x) * cb + 0.25
    rb = rp * math.cos(al)
    w = math.acos(min(1, rb / ra))
    inv = lambda a: math.tan(a) - a
    s = PI / 2 / z + x * ta * 2 / z - float(c["bl"]) * 2 / z - inv(w) + inv(al)
    if c["ring"]:
        return s > 0.05 / rp
    gap = PI / z - (PI / 2 / z + x * ta * 2 / z + inv(al))  # rough space check at the base
    return s > 0.05 / rp and gap > 0.02


def config(rng, kind):
    z = F(rng.choice([14, 17, 18, 20, 23, 28, 36, 41]))
    c = dict(kind=kind, dom="cylinv", z=z, neg=False, ring=False, m=rng.choice(MODS), normal=False, cb=F(1), tb=F(0),
             cg=F(1), sg=F(0), ta=rng.choice(TANA), x=rng.choice([F(0), F(0), F(1, 5), F(-1, 4), F(1, 3)]),
             ha=rng.choice([F(1), F(4, 5), F(9, 10)]), hd=rng.choice([F(6, 5), F(1), F(5, 4)]), ho=F(2),
             h=rng.choice([F(1), F(3, 2), F(4), F(7, 10)]), anc=rng.choice([F(0), F(1, 2), F(1), F(1, 3), F(-1, 2), F(3, 2)]),
             bl=rng.choice([F(0), F(0), F(1, 50)]), cr=rng.choice([F(0), F(0), F(40), F(100)]), hb=False, uc=True)
    if kind == "spur":
        c["uc"] = rng.random() < 0.6
    elif kind == "involute":
        c["uc"] = rng.random() < 0.5
        if rng.random() < 0.4:
            c.update(neg=rng.random() < 0.5, ring=True, ho=F(-2), z=z + 20, ha=F(6, 5), hd=F(1), uc=False)
        c["cb"], c["tb"] = rng.choice(HELIX)
    elif kind == "partial":
        c["z"] = z + rng.choice([F(1, 2), F(1, 4), F(3, 4)])
    elif kind == "ring":
        c.update(ring=True, z=z + 20, ha=F(6, 5), hd=F(1), ho=-rng.choice([F(5, 2), F(2), F(3)]), uc=False)
    elif kind == "helical":
        c["cb"], c["tb"] = rng.choice(HELIX[1:])
        c.update(normal=True, hb=rng.random() < 0.4)
    elif kind == "helring":
        c["cb"], c["tb"] = rng.choice(HELIX[1:])
        c.update(normal=True, ring=True, z=z + 20, ha=F(6, 5), hd=F(1), ho=F(-2), uc=False, hb=rng.random() < 0.4)
    if kind in ("helical", "helring") and rng.random() < 0.4:
        c["h"] = rng.choice([F(12), F(25)]) * c["m"] * c["z"]  # several stages
    elif kind == "bevel":
        c["cg"], c["sg"] = rng.choice(CONE)
        c.update(dom="bevinv", h=rng.choice([F(1), F(2), F(3, 2)]) * c["m"] / 2, uc=rng.random() < 0.6)
        if rng.random() < 0.4:
            c["cb"], c["tb"] = rng.choice(HELIX)
    elif kind in ("cycloid", "cycring", "cycbevel"):
        c.update(dom="cyl", x=F(0), ta=F(0), ha=F(1), hd=F(6, 5), uc=False)
        if kind == "cycring":
            c.update(ring=True, neg=rng.random() < 0.5, ho=F(-2), z=z + 20)
        if kind == "cycbevel":
            c["cg"], c["sg"] = rng.choice(CONE)
            c.update(dom="bev", h=rng.choice([F(1), F(2), F(3, 2)]) * c["m"] / 2)
        c["cb"], c["tb"] = rng.choice(HELIX)
    return c


KINDS = ["spur", "involute", "partial", "ring", "helical", "helring", "bevel", "cycloid", "cycring", "cycbevel"]


def configs(rng, per):
    out = []
    for k in KINDS:
        n = 0
        while n < per:
            c = config(rng, k)
            if tip_ok(c):
                out.append(c)
                n += 1
    for k in ("helical", "helring"):
        # an odd number of stages: no stage begins at mid-height
        while True:
            c = config(rng, k)
            c.update(hb=False, cr=F(0), h=height_for(c, rng.choice([16, 28])))
            if tip_ok(c):
                out.append(c)
                break
    return out


def height_for(c, twist):
    """a height over which the teeth turn by about this many radians"""
    return F(round(twist / (2 * abs(float(c["tb"] * c["cb"]))))) * c["m"] * c["z"]


def fl(r):
    return r[0] / r[1]


def make(c):
    gg = vf.load()
    f = {k: fl(v) for k, v in c.items() if isinstance(v, list)}
    z = f["z"]
    z = int(z) if z == int(z) else z
    if c["neg"]:
        z = -z
    k = dict(number_of_teeth=z, module=f["m"], height=f["h"], z_anchor=f["anc"], addendum_coefficient=f["ha"],
             dedendum_coefficient=f["hd"], backlash=f["bl"], crowning=f["cr"])
    kind = c["kind"]
    beta = math.atan(f["tb"])
    cone = 2 * math.atan2(f["sg"], f["cg"])
    if c["ta"][0]:
        k.update(pressure_angle=math.atan(f["ta"]), profile_shift=f["x"], enable_undercut=c["uc"])
    if kind == "spur":
        return gg.SpurGear(**k)
    if kind in ("involute", "partial"):
        return gg.InvoluteGear(helix_angle=beta, inside_teeth=c["ring"] and not c["neg"], **k)
    if kind == "ring":
        return gg.SpurRingGear(outside_ring_coefficient=-f["ho"], **k)
    if kind == "helical":
        return gg.HelicalGear(helix_angle=beta, herringbone=c["hb"], **k)
    if kind == "helring":
        return gg.HelicalRingGear(helix_angle=beta, herringbone=c["hb"], **k)
    if kind == "bevel":
        return gg.BevelGear(helix_angle=beta, cone_angle=cone, **k)
    return gg.CycloidGear(helix_angle=beta, cone_angle=cone, inside_teeth=c["ring"] and not c["neg"], **k)


def half_angle(g, z):
    """angle of the flank on the pitch circle, measured on the generated profile"""
    import numpy as np

    prof = core_of(g).curve_gen_at_z(z)
    rp = g.rp / g.module
    cur = prof.tooth_curve
    rad = lambda t: float(np.linalg.norm(np.asarray(cur(t))[:2])) - rp
    ts = np.linspace(0, 1, 80)
    v = [rad(t) for t in ts]
    for i in range(len(ts) - 1, 0, -1):
        if v[i - 1] <= 0 <= v[i]:
            lo, hi = ts[i - 1], ts[i]
            for _ in range(60):
                mid = (lo + hi) / 2
                lo, hi = (mid, hi) if rad(mid) < 0 else (lo, mid)
            p = np.asarray(cur(lo))
            return -math.atan2(p[1], p[0])
    return float("nan")


def loc_parts(loc):
    import numpy as np

    t = loc.wrapped.Transformation()
    m = np.array([[t.Value(r, k) for k in (1, 2, 3, 4)] for r in (1, 2, 3)])
    return m[:, 3], m[:, :3]


def ask(g, q, p):
    """the real answer; for locations (position, rotation matrix)"""
    import numpy as np

    core = core_of(g)
    z = g.p2z(p)
    if q in ("pitch_radius", "rp", "module", "number_of_teeth", "inside_teeth", "pitch_angle", "addendum_radius",
             "dedendum_radius", "max_outside_radius", "r_base", "radius_spherical", "center_spherical", "center", "z_height"):
        return getattr(g, q)
    if q == "teeth_act":
        return core.tooth_param.num_teeth_act
    if q == "outside":
        return g.radii_data_bottom.r_o
    if q == "base_circle":
        return g.circle_involute_base(p).radius
    if q == "base_center":
        return g.circle_involute_base(p).center
    if q == "core_rp":
        return core.rp
    if q in ("r_a_at", "r_d_at", "r_p_at"):
        return getattr(g.radii_data_gen(z), q[:3])
    if q == "core_R":
        return core.R
    if q == "cone_tan":
        return math.tan(g.cone_angle / 2)
    if q == "gamma_tan":
        return math.tan(g.gamma)
    if q == "helix_tan":
        return math.tan(g.helix_angle) if p < 0.5 else math.tan(g.beta)
    if q == "core_center_sphere":
        return core.center_sphere
    if q == "sphere_at":
        return core.sphere_data_at_z(z)[0]
    if q == "sphere_R_at":
        return core.sphere_data_at_z(z)[1]
    if q == "p2z":
        return z
    if q == "point_at":
        return g.center_point_at_z(z)
    if q.startswith("point_"):
        return getattr(g, "center_" + q)
    if q == "loc_at":
        return loc_parts(g.center_location_at_z(z))
    if q.startswith("loc_"):
        return loc_parts(getattr(g, "center_location_" + q[4:]))
    if q.startswith("face_"):
        return loc_parts(getattr(g, "face_location_" + q[5:]))
    if q == "scale_at":
        return g.center_transform_at_z(z).scale
    if q == "twist_at":
        return core.transform.angle + core.shape_recipe(z).transform.angle
    if q == "half_at":
        return half_angle(g, z)
    if q == "circle_center":
        return g.radii_data_gen(z).r_p_curve.center
    if q == "tooth_at":
        # frame of the section from the profile itself: the first tooth of the boundary
        prof = core.curve_gen_at_z(z)
        tr = core.transform * prof.transform
        a, b = np.asarray(prof.tooth_curve(1)), np.asarray(prof.tooth_curve_mirror(0))
        a, b = tr(a), tr(b)
        o = tr(np.zeros(3))
        zx = tr(np.array([0, 0, 1.0])) - o
        zx = zx / np.linalg.norm(zx)
        x = (a + b) / 2 - o
        x = x - zx * np.dot(x, zx)
        x = x / np.linalg.norm(x)
        return o, np.array([x, np.cross(zx, x), zx]).T
    raise vf.Broken("unknown question " + q)


TOL = 2e-6


def compare(e, got, scale):
    """distance between the specified and the real answer (relative to the gear size)"""
    import numpy as np

    t = e["t"]
    if t == "rat":
        return abs(float(got) - fl(e["v"])) / scale
    if t == "sq":
        return abs(float(got) - fl(e["v"]) / math.sqrt(fl(e["f"]))) / scale
    if t == "int":
        return abs(int(got) - e["v"])
    if t == "ang":
        return abs(float(got) - 2 * PI * fl(e["turns"]) - fl(e["rad"]))
    v = np.array([fl(x) for x in e["v"]])
    if t == "vec":
        return float(np.abs(np.asarray(got, dtype=float) - v).max()) / scale
    pos, rot = got
    a = 2 * PI * fl(e["turns"]) + fl(e["rad"])
    rz = np.array([[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1]])
    want = np.array(e["o"], dtype=float) @ rz
    return max(float(np.abs(np.asarray(pos) - v).max()) / scale, float(np.abs(rot - want).max()))


def session(item):
    """replay one behaviour of Design.tla on a freshly constructed gear"""
    import numpy as np

    c = item["cfg"]
    g = make(c)
    bad, n = [], 0
    for s in item["hist"]:
        n += 1
        if s["op"] == "put":
            g.center = np.array(s["exp"]["c"], dtype=float)
            core_of(g).transform.orientation = np.array(s["exp"]["o"], dtype=float)
            g.angle = 2 * PI * fl(s["p"])
            continue
        got = ask(g, s["q"], fl(s["p"]))
        scale = max(1.0, g.rp)
        d = compare(s["exp"], got, scale)
        tol = 2e-5 if s["q"] in ("half_at", "tooth_at") else TOL
        if c.get("uc") and s["q"] in ("r_d_at", "dedendum_radius"):
            tol = 5e-5  # the trochoid is tangent to the root circle: the point where they meet is only found to this
        if not d <= tol:
            bad.append("%s at ratio %s of %s is %s, specified %s (off by %.3g)" % (
                s["q"], s["p"], {k: (v if not isinstance(v, list) else "%s/%s" % tuple(v)) for k, v in c.items()},
                np.asarray(got[0] if isinstance(got, tuple) else got).tolist(), s["exp"], d))
    return dict(bad=bad[:4], steps=n, count={"questions": n, c["kind"]: 1})


RATIOS = [F(0), F(1), F(1, 2), F(1, 3), F(3, 4), F(1, 5)]
CENTERS = [(0, 0, 0), (7, -3, 11), (-20, 4, 1), (0, 0, -6)]
ANGLES = [F(0), F(1, 8), F(-3, 10), F(5, 12), F(4, 3)]
INVS = ("Ordered", "HeightOK", "AnchorOK", "MirrorOK", "ApexOK", "ModuleOK", "NoPlace")


def run(ctx, prop, per, rounds=1):
    """model check the design lemmas, generate and replay sessions"""
    cfgs = configs(ctx.rng, per)
    qs = {k: set(v) for k, v in QUERIES[prop].items()}
    defs = dict(Configs=set_of(cfgs), Queries=qs, Ratios=set(RATIOS), Centers=set(CENTERS), Angles=set(ANGLES))
    small = dict(defs, Centers=set(CENTERS[:2]), Angles=set(ANGLES[1:2]), Ratios=set(RATIOS[:4]))
    kw = dict(spec=("SimInit", "SimNext"), action_constraint="EmitLast")
    chunks = [cfgs[i::4] for i in range(4)]
    thunks = [lambda: ctx.mc("Design", dict(small, Configs=set_of(cfgs[:: max(1, len(cfgs) // 20)])), dict(MaxLen=1), invariants=INVS,
                             properties=("Stutter",), view="View", workers=4, timeout=1500)]
    for ch in chunks * rounds:
        thunks.append(lambda ch=ch: ctx.mc("Design", dict(defs, Configs=set_of(ch)), dict(MaxLen=99), workers=1, timeout=1500, **kw))
    outs = ctx.par(thunks, width=5)
    items = [o for out in outs[1:] for o in out]
    if len(items) != rounds * len(cfgs):
        raise vf.Broken("%d sessions for %d configurations" % (len(items), len(cfgs)))
    ctx.replay(session, items, label="session")
    return items


def set_of(cfgs):
    return vf.Raw("{" + ",\n".join(vf.tla(c) for c in cfgs) + "}")
