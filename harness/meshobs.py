"""Random (non-lattice) mesh calls on real gears, measured in the frame of the base gear."""
import math
import random

import vf
from placement import core_of, get

PI = math.pi
DEG = PI / 180


def inv(a):
    return math.tan(a) - a


def inv_inverse(v):
    lo, hi = 0.0, 1.55
    for _ in range(200):
        mid = (lo + hi) / 2
        if inv(mid) < v:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


def involute_distance(z1, z2, m, al, x1, x2, b=0.0, ring=False, bl1=0.0, bl2=0.0):
    """centre distance at which the play along the line of action is b; textbook formulas.
    (x: profile shift coefficients, bl: tooth thinning per flank in module units)"""
    # half tooth angles at the pitch circle
    s1 = PI / 2 / z1 + x1 * math.tan(al) * 2 / z1 - bl1 * 2 / z1
    s2 = PI / 2 / z2 + x2 * math.tan(al) * 2 / z2 - bl2 * 2 / z2
    rb1, rb2 = m * z1 / 2 * math.cos(al), m * z2 / 2 * math.cos(al)
    # half tooth angle on the base circle: s + inv(al)
    if not ring:
        # on the operating pitch circles: thickness1 + thickness2 + backlash = pitch
        # z1*(s1 - (inv w - inv al)) + z2*(...) = pi - b/(m cos al)
        tot = z1 * (s1 + inv(al)) + z2 * (s2 + inv(al)) - PI + b / (m * math.cos(al))
        w = inv_inverse(tot / (z1 + z2))
        return (rb1 + rb2) / math.cos(w)
    # ring (index 2, s2 is half the space width): space = thickness + backlash
    # z2*(s2 + inv al - inv w) - z1*(s1 + inv al - inv w) = b/(m cos al)
    tot = z2 * (s2 + inv(al)) - z1 * (s1 + inv(al)) - b / (m * math.cos(al))
    w = inv_inverse(tot / (z2 - z1))
    return (rb2 - rb1) / math.cos(w)


def rand_rot(rng):
    from scipy.spatial.transform import Rotation

    qv = [rng.gauss(0, 1) for _ in range(4)]
    return Rotation.from_quat(qv).as_matrix()


def rand_module(rng):
    """mostly everyday modules, sometimes watch gears or mill gears"""
    return rng.choice([0.5, 1.0, 1.75, 2.0, 3.3, 10 ** rng.uniform(-1.3, 1.1), 10 ** rng.uniform(-1.3, 1.1)])


def ring_angle(z1, z2, m, al, x1, x2, b, bl1, bl2):
    """argument of the inverse involute function for a ring pair (infeasible when not positive)"""
    s1 = PI / 2 / z1 + x1 * math.tan(al) * 2 / z1 - bl1 * 2 / z1
    s2 = PI / 2 / z2 + x2 * math.tan(al) * 2 / z2 - bl2 * 2 / z2
    return (z2 * (s2 + inv(al)) - z1 * (s1 + inv(al)) - b / (m * math.cos(al))) / (z2 - z1)


def scramble(g, rng, axis_only=False):
    import numpy as np

    t = core_of(g).transform
    w = rng.choice([0, 60, 60, 60, 700])
    g.center = np.array([rng.uniform(-w, w) for _ in range(3)])
    t.orientation = rand_rot(rng)
    t.angle = rng.choice([1, 1, 25]) * rng.uniform(-8, 8)


def world_phase(g, z, d):
    """phase of the gear in the world direction d in teeth (0 = on the reference tooth)"""
    import numpy as np

    c, o, a = get(g)
    v = o.T @ d
    return ((math.atan2(v[1], v[0]) - a) * z / (2 * PI)) % 1.0


def rigid(o):
    import numpy as np

    return float(np.abs(o @ o.T - np.eye(3)).max() + abs(np.linalg.det(o) - 1))


def moved(b, a):
    import numpy as np

    return 0 if (np.array_equal(b[0], a[0]) and np.array_equal(b[1], a[1]) and b[2] == a[2]) else 1


def rand_dir(rng, o, scale=True):
    import numpy as np

    th = rng.uniform(-PI, PI)
    d = o @ np.array([math.cos(th), math.sin(th), 0.0])
    return d, (d * rng.uniform(0.2, 5.0) if scale else d)


def parallel(item):
    """one random cylindrical pair (fam: spur, ring, cycloid, cycring, helical, helring, core)"""
    import numpy as np

    rng = random.Random(item["seed"])
    gg = vf.load()
    fam, kind = item["fam"], item["kind"]
    m = rand_module(rng)
    al = rng.choice([14.5, 20, 20, 25, rng.uniform(12, 30)]) * DEG
    ring = fam.endswith("ring")
    z1 = rng.choice([rng.randint(12, 40), rng.randint(12, 40), rng.randint(60, 110), rng.randint(6, 11), rng.randint(110, 300)])
    z2 = z1 + rng.choice([rng.randint(12, 40), rng.randint(3, 11), rng.randint(40, 150)]) if ring else rng.choice([rng.randint(12, 60), rng.randint(6, 11), rng.randint(60, 300)])
    m = min(m, 3000 / (z1 + z2))
    x1 = rng.choice([0, 0, rng.uniform(-0.3, 0.5)])
    x2 = rng.choice([0, -x1, rng.uniform(-0.3, 0.5)])
    b = bias = 0.0
    swap = rng.random() < 0.5
    slack = 0
    extra = {}
    if fam in ("spur", "ring"):
        b = rng.choice([0.0, 0.0, rng.uniform(0.0, 0.15), rng.uniform(0.15, 1.5)]) * m
        if ring:
            x2 = rng.choice([x1, x1 + rng.uniform(0, 0.2)])
        uc = rng.random() < 0.5
        bl1, bl2 = rng.choice([0, 0, 0.02]), rng.choice([0, 0.03])
        for _ in range(30):
            # keep a ring pair feasible
            if not ring or inv(6 * DEG) < ring_angle(z1, z2, m, al, x1, x2, b, bl1, -bl2) < inv(48 * DEG):
                break
            b, x2, bl1, bl2 = b / 2, x1, bl1 / 2, bl2 / 2
        k = dict(module=m, pressure_angle=al, enable_undercut=uc, height=rng.uniform(0.5, 9) * m,
                 z_anchor=rng.choice([0, 0.5, 1]), crowning=rng.choice([0, rng.uniform(0, 150)]))
        g1 = gg.SpurGear(number_of_teeth=z1, profile_shift=x1, backlash=bl1, **k)
        if ring:
            g2 = gg.InvoluteGear(number_of_teeth=-z2, profile_shift=x2, backlash=-bl2, **k) \
                if rng.random() < 0.5 else gg.SpurRingGear(number_of_teeth=z2, profile_shift=x2, backlash=-bl2, **k)
            dist = involute_distance(z1, z2, m, al, x1, x2, b, True, bl1, -bl2)
        else:
            g2 = gg.InvoluteGear(number_of_teeth=z2, profile_shift=x2, backlash=bl2, **k)
            dist = involute_distance(z1, z2, m, al, x1, x2, b, False, bl1, bl2)
    elif fam in ("cycloid", "cycring"):
        k = dict(module=m, height=rng.uniform(0.5, 5))
        g1 = gg.CycloidGear(number_of_teeth=z1, **k)
        g2 = gg.CycloidGear(number_of_teeth=-z2 if ring else z2, **k)
        dist = m * (z2 - z1) / 2 if ring else m * (z1 + z2) / 2
    elif fam in ("helical", "helring"):
        be = rng.choice([-1, 1]) * rng.choice([rng.uniform(3, 40), rng.uniform(0.2, 60)]) * DEG
        k = dict(module=m, pressure_angle=al, height=rng.uniform(0.5, 5) * m, herringbone=rng.random() < 0.3,
                 z_anchor=rng.choice([0, 0.5, 1]), crowning=rng.choice([0, rng.uniform(0, 100)]))
        g1 = gg.HelicalGear(number_of_teeth=z1, helix_angle=be, profile_shift=x1, **k)
        if ring:
            g2 = gg.HelicalRingGear(number_of_teeth=z2, helix_angle=be, profile_shift=x1, **k)
            x2 = x1
        else:
            g2 = gg.HelicalGear(number_of_teeth=z2, helix_angle=-be, profile_shift=x2, **k)
        mt, at, cb = m / math.cos(be), math.atan(math.tan(al) / math.cos(be)), math.cos(be)
        dist = involute_distance(z1, z2, mt, at, x1 * cb, x2 * cb, 0.0, ring)
    else:  # core
        from gggears.gggears_base_classes import GearToothParam

        def core(z, r):
            return gg.Gear(z_vals=np.array([0.0, 1.0]), module=m, tooth_param=GearToothParam(z, inside_teeth=r))

        g1, g2 = core(z1, False), core(z2, ring)
        dist = m * (z2 - z1) / 2 if ring else m * (z1 + z2) / 2
    mover, base, zm, zb = (g2, g1, z2, z1) if swap else (g1, g2, z1, z2)
    scramble(base, rng)
    scramble(mover, rng)
    before = get(base)
    unit = fam in ("cycloid", "cycring", "core", "corering")
    d, arg = rand_dir(rng, before[1], scale=not unit)
    if b:
        mover.mesh_to(base, target_dir=arg, backlash=b)
    else:
        mover.mesh_to(base, target_dir=arg)
    after = get(base)
    c, o, a = get(mover)
    off = c - before[0]
    along = float(off @ d)
    perp = float(np.linalg.norm(off - along * d))
    sgn = 1
    if ring and swap and fam in ("ring", "helring"):
        sgn = -1
    # contact direction (from the ring's centre, or from the base towards the other gear)
    if ring:
        k = -d * sgn if swap else d
        dm, db = k, k
    else:
        dm, db = -d, d
    axisdev = float(np.linalg.norm(o[:, 2] - before[1][:, 2]))
    rec = dict(kind=kind, id=item["seed"], fam=fam, ring=int(ring), base=moved(before, after), rigid=vf.q(rigid(o)),
               along=vf.q(along), dist=vf.q(sgn * dist), perp=vf.q(perp), axisdev=vf.q(axisdev),
               cosang=vf.q(float(o[:, 2] @ before[1][:, 2])),
               slack=int(2e-6 * dist / 1e-6),
               ph1=vf.q(world_phase(mover, zm, dm)), ph2=vf.q(world_phase(base, zb, db)),
               info="z=%d/%d m=%g x=%.3f/%.3f al=%.1f b=%.4f swap=%s" % (z1, z2, m, x1, x2, al / DEG, b, swap))
    return dict(rec=[rec], steps=1)


def bevel(item):
    import numpy as np

    rng = random.Random(item["seed"])
    gg = vf.load()
    fam = item["fam"]  # bevel, bevelring, cycbevel
    m = rand_module(rng)
    z1 = rng.choice([rng.randint(10, 40), rng.randint(10, 40), rng.randint(6, 90)])
    ring = fam == "bevelring"
    if ring:
        z2 = z1 + rng.choice([rng.randint(8, 40), rng.randint(3, 90)])
        ga1 = rng.choice([rng.uniform(8, 30), rng.uniform(3, 60)]) * DEG
        s2 = math.sin(ga1) * z2 / z1
        if s2 > 0.95:
            ga1 = math.asin(0.9 * z1 / z2)
            s2 = 0.9
        ga2 = math.asin(s2)
    else:
        z2 = rng.choice([rng.randint(10, 40), rng.randint(10, 40), rng.randint(6, 90)])
        sig = rng.choice([90, rng.uniform(35, 120), rng.uniform(12, 160)]) * DEG
        ga1 = math.atan2(math.sin(sig), z2 / z1 + math.cos(sig))
        ga2 = sig - ga1
        if max(ga1, ga2) > 87 * DEG:
            sig = 80 * DEG
            ga1 = math.atan2(math.sin(sig), z2 / z1 + math.cos(sig))
            ga2 = sig - ga1
    k = dict(module=m, height=rng.uniform(0.5, 3) * m)
    if fam == "cycbevel":
        g1 = gg.CycloidGear(number_of_teeth=z1, cone_angle=2 * ga1, **k)
        g2 = gg.CycloidGear(number_of_teeth=z2, cone_angle=2 * ga2, **k)
    else:
        if rng.random() < 0.5:
            k["z_anchor"] = rng.choice([0.0, 0.5, 1.0])
        be = rng.choice([0, rng.uniform(-0.6, 0.6)])
        g1 = gg.BevelGear(number_of_teeth=z1, cone_angle=2 * ga1, helix_angle=be, **k)
        if ring:
            g2 = gg.InvoluteGear(number_of_teeth=z2, cone_angle=2 * ga2, inside_teeth=True, helix_angle=be, **k)
        else:
            g2 = gg.BevelGear(number_of_teeth=z2, cone_angle=2 * ga2, helix_angle=-be, **k)
    swap = rng.random() < 0.5
    A, B, za, zb, gaa, gab = (g2, g1, z2, z1, ga2, ga1) if swap else (g1, g2, z1, z2, ga1, ga2)
    scramble(B, rng)
    scramble(A, rng)
    before = get(B)
    d, arg = rand_dir(rng, before[1])
    if rng.random() < 0.5:
        # only the part of the direction across the axis counts
        arg = arg + rng.uniform(-3, 3) * before[1][:, 2]
    A.mesh_to(B, target_dir=arg)
    after = get(B)
    c, o, a = get(A)
    c2, o2, a2 = before
    z_ax2, z_ax1 = o2[:, 2], o[:, 2]
    s = (gab - gaa) if ring else (gaa + gab)
    r1, r2 = m * za / 2, m * zb / 2
    apex1 = c + z_ax1 * r1 / math.tan(gaa)
    apex2 = c2 + z_ax2 * r2 / math.tan(gab)
    apex_rep = float(np.linalg.norm(np.array(A.center_spherical) - apex1))
    P = c2 + d * r2
    w = P - c
    w = w - (w @ z_ax1) * z_ax1
    w = w / np.linalg.norm(w)
    rec = dict(kind="bevel", id=item["seed"], fam=fam, ring=int(ring), base=moved(before, after), rigid=vf.q(rigid(o)),
               apex=vf.q(max(float(np.linalg.norm(apex1 - apex2)), apex_rep)),
               ang=vf.q(float(z_ax1 @ z_ax2)), wantang=vf.q(math.cos(s)),
               side=vf.q(float(z_ax1 @ np.cross(d, z_ax2))),
               tilt=vf.q(float(z_ax1 @ d)), wanttilt=vf.q(-math.sin(s)),
               pitch=vf.q(float(np.linalg.norm(P - c - w * r1))),
               ph1=vf.q(world_phase(A, za, w)), ph2=vf.q(world_phase(B, zb, d)),
               info="z=%d/%d m=%g ga=%.2f/%.2f swap=%s" % (z1, z2, m, ga1 / DEG, ga2 / DEG, swap))
    return dict(rec=[rec], steps=1)


def crossed(item):
    import numpy as np

    rng = random.Random(item["seed"])
    gg = vf.load()
    fam = item["fam"]  # crossed, skewring, helical, helring
    m = rand_module(rng)
    al = rng.choice([14.5, 20, 25]) * DEG
    z1, z2 = rng.randint(10, 40), rng.choice([rng.randint(10, 40), rng.randint(40, 110)])
    b1 = rng.choice([-1, 1]) * rng.choice([rng.uniform(2, 45), rng.uniform(2, 45), rng.uniform(0.1, 68)]) * DEG
    b2 = rng.choice([-1, 1, 1]) * rng.choice([rng.uniform(2, 45), rng.uniform(2, 45), rng.uniform(0.1, 68)]) * DEG
    ring = fam in ("skewring", "helring")
    if fam == "skewring":
        b2 = b1 + rng.uniform(-8, 8) * DEG
    if fam == "helring":
        b2 = b1
    if fam == "helical":
        b2 = -b1
    k = dict(module=m, pressure_angle=al, height=rng.uniform(0.5, 3) * m, herringbone=rng.random() < 0.3,
             z_anchor=rng.choice([0, 0.5]))
    xs1 = rng.choice([0.0, rng.uniform(-0.3, 0.4)])
    xs2 = rng.choice([0.0, rng.uniform(-0.3, 0.4)])
    if ring:
        xs2 = xs1
    g1 = gg.HelicalGear(number_of_teeth=z1, helix_angle=b1, profile_shift=xs1, **k)
    k["profile_shift"] = xs2
    if ring:
        z2 = z1 + rng.randint(12, 40)
        if rng.random() < 0.5:
            g2 = gg.HelicalGear(number_of_teeth=-z2, helix_angle=b2, **k)
        else:
            g2 = gg.HelicalRingGear(number_of_teeth=z2, helix_angle=b2, **k)
    else:
        g2 = gg.HelicalGear(number_of_teeth=z2, helix_angle=b2, **k)
    swap = rng.random() < 0.5
    if fam == "skewring" and not isinstance(g2, gg.HelicalGear):
        swap = False
    A, B, za, zb, ba, bb = (g2, g1, z2, z1, b2, b1) if swap else (g1, g2, z1, z2, b1, b2)
    scramble(B, rng)
    scramble(A, rng)
    before = get(B)
    d, arg = rand_dir(rng, before[1])
    A.mesh_to(B, target_dir=arg)
    after = get(B)
    c, o, a = get(A)
    c2, o2, a2 = before
    zx2, zx1 = o2[:, 2], o[:, 2]
    ra, rb = m * za / 2 / math.cos(ba), m * zb / 2 / math.cos(bb)
    off = c - c2
    sgn = -1 if (ring and swap) else 1
    sa, sb = (xs2, xs1) if swap else (xs1, xs2)
    ra_, rb_ = ra + sa * m, rb + sb * m
    dist = abs(rb_ - ra_) if ring else ra_ + rb_
    if fam in ("helical", "helring"):
        mt, at, cb = m / math.cos(b1), math.atan(math.tan(al) / math.cos(b1)), math.cos(b1)
        dist = involute_distance(z1, z2, mt, at, xs1 * cb, xs2 * cb, 0.0, ring)
    # pitch point direction from each centre
    db = d
    da = d if ring else -d
    T2 = zx2 * math.cos(bb) + np.cross(zx2, db) * math.sin(bb)
    T1 = zx1 * math.cos(ba) + np.cross(zx1, da) * math.sin(ba)
    along = float(off @ d)
    shaft = (ba - bb) if ring else (ba + bb)
    rec = dict(kind="crossed", id=item["seed"], fam=fam, ring=int(ring), base=moved(before, after), rigid=vf.q(rigid(o)),
               along=vf.q(along), dist=vf.q(sgn * dist), slack=5, perp=vf.q(float(np.linalg.norm(off - along * d))),
               ang=vf.q(float(zx1 @ zx2)), wantang=vf.q(math.cos(shaft)), side=vf.q(float(zx1 @ d)),
               trace=vf.q(float(np.linalg.norm(np.cross(T1, T2)))),
               ph1=vf.q(world_phase(A, za, da)), ph2=vf.q(world_phase(B, zb, db)),
               info="z=%d/%d m=%g beta=%.2f/%.2f swap=%s" % (z1, z2, m, b1 / DEG, b2 / DEG, swap))
    return dict(rec=[rec], steps=1)
