"""Mesh arithmetic helpers (P22) and coordinate conversions (P23): records for MathObs.tla."""
import math
import random

import numpy as np

import vf

PI = math.pi
U = 1e-9
inv = lambda a: math.tan(a) - a  # noqa


def solve_inv(y):
    lo, hi = 0.0, 1.5
    for _ in range(200):
        mid = (lo + hi) / 2
        if inv(mid) < y:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


def helper(job):
    """tight mesh distance and its inverse, for tooth numbers, shifts and pressure angle of
    a real pair: the flank of a tooth starts at angle_base on the base circle"""
    vf.load()
    import gggears.gearmath as gm

    rng = random.Random(job["seed"])
    what = job["what"]
    if what == "invdist":
        ring = rng.random() < 0.45
        for _ in range(1000):
            z1, z2 = rng.choice([(rng.randint(6, 60), rng.randint(6, 120))] * 3 + [(rng.randint(4, 320), rng.randint(4, 320))])
            if ring and z2 < z1 + 4:
                continue
            m, al = rng.choice([1.0, rng.uniform(0.2, 8), 10 ** rng.uniform(-2, 2)]), rng.uniform(10, 30) * PI / 180
            x1, x2 = rng.choice([0, rng.uniform(-0.6, 0.8)]), rng.choice([0, rng.uniform(-0.6, 0.8)])
            ta = math.tan(al)
            s = 2 * ta * ((x2 - x1) / (z2 - z1) if ring else (x1 + x2) / (z1 + z2))
            y0 = inv(al) + s
            rb1, rb2 = z1 * m / 2 * math.cos(al), z2 * m / 2 * math.cos(al)
            span = rb2 - rb1 if ring else rb1 + rb2
            bmax = rng.uniform(0.01, 0.4) * m
            y1 = y0 - bmax / 2 / span if ring else y0 + bmax / 2 / span
            if min(y0, y1) > 1e-4 and max(y0, y1) < 0.4:
                break
        else:
            raise vf.Broken("no pair")
        # half tooth angle on the base circle (tooth space for the ring), its flank sits at minus that
        half1 = PI / 2 / z1 + 2 * x1 * ta / z1 + inv(al)
        half2 = PI / 2 / z2 + 2 * x2 * ta / z2 + inv(al)
        bl = [0.0, bmax / 3, bmax]
        size = rb1 + rb2 + m
        D, W, S, B, B2 = [], [], [], [], []
        for b in bl:
            d = float(gm.calc_involute_mesh_distance(rb1, rb2, half1, half2, 2 * PI / z2, inside_ring=ring, backlash=b))
            ds = float(gm.calc_involute_mesh_distance(rb2, rb1, half2, half1, 2 * PI / z1, inside_ring=ring, backlash=b))
            y = y0 - b / 2 / span if ring else y0 + b / 2 / span
            D.append(vf.q(d / size, U))
            W.append(vf.q(span / math.cos(solve_inv(y)) / size, U))
            S.append(vf.q(ds / size, U))
            true = span / math.cos(solve_inv(y))
            B.append(vf.q(gm.backlash_from_ax_distance(true, rb1, rb2, half1, half2, 2 * PI / z2, inside_ring=ring) / size, U))
            B2.append(vf.q(gm.backlash_from_ax_distance(true, rb2, rb1, half2, half1, 2 * PI / z1, inside_ring=ring) / size, U))
        rec = dict(kind="invdist", ring=int(ring), d=D, want=W, swapped=S, back=B, back2=B2, bl=[vf.q(b / size, U) for b in bl],
                   what=dict(z1=z1, z2=z2, m=m, al=al, x1=x1, x2=x2))
    elif what == "cones":
        z1, z2 = rng.randint(5, 200), rng.randint(5, 200)
        ax = rng.choice([PI / 2, PI / 2, PI / 3, rng.uniform(0.2, 2.6)])
        g = gm.cone_angle_from_teeth(z1, z2, ax) if ax != PI / 2 or rng.random() < 0.5 else gm.cone_angle_from_teeth(z1, z2)
        w = gm.cone_angle_from_teeth(z2, z1, ax)
        g1, g2 = float(g[0]) / 2, float(g[1]) / 2
        rec = dict(kind="cones", z1=z1, z2=z2, g1=vf.q(g1, 4 * U), g2=vf.q(g2, 4 * U), axis=vf.q(ax, 4 * U), s1=vf.q(w[0] / 2, 4 * U), s2=vf.q(w[1] / 2, 4 * U),
                   cross=vf.q((z2 * math.sin(g1) - z1 * math.sin(g2)) / (z1 + z2), U), obtuse=int(g1 > PI / 2 or g2 > PI / 2), what=dict(z1=z1, z2=z2, ax=ax))
    else:
        rp1, rp2, m = 10 ** rng.uniform(-0.5, 3), 10 ** rng.uniform(-0.5, 3), 10 ** rng.uniform(-2, 1.5)
        x1, x2 = rng.uniform(-0.6, 0.8), rng.uniform(-0.6, 0.8)
        r1, r2 = rng.choice([(False, False), (True, False), (False, True)])
        size = rp1 + rp2 + 4 * m
        got = gm.calc_nominal_mesh_distance(rp1, rp2, x1, x2, m, inside_ring_1=r1, inside_ring_2=r2)
        rec = dict(kind="nominal", got=vf.q(got / size, U), p1=vf.q((rp1 + x1 * m) / size, U), p2=vf.q((rp2 + x2 * m) / size, U),
                   sg1=-1 if r2 else 1, sg2=-1 if r1 else 1, what=dict(rp1=rp1, rp2=rp2, x1=x1, x2=x2, m=m, r1=r1, r2=r2))
    return dict(bad=[], rec=[rec], count={what: 1})


def turn(a):
    return (a + PI) % (2 * PI) - PI


def coords(job):
    vf.load()
    import gggears.function_generators as fg
    from gggears.gggears_core import GearPolarTransform

    rng = random.Random(job["seed"])
    what = job["what"]
    k = 10 ** rng.uniform(-1, 2)
    vec = lambda s=1.0: np.array([rng.uniform(-s, s) for _ in range(3)]) * k  # noqa
    n = 6
    dev = lambda a, b, s: vf.q(float(np.max(np.abs(np.asarray(a, float) - np.asarray(b, float)))) / s, U)  # noqa
    if what in ("spherical", "cylindrical"):
        cen = vec() if rng.random() < 0.7 else np.zeros(3)
        pts = []
        while len(pts) < n:
            p = vec()
            if np.hypot(*p[:2]) > 0.05 * k:
                pts.append(p + cen)
        pts = np.array(pts)
        to, fro = (fg.xyz_to_spherical, fg.spherical_to_xyz) if what == "spherical" else (fg.xyz_to_cylindrical, fg.cylindrical_to_xyz)
        keep, kc = pts.copy(), cen.copy()
        if np.allclose(cen, 0) and rng.random() < 0.5:
            f, g = to, fro
        else:
            f, g = lambda p: to(p, center=cen), lambda p: fro(p, center=cen)  # noqa
        one = np.array([f(p) for p in pts])
        if what == "spherical":
            R = np.linalg.norm(pts - cen, axis=1)
            mean = max(np.abs(one[:, 0] - R).max() / k, np.abs(np.cos(one[:, 2]) - (pts - cen)[:, 2] / R).max(),
                       max(abs(turn(a - math.atan2(d[1], d[0]))) for a, d in zip(one[:, 1], pts - cen)), 0.0 if ((one[:, 2] >= 0) & (one[:, 2] <= PI)).all() else 1.0)
        else:
            d = pts - cen
            mean = max(np.abs(one[:, 0] - np.hypot(d[:, 0], d[:, 1])).max() / k, np.abs(one[:, 2] - d[:, 2]).max() / k,
                       max(abs(turn(a - math.atan2(b[1], b[0]))) for a, b in zip(one[:, 1], d)))
        back = np.array([g(c) for c in one])
        # the other way round, from coordinates (also non-principal angles)
        cs = np.array([[rng.uniform(0.1, 2) * k, rng.uniform(-3, 3), rng.uniform(0.1, 3.0) if what == "spherical" else rng.uniform(-2, 2) * k] for _ in range(n)])
        rt = np.array([f(g(c)) for c in cs])
        wt = np.array([1 / k, 1, 1 if what == "spherical" else 1 / k])
        arr = max(dev(f(pts) * wt, one * wt, 10), dev(g(cs), np.array([g(c) for c in cs]), 10 * k))
        rec = dict(kind="convert", back=dev(back, pts, 10 * k), forth=dev(rt * wt, cs * wt, 10), meaning=vf.q(mean, U), array=arr,
                   input=0 if np.array_equal(keep, pts) and np.array_equal(kc, cen) else 1, what=dict(f=what, center=cen.tolist(), seed=job["seed"]))
    else:
        gam = rng.choice([0, 1, 1, 1]) * rng.choice([1, 1, -1]) * rng.uniform(0.15, 1.3)
        r = k * rng.uniform(0.5, 2)
        t = GearPolarTransform(cone_angle=2 * gam, base_radius=r)
        h = 0.0 if gam == 0 else r / math.tan(gam)
        R = abs(r / math.sin(gam)) if gam else None
        pts = []
        for _ in range(n):
            a, d1, d2 = rng.uniform(-3, 3), rng.uniform(-0.1, 0.1), rng.uniform(-0.1, 0.1)
            if gam == 0:
                pts.append([r * (1 + d1) * math.cos(a), r * (1 + d1) * math.sin(a), r * d2])
            else:
                g, q = abs(gam) + d1, R * (1 - d2)
                pts.append([q * math.sin(g) * math.cos(a), q * math.sin(g) * math.sin(a), h - q * math.cos(g) * (1 if gam > 0 else -1)])
        pts = np.array(pts)
        keep = pts.copy()
        one = np.array([t.polar_transform(p) for p in pts])
        back = np.array([t.inverse_polar_transform(c) for c in one])
        th = [rng.uniform(-3, 3) for _ in range(n)]
        pc = np.array([[r * math.cos(a), r * math.sin(a), 0] for a in th])
        pcc = np.array([t(p) for p in pc])
        pitch = max(np.abs(pcc[:, 2]).max() / r, np.abs(pcc[:, 0] - pcc[0, 0]).max() / r, max(abs(turn(a - b)) for a, b in zip(pcc[:, 1], th)),
                    np.abs(np.array([t.inv(c) for c in pcc]) - pc).max() / r)
        # one unit outwards: arc length on the sphere (radius in the plane)
        du, dh = rng.uniform(-0.08, 0.08) * r, rng.uniform(-0.08, 0.08) * r
        o = np.array([t.inv(c + np.array([du, 0, 0])) for c in pcc])
        hgt = np.array([t.inv(c + np.array([0, 0, dh])) for c in pcc])
        if gam == 0:
            wo = np.array([[(r + du) * math.cos(a), (r + du) * math.sin(a), 0] for a in th])
            wh = pc + np.array([0, 0, dh])
        else:
            g = abs(gam) + du / R
            wo = np.array([[R * math.sin(g) * math.cos(a), R * math.sin(g) * math.sin(a), h - R * math.cos(g) * (1 if gam > 0 else -1)] for a in th])
            ap = np.array([0, 0, h])
            wh = pc + (ap - pc) / R * dh
        cs = pcc + np.array([[rng.uniform(-0.08, 0.08) * r, 0, rng.uniform(-0.08, 0.08) * r] for _ in range(n)])
        rt = np.array([t(t.inv(c)) for c in cs])
        wt = np.array([1 / r, 1, 1 / r])
        mean = max(abs(turn(a - math.atan2(p[1], p[0]))) for a, p in zip(one[:, 1], pts))
        arr = max(dev(t(pts) * wt, one * wt, 10), dev(t.inv(cs), np.array([t.inv(c) for c in cs]), 10 * r))
        rec = dict(kind="cone", back=dev(back, pts, 10 * r), forth=dev(rt * wt, cs * wt, 10), meaning=vf.q(mean, U), array=arr, input=0 if np.array_equal(keep, pts) else 1,
                   pitch=vf.q(pitch, U), outward=dev(o, wo, r), height=dev(hgt, wh, r), what=dict(gamma=gam, r=r, seed=job["seed"]))
    return dict(bad=[], rec=[rec], count={what: 1})
