"""Generating curves and real tooth flanks (P25): records for MathObs.tla."""
import math
import random

import numpy as np

import dimobs
import vf

PI = math.pi
U = 1e-9
X, Z = np.array([1.0, 0, 0]), np.array([0, 0, 1.0])


def unit(v):
    return v / np.linalg.norm(v)


def rot(axis, a, v):
    k = unit(np.asarray(axis, float))
    v = np.asarray(v, float)
    return v * math.cos(a) + np.cross(k, v) * math.sin(a) + k * np.dot(k, v) * (1 - math.cos(a))


def diff(f, t, h=1e-4):
    """derivative of fourth order"""
    return (8 * (f(t + h) - f(t - h)) - (f(t + 2 * h) - f(t - 2 * h))) / (12 * h)


def generating(job):
    """involutes and cycloids in the plane and on the sphere, as functions and as curves"""
    vf.load()
    import gggears.curve as crv
    import gggears.function_generators as fg

    rng = random.Random(job["seed"])
    what = job["what"]
    k = 10 ** rng.uniform(-0.5, 1.5)
    r = k * rng.uniform(0.5, 2)
    a = rng.uniform(-4, 4)
    zo = rng.choice([0, rng.uniform(-2, 2) * k])
    v = np.array([rng.uniform(-0.3, 0.3) * k for _ in range(3)]) if rng.random() < 0.4 else np.zeros(3)
    sph = what in ("involute_sphere", "cycloid_cone", "octoid")
    C, R, cen = 0.0, None, None
    if sph and not (what != "octoid" and rng.random() < 0.15):
        R = r / math.sin(rng.uniform(0.15, 1.35))
        C = 1 / R * (1 if what == "octoid" else rng.choice([1, 1, -1]))
        cen = np.array([0, 0, math.sqrt(R * R - r * r) * (1 if C > 0 else -1) + zo])
    size = 5 * k + (R or 0)
    t0, t1 = sorted(rng.uniform(-1.2, 1.2) for _ in range(2))
    if t1 - t0 < 0.3:
        t1 = t0 + 0.3
    if what == "octoid":
        al = rng.uniform(10, 30) * PI / 180
        f = lambda t: fg.octoid(t, base_rad=r, sphere_rad=R, alpha=al, angle=a, z_offs=zo)  # noqa
        c = crv.OctoidCurve(r=r, c_sphere=C, t0=t0, t1=t1, angle=a, alpha=al, z_offs=zo)
        gam = math.asin(r / R)
        pit = lambda t: np.array([r * math.cos(t), r * math.sin(t), zo])  # noqa
        crown = lambda t: rot(Z, t, np.array([math.cos(gam), 0, math.sin(gam)]))  # noqa  axis of the crown gear
        ns, contact = {1: [], -1: []}, 0.0
        sphere = 0.0
        for t in [0.0] + [rng.uniform(t0, t1) for _ in range(6)]:
            p, d = np.asarray(f(t)) - cen, diff(f, t)
            sphere = max(sphere, abs(np.linalg.norm(p) - R) / size)
            if np.linalg.norm(d) < 0.05 * r:
                continue
            d = unit(d)
            n = unit(np.cross(unit(p), d))
            for s in ns:
                # normal of the flank in the crown gear's frame
                ns[s].append(rot(Z, -(t + a), rot(crown(t + a), s * t * math.sin(gam), n)))
            # the normal plane of the flank at the contact contains the pitch line
            contact = max(contact, abs(np.dot(d, unit(pit(t + a) - cen))))
        conj = min(max(min(np.abs(x - w[0]).max(), np.abs(x + w[0]).max()) for x in w) for w in ns.values())
        p0 = np.asarray(f(0.0))
        d0 = unit(diff(f, 0.0))
        mer = unit(np.cross(np.cross(p0 - cen, Z), p0 - cen))
        press = abs(math.acos(min(1, abs(np.dot(d0, mer)))) - al)
        start = max(np.linalg.norm(p0 - pit(a)), np.linalg.norm(np.asarray(c(0.0)) - f(t0)), np.linalg.norm(np.asarray(c(1.0)) - f(t1))) / size
        rec = dict(kind="octoid", sphere=vf.q(sphere, U), start=vf.q(start, U), pressure=vf.q(press, U), conj=vf.q(conj, U), contact=vf.q(contact, U))
    else:
        rc = None
        if what in ("involute_circle", "involute_sphere"):
            if what == "involute_circle":
                f = lambda t: fg.involute_circle(t, r=r, angle=a, v_offs=v, z_offs=zo)  # noqa
                c = crv.InvoluteCurve(r=r, t0=t0, t1=t1, angle=a, v_offs=v, z_offs=zo)
            else:
                f = lambda t: fg.involute_sphere(t, r=r, C=C, angle=a, v_offs=v, z_offs=zo)  # noqa
                c = crv.SphericalInvoluteCurve(r=r, c_sphere=C, t0=t0, t1=t1, angle=a, v_offs=v, z_offs=zo)
        else:
            rc = rng.choice([-1, 1]) * r * rng.uniform(0.1, 0.45)
            if what == "cycloid_circle":
                f = lambda t: fg.cycloid_circle(t, rb=r, rc=rc, angle=a, v_offs=v, z_offs=zo)  # noqa
                c = crv.CycloidCurve(rb=r, rc=rc, angle=a, t0=t0, t1=t1, v_offs=v, z_offs=zo)
            else:
                f = lambda t: fg.cycloid_cone(t, rb=r, rc=rc, C=C, angle=a, v_offs=v, z_offs=zo)  # noqa
                c = crv.CycloidConicCurve(rb=r, rc=rc, C=C, angle=a, t0=t0, t1=t1, v_offs=v, z_offs=zo)
        free = not v.any()
        roll = shape = unroll = 0.0
        p0 = np.asarray(f(0.0))
        base = lambda t: np.array([r * math.cos(t + a), r * math.sin(t + a), zo])  # noqa
        start = max(np.linalg.norm(np.asarray(c(0.0)) - f(t0)), np.linalg.norm(np.asarray(c(1.0)) - f(t1))) / size
        if free:
            start = max(start, np.linalg.norm(p0 - base(0)) / size)
        elif not C:
            start = max(start, np.linalg.norm(p0 - base(0) - rot(Z, a, v)) / size)
        # the traced point keeps its distance to the instantaneous centre: with an offset only the rolling law is claimed
        for t in [rng.uniform(t0, t1) for _ in range(6)]:
            p, d, T = np.asarray(f(t)), diff(f, t), base(t)
            if C:
                roll = max(roll, abs(np.dot(d, unit(T - cen))) / size, abs(np.dot(d, p - cen)) / size / (R + abs(v).max()))
                shape = max(shape, abs(np.linalg.norm(p - cen) - np.linalg.norm(p0 - cen)) / size)
                if free:
                    shape = max(shape, abs(np.linalg.norm(p - cen) - R) / size)
            else:
                roll = max(roll, abs(np.dot(d, p - T)) / size / k, abs(d[2]) / size)
                shape = max(shape, abs(p[2] - zo - v[2]) / size)
            if not free:
                continue
            if rc is None:
                if C:
                    ang = math.atan2(np.linalg.norm(np.cross(p - cen, T - cen)), np.dot(p - cen, T - cen))
                    unroll = max(unroll, abs(ang - abs(t) * r / R))
                    # the arc is rolled off against the turning direction
                    unroll = max(unroll, 0.0 if abs(t) < 0.05 or np.dot(p - T, np.cross(Z, T)) * t < 0 else 1.0)
                else:
                    unroll = max(unroll, np.linalg.norm(p - T - (-t) * np.cross(Z, T - [0, 0, zo])) / size)
            else:
                # chord of the rolling circle subtended by the rolled arc
                unroll = max(unroll, abs(np.linalg.norm(p - T) - 2 * abs(rc) * abs(math.sin(t * r / rc / 2))) / size)
                # the rolling circle lies outside the base circle for rc > 0, inside for rc < 0
                hgt = np.linalg.norm(p[:2]) - r if not C else r * (math.acos(np.dot(unit(p - cen), -Z if C > 0 else Z)) - math.asin(r / R))
                unroll = max(unroll, 0.0 if hgt * rc > -1e-7 * size * size else 1.0)
        rec = dict(kind="curve", start=vf.q(start, U), roll=vf.q(roll, U), shape=vf.q(shape, U), unroll=vf.q(unroll, U))
    rec["what"] = dict(f=what, r=r, C=C, a=a, v=v.tolist(), zo=zo, seed=job["seed"])
    return dict(bad=[], rec=[rec], count={what: 1})


def flank(job):
    """the flank of a tooth of a real gear at some section"""
    gg = vf.load()
    rng = random.Random(job["seed"])
    kind = job["kind"]
    p = dimobs.params(rng, kind)
    p["cr"] = 0.0
    if kind.startswith("cyc"):
        cin, cout = rng.uniform(0.2, 0.5), rng.uniform(0.2, 0.5)
        g = dimobs.make(p, inside_cycloid_coefficient=cin, outside_cycloid_coefficient=cout, root_fillet=0.0, tip_fillet=0.0)
    else:
        g = dimobs.make(p, root_fillet=0.0, tip_fillet=0.0)
    ratio = rng.choice([0, 1, 0.5, rng.random()])
    pr = g.gearcore.curve_gen_at_z(g.p2z(ratio))
    tc = pr.tooth_curve
    rp = p["z"] / 2  # the core works in transverse modules
    ha, hd = (p["ha"] + p["x"]) * p["cb"], (p["hd"] - p["x"]) * p["cb"]
    gam, ta = p["gamma"], math.tan(p["al"]) / p["cb"]
    al = math.atan(ta)
    apex = np.array([0, 0, rp / math.tan(gam)]) if gam else None
    R = rp / math.sin(gam) if gam else None
    # distance from the pitch circle, outwards
    if gam:
        hgt = lambda q: R * (math.acos(np.dot(unit(q - apex), -Z)) - gam)  # noqa
    else:
        hgt = lambda q: math.hypot(q[0], q[1]) - rp  # noqa
    S = np.linspace(0.0, 1.0, 200)
    pts = np.array([tc(float(s)) for s in S])
    H = np.array([hgt(q) for q in pts])
    lo, sev = -hd, 0.0
    if not kind.startswith("cyc"):
        base = (R * (math.asin(math.sin(gam) * math.cos(al)) - gam)) if gam else rp * (math.cos(al) - 1)
        lo = max(lo, base)
        if p["uc"]:
            # how far the generating rack reaches below the base tangent decides how high the undercut climbs
            sev = hd - rp / math.cos(gam) * math.sin(al) ** 2
            lo = max(lo, 0.0 + max(0, -p["x"]) * 0.2, 0.45 * (sev - 0.4))
    lo += 0.08
    ok = [s for s, h in zip(S, H) if lo < h < ha - 0.02 and 0.02 < s < 0.98 and abs(h) > 0.03]
    if len(ok) < 3:
        return dict(bad=[], rec=[], count={"skipped": 1})
    f = lambda s: np.asarray(tc(float(s)))  # noqa
    # the pitch point
    i = int(np.argmin(np.abs(H)))
    a_, b_ = S[max(0, i - 2)], S[min(len(S) - 1, i + 2)]
    for _ in range(80):
        m = (a_ + b_) / 2
        if hgt(f(m)) < 0:
            a_ = m
        else:
            b_ = m
    q0 = f(m)
    law = []
    if kind.startswith("cyc"):
        phi0 = math.atan2(q0[1], q0[0])
        # tangent to the radius: one sided differences away from the joint of both cycloids
        e = 2e-3
        dirs = [unit(f(m + e) - f(m + e / 2)), unit(f(m - e / 2) - f(m - e))]
        mer = unit(np.cross(np.cross(q0 - apex, Z), q0 - apex)) if gam else unit(np.array([q0[0], q0[1], 0]))
        press = max(math.acos(min(1, abs(np.dot(d, mer)))) for d in dirs)
        # where the flank has risen by h over the pitch circle, the chord of the rolling circle has turned by th
        ptol = 0.0
        for w, rc in ((m + e, cout), (m - e, cin)):
            th = math.asin(min(1.0, math.sqrt(abs(hgt(f(w))) / (2 * rc * rp))))
            ptol = max(ptol, th * (1 + 2 * rc) * 1.2)
        ptol = vf.q(ptol + 2e-3, U)
    else:
        d = unit(diff(f, m, 2e-4))
        mer = unit(np.cross(np.cross(q0 - apex, Z), q0 - apex)) if gam else unit(np.array([q0[0], q0[1], 0]))
        press = abs(math.acos(min(1, abs(np.dot(d, mer)))) - al)
        if p["uc"] and sev > 0.55:
            press = 0.0  # the pitch point may be cut away
        ptol = vf.q(1e-4, U)
    ref = None
    for s in rng.sample(ok, min(6, len(ok))):
        q = f(s)
        d = unit(diff(f, s, 2e-4))
        h = hgt(q)
        if hgt(q + 1e-3 * d) < h:
            d = -d
        if kind.startswith("cyc"):
            rc = (cout if h > 0 else cin) * rp
            # where the normal meets the pitch circle
            if gam:
                # unit x: x.d = 0 and x.Z = -cos(gam)
                e1 = unit(np.cross(d, np.cross(Z, d)))
                e2 = np.cross(d, e1)
                c1 = -math.cos(gam) / np.dot(e1, Z)
                if abs(c1) > 1:
                    law.append(vf.q(1, U))
                    continue
                cand = [apex + R * (c1 * e1 + w * math.sqrt(1 - c1 * c1) * e2) for w in (1, -1)]
            else:
                nn = np.array([-d[1], d[0], 0])
                bq, cq = np.dot(q[:2], nn[:2]), q[0] ** 2 + q[1] ** 2 - rp * rp
                D = bq * bq - cq
                if D < 0:
                    law.append(vf.q(1, U))
                    continue
                cand = [np.array([q[0], q[1], 0]) + (-bq + w * math.sqrt(D)) * nn for w in (1, -1)]
            T = min(cand, key=lambda c: np.linalg.norm(c - q))
            arc = rp * abs(math.atan2(T[1], T[0]) - phi0)
            ch = np.linalg.norm(T - q)
            law.append(vf.q((2 * rc * math.sin(arc / rc / 2) - ch), U))
        elif gam:
            # octoid: tangent plane at rest in the frame of the crown gear
            e1 = unit(np.cross(d, np.cross(Z, d)))
            e2 = np.cross(d, e1)
            c1 = -math.cos(gam) / np.dot(e1, Z)
            if abs(c1) > 1:
                law.append(vf.q(1, U))
                continue
            cand = [c1 * e1 + w * math.sqrt(1 - c1 * c1) * e2 for w in (1, -1)]
            T = min(cand, key=lambda c: np.linalg.norm(c - unit(q - apex)))
            phi = math.atan2(T[1], T[0])
            n = unit(np.cross(unit(q - apex), d))
            if ref is None:
                dd = unit(diff(f, m, 2e-4))
                if hgt(q0 + 1e-3 * dd) < 0:
                    dd = -dd
                ref = (math.atan2(q0[1], q0[0]), unit(np.cross(unit(q0 - apex), dd)))
            dphi = phi - ref[0]
            k = rot(Z, phi, np.array([math.cos(gam), 0, math.sin(gam)]))
            w = rot(Z, -dphi, rot(k, dphi * math.sin(gam), n))
            w2 = rot(Z, -dphi, rot(k, -dphi * math.sin(gam), n))
            law.append(vf.q(min(np.abs(w - ref[1]).max(), np.abs(w2 - ref[1]).max()), U))
        else:
            # the normal touches the base circle; the tooth gets thinner outwards
            law.append(vf.q((np.dot(q[:2], d[:2]) - rp * math.cos(al)) / rp, U))
            if q[0] * d[1] - q[1] * d[0] <= 0:
                law[-1] = vf.q(1, U)
    tol = vf.q(2e-4 if kind.startswith("cyc") or gam else 2e-5, U)
    return dict(bad=[], rec=[dict(kind="flank", pressure=vf.q(press, U), ptol=ptol, law=law, tol=tol, what=dict(p, ratio=ratio, seed=job["seed"]))], count={"flank " + kind: 1})
