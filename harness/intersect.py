"""Intersections, nearest points, tangent arcs and fillets (P24): records for CurveObs.tla."""
import math
import random

import numpy as np

import vf

PI = math.pi
U = 1e-9


def unit(v):
    return v / np.linalg.norm(v)


def frame(rng):
    q, _ = np.linalg.qr(np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(3)]))
    if np.linalg.det(q) < 0:
        q[:, 0] = -q[:, 0]
    o = np.array([rng.uniform(-20, 20) for _ in range(3)]) * rng.choice([0, 1])
    if rng.random() < 0.3:
        q = np.eye(3)
    return q, o


def polar(a):
    return np.array([math.cos(a), math.sin(a), 0.0])


def seg(crv, F, p, d, length, curvature, before):
    """a piece through the plane point p with direction angle d, `before`..1-before of its
    length on both sides, straight or bent; returns the curve and its parameter at p"""
    q, o = F
    P = lambda v: q @ v + o  # noqa
    if curvature == 0:
        t = polar(d)
        return crv.LineCurve(p0=P(p - t * length * before), p1=P(p + t * length * (1 - before)))
    r = 1 / curvature
    c = p + r * polar(d + PI / 2)
    ang = length * curvature
    start = c + np.array([[math.cos(-ang * before), -math.sin(-ang * before), 0], [math.sin(-ang * before), math.cos(-ang * before), 0], [0, 0, 1]]) @ (p - c)
    return crv.ArcCurve.from_point_center_angle(p0=P(start), center=P(c), angle=ang, axis=q[:, 2])


def observe(job):
    vf.load()
    import gggears.curve as crv

    rng = random.Random(job["seed"])
    what = job["what"]
    F = frame(rng)
    q, o = F
    k = rng.choice([1.0, 1.0, 10 ** rng.uniform(-0.5, 1)])
    bend = lambda: rng.choice([0, 0, rng.choice([-1, 1]) * rng.uniform(0.05, 0.35)]) / k  # noqa
    recs = []
    if what == "intersect":
        p = np.array([rng.uniform(-3, 3), rng.uniform(-3, 3), 0]) * k
        d1, dd = rng.uniform(-PI, PI), rng.choice([-1, 1]) * rng.uniform(0.5, PI - 0.5)
        L1, L2 = rng.uniform(1, 4) * k, rng.uniform(1, 4) * k
        b1, b2 = rng.uniform(0.2, 0.8), rng.uniform(0.2, 0.8)
        c1 = seg(crv, F, p, d1, L1, bend(), b1)
        c2 = seg(crv, F, p, d1 + dd, L2, bend(), b2)
        if rng.random() < 0.3:
            # a chain with a further piece
            e = c1(1.0)
            c1 = crv.CurveChain(c1, crv.LineCurve(p0=e, p1=e + q @ polar(d1 + 0.3) * L1))
            b1 *= 0.5
        miss = rng.random() < 0.35
        size = 5 * k + 20
        if miss:
            # lift the second curve out of the plane: no intersection at all
            lift = crv.TransformedCurve(lambda x: np.asarray(x) + q[:, 2] * k * 0.7, c2)
            c2 = lift
        g = [min(0.95, max(0.05, b1 + rng.uniform(-0.15, 0.15))), min(0.95, max(0.05, b2 + rng.uniform(-0.15, 0.15)))]
        meth = rng.choice([crv.IntersectMethod.EQUALITY, crv.IntersectMethod.EQUALITY, crv.IntersectMethod.MINDISTANCE])
        r = crv.find_curve_intersect(c1, c2, guess=g, method=meth)
        gap = np.linalg.norm(c1(float(r.x[0])) - c2(float(r.x[1])))
        eq = meth == crv.IntersectMethod.EQUALITY
        if miss:
            if eq:
                recs.append(dict(kind="intersect", success=int(bool(r.success)), gap=vf.q(gap / size, U), expect=0))
            else:
                # nearest approach: exactly the lift apart
                recs.append(dict(kind="intersect", success=1, gap=vf.q((abs(gap - 0.7 * k) / size) / 10, U), expect=1))
        else:
            # the solver may be unsure about a point it has found exactly
            ok = bool(r.success) or not eq or gap < 1e-9 * size
            recs.append(dict(kind="intersect", success=int(ok), gap=vf.q(gap / size / (1 if eq else 10), U), expect=1))
    elif what == "plane":
        p = np.array([rng.uniform(-3, 3), rng.uniform(-3, 3), 0]) * k
        L, b = rng.uniform(1, 4) * k, rng.uniform(0.2, 0.8)
        d = rng.uniform(-PI, PI)
        c = seg(crv, F, p, d, L, bend(), b)
        n = unit(q @ polar(d) + 0.5 * unit(np.array([rng.gauss(0, 1) for _ in range(3)]))) * rng.choice([1.0, -1.0])
        keep = n.copy()
        off = q @ p + o
        off = off + np.cross(n, np.array([rng.uniform(-3, 3) for _ in range(3)]))
        meth = rng.choice([crv.IntersectMethod.EQUALITY, crv.IntersectMethod.EQUALITY, crv.IntersectMethod.MINDISTANCE])
        r = crv.find_curve_plane_intersect(c, plane_normal=n, offset=off, guess=min(0.95, max(0.05, b + rng.uniform(-0.15, 0.15))), method=meth)
        got = c(float(r.x[0]))
        size = 5 * k + 20
        near = np.linalg.norm(got - (q @ p + o)) < (1e-6 if meth == crv.IntersectMethod.EQUALITY else 1e-3) * size
        gap = abs(np.dot(got - off, n)) / size
        recs.append(dict(kind="intersect", success=int(bool(r.success or meth != crv.IntersectMethod.EQUALITY) and near and np.array_equal(n, keep)),
                         gap=vf.q(gap if meth == crv.IntersectMethod.EQUALITY else gap * 1e-3, U), expect=1))
        # a curve parallel to the plane never meets it
        ln = crv.LineCurve(p0=o, p1=o + q[:, 0] * k)
        r = crv.find_curve_plane_intersect(ln, plane_normal=q[:, 2], offset=o + q[:, 2] * k, guess=0.3)
        recs.append(dict(kind="intersect", success=int(bool(r.success)), gap=0, expect=0))
        # a line through the same point; another line passes by
        dirn = unit(q @ polar(d + rng.choice([-1, 1]) * rng.uniform(0.5, PI - 0.5)) + q[:, 2] * rng.uniform(-1, 1))
        off = q @ p + o + dirn * rng.uniform(-3, 3) * k
        miss = rng.random() < 0.35
        if miss:
            off = off + unit(np.cross(dirn, c.derivative(b))) * 0.6 * k
        dk, ok_ = dirn * rng.uniform(0.5, 2), off.copy()
        dkeep = dk.copy()
        r = crv.find_curve_line_intersect(c, offset=off, line_direction=dk, guess=min(0.95, max(0.05, b + rng.uniform(-0.15, 0.15))))
        got = c(float(np.ravel(r.x)[0]))
        gap = np.linalg.norm(np.cross(got - ok_, dirn)) / size
        kept = np.array_equal(dk, dkeep) and np.array_equal(off, ok_)
        if miss:
            recs.append(dict(kind="intersect", success=int(bool(r.success)), gap=0, expect=0))
        else:
            recs.append(dict(kind="intersect", success=int((bool(r.success) or gap < 1e-9) and kept), gap=vf.q(gap, U), expect=1))
    elif what == "winding":
        # a closed path in the plane, run through several times in either direction
        turns = rng.choice([-1, 1]) * rng.choice([1, 1, 2, 3])
        ctr = np.array([rng.uniform(-5, 5), rng.uniform(-5, 5), rng.uniform(-2, 2)]) * k
        rad = rng.uniform(0.5, 3) * k
        if rng.random() < 0.5:
            c = crv.ArcCurve.from_point_center_angle(p0=ctr + rad * polar(rng.uniform(-3, 3)), center=ctr, angle=2 * PI * turns)
            wind = lambda v: turns if np.linalg.norm((v - ctr)[:2]) < rad else 0  # noqa
        else:
            n = rng.randint(3, 7)
            a0 = rng.uniform(-3, 3)
            V = [ctr + rad * polar(a0 + 2 * PI * j / n * (1 if turns > 0 else -1)) for j in range(n)]
            turns = 1 if turns > 0 else -1
            c = crv.CurveChain(*[crv.LineCurve(p0=V[j], p1=V[(j + 1) % n]) for j in range(n)])
            rad_in = rad * math.cos(PI / n)
            wind = lambda v: turns if np.linalg.norm((v - ctr)[:2]) < rad_in else 0  # noqa
        pts = [ctr + rad * f * polar(rng.uniform(-3, 3)) for f in (0.0, rng.uniform(0, 0.35), rng.uniform(1.3, 3))]
        want = [abs(wind(v)) for v in pts]
        one = [float(crv.curve_index(c, v)) for v in pts]
        arr = np.asarray(crv.curve_index(c, np.array(pts)), float)
        err = max(abs(x - w) for x, w in zip(one, want))
        arrerr = 1.0 if arr.shape != (3,) else float(np.abs(arr - np.array(one)).max())
        recs.append(dict(kind="deriv", value=vf.q(max(err, arrerr * 1e3), U), tol=vf.q(0.02, U)))
    elif what == "nearest":
        c = seg(crv, F, np.zeros(3), rng.uniform(-3, 3), rng.uniform(1, 4) * k, bend(), 0.5)
        if rng.random() < 0.4:
            e = c(1.0)
            c = crv.CurveChain(c, crv.LineCurve(p0=e, p1=e + q @ polar(rng.uniform(-3, 3)) * k))
        s0 = rng.uniform(0.1, 0.9)
        pt = c(s0) + np.array([rng.gauss(0, 1) for _ in range(3)]) * 0.3 * k
        keep = pt.copy()
        s = crv.find_curve_nearest_point(c, pt, guesses=[0.1, 0.35, 0.6, 0.9])
        S = np.linspace(-0.05, 1.05, 400)
        best = min(np.linalg.norm(c(float(x)) - pt) for x in S)
        got = np.linalg.norm(c(float(s)) - pt)
        recs.append(dict(kind="nearest", excess=vf.q((got - best) / k + (0 if np.array_equal(pt, keep) else 1), U), tol=vf.q(1e-5, U)))
    elif what == "tangent":
        p = np.zeros(3)
        th = rng.choice([-1, 1]) * rng.uniform(0.5, 2.4)
        d = rng.uniform(-3, 3)
        L = 4 * k
        b1, b2 = bend() / 2, bend() / 2
        # the curves run through the corner, the arc is looked for on either side of it
        c1, c2 = seg(crv, F, p, d, L, b1, 0.9), seg(crv, F, p, d + th, L, b2, 0.1)
        rad = rng.uniform(0.05, 0.3) * L / 4 / math.tan(abs(th) / 2)
        meth = rng.choice([crv.IntersectMethod.EQUALITY, crv.IntersectMethod.EQUALITY, crv.IntersectMethod.MINDISTANCE])
        loose = 1e-3 if meth == crv.IntersectMethod.MINDISTANCE else 1.0
        arc, t1, t2, sol = crv.calc_tangent_arc(c1, c2, rad, start_locations=[0.85, 0.15], method=meth)
        tan = lambda c, t: unit(c.derivative(float(t)))  # noqa
        kink = lambda a, b: math.acos(min(1.0, max(-1.0, np.dot(a, b))))  # noqa
        size = L
        recs.append(dict(kind="tangent", radius=vf.q((arc.radius - rad) / size * loose, U), on1=vf.q(np.linalg.norm(arc(0.0) - c1(float(t1))) / size * loose, U),
                         on2=vf.q(np.linalg.norm(arc(1.0) - c2(float(t2))) / size * loose, U), kink1=vf.q(kink(tan(c1, t1), unit(arc.derivative(0.0, direction=1))), U),
                         kink2=vf.q(kink(tan(c2, t2), unit(arc.derivative(1.0, direction=-1))), U), ktol=vf.q(3e-5 if loose == 1 else 3e-3, U), solved=int(bool(sol.success) or loose < 1 or float(np.abs(sol.fun).max()) < 1e-9 * size)))
    else:
        n = rng.randint(2, 4)
        m = rng.randint(0, n - 2)
        th = rng.choice([-1, 1]) * rng.uniform(0.4, 2.3)
        d = rng.uniform(-3, 3)
        cv = [bend() * 0.6 for _ in range(n)]
        L = [rng.uniform(1.5, 4) * k for _ in range(n)]
        # the two pieces at the corner, then the rest attached at both ends with other corners
        a, b = seg(crv, F, np.zeros(3), d, L[m], cv[m], 1.0), seg(crv, F, np.zeros(3), d + th, L[m + 1], cv[m + 1], 0.0)
        cs = [a, b]
        for i in range(m - 1, -1, -1):
            e = cs[0](0.0)
            v = q @ polar(rng.uniform(-3, 3))
            cs.insert(0, crv.LineCurve(p0=e - v * L[i], p1=e))
        for i in range(m + 2, n):
            e = cs[-1](1.0)
            cs.append(crv.LineCurve(p0=e, p1=e + q @ polar(rng.uniform(-3, 3)) * L[i]))
        rad = rng.uniform(0.05, 0.25) * min(L[m], L[m + 1]) / math.tan(abs(th) / 2)
        if any(abs(x) * rad > 0.5 for x in cv[m:m + 2]):
            rad = 0.5 / max(abs(x) for x in cv[m:m + 2]) * 0.5
        ch = crv.CurveChain(*cs)
        S = np.linspace(0, 1, 21)
        keep = np.array([ch(float(s)) for s in S])
        tot = ch.length
        out = ch.fillet_at_index(rad, m - rng.choice([0, 0, n])) if rng.random() < 0.6 else ch.fillet(rad, float(ch.get_t_for_index(m)[1]))
        cur = [c for c in out.get_curves() if c.active and c.length > 1e-9 * tot]
        arcs = [i for i, c in enumerate(cur) if isinstance(c, crv.ArcCurve) and abs(c.radius - rad) < 1e-5 * rad]
        i = m + 1 if len(cur) == n + 1 else (arcs[0] if arcs else 0)
        c = cur[i] if i < len(cur) and isinstance(cur[i], crv.ArcCurve) else None
        size = tot
        kink = lambda x, y: math.acos(min(1.0, max(-1.0, np.dot(x, y))))  # noqa
        if c is None or i == 0 or i == len(cur) - 1:
            recs.append(dict(kind="fillet", radius=vf.BIG, gap=0, kink=0, ktol=0, ends=0, rest=0, side=0, length=0, untouched=0, members=len(cur), want=n + 1))
        else:
            gap = max(np.linalg.norm(x(1.0) - y(0.0)) for x, y in zip(cur, cur[1:]))
            ck = max(kink(unit(cur[i - 1].derivative(1.0, direction=-1)), unit(c.derivative(0.0, direction=1))),
                     kink(unit(c.derivative(1.0, direction=-1)), unit(cur[i + 1].derivative(0.0, direction=1))))
            ends = max(np.linalg.norm(out(0.0) - keep[0]), np.linalg.norm(out(1.0) - keep[-1]))
            rest = 0.0
            for j, x in enumerate(cur):
                if j == i:
                    continue
                w = cs[j] if j < i else cs[j - 1]
                # the remaining piece lies on the original one
                for s in (0.0, 0.37, 1.0):
                    y = x(s)
                    if isinstance(w, crv.LineCurve):
                        u = unit(w(1.0) - w(0.0))
                        rest = max(rest, np.linalg.norm(np.cross(y - w(0.0), u)), -np.dot(y - w(0.0), u), np.dot(y - w(1.0), u))
                    else:
                        rest = max(rest, abs(np.linalg.norm(y - w.center) - w.radius))
                if j not in (i - 1, i + 1):
                    rest = max(rest, np.linalg.norm(x(0.0) - w(0.0)), np.linalg.norm(x(1.0) - w(1.0)))
            # the arc is on the inner side: its middle is closer to the centre than the corner
            side = 0.0 if np.linalg.norm(c(0.5) - c.center) < np.linalg.norm(o - c.center) and abs(c.angle) < PI else 1.0
            lens = abs(out.length - sum(x.length for x in cur)) / tot + (0 if out.length < tot else 1)
            unt = 0 if np.array_equal(np.array([ch(float(s)) for s in S]), keep) and len(ch.curves) == n else 1
            recs.append(dict(kind="fillet", radius=vf.q((c.radius - rad) / size, U), gap=vf.q(gap / size, U), kink=vf.q(ck, U), ktol=vf.q(1e-4, U), ends=vf.q(ends / size, U),
                             rest=vf.q(rest / size, U), side=vf.q(side, U), length=vf.q(lens, U), untouched=unt, members=len(cur), want=n + 1))
    return dict(bad=[], rec=[dict(r, what="%s seed %d" % (what, job["seed"])) for r in recs], count={what: 1})
