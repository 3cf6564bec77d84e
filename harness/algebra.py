"""Driver of Algebra.tla and measurements for P17"""
import math
import random

import numpy as np

import curves
import vf
from curves import fr, rodrigues, rv, unit

PI = math.pi


def v3(x):
    return np.array([fr(c) for c in x], float)


def replay(hist):
    import gggears as gg
    import gggears.curve as crv

    reg, bad = {}, []
    for n, st in enumerate(hist):
        e = st["ev"]
        op, i, j, k = e["op"], e["i"], e["j"], e["k"]
        f = e["f"]
        f = f[0] if f[1] == 1 else f[0] / f[1]
        p = np.array(e["p"], float) if e["p"] else None
        ax = np.array(e["ax"], float) if e["ax"] else None
        if op == "line":
            new = crv.LineCurve(p, np.array(e["q"], float))
        elif op == "add":
            new = reg[j] + reg[k]
        elif op == "sub":
            new = reg[j] - reg[k]
        elif op == "mul":
            new = reg[j] * f
        elif op == "rmul":
            new = f * reg[j]
        elif op == "div":
            new = reg[j] / f
        elif op == "mirror":
            new = crv.MirroredCurve(reg[j], plane_normal=ax, center=p)
        elif op == "rotate":
            new = crv.RotatedCurve(reg[j], angle=e["n"] * PI / 2, axis=ax, center=p)
        elif op in ("xview", "xnew"):
            t = gg.Transform(center=p, orientation=np.array(e["o"], float), scale=float(f))
            src = reg[j]
            if op == "xview":
                new = crv.TransformedCurve(t, src)
            elif isinstance(src, crv.LineCurve):
                new = src.transform(t)
            else:
                new = crv.TransformedCurve(t, src.copy())
        elif op == "copy":
            new = reg[j].copy()
        elif op == "trim":
            reg[i].set_start_and_end_on(fr(e["s"]), fr(e["u"]))
            new = reg[i]
        elif op == "rev":
            reg[i].reverse()
            new = reg[i]
        elif op == "toggle":
            new = reg[i]
            new.active = not new.active
            if new.active:
                new.update_lengths()  # lengths are only kept for active curves
        else:
            raise vf.Broken("operation " + op)
        reg[i] = new
        # what was passed in belongs to the caller again
        if op == "line":
            p += 17.0
        for m, val in enumerate(st["vals"], 1):
            if not val:
                continue
            a, b = v3(val[0]), v3(val[1])
            c = reg[m]
            size = 1 + np.abs(a).max() + np.abs(b).max()
            what = "step %d %s register %d" % (n, op, m)
            if bool(c.active) != st["acts"][m - 1]:
                bad.append("%s: active is %s, specified %s" % (what, c.active, st["acts"][m - 1]))
            for s in (0.0, 0.25, 0.6, 1.0):
                got = np.asarray(c(s))
                want = a + (b - a) * s
                if got.shape != (3,) or not np.abs(got - want).max() <= 1e-8 * size:
                    bad.append("%s at s=%g is at %s, specified %s" % (what, s, np.round(got, 6).tolist(), np.round(want, 6).tolist()))
                    break
            arr = np.asarray(c(np.array([0.1, 0.9])))
            want = np.array([a + (b - a) * 0.1, a + (b - a) * 0.9])
            if arr.shape != (2, 3) or not np.abs(arr - want).max() <= 1e-8 * size:
                bad.append(what + " evaluated at an array")
            if c.active and not abs(float(c.length) - np.linalg.norm(b - a)) <= 1e-7 * size:
                bad.append("%s has length %g, specified %g" % (what, c.length, np.linalg.norm(b - a)))
            d = np.asarray(c.derivative(0.4))
            if not np.abs(d - (b - a)).max() <= 1e-4 * size:
                bad.append("%s has derivative %s, specified %s" % (what, d.tolist(), (b - a).tolist()))
        if bad:
            return dict(bad=bad[:4], steps=n + 1)
    return dict(bad=bad[:4], steps=len(hist))


U = 1e-9


def rel(x, y, size=None):
    x, y = np.asarray(x, float), np.asarray(y, float)
    if x.shape != y.shape:
        return 1.0
    return float(np.abs(x - y).max() / (size or (1 + np.abs(y).max())))


def rand_arc(rng):
    """construction data and expectation of an arc from a random constructor"""
    import gggears.curve as crv

    c = rv(rng)
    r = rng.uniform(0.2, 6)
    ax = rng.choice([np.array([0, 0, 1.0]), np.array([0, 0, -1.0]), unit(rv(rng)), np.array([0, 1.0, 0]), np.array([1.0, 0, 0])])
    d = unit(np.cross(ax, rv(rng)))
    ang = rng.choice([rng.uniform(0.1, 3.0), rng.uniform(-3.0, -0.1), rng.uniform(3.2, 9), PI / 2, PI])
    how = rng.choice(["pca", "2pc", "2pk", "rca", "init"])
    p0 = c + r * d
    if how == "pca":
        k = rng.choice([1.0, 2.5])
        args = dict(p0=p0.copy(), center=c.copy(), angle=ang, axis=ax * k)
        keep = {a: np.array(b, copy=True) for a, b in args.items()}
        arc = crv.ArcCurve.from_point_center_angle(**args)
    elif how == "2pc":
        ang = rng.uniform(0.1, 3.0)
        rev = rng.choice([0, 0, 1])
        args = dict(p0=p0.copy(), p1=c + rodrigues(r * d, ax, ang), center=c.copy(), revolutions=rev)
        keep = {a: np.array(b, copy=True) for a, b in args.items()}
        arc = crv.ArcCurve.from_2_point_center(**args)
        ang += 2 * PI * rev
    elif how == "2pk":
        ang = rng.uniform(0.1, 3.0)
        # signed curvature turns about the given axis
        args = dict(p0=p0.copy(), p1=c + rodrigues(r * d, ax, ang), curvature=1 / r, axis=ax.copy())
        if rng.random() < 0.4:
            args["curvature"], args["axis"] = -1 / r, -ax
        keep = {a: np.array(b, copy=True) for a, b in args.items()}
        arc = crv.ArcCurve.from_2_point_curvature(**args)
    elif how == "rca":
        a0 = rng.uniform(-3, 3)
        args = dict(radius=r, center=c.copy(), angle_start=a0, angle_end=a0 + ang, axis=ax.copy())
        keep = {a: np.array(b, copy=True) for a, b in args.items()}
        arc = crv.ArcCurve.from_radius_center_angle(**args)
        if np.allclose(ax, [0, 0, 1]):
            p0 = c + r * np.array([math.cos(a0), math.sin(a0), 0])
        else:
            # the direction of angle zero is the library's choice, angles count from there
            zero = crv.ArcCurve.from_radius_center_angle(radius=r, center=c.copy(), angle_start=0.0, angle_end=1.0, axis=ax.copy())
            p0 = c + rodrigues(np.asarray(zero(0.0)) - c, ax, a0)
    else:
        from scipy.spatial.transform import Rotation

        ypr = [rng.uniform(-3, 3) for _ in range(3)]
        args = dict(radius=r, angle=ang, center=c.copy(), yaw=ypr[0], pitch=ypr[1], roll=ypr[2])
        keep = {a: np.array(b, copy=True) for a, b in args.items()}
        arc = crv.ArcCurve(**args)
        R = Rotation.from_euler("x", ypr[2]) * Rotation.from_euler("y", ypr[1]) * Rotation.from_euler("z", ypr[0])
        R = R.as_matrix()
        p0, ax = c + r * R[:, 0], R[:, 2]
    same = all(np.array_equal(np.asarray(args[a]), keep[a]) for a in args)
    return how, arc, p0, c, unit(ax), ang, r, same


def observe(job):
    rng = random.Random(job["seed"])
    import gggears as gg
    import gggears.curve as crv

    recs, what = [], job["what"]
    S = np.array([0.0, 0.2, 0.45, 0.8, 1.0])
    if what == "arc":
        how, arc, p0, c, ax, ang, r, same = rand_arc(rng)
        want = lambda s: c + rodrigues(p0 - c, ax, ang * s)  # noqa
        size = 1 + r + np.abs(c).max()
        pts = np.array([arc(float(s)) for s in S])
        recs.append(dict(
            kind="pass", what="arc " + how, start=vf.q(rel(pts[0], p0, size), U), end=vf.q(rel(pts[-1], want(1.0), size), U),
            radius=vf.q(max(abs(arc.radius - r), np.abs(np.linalg.norm(pts - c, axis=1) - r).max(), abs(arc.r - r), abs(arc.curvature - 1 / r) * r * r) / size, U),
            centre=vf.q(rel(arc.center, c, size), U), plane=vf.q(max(np.abs((pts - c) @ ax).max() / size, rel(arc.axis, ax, 1)), U),
            speed=vf.q(max(rel(pts, np.array([want(s) for s in S]), size), rel(arc.p0, p0, size), rel(arc.p1, want(1.0), size)), U),
            length=vf.q(abs(arc.length - abs(ang) * r) / size, U), args=0 if same else 1))
        # derivatives
        for n, tol in ((1, 3000), (2, 6000000)):
            for dr in (-1, 0, 1):
                s = rng.uniform(0.1, 0.9)
                delta = {1: 1e-6, 2: 1e-4}[n]
                got = arc.derivative(s, direction=dr, n=n, delta=delta)
                ex = rodrigues(p0 - c, ax, ang * s)
                ex = np.cross(ax, ex) * ang if n == 1 else -(ang ** 2) * (ex - 0 * ax)
                err = abs(ang) ** (n + 1) * r * delta * 1.5 + 1e-9
                recs.append(dict(kind="deriv", what="arc order %d direction %d" % (n, dr), value=vf.q(np.abs(got - ex).max(), U), tol=vf.q(err, U) + (5000 if n == 1 else 400000)))
        # one-sided derivatives at a kink
        P = [rv(rng) for _ in range(3)]
        d1, d2 = P[1] - P[0], P[2] - P[1]
        l1, l2 = np.linalg.norm(d1), np.linalg.norm(d2)
        if min(l1, l2) > 0.1:
            ch = crv.CurveChain(crv.LineCurve(P[0].copy(), P[1].copy()), crv.LineCurve(P[1].copy(), P[2].copy()))
            vl, vr = d1 / l1 * (l1 + l2), d2 / l2 * (l1 + l2)
            for dr, ex in ((-1, vl), (1, vr), (0, (vl + vr) / 2)):
                got = ch.derivative(l1 / (l1 + l2), direction=dr)
                recs.append(dict(kind="deriv", what="kink direction %d" % dr, value=vf.q(np.abs(got - ex).max(), U), tol=vf.q(1e-4 * (l1 + l2), U)))
        # transform
        o = np.linalg.qr(np.array([rv(rng) for _ in range(3)]))[0]
        k, t = rng.uniform(0.3, 3), rv(rng)
        f = lambda p: k * (np.asarray(p) @ o.T) + t  # noqa
        if rng.random() < 0.5:
            arc.set_start_and_end_on(0.2, 0.9)
            if rng.random() < 0.5:
                arc.reverse()
        ref = np.array([f(arc(float(s))) for s in S])
        new = arc.transform(f)
        got = np.array([new(float(s)) for s in S])
        recs.append(dict(kind="pointwise", what="arc transform det %d" % round(np.linalg.det(o)), value=vf.q(rel(got, ref), U), tol=200, array=vf.q(rel(new(S), got), U)))
    elif what == "expr":
        # sums, multiples and transforms of arbitrary curves are pointwise
        k1, k2 = rng.choice(curves.KINDS), rng.choice(curves.KINDS)
        a, b = curves.base(k1, rng.randrange(10**6)).curve, curves.base(k2, rng.randrange(10**6)).curve
        for c in (a, b):
            if rng.random() < 0.4 and hasattr(c, "set_start_and_end_on"):
                c.set_start_and_end_on(0.15, 0.8)
            if rng.random() < 0.3:
                c.reverse()
        x = rng.choice([2, -3, 0.4, -1.7])
        cen, nrm, an = rv(rng), rv(rng), rng.uniform(-4, 4)
        nu = unit(nrm)
        t = gg.GearTransform(center=rv(rng), scale=rng.uniform(0.3, 3), angle=rng.uniform(-3, 3))
        pa = np.array([a(float(s)) for s in S])
        pb = np.array([b(float(s)) for s in S])
        todo = [("add", a + b, pa + pb), ("sub", a - b, pa - pb), ("mul", a * x, pa * x), ("rmul", x * a, pa * x), ("div", a / x, pa / x),
                ("mirror", crv.MirroredCurve(a, plane_normal=nrm.copy(), center=cen.copy()), np.array([p - 2 * np.dot(p - cen, nu) * nu for p in pa])),
                ("rotate", crv.RotatedCurve(a, angle=an, axis=nrm.copy(), center=cen.copy()), np.array([cen + rodrigues(p - cen, nrm, an) for p in pa])),
                ("transform", crv.TransformedCurve(t, a), np.array([t(p) for p in pa]))]
        for name, c, ref in todo:
            # the parameter is arc length again, so values are compared as point sets at
            # the ends, and pointwise through the native parameter
            tt = np.array([c(float(c.t2s(s))) for s in S])
            recs.append(dict(kind="pointwise", what="%s %s %s" % (name, k1, k2), value=vf.q(rel(tt, ref), U), tol=1000, array=vf.q(rel(c(S), np.array([c(float(s)) for s in S])), U)))
    elif what == "copy":
        k = rng.choice(curves.KINDS)
        seed = rng.randrange(10**6)
        c = curves.base(k, seed).curve
        wrap = rng.choice(["", "mirror", "div", "mul", "add", "chain", "rotate"])
        if wrap == "mirror":
            o, c = c, crv.MirroredCurve(c)
        elif wrap == "div":
            o, c = c, c / 2
        elif wrap == "mul":
            o, c = c, c * 2
        elif wrap == "add":
            o, c = c, c + curves.base("line", seed + 7).curve
        elif wrap == "rotate":
            o, c = c, crv.RotatedCurve(c, angle=1.0)
        elif wrap == "chain":
            o, c = c, crv.CurveChain(c, curves.base("line", seed + 7).curve)
        else:
            o = c
        S2 = np.array([0.0, 0.3, 0.7, 1.0])
        d = c.copy()
        p = np.array([c(float(s)) for s in S2])
        eq = rel(np.array([d(float(s)) for s in S2]), p)
        eq = max(eq, abs(d.length - c.length) / (1 + c.length), 0 if d.active == c.active else 1)

        def mess(x):
            m = rng.choice(["rev", "trim", "end", "start", "attr"])
            if m == "rev":
                x.reverse()
            elif m == "trim":
                x.set_start_and_end_on(0.2, 0.7)
            elif m == "end":
                x.set_end_on(0.4)
            elif m == "start":
                x.set_start_on(0.4)
            else:
                for a in ("p0", "p1", "points", "v_offs"):
                    y = x.__dict__.get(a)
                    if isinstance(y, np.ndarray) and y.flags.writeable and y is not getattr(gg, "ORIGIN", None):
                        if a == "v_offs":
                            continue
                        y += 3.0
                x.reverse()
        mess(o)
        if o is not c:
            mess(c)
        kept = rel(np.array([d(float(s)) for s in S2]), p)
        q0 = np.array([c(float(s)) for s in S2])
        mess(d)
        back = rel(np.array([c(float(s)) for s in S2]), q0)
        recs.append(dict(kind="copy", what="%s %s" % (wrap, k), equal=vf.q(eq, U), kept=vf.q(kept, U), back=vf.q(back, U)))
    return dict(bad=[], rec=recs)
