"""Measurements of NURBS conversion (P16)"""
import math
import random

import numpy as np

import curves
import vf
from curves import rv, unit

U = 1e-9


def polydist(pts, polys):
    """largest distance of the points from a set of polylines"""
    a = np.concatenate([p[:-1] for p in polys])
    b = np.concatenate([p[1:] for p in polys])
    d = b - a
    dd = np.maximum((d * d).sum(1), 1e-30)
    worst = 0.0
    for p in pts:
        t = np.clip(((p - a) * d).sum(1) / dd, 0, 1)
        worst = max(worst, float(np.sqrt(((a + d * t[:, None] - p) ** 2).sum(1).min())))
    return worst


def sample(c, n):
    return np.array([c(float(s)) for s in np.linspace(0, 1, n)])


def parts(c, n):
    """one polyline for every active elementary member"""
    if hasattr(c, "curves"):
        return [q for m in c if m.active for q in parts(m, n)]
    return [sample(c, n)]


def state(c):
    """everything observable about a curve"""
    out = [np.array([c(s) for s in (0.0, 0.37, 0.81, 1.0)]).ravel()] if c.active else []
    out.append(np.array([float(c.length), float(bool(c.active))]))
    if hasattr(c, "curves"):
        out.append(np.array([len(c)], float))
        for m in c:
            out += state(m)
    return out


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.abs(x - y).max(initial=0) <= 1e-12 for x, y in zip(a, b))


def exact_kind(c, crv):
    if isinstance(c, crv.CurveChain):
        return all(exact_kind(m, crv) for m in c if m.active)
    if isinstance(c, (crv.LineCurve, crv.NurbCurve)):
        return True
    if isinstance(c, crv.ArcCurve):
        return abs(c.angle * (c.t_1 - c.t_0)) < math.pi * 0.98
    if isinstance(c, crv.TransformedCurve):
        return exact_kind(c.target_curve, crv)
    return False


def book(n, crv):
    """bookkeeping of a spline chain: violations of points / weights / knots"""
    pieces = list(n.curves)
    kn, pts, w = np.asarray(n.knots), np.asarray(n.points), np.asarray(n.weights)
    bk = bp = bw = 0
    if len(kn) != len(pieces) + 1 or kn[0] != 0 or kn[-1] != len(pts) - 1 or len(w) != len(pts):
        bk = 1
    pos = 0
    for k, p in enumerate(pieces):
        m = len(p.points)
        if p.n_points != m:
            bk = 1
        if not bk and (kn[k] != pos or kn[k + 1] != pos + m - 1):
            bk = 1
        if not np.allclose(pts[pos:pos + m - 1], p.points[:-1]) or not np.allclose(w[pos:pos + m - 1], p.weights[:-1]):
            bp = 1
        pos += m - 1
    if not np.allclose(pts[-1], pieces[-1].points[-1]) or not np.allclose(w[-1], pieces[-1].weights[-1]):
        bw = 1
    if n.n_points != sum(len(p.points) for p in pieces):
        bk = 1
    return bp, bw, bk


TOL3 = 30000000  # three points bend only so far


def record(c, kw, what):
    import gggears.curve as crv

    before = state(c)
    n = crv.convert_curve_nurbezier(c, **kw)
    inp = 0 if same(before, state(c)) else 1
    src, dst = sample(c, 600), sample(n, 60)
    L = float(c.length)
    size = 1e-9 + L
    r = dict(kind="nurb", what=what, exact=int(exact_kind(c, crv)))
    r["start"] = vf.q(np.abs(dst[0] - src[0]).max() / size, U)
    r["end"] = vf.q(np.abs(dst[-1] - src[-1]).max() / size, U)
    r["on"] = vf.q(polydist(dst, parts(c, 400)) / size, U)
    r["covers"] = vf.q(polydist(src[::12], parts(n, 400)) / size, U)
    r["tol"] = 30000 if r["exact"] else 8000000 if kw.get("n_points", 4) > 3 else TOL3
    # direction: corresponding parameters are at corresponding places
    d = np.linalg.norm(sample(n, 61) - sample(c, 61), axis=1)
    r["direction"] = 1 if np.median(d) <= 0.03 * size else 0
    r["input"] = inp
    r["points"], r["weights"], r["knots"] = (0, 0, 0)
    r["rebuild"] = 0
    if isinstance(n, crv.NURBSCurve) and all(isinstance(m, crv.NurbCurve) for m in n):
        r["points"], r["weights"], r["knots"] = book(n, crv)
        if c.is_continuous or len(n) == 1:
            m = crv.NURBSCurve.from_points(n.points.copy(), np.asarray(n.knots).copy(), weights=n.weights.copy())
            gap = max([0.0] + [np.abs(a.points[-1] - b.points[0]).max() + abs(a.weights[-1] - b.weights[0]) for a, b in zip(n.curves[:-1], n.curves[1:])])
            r["rebuild"] = vf.q(max(0.0, np.abs(sample(m, 40) - sample(n, 40)).max() - 3 * gap) / size, U)
    return r, n


def observe(job):
    rng = random.Random(job["seed"])
    import gggears as gg
    import gggears.curve as crv

    what = job["what"]
    recs = []
    kw = rng.choice([dict(), dict(), dict(n_points=4, samp_ratio=1.5), dict(n_points=5), dict(n_points=4, samp_ratio=3), dict(n_points=3)])

    def mess(c):
        for _ in range(rng.choice([0, 1, 2, 3])):
            o = rng.choice(["rev", "trim", "start", "end"] + ["longer"] * isinstance(c, (crv.LineCurve, crv.ArcCurve)))
            if o == "rev":
                c.reverse()
            elif o == "longer":
                c.set_start_and_end_on(rng.choice([0, -0.3]), rng.choice([1, 1.4]))
            elif o == "trim":
                c.set_start_and_end_on(0.2, 0.85)
            elif o == "start":
                c.set_start_on(0.25)
            else:
                c.set_end_on(0.7)
        return c

    if what == "convert":
        k = rng.choice([x for x in curves.KINDS if x != "generic"])
        c = mess(curves.base(k, rng.randrange(10**6)).curve)
        span = abs(c.angle * (c.t_1 - c.t_0)) if isinstance(c, crv.ArcCurve) else 0
        if math.pi * 0.98 <= span < math.pi * 1.02 or span > 1.8 * math.pi:
            return dict(bad=[], rec=[])
        if rng.random() < 0.3 and k != "chain":
            c = mess(crv.MirroredCurve(c, plane_normal=rv(rng)))
        elif rng.random() < 0.3 and k != "chain":
            c = mess(crv.RotatedCurve(c, angle=1.1, axis=rv(rng)))
        if kw.get("n_points") == 3 and k not in ("involute", "sphinv", "octoid", "line", "arc"):
            kw = {}
        recs.append(record(c, kw, "%s %s" % (k, type(c).__name__))[0])
    elif what == "chain":
        lens, mk = curves.chain_bases(rng.randrange(10**6))
        ms = [curves.make_member(m).curve for m in mk[:4]]
        if rng.random() < 0.4:
            ms = [crv.CurveChain(*ms[:2]), *ms[2:]]
        c = crv.CurveChain(*ms)
        if rng.random() < 0.5:
            for m in rng.sample(ms[1:-1], 1):
                m.active = False
        for _ in range(rng.choice([0, 1, 2])):
            o = rng.choice(["rev", "trim", "start", "end"])
            keep = rng.random() < 0.5
            if o == "rev":
                c.reverse()
            elif o == "trim":
                c.set_start_and_end_on(0.13, 0.87, preserve_inactive_curves=keep)
            elif o == "start":
                c.set_start_on(0.23, preserve_inactive_curves=keep)
            else:
                c.set_end_on(0.71, preserve_inactive_curves=keep)
        kw = {} if kw.get("n_points") == 3 else kw
        r, n = record(c, kw, "chain")
        recs.append(r)
        if all(isinstance(m, (crv.LineCurve, crv.ArcCurve)) for m in c):
            # inactive members can be asked for as well
            f = crv.convert_curve_nurbezier(c, skip_inactive=False, **kw)
            acts = [bool(m.active) for m in f] == [bool(m.active) for m in c]
            val = rel = 0.0
            if acts:
                rel = np.abs(sample(f, 41) - sample(n, 41)).max() / float(c.length)
                val = max(max(np.abs(m(s) - o(s)).max() for s in (0.0, 1.0)) for m, o in zip(f, c) if o.active) / float(c.length)
            recs.append(dict(kind="spline", what="with inactive members", value=vf.q(rel, U), tol=1000, ends=vf.q(val, U), book=0 if acts else 1))
    else:  # operations on spline chains
        lens, mk = curves.chain_bases(rng.randrange(10**6))
        ms = [curves.make_member(m).curve for m in mk[:4]]
        ms = [m for m in ms if not isinstance(m, crv.ArcCurve) or abs(m.angle) < 3]
        if len(ms) < 2:
            return dict(bad=[], rec=[])
        c = crv.CurveChain(*ms)
        n = crv.convert_curve_nurbezier(c)
        raw = 0.0
        if rng.random() < 0.5:
            # rational pieces of several degrees with arbitrary weights
            p0, ms, sc = rv(rng), [], 10 ** rng.uniform(-1, 2)
            w0 = 1.0
            for _ in range(rng.randint(2, 4)):
                d = rng.randint(1, 4)
                pts = [p0] + [p0 + (unit(rv(rng)) * 0.25 + np.array([1.0, 0, 0]) * (x + 1)) * sc for x in range(d)]
                w = [w0] + [rng.uniform(0.5, 2) for _ in range(d)]
                ms.append(crv.NurbCurve(np.array(pts), np.array(w)))
                for t in (0.0, 0.3, rng.random(), 1.0):
                    q = [np.append(x * y, y) for x, y in zip(np.array(pts), w)]
                    while len(q) > 1:
                        q = [a * (1 - t) + b * t for a, b in zip(q[:-1], q[1:])]
                    raw = max(raw, np.abs(np.asarray(ms[-1].function(t)) - q[0][:3] / q[0][3]).max() / sc)
                p0, w0 = pts[-1], w[-1]
            n = crv.NURBSCurve(*ms)
        L = float(n.length)
        ref = sample(n, 41)
        poly = sample(n, 400)
        op = rng.choice(["transform", "reverse", "continuity", "points", "from_chain", "inactive", "copy", "trimmed_points"])
        val, ends = 0.0, 0.0
        if op == "transform":
            t = gg.GearTransform(center=rv(rng), scale=rng.uniform(0.4, 3), angle=rng.uniform(-3, 3), orientation=np.linalg.qr(np.array([rv(rng) for _ in range(3)]))[0])
            m = n.apply_transform(t)
            if m is not None and m is not n:
                n = m
            got, want = sample(n, 41), t(ref)
            val = np.abs(got - want).max() / (L * t.scale)
            ends = max(np.abs(got[[0, -1]] - want[[0, -1]]).max(), abs(n.length - L * t.scale) * 1e-3) / (L * t.scale)
        elif op == "reverse":
            olds = [x.copy() for x in n.curves]
            n.reverse()
            got = sample(n, 41)
            for x, y in zip(n.curves, reversed(olds)):
                # piece by piece, in the native parameter
                raw = max([raw] + [np.abs(np.asarray(x.function(t)) - np.asarray(y.function(1 - t))).max() / L for t in (0.0, 0.2, 0.5, 0.9)])
            val = np.abs(got - ref[::-1]).max() / L * 0.02  # the table is not symmetric
            ends = np.abs(got[[0, -1]] - ref[[-1, 0]]).max() / L
        elif op == "continuity":
            shift = rv(rng, 1e-3)
            a, b = n.curves[0].points[-1].copy(), n.curves[1].points[0].copy()
            n.curves[1].points = n.curves[1].points.copy()
            n.curves[1].points[0] = b + shift
            for x in n.curves:
                x.weights = np.array(x.weights, float) * rng.uniform(0.5, 2)
            wm = (n.curves[0].weights[-1] + n.curves[1].weights[0]) / 2
            n.enforce_continuity()
            mid = (a + b + shift) / 2
            wj = [n.curves[0].weights[-1], n.curves[1].weights[0]]
            ends = max(abs(wj[0] - wm), abs(wj[1] - wm))
            ends = max(ends, np.abs(n.curves[0].points[-1] - mid).max(), np.abs(n.curves[1].points[0] - mid).max())
            ends = max([ends] + [np.abs(x.points[-1] - y.points[0]).max() for x, y in zip(n.curves[:-1], n.curves[1:])])
            val = 0.0
        elif op == "points":
            new = n.points.copy() + rv(rng)
            n.points = new
            ends = np.abs(n.points - new).max()
            n.update_lengths()
            val = np.abs(sample(n, 41) - (ref + new[0] - ref[0])).max() / L
        elif op == "from_chain":
            m = crv.NURBSCurve.from_curve_chain(crv.CurveChain(crv.CurveChain(*[x.copy() for x in n.curves[:1]]), *[x.copy() for x in n.curves[1:]]))
            val = np.abs(sample(m, 41) - ref).max() / L
            n = m
        elif op == "inactive":
            k = rng.randrange(1, len(n.curves))
            n.curves[k].active = False
            n.update_inactive_continuity()
            p = np.asarray(n(n.get_t_for_index(k)[0]))
            ends = np.abs(n.curves[k].points - p).max()
        elif op == "copy":
            m = n.copy()
            n.apply_transform(lambda p: p + 5.0)
            n.reverse()
            val = np.abs(sample(m, 41) - ref).max() / L
            n = m
        else:
            m = n.curves[0]
            if len(m.points) >= 2:
                m.set_end_on(0.6)
                ends = np.abs(m.points[-1] - m(1.0)).max() / L
        val = max(val, raw)
        b = max(book(n, crv)) if op not in ("continuity",) else 0
        recs.append(dict(kind="spline", what=op, value=vf.q(val, U), tol=100000, ends=vf.q(ends, U), book=b))
    return dict(bad=[], rec=recs)
