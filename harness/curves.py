"""Base curves with independent oracles, and the drivers of CurveOps.tla and Chain.tla."""
import math
import random
from fractions import Fraction

import numpy as np

import vf

PI = math.pi


def fr(x):
    return x[0] / x[1]


def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v)


def rodrigues(v, axis, ang):
    axis = unit(axis)
    v = np.asarray(v, float)
    return v * math.cos(ang) + np.cross(axis, v) * math.sin(ang) + axis * np.dot(axis, v) * (1 - math.cos(ang))


class Base:
    """curve: a fresh library object; at(u): the point at the fraction u of its arc length"""

    def __init__(self, curve, at, length, tol, len_tol, ext):
        self.curve, self.at, self.length = curve, at, length
        self.tol, self.len_tol, self.ext = tol, len_tol, ext


def dense(curve, tol=3e-3, len_tol=3e-3):
    n = 1500
    s = np.linspace(0, 1, n + 1)
    p = np.array([curve(float(x)) for x in s])
    cum = np.concatenate([[0], np.cumsum(np.linalg.norm(p[1:] - p[:-1], axis=1))])
    L = cum[-1]

    def at(u):
        return np.array([np.interp(u * L, cum, p[:, k]) for k in range(3)])

    return Base(curve, at, L, tol * L, len_tol * L, False)


def line(p0, p1):
    import gggears.curve as crv

    p0, p1 = np.array(p0, float), np.array(p1, float)
    return Base(crv.LineCurve(p0.copy(), p1.copy()), lambda u: p0 + (p1 - p0) * u, np.linalg.norm(p1 - p0), 1e-9 * max(np.abs(p0).max(), np.abs(p1).max()), 1e-9 * np.linalg.norm(p1 - p0), True)


def arc(p0, center, axis, angle):
    import gggears.curve as crv

    p0, center, axis = (np.array(x, float) for x in (p0, center, axis))
    c = crv.ArcCurve.from_point_center_angle(p0=p0.copy(), center=center.copy(), angle=angle, axis=axis.copy())
    r = np.linalg.norm(p0 - center)
    return Base(c, lambda u: center + rodrigues(p0 - center, axis, angle * u), abs(angle) * r, 1e-8 * (np.abs(center).max() + r), 1e-8 * r, True)


def rv(rng, a=5):
    return np.array([rng.uniform(-a, a) for _ in range(3)])


KINDS = ["line", "arc", "arcbig", "arcneg", "involute", "involute_mid", "sphinv", "octoid", "cycloid", "cyccone", "generic",
         "mirror_line", "rotate_arc", "transform_involute", "nurb", "sum", "scaled", "quot", "chain", "transform_line", "mirror_involute"]
EXACT = ["line", "arc", "arcbig", "arcneg", "mirror_line", "rotate_arc", "transform_line"]


def base(kind, seed):
    import gggears.curve as crv

    rng = random.Random(seed)
    # mostly everyday sizes, sometimes tiny or huge
    r2 = random.Random(seed * 31 + 7)
    k = r2.choice([1.0, 1.0, 1.0, 10 ** r2.uniform(-2.3, 2.3)])
    if kind == "line":
        return line(rv(rng) * k, rv(rng) * k)
    if kind.startswith("arc"):
        c = rv(rng) * k
        ax = rng.choice([np.array([0, 0, 1.0]), unit(rv(rng))])
        d = unit(np.cross(ax, rv(rng))) * rng.uniform(0.3, 4) * k
        ang = {"arc": rng.uniform(0.3, 3), "arcbig": rng.uniform(3.3, 9), "arcneg": rng.uniform(-5, -0.3)}[kind]
        return arc(c + d, c, ax, ang)
    if kind == "involute":
        return dense(crv.InvoluteCurve(r=rng.uniform(0.5, 3) * k, t0=0, t1=rng.uniform(0.5, 1.5), angle=rng.uniform(-3, 3), z_offs=rng.uniform(-1, 1) * k))
    if kind == "involute_mid":
        return dense(crv.InvoluteCurve(r=rng.uniform(0.5, 3) * k, t0=rng.uniform(0.2, 0.4), t1=rng.uniform(0.7, 1.5)))
    if kind == "sphinv":
        return dense(crv.SphericalInvoluteCurve(r=rng.uniform(0.5, 1) * k, t0=0.05, t1=rng.uniform(0.4, 0.9), c_sphere=rng.uniform(0.3, 0.9) / k))
    if kind == "octoid":
        return dense(crv.OctoidCurve(r=rng.uniform(0.6, 1) * k, t0=-0.2, t1=rng.uniform(0.2, 0.4), c_sphere=rng.uniform(0.3, 0.8) / k))
    if kind == "cycloid":
        return dense(crv.CycloidCurve(rb=rng.uniform(1, 3) * k, rc=rng.choice([-1, 1]) * rng.uniform(0.2, 0.4) * k, t0=0, t1=rng.uniform(0.2, 0.45)))
    if kind == "cyccone":
        return dense(crv.CycloidConicCurve(rb=rng.uniform(0.8, 1) * k, rc=rng.choice([-1, 1]) * rng.uniform(0.1, 0.3) * k, C=rng.uniform(0.3, 0.8) / k, t0=0, t1=rng.uniform(0.2, 0.4)))
    if kind == "generic":
        a, b = rv(rng, 1), rv(rng)
        return dense(crv.Curve(lambda t: k * (a + b * t + np.array([math.sin(2 * t), math.cos(2 * t), 0.3 * t * t])), t0=rng.uniform(-0.5, 0), t1=rng.uniform(0.7, 1.5)))
    if kind == "nurb":
        pts = np.cumsum(np.array([rv(rng, 1) + np.array([2, 0, 0]) for _ in range(4)]), axis=0)
        return dense(crv.NurbCurve(pts * k, np.array([1, rng.uniform(0.6, 1.6), rng.uniform(0.6, 1.6), 1])))
    if kind == "sum":
        a, b = base("line", seed + 1), base("involute_mid", seed + 2)
        return dense(a.curve + b.curve)
    if kind == "scaled":
        return dense(base("involute_mid", seed + 1).curve * rng.uniform(0.3, 3))
    if kind == "quot":
        return dense(base("involute_mid", seed + 1).curve / rng.uniform(0.3, 3))
    if kind == "chain":
        p = np.cumsum(np.array([rv(rng) for _ in range(4)]), axis=0)
        return dense(crv.CurveChain(*[crv.LineCurve(p[k].copy(), p[k + 1].copy()) for k in range(3)]))
    if kind in ("mirror_line", "transform_line"):
        b = base("line", seed + 1)
        if kind == "mirror_line":
            n, c = unit(rv(rng)), rv(rng)
            f = lambda p: p - 2 * np.dot(p - c, n) * n  # noqa
            return Base(crv.MirroredCurve(b.curve, plane_normal=2 * n, center=c.copy()), lambda u: f(b.at(u)), b.length, 1e-9 + b.tol, b.len_tol, True)
        import gggears as gg

        t = gg.Transform(center=rv(rng), orientation=np.eye(3)[[1, 2, 0]], scale=2.0)
        return Base(crv.TransformedCurve(t, b.curve), lambda u: t.center + 2 * t.orientation @ b.at(u), 2 * b.length, 1e-8 + 3 * b.tol, 3 * b.len_tol, True)
    if kind == "rotate_arc":
        b = base("arc", seed + 1)
        ax, c, an = rv(rng), rv(rng), rng.uniform(-3, 3)
        return Base(crv.RotatedCurve(b.curve, angle=an, axis=ax.copy(), center=c.copy()), lambda u: c + rodrigues(b.at(u) - c, ax, an), b.length, 1e-8 + 2 * b.tol, 3e-3 * b.length, True)
    if kind == "mirror_involute":
        return dense(crv.MirroredCurve(base("involute_mid", seed + 1).curve, plane_normal=np.array([0.0, 1, 0])))
    if kind == "transform_involute":
        import gggears as gg

        t = gg.GearTransform(center=rv(rng), scale=rng.uniform(0.5, 2), angle=rng.uniform(-3, 3))
        return dense(crv.TransformedCurve(t, base("involute", seed + 1).curve), 1.5e-2, 6e-3)  # two tables over a cusp
    raise vf.Broken("unknown base " + kind)


SAMPLES = (0.0, 0.125, 0.3, 0.5, 0.7, 0.95, 1.0)


BACK = (-0.2, 0.1, 0.5, 0.8, 1.3)


def compare(c, b, piece, what, bad, far=None):
    """curve object c against the specified piece of base b"""
    a, e = fr(piece[0]), fr(piece[1])
    tol, lt = b.tol * (1 if not far else far), b.len_tol * (1 if not far else far)
    pts = [np.asarray(c(s)) for s in SAMPLES]
    for s, p in zip(SAMPLES, pts):
        x = b.at(a + (e - a) * s)
        if p.shape != (3,) or not np.abs(p - x).max() <= tol:
            bad.append("%s: at s=%g the curve is at %s, specified %s" % (what, s, np.round(p, 6).tolist(), np.round(x, 6).tolist()))
            return
    arr = np.asarray(c(np.array(SAMPLES)))
    if arr.shape != (len(SAMPLES), 3) or not np.abs(arr - np.array(pts)).max() <= 1e-9 * max(1, np.abs(arr).max()):
        bad.append("%s: evaluating an array differs from evaluating its elements" % what)
    L = b.length * abs(e - a)
    if not abs(float(c.length) - L) <= lt:
        bad.append("%s: length %.9g, specified %.9g" % (what, c.length, L))
    # forth and back, also beyond both ends
    for s in BACK:
        r = c.t2s(c.s2t(s))
        if not abs(r - s) <= 1e-6:
            bad.append("%s: t2s(s2t(%g)) = %g" % (what, s, r))
    r = np.asarray(c.t2s(c.s2t(np.array(BACK))))
    if not np.abs(r - np.array(BACK)).max() <= 1e-6:
        bad.append("%s: t2s(s2t(array)) = %s" % (what, r))


def replay_ops(item):
    b = base(item["kind"], item["seed"])
    slots = {1: b.curve}
    bad = []
    for n, e in enumerate(item["hist"]):
        c = slots[e["i"]]
        what = "%s step %d %s" % (item["kind"], n, e["op"])
        s, u = fr(e["s"]), fr(e["u"])
        rel = []  # exact relations between the curve before and after
        if e["op"] == "reverse":
            old = [np.array(c(x)) for x in SAMPLES]
            got = c.reverse()
            if got is not None and got is not c:
                bad.append(what + ": returns something other than the curve")
            rel = [(c(1 - x), o) for x, o in zip(SAMPLES, old)]
        elif e["op"] == "start":
            old = [np.array(c(s)), np.array(c(1.0))]
            c.set_start_on(s)
            rel = [(c(0.0), old[0]), (c(1.0), old[1])]
        elif e["op"] == "end":
            old = [np.array(c(s)), np.array(c(0.0))]
            c.set_end_on(s)
            rel = [(c(1.0), old[0]), (c(0.0), old[1])]
        elif e["op"] == "both":
            old = [np.array(c(s)), np.array(c(u))]
            c.set_start_and_end_on(s, u)
            rel = [(c(0.0), old[0]), (c(1.0), old[1])]
        elif e["op"] == "cut":
            old = [np.array(c(x)) for x in (0.0, s, 1.0)]
            slots[e["j"]], slots[e["k"]] = c.cut(s)
            a, d = slots[e["j"]], slots[e["k"]]
            rel = [(a(0.0), old[0]), (a(1.0), old[1]), (d(0.0), old[1]), (d(1.0), old[2])]
        elif e["op"] == "copy":
            slots[e["j"]] = c.copy()
        for g, o in rel:
            if not np.abs(np.asarray(g) - o).max() <= 1e-7 * (1 + np.abs(o).max()):
                bad.append("%s: end points or reversal not exact: %s instead of %s" % (what, np.round(g, 7).tolist(), np.round(o, 7).tolist()))
        for m, p in enumerate(e["slots"], 1):
            if p:
                compare(slots[m], b, p, "%s slot %d" % (what, m), bad)
            if bad:
                return dict(bad=bad[:4], steps=n + 1)
    return dict(bad=bad[:4], steps=len(item["hist"]))


# ------------------------------------------------------------------ chains
def chain_bases(seed):
    """lines and arcs of rational length; the first four form a continuous path"""
    rng = random.Random(seed)
    lens = [Fraction(3), Fraction(2), Fraction(3, 2), Fraction(4), Fraction(5, 2), Fraction(1)]
    makers = []
    p = rv(rng)
    d = unit(rv(rng))
    kinds = rng.sample(["line", "arc", "line", "arc"], 4) + ["line", "arc"]
    if rng.random() < 0.35:
        # the first four close up: a quadrilateral with a hinge of random opening
        a, b, c, e = (float(x) for x in lens[:4])
        diag = rng.uniform(max(abs(a - b), abs(c - e)) + 0.3, min(a + b, c + e) - 0.3)
        ex = unit(np.cross(d, rv(rng)))
        o2 = rodrigues(ex, d, rng.uniform(0.4, 2.5))
        x1 = (a * a - b * b + diag * diag) / (2 * diag)
        x2 = (e * e - c * c + diag * diag) / (2 * diag)
        P = [p, p + d * x1 + ex * math.sqrt(a * a - x1 * x1), p + d * diag, p + d * x2 + o2 * math.sqrt(e * e - x2 * x2)]
        makers = [("line", (P[k].copy(), P[(k + 1) % 4].copy())) for k in range(4)]
    for k, kind in enumerate(kinds):
        if k < len(makers):
            continue
        if k >= 4:
            p, d = rv(rng), unit(rv(rng))
        L = float(lens[k])
        if kind == "line":
            q = p + d * L
            makers.append(("line", (p.copy(), q.copy())))
            p = q
            d = unit(d + 0.7 * unit(rv(rng)))
        else:
            r = rng.uniform(0.7, 3)
            ax = unit(np.cross(d, unit(rv(rng))))
            c = p + np.cross(ax, d) * r
            ang = L / r
            makers.append(("arc", (p.copy(), c.copy(), ax.copy(), ang)))
            p = c + rodrigues(p - c, ax, ang)
            d = rodrigues(d, ax, ang)
    return lens, makers


def make_member(mk):
    return line(*mk[1]) if mk[0] == "line" else arc(*mk[1])


class ChainModel:
    """the denotation of a specified chain"""

    def __init__(self, members, bases, lens):
        self.m = members
        self.bases, self.lens = bases, lens
        self.ml = [abs(Fraction(*x["b"]) - Fraction(*x["a"])) if x["act"] else Fraction(0) for x in members]
        self.L = sum(self.ml)

    def point(self, k, s):
        m = self.m[k]
        a, b = fr(m["a"]), fr(m["b"])
        return self.bases[m["id"] - 1].at((a + (b - a) * s) / float(self.lens[m["id"] - 1]))

    def at(self, s):
        """all admissible points for parameter s (two at a joint)"""
        x = Fraction(s) * self.L
        pos, out = Fraction(0), []
        for k, l in enumerate(self.ml):
            if l and pos <= x <= pos + l:
                out.append((k, float((x - pos) / l)))
            pos += l
        return out


CS = [Fraction(0), Fraction(1, 7), Fraction(3, 11), Fraction(1, 2), Fraction(5, 8), Fraction(9, 10), Fraction(1)]


def check_chain(c, spec, bases, lens, what, bad, flat=True):
    M = ChainModel(spec, bases, lens)
    tol = 1e-7
    vals = []
    for s in CS:
        got = np.asarray(c(float(s)))
        vals.append(got)
        want = [M.point(k, x) for k, x in M.at(s)]
        if got.shape != (3,) or not min(np.abs(got - w).max() for w in want) <= tol:
            bad.append("%s: chain at s=%s is at %s, specified %s" % (what, s, np.round(got, 6).tolist(), [np.round(w, 6).tolist() for w in want]))
            return
    arr = np.asarray(c(np.array([float(s) for s in CS])))
    if arr.shape != (len(CS), 3) or not np.abs(arr - np.array(vals)).max() <= 1e-9:
        bad.append(what + ": evaluating an array differs from evaluating its elements")
    if not abs(float(c.length) - float(M.L)) <= 1e-7:
        bad.append("%s: length %.9g, specified %s" % (what, c.length, M.L))
    live = [k for k, m in enumerate(spec) if m["act"]]
    # just outside and further outside of the range the first or last active member goes on
    for s in (-0.1, -1e-12, 1 + 1e-12, 1.1):
        k = live[0] if s < 0 else live[-1]
        x = float(M.L / M.ml[k])
        want = M.point(k, s * x if s < 0 else 1 + (s - 1) * x)
        got = np.asarray(c(s))
        if got.shape != (3,) or not np.abs(got - want).max() <= 1e-6:
            bad.append("%s: chain at s=%r is at %s, specified %s" % (what, s, np.round(got, 6).tolist(), np.round(want, 6).tolist()))
            return
    if not c.active:
        bad.append(what + ": chain with active members is inactive")
    # no member left active (Live(c) = {}), or the chain itself switched off
    dark = c.copy()
    for m in dark:
        m.active = False
    if dark.active or dark.length != 0 or any(dark.active_list):
        bad.append(what + ": a chain without active members has length %s, active: %s" % (dark.length, dark.active))
    dark = c.copy()
    dark.active = False
    outer = type(c)(c.copy(), dark)
    if dark.active or not c.active or not abs(float(outer.length) - float(M.L)) <= 1e-7:
        bad.append(what + ": a chain switched off still counts")
    leaves = c.get_curves()
    if any(type(m).__name__ == "CurveChain" for m in leaves):
        bad.append(what + ": get_curves returns chains")
        return
    on = [m for m in leaves if m.active]
    if flat or len(on) == len(live):
        for m, k in zip(on, live):
            if len(on) != len(live) or not np.abs(np.asarray(m(0.4)) - M.point(k, 0.4)).max() <= tol:
                bad.append("%s: get_curves gives other members than specified" % what)
                return
    if not flat:
        return
    bridged = c.get_curves(lerp_inactive=True)
    for k, (m, o) in enumerate(zip(bridged, leaves)):
        if o.active:
            good = m is o
        else:
            a, b = (k - 1) % len(spec), (k + 1) % len(spec)
            good = not m.active
            if spec[a]["act"] and spec[b]["act"]:
                p0, p1 = M.point(a, 1.0), M.point(b, 0.0)
                good = good and all(np.abs(np.asarray(m(s)) - p0 - (p1 - p0) * s).max() <= tol for s in (0.0, 0.3, 1.0))
        if not good or len(bridged) != len(leaves):
            bad.append("%s: bridging inactive members is wrong at member %d" % (what, k))
            return
    n = len(spec)
    if len(c) != n or c.num_curves != n or len(list(c)) != n or len(c.curves) != n:
        bad.append("%s: %d members, specified %d" % (what, len(c), n))
        return
    if [bool(x) for x in c.active_list] != [m["act"] for m in spec]:
        bad.append("%s: active members %s, specified %s" % (what, list(c.active_list), [m["act"] for m in spec]))
    if (c.idx_active_min, c.idx_active_max) != (live[0], live[-1]):
        bad.append("%s: first/last active %s, specified %s" % (what, (c.idx_active_min, c.idx_active_max), (live[0], live[-1])))
    la = np.asarray(c.length_array, float)
    if la.shape != (n,) or not np.abs(la - np.array([float(x) for x in M.ml])).max() <= 1e-7:
        bad.append("%s: member lengths %s, specified %s" % (what, la.tolist(), [str(x) for x in M.ml]))
    pos = 0
    for k in range(n):
        lo, hi = c.get_t_for_index(k)
        if not (abs(lo - float(pos / M.L)) <= 1e-8 and abs(hi - float((pos + M.ml[k]) / M.L)) <= 1e-8):
            bad.append("%s: parameter range of member %d is %s" % (what, k, (lo, hi)))
        pos += M.ml[k]
        if spec[k]["act"]:
            for s in (0.0, 0.4, 1.0):
                if not np.abs(np.asarray(c[k](s)) - M.point(k, s)).max() <= tol:
                    bad.append("%s: member %d at %g is at %s, specified %s" % (what, k, s, np.round(c[k](s), 6).tolist(), np.round(M.point(k, s), 6).tolist()))
                    return
    for s in CS:
        k, x = c.get_s_index(float(s))
        if not any(k == kk and abs(x - xx) <= 1e-7 for kk, xx in M.at(s)):
            bad.append("%s: lookup of s=%s gives member %s at %g, specified %s" % (what, s, k, x, M.at(s)))
    # continuity between neighbours
    cont = list(c.continuity_list)
    for k in range(n - 1):
        gap = np.linalg.norm(M.point(k, 1.0) - M.point(k + 1, 0.0))
        want = (not spec[k]["act"]) or (not spec[k + 1]["act"]) or gap < 1e-7
        if bool(cont[k]) != want and not (1e-9 < gap < 1e-3):
            bad.append("%s: continuity after member %d reported %s" % (what, k, cont[k]))
            return
    gaps = [np.linalg.norm(M.point(k, 1.0) - M.point(k + 1, 0.0)) for k in range(n - 1) if spec[k]["act"] and spec[k + 1]["act"]]
    ends = np.linalg.norm(M.point(live[-1], 1.0) - M.point(live[0], 0.0))
    if not any(1e-9 < g < 1e-3 for g in gaps + [ends]):
        conn = all(g < 1e-7 for g in gaps)
        if bool(c.is_continuous) != conn:
            bad.append("%s: is_continuous is %s" % (what, c.is_continuous))
        if bool(c.is_closed) != (conn and ends < 1e-7):
            bad.append("%s: is_closed is %s" % (what, c.is_closed))


def run_chain(item, on_step=None):
    """replay a history of Chain.tla; returns (slots, bases, lens, bad, steps)"""
    import gggears.curve as crv

    lens, makers = chain_bases(item["seed"])
    bases = [make_member(m) for m in makers]
    new = lambda k: make_member(makers[k - 1]).curve  # noqa
    first = [new(k) for k in item["init"]]
    nest = item.get("nest")
    if nest:
        # group members in nested chains
        out, k = [], 0
        for g in nest:
            out.append(crv.CurveChain(*first[k:k + g]) if g > 1 else first[k])
            k += g
        first = out
    slots = {1: crv.CurveChain(*first)}
    bad = []
    for n, st in enumerate(item["hist"]):
        e = st["ev"]
        op, i, j, k = e["op"], e["i"], e["j"], e["k"]
        c = slots[i]
        what = "step %d %s" % (n, op)
        s, u, keep, pos = fr(e["s"]), fr(e["u"]), e["keep"], e["n"] - 1
        kw = dict(preserve_inactive_curves=True) if keep else {}
        if n % 2 and op in ("insert", "del", "pop", "set", "toggle") and pos < len(c):
            pos -= len(c)  # Python's way of counting from the end
        if op == "reverse":
            r = c.reverse()
            if r is not None and r is not c:
                bad.append(what + " returns something other than the chain")
        elif op == "start":
            c.set_start_on(s, **kw)
        elif op == "end":
            c.set_end_on(s, **kw)
        elif op == "both":
            c.set_start_and_end_on(s, u, **kw)
        elif op == "cut":
            slots[j], slots[k] = c.cut(s, **kw)
        elif op == "copy":
            slots[j] = c.copy()
        elif op == "append":
            c.append(new(e["id"]))
        elif op == "insert":
            c.insert(pos, new(e["id"]))
        elif op == "del":
            del c[pos]
        elif op == "pop":
            m = c[pos]
            if c.pop(pos) is not m:
                bad.append(what + " does not return the member")
        elif op == "poplast":
            m = c[-1]
            if c.pop() is not m:
                bad.append(what + " does not return the last member")
        elif op == "set":
            c[pos] = new(e["id"])
        elif op == "extend":
            c.extend((m.copy() for m in slots[j]) if n % 2 else [m.copy() for m in slots[j]])
        elif op == "toggle":
            c[pos].active = not c[pos].active
        elif op == "purge":
            c.del_inactive_curves()
        else:
            raise vf.Broken("unknown operation " + op)
        for m, spec in enumerate(st["chains"], 1):
            if len(spec) == 1 and spec[0]["id"] == 0:
                continue
            # list-only calls of one chain leave the others alone: all are checked
            check_chain(slots[m], spec, bases, lens, "%s slot %d" % (what, m), bad, flat=not nest)
            if on_step and not bad:
                on_step(slots[m], spec, bases, lens, "%s slot %d" % (what, m), bad)
        if bad:
            return slots, bases, lens, bad[:4], n + 1
    return slots, bases, lens, bad[:4], len(item["hist"])


def replay_chain(item):
    r = run_chain(item)
    return dict(bad=r[3], steps=r[4])


def chain_histories(ctx, num, depth, ex=0, seeds=3):
    """TLC behaviours of Chain.tla as replay items"""
    F = Fraction
    params = {F(1, 5), F(1, 3), F(1, 2), F(3, 4), F(5, 6)}
    lens = tuple(chain_bases(0)[0])
    inits = [(1, 2, 3), (1, 2, 3, 4), (2, 3)]
    thunks, meta = [], []

    def sim(init, listops, nest, n):
        defs = dict(BaseLen=lens, InitChain=init, Params=params)
        return lambda: ctx.mc("Chain", defs, dict(NSlots=3, MaxLen=depth, ListOps="TRUE" if listops else "FALSE"), spec=("Init", "SimNext"),
                              action_constraint="EmitLast", simulate=n, depth=depth + 1, label="Chain simulation", timeout=3000)

    for init, lo, nest in ((inits[0], True, None), (inits[1], True, None), (inits[1], False, (2, 1, 1)), (inits[1], False, (1, 3))):
        thunks.append(sim(init, lo, nest, num if lo else max(2, num // 2)))
        meta.append((init, nest))
    if ex:
        defs = dict(BaseLen=lens[:3], InitChain=inits[2], Params={F(1, 3), F(3, 4)})
        for lo in ("TRUE", "FALSE"):
            thunks.append(lambda lo=lo: ctx.mc("Chain", defs, dict(NSlots=3, MaxLen=ex if lo == "FALSE" else max(2, ex - 1), ListOps=lo), invariants=("RevRev",),
                                               properties=("CutAdds", "TrimLen"), view="View", label="Chain exhaustive", timeout=3000, workers=4) and [])
            meta.append((inits[2], None))
        thunks.append(lambda: ctx.mc("Chain", defs, dict(NSlots=3, MaxLen=2, ListOps="TRUE"), action_constraint="EmitLast", label="Chain all histories of length 2", timeout=3000))
        meta.append((inits[2], None))
    items = []
    for idx, ((init, nest), out) in enumerate(zip(meta, ctx.par(thunks))):
        hs = ctx.one_per_prefix(out) if idx < 4 else ctx.sample(out, ctx.pick(600, 20000))
        for h in hs:
            items.append(dict(seed=ctx.rng.randrange(10**6), init=list(init), nest=nest, hist=h))
    return items
