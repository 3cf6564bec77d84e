"""Binding of Xform.tla / XformObs.tla to the transform classes."""
import itertools
import math
import random
from fractions import Fraction

import numpy as np

import vf

PROBES = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [2, -3, 5]], dtype=float)


def lattice():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            m = np.zeros((3, 3), int)
            for i in range(3):
                m[i, p[i]] = s[i]
            if round(np.linalg.det(m)) == 1:
                out.append(tuple(tuple(int(x) for x in r) for r in m))
    return out


def classes():
    import gggears.gggears_base_classes as b

    return dict(T=b.Transform, TD=b.TransformData, G=b.GearTransform, GD=b.GearTransformData), b


def make(kind, c, o, a, s):
    cls, _ = classes()
    kw = dict(center=np.array(c, dtype=float), orientation=np.array(o, dtype=float), scale=float(s))
    if kind in ("G", "GD"):
        kw["angle"] = float(a)
    return cls[kind](**kw)


def snapshot(t):
    return (np.array(t.center).copy(), np.array(t.orientation).copy(), float(t.scale), float(getattr(t, "angle", 0.0)))


def same_snap(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))


def moves(t, p):
    """all the ways the library offers to apply t to points p"""
    _, b = classes()
    out = [("*", t * p)]
    gear = isinstance(t, b.GearTransformData)
    out.append(("apply", b.apply_gear_transform(p, t) if gear else b.apply_transform(p, t)))
    if callable(t):
        out.append(("call", t(p)))
    m = np.asarray(t.affine_matrix)
    out.append(("affine_matrix", p @ m[:3, :3].T + m[:3, 3]))
    if gear:
        import build123d as bd
        from gggears.gggears_build123d import transform2Location

        loc = transform2Location(t)
        pts = np.atleast_2d(p)
        out.append(("location", np.array([tuple((loc * bd.Location(tuple(float(x) for x in t.scale * v))).position) for v in pts]).reshape(p.shape)))
    return out


def replay(hist):
    _, b = classes()
    nreg = max([e["i"] for e in hist] + [e["j"] for e in hist] + [e["k"] for e in hist] + [3])
    reg = {}
    for i in range(1, nreg + 1):
        reg[i] = b.GearTransform() if i % 2 else b.Transform()
    exp = {i: PROBES for i in reg}
    bad = []
    for n, e in enumerate(hist):
        before = {i: (reg[i], snapshot(reg[i])) for i in reg}
        if e["op"] == "load":
            new = make(e["kind"], [Fraction(*x) for x in e["c"]], e["o"], e["a"] * math.pi / 2, Fraction(*e["s"]))
        elif e["op"] == "mul":
            new = reg[e["j"]] * reg[e["k"]]
        elif e["op"] == "inv":
            new = reg[e["j"]].invert()
        else:
            new = reg[e["j"]].invert() * reg[e["k"]]
        for i, (obj, s) in before.items():
            if not same_snap(s, snapshot(obj)):
                bad.append("step %d %s changed its operand %d" % (n, e["op"], i))
        reg[e["i"]] = new
        exp[e["i"]] = np.array([[float(Fraction(*x)) for x in v] for v in e["img"]])
        for i in reg:
            tol = 1e-8 * (1 + np.abs(exp[i]).max())
            p0 = PROBES.copy()
            for name, got in moves(reg[i], p0):
                if np.shape(got) != exp[i].shape or not np.abs(got - exp[i]).max() <= tol:
                    bad.append("step %d %s: register %d by %s gives %s, specified %s" % (
                        n, e["op"], i, name, np.round(got, 6).tolist(), exp[i].tolist()))
            for k in (1, 4):
                got = reg[i] * PROBES[k].copy()
                if np.shape(got) != (3,) or not np.abs(got - exp[i][k]).max() <= tol:
                    bad.append("step %d: single point" % n)
            if not np.array_equal(p0, PROBES):
                bad.append("step %d changed the points" % n)
        if bad:
            break
    return dict(bad=bad[:5], steps=len(hist))


def rand_rot(rng):
    from scipy.spatial.transform import Rotation

    if rng.random() < 0.2:
        return np.array(rng.choice(lattice()), float)
    return Rotation.from_quat([rng.gauss(0, 1) for _ in range(4)]).as_matrix()


def rand_t(rng, kind):
    s = rng.choice([1.0, rng.uniform(0.05, 20), 0.01, 300.0])
    c = [rng.choice([0.0, rng.uniform(-5, 5), rng.uniform(-500, 500)]) for _ in range(3)]
    a = rng.choice([0.0, rng.uniform(-7, 7), rng.uniform(-40, 40), math.pi])
    return make(kind, c, rand_rot(rng), a, s)


def observe(job):
    rng = random.Random(job["seed"])
    _, b = classes()
    kinds = rng.choice([("T", "T", "T"), ("TD", "TD", "TD"), ("G", "G", "G"), ("GD", "GD", "GD"), ("T", "G", "G"), ("TD", "T", "GD"), ("G", "GD", "G"), ("T", "TD", "G")])
    a, bb, c = (rand_t(rng, k) for k in kinds)
    snaps = [snapshot(x) for x in (a, bb, c)]
    p = np.array([[rng.uniform(-9, 9) for _ in range(3)] for _ in range(6)])
    p0 = p.copy()

    def rel(x, y, size=None):
        x, y = np.asarray(x, float), np.asarray(y, float)
        if x.shape != y.shape:
            return 1.0
        return float(np.abs(x - y).max() / (1 + np.abs(y).max() + (size or 0)))

    def ap(t, q):
        return t * q

    r = dict(kind="xform", cls="".join(kinds))
    U = 1e-10
    r["compose"] = vf.q(max(rel(ap(a * bb, p), ap(a, ap(bb, p))), rel(ap(bb * c, p), ap(bb, ap(c, p)))), U)
    r["assoc"] = vf.q(rel(ap((a * bb) * c, p), ap(a * (bb * c), p)), U)
    big = np.abs(a.center).max() / a.scale
    r["inv_left"] = vf.q(max(rel(ap(a.invert(), ap(a, p)), p, big), rel(ap(a.invert() * a, p), p, big)), U)
    big = np.abs(a.center).max()
    r["inv_right"] = vf.q(max(rel(ap(a, ap(a.invert(), p)), p, big), rel(ap(a * a.invert(), p), p, big)), U)
    one = type(a)()
    r["identity"] = vf.q(max(rel(ap(one, p), p), rel(ap(one * a, p), ap(a, p)), rel(ap(a * one, p), ap(a, p))), U)
    ref = ap(a, p)
    al = dict(moves(a, p))
    r["matrix"] = vf.q(max(rel(al["affine_matrix"], ref), rel(al["apply"], ref), rel(al.get("call", ref), ref)), U)
    g = rand_t(rng, rng.choice(["G", "GD"]))
    gl = dict(moves(g, p))
    r["location"] = vf.q(rel(gl["location"], gl["*"]) * 0.1, U)  # OCCT keeps ~1e-9 of rotations
    cube = p.reshape(2, 3, 3)
    r["shapes"] = vf.q(max(rel(ap(a, cube).reshape(-1, 3), ref), max(rel(ap(a, p[k]), ref[k]) for k in range(6)), rel(ap(a, p[:1]), ref[:1]), rel(ap(a, p[:3]), ref[:3])), U)
    d0 = np.linalg.norm(p[1:] - p[:-1], axis=1) * a.scale
    d1 = np.linalg.norm(ref[1:] - ref[:-1], axis=1)
    r["similar"] = vf.q(np.abs(d1 - d0).max() / (1 + d0.max() + np.abs(a.center).max()), U)
    ok = all(same_snap(s, snapshot(x)) for s, x in zip(snaps, (a, bb, c))) and np.array_equal(p, p0)
    r["operands"] = 0 if ok else 1
    return dict(bad=[], rec=[r])


def defs(ctx, small):
    rng = ctx.rng
    F = Fraction
    if small:
        cs = [(F(0),) * 3, (F(1), F(-2), F(3))]
        orients = [lattice()[i] for i in rng.sample(range(24), 2)]
        angles, scales, kinds = [0, 1], [F(1), F(2, 3)], ["T", "G"]
    else:
        cs = [(F(0),) * 3, (F(1), F(-2), F(3)), (F(7), F(0), F(0)), (F(1, 2), F(3, 2), F(-5))]
        orients, angles = lattice(), [0, 1, 2, 3, -1, 5]
        scales, kinds = [F(1), F(2), F(1, 2), F(3), F(2, 3)], ["T", "TD", "G", "GD"]
    return dict(Centers=set(cs), Orients=set(orients), Angles=set(angles), Scales=set(scales), Kinds=set(kinds))
