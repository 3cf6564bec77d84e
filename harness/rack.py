"""Racks (P19): histories of Rack.tla on real racks and gears, and measurements of rack parts."""
import math
import random
from fractions import Fraction

import numpy as np

import vf
from meshobs import rand_rot
from placement import constants, core_of, get

PI = math.pi
DEG = PI / 180


def fr(v):
    return float(Fraction(v[0], v[1]))


class Dims:
    """transverse dimensions of a rack as specified, in transverse modules"""

    def __init__(self, n, m, al, ha, hd, bl, beta, height, hb):
        cb = math.cos(beta)
        self.n, self.mt, self.al = n, m / cb, math.atan(math.tan(al) / cb)
        self.ha, self.hd, self.bl, self.beta, self.hb = ha * cb, hd * cb, bl, beta, hb
        self.height = height / self.mt

    def half(self, x):
        """half width of a tooth at height x over the pitch line"""
        return PI / 4 - math.tan(self.al) * x - self.bl

    def shear(self, z):
        """shift of the section at axial height z: the tooth follows the helix"""
        if self.hb:
            z = min(z, self.height - z)
        return -math.tan(self.beta) * z

    def mid(self, off):
        even = 0.5 if self.n % 2 == 0 else 0.0
        return [(j - (self.n - 1) / 2 + even + off) * PI for j in range(self.n)]

    def area(self):
        return self.n * (PI * 1.0 + (self.ha + self.hd) * (self.half(self.ha) + self.half(-self.hd)))


def make(rng, kind, place=None):
    gg = vf.load()
    m = rng.choice([1.0, 2.0, rng.uniform(0.3, 4), 10 ** rng.uniform(-1.3, 1.2)])
    al = rng.choice([20, 20, 25, rng.uniform(18, 26)]) * DEG
    n = rng.choice([rng.randint(3, 9), rng.randint(3, 9), rng.randint(1, 25)])
    h = m * rng.choice([rng.uniform(0.5, 4), rng.uniform(0.1, 15)])
    ha, hd = rng.choice([1.0, rng.uniform(0.7, 1.0)]), rng.choice([1.2, rng.uniform(1.1, 1.4)])
    bl = rng.choice([0, 0, rng.uniform(0, 0.06)])
    beta = 0.0 if kind == "spur" else rng.choice([-1, 1]) * rng.choice([rng.uniform(3, 32), rng.uniform(0.3, 45)]) * DEG
    hb = kind == "herringbone"
    kw = dict(number_of_teeth=n, height=h, pressure_angle=al, module=m, addendum_coefficient=ha, dedendum_coefficient=hd, backlash=bl)
    if kind == "spur":
        rack = gg.InvoluteRack(**kw, **(place or {}))
    else:
        rack = gg.HelicalRack(helix_angle=beta, herringbone=hb, **kw, **(place or {}))
    return rack, Dims(n, m, al, ha, hd, bl, beta, h, hb), dict(kw, kind=kind, beta=beta), al, m, beta, hb, h


def vertices(part):
    return np.array([[v.X, v.Y, v.Z] for v in part.vertices()])


def measure(rack, D, pos, ori, off, what, rf=0.0, tf=0.0):
    """build the part and compare it with the specified rack at the given placement"""
    part = rack.build_part()
    L = (vertices(part) - pos) @ ori / D.mt
    L[:, 1] -= np.array([D.shear(min(max(z, 0), D.height)) for z in L[:, 2]])
    mids = D.mid(off)
    sharp = not (rf or tf)
    zs = [0.0, D.height / 2, D.height] if D.hb else [0.0, D.height]
    cor = []
    for y in mids:
        for x, skip in ((D.ha, tf), (-D.hd, rf)):
            if not skip:
                cor += [(x, y + s * D.half(x), z) for s in (1, -1) for z in zs]
    cor += [(-D.hd - 1, y, z) for y in (mids[0] - PI / 2, mids[-1] + PI / 2) for z in zs]
    corner = max([np.min(np.linalg.norm(L - np.array(c), axis=1)) for c in cor] or [0.0])
    # every vertex on the outline
    segs = []
    for y in mids:
        p = [(-D.hd, y - PI / 2), (-D.hd, y - D.half(-D.hd)), (D.ha, y - D.half(D.ha)), (D.ha, y + D.half(D.ha)), (-D.hd, y + D.half(-D.hd)), (-D.hd, y + PI / 2)]
        segs += list(zip(p, p[1:]))
    a, b = mids[0] - PI / 2, mids[-1] + PI / 2
    segs += [((-D.hd, a), (-D.hd - 1, a)), ((-D.hd - 1, a), (-D.hd - 1, b)), ((-D.hd - 1, b), (-D.hd, b))]

    def dist(q):
        best = 1e9
        for s, e in segs:
            s, e = np.array(s), np.array(e)
            t = np.clip(np.dot(q - s, e - s) / np.dot(e - s, e - s), 0, 1)
            best = min(best, np.linalg.norm(q - s - t * (e - s)))
        return best

    on = max(max(dist(q[:2]), min(abs(q[2] - z) for z in zs)) for q in L)
    # teeth: runs of vertices on the tip line
    ys = sorted(set(np.round(L[np.abs(L[:, 0] - D.ha) < 1e-6][:, 1], 6)))
    teeth = sum(1 for y in mids if len([v for v in ys if abs(v - y) < PI / 2]) == 2) if len(ys) == 2 * D.n else -len(ys)
    vol = part.volume / D.mt ** 3
    wvol = D.area() * D.height
    # fillets add material in the root corners and take some off at the tips
    beta_out = PI / 2 - D.al        # angle by which the outline turns at tip and root corners
    piece = lambda r: r * r * (math.tan(beta_out / 2) - beta_out / 2)  # noqa
    add = 2 * D.n * D.height * (piece(rf) - piece(tf))
    u = lambda v: vf.q(v, 1e-6)  # noqa
    again = rack.build_part()
    W = (vertices(again) - pos) @ ori / D.mt
    W[:, 1] -= np.array([D.shear(min(max(z, 0), D.height)) for z in W[:, 2]])
    far = max(np.min(np.linalg.norm(W - q, axis=1)) for q in L) if len(W) == len(L) else 9.0
    return dict(kind="rack", corner=u(corner), on=u(on), bot=u(L[:, 2].min()), top=u(L[:, 2].max()), height=u(D.height), high=u(L[:, 0].max()), ha=u(D.ha),
                root=u(max(x for x in L[:, 0] if x < -D.hd + 0.3 and (not rf or x < -D.hd + 1e-3))), hd=u(D.hd), teeth=teeth, n=D.n, vol=u((vol - add) / wvol), wvol=1000000, vtol=20, added=u((vol - wvol) / wvol),
                wadded=u(add / wvol + 2e-5), ladded=u(add / wvol - 2e-5), solids=len(part.solids()), valid=int(bool(part.is_valid)), again=u(far), what=what)


def alone(job):
    """racks placed by their own arguments"""
    rng = random.Random(job["seed"])
    rack, D, what, *_ = make(rng, job["kind"])
    rack.position = np.array([rng.uniform(-30, 30) for _ in range(3)])
    rack.orientation = rand_rot(rng)
    rack.offset = rng.choice([0, rng.uniform(-4, 4), rng.randint(-3, 3), rng.uniform(-90, 90)])
    rf = tf = 0.0
    if rng.random() < 0.5:
        rf, tf = rng.choice([(0.1, 0.0), (0.0, 0.1), (0.12, 0.08)])
        rack.root_fillet, rack.tip_fillet = rf, tf
    off = rack.offset
    rec = measure(rack, D, np.array(rack.position), np.array(rack.orientation), off, dict(what, off=off, rf=rf, tf=tf, seed=job["seed"]), rf, tf)
    return dict(bad=[], rec=[rec], count={job["kind"]: 1})


def play(rack, g, D, Zg, al, zz, pos, ori, off):
    """largest shifts of the rack along its line, both ways, that leave its teeth clear of the gear; and the radial gaps"""
    pr = core_of(g).curve_gen_at_z(zz)
    tc = pr.tooth_curve
    fl = np.array([tc(float(s)) for s in np.linspace(0, 1, 400)])
    both = np.vstack([fl, fl * [1, -1, 1]])
    trf = core_of(g).transform * pr.transform
    c, o, a = get(g)
    k0 = 0
    # the teeth next to the pitch point
    v = o.T @ (pos - c)
    k0 = round((math.atan2(v[1], v[0]) - a - float(pr.transform.angle)) * Zg / (2 * PI))
    plus = minus = 9.0
    deep = 9.0
    for k in range(k0 - 2, k0 + 3):
        t = 2 * PI * k / Zg
        R = np.array([[math.cos(t), -math.sin(t), 0], [math.sin(t), math.cos(t), 0], [0, 0, 1.0]])
        w = (np.asarray(trf(both @ R.T)) - pos) @ ori / D.mt
        x = w[:, 0]
        y = w[:, 1] - D.shear(w[0, 2]) - off * PI
        deep = min(deep, float(np.min(x + D.hd)))
        ins = (x < D.ha) & (x > -D.hd)
        for xx, yy in zip(x[ins], y[ins]):
            j = math.floor(yy / PI + 0.5)
            d = yy - j * PI          # from the centre of the nearest rack tooth
            hw = D.half(xx)
            if d >= 0:
                plus = min(plus, d - hw)
                minus = min(minus, PI - d - hw)
            else:
                minus = min(minus, -d - hw)
                plus = min(plus, PI + d - hw)
    return plus, minus, deep


def replay(item):
    gg = vf.load()
    rng = random.Random(item["seed"])
    kind, Zg = item["kind"], item["z"]
    held = {}
    if rng.random() < 0.6:
        held = dict(position=np.array([rng.uniform(-30, 30) for _ in range(3)]), orientation=rand_rot(rng))
    pos, ori = (held["position"].copy(), held["orientation"].copy()) if held else (np.zeros(3), np.eye(3))
    rack, D, what, al, m, beta, hb, h = make(rng, kind, held)
    held = list(held.values())
    twin = gg.InvoluteRack() if rng.random() < 0.5 else gg.HelicalRack()
    consts = constants()
    x = rng.choice([0, rng.uniform(-0.05, 0.4)])
    blg = rng.choice([0, 0, rng.uniform(0, 0.05)])
    gkw = dict(number_of_teeth=Zg, module=m, pressure_angle=al, height=h, profile_shift=x, backlash=blg, addendum_coefficient=0.9, dedendum_coefficient=1.3,
               z_anchor=0 if hb else rng.choice([0, 0.5, rng.random()]))
    if kind == "spur":
        g = (gg.SpurGear if rng.random() < 0.7 else gg.InvoluteGear)(**gkw)
    else:
        g = gg.HelicalGear(helix_angle=beta, herringbone=hb, **gkw)
    what = dict(what, z=Zg, x=x, blg=blg, anc=gkw["z_anchor"], seed=item["seed"])
    cb = math.cos(beta)
    rp = Zg * D.mt / 2
    pit = 2 * PI / Zg
    if abs(g.pitch_radius - rp) > 1e-9 * rp:
        return dict(bad=["pitch radius of %s" % what], steps=0)
    bad, recs, steps, builds = [], [], 0, 0

    def say(msg):
        bad.append("step %d %s of %s: %s" % (steps, st["op"], what, msg))

    for st in item["hist"]:
        op, arg, e = st["op"], st["arg"], st["exp"]
        before = get(g)
        if op == "mesh":
            c, o, a = before
            th = arg["dir"] * PI / 12
            d = o @ np.array([math.cos(th), math.sin(th), 0.0])
            # only the part of the direction across the axis counts, not its length
            dd = d * rng.choice([1.0, rng.uniform(0.1, 8)]) + rng.choice([0, rng.uniform(-2, 2)]) * o[:, 2]
            arr = dd.copy()
            rack.mesh_to(g, target_dir=arr, offset=fr(arg["off"]))
            if not np.array_equal(arr, dd):
                bad.append("step %d mesh of %s: the direction array of the caller became %s" % (steps, what, arr.tolist()))
            held.append(arr)
            pos = c + d * (rp + x * m)
            ori = np.column_stack([-d, np.cross(o[:, 2], -d), o[:, 2]])
        elif op == "roll":
            g.angle = g.angle + fr(arg) * pit
            rack.offset = rack.offset - fr(arg)
        elif op == "turn":
            g.angle = fr(arg) * pit
        elif op == "move":
            g.center = np.array([rng.uniform(-30, 30) for _ in range(3)])
            core_of(g).transform.orientation = rand_rot(rng)
        elif op == "scribble":
            for arr in held + [twin.position, twin.orientation]:
                if arr.flags.writeable:
                    arr += rng.uniform(1, 2)
            now = constants()
            for name in consts:
                if not np.array_equal(now[name], consts[name]):
                    bad.append("step %d of %s: the library constant %s became %s" % (steps, what, name, now[name].tolist()))
        elif builds < 2 and item["build"] and e["meshed"]:
            builds += 1
            recs.append(measure(rack, D, pos, ori, fr(e["off"]), dict(what, off=fr(e["off"]))))
        after = get(g)
        if op in ("mesh", "build", "scribble") and not (np.array_equal(before[0], after[0]) and np.array_equal(before[1], after[1]) and before[2] == after[2]):
            say("the gear moved")
        if abs(after[2] / pit - fr(e["a"])) > 1e-9:
            say("gear angle")
        if abs(rack.offset - fr(e["off"])) > 1e-7:
            # a direction on the boundary between two teeth may round either way
            dlt = rack.offset - fr(e["off"])
            edge = abs((fr(e["off"]) - 0.5) % 1) if op == "mesh" else 1
            if not (abs(abs(dlt) - 1) < 1e-7 and min(edge, 1 - edge) < 1e-7):
                say("offset is %.9g instead of %s" % (rack.offset, e["off"]))
            else:
                return dict(bad=[], rec=recs, steps=steps, count={"edge": 1})
        if np.max(np.abs(np.asarray(rack.position) - pos)) > 1e-7 * (1 + rp):
            say("position is %s instead of %s" % (rack.position, pos))
        if np.max(np.abs(np.asarray(rack.orientation) - ori)) > 1e-8:
            say("orientation is %s instead of %s" % (np.asarray(rack.orientation).tolist(), ori.tolist()))
        if e["meshed"] and not bad:
            zz = (rng.random() - gkw["z_anchor"]) * h / D.mt
            p, q, deep = play(rack, g, D, Zg, al, zz, pos, ori, rack.offset)
            w = blg + D.bl
            tol = 3e-4
            # length of the path of contact in base pitches: below one the flanks leave each other at times
            R, ga = Zg / 2, (0.9 + x) * cb
            path = math.sqrt((R + ga) ** 2 - (R * math.cos(D.al)) ** 2) - R * math.sin(D.al) + min((D.ha - x * cb) / math.sin(D.al), R * math.sin(D.al))
            apart = path < 1.08 * PI * math.cos(D.al)
            if min(p, q) < w - tol or not apart and max(p, q) > w + tol:
                say("play between gear and rack is %.5g and %.5g instead of %.5g" % (p, q, w))
            if deep < -tol:
                say("gear tips reach %.4g into the rack" % -deep)
        steps += 1
        if bad:
            break
    return dict(bad=bad, rec=recs, steps=steps, count={kind: 1})
