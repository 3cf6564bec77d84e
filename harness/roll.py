"""Rolling pairs of real gears (P03): play of the meshed gear, measured between the real profiles."""
import math
import random

import numpy as np

import vf
from meshobs import rand_dir, scramble
from placement import core_of, get

PI = math.pi
DEG = PI / 180
KINDS = ["spur", "ring", "helical", "helring", "cycloid", "cycring", "bevel", "cycbevel"]
Z = np.array([0, 0, 1.0])


class Side:
    """one gear of a pair with the data of its construction"""

    def __init__(self, g, z, rp, gam, ring, al, zz, hd, bl, uc):
        self.g, self.z, self.rp, self.gam, self.ring, self.al, self.zz, self.hd, self.bl, self.uc = g, z, rp, gam, ring, al, zz, hd, bl, uc
        core = core_of(g)
        self.prof = core.curve_gen_at_z(zz)
        tc = self.prof.tooth_curve
        S = np.linspace(0, 1, 500)
        self.flank = np.array([tc(float(s)) for s in S])
        h, phi = self.polar_ref(self.flank)
        self.h, self.w = h, -phi
        self.mono = bool(np.all(np.diff(h) > -1e-9))
        # both flanks and the middle of tip and root, for one tooth
        mirror = self.flank * [1, -1, 1]
        ref = self.flank[-1]
        tip = np.array([math.hypot(ref[0], ref[1]), 0, ref[2]])
        self.pts = np.vstack([self.flank, mirror, tip[None, :]])
        self.pitch = 2 * PI / z

    def polar_ref(self, q):
        """height over the pitch surface and angle, in the reference frame of the section"""
        phi = np.arctan2(q[:, 1], q[:, 0])
        if not self.gam:
            return np.hypot(q[:, 0], q[:, 1]) - self.z / 2, phi
        zr = self.z / 2
        R = zr / math.sin(self.gam)
        v = q - np.array([0, 0, zr / math.tan(self.gam)])
        u = v / np.linalg.norm(v, axis=1)[:, None]
        return R * (np.arccos(np.clip(-u[:, 2], -1, 1)) - self.gam), phi

    def world(self, teeth):
        trf = core_of(self.g).transform * self.prof.transform
        out = []
        for j in teeth:
            a = j * self.pitch
            c, s = math.cos(a), math.sin(a)
            out.append(self.pts @ np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]]).T)
        p = np.vstack(out)
        return np.asarray(trf(p))

    def local(self, q):
        """world points in the reference frame of the section: height and angle"""
        c, o, a = get(self.g)
        a = a + float(self.prof.transform.angle)
        rot = np.array([[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1.0]])
        v = (q - c) @ (o @ rot) / (self.rp / (self.z / 2))
        # sections of conic gears are scaled towards the apex
        if self.gam:
            zr = self.z / 2
            R = zr / math.sin(self.gam)
            apex = np.array([0, 0, zr / math.tan(self.gam)])
            v = apex + (v - apex) / (1 - self.zz / R)
        return self.polar_ref(v)

    def teeth_towards(self, p, n=3):
        c, o, a = get(self.g)
        v = o.T @ (p - c)
        k = round((math.atan2(v[1], v[0]) - a - float(self.prof.transform.angle)) / self.pitch)
        return range(k - n, k + n + 1)


def play(A, B, pt, n=3):
    """rotations of A in both senses until it touches B; overlaps of B's points with A's root circle"""
    q = B.world(B.teeth_towards(pt, n))
    h, phi = A.local(q)
    ok = (h > A.h[0]) & (h < A.h[-1])
    hh, ph = h[ok], phi[ok]
    w = np.interp(hh, A.h, A.w)
    if A.ring:
        # the points of the pinion lie in a tooth space
        r = ph - np.round(ph / A.pitch) * A.pitch
        root = A.h[-1] - h.max()
        return float(np.min(w + r)), float(np.min(w - r)), float(root)
    r = ph - np.floor(ph / A.pitch) * A.pitch
    root = h.min() - A.h[0]
    return float(np.min(r - w)), float(np.min(A.pitch - r - w)), float(root)


def make(rng, kind):
    gg = vf.load()
    m = rng.choice([0.5, 1.0, 2.0, rng.uniform(0.4, 5), 10 ** rng.uniform(-1.3, 1.2)])
    ring = kind.endswith("ring")
    few = 7 if kind.startswith("cyc") else 12
    z1 = rng.choice([rng.randint(20, 45), rng.randint(20, 45), rng.randint(few, 20), rng.randint(45, 110)])
    z2 = rng.choice([rng.randint(20, 55), rng.randint(20, 55), rng.randint(few, 20), rng.randint(55, 110)])
    if ring:
        z2 = z1 + max(rng.choice([rng.randint(16, 40), rng.randint(40, 70)]), int(0.5 * z1) if z1 > 45 else 0)
    if kind.endswith("bevel"):
        z1, z2 = rng.randint(20, 45), rng.randint(20, 55)
    h = m * rng.uniform(0.5, 3)
    anc = rng.choice([0, 0.5, rng.random()])
    ratio = rng.random()
    bl1 = bl2 = 0.0
    cr1, cr2 = rng.choice([0, 0, rng.uniform(0, 80)]), 0 if ring else rng.choice([0, 0, rng.uniform(0, 80)])
    if kind in ("spur", "ring"):
        al = rng.choice([20, 20, 25, rng.uniform(14, 30)]) * DEG
        x1 = rng.choice([0, rng.uniform(-0.1, 0.4), rng.uniform(-0.4, 0.7)])
        x2 = rng.choice([0, -x1, rng.uniform(-0.1, 0.4)])
        bl1, bl2 = rng.choice([0, 0, rng.uniform(0, 0.05)]), rng.choice([0, 0, rng.uniform(0, 0.05)])
        k = dict(module=m, pressure_angle=al, height=h, z_anchor=anc)
        uc1, uc2 = rng.random() < 0.5, rng.random() < 0.5
        f1, f2 = rng.choice([0, 0.1]), rng.choice([0, 0.1])
        if ring:
            x2 = x1 + rng.uniform(0, 0.15)
        g1 = gg.SpurGear(number_of_teeth=z1, profile_shift=x1, crowning=cr1, backlash=bl1, enable_undercut=uc1, root_fillet=0 if uc1 else f1, **k)
        if ring:
            uc2 = False
            g2 = gg.SpurRingGear(number_of_teeth=z2, profile_shift=x2, backlash=-bl2, root_fillet=0.1, **k)
        else:
            g2 = gg.SpurGear(number_of_teeth=z2, profile_shift=x2, crowning=cr2, backlash=bl2, enable_undercut=uc2, root_fillet=0 if uc2 else f2, **k)
        mt, be = m, 0.0
    elif kind in ("helical", "helring"):
        al = 20 * DEG
        be = rng.choice([-1, 1]) * rng.uniform(5, 30) * DEG
        x1 = rng.uniform(-0.1, 0.3)
        x2 = x1 if ring else rng.choice([0, rng.uniform(-0.1, 0.3)])
        uc1 = rng.random() < 0.5
        uc2 = False
        k = dict(module=m, pressure_angle=al, height=h, z_anchor=anc, herringbone=rng.random() < 0.3)
        g1 = gg.HelicalGear(number_of_teeth=z1, crowning=cr1, helix_angle=be, profile_shift=x1, enable_undercut=uc1, **k)
        if ring:
            g2 = gg.HelicalRingGear(number_of_teeth=z2, helix_angle=be, profile_shift=x2, **k)
        else:
            uc2 = uc1
            g2 = gg.HelicalGear(number_of_teeth=z2, crowning=cr2, helix_angle=-be, profile_shift=x2, enable_undercut=uc2, **k)
        mt = m / math.cos(be)
    elif kind in ("cycloid", "cycring"):
        al = be = x1 = x2 = 0.0
        uc1 = uc2 = False
        mt = m
        bl1, bl2 = rng.choice([0, 0, rng.uniform(0, 0.05)]), rng.choice([0, 0, rng.uniform(0, 0.05)])
        k = dict(module=m, height=h, z_anchor=anc)
        g1 = gg.CycloidGear(number_of_teeth=z1, crowning=cr1, backlash=bl1, inside_cycloid_coefficient=rng.uniform(0.25, 0.5), outside_cycloid_coefficient=rng.uniform(0.25, 0.5), **k)
        g2 = gg.CycloidGear(number_of_teeth=z2, crowning=cr2, backlash=-bl2 if ring else bl2, inside_teeth=ring, inside_cycloid_coefficient=rng.uniform(0.15, 0.25) if ring else rng.uniform(0.25, 0.5),
                            outside_cycloid_coefficient=rng.uniform(0.15, 0.25) if ring else rng.uniform(0.25, 0.5), **(dict(k, addendum_coefficient=1.2, dedendum_coefficient=1.0) if ring else k))
        if rng.random() < 0.5:
            g1.adapt_cycloid_radii(g2)
        else:
            g2.adapt_cycloid_radii(g1)
    else:
        al = rng.choice([20, 20, 25]) * DEG
        be = x1 = x2 = 0.0
        sh = rng.choice([90, 90, rng.uniform(60, 110)]) * DEG
        ga1 = math.atan2(math.sin(sh), z2 / z1 + math.cos(sh))
        ga2 = sh - ga1
        mt = m
        bl1, bl2 = rng.choice([0, 0, rng.uniform(0, 0.05)]), rng.choice([0, 0, rng.uniform(0, 0.05)])
        h = min(h, 0.25 * m * z1 / 2 / math.sin(ga1))
        k = dict(module=m, height=h, z_anchor=anc)
        uc1 = uc2 = False
        if kind == "bevel":
            x1 = rng.choice([0, rng.uniform(0, 0.2)])
            x2 = -x1
            uc1 = uc2 = rng.random() < 0.4
            k.update(pressure_angle=al, enable_undercut=uc1)
            g1 = gg.BevelGear(number_of_teeth=z1, cone_angle=2 * ga1, crowning=cr1, backlash=bl1, profile_shift=x1, **k)
            g2 = gg.BevelGear(number_of_teeth=z2, cone_angle=2 * ga2, crowning=cr2, backlash=bl2, profile_shift=x2, **k)
        else:
            al = 0.0
            g1 = gg.CycloidGear(number_of_teeth=z1, cone_angle=2 * ga1, crowning=cr1, backlash=bl1, **k)
            g2 = gg.CycloidGear(number_of_teeth=z2, cone_angle=2 * ga2, crowning=cr2, backlash=bl2, **k)
            g1.adapt_cycloid_radii(g2)
    bevel = kind.endswith("bevel")
    zz = (ratio - anc) * h / mt
    cb = math.cos(be)
    hd1, hd2 = (1.2 - x1) * cb, (1.2 - x2) * cb
    at = math.atan(math.tan(al) / cb)
    A = Side(g1, z1, mt * z1 / 2, ga1 if bevel else 0.0, False, at, zz, hd1, bl1, uc1)
    B = Side(g2, z2, mt * z2 / 2, ga2 if bevel else 0.0, ring, at, zz, hd2, bl2, uc2)
    # thinning of the flanks of both gears at this section, in modules
    A.thin, B.thin = ((2 * ratio - 1) ** 2 * c * 1e-3 for c in (cr1, cr2))
    what = dict(cr1=cr1, cr2=cr2, kind=kind, z1=z1, z2=z2, m=m, al=al, x1=x1, x2=x2, bl1=bl1, bl2=bl2, be=be, uc1=uc1, uc2=uc2, ratio=ratio, anc=anc, h=h)
    return A, B, what


def inv(a):
    return math.tan(a) - a


def feasible(A, B, kind, aw_dist, alw, b):
    """True when the flanks stay in touch all the time (contact ratio, no interference): involute pairs"""
    ring = B.ring
    m = A.rp / (A.z / 2)
    p = PI * m * math.cos(A.al)
    ext = []
    for g in (A, B):
        ra, rd, rb = g.rp + g.h[-1] * m, g.rp + g.h[0] * m, g.rp * math.cos(g.al)
        ext.append((ra, rd, rb))
    (ra1, rd1, rb1), (ra2, rd2, rb2) = ext
    L = aw_dist * math.sin(alw)
    t1 = math.sqrt(ra1 ** 2 - rb1 ** 2)            # from the tangent point of A to the end of contact
    if not ring:
        t2 = math.sqrt(ra2 ** 2 - rb2 ** 2)
        cr = (t1 + t2 - L) / p
        s1, s2 = L - t2, L - t1                     # start of contact seen from the tangent points
    else:
        t2 = math.sqrt(max(0, rd2 ** 2 - rb2 ** 2)) if rd2 > rb2 else 0.0  # ring tip circle
        if rd2 < rb2 * 1.002:
            return None
        # along the line of action from A's tangent point: contact from t2 - L to t1
        cr = (t1 - (t2 - L)) / p
        s1, s2 = t2 - L, 1e9
        # tips of an internal pair pass one another only if (textbook condition for trochoidal interference)
        x1 = (rd2 ** 2 - ra1 ** 2 - aw_dist ** 2) / (2 * aw_dist * ra1)
        x2 = (aw_dist ** 2 + rd2 ** 2 - ra1 ** 2) / (2 * aw_dist * rd2)
        if abs(x1) < 1 and abs(x2) < 1:
            th1 = math.acos(x1) + inv(math.acos(min(1, rb1 / ra1))) - inv(alw)
            if th1 * A.z / B.z + inv(alw) - inv(math.acos(min(1, rb2 / rd2))) < math.acos(x2) + (1.05 * b + 0.05 * m) / rb2:
                return None
    for g, s in ((A, s1), (B, s2)):
        if g.ring:
            continue
        form = 0.03 * m
        if g.uc:
            f = g.rp * math.sin(g.al) - g.hd * m / math.sin(g.al)
            if f < 0.02 * m:
                return None
            form = max(form, f)
        if s < form + 0.02 * m:
            return None
    # tips clear of roots
    if not ring and min(aw_dist - ra1 - rd2, aw_dist - ra2 - rd1) < 0.03 * m:
        return None
    if ring and (ra2 - aw_dist - ra1 < 0.03 * m or rd2 - aw_dist - rd1 < 0.03 * m):
        return None
    return cr


def replay(item):
    rng = random.Random(item["seed"])
    kind = item["kind"]
    for _ in range(50):
        A, B, what = make(rng, kind)
        if not (A.mono and B.mono):
            continue
        b = rng.choice([rng.uniform(0.02, 0.25), rng.uniform(0.25, 0.7)]) * what["m"] if kind in ("spur", "ring") else 0.0
        # which of them is moved, which stays
        S, O = (A, B) if rng.random() < 0.5 else (B, A)
        scramble(O.g, rng)
        bad, steps = [], 0
        ok = True
        for st in item["hist"]:
            op, arg = st["op"], st["arg"]
            where = "step %d %s%s of %s" % (steps, op, arg, what)
            c, o, a = get(O.g)
            if op == "mesh":
                d, dd = rand_dir(rng, o, scale=False)
                if kind in ("spur", "ring"):
                    S.g.mesh_to(O.g, target_dir=dd, backlash=arg[0] * b, angle_bias=arg[1] / 4)
                else:
                    S.g.mesh_to(O.g, target_dir=dd)
            elif op == "roll":
                th = arg[0] * O.pitch * 0.0817
                O.g.angle = O.g.angle + th
                S.g.angle = S.g.angle + (th if A.ring or B.ring else -th) * O.z / S.z
            else:
                S.g.angle = S.g.angle + arg[0] * b / 8 / (S.rp * math.cos(S.al))
            # where the pitch surfaces touch
            cs, cp, cb = get(S.g)[0], get(O.g)[0], 0
            if not A.gam:
                dist = float(np.linalg.norm(cs - cp))
                alw = math.acos(min(1.0, (B.rp + (-A.rp if B.ring else A.rp)) * math.cos(A.al) / dist)) if A.al else 0.0
                u = (get(A.g)[0] - get(B.g)[0]) / dist
                pt = get(A.g)[0] + u * A.rp * (1 if B.ring else -1)
                cr = feasible(A, B, kind, dist, alw, b) if A.al else contact_cyc(A, B)
            else:
                pt = pitch_point(A, B)
                cr = contact_bevel(A, B) if A.al else 1.2
            if cr is None:
                ok = False
                break
            unit = S.rp * math.cos(S.al) if A.al and not A.gam else S.rp
            # the teeth near the pitch point touch; those further away must not get in the way
            plus, minus, _ = play(S, O, pt, 1)
            pf, mf, root = play(S, O, pt)
            p2, m2, root2 = play(O, S, pt)
            tol = (2e-4 if not A.gam else 6e-4) * S.rp / (S.z / 2) * 1.0
            wp, wm = st["plus"] * b / 8, st["minus"] * b / 8
            if not A.al or A.gam:
                # teeth thinned by construction: the play is what they were thinned by
                wp = wm = (A.bl + B.bl + A.thin + B.thin) * what["m"]
            else:
                # crowned teeth are closer only where they are nominal, in the middle
                thin = (A.thin + B.thin) * (A.rp / (A.z / 2)) * math.cos(A.al)
                wp, wm = wp + thin, wm + thin
            gp, gm = plus * unit, minus * unit
            unit2 = O.rp * math.cos(O.al) if A.al and not A.gam else O.rp
            low = min(pf * unit, mf * unit, p2 * unit2, m2 * unit2, root * what["m"], root2 * what["m"])
            if low < -tol or not math.isfinite(low):
                bad.append("%s: profiles overlap by %.3g (module %.3g)" % (where, -low, what["m"]))
            if cr >= 1.1:
                if not -tol < gp - wp < tol:
                    bad.append("%s: play in the positive sense is %.5g instead of %.5g (module %.3g)" % (where, gp, wp, what["m"]))
                if not -tol < gm - wm < tol:
                    bad.append("%s: play in the negative sense is %.5g instead of %.5g (module %.3g)" % (where, gm, wm, what["m"]))
            steps += 1
            if bad:
                break
        if ok:
            return dict(bad=bad, steps=steps, count={kind: 1, "contact" if cr >= 1.1 else "overlap only": 1})
    return dict(bad=[], steps=0, count={"infeasible " + kind: 1})


def contact_cyc(A, B):
    """contact ratio of a cycloid pair from the arcs on the rolling circles"""
    m = A.rp / (A.z / 2)
    arc = 0.0
    ci = A.g.inputparam
    for g, o in ((A, B), (B, A)):
        ip = g.g.inputparam
        rt = g.rp + (g.h[0] if g.ring else g.h[-1]) * m    # tip circle
        if g.ring:
            rc = ip.inside_cycloid_coefficient * g.rp
            d = g.rp - rc
            x = (d * d + rc * rc - rt * rt) / (-2 * d * rc)
        else:
            rc = ip.outside_cycloid_coefficient * g.rp
            d = g.rp + rc
            x = (d * d + rc * rc - rt * rt) / (2 * d * rc)
        if not -1 < x < 1:
            return None
        arc += rc * math.acos(x)
    # an internal pair touches tip to tip when its rolling circles together are larger than the centre distance
    if A.ring or B.ring:
        g, r = (B, A) if A.ring else (A, B)
        both = g.g.inputparam.outside_cycloid_coefficient * g.rp + r.g.inputparam.inside_cycloid_coefficient * r.rp
        if both > 0.97 * (r.rp - g.rp):
            return None
    # the roots have to be deep enough
    if not (A.ring or B.ring):
        if min(-A.h[0] - B.h[-1], -B.h[0] - A.h[-1]) < 0.03:
            return None
    elif B.h[-1] - A.h[-1] < 0.03 or B.h[0] - A.h[0] < 0.03:
        return None
    return arc / (PI * m)


def pitch_point(A, B):
    ca, oa, _ = get(A.g)
    cb, ob, _ = get(B.g)
    za, zb = oa[:, 2], ob[:, 2]
    apex = ca + za * A.rp / math.tan(A.gam)
    # the common generator lies in the plane of both axes, at the pitch cone angle of A from A's axis, towards B
    w = zb - np.dot(zb, za) * za
    w = w / np.linalg.norm(w)
    R = A.rp / math.sin(A.gam)
    cand = [apex + R * (-za * math.cos(A.gam) + s * w * math.sin(A.gam)) for s in (1, -1)]
    return min(cand, key=lambda p: abs(np.dot(p - apex, -zb) / R - math.cos(B.gam)))


def contact_bevel(A, B):
    """equivalent cylindrical pair (Tredgold)"""
    al = A.al
    rv = [g.z / 2 / math.cos(g.gam) for g in (A, B)]
    t = []
    for g, r in zip((A, B), rv):
        t.append(math.sqrt((r + g.h[-1]) ** 2 - (r * math.cos(al)) ** 2))
    L = (rv[0] + rv[1]) * math.sin(al)
    for g, r, o in ((A, rv[0], t[1]), (B, rv[1], t[0])):
        s = L - o
        form = 0.05
        if g.uc:
            f = r * math.sin(al) - g.hd / math.sin(al)
            if f < 0.1:
                return None
            form = max(form, f)
        if s < form + 0.1:
            return None
    return (t[0] + t[1] - L) / (PI * math.cos(al))
