"""Lines of action of real pairs (P21): records for LoaObs.tla."""
import math
import random

import numpy as np

import vf
from meshobs import rand_dir, scramble
from placement import core_of, get
from roll import make

PI = math.pi


def unit(v):
    return v / np.linalg.norm(v)


def observe(job):
    gg = vf.load()
    import gggears.gggears_wrapper as gw

    rng = random.Random(job["seed"])
    kind = job["kind"]
    A, B, what = make(rng, kind)
    S, O = (A, B) if rng.random() < 0.5 else (B, A)
    scramble(O.g, rng)
    d, dd = rand_dir(rng, get(O.g)[1], scale=False)
    b = rng.choice([0, rng.uniform(0, 0.2)]) * what["m"]
    if kind in ("spur", "ring"):
        S.g.mesh_to(O.g, target_dir=dd, backlash=b)
    else:
        S.g.mesh_to(O.g, target_dir=dd)
    # roll the pair somewhere
    th = rng.uniform(-3, 3)
    O.g.angle = O.g.angle + th
    S.g.angle = S.g.angle + (th if B.ring else -th) * O.z / S.z
    F, G = (S, O) if rng.random() < 0.5 else (O, S)
    before = [get(x.g) for x in (F, G)]
    ratio = rng.choice([0, 1, what["ratio"]])
    loa = gw.LineOfAction(F.g, G.g, z_ratio=ratio)
    l1, l2 = loa.LOA_gen()
    after = [get(x.g) for x in (F, G)]
    still = int(all(np.array_equal(x[0], y[0]) and np.array_equal(x[1], y[1]) and x[2] == y[2] for x, y in zip(before, after)))
    ax = before[0][1][:, 2]
    s = (ratio - what["anc"]) * what["h"]
    c1, c2 = before[0][0] + ax * s, before[1][0] + ax * s
    rb1, rb2 = F.rp * math.cos(F.al), G.rp * math.cos(G.al)
    dist = np.linalg.norm(c2 - c1)
    e = (c2 - c1) / dist
    n = np.cross(ax, e)
    to2 = lambda p: np.array([np.dot(p - c1, e), np.dot(p - c1, n)])  # noqa
    k = F.rp
    recs = []
    lines = [(np.asarray(l(0.0)), np.asarray(l(1.0))) for l in (l1, l2)]
    P, Q = ([to2(x) for x in l] for l in lines)
    mirror = max(np.linalg.norm(P[i] * [1, -1] - Q[i]) for i in (0, 1))
    for (w0, w1), (p, q) in zip(lines, (P, Q)):
        t = unit(q - p)
        nn = np.array([-t[1], t[0]])
        C2 = np.array([dist, 0])
        d1, d2 = abs(np.dot(p, nn)), abs(np.dot(p - C2, nn))
        # the side on which the centres lie: crossed tangent for external, open tangent for ring pairs
        side = np.dot(-p, nn) * np.dot(C2 - p, nn) * (-1 if not (A.ring or B.ring) else 1)
        cross = p[0] - p[1] * t[0] / t[1]
        if A.ring or B.ring:
            pp = dist * F.z / (F.z - G.z)
            pin, cp, rbp = (F, np.zeros(2), rb1) if not F.ring else (G, C2, rb2)
            ra = pin.g.addendum_radius
            s1, ws1 = np.linalg.norm(p - cp), rbp
            e2, we2 = np.linalg.norm(q - cp), ra
            foot = abs(np.dot(p - cp, t))
            # the segment runs through the pitch point, away from the point of contact with the base circle
            between = int(np.dot(np.array([pp, 0]) - p, t) > 0)
        else:
            pp = dist * F.z / (F.z + G.z)
            s1, ws1, e2, we2 = np.linalg.norm(p), rb1, np.linalg.norm(q - C2), rb2
            foot = abs(np.dot(p, t)) + abs(np.dot(q - C2, t))
            between = int(0 < np.dot(np.array([pp, 0]) - p, t) < np.linalg.norm(q - p))
        # flanks crossing the line do so at right angles, on one side of the teeth
        worst = 0.0
        if ratio == what["ratio"]:
            for g in (F, G):
                pitch = c1 + e * pp
                res = {0: 0.0, 1: 0.0}
                w = g.world(g.teeth_towards(pitch, 2))
                nf = len(g.flank)
                per = 2 * nf + 1
                lim = 0.05 * what["m"]
                for j in range(len(w) // per):
                    for sd in (0, 1):
                        fl = np.array([to2(x) for x in w[j * per + sd * nf: j * per + (sd + 1) * nf]])
                        dd_ = (fl - p) @ nn
                        u = (fl - p) @ t
                        hmin = max(0.0, math.cos(g.al) - 1) if False else None  # noqa
                        for i in np.where(dd_[:-1] * dd_[1:] < 0)[0]:
                            r = np.linalg.norm(fl[i] - (0 if g is F else C2))
                            rb = rb1 if g is F else rb2
                            # the involute part of the flank only
                            lo = rb + lim
                            if g.uc:
                                f = g.rp * math.sin(g.al) - g.hd * g.rp / (g.z / 2) / math.sin(g.al)
                                lo = math.sqrt(rb * rb + max(f, 0.3 * what["m"]) ** 2) + lim
                            m_ = g.rp / (g.z / 2)
                            if not (max(lo, g.rp + (g.h[0] + 0.35) * m_) < r < g.rp + (g.h[-1] - 0.05) * m_):
                                continue
                            if not 0 < u[i] < np.linalg.norm(q - p):
                                continue
                            res[sd] = max(res[sd], abs(np.dot(unit(fl[i + 1] - fl[i]), t)))
                worst = max(worst, min(res.values()))
        flat = max(abs(np.dot(w0 - c1, ax)), abs(np.dot(w1 - c1, ax)))
        u_ = lambda v: vf.q(v / k, 1e-6)  # noqa
        recs.append(dict(kind="loa", flat=u_(flat), d1=u_(d1), b1=u_(rb1), d2=u_(d2), b2=u_(rb2), s1=u_(s1), ws1=u_(ws1), e2=u_(e2), we2=u_(we2), foot=u_(foot), cross=u_(cross), pp=u_(pp),
                         mirror=u_(mirror), between=between if side > 0 else 0, normal=vf.q(worst, 1e-6), still=still, what=dict(what, first="ring" if F.ring else "ext", second="ring" if G.ring else "ext", lratio=ratio, seed=job["seed"])))
    return dict(bad=[], rec=recs, count={kind: 1})
