"""Histories of the Cycloid specification replayed on real cycloid gears (P20)."""
import copy
import math
import random
from fractions import Fraction

import numpy as np

import vf
from placement import core_of, get


def table(rng):
    """2 or 3 gears, external and ring, with exact coefficients; rows for the specification"""
    out = []
    for i in range(rng.choice([2, 3])):
        ring = i > 0 and rng.random() < 0.4
        z = rng.randint(24, 48) if ring else rng.randint(7, 20)
        out.append(dict(z=z, ring=ring, cin=(rng.randint(3, 9), 20), cout=(rng.randint(3, 9), 20)))
    return out


def ratl(p):
    f = Fraction(*p)
    return [f.numerator, f.denominator]


def fr(v):
    return Fraction(v[0], v[1])


def make(row, kw, cin=None, cout=None):
    gg = vf.load()
    return gg.CycloidGear(number_of_teeth=row["z"], inside_teeth=row["ring"], inside_cycloid_coefficient=float(cin if cin is not None else Fraction(*row["cin"])),
                          outside_cycloid_coefficient=float(cout if cout is not None else Fraction(*row["cout"])), **kw)


def section(g, z):
    p = core_of(g).curve_gen_at_z(z)
    S = np.linspace(0, 1, 41)
    tr = p.transform
    return np.array([p.tooth_curve(float(s)) for s in S] + [p.ra_curve(0.3), p.rd_curve(0.4), np.array([float(tr.angle), float(tr.scale), float(tr.center[2])])])


OTHER = ("number_of_teeth", "height", "cone_angle", "module", "root_fillet", "tip_fillet", "tip_truncation", "addendum_coefficient", "dedendum_coefficient",
         "helix_angle", "backlash", "crowning", "inside_teeth", "z_anchor", "angle")


def others(g):
    ip = g.inputparam
    return [getattr(ip, k) for k in OTHER] + [float(v) for v in ip.center] + [g.number_of_teeth, g.module, g.inside_teeth, g.pitch_radius, g.cone_angle] + \
        [float(v) for v in core_of(g).z_vals]


def replay(item):
    rng = random.Random(item["seed"])
    rows, real = item["table"], item["real"]
    gears, kws = [], []
    m = rng.choice([1.0, rng.uniform(0.3, 4)])
    for row in rows:
        kw = dict(module=m, height=m * rng.uniform(0.5, 2), z_anchor=rng.choice([0, 0.5, rng.random()]), backlash=rng.choice([0, rng.uniform(-0.03, 0.03)]),
                  center=np.array([rng.uniform(-9, 9) for _ in range(3)]), angle=rng.uniform(-3, 3), helix_angle=0 if real else rng.choice([0, rng.uniform(-0.6, 0.6)]),
                  crowning=0 if real else rng.choice([0, rng.uniform(0, 150)]), tip_truncation=rng.choice([0.1, 0.05]))
        if not row["ring"] and not real and rng.random() < 0.3:
            kw["cone_angle"] = rng.uniform(0.3, 1.6)
        kws.append(kw)
        gears.append(make(row, kw))
    bad, steps, count = [], 0, {}
    base = [others(g) for g in gears]
    places = [get(g) for g in gears]
    parts = [None] * len(rows)
    spots = {}

    def say(msg):
        bad.append("step %d %s of %s: %s" % (steps, st["op"], [(r["z"], r["ring"]) for r in rows], msg))

    for st in item["hist"]:
        i, j = st["i"] - 1, st["j"] - 1
        op = st["op"]
        if op == "adapt":
            gears[i].adapt_cycloid_radii(gears[j])
        elif op == "set_in":
            gears[i].inside_cycloid_coefficient = float(fr(st["arg"]))
        elif op == "set_out":
            gears[i].outside_cycloid_coefficient = float(fr(st["arg"]))
        elif op == "place":
            key = (i, st["arg"])
            if st["arg"] == 3:
                k = rng.choice([x for x in range(len(rows)) if x != i])
                if kws[i].get("cone_angle") or kws[k].get("cone_angle"):
                    gears[i].angle = rng.uniform(-6, 6)
                else:
                    gears[i].mesh_to(gears[k], target_dir=core_of(gears[k]).transform.orientation @ np.array([0.6, -0.8, 0.0]))
            elif st["arg"] == 1:
                gears[i].center = np.array([rng.uniform(-9, 9) for _ in range(3)])
            else:
                from scipy.spatial.transform import Rotation
                core_of(gears[i]).transform.orientation = Rotation.from_rotvec([rng.uniform(-2, 2) for _ in range(3)]).as_matrix()
            places[i] = get(gears[i])
        elif real:
            part = gears[i].build_part() if op == "build" else gears[i].update_part()
            parts[i] = (part, st["exp"][i]["built"])
        for k, g in enumerate(gears):
            e = st["exp"][k]
            for nm in ("cin", "cout"):
                got = getattr(g, "inside_cycloid_coefficient" if nm == "cin" else "outside_cycloid_coefficient")
                if not abs(got - float(fr(e[nm]))) < 1e-9:
                    say("%s rolling coefficient of gear %d is %.9g instead of %s" % ("inside" if nm == "cin" else "outside", k + 1, got, fr(e[nm])))
            c, o, a = get(g)
            c0, o0, a0 = places[k]
            if max(np.max(np.abs(np.asarray(c) - c0)), np.max(np.abs(np.asarray(o) - o0)), abs(a - a0)) > 1e-9:
                say("gear %d moved" % (k + 1))
            if others(g) != base[k]:
                say("other inputs of gear %d changed" % (k + 1))
            # the shape is that of a gear made with these coefficients
            if op == "adapt" and k in (i, j):
                f = make(rows[k], kws[k], fr(e["cin"]), fr(e["cout"]))
                for zr in (0, rng.random()):
                    z = g.p2z(zr)
                    try:
                        want = section(f, z)
                        if not np.all(np.isfinite(want)):
                            raise ValueError
                    except Exception:
                        count["no section"] = count.get("no section", 0) + 1
                        continue
                    d = float(np.max(np.abs(section(g, z) - want)))
                    if not d < 1e-6:
                        say("tooth of gear %d differs by %.3g from a gear made with these coefficients" % (k + 1, d))
        steps += 1
        if bad:
            break
    st = dict(op="update at the end")
    if real and not bad:
        for k, g in enumerate(gears):
            e = item["hist"][-1]["exp"][k]
            f = make(rows[k], kws[k], *(fr(c) for c in e["shape"])).build_part()
            count["part"] = count.get("part", 0) + 1
            a = g.update_part()
            if not abs(a.volume - f.volume) < 1e-5 * f.volume:
                say("part of gear %d has volume %.8g instead of %.8g" % (k + 1, a.volume, f.volume))
    return dict(bad=bad, steps=steps, count=count)
