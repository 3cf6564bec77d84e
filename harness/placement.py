"""Tables of gears for Placement.tla and the driver that replays its histories."""
import math
from fractions import Fraction

import vf

PI = math.pi

# angle between the axis and the helix with rational trigonometry
B345 = math.atan2(3, 4)


tla = vf.tla


def gear(cls, fam, grp, z, m, ring=False, x=0, cone=None, beta=0, c0=(0, 0, 0), a0=Fraction(0), **kw):
    """cone: the tooth number of the 90 degree partner; beta: -1, 0, 1 (times atan(3/4))"""
    if beta:
        rp = Fraction(5 * m * z, 8)
    else:
        rp = Fraction(m * z, 2)
    h = Fraction(m * cone, 2) if cone else Fraction(0)
    assert rp.denominator == 1 and h.denominator == 1, (z, m, cone, beta)
    return dict(
        tab=dict(fam=fam, grp=grp, z=z, rp=int(rp), h=int(h), ring=ring, x=beta or x, c0=tuple(c0), a0=a0),
        make=dict(cls=cls, z=z, m=m, ring=ring, x=x, cone=cone, beta=beta, c0=list(c0),
                  a0=[a0.numerator, a0.denominator], kw=kw),
    )


def mc_module(table, angles, centers, orients):
    rows = ",\n  ".join(tla(g["tab"]) for g in table)
    return (
        "---- MODULE MC ----\nEXTENDS Placement\n"
        "T0 == <<\n  %s >>\nA0 == %s\nC0 == %s\nO0 == %s\n====\n"
        % (rows, tla(set(angles)), tla(set(centers)), orients)
    )


def build(mk):
    """construct the real gear of a table entry"""
    import numpy as np

    gg = vf.load()
    a0 = 2 * PI * mk["a0"][0] / mk["a0"][1]
    c0 = np.array([float(v) for v in mk["c0"]])
    kw = dict(mk["kw"])
    z, m = mk["z"], float(mk["m"])
    cls = mk["cls"]
    shift = mk["x"] / 10.0
    if cls == "Core":
        from gggears.gggears_base_classes import GearToothParam, GearTransform

        g = gg.Gear(
            z_vals=np.array([0.0, 1.0]),
            module=m,
            tooth_param=GearToothParam(z, inside_teeth=mk["ring"]),
            transform=GearTransform(center=c0.copy(), angle=a0, scale=m),
        )
        return g, c0
    k = dict(number_of_teeth=z, module=m, center=c0, angle=a0)
    if cls in ("SpurGear", "SpurRingGear", "InvoluteGear", "HelicalGear", "HelicalRingGear", "BevelGear"):
        k["profile_shift"] = shift
    if cls == "InvoluteGear":
        k["inside_teeth"] = mk["ring"]
        if mk["beta"]:
            raise vf.Broken("helical InvoluteGear")
    if cls in ("HelicalGear", "HelicalRingGear"):
        k["helix_angle"] = mk["beta"] * B345
    if mk["cone"]:
        k["cone_angle"] = 2 * math.atan2(z, mk["cone"])
    if cls == "CycloidGear":
        k["inside_teeth"] = mk["ring"]
    k.update(kw)
    return getattr(gg, cls)(**k), c0


def core_of(g):
    return getattr(g, "gearcore", g)


def get(g):
    import numpy as np

    t = core_of(g).transform
    return np.array(g.center, dtype=float), np.array(t.orientation, dtype=float), float(t.angle)


CONSTS = ("ORIGIN", "UP", "DOWN", "LEFT", "RIGHT", "IN", "OUT", "UNIT3X3")


def constants():
    import numpy as np
    gg = vf.load()
    return {n: np.array(getattr(gg, n)) for n in CONSTS}


def vec(v):
    import numpy as np
    return np.array([float(x) for x in v])


def angdiff(a, b, period):
    d = (a - b) % period
    return min(d, period - d)


def replay_history(item, want=("center", "axis", "angle", "isolation")):
    """item: dict(table=[make...], hist=[...], nslots=n, scribble=bool)"""
    import numpy as np

    bad = []
    gears = {}
    made = []
    for i, mk in enumerate(item["table"], 1):
        g, arg = build(mk)
        if not np.array_equal(arg, [float(v) for v in mk["c0"]]):
            bad.append("constructing gear %d changed the array of the caller to %s" % (i, arg.tolist()))
        arg += 77.0  # the caller's array is the caller's
        gears[i] = g
        made.append(mk)
    tabidx = {i: i - 1 for i in gears}
    consts = constants()
    steps = 0
    for n, s in enumerate(item["hist"]):
        op, i, j, arg = s["op"], s["i"], s["j"], s["arg"]
        before = {k: get(g) for k, g in gears.items()}
        owned = None
        if op == "set_center":
            owned = vec(arg)
            gears[i].center = owned
        elif op == "move":
            owned = vec(arg)
            gears[i].center += owned
            if "isolation" in want and not np.array_equal(owned, vec(arg)):
                bad.append("call %d move(%s): the array of the caller became %s" % (n + 1, i, owned.tolist()))
        elif op == "take_center":
            gears[i].center = gears[j].center
        elif op == "set_angle":
            a = 2 * PI * arg[0] / arg[1]
            if hasattr(type(gears[i]), "angle"):
                gears[i].angle = a
            else:
                gears[i].transform.angle = a
        elif op == "turn":
            a = 2 * PI * arg[0] / arg[1]
            if hasattr(type(gears[i]), "angle"):
                gears[i].angle += a
            else:
                gears[i].transform.angle += a
        elif op == "set_orient":
            if n % 3 == 1:
                core_of(gears[i]).transform.orientation[:] = np.array(arg, dtype=float)  # edited in place
            else:
                core_of(gears[i]).transform.orientation = np.array(arg, dtype=float)
        elif op == "mesh":
            # involute gears take a direction of any length
            long = 3.0 if made[tabidx[i]]["cls"] not in ("Core", "CycloidGear") and n % 2 else 1.0
            owned = vec(arg) * long
            gears[i].mesh_to(gears[j], target_dir=owned)
            if "isolation" in want and not np.array_equal(owned, vec(arg) * long):
                bad.append("call %d mesh(%s,%s): the direction array of the caller became %s" % (n + 1, i, j, owned.tolist()))
        elif op == "copy":
            gears[j] = gears[i].copy()
            tabidx[j] = tabidx[i]
        elif op == "adapt":
            gears[i].adapt_cycloid_radii(gears[j])
        elif op == "drop":
            gears.pop(i)
            tabidx.pop(i)
        elif op == "reset":
            gears[i].reset_location()
        else:
            raise vf.Broken("unknown operation " + op)
        if owned is not None:
            owned += 1234.5  # later edits of the caller's array must not matter
        steps += 1
        where = "call %d %s(%s%s, %s) after %s" % (
            n + 1, op, i, ",%s" % j if j else "", arg, [h["op"] for h in item["hist"][:n]])
        for k, e in enumerate(s["exp"], 1):
            if not e["p"]:
                continue
            c, o, a = get(gears[k])
            z = made[tabidx[k]]["z"]
            kind = made[tabidx[k]]["cls"]
            target = (k == i and op not in ("copy",)) or (op == "copy" and k == j)
            target = target and op != "adapt"
            who = "gear %d (%s z=%d)" % (k, kind, z)
            if target:
                if "center" in want and np.abs(c - vec(e["c"])).max() > 2e-5:
                    bad.append("%s: centre of %s is %s, specified %s" % (where, who, c.tolist(), e["c"]))
                if "axis" in want:
                    zo, ze = o[:, 2], np.array(e["o"], dtype=float)[:, 2]
                    if np.abs(zo - ze).max() > 1e-5 or abs(np.linalg.det(o) - 1) > 1e-6 or np.abs(o @ o.T - np.eye(3)).max() > 1e-6:
                        bad.append("%s: axis of %s is %s, specified %s" % (where, who, zo.tolist(), ze.tolist()))
                if "angle" in want:
                    # direction of the reference tooth in the world, independent of how the
                    # rotation about the axis is split between orientation and angle
                    eo = np.array(e["o"], dtype=float)
                    ea = 2 * PI * e["a"][0] / e["a"][1]
                    r = eo.T @ o
                    rel = math.atan2(r[1, 0], r[0, 0]) + a
                    period = 2 * PI / z if e["am"] else 2 * PI
                    d = angdiff(rel, ea, period)
                    if d > 2e-5:
                        bad.append("%s: angle of %s is off by %.3g rad (%.4f teeth)" % (where, who, d, d * z / 2 / PI))
                    if not e["am"] and op in ("set_angle",) and abs(a - 2 * PI * arg[0] / arg[1]) > 1e-9:
                        bad.append("%s: angle stored is %r" % (where, a))
                    if op == "turn" and abs(a - before[k][2] - 2 * PI * arg[0] / arg[1]) > 1e-9:
                        bad.append("%s: angle went from %r to %r" % (where, before[k][2], a))
            elif "isolation" in want and k in before:
                b = before[k]
                if not (np.array_equal(c, b[0]) and np.array_equal(o, b[1]) and a == b[2]):
                    bad.append("%s: %s moved although it was not the one called: %s -> %s" % (
                        where, who, [b[0].tolist(), b[2]], [c.tolist(), a]))
        if "isolation" in want:
            now = constants()
            for name in CONSTS:
                if not np.array_equal(now[name], consts[name]):
                    bad.append("%s: the library constant %s became %s" % (where, name, now[name].tolist()))
            if op == "copy":
                x, y = get(gears[i]), get(gears[j])
                if not (np.allclose(x[0], y[0], atol=1e-12) and np.allclose(x[1], y[1], atol=1e-12) and abs(x[2] - y[2]) < 1e-12):
                    bad.append("%s: the copy differs from its original" % where)
        if bad:
            break
    # core gears alone do not carry the wrapper's dimensions; others must keep theirs
    return dict(bad=bad, steps=steps, count={"calls": steps})


def tables(rng):
    """gear sets, varied by the seed; every set allows exact lattice placements"""
    F = Fraction
    pick = rng.choice
    m = pick([2, 4])
    x = pick([-3, -2, 2, 3])
    z1, z2, z3 = rng.sample([17, 19, 20, 22, 23, 26, 29, 31, 34, 40], 3)
    zr = pick([57, 60, 66, 71])
    t = {}
    t["spur"] = [
        gear("SpurGear", "inv", 1, z1, m, x=x, c0=(3, -5, 2), a0=F(1, 7)),
        gear("InvoluteGear", "inv", 1, z2, m, x=-x, c0=(0, 0, 0), a0=F(0)),
        gear("SpurGear", "inv", 1, z3, m, c0=(-4, 1, 9), a0=F(-29, 9), enable_undercut=False),
        gear("SpurRingGear", "inv", 1, zr, m, ring=True, c0=(1, 1, 1), a0=F(1, 5)),
    ]
    zz = rng.sample([12, 15, 16, 18, 21, 24], 2)
    t["cycloid"] = [
        gear("CycloidGear", "cyc", 1, zz[0], m, c0=(2, 2, -3), a0=F(1, 6)),
        gear("CycloidGear", "cyc", 1, zz[1], m, c0=(0, 0, 0), a0=F(0)),
        gear("CycloidGear", "cyc", 1, pick([41, 44, 50]), m, ring=True, c0=(7, 0, 0), a0=F(-1, 11)),
    ]
    k = pick([3, 4, 5, 6])
    a, b = pick([(3, 4), (4, 3), (5, 12), (1, 1), (2, 3)])
    if a * k < 9 or b * k < 9:
        k = 4 * k
    t["bevel"] = [
        gear("BevelGear", "inv", 2, a * k, m, cone=b * k, c0=(2, -1, 4), a0=F(1, 13)),
        gear("BevelGear", "inv", 2, b * k, m, cone=a * k, c0=(0, 0, 0), a0=F(0)),
        gear("InvoluteGear", "inv", 2, a * k, m, cone=b * k, c0=(0, 6, 0), a0=F(-1, 8)),
    ]
    t["cycbevel"] = [
        gear("CycloidGear", "cyc", 2, a * k, m, cone=b * k, c0=(2, -1, 4), a0=F(1, 13)),
        gear("CycloidGear", "cyc", 2, b * k, m, cone=a * k, c0=(0, 0, 0), a0=F(2, 3)),
    ]
    h = pick([1, -1])
    e1, e2, e3 = rng.sample([16, 20, 24, 28, 32], 3)
    t["helical"] = [
        gear("HelicalGear", "hel", 1, e1, 4, beta=h, c0=(5, 5, 5), a0=F(1, 9)),
        gear("HelicalGear", "hel", 1, e2, 4, beta=-h, c0=(0, 0, 0), a0=F(0)),
        gear("HelicalGear", "hel", 1, e3, 4, beta=-h, c0=(0, -3, 0), a0=F(1, 4), herringbone=True),
    ]
    t["helring"] = [
        gear("HelicalGear", "hel", 1, e1, 4, beta=h, c0=(5, 5, 5), a0=F(1, 9)),
        gear("HelicalRingGear", "hel", 1, pick([48, 56, 64]), 4, ring=True, beta=h, c0=(0, 1, 0), a0=F(1, 3)),
    ]
    t["core"] = [
        gear("Core", "core", 1, z1, 2, c0=(1, 2, 3), a0=F(1, 9)),
        gear("Core", "core", 1, z2, 2, c0=(0, 0, 0), a0=F(0)),
        gear("Core", "core", 1, zr, 2, ring=True, c0=(0, 0, 0), a0=F(1, 3)),
    ]
    return t


ANGLES = [Fraction(0), Fraction(1, 8), Fraction(-3, 10), Fraction(5, 12), Fraction(31, 4), Fraction(-9, 2)]
CENTERS = [(0, 0, 0), (7, -3, 11), (-20, 4, 1), (1500, -900, 0)]
ORIENTS_ALL = "Rotations"
ORIENTS_FEW = "{Ident, Quarter(EX), Quarter(INeg(EY)), MMul(Quarter(EX), Quarter(EZ))}"
INVS = ("TypeOK", "TouchInv", "PhaseInv", "Identity")


def jobs(ctx, name, table, num, depth, nslots=None, mesh_only=False, exhaustive_len=2, sim="SimNext"):
    """TLC jobs: model check the bounded model; generate behaviours by simulation"""
    ns = nslots or (len(table) + (0 if mesh_only else 1))
    files = [("MC.tla", mc_module(table, ANGLES, CENTERS, ORIENTS_ALL))]
    consts = dict(NSlots=ns, MaxLen=depth, MeshOnly="TRUE" if mesh_only else "FALSE",
                  Table="<- T0", Angles="<- A0", Centers="<- C0", Orients="<- O0")
    few = [("MC.tla", mc_module(table, ANGLES[:2], CENTERS[:2], ORIENTS_FEW))]
    out = []
    if exhaustive_len:
        out.append(lambda: ctx.model(
            "MC", dict(consts, MaxLen=exhaustive_len), invariants=INVS, properties=("OneGear",),
            view="View", files=few, label="Placement exhaustive " + name, timeout=2000, workers=4) and [])
    out.append(lambda: ctx.model(
        "MC", consts, spec=("Init", sim), invariants=INVS, action_constraint="EmitLast",
        simulate=num, depth=depth + 1, files=files, label="Placement simulation " + name))
    return out


def generate(ctx, plan):
    """plan: list of (name, table, num, depth, kwargs) -> replay items"""
    thunks, owner = [], []
    for name, table, num, depth, kw in plan:
        for t in jobs(ctx, name, table, num, depth, **kw):
            thunks.append(t)
            owner.append((name, table, depth))
    items = []
    for (name, table, depth), out in zip(owner, ctx.par(thunks)):
        hs = ctx.one_per_prefix([h for h in out if len(h) == depth])
        items += [dict(table=[g["make"] for g in table], hist=h, set=name) for h in hs]
    return items
