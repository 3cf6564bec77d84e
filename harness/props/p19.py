"""P19 racks"""
from fractions import Fraction as F

import rack


def run(ctx):
    L = ctx.pick(8, 14)

    def defs(z):
        return dict(Angles={F(0), F(1, 3), F(-7, 5), F(11, 8), F(z, 4)}, Dirs={0, 1, 5, 6, 12, 13, 17, 18, 23}, Shifts={F(0), F(1), F(-2), F(3)}, Steps={F(1, 4), F(-1, 3), F(1), F(-5, 2)})

    inv, prop = ("Facing", "Centred"), ("Still",)
    zs = [ctx.rng.randint(*((24, 60), (24, 60), (13, 24), (61, 220))[i % 4]) for i in range(ctx.pick(6, 24))]
    kinds = ["spur", "spur", "helical", "herringbone"]

    def exhaust(z):
        return ctx.mc("Rack", dict(defs(z), Dirs={0, 5, 18}, Shifts={F(0), F(-2)}), consts=dict(Z=z, MaxLen=ctx.pick(3, 4)), invariants=inv, properties=prop, view="View", label="Rack exhaustive")

    def simulate(z):
        return ctx.mc("Rack", defs(z), consts=dict(Z=z, MaxLen=L), spec=("Init", "SimNext"), invariants=inv, properties=prop, action_constraint="EmitLast",
                      simulate=ctx.pick(24, 80), depth=L + 1, label="Rack simulation")

    out = ctx.par([lambda: exhaust(zs[0])] + [lambda z=z: simulate(z) for z in zs])[1:]
    items = []
    for z, hs in zip(zs, out):
        hs = ctx.one_per_prefix([h for h in hs if len(h) == L])
        items += [dict(seed=ctx.rng.randrange(10**9), z=z, kind=kinds[i % 4], hist=h, build=i % 2 == 0) for i, h in enumerate(hs)]
    recs = ctx.replay(rack.replay, items, label="rack") or []
    jobs = [dict(seed=ctx.rng.randrange(10**9), kind=k) for k in ("spur", "helical", "herringbone") for _ in range(ctx.pick(16, 150))]
    recs += ctx.replay(rack.alone, jobs, label="rack part", count_traces=False)
    r = recs[0]
    can = [dict(r, **{k: r[k] + 100}) for k in ("corner", "on", "bot", "top", "high", "root", "vol", "added", "again")] + [dict(r, teeth=r["n"] + 1), dict(r, solids=2), dict(r, valid=0)]
    ctx.validate("RackObs", recs, canaries=can)
