"""P14 trimming, reversing and cutting single curves"""
from fractions import Fraction as F

import curves


def run(ctx):
    depth = ctx.pick(8, 14)
    par = {F(0), F(1, 4), F(1, 3), F(1, 2), F(3, 4), F(1)}
    ext = {F(-1, 4), F(5, 4), F(3, 2)}

    def sim(extp, n):
        return lambda: ctx.mc("CurveOps", dict(Params=par, ExtParams=extp), dict(NSlots=3, MaxLen=depth), spec=("Init", "SimNext"),
                              action_constraint="EmitLast", simulate=n, depth=depth + 1, label="CurveOps simulation", timeout=3000)

    out = ctx.par([
        lambda: ctx.mc("CurveOps", dict(Params=par, ExtParams=set()), dict(NSlots=3, MaxLen=ctx.pick(3, 4)), invariants=("Inside",),
                       properties=("CutAdds", "Local"), view="View", label="CurveOps exhaustive", timeout=3000, workers=4),
        sim(set(), ctx.pick(60, 1000)),
        sim(ext, ctx.pick(60, 1000)),
        lambda: ctx.mc("CurveOps", dict(Params={F(1, 4), F(2, 3)}, ExtParams=set()), dict(NSlots=3, MaxLen=2), action_constraint="EmitLast",
                       label="CurveOps all histories of length 2"),
    ])
    inner, outer, short = ctx.one_per_prefix(out[1]), ctx.one_per_prefix(out[2]), out[3]
    items = []

    def add(kinds, hs, n):
        for kind in kinds:
            for h in ctx.sample(hs, n):
                items.append(dict(kind=kind, seed=ctx.rng.randrange(10**6), hist=h))

    add(curves.KINDS, inner, ctx.pick(12, 400))
    add(curves.KINDS, short, ctx.pick(25, 10**6))
    add(curves.EXACT, outer, ctx.pick(25, 800))
    ctx.replay(curves.replay_ops, items, label="curve history")
    ctx.assumptions.append("curves of non-constant speed: the library's 20-chord arc length table, 0.3 % of the length per history")
