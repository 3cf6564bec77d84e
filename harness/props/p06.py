"""P06 isolation and placement histories"""
import placement as pl


def run(ctx):
    tabs = pl.tables(ctx.rng)
    n = ctx.pick(14, 200)
    depth = ctx.pick(14, 24)
    plan = []
    for name in ("spur", "cycloid", "bevel", "helical", "helring", "cycbevel", "core"):
        ex = ctx.pick(2, 3) if name in ("spur", "cycloid", "bevel") else 0
        plan.append((name, tabs[name], n, depth, dict(exhaustive_len=ex)))
        plan.append((name, tabs[name], ctx.pick(6, 60), 7 * len(tabs[name]), dict(exhaustive_len=0, sim="SimAlias")))
    items = pl.generate(ctx, plan)
    ctx.replay(pl.replay_history, items, label="placement history")
    ctx.assumptions.append("placements on the exact lattice (24 orientations, rational angles)")
