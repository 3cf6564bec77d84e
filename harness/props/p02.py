"""P02 tooth faces gap"""
import functools

import meshobs
import placement as pl


def run(ctx):
    tabs = pl.tables(ctx.rng)
    n = ctx.pick(10, 120)
    depth = ctx.pick(8, 14)
    plan = [(name, tabs[name], n, depth, dict(mesh_only=True, exhaustive_len=ctx.pick(2, 3)))
            for name in ("spur", "cycloid", "bevel", "cycbevel", "helical", "helring", "core")]
    items = pl.generate(ctx, plan)
    ctx.replay(functools.partial(pl.replay_history, want=("angle",)), items, label="mesh history")
    recs = []
    for fam in ("spur", "ring", "cycloid", "cycring", "helical", "helring", "core", "corering"):
        jobs = [dict(seed=ctx.rng.randrange(10**9), fam=fam, kind="phased") for _ in range(ctx.pick(40, 600))]
        recs += ctx.replay(meshobs.parallel, jobs, label="mesh " + fam, count_traces=False)
    bad = []
    for fam in sorted({r["fam"] for r in recs}):
        r = next(x for x in recs if x["fam"] == fam)
        bad += [dict(r, ph1=(r["ph1"] + 300) % 1000000), dict(r, base=1)]
    ctx.validate("MeshObs", recs, canaries=bad)
