"""P01 centre distance, direction and axes of parallel meshes"""
import functools

import meshobs
import placement as pl


def run(ctx):
    tabs = pl.tables(ctx.rng)
    n = ctx.pick(10, 120)
    depth = ctx.pick(8, 14)
    plan = [(name, tabs[name], n, depth, dict(mesh_only=True, exhaustive_len=ctx.pick(2, 3)))
            for name in ("spur", "cycloid", "helical", "helring", "core")]
    items = pl.generate(ctx, plan)
    ctx.replay(functools.partial(pl.replay_history, want=("center", "axis", "isolation")), items, label="mesh history")
    recs = []
    for fam in ("spur", "ring", "cycloid", "cycring", "helical", "helring", "core", "corering"):
        jobs = [dict(seed=ctx.rng.randrange(10**9), fam=fam, kind="placed") for _ in range(ctx.pick(50, 800))]
        recs += ctx.replay(meshobs.parallel, jobs, label="mesh " + fam, count_traces=False)
    bad = []
    for fam in sorted({r["fam"] for r in recs}):
        r = next(x for x in recs if x["fam"] == fam)
        bad += [dict(r, along=r["along"] + 200 + r["slack"]), dict(r, perp=500), dict(r, base=1), dict(r, axisdev=100)]
    ctx.validate("MeshObs", recs, canaries=bad)
