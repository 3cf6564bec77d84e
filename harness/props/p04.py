"""P04 bevel meshes"""
import functools

import meshobs
import placement as pl


def run(ctx):
    tabs = pl.tables(ctx.rng)
    n = ctx.pick(15, 200)
    depth = ctx.pick(8, 14)
    plan = [(name, tabs[name], n, depth, dict(mesh_only=True, exhaustive_len=ctx.pick(2, 3)))
            for name in ("bevel", "cycbevel")]
    items = pl.generate(ctx, plan)
    ctx.replay(functools.partial(pl.replay_history, want=("center", "axis", "angle", "isolation")), items, label="mesh history")
    recs = []
    for fam in ("bevel", "bevelring", "cycbevel"):
        jobs = [dict(seed=ctx.rng.randrange(10**9), fam=fam) for _ in range(ctx.pick(120, 2000))]
        recs += ctx.replay(meshobs.bevel, jobs, label="mesh " + fam, count_traces=False)
    bad = []
    for fam in sorted({r["fam"] for r in recs}):
        r = next(x for x in recs if x["fam"] == fam)
        bad += [dict(r, apex=900), dict(r, ang=r["ang"] + 300), dict(r, tilt=r["tilt"] - 200), dict(r, pitch=400), dict(r, ph2=(r["ph2"] + 200) % 1000000)]
    ctx.validate("MeshObs", recs, canaries=bad)
