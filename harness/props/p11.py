"""P11 dimensions"""
import design
import dimobs


def run(ctx):
    design.run(ctx, "P11", ctx.pick(8, 60), ctx.pick(1, 3))
    jobs = [dict(seed=ctx.rng.randrange(10**9), kind=k) for k in dimobs.KINDS for _ in range(ctx.pick(14, 150))]
    recs = ctx.replay(dimobs.radii, jobs, label="dimensions", count_traces=False)
    slim = [{k: v for k, v in r.items() if k != "what"} for r in recs]
    ctx.validate("DimObs", slim, canaries=dimobs.canaries(slim), names=[r["what"] for r in recs])
