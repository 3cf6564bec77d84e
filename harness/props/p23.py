"""P23 coordinate conversions"""
import mathobs


def run(ctx):
    jobs = []
    for what, n in (("spherical", ctx.pick(200, 4000)), ("cylindrical", ctx.pick(200, 4000)), ("cone", ctx.pick(300, 6000))):
        jobs += [dict(what=what, seed=ctx.rng.randrange(10**9)) for _ in range(n)]
    recs = ctx.replay(mathobs.coords, jobs, label="conversion", count_traces=False)
    can = []
    for kind in ("convert", "cone"):
        r = next(x for x in recs if x["kind"] == kind)
        can += [dict(r, **{k: 300}) for k in r if k not in ("kind", "what")]
    ctx.validate("MathObs", recs, canaries=can)
