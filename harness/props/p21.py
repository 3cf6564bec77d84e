"""P21 line of action"""
import loa


def run(ctx):
    jobs = [dict(kind=k, seed=ctx.rng.randrange(10**9)) for k in ("spur", "ring", "helical", "helring") for _ in range(ctx.pick(50, 800))]
    recs = ctx.replay(loa.observe, jobs, label="line of action", count_traces=False)
    r = recs[0]
    can = [dict(r, **{k: r[k] + 100}) for k in ("flat", "d1", "d2", "s1", "e2", "foot", "cross", "mirror")] + [dict(r, between=0), dict(r, normal=9000), dict(r, still=0)]
    ctx.validate("LoaObs", recs, canaries=can)
