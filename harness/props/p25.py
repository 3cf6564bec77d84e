"""P25 involutes, cycloids, octoids and the flanks made of them"""
import dimobs
import flankobs


def run(ctx):
    jobs = []
    for what in ("involute_circle", "involute_sphere", "cycloid_circle", "cycloid_cone", "octoid"):
        jobs += [dict(what=what, seed=ctx.rng.randrange(10**9)) for _ in range(ctx.pick(200, 4000))]
    recs = ctx.replay(flankobs.generating, jobs, label="generating curve", count_traces=False)
    jobs = [dict(kind=k, seed=ctx.rng.randrange(10**9)) for k in dimobs.KINDS for _ in range(ctx.pick(40, 800))]
    fl = ctx.replay(flankobs.flank, jobs, label="flank", count_traces=False)
    can = []
    for kind in ("curve", "octoid"):
        r = next(x for x in recs if x["kind"] == kind)
        can += [dict(r, **{k: 30000}) for k in r if k not in ("kind", "what")]
    r = fl[0]
    can += [dict(r, pressure=r["ptol"] + 1), dict(r, law=[r["tol"] * 2] * 3), dict(r, law=[])]
    ctx.validate("MathObs", recs + fl, canaries=can)
