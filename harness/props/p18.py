"""P18 solids"""
import solid


def run(ctx):
    shells = [(n, p, s, r) for n in (2, 3) for p in (1, 2) for s in (1, 2) for r in (False, True) if n * p * s <= ctx.pick(8, 12)]
    ctx.par([lambda a=a: ctx.mc("Shell", {}, dict(N=a[0], P=a[1], S=a[2], Ring=str(a[3]).upper()), invariants=("Closed", "NeverThree", "GenusOK"), label="shell") for a in shells])
    per = ctx.pick(3, 40)
    jobs = [dict(kind=k, seed=ctx.rng.randrange(10**9)) for _ in range(per) for k in sorted(solid.KINDS, key=lambda k: "bev" not in k)]
    # a herringbone gear whose halves wind around more than once
    jobs.insert(0, dict(kind="long", seed=7, set=dict(z=6, m=1.0, beta=0.8305011848640275, h=94.47086324798882, anc=0.5875806061435594, hb=True, x=0.2, uc=True)))
    recs = ctx.replay(solid.observe, jobs, label="solid", count_traces=False, timeout=ctx.pick(600, 3600))
    r = next(x for x in recs if x["kind"] == "solid" and x["ring"] == 0)
    can = [dict(r, **{k: v}) for k, v in dict(solids=2, valid=0, free=1, genus2=2, dvol=900, bot=40, top=-40, outer=600, inner=9000, odd=9, on=20000, side=1).items()]
    can.append(dict(r, kind="count", solids=0))
    ctx.validate("SolidObs", recs, canaries=can)
