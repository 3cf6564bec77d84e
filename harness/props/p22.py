"""P22 mesh arithmetic helpers"""
import mathobs


def run(ctx):
    jobs = []
    for what, n in (("invdist", ctx.pick(300, 6000)), ("cones", ctx.pick(300, 4000)), ("nominal", ctx.pick(150, 1000))):
        jobs += [dict(what=what, seed=ctx.rng.randrange(10**9)) for _ in range(n)]
    recs = ctx.replay(mathobs.helper, jobs, label="helper", count_traces=False)
    can = []
    for ring in (0, 1):
        r = next(x for x in recs if x["kind"] == "invdist" and x["ring"] == ring)
        d = r["d"]
        can += [dict(r, d=[d[0], d[1] + 5000, d[2]]), dict(r, d=[d[0], d[2], d[1]]), dict(r, swapped=[x + 5000 for x in r["swapped"]]),
                dict(r, back=[x + 20000 for x in r["back"]]), dict(r, back2=[x + 20000 for x in r["back2"]])]
    c = next(x for x in recs if x["kind"] == "cones" and x["z1"] > x["z2"] and not x["obtuse"])
    can += [dict(c, g1=c["g1"] + 300), dict(c, cross=300), dict(c, g1=c["g2"], g2=c["g1"]), dict(c, s1=c["s1"] + 300)]
    n = next(x for x in recs if x["kind"] == "nominal")
    can += [dict(n, got=n["got"] + 300)]
    ctx.validate("MathObs", recs, canaries=can)
