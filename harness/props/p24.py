"""P24 intersections, nearest points, tangent arcs, fillets"""
import intersect


def run(ctx):
    jobs = []
    for what, n in (("intersect", ctx.pick(1200, 20000)), ("plane", ctx.pick(800, 12000)), ("nearest", ctx.pick(500, 8000)), ("tangent", ctx.pick(500, 8000)), ("winding", ctx.pick(200, 3000)), ("fillet", ctx.pick(800, 12000))):
        jobs += [dict(what=what, seed=ctx.rng.randrange(10**9)) for _ in range(n)]
    recs = ctx.replay(intersect.observe, jobs, label="construction", count_traces=False)
    can = []
    r = next(x for x in recs if x["kind"] == "intersect" and x["expect"] == 1)
    can += [dict(r, gap=3000), dict(r, success=0), dict(r, expect=0)]
    r = next(x for x in recs if x["kind"] == "nearest")
    can += [dict(r, excess=r["tol"] * 3)]
    for kind in ("fillet", "tangent"):
        r = next(x for x in recs if x["kind"] == kind and 0 < x["ktol"] < 10 ** 6)
        can += [dict(r, **{k: 900000}) for k in r if k not in ("kind", "what", "ktol")]
    ctx.validate("CurveObs", recs, canaries=can)
