"""P16 NURBS conversion and spline chains"""
import curves
import nurbs


def at_end(item):
    """replay a chain history, convert every chain that results"""
    slots, bases, lens, bad, steps = curves.run_chain(item)
    rec = []
    if not bad:
        for m, spec in enumerate(item["hist"][-1]["chains"], 1):
            if not (len(spec) == 1 and spec[0]["id"] == 0):
                c = slots[m]
                r, n = nurbs.record(c, {}, "chain history")
                live = [x for x in spec if x["act"]]
                if len(n.get_curves()) != len(live):
                    bad.append("%d spline pieces for %d active members" % (len(n.get_curves()), len(live)))
                rec.append(r)
    # a history that breaks the chain itself is P15's business
    return dict(bad=[] if bad and not rec else bad, rec=rec, steps=steps)


def run(ctx):
    items = curves.chain_histories(ctx, ctx.pick(20, 300), ctx.pick(7, 12))
    recs = ctx.replay(at_end, items, label="chain history to NURBS")
    jobs = []
    for what, n in (("convert", ctx.pick(300, 5000)), ("chain", ctx.pick(200, 4000)), ("ops", ctx.pick(250, 4000))):
        jobs += [dict(what=what, seed=ctx.rng.randrange(10**9)) for _ in range(n)]
    recs += ctx.replay(nurbs.observe, jobs, label="NURBS measurement", count_traces=False)
    can = []
    for kind in ("nurb", "spline"):
        r = next(x for x in recs if x["kind"] == kind and x["what"] != "trimmed_points")
        for k in r:
            if k not in ("kind", "what", "tol", "exact"):
                can.append(dict(r, **{k: 300 + r.get("tol", 0)}))
    ctx.validate("CurveObs", recs, canaries=can)
