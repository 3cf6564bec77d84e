"""P17 arithmetic, derivatives, transforms and copies of curves"""
from fractions import Fraction as F

import algebra
import xform


def run(ctx):
    depth = ctx.pick(12, 18)
    pts = {(0, 0, 0), (1, -2, 3), (4, 0, 0), (-3, 5, 1), (0, 7, -2)}
    fac = {F(2), F(-3), F(1, 2), F(-1), F(1), F(3, 4)}
    par = {F(0), F(1, 4), F(1, 2), F(1)}
    ori = set(xform.lattice())
    out = ctx.par([
        lambda: ctx.mc("Algebra", dict(Points=set(list(sorted(pts))[:2]), Factors={F(2), F(-1)}, Params=par, Orients=ori), dict(NReg=2, MaxLen=ctx.pick(3, 4)),
                       invariants=("Distinct",), properties=("Isolated",), view="View", label="Algebra exhaustive", timeout=3000, workers=4),
        lambda: ctx.mc("Algebra", dict(Points=pts, Factors=fac, Params=par, Orients=ori), dict(NReg=5, MaxLen=depth), spec=("Init", "SimNext"),
                       action_constraint="EmitLast", simulate=ctx.pick(300, 4000), depth=depth + 1, label="Algebra simulation", timeout=3000),
    ])
    ctx.replay(algebra.replay, ctx.one_per_prefix(out[1]), label="algebra history")
    jobs = []
    for what, n in (("arc", ctx.pick(300, 6000)), ("expr", ctx.pick(160, 3000)), ("copy", ctx.pick(400, 6000))):
        jobs += [dict(what=what, seed=ctx.rng.randrange(10**9)) for _ in range(n)]
    recs = ctx.replay(algebra.observe, jobs, label="curve measurement", count_traces=False)
    can = []
    for kind in ("pass", "deriv", "pointwise", "copy"):
        r = next(x for x in recs if x["kind"] == kind)
        for k in r:
            if k not in ("kind", "what", "tol"):
                can.append(dict(r, **{k: 300 + r.get("tol", 0)}))
    ctx.validate("CurveObs", recs, canaries=can)
