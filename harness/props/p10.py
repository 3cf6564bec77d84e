"""P10 transforms form a group and agree with the CAD locations"""
import xform


def run(ctx):
    inv = ("GroupLaws", "ActionLaw")
    depth = ctx.pick(10, 14)
    out = ctx.par([
        lambda: ctx.mc("Xform", xform.defs(ctx, True), dict(NReg=2, MaxLen=ctx.pick(2, 3)), invariants=inv,
                       view="View", timeout=3000, label="Xform exhaustive", workers=6),
        lambda: ctx.mc("Xform", xform.defs(ctx, False), dict(NReg=3, MaxLen=depth), spec=("Init", "SimNext"),
                       action_constraint="EmitLast", simulate=ctx.pick(150, 3000), depth=depth + 1,
                       label="Xform simulation", timeout=3000),
        lambda: ctx.mc("Xform", xform.defs(ctx, True), dict(NReg=2, MaxLen=2), action_constraint="EmitLast",
                       label="Xform all short histories"),
    ])
    hs = ctx.one_per_prefix(out[1]) + ctx.sample(out[2], ctx.pick(800, 10**6))
    ctx.replay(xform.replay, hs, label="transform history")
    recs = ctx.replay(xform.observe, [dict(seed=ctx.rng.randrange(10**9)) for _ in range(ctx.pick(600, 20000))],
                      label="transform measurement", count_traces=False)
    can = [dict(recs[0], **{k: 5000}) for k in recs[0] if k not in ("kind", "cls")]
    ctx.validate("XformObs", recs, canaries=can)
