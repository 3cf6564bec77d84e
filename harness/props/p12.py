"""P12 outlines"""
import outline


def run(ctx):
    jobs = [dict(kind=k, seed=ctx.rng.randrange(10**9)) for k in outline.KINDS if k != "core" for _ in range(ctx.pick(30, 600))]
    jobs += [dict(kind=c["kind"], seed=ctx.rng.randrange(10**9), case=c) for c in outline.CASES]
    recs = ctx.replay(outline.observe, jobs, label="outline", count_traces=False)
    kinds = ["spur", "partial", "ring", "helical", "helring", "bevel", "cycloid", "cycring", "cycbevel"]
    jobs = [dict(kind=k, seed=ctx.rng.randrange(10**9)) for k in kinds for _ in range(ctx.pick(6 if k == "partial" else 3, 60))]
    recs += ctx.replay(outline.observe_wire, jobs, label="boundary", count_traces=False)
    can = []
    r = next(x for x in recs if x["kind"] == "wire")
    can += [dict(r, closed=0), dict(r, one=0), dict(r, on=5000), dict(r, covers=5000), dict(r, length=9000), dict(r, curves=100)]
    r = next(x for x in recs if x["kind"] == "outline" and x["slack"] == 0 and x["reachtop"] == 1 and x["reachbot"] == 1)
    can += [dict(r, hi=r["hi"] + 300), dict(r, hi=r["hi"] - 300), dict(r, lo=r["lo"] - 300), dict(r, lo=r["lo"] + 300), dict(r, teeth=r["z"] + 1)]
    can += [dict(r, **{k: r[k] + 100}) for k in ("flat", "half", "half2", "mid", "gaps", "closed", "nfold", "mirror", "chain")] + [dict(r, simple=0)]
    r = next(x for x in recs if x["kind"] == "fillet")
    can += [dict(r, there=0), dict(r, kink1=r["ktol"] * 3), dict(r, kink2=r["ktol"] * 3), dict(r, radius=r["radius"] + 300)]
    ctx.validate("OutlineObs", recs, canaries=can)
