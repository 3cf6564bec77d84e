"""P20 adapting cycloid gears"""
import cycloid
import roll


def run(ctx):
    def defs(tab):
        rows = [dict(z=r["z"], ring=r["ring"], cin=cycloid.ratl(r["cin"]), cout=cycloid.ratl(r["cout"])) for r in tab]
        return dict(Table=rows)

    L = ctx.pick(10, 16)
    inv, prop = ("Matching", "Fresh"), ("Idempotent", "Frame")
    tabs = [cycloid.table(ctx.rng) for _ in range(ctx.pick(7, 40))]
    items = []

    co = {(1, 4), (2, 5), (3, 10)}
    n = ctx.pick(12, 60)

    def simulate(tab):
        return ctx.mc("Cycloid", dict(defs(tab), Coeffs=co), consts=dict(MaxLen=L), spec=("Init", "SimNext"), invariants=inv, properties=prop,
                      action_constraint="EmitLast", simulate=n, depth=L + 1, label="Cycloid simulation")

    def exhaust(tab):
        return ctx.mc("Cycloid", dict(defs(tab), Coeffs=co), consts=dict(MaxLen=ctx.pick(4, 5)), invariants=inv, properties=prop, view="View",
                      label="Cycloid exhaustive")

    def parts(tab):
        return ctx.mc("Cycloid", dict(defs(tab), Coeffs=co), consts=dict(MaxLen=6), spec=("Init", "SimParts"), invariants=inv, properties=prop,
                      action_constraint="EmitLast", simulate=n, depth=7, label="Cycloid simulation with parts")

    nr = ctx.pick(4, 20)
    out = ctx.par([lambda t=t: exhaust(t) for t in tabs[:2]] + [lambda t=t: simulate(t) for t in tabs] + [lambda t=t: parts(t) for t in tabs[:nr]])[2:]
    for tab, hs in zip(tabs, out[len(tabs):]):
        # a part is there when the shape changes
        def stirs(h):
            return sum(1 for a, b in zip(h, h[1:]) for x, y in zip(a["exp"], b["exp"]) if not x["stale"] and x["shape"] != y["shape"])
        hs = sorted([h for h in hs if len(h) == 6], key=lambda h: -stirs(h))[:ctx.pick(2, 4)]
        items += [dict(seed=ctx.rng.randrange(10**9), table=tab, hist=h, real=True) for h in hs if stirs(h)]
    for tab, hs in zip(tabs, out):
        hs = ctx.one_per_prefix([h for h in hs if len(h) == L])
        items += [dict(seed=ctx.rng.randrange(10**9), table=tab, hist=h, real=i < ctx.pick(1, 10)) for i, h in enumerate(hs)]
    ctx.replay(cycloid.replay, items, label="adapting gears")
    hist = [dict(op="mesh", arg=[0, 0], plus=0, minus=0), dict(op="roll", arg=[3]), dict(op="roll", arg=[12])]
    for h in hist[1:]:
        h.update(plus=0, minus=0)
    pairs = [dict(kind=k, seed=ctx.rng.randrange(10**9), hist=hist) for k in ("cycloid", "cycring") for _ in range(ctx.pick(30, 600))]
    ctx.replay(roll.replay, pairs, label="adapted pair rolls", count_traces=False)
