"""P03 rolling"""
import roll


def run(ctx):
    L = ctx.pick(9, 16)
    consts = dict(MaxLen=4)
    defs = dict(Steps={-7, -2, 1, 3, 5, 12}, Turns={-4, -1, 0, 2, 3})
    ctx.mc("Roll", defs, consts=consts, invariants=("TotalPlay", "NoOverlap"), properties=("RollKeeps",), view="View", label="Roll exhaustive")
    hs = ctx.mc("Roll", defs, consts=dict(MaxLen=L), spec=("Init", "SimNext"), invariants=("TotalPlay", "NoOverlap"), action_constraint="EmitLast",
                simulate=ctx.pick(40, 400), depth=L + 1, label="Roll simulation")
    hs = ctx.one_per_prefix([h for h in hs if len(h) == L])
    items = []
    for k in roll.KINDS:
        n = ctx.pick(40, 500)
        items += [dict(kind=k, seed=ctx.rng.randrange(10**9), hist=hs[i % len(hs)]) for i in range(n)]
    ctx.replay(roll.replay, items, label="rolling pair")
