"""P15 chains of curves"""
import curves


def run(ctx):
    items = curves.chain_histories(ctx, ctx.pick(50, 800), ctx.pick(9, 14), ex=ctx.pick(3, 4))
    ctx.replay(curves.replay_chain, items, label="chain history")
