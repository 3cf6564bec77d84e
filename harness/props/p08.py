"""P08 parts follow their gears"""
import lifecycle


def run(ctx):
    lifecycle.run(ctx, (1, 6, 6, 0), ctx.pick(12, 20), ctx.pick(60, 500), ctx.pick(2, 24), ctx.pick(2, 4), True)
