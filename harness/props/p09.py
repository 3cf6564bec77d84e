"""P09 interrupted builds"""
import lifecycle


def run(ctx):
    lifecycle.run(ctx, (1, 2, 2, 6), ctx.pick(12, 20), ctx.pick(60, 500), ctx.pick(2, 24), ctx.pick(2, 4), False)
