"""P07 questions"""
import lifecycle


def run(ctx):
    lifecycle.run(ctx, (14, 4, 1, 0), ctx.pick(40, 60), ctx.pick(60, 600), ctx.pick(4, 30), ctx.pick(2, 3), False)
