"""P13 sections along the axis"""
import design


def run(ctx):
    design.run(ctx, "P13", ctx.pick(8, 60), ctx.pick(1, 3))
