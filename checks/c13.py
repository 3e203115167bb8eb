"""Contours are listed where their parent says."""
from wv import forest, topology


def build(ctx):
    ctx.rule('listed', 'every remaining contour is listed once, under its '
             'parent; no removed contour is listed')
    topology.register(ctx, 'listed', 'f', lambda it, s: s.h.listed(s.new_ok),
                      topology.steps(ctx.thorough))
    forest.register(ctx, 'listed', 'f', lambda it, s: s.h.listed(s.new_ok),
                    forest.steps(ctx.thorough))
