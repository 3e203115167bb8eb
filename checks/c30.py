"""Contours are nested under the smallest contour around them."""
from wv import forest, holes


def build(ctx):
    ctx.rule('nested', 'every contour ends up under the smallest contour of '
             'opposite orientation around it')
    cases = list(forest.steps(ctx.thorough))
    forest.register(ctx, 'nested', 'n', forest.nested, cases)
    ctx.rule('opened', 'a contour opened during the sweep is nested under '
             'the nearest contour to its left with one chain there')
    holes.register(ctx, 'opened')
