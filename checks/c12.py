"""Vertices of a contour stay a two-way circle."""
from wv import forest, topology


def build(ctx):
    ctx.rule('circle', 'every remaining contour is one circle of vertices '
             'linked both ways, no vertex is on two')
    topology.register(ctx, 'circle', 'c', lambda it, s: s.h.circles(),
                      topology.steps(ctx.thorough))
    forest.register(ctx, 'circle', 'c', lambda it, s: s.h.circles(),
                    forest.basic(ctx.thorough))
