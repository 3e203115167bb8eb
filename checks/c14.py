"""Measurements of contours and owners of vertices."""
from wv import forest, scans, topology


def build(ctx):
    ctx.rule('owners', 'every vertex on a contour is marked as of it')
    ctx.rule('measured', 'cached area, box and orientation are unset or those '
             'of the vertices')
    cases = list(topology.steps(ctx.thorough))
    topology.register(ctx, 'owners', 'o', lambda it, s: s.h.owners(), cases)
    topology.register(ctx, 'measured', 'o',
                      lambda it, s: s.h.fresh(s.counts), cases)
    cases = list(forest.basic(ctx.thorough))
    forest.register(ctx, 'owners', 'o', lambda it, s: s.h.owners(), cases)
    ctx.rule('emptied', 'a removed contour keeps no measurements')
    forest.register(ctx, 'emptied', 'o', forest.emptied, cases)
    ctx.rule('oriented', 'after orientation every contour of three or more '
             'vertices turns as its depth demands, freshly measured')
    scans.orientations(ctx, 'oriented')
