"""Coincident vertices are found and resolved."""
from wv import scans, topology


def build(ctx):
    ctx.rule('resolved', 'a pair of vertices at one place ends up on '
             'different contours without a doubled edge between them, or one '
             'of them is gone; what is reported as changed has changed')

    def judge(it, s):
        if s.expect is not None:
            return s.expect(s)
        return topology.resolved(it, s)
    topology.register(ctx, 'resolved', 'r', judge,
                      topology.steps(ctx.thorough))
    ctx.rule('examined', 'every pair of vertices at one place is examined, '
             'and again after a change')
    scans.scans(ctx, 'examined')
    ctx.rule('apart', 'after correction no contour visits a place twice and '
             'the parts split off are reported')
    scans.aparts(ctx, 'apart')
    ctx.rule('passes', 'the passes run in order and until nothing changes')
    scans.passes(ctx, 'passes')
    scans.agains(ctx, 'passes')
