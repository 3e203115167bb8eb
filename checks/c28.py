"""Cleaning keeps the boundary."""
from wv import topology


def build(ctx):
    ctx.rule('boundary', 'the directed pieces of boundary before and after '
             'differ only in pieces run both ways')

    def judge(it, s):
        after = s.h.chain()
        if after is None:
            return 'a contour is no circle any more'
        if after != s.before:
            gone = sorted((k, v - after.get(k, 0)) for k, v in
                          s.before.items() if v != after.get(k, 0))
            more = sorted((k, v) for k, v in after.items()
                          if k not in s.before)
            return 'boundary pieces lost %s and added %s' % (gone, more)
    topology.register(ctx, 'boundary', 'b', judge,
                      topology.steps(ctx.thorough))
