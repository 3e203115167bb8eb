"""Snap points on the way of an advancing chain become vertices."""
from wv.absint import Infeasible, ListV
from wv.build import enum, link, meth, n, node, obj, point, walk

FLAT, STEEP = (5, 5), (5, 3)


def rows(size, span):
    """Non-increasing rows of the snap points; one lies at the end height."""
    values = [6, 5, 4] if span == FLAT else [6, 5, 4, 3, 2]

    def rec(prefix, top):
        if len(prefix) == size:
            if span[1] in prefix:
                yield tuple(prefix)
            return
        for v in values:
            if v <= top:
                yield from rec(prefix + [v], v)
    yield from rec([], 9)


def scene(ys, span, left, add_end, within=None):
    def run(it):
        def less(a, b, signs):
            if not it.sign(b - a, signs):
                raise Infeasible()
        xs = [it.sym('p%d' % i) for i in range(len(ys))]
        for i in range(len(ys) - 1):
            if ys[i] == ys[i + 1]:
                less(xs[i], xs[i + 1], {1})
        pixels = [point(it, x, n(y), 'snap%d' % i)
                  for i, (x, y) in enumerate(zip(xs, ys))]
        sx, ex = it.sym('start'), it.sym('end')
        low, high = {}, {}
        for y in sorted(set(ys)):
            low[y], high[y] = it.sym('low%d' % y), it.sym('high%d' % y)
            less(low[y], high[y], {0, 1})
        if within:
            for x, y in zip(xs, ys):
                a, b = (sx, ex) if within == 'right' else (ex, sx)
                less(a, b, {1})
                less(a, x, {0, 1})
                less(x, b, {0, 1})
                less(low[y], x, {0, 1})
                less(x, high[y], {0, 1})
        edge = obj(it, 'Edge', 'edge')
        it.spans = low, high
        ring = obj(it, 'Ring', 'contour', parent=None)
        start = point(it, sx, n(span[0]), 'last point')
        other = node(it, it.sym('ox'), n(40), 'other', ring)
        end_node = node(it, sx, n(span[0]), 'open end', ring)
        link([end_node, other] if left else [other, end_node])
        ring.fields['node'] = end_node if left else other
        bound = obj(it, 'Bound', 'chain', last_point=start, ring=ring,
                    current_edge=edge,
                    side=enum(it, 'EdgeSide', 'LEFT' if left else 'RIGHT'))
        at = min(i for i, y in enumerate(ys) if y <= span[1])
        manager = obj(it, 'RingManager', 'manager', hot_pixels=ListV(pixels),
                      _current_hot_pixel_index=n(at), nodes=ListV([]),
                      all_nodes=ListV([]), rings=ListV([ring]))
        end = point(it, ex, n(span[1]), 'end point')
        meth(it, manager, 'insert_hot_pixels_in_path', bound, end, add_end)
        if not it.eq(it.getattr(bound, 'last_point'), end):
            return 'the chain does not continue from the end point'
        nodes = walk(it, it.getattr(ring, 'node'))
        back = walk(it, it.getattr(ring, 'node'), field='prev')
        if nodes is None or back is None or \
                [id(v) for v in back[:1] + back[:0:-1]] != [id(v)
                                                            for v in nodes]:
            return 'the vertices are no two-way circle'
        got = [(it.getattr(v, 'x'), it.getattr(v, 'y')) for v in nodes]
        got = got[::-1] if left else got
        if span[0] == span[1] and it.eq(sx, ex):
            return None if len(got) == 2 else 'a vertex without a way'
        down = it.order('>', sx, ex)
        want = [(it.getattr(other, 'x'), n(40)), (sx, n(span[0]))]
        for y in sorted(set(ys), reverse=True):
            if not span[1] <= y <= span[0]:
                continue
            row = [x for x, v in zip(xs, ys) if v == y]
            for x in (row[::-1] if down else row):
                lo, hi = (ex, sx) if down else (sx, ex)
                if not (it.order('<=', lo, x) and it.order('<=', x, hi)
                        and it.order('<=', low[y], x)
                        and it.order('<=', x, high[y])):
                    continue
                if y == span[1] and not add_end and it.eq(x, ex):
                    continue
                if want[-1][1].value == y and it.eq(want[-1][0], x):
                    continue
                want.append((x, n(y)))
        if len(got) != len(want):
            return '%d vertices are added instead of %d' % (
                len(got) - 2, len(want) - 2)
        for i, (a, b) in enumerate(zip(got, want)):
            if not (it.eq(a[0], b[0]) and it.eq(a[1], b[1])):
                return 'vertex %d from the open end is not the expected snap '\
                    'point' % (i - 1)
        for v in nodes:
            if it.getattr(v, 'ring') is not ring:
                return 'a new vertex is not marked as of the contour'
        new = len(nodes) - 2
        for name in ('nodes', 'all_nodes'):
            if len(it.getattr(manager, name).items) != new:
                return 'the new vertices are not recorded for correction'
        return None
    return run


def span_stub(which):
    def stub(it, args, bound):
        y = it.num_of(args[1])
        if y is None or not y.is_const or int(y.value) not in \
                it.spans[which]:
            return it.sym('span elsewhere')
        return it.spans[which][int(y.value)]
    return stub


STUBS = {'Edge.get_min_x': span_stub(0), 'Edge.get_max_x': span_stub(1)}


def build(ctx):
    ctx.rule('snapped', 'the snap points within the pixel span of the edge '
             'between the last vertex and the end point become vertices at '
             'the open end, in the direction of travel, once')
    ctx.assume('snap points are sorted and distinct (C09), the current one '
               'is the first not above the end height, and one lies there')
    top = 3 if ctx.thorough else 2
    for size in range(1, top + 1):
        for span in (FLAT, STEEP):
            for ys in rows(size, span):
                if sum(span[1] <= y <= span[0] for y in ys) > 2 and \
                        span == STEEP:
                    continue       # too many orders of the coordinates
                for left in (False, True):
                    for add_end in (False, True):
                        ctx.table('snapped', 'snap points in rows %s, from '
                                  '%d to %d, %s end, %s' % (
                                      ys, span[0], span[1],
                                      'left' if left else 'right',
                                      'with the end point' if add_end
                                      else 'without the end point'),
                                  scene(ys, span, left, add_end), STUBS,
                                  anchors=['RingManager.insert_hot_pixels_in'
                                           '_path', 'Edge.get_min_x',
                                           'Edge.get_max_x'],
                                  max_paths=30000)
    # longer rows: every snap point lies on the way
    for size in (3, 4, 5) if ctx.thorough else (3, 4):
        for ys in rows(size, STEEP):
            if sum(STEEP[1] <= y <= STEEP[0] for y in ys) < 3:
                continue
            for left in (False, True):
                for within in ('right', 'left'):
                    ctx.table('snapped', 'snap points in rows %s on the way '
                              'to the %s, %s end' % (
                                  ys, within, 'left' if left else 'right'),
                              scene(ys, STEEP, left, True, within), STUBS,
                              anchors=['RingManager.insert_hot_pixels_in'
                                       '_path', 'Edge.get_min_x',
                                       'Edge.get_max_x'],
                              max_paths=30000)
