"""Which chains are crossed, in which order, and how they swap places."""
import itertools

from wv.absint import ListV, ObjV
from wv.build import EXACT, edge, meth, n, obj, point
from wv.num import INF
from wv.sweep import members

OPK = ('INTERSECTION', 'NON_ZERO', 'POSITIVE')


def crossing_log(log):
    def stub(it, args, bound):
        bs = [v for v in bound.values() if isinstance(v, ObjV)
              and v.cls.name == 'Bound']
        ps = [v for v in bound.values() if isinstance(v, ObjV)
              and v.cls.name == 'Point']
        lists = [v for v in bound.values() if isinstance(v, ListV)]
        log.append(('cross', ps[0], bs, lists))
        return None
    return stub


def same_point(it, p, x, y):
    return it.eq(it.getattr(p, 'x'), x) and it.eq(it.getattr(p, 'y'), y)


def listed(it, ctx, perm, order, size):
    def run(it):
        o, f, _ = members(it)
        bs = [obj(it, 'Bound', 'bound%d' % i, ring=None) for i in range(size)]
        nodes = []
        for i, j in order:
            nodes.append(obj(it, 'IntersectNode', 'crossing%d%d' % (i, j),
                             first_bound=bs[i], second_bound=bs[j],
                             point=obj(it, 'Point', 'at%d%d' % (i, j))))
        abl = ListV(list(bs))
        state = list(bs)
        log = []
        rounded = {}

        def rnd(it, args, bound):
            p = obj(it, 'Point', 'rounded')
            rounded[id(p)] = (p, args[0])
            return p
        fault = []

        def cross(it, args, bound):
            b = [v for v in bound.values() if isinstance(v, ObjV)
                 and v.cls.name == 'Bound']
            p = [v for v in bound.values() if isinstance(v, ObjV)
                 and v.cls.name == 'Point']
            i, j = bs.index(b[0]), bs.index(b[1])
            log.append((i, j))
            if abl.items.index(b[1]) - abl.items.index(b[0]) != 1:
                fault.append('crosses %s and %s when the second is not next '
                             'to the right of the first'
                             % (b[0].label, b[1].label))
            r = rounded.get(id(p[0]))
            at = [nd.fields['point'] for nd in nodes
                  if nd.fields['first_bound'] is b[0]
                  and nd.fields['second_bound'] is b[1]]
            if r is None or not at or r[1] is not at[0]:
                fault.append('the crossing of %s and %s is not put at its '
                             'rounded point' % (b[0].label, b[1].label))
            return None
        it.stubs = {'RingManager.intersect_bounds': cross,
                    'Point.round': rnd}
        meth(it, obj(it, 'RingManager', 'manager'), 'process_intersect_list',
             ListV(nodes), o['UNION'], f['NON_ZERO'], f['POSITIVE'], abl)
        if fault:
            return fault[0]
        if sorted(log) != sorted(order):
            return 'crossings %s are processed as %s' % (order, log)
        if [bs.index(b) for b in abl.items] != list(perm):
            return 'the chains end up in order %s instead of %s' % (
                [bs.index(b) for b in abl.items], list(perm))
    return run


def lists(ctx):
    for size in (2, 3, 4):
        for perm in itertools.permutations(range(size)):
            inv = [(i, j) for i in range(size) for j in range(i + 1, size)
                   if perm.index(i) > perm.index(j)]
            if not inv or len(inv) > (6 if ctx.thorough else 4):
                continue

            def run(it, perm=perm, inv=inv, size=size):
                left = list(inv)
                order = []
                while left:
                    order.append(left.pop(it.choose(len(left), 'next')))
                return listed(it, ctx, perm, order, size)(it)
            ctx.table('crossing-order', 'crossings turning %d chains into %s'
                      % (size, perm), run, anchors=[
                          'RingManager.process_intersect_list',
                          'RingManager.intersect_bounds', 'Point.round'])


def maxima(ctx):
    for between in range(3):
        for holes in itertools.product((False, True), repeat=between):
            for ring in (False, True):
                def run(it, holes=holes, ring=ring):
                    o, f, _ = members(it)
                    log = []
                    r = obj(it, 'Ring', 'ring') if ring else None
                    top = obj(it, 'Point', 'top')
                    e = obj(it, 'Edge', 'edge', top=top,
                            bottom=obj(it, 'Point', 'bottom'))
                    mx = obj(it, 'Bound', 'partner', ring=r,
                             current_edge=obj(it, 'Edge', 'edge2', top=obj(
                                 it, 'Point', 'top2')))
                    b = obj(it, 'Bound', 'chain', ring=r, current_edge=e,
                            maximum_bound=mx)
                    mid = [None if h else obj(it, 'Bound', 'between%d' % i,
                                              ring=None)
                           for i, h in enumerate(holes)]
                    out = [obj(it, 'Bound', 'left', ring=None),
                           obj(it, 'Bound', 'right', ring=None)]
                    abl = ListV([out[0], b] + mid + [mx, out[1]])

                    def joined(it, args, bound):
                        bs = [v for v in bound.values()
                              if isinstance(v, ObjV)
                              and v.cls.name == 'Bound']
                        ps = [v for v in bound.values()
                              if isinstance(v, ObjV)
                              and v.cls.name == 'Point']
                        log.append(('join', ps[0], bs, None))
                    it.stubs = {
                        'RingManager.intersect_bounds': crossing_log(log),
                        'RingManager.add_local_maximum_point': joined}
                    r = meth(it, obj(it, 'RingManager', 'manager'),
                             'do_maxima', o['UNION'], f['NON_ZERO'],
                             f['POSITIVE'], n(1), n(2 + len(mid)), abl)
                    want = [[b, x] for x in mid if x is not None]
                    got = [e[2] for e in log if e[0] == 'cross']
                    if got != want:
                        return 'crosses %s instead of %s' % (
                            [[x.label for x in g] for g in got],
                            [[x.label for x in g] for g in want])
                    if any(e[1] is not top for e in log):
                        return 'puts a crossing elsewhere than at its top'
                    joins = [e for e in log if e[0] == 'join']
                    if len(joins) != (1 if ring else 0):
                        return 'joins the contours %d times' % len(joins)
                    if joins and set(joins[0][2]) != {b, mx}:
                        return 'joins other chains'
                    if joins and log[-1] is not joins[0]:
                        return 'joins before crossing the chains between'
                    rest = [x for x in abl.items if x is not None]
                    if rest != [out[0]] + [x for x in mid if x] + [out[1]]:
                        return 'leaves chains %s' % [x.label for x in rest]
                    idx = it.const_int(r)
                    todo = [x for x in mid if x] + [out[1]]
                    for x in todo:
                        if abl.items.index(x) < idx:
                            return 'goes on behind a chain not handled yet'
                    if idx < 1:
                        return 'goes back'
                ctx.table('maximum-order', '%d chains between (%s), %s' % (
                    between, ''.join('-x'[not h] for h in holes),
                    'on a contour' if ring else 'no contour'), run,
                    anchors=['RingManager.do_maxima',
                             'RingManager.intersect_bounds',
                             'RingManager.add_local_maximum_point'])


def horizontal(ctx, sgn, others, pixels, maximum, ring):
    """sgn 1: left to right."""
    name = ('RingManager.process_horizontal')

    def run(it):
        o, f, _ = members(it)
        y = it.sym('y', integer=True)
        start = it.sym('start', integer=True)
        length = it.sym('length', 1, None, True)
        end = start + n(sgn) * length
        log = []
        ringv = obj(it, 'Ring', 'ring') if ring else None
        top = point(it, end, y, 'end')
        e = edge(it, point(it, start, y), top, INF, 'horizontal')
        nxt = edge(it, top, point(it, it.sym('nx', integer=True),
                                  it.sym('ny', integer=True)),
                   it.sym('next_slope'), 'next')
        b = obj(it, 'Bound', 'horizontal chain', ring=ringv,
                current_x=start, _current_edge_index=n(0),
                _next_edge_index=None if maximum else n(1),
                edges=ListV([e] if maximum else [e, nxt]),
                maximum_bound=None)
        xs, cur = [], start
        others_b = []
        for i in range(others):
            gap = it.sym('gap%d' % i, 0, None, True)
            cur = cur + n(sgn) * gap
            xs.append(cur)
            eb = edge(it, obj(it, 'Point', 'ob%d' % i),
                      obj(it, 'Point', 'ot%d' % i), n(0), 'other%d' % i)
            others_b.append(obj(it, 'Bound', 'chain%d' % i, ring=ringv,
                                current_x=cur, edges=ListV([eb]),
                                _current_edge_index=n(0),
                                _next_edge_index=None))
        which = None
        if maximum:
            which = it.choose(others, 'partner')
            b.fields['maximum_bound'] = others_b[which]
            # the partner ends where the horizontal ends
            if not it.eq(xs[which], end):
                return None
        lead = it.choose(2, 'chains behind')
        behind = [obj(it, 'Bound', 'behind', ring=None,
                      current_x=start - n(sgn))] * lead
        items = behind + [b] + others_b
        if sgn < 0:
            items = items[::-1]
        abl = ListV(items)
        px, cur = [], start - n(sgn)
        for i in range(pixels):
            cur = cur + n(sgn) * it.sym('step%d' % i, 1, None, True)
            px.append(cur)
        hot = [point(it, v, y, 'pixel%d' % i) for i, v in enumerate(px)]
        hot = hot if sgn > 0 else hot[::-1]
        below = point(it, start, y + n(1), 'pixel below')
        above = point(it, start, y - n(1), 'pixel above')
        hot = [below] + hot + [above]
        mgr = obj(it, 'RingManager', 'manager', hot_pixels=ListV(hot),
                  _current_hot_pixel_index=n(1), children=ListV([]))
        at = items.index(b)

        def vertex(it, args, bound):
            bs = [v for v in bound.values() if isinstance(v, ObjV)
                  and v.cls.name == 'Bound']
            ps = [v for v in bound.values() if isinstance(v, ObjV)
                  and v.cls.name == 'Point']
            log.append(('vertex', it.getattr(ps[0], 'x'),
                        it.getattr(ps[0], 'y'), bs[0]))

        def joined(it, args, bound):
            bs = [v for v in bound.values() if isinstance(v, ObjV)
                  and v.cls.name == 'Bound']
            ps = [v for v in bound.values() if isinstance(v, ObjV)
                  and v.cls.name == 'Point']
            log.append(('join', ps[0], bs))

        def crossed(it, args, bound):
            bs = [v for v in bound.values() if isinstance(v, ObjV)
                  and v.cls.name == 'Bound']
            ps = [v for v in bound.values() if isinstance(v, ObjV)
                  and v.cls.name == 'Point']
            log.append(('cross', ps[0], bs))

        def advance(it, args, bound):
            log.append(('advance', args[0]))
        stubs = dict(EXACT)
        stubs.update({
            'RingManager.add_point_to_ring': vertex,
            'RingManager.add_point': vertex,
            'RingManager.add_local_maximum_point': joined,
            'RingManager.intersect_bounds': crossed,
            'Bound.to_next_edge': advance,
            'round_half_up': lambda it, a, b: a[0]})
        it.stubs = stubs
        r = meth(it, mgr, 'process_horizontal', o['UNION'], f['NON_ZERO'],
                 f['POSITIVE'], y, ListV([]), n(at), abl)
        # -- specification ------------------------------------------------
        def beyond(u, v):        # u strictly further along than v
            return it.sign((u - v) * n(sgn), {1})
        crossed_b, stop = [], None
        for i, ob in enumerate(others_b):
            if beyond(xs[i], end):
                stop = 'end'
                break
            if maximum and i == which:
                stop = 'join'
                break
            crossed_b.append(ob)
        got = [x for x in log if x[0] == 'cross']
        for x in got:
            pair = x[2] if sgn > 0 else x[2][::-1]
            if pair[0] is not b:
                return 'crosses chains in the wrong order'
        if [(x[2] if sgn > 0 else x[2][::-1])[1] for x in got] != crossed_b:
            return 'crosses %s instead of %s' % (
                [x[2][0].label + '/' + x[2][1].label for x in got],
                [c.label for c in crossed_b])
        for x, ob in zip(got, crossed_b):
            if not same_point(it, x[1], xs[others_b.index(ob)], y):
                return 'a crossing is not put at the other chain'
        joins = [x for x in log if x[0] == 'join']
        if len(joins) != (1 if maximum and ring else 0):
            return 'joins contours %d times' % len(joins)
        if joins and (set(joins[0][2]) != {b, others_b[which]}
                      or not same_point(it, joins[0][1], end, y)):
            return 'joins other chains or elsewhere'
        adv = [x for x in log if x[0] == 'advance']
        if [x[1] for x in adv] != ([] if maximum else [b]):
            return 'does not advance the horizontal chain once'
        final = behind + crossed_b + ([] if maximum else [b]) + [
            ob for i, ob in enumerate(others_b) if ob not in crossed_b
            and not (maximum and i == which)]
        final = final if sgn > 0 else final[::-1]
        if [x for x in abl.items if x is not None] != final:
            return 'the chains end up as %s instead of %s' % (
                [x.label for x in abl.items if x],
                [x.label for x in final])
        idx = it.const_int(r)
        todo = others_b if sgn > 0 else behind
        for x in todo:
            if x in abl.items and abl.items.index(x) < idx:
                return 'goes on behind a chain not handled yet'
        if idx < at or (idx == at and at < len(abl.items)
                        and abl.items[at] is b):
            return 'handles the same chain again'
        # vertices
        if ring:
            want = [xs[others_b.index(ob)] for ob in crossed_b]
            want.append(end)
            gotv = [x[1] for x in log if x[0] == 'vertex']
            if stop == 'join' and not gotv:
                gotv = [end]      # the join itself is put there
            if any(x[3] is not b for x in log if x[0] == 'vertex'):
                return 'adds a vertex to another chain'
            if any(not it.eq(x[2], y) for x in log if x[0] == 'vertex'):
                return 'adds a vertex off the horizontal'
            for u, v in zip([start] + gotv, gotv + [end]):
                if beyond(u, v):
                    return 'goes back with its vertices: %s' % gotv
            for v in gotv:
                if not any(it.eq(v, w) for w in want + px):
                    return ('adds a vertex at %r that is neither snap point '
                            'nor crossing' % v)
            for w in want:
                if not any(it.eq(v, w) for v in gotv):
                    return 'adds no vertex at %r' % w
        elif any(x[0] == 'vertex' for x in log):
            return 'adds vertices without a contour'

    ctx.table('horizontal-order', '%s, %d chains ahead, %d snap points, %s, '
              '%s' % ('left to right' if sgn > 0 else 'right to left',
                      others, pixels, 'maximum' if maximum
                      else 'intermediate', 'on a contour' if ring
                      else 'no contour'), run, max_paths=60000,
              anchors=[name, 'RingManager.add_point_to_ring',
                       'RingManager.intersect_bounds', 'round_half_up',
                       'RingManager.add_local_maximum_point',
                       'Bound.to_next_edge'])


def build(ctx):
    ctx.rule('crossing-order', 'the crossings of one strip are processed '
             'each once between neighbours, left chain first, at the rounded '
             'point, in whatever order they come')
    ctx.rule('maximum-order', 'a chain reaching its maximum crosses every '
             'chain before its partner, at its top, then joins it')
    ctx.rule('horizontal-order', 'a horizontal edge crosses exactly the '
             'chains it passes, in order, puts vertices at them and only at '
             'snap points between, then advances or meets its partner')
    lists(ctx)
    maxima(ctx)
    for sgn in (1, -1):
        for maximum in (False, True):
            for ring in (False, True):
                for others in range(1 if maximum else 0,
                                    4 if ctx.thorough else 3):
                    for pixels in range(3 if ring else 1):
                        horizontal(ctx, sgn, others, pixels, maximum, ring)
