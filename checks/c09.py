"""Orderings of the sweep and of topology correction."""
import itertools

from wv.absint import FuncV, ListV, ObjV, PyFn
from wv.build import (TOLERANT, almost, call, edge, link, meth, n, node, obj,
                      point)


def lt(it, a, b):
    return it.order('<', a, b)


def pair_rule(ctx, rule, name, make, spec, stubs=None, anchors=()):
    def run(it):
        a, b = make(it, 0), make(it, 1)
        got = it.truth(meth(it, a, '__lt__', b))
        want = spec(it, a, b)
        if got is not want:
            return '%s before %s is %s' % (a.label, b.label, got)
    ctx.table(rule, name, run, stubs, anchors=anchors)


def minima(ctx):
    for h1, h2 in itertools.product((False, True), repeat=2):
        hs = (h1, h2)
        pair_rule(
            ctx, 'minima', 'LocalMinimum, flat bottoms %s' % (hs,),
            lambda it, i, hs=hs: obj(it, 'LocalMinimum', 'minimum%d' % i,
                                     y=it.sym('y%d' % i),
                                     minimum_has_horizontal=hs[i]),
            lambda it, a, b, hs=hs: (
                lt(it, a.fields['y'], b.fields['y'])
                or (it.eq(a.fields['y'], b.fields['y'])
                    and hs[0] < hs[1])),
            anchors=['LocalMinimum.__lt__'])


def crossings(ctx):
    def make(it, i):
        big = 2 ** 20
        bs = [obj(it, 'Bound', 'bound%d%d' % (i, j),
                  opposite_winding_count=it.sym('o%d%d' % (i, j), -big, big,
                                                True)) for j in (0, 1)]
        return obj(it, 'IntersectNode', 'crossing%d' % i, first_bound=bs[0],
                   second_bound=bs[1], point=point(it, it.sym('x%d' % i),
                                                   it.sym('y%d' % i)))

    def spec(it, a, b):
        ya, yb = (it.getattr(v.fields['point'], 'y') for v in (a, b))
        if almost(it, ya, yb):
            s = [v.fields['first_bound'].fields['opposite_winding_count']
                 + v.fields['second_bound'].fields['opposite_winding_count']
                 for v in (a, b)]
            return lt(it, s[0], s[1])
        return lt(it, yb, ya)
    pair_rule(ctx, 'crossings', 'IntersectNode', make, spec, TOLERANT,
              ['IntersectNode.__lt__', 'are_floats_almost_equal'])


def vertices(ctx):
    for d1, d2 in itertools.product(range(3), repeat=2):
        ds = (d1, d2)

        def make(it, i, ds=ds):
            ring = obj(it, 'Ring', 'ring%d' % i, parent=None)
            cur = ring
            for k in range(ds[i]):
                up = obj(it, 'Ring', 'ring%d.%d' % (i, k), parent=None)
                cur.fields['parent'] = up
                cur = up
            return node(it, it.sym('x%d' % i), it.sym('y%d' % i),
                        'vertex%d' % i, ring)

        def spec(it, a, b, ds=ds):
            fa, fb = a.fields, b.fields
            if not it.eq(fa['y'], fb['y']):
                return lt(it, fb['y'], fa['y'])
            if not it.eq(fa['x'], fb['x']):
                return lt(it, fa['x'], fb['x'])
            return ds[0] > ds[1]
        pair_rule(ctx, 'vertices', 'PointNode, depths %s' % (ds,), make,
                  spec, anchors=['PointNode.__lt__'])


def in_order(it, pts):
    for a, b in zip(pts, pts[1:]):
        ya, yb = it.getattr(a, 'y'), it.getattr(b, 'y')
        xa, xb = it.getattr(a, 'x'), it.getattr(b, 'x')
        if lt(it, ya, yb) or it.eq(ya, yb) and lt(it, xb, xa):
            return False
    return True


def ring_vertices(ctx):
    for size in (1, 2, 3):
        def run(it, size=size):
            ns = link([node(it, it.sym('x%d' % i), it.sym('y%d' % i),
                            'vertex%d' % i) for i in range(size)])
            ring = obj(it, 'Ring', 'ring', node=ns[0])
            got = list(it.iterate(it.getattr(ring, 'sorted_nodes')))
            if len(got) != size or any(all(g is not v for g in got)
                                       for v in ns):
                return 'loses or repeats vertices'
            if not in_order(it, got):
                return 'vertices are not top-down and left to right: %s' % [
                    g.label for g in got]
        ctx.table('ring-vertices', '%d vertices' % size, run,
                  anchors=['Ring.sorted_nodes'])


def snap_points(ctx):
    for size in range(4):
        def run(it, size=size):
            ps = [point(it, it.sym('x%d' % i), it.sym('y%d' % i),
                        'pixel%d' % i) for i in range(size)]
            mgr = obj(it, 'RingManager', 'manager', hot_pixels=ListV(
                list(ps)), _current_hot_pixel_index=None)
            meth(it, mgr, 'sort_hot_pixels')
            got = list(it.iterate(it.getattr(mgr, 'hot_pixels')))
            for g in got:
                if all(g is not p for p in ps):
                    return 'invents a snap point'
            if not in_order(it, got):
                return 'snap points are not top-down and left to right: %s' \
                    % [g.label for g in got]
            for a, b in zip(got, got[1:]):
                if it.truth(it.eq(a, b)):
                    return 'keeps a repeated snap point'
            for p in ps:
                if not any(g is p or it.truth(it.eq(g, p)) for g in got):
                    return 'loses %s' % p.label
        ctx.table('snap-points', '%d points' % size, run, max_paths=60000,
                  anchors=['RingManager.sort_hot_pixels'])


def sorts(ctx):
    for size in range(7 if ctx.thorough else 6):
        def quick(it, size=size):
            vs = [it.sym('v%d' % i) for i in range(size)]
            seq = ListV(list(vs))
            cmp = PyFn(lambda it, a, b: it.order('>=', a, b), 'cmp')
            call(it, 'quicksort', seq, cmp)
            if sorted(map(repr, seq.items)) != sorted(map(repr, vs)):
                return 'loses or repeats elements: %s' % seq.items
            for a, b in zip(seq.items, seq.items[1:]):
                if lt(it, b, a):
                    return 'not in order: %s' % seq.items
        ctx.table('sorting', 'quicksort of %d' % size, quick,
                  max_paths=60000, anchors=['quicksort'])

        if size == (6 if ctx.thorough else 5):
            continue

        def bubble(it, size=size):
            els = [obj(it, 'Bound', 'element%d' % i) for i in range(size)]
            vs = {id(e): it.sym('v%d' % i) for i, e in enumerate(els)}
            seq = ListV(list(els))
            swaps = []
            cmp = PyFn(lambda it, a, b: it.order('<=', vs[id(a)], vs[id(b)]), 'cmp')

            def swap(it, a, b):
                swaps.append((els.index(a), els.index(b)))
            res = call(it, 'bubble_sort', seq, cmp, PyFn(swap, 'swap'))
            out = list(it.iterate(res))
            if seq.items != els:
                return 'changes its argument'
            want = sorted((i, j) for i in range(size)
                          for j in range(i + 1, size)
                          if lt(it, vs[id(els[j])], vs[id(els[i])]))
            if sorted(swaps) != want:
                return 'swaps %s instead of %s' % (swaps, want)
            cur = list(els)
            for i, j in swaps:
                a, b = cur.index(els[i]), cur.index(els[j])
                if b != a + 1:
                    return 'swaps elements that are not neighbours'
                cur[a], cur[b] = cur[b], cur[a]
            if len(out) != size or any(x is not y for x, y in zip(out, cur)):
                return 'result is not what the swaps yield'
        ctx.table('sorting', 'bubble_sort of %d' % size, bubble,
                  max_paths=60000, anchors=['bubble_sort'])


def rings(ctx):
    def make(it, i, empty):
        a = it.sym('area%d' % i)
        return obj(it, 'Ring', 'ring%d' % i, node=None if empty else node(
            it, n(0), n(0)), _area=a)

    def absolute(it, r):
        a = r.fields['_area']
        return -a if it.sign(a, {-1}) else a
    for e1, e2 in itertools.product((False, True), repeat=2):
        es = (e1, e2)
        pair_rule(ctx, 'rings', 'Ring, emptied %s' % (es,),
                  lambda it, i, es=es: make(it, i, es[i]),
                  lambda it, a, b, es=es: (
                      not es[0] if es[0] or es[1] else
                      lt(it, absolute(it, a), absolute(it, b))),
                  anchors=['Ring.__lt__'])
    for name, down in (('sorted_rings', False),
                       ('reversed_sorted_rings', True)):
        for mask in itertools.product((False, True), repeat=3):
            def run(it, name=name, down=down, mask=mask):
                rs = [make(it, i, e) for i, e in enumerate(mask)]
                mgr = obj(it, 'RingManager', 'manager', rings=ListV(
                    list(rs)))
                out = list(it.iterate(it.getattr(mgr, name)))
                if len(out) != 3 or any(all(o is not r for o in out)
                                        for r in rs):
                    return 'loses or repeats contours'
                if mgr.fields['rings'].items != rs:
                    return 'reorders the contours themselves'
                live = [o for o in out if o.fields['node'] is not None]
                if not down and out[:len(live)] != live:
                    return 'an emptied contour precedes others'
                for a, b in zip(live, live[1:]):
                    if down:
                        a, b = b, a
                    if lt(it, absolute(it, b), absolute(it, a)):
                        return 'contours are not ordered by absolute area'
            ctx.table('rings', '%s, emptied %s' % (name, mask), run,
                      anchors=['RingManager.' + name])


def chains(ctx):
    def at(it, args, bound):
        name = 'x_of_%s_at_%s' % (args[0].label, args[1])
        return it.sym(name)
    stubs = dict(TOLERANT)
    stubs['Edge.get_current_x'] = at

    def location(it):
        bs = []
        for i in (0, 1):
            e = edge(it, obj(it, 'Point', 'bottom'),
                     point(it, it.sym('tx%d' % i), it.sym('ty%d' % i)),
                     it.sym('slope%d' % i), 'edge%d' % i)
            bs.append(obj(it, 'Bound', 'chain%d' % i, edges=ListV([e]),
                          _current_edge_index=n(0), _next_edge_index=None,
                          current_x=it.sym('cx%d' % i)))
        got = it.truth(call(it, 'bound_insert_location', bs[0], bs[1]))
        a, b = bs[0].fields['current_x'], bs[1].fields['current_x']
        if almost(it, a, b):
            t = [x.fields['edges'].items[0].fields['top'].fields for x in bs]
            if lt(it, t[1]['y'], t[0]['y']):
                p = t[0]['x']
                q = it.sym('x_of_edge1_at_%s' % t[0]['y'])
            else:
                p = it.sym('x_of_edge0_at_%s' % t[1]['y'])
                q = t[1]['x']
            want = not almost(it, p, q) and lt(it, p, q)
        else:
            want = lt(it, a, b)
        if got is not want:
            return 'a chain entering %s another one is put %s it' % (
                'left of' if want else 'not left of',
                'before' if got else 'behind')
    ctx.table('chains', 'bound_insert_location', location, stubs,
              anchors=['bound_insert_location', 'Edge.get_current_x',
                       'are_floats_almost_equal'])
    for size in range(4):
        def insert(it, size=size):
            it.stubs = {'bound_insert_location': lambda it, a, b: answers[
                [i for i, v in enumerate(old) if v is a[1]][0]]
                if a[0] is pair[0] else None}
            answers = [bool(it.choose(2, 'left of %d' % i))
                       for i in range(size)]
            old = [obj(it, 'Bound', 'chain%d' % i) for i in range(size)]
            pair = [obj(it, 'Bound', 'left'), obj(it, 'Bound', 'right')]
            abl = ListV(list(old))
            r = it.const_int(call(it, 'insert_bound_into_abl', pair[0],
                                  pair[1], abl))
            i = answers.index(True) if True in answers else size
            if abl.items != old[:i] + pair + old[i:]:
                return 'inserts at the wrong place'
            if r != i:
                return 'reports place %d instead of %d' % (r, i)
        ctx.table('chains', 'insert_bound_into_abl among %d' % size, insert,
                  anchors=['insert_bound_into_abl', 'bound_insert_location'])

    def compare(it):
        bs = []
        for i in (0, 1):
            e = edge(it, point(it, it.sym('bx%d' % i), it.sym('by%d' % i)),
                     point(it, it.sym('tx%d' % i), it.sym('ty%d' % i)),
                     it.sym('slope%d' % i), 'edge%d' % i)
            bs.append(obj(it, 'Bound', 'chain%d' % i, edges=ListV([e]),
                          _current_edge_index=n(0), _next_edge_index=None,
                          current_x=it.sym('cx%d' % i)))
        par = bool(it.choose(2, 'parallel'))
        it.stubs = {'are_edges_slopes_equal': lambda it, a, b: par}
        got = it.truth(call(it, 'intersection_compare', bs[0], bs[1]))
        want = par or not lt(it, bs[1].fields['current_x'],
                             bs[0].fields['current_x'])
        if got is not want:
            return 'neighbours are %sswapped' % ('not ' if got else '')
    ctx.table('chains', 'intersection_compare', compare,
              anchors=['intersection_compare', 'are_edges_slopes_equal'])
    for size in range(4):
        def found(it, size=size):
            bs = []
            for i in range(size):
                e = edge(it, obj(it, 'Point', 'b%d' % i),
                         obj(it, 'Point', 't%d' % i), n(0), 'edge%d' % i)
                bs.append(obj(it, 'Bound', 'chain%d' % i, edges=ListV([e]),
                              _current_edge_index=n(0),
                              _next_edge_index=None,
                              current_x=it.sym('cx%d' % i)))
            pts = {}

            def meet(it, a, b):
                i = [k for k in range(size)
                     if bs[k].fields['edges'].items[0] is a[0]][0]
                j = [k for k in range(size)
                     if bs[k].fields['edges'].items[0] is a[1]][0]
                key = (min(i, j), max(i, j))
                pts.setdefault(key, obj(it, 'Point', 'at%d%d' % key))
                return pts[key]
            it.stubs = {'Edge.__and__': meet,
                        'are_edges_slopes_equal': lambda it, a, b: False}
            abl = ListV(list(bs))
            r = call(it, 'build_intersect_list', abl)
            if not isinstance(r, tuple) or len(r) != 2:
                return 'no pair of chains and crossings'
            if abl.items != bs:
                return 'reorders the active chains'
            out, nodes = (list(it.iterate(v)) for v in r)
            want = {(i, j) for i in range(size) for j in range(i + 1, size)
                    if lt(it, bs[j].fields['current_x'],
                          bs[i].fields['current_x'])}
            got = []
            for nd in nodes:
                i = bs.index(it.getattr(nd, 'first_bound'))
                j = bs.index(it.getattr(nd, 'second_bound'))
                got.append((i, j))
                if it.getattr(nd, 'point') is not pts.get((min(i, j),
                                                           max(i, j))):
                    return 'crossing of %d and %d lies elsewhere' % (i, j)
            if sorted(got) != sorted(want):
                return 'finds crossings %s instead of %s' % (
                    got, sorted(want))
            for a, b in zip(out, out[1:]):
                if lt(it, b.fields['current_x'], a.fields['current_x']):
                    return 'result is not in order'
        ctx.table('chains', 'build_intersect_list of %d' % size, found,
                  anchors=['build_intersect_list', 'Edge.__and__',
                           'are_edges_slopes_equal'])


def build(ctx):
    for a in ('LocalMinimum.__lt__', 'IntersectNode.__lt__',
              'bound_insert_location', 'insert_bound_into_abl',
              'build_intersect_list', 'bubble_sort',
              'RingManager.sort_hot_pixels'):
        ctx.p.need(a)
    ctx.assume('the tolerant float comparison is reflexive and otherwise '
               'arbitrary')
    ctx.assume('lists of up to %d elements' % (5 if ctx.thorough else 4))
    ctx.rule('minima', 'by height, then those without a flat bottom first')
    ctx.rule('crossings', 'lower ones first, of equal height by the sum of '
             'opposite winding numbers')
    ctx.rule('vertices', 'lower ones first, then left to right, then deeper '
             'contours first')
    ctx.rule('ring-vertices', 'vertices of a contour are sorted without loss')
    ctx.rule('snap-points', 'snap points are sorted without loss and unique')
    ctx.rule('sorting', 'sorting routines yield the ordered permutation; '
             'every inversion is swapped once between neighbours')
    ctx.rule('rings', 'by absolute area, emptied ones behind all others')
    ctx.rule('chains', 'entering chains go before the first chain right of '
             'them, neighbours swap exactly when they have crossed')
    for part in (minima, crossings, vertices, ring_vertices, snap_points,
                 sorts, rings, chains):
        part(ctx)
