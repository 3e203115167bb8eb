"""Contours grow and join at the right end."""
from wv.absint import Infeasible, ListV, ObjV
from wv.build import (EXACT, TOLERANT, enum, link, meth, n, node, obj, point,
                      walk)
from wv.heap import Heap, STATS, partitions


def side(it, left):
    return enum(it, 'EdgeSide', 'LEFT' if left else 'RIGHT')


def ends(it, ring):
    """The vertices from the left end to the right one."""
    start = it.getattr(ring, 'node')
    if not isinstance(start, ObjV):
        return None
    return walk(it, start)


def two_way(it, ring):
    a = ends(it, ring)
    b = walk(it, it.getattr(ring, 'node'), field='prev')
    return (a is not None and b is not None
            and [id(v) for v in a] == [id(v) for v in b[:1] + b[:0:-1]])


def chain(it, label, ring, left, edge=None, **fields):
    return obj(it, 'Bound', label, ring=ring, side=side(it, left),
               current_edge=edge, last_point=point(
                   it, it.sym('lx' + label), it.sym('ly' + label)), **fields)


def others(it):
    """An active list around: a gap and an unrelated chain."""
    return [None, chain(it, 'unrelated', None, True)]


# -- a vertex is added -------------------------------------------------------
def snap_stub(it, args, bound):
    """Snap points on the way: one more vertex may appear at the open end."""
    bd, end, flag = args[1], args[2], args[3]
    it.snaps.append((bd, end, it.truth(flag)))
    h = it.heap
    ring = it.getattr(bd, 'ring')
    if isinstance(ring, ObjV) and it.getattr(ring, 'node') is not None and \
            it.choose(2, 'a snap point on the way'):
        op = it.getattr(ring, 'node')
        v = h.node('snap', 'snap vertex', ring)
        last = it.getattr(op, 'prev')
        v.fields.update(next=op, prev=last)
        op.fields['prev'] = v
        last.fields['next'] = v
        if it.same_end(bd):
            ring.fields['node'] = v
    it.setattr(bd, 'last_point', end)
    return None


def left_of(it, bd):
    return it.getattr(bd, 'side').name == 'LEFT'


def growth(size):
    def run(it):
        h = Heap(it)
        it.same_end = lambda b: left_of(it, b)
        places = [0, 1, 2][:size]
        r = h.ring(places, stats='unset')
        left = bool(it.choose(2, 'left end'))
        at = it.choose(size + 1, 'new vertex at')
        where = places + ['new']
        p = point(it, *h.at(where[at]), label='new point')
        b = chain(it, 'chain', r, left)
        it.snaps = []
        act = ListV([b] + others(it))
        if it.choose(2, 'through add_point'):
            meth(it, h.manager, 'add_point', b, act, p)
        else:
            meth(it, h.manager, 'add_point_to_ring', b, p)
        if not any(a is b and it.eq(e, p) and f is False
                   for a, e, f in it.snaps):
            return 'snap points on the way are not inserted before'
        snapped = any(v.place == 'snap' for v in h.nodes)
        old = list(r.verts)
        if snapped:
            s = [v for v in h.nodes if v.place == 'snap'][0]
            old = [s] + old if left else old + [s]
        if not two_way(it, r):
            return 'the vertices are no two-way circle'
        got = ends(it, r)
        tip = old[0] if left else old[-1]
        rest = got
        if tip.place != where[at]:
            new = got[0] if left else got[-1]
            if any(new is v for v in old):
                return 'the point is not added at the open end'
            if not (it.eq(it.getattr(new, 'x'), p.fields['x'])
                    and it.eq(it.getattr(new, 'y'), p.fields['y'])):
                return 'the vertex added is not the point'
            if it.getattr(new, 'ring') is not r:
                return 'the vertex added is not marked as of the contour'
            for name in ('nodes', 'all_nodes'):
                if not any(new is v for v in
                           it.getattr(h.manager, name).items):
                    return 'the vertex added is not recorded in ' + name
            rest = got[1:] if left else got[:-1]
        if [id(v) for v in rest] != [id(v) for v in old]:
            return 'other vertices of the contour change'
        if it.getattr(b, 'ring') is not r:
            return 'the chain leaves its contour'
        return None
    return run


def first_case(it):
    h = Heap(it)
    it.snaps, it.same_end = [], lambda b: left_of(it, b)
    b = chain(it, 'chain', None, bool(it.choose(2, 'side')))
    p = point(it, *h.at(0))
    meth(it, h.manager, 'add_point' if it.choose(2, 'through add_point')
         else 'add_first_point', b, ListV([None, b]), p)
    r = it.getattr(b, 'ring')
    if not isinstance(r, ObjV):
        return 'the chain has no contour'
    got = ends(it, r)
    if got is None or len(got) != 1 or not two_way(it, r):
        return 'the contour has not one vertex'
    v = got[0]
    if not (it.eq(it.getattr(v, 'x'), p.fields['x'])
            and it.eq(it.getattr(v, 'y'), p.fields['y'])):
        return 'the vertex is not at the point'
    if it.getattr(v, 'ring') is not r:
        return 'the vertex is not marked as of the contour'
    if not it.eq(it.getattr(b, 'last_point'), p):
        return 'the chain does not continue from the point'
    if not any(v is x for x in it.getattr(h.manager, 'all_nodes').items):
        return 'the vertex is not recorded for correction'
    if not any(r is x for x in h.all_rings()):
        return 'the contour is not recorded'
    return h.listed(False)


# -- a local minimum opens a contour ----------------------------------------
def minimum_case(it):
    h = Heap(it)
    it.snaps, it.same_end = [], lambda b: left_of(it, b)
    case = it.choose(3, 'first steeper to the left / right / second flat')
    s1, s2 = it.sym('s1'), it.sym('s2')
    flat = case == 2
    if not it.sign(s1 - s2, {1 if case == 0 else -1}):
        raise Infeasible()
    e1 = obj(it, 'Edge', 'first edge', slope=s1, is_horizontal=False)
    e2 = obj(it, 'Edge', 'second edge', slope=s2, is_horizontal=flat)
    h1, h2 = (bool(it.choose(2, 'side of %s' % w)) for w in ('first',
                                                            'second'))
    a, b = chain(it, 'first', None, h1, e1), chain(it, 'second', None, h2, e2)
    p = point(it, *h.at(0))
    meth(it, h.manager, 'add_local_minimum_point', p, a, b,
         ListV([a, b, None]))
    r = it.getattr(a, 'ring')
    if not isinstance(r, ObjV) or it.getattr(b, 'ring') is not r:
        return 'the two chains are not on one contour'
    if len(ends(it, r) or ()) != 1:
        return 'the contour has not one vertex'
    v = ends(it, r)[0]
    if not (it.eq(it.getattr(v, 'x'), p.fields['x'])
            and it.eq(it.getattr(v, 'y'), p.fields['y'])):
        return 'the contour does not start at the point'
    for c in (a, b):
        if not it.eq(it.getattr(c, 'last_point'), p):
            return 'the %s chain does not continue from the point' % c.label
    first_left = flat or case == 0
    if left_of(it, a) is not first_left or left_of(it, b) is first_left:
        return 'the %s chain is not on the left' % (
            'first' if first_left else 'second')
    return None


# -- a local maximum closes or joins -----------------------------------------
RELATIONS = ('roots', 'hole of it', 'under it', 'siblings', 'cousins',
             'uncle')


def relate(h, rel, na, nb, swap):
    """Two contours in a relation with children of their own."""
    ps = ['a%d' % i for i in range(na)], ['b%d' % i for i in range(nb)]
    top = None
    kw = dict(stats='unset')
    if rel in ('roots',):
        a, b = h.ring(ps[0], 'A', **kw), h.ring(ps[1], 'B', **kw)
    elif rel == 'hole of it':
        a = h.ring(ps[0], 'A', **kw)
        b = h.ring(ps[1], 'B', a, **kw)
    elif rel == 'under it':
        a = h.ring(ps[0], 'A', **kw)
        mid = h.ring(['m0', 'm1', 'm2'], 'between', a, **kw)
        b = h.ring(ps[1], 'B', mid, **kw)
    elif rel == 'siblings':
        top = h.ring(['t0', 't1', 't2'], 'around', **kw)
        a, b = (h.ring(p, w, top, **kw) for p, w in zip(ps, 'AB'))
    elif rel == 'cousins':
        top = h.ring(['t0', 't1', 't2'], 'around', **kw)
        up = h.ring(['u0', 'u1', 'u2'], 'beside', **kw)
        a, b = h.ring(ps[0], 'A', top, **kw), h.ring(ps[1], 'B', up, **kw)
    else:
        top = h.ring(['t0', 't1', 't2'], 'around', **kw)
        a, b = h.ring(ps[0], 'A', **kw), h.ring(ps[1], 'B', top, **kw)
    for r in (a, b):
        h.ring(['k%s%d' % (r.label, i) for i in range(3)],
               'child of ' + r.label, r, **kw)
    return (b, a) if swap else (a, b)


def depth(it, r):
    d, cur = 0, it.getattr(r, 'parent')
    while cur is not None:
        d, cur = d + 1, it.getattr(cur, 'parent')
    return d


def above(it, r, other):
    cur = it.getattr(r, 'parent')
    while cur is not None:
        if cur is other:
            return True
        cur = it.getattr(cur, 'parent')
    return False


def lowest_stub(it, args, bound):
    """The lowest vertex: the scenario's."""
    return it.lowest[id(it.getattr(args[0], 'ring'))]


def joining(rel, na, nb, method):
    def run(it):
        h = Heap(it)
        it.snaps = []
        it.same_end = lambda b: left_of(it, b)
        swap = it.choose(2, 'swapped')
        ra, rb = relate(h, rel, na, nb, swap)
        low_a = bool(it.choose(2, 'first lower'))
        it.lowest = {}
        ya, yb = it.sym('ya'), it.sym('yb')
        tie = it.choose(2, 'same height')
        if not it.sign(ya - yb, {0 if tie else 1 if low_a else -1}):
            raise Infeasible()
        xa, xb = it.sym('xa'), it.sym('xb')
        if tie and not it.sign(xb - xa, {1 if low_a else -1}):
            raise Infeasible()
        for r, x, y in ((ra, xa, ya), (rb, xb, yb)):
            it.lowest[id(r)] = obj(it, 'PointNode', 'lowest of ' + r.label,
                                   x=x, y=y, ring=r)
            if it.choose(2, 'lowest of %s known' % r.label):
                r.fields['bottom_node'] = it.lowest[id(r)]
        ra.fields['index'], rb.fields['index'] = (
            (n(4), n(7)) if it.choose(2, 'first older') else (n(7), n(4)))
        sa, sb = (bool(it.choose(2, '%s at its left end' % r.label))
                  for r in (ra, rb))
        a, b = chain(it, 'first', ra, sa), chain(it, 'second', rb, sb)
        # the chains at the other ends
        oa = chain(it, 'first other', ra, not sa)
        ob = chain(it, 'second other', rb, not sb)
        act = [None, oa, a, b, None, ob] if it.choose(2, 'order') else \
            [ob, a, None, b, oa]
        kids = {id(r): [c for c in it.getattr(r, 'children').items]
                for r in (ra, rb)}
        depths = {id(r): depth(it, r) for r in (ra, rb)}
        up = {id(r): it.getattr(r, 'parent') for r in (ra, rb)}
        anc = above(it, ra, rb), above(it, rb, ra)
        lists = {id(r): list(r.verts) for r in (ra, rb)}
        tip = {}
        if method == 'append_ring':
            meth(it, h.manager, 'append_ring', a, b, ListV(act))
            p = None
        else:
            p = point(it, *h.at('p'))
            meth(it, h.manager, 'add_local_maximum_point', p, a, b,
                 ListV(act))
        keep, gone, kb, gb, ko, go = (
            (ra, rb, a, b, oa, ob) if it.getattr(rb, 'node') is None else
            (rb, ra, b, a, ob, oa))
        if it.getattr(gone, 'node') is not None:
            return 'both contours remain'
        if it.getattr(keep, 'node') is None:
            return 'neither contour remains'
        if anc[0] or anc[1]:
            if keep is not (rb if anc[0] else ra):
                return 'the outer of two nested contours is dropped'
        elif (keep is ra) is not low_a:
            return 'the contour starting higher is kept'
        if not two_way(it, keep):
            return 'the vertices are no two-way circle'
        # with the vertex at the maximum
        if p is not None:
            news = [v for v in it.getattr(h.manager, 'all_nodes').items
                    if not hasattr(v, 'place') or v.place == 'snap']
            full = ends(it, keep)
            at_p = [v for v in full
                    if it.eq(it.getattr(v, 'x'), p.fields['x'])
                    and it.eq(it.getattr(v, 'y'), p.fields['y'])]
            if len(at_p) != 1:
                return 'the vertex at the maximum is on the contour %d ' \
                    'times' % len(at_p)
            extra = [v for v in full if not any(
                v is w for w in lists[id(keep)] + lists[id(gone)])
                and v is not at_p[0]]
            for bd, r in ((a, ra), (b, rb)):
                if not any(s[0] is bd and it.eq(s[1], p) and s[2] is False
                           for s in it.snaps):
                    return 'snap points on the way of the %s chain are ' \
                        'missed' % bd.label
            # vertices of the ends: snap points, then the maximum
            for v in [v for v in extra]:
                if getattr(v, 'place', None) != 'snap':
                    return 'an extra vertex appears'
            seq = [id(v) for v in full if not any(v is w for w in extra)
                   and v is not at_p[0]]
        else:
            seq = [id(v) for v in ends(it, keep)]
        K = [id(v) for v in lists[id(keep)]]
        R = [id(v) for v in lists[id(gone)]]
        kl, rl = left_of(it, kb), left_of(it, gb)
        ok_sides = (kl is (sa if kb is a else sb)
                    and rl is (sb if gb is b else sa))
        if not ok_sides:
            return 'the sides of the joined chains change'
        if kl:
            want = (R[::-1] if rl else R) + K
        else:
            want = K + (R if rl else R[::-1])
        if seq != want:
            return 'the vertices are not joined at the ends of the two chains'
        for v in ends(it, keep):
            if it.getattr(v, 'ring') is not keep:
                return 'a vertex is still marked as of the other contour'
        for c in (kb, gb):
            if it.getattr(c, 'ring') is not None:
                return 'a joined chain still has a contour'
        for c in (ko, go):
            if it.getattr(c, 'ring') is not keep:
                return 'the %s chain does not follow the kept contour' \
                    % c.label
        if left_of(it, ko) is kl:
            return 'the side of the kept contour\'s other chain changes'
        if left_of(it, go) is not kl:
            return 'the chain taken over is not at the joined end'
        low = it.getattr(keep, 'bottom_node')
        if low is not None and method == 'append_ring' and \
                low is not it.lowest[id(ra if low_a else rb)]:
            return 'a stale lowest vertex is kept'
        f = h.listed(False)
        if f:
            return f
        to = keep if depths[id(keep)] % 2 == depths[id(gone)] % 2 else \
            up[id(keep)]
        for c in kids[id(gone)]:
            if c is keep or c is None:
                continue
            if it.getattr(c, 'parent') is not to:
                return 'a child of the dropped contour goes to the wrong ' \
                    'parent'
        if it.getattr(keep, 'parent') is not up[id(keep)]:
            return 'the parent of the kept contour changes'
        return None
    return run


def closing(size):
    def run(it):
        h = Heap(it)
        it.snaps, it.same_end = [], lambda b: left_of(it, b)
        r = h.ring(list(range(size)), stats='unset')
        sa = bool(it.choose(2, 'first at the left end'))
        a, b = chain(it, 'first', r, sa), chain(it, 'second', r, not sa)
        p = point(it, *h.at('p'))
        meth(it, h.manager, 'add_local_maximum_point', p, a, b,
             ListV([a, None, b]))
        if it.getattr(r, 'node') is None:
            return 'the closed contour is gone'
        if not two_way(it, r):
            return 'the vertices are no two-way circle'
        at = [v for v in ends(it, r)
              if it.eq(it.getattr(v, 'x'), p.fields['x'])
              and it.eq(it.getattr(v, 'y'), p.fields['y'])]
        if len(at) != 1:
            return 'the vertex at the maximum is on the contour %d times' \
                % len(at)
        for c in (a, b):
            if it.getattr(c, 'ring') is not None:
                return 'the %s chain still has a contour' % c.label
            if not any(s[0] is c and it.eq(s[1], p) and s[2] is False
                       for s in it.snaps):
                return 'snap points on the way of the %s chain are missed' \
                    % c.label
        seq = [v for v in ends(it, r) if getattr(v, 'place', None)
               in range(size)]
        if [id(v) for v in seq] != [id(v) for v in r.verts]:
            return 'the other vertices change their order'
        new = [v for v in ends(it, r) if not any(v is w for w in r.verts)]
        i = next(k for k, v in enumerate(ends(it, r)) if v is r.verts[0])
        m = ends(it, r)[i:] + ends(it, r)[:i]
        tail = m[size:]
        if len(tail) != len(new):
            return 'new vertices are not between the open ends'
        return None
    return run


# -- the lowest vertex -------------------------------------------------------
def bottom_stub(it, args, bound):
    return bool(it.choose(2, 'tie at the bottom'))


def bottom(places, levels):
    def run(it):
        h = Heap(it)
        k = max(places) + 1
        pts = {}
        for i in range(k):
            pts[i] = levels[i]
        vs = [node(it, n(pts[p][0]), n(pts[p][1]), 'v%d' % i)
              for i, p in enumerate(places)]
        link(vs)
        got = it.getattr(vs[0], 'bottom_node')
        y = max(pts[p][1] for p in places)
        x = min(pts[p][0] for p in places if pts[p][1] == y)
        if not any(got is v for v in vs):
            return 'no vertex of the contour'
        if (int(got.fields['x'].value), int(got.fields['y'].value)) != (x, y):
            return 'vertex at (%s, %s) instead of (%d, %d) among %s' % (
                got.fields['x'].value, got.fields['y'].value, x, y,
                [pts[p] for p in places])
        return None
    return run


def grids(k):
    """All placements of k different points on a 2 x k grid up to order."""
    cells = [(x, y) for y in range(3) for x in range(3)]

    def rec(prefix):
        if len(prefix) == k:
            yield tuple(prefix)
            return
        for c in cells:
            if c not in prefix:
                yield from rec(prefix + [c])
    yield from rec([])


SNAP = {'RingManager.insert_hot_pixels_in_path': snap_stub}


def build(ctx):
    ctx.rule('grown', 'a vertex is added once at the open end of its chain, '
             'after the snap points on the way')
    for size in (1, 2, 3):
        ctx.table('grown', 'a contour of %d vertices' % size, growth(size),
                  dict(TOLERANT, **SNAP),
                  anchors=['RingManager.add_point_to_ring',
                           'RingManager.insert_hot_pixels_in_path'])
    ctx.table('grown', 'the first vertex', first_case, SNAP,
              anchors=['RingManager.add_first_point'])
    ctx.rule('opened', 'at a local minimum both chains share a new contour, '
             'the one leaving to the left is its left one')
    ctx.table('opened', 'a local minimum', minimum_case,
              dict(EXACT, **SNAP),
              anchors=['RingManager.add_local_minimum_point',
                       'RingManager.insert_hot_pixels_in_path'])
    ctx.rule('joined', 'contours are joined at the ends of the two chains '
             'into the outer or lower one, which all others follow')
    for rel in RELATIONS:
        for na, nb in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)):
            ctx.table('joined', 'append_ring: %s, %d and %d vertices'
                      % (rel, na, nb), joining(rel, na, nb, 'append_ring'),
                      dict(EXACT, **dict(SNAP, **{
                          'PointNode.bottom_node': lowest_stub})),
                      anchors=['RingManager.append_ring',
                               'PointNode.bottom_node',
                               'Ring.get_lowermost_ring'])
        ctx.table('joined', 'add_local_maximum_point: %s' % rel,
                  joining(rel, 2, 2, 'add_local_maximum_point'),
                  dict(EXACT, **dict(SNAP, **{
                      'PointNode.bottom_node': lowest_stub})),
                  anchors=['RingManager.add_local_maximum_point',
                           'RingManager.append_ring',
                           'RingManager.insert_hot_pixels_in_path',
                           'PointNode.bottom_node'], max_paths=60000)
    ctx.rule('closed', 'at a local maximum of one contour both chains leave '
             'it and the vertex is added once')
    for size in (1, 2, 3):
        ctx.table('closed', 'a contour of %d vertices' % size, closing(size),
                  dict(EXACT, **SNAP),
                  anchors=['RingManager.add_local_maximum_point',
                           'RingManager.insert_hot_pixels_in_path'])
    ctx.rule('lowest', 'the lowest vertex, leftmost among them, is found from '
             'every start')
    for size in (1, 2, 3, 4) + ((5,) if ctx.thorough else ()):
        for places in partitions(size):
            k = max(places) + 1
            gs = list(grids(k))
            if size > 3:
                step = max(1, len(gs) // (3000 if ctx.thorough else 600))
                gs = gs[ctx.seed % step::step]

            def run(it, places=places, gs=gs):
                return bottom(places, gs[it.choose(len(gs), 'points')])(it)
            ctx.table('lowest', 'vertices at places %s' % (places,), run,
                      {'PointNode.is_bottom_to': bottom_stub},
                      anchors=['PointNode.bottom_node',
                               'PointNode.is_bottom_to'], max_paths=40000)
