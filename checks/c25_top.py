"""What happens to the chains at one visited height."""
import itertools

from wv.absint import Infeasible, ListV, ObjV, Unsupported
from wv.build import EXACT, enum, meth, n, obj, point
from wv.num import INF
from wv.sweep import members

Y = n(0)
# kinds of chains at the height
#  P  passes                        N  ends, a steep edge follows
#  E  ends for good                 S  starts here with a steep edge
#  L/R  ends, a flat edge to the left/right follows, then a steep one
#  l/r  ends, a flat edge follows for good
#  g/G  starts with a flat edge to the left/right, a steep one follows
FLAT = {'L': -1, 'R': 1, 'l': -1, 'r': 1, 'g': -1, 'G': 1}


def make(it, i, kind, ring=None):
    """The chain of the kind as it is when the height is visited."""
    x = it.sym('x%d' % i)
    here = point(it, x, Y, 'end %d' % i)
    far = point(it, it.sym('u%d' % i), n(-2 - i))
    src = point(it, it.sym('d%d' % i), n(3))

    def steep(a, b, name):
        e = obj(it, 'Edge', '%s of %d' % (name, i), bottom=a, top=b,
                slope=it.sym('m%s%d' % (name, i)))
        e.flat = False
        return e
    edges, end = [], None
    if kind == 'P':
        edges = [steep(src, far, 'edge')]
    elif kind == 'S':
        edges = [steep(here, far, 'edge')]
    elif kind == 'N':
        edges = [steep(src, here, 'edge'), steep(here, far, 'next')]
    elif kind == 'E':
        edges = [steep(src, here, 'edge')]
    else:
        end = it.sym('flat end %d' % i)
        if not it.sign(end - x, {FLAT[kind]}):
            raise Infeasible()
        there = point(it, end, Y, 'flat end %d' % i)
        e = obj(it, 'Edge', 'flat of %d' % i, bottom=here, top=there,
                slope=INF)
        e.flat = True
        edges = ([] if kind in 'gG' else [steep(src, here, 'edge')]) + [e]
        if kind in 'LRgG':
            edges.append(steep(there, far, 'next'))
    b = obj(it, 'Bound', 'chain %d (%s)' % (i, kind), edges=ListV(edges),
            current_x=x, ring=ring, maximum_bound=None, last_point=here,
            side=enum(it, 'EdgeSide', 'LEFT'))
    it.setattr(b, 'current_edge_index', n(0))
    it.setattr(b, 'next_edge_index', n(1))
    b.kind, b.x, b.end, b.i = kind, x, end, i
    return b


def row(it, kinds, ring=None):
    out = []
    for i, kind in enumerate(kinds):
        b = make(it, i, kind, ring)
        if out and not it.sign(b.x - out[-1].x, {0, 1}):
            raise Infeasible()
        out.append(b)
    return out


def has(it, pixels, x, y):
    return any(it.eq(it.getattr(q, 'x'), x) and it.eq(it.getattr(q, 'y'), y)
               for q in pixels)


def flat_stub(it, args, bound):
    e = args[0]
    if not hasattr(e, 'flat'):
        raise Unsupported('an unknown edge')
    return e.flat


def hot(cases):
    def run(it):
        kinds = cases[it.choose(len(cases), 'chains')]
        chains = row(it, kinds)
        beams = ListV([n(-9)])
        mgr = obj(it, 'RingManager', 'manager', hot_pixels=ListV([]))
        act = ListV(list(chains))
        got = meth(it, mgr, 'process_hot_pixel_edges_at_top_of_scanbeam', Y,
                   beams, act)
        left = [b for b in it.iterate(got)]
        px = it.getattr(mgr, 'hot_pixels').items
        stay = [b for b in chains if b.kind not in 'Elr']
        if any(b is None for b in left):
            return '%s: a gap stays on the active list' % kinds
        if {id(b) for b in left} != {id(b) for b in stay} or \
                len(left) != len(stay):
            return '%s: the chains %s stay active instead of %s' % (
                kinds, [b.label for b in left], [b.label for b in stay])
        for b in left:
            e = it.getattr(b, 'current_edge')
            if b.kind != 'P' and b.kind != 'S' and \
                    e is not it.getattr(b, 'edges').items[-1]:
                return '%s: %s does not advance past the height' % (
                    kinds, b.label)
            if not it.order('<', it.getattr(it.getattr(e, 'top'), 'y'), Y):
                return '%s: %s still ends at the height' % (kinds, b.label)
            at = b.x if b.end is None else b.end
            if not it.eq(it.getattr(b, 'current_x'), at):
                return '%s: the position of %s is wrong' % (kinds, b.label)
        for a, b in zip(left, left[1:]):
            if not it.order('<=', it.getattr(a, 'current_x'),
                            it.getattr(b, 'current_x')):
                return '%s: the active chains are out of order' % kinds
        for b in chains:
            if b.kind in 'NELRlr' and not has(it, px, b.x, Y):
                return '%s: the end of %s is no snap point' % (kinds, b.label)
            if b.end is not None and not has(it, px, b.end, Y):
                return '%s: the flat end of %s is no snap point' % (
                    kinds, b.label)
            if b.end is None:
                continue
            lo, hi = (b.x, b.end) if FLAT[b.kind] > 0 else (b.end, b.x)
            for c in chains:
                if c.kind == 'P' and it.order('<', lo, c.x) and it.order(
                        '<', c.x, hi) and not has(it, px, c.x, Y):
                    return '%s: the crossing of %s with a flat edge is no ' \
                        'snap point' % (kinds, c.label)
        for q in px:
            x = it.getattr(q, 'x')
            if not it.eq(it.getattr(q, 'y'), Y):
                return '%s: a snap point off the height' % kinds
            if not any(it.eq(x, v) for b in chains
                       for v in (b.x, b.end) if v is not None):
                return '%s: a snap point where nothing is' % kinds
        after = beams.items
        for b in left:
            if b.kind not in 'PS' and not any(
                    it.eq(it.getattr(it.getattr(it.getattr(
                        b, 'current_edge'), 'top'), 'y'), g) for g in after):
                return '%s: the height of the next end of %s is not ' \
                    'scheduled' % (kinds, b.label)
        return None
    return run


# -- the second pass ----------------------------------------------------------
def vatti(cases):
    """Lower case: on no contour. 'E' and 'F' come in pairs: both ends steep,
    or (F, f) the second one ends with a flat edge."""
    def run(it):
        kinds = cases[it.choose(len(cases), 'chains')]
        onring = bool(it.choose(2, 'on contours'))
        o, f, _ = members(it)
        names = {'F': 'E', 'f': 'l' if kinds.find('f') > kinds.find('F')
                 else 'r'}
        ring = obj(it, 'Ring', 'contour') if onring else None
        chains = row(it, [names.get(k, k) for k in kinds], ring)
        for k in 'E', 'Ff':
            pair = [b for b, kk in zip(chains, kinds) if kk in k]
            if pair:
                a, b = pair
                a.fields['maximum_bound'], b.fields['maximum_bound'] = b, a
        log = []
        it.fresh = ListV([])
        steeped = {}

        def pos(it, args, bound):
            e = args[0]
            key = 'at %s' % e.label
            if not it.eq(args[1], Y):
                raise Unsupported('a position at another height')
            return it.sym(key)

        def maxima(it, args, bound):
            act = bound['active_bounds']
            i = it.const_int(bound['bound_index'])
            j = it.const_int(bound['bound_maximum_index'])
            a = act.items[i]
            b = act.items[j] if 0 <= j < len(act.items) else None
            log.append(('max', a, b))
            lo, hi = min(i, j), max(i, j)
            mid = [c for c in act.items[lo + 1:hi] if c is not None]
            gaps = hi - lo + 1 - len(mid)
            act.items[lo:hi + 1] = mid + [None] * gaps
            return n(i if mid else i + 1)

        def flat_minima(it, args, bound):
            log.append(('flat minima', list(bound['active_bounds'].items),
                        bound['top_y'] if 'top_y' in bound else Y))
            bound['active_bounds'].items.append(it.newcomer)
            return n(it.const_int(bound['minimums_index']) + 1)

        def horizontals(it, args, bound):
            act = bound['active_bounds'].items
            log.append(('flats', list(act), [
                it.getattr(b, 'current_x') for b in act if b is not None]))
            out = []
            for b in act:
                if b is None:
                    continue
                e = it.getattr(b, 'current_edge')
                if e.flat:
                    k = it.const_int(it.getattr(b, 'current_edge_index'))
                    if k + 1 >= len(it.getattr(b, 'edges').items):
                        continue
                    it.setattr(b, 'current_edge_index', n(k + 1))
                    it.setattr(b, 'next_edge_index', n(k + 2))
                elif b.kind == 'E':
                    continue        # met by its flat partner
                out.append(b)
            it.fresh = ListV(out)
            return it.fresh

        def advance(it, args, bound):
            b = args[0]
            log.append(('advance', b))
            k = it.const_int(it.getattr(b, 'current_edge_index'))
            it.setattr(b, 'current_edge_index', n(k + 1))
            it.setattr(b, 'next_edge_index', n(k + 2))
            if k + 1 < len(it.getattr(b, 'edges').items):
                it.setattr(b, 'current_x', it.getattr(it.getattr(
                    it.getattr(b, 'current_edge'), 'bottom'), 'x'))

        def vertex(it, args, bound):
            bs = [v for v in bound.values() if isinstance(v, ObjV)
                  and v.cls.name == 'Bound']
            ps = [v for v in bound.values() if isinstance(v, ObjV)
                  and v.cls.name == 'Point']
            log.append(('vertex', bs[0], ps[0]))

        def path(it, args, bound):
            log.append(('path', args[1], args[2], it.truth(args[3])))
        for name, fn in (
                ('Edge.get_current_x', pos), ('Bound.to_next_edge', advance),
                ('RingManager.do_maxima', maxima),
                ('RingManager.insert_horizontal_local_minima_into_abl',
                 flat_minima),
                ('RingManager.process_horizontals', horizontals),
                ('RingManager.add_point_to_ring', vertex),
                ('RingManager.insert_hot_pixels_in_path', path)):
            it.stubs[name] = fn
        it.newcomer = make(it, 9, 'S', None)
        it.newcomer.kind = 'new'
        mgr = obj(it, 'RingManager', 'manager', hot_pixels=ListV([]))
        act = ListV(list(chains))
        got = meth(it, mgr, 'process_edges_at_top_of_scanbeam', o['UNION'],
                   f['EVEN_ODD'], f['NON_ZERO'], Y, ListV([]), act, n(3),
                   ListV([]))
        left, index = it.unpack(got) if hasattr(it, 'unpack') else list(
            it.iterate(got))
        if it.const_int(index) != 4:
            return 'the minima entered are not counted on'
        if [id(b) for b in it.iterate(left)] != [id(b) for b in
                                                 it.fresh.items]:
            return '%s: an outdated list of active chains is returned' % kinds
        stages = [x for x in log if x[0] in ('flat minima', 'flats')]
        if [x[0] for x in stages] != ['flat minima', 'flats']:
            return 'flat edges and minima are not processed once each, ' \
                'minima first'
        cut_m, cut_f = log.index(stages[0]), log.index(stages[1])
        handed = stages[0][1]
        if any(b is None for b in handed):
            return 'gaps are handed on'
        if it.newcomer not in stages[1][1]:
            return 'flat minima entering are not processed as flat edges'
        pair = [b for b, k in zip(chains, kinds) if k == 'E']
        met = [x for x in log if x[0] == 'max']
        if pair:
            if len(met) != 1 or {id(met[0][1]), id(met[0][2])} != {
                    id(b) for b in pair}:
                return '%s: the chains meeting at their maximum are not ' \
                    'closed once' % kinds
            if log.index(met[0]) > cut_m:
                return '%s: a maximum is closed late' % kinds
        elif met:
            return '%s: chains are closed that do not meet by steep edges' \
                % kinds
        for b, k in zip(chains, kinds):
            mine = [(i, x) for i, x in enumerate(log)
                    if x[0] in ('advance', 'vertex', 'path') and x[1] is b]
            if k == 'E':
                if mine:
                    return '%s: a closed chain goes on' % kinds
                continue
            if not any(b is c for c in handed):
                return '%s: %s is lost' % (kinds, b.label)
            if k in 'PSF':
                if mine:
                    return '%s: %s is changed' % (kinds, b.label)
                want = []
            elif k == 'N':
                want = ([('vertex', b.x)] if onring else []) + [('advance',)]
                if any(i < cut_f for i, x in mine):
                    return '%s: %s advances before the flat edges are ' \
                        'processed' % (kinds, b.label)
            else:
                want = ([('path', b.x)] if onring else []) + [
                    ('advance',)] + ([('vertex', b.x)] if onring else [])
                if any(i > cut_m for i, x in mine):
                    return '%s: %s becomes flat too late' % (kinds, b.label)
            if [x[0] for i, x in mine] != [w[0] for w in want]:
                return '%s: %s does %s instead of %s' % (
                    kinds, b.label, [x[0] for i, x in mine],
                    [w[0] for w in want])
            for (i, x), w in zip(mine, want):
                if x[0] != 'advance' and not (
                        it.eq(it.getattr(x[2], 'x'), w[1])
                        and it.eq(it.getattr(x[2], 'y'), Y)):
                    return '%s: %s gets a vertex elsewhere' % (kinds, b.label)
                if x[0] == 'path' and x[3]:
                    return '%s: the end of %s is added twice' % (kinds,
                                                                 b.label)
            # positions at the time flat edges are processed
            at = [v for c, v in zip(stages[1][1], stages[1][2]) if c is b]
            if not at:
                return '%s: %s is lost' % (kinds, b.label)
            e0 = it.getattr(b, 'edges').items[0]
            good = b.x if k in 'LRf' else it.sym('at %s' % e0.label)
            if not it.eq(at[0], good):
                return '%s: %s is not put at the height' % (kinds, b.label)
        return None
    return run


def flat_row(cases):
    """process_horizontals: every flat chain is dealt with."""
    def run(it):
        kinds = cases[it.choose(len(cases), 'chains')]
        o, f, _ = members(it)
        chains = [None if k == '-' else make(
            it, i, {'G': 'G', 'g': 'g', 'P': 'P'}[k])
            for i, k in enumerate(kinds)]
        log = []

        def one(it, args, bound):
            act = bound['active_bounds'].items
            i = it.const_int(bound['bound_index'])
            b = act[i]
            log.append((b, [c for c in act]))
            if len(log) > 8:
                raise Infeasible()
            way = it.choose(3, 'flat chain at %d' % i)
            if way == 1:
                act[i] = None
                return n(i + 1)
            it.setattr(b, 'current_edge_index', n(1))
            it.setattr(b, 'next_edge_index', n(2))
            if way == 2 and i + 1 < len(act) and b.kind == 'G':
                act[i], act[i + 1] = act[i + 1], b
                return n(i)
            return n(i + 1)
        it.stubs['RingManager.process_horizontal'] = one
        mgr = obj(it, 'RingManager', 'manager', hot_pixels=ListV([]))
        got = meth(it, mgr, 'process_horizontals', o['UNION'], f['EVEN_ODD'],
                   f['NON_ZERO'], Y, ListV([]), ListV(list(chains)))
        left = list(it.iterate(got))
        if any(b is None for b in left):
            return '%s: gaps stay on the active list' % kinds
        if any(it.getattr(b, 'current_edge').flat for b in left):
            return '%s: a flat edge is left over' % kinds
        for b in chains:
            if b is None:
                continue
            times = sum(x[0] is b for x in log)
            if times != (b.kind in 'gG'):
                return '%s: %s is processed %d times' % (kinds, b.label,
                                                         times)
        return None
    return run


# -- positions and crossings of the first pass -------------------------------
def meet_stub(it, args, bound):
    a, b = args[0].i, args[1].i
    lo, hi = min(a, b), max(a, b)
    return point(it, it.sym('meet x %d %d' % (lo, hi)),
                 it.sym('meet y %d %d' % (lo, hi)))


def round_stub(it, args, bound):
    p = args[0]
    return point(it, it.getattr(p, 'x'), it.getattr(p, 'y'), 'rounded')


def crossings(size):
    def run(it):
        xs = [it.sym('x%d' % i) for i in range(size)]
        height = it.sym('scanline')
        chains = []
        for i in range(size):
            e = obj(it, 'Edge', 'edge%d' % i)
            e.i = i
            c = obj(it, 'Bound', 'chain%d' % i, edges=ListV([e]),
                    current_x=it.sym('stale%d' % i), position=n(99))
            it.setattr(c, 'current_edge_index', n(0))
            c.i = i
            chains.append(c)

        def pos(it, args, bound):
            if not it.eq(args[1], height):
                raise Infeasible()
            return xs[args[0].i]
        it.stubs['Edge.get_current_x'] = pos
        mgr = obj(it, 'RingManager', 'manager', hot_pixels=ListV([]))
        got = meth(it, mgr, 'process_hot_pixel_intersections', height,
                   ListV(list(chains)))
        left = list(it.iterate(got))
        if sorted(b.i for b in left) != list(range(size)):
            return 'chains are lost'
        for b in left:
            if not it.eq(it.getattr(b, 'current_x'), xs[b.i]):
                return 'a chain is not put at the height'
        for a, b in zip(left, left[1:]):
            if not it.order('<=', xs[a.i], xs[b.i]):
                return 'the chains are not sorted by position'
        px = it.getattr(mgr, 'hot_pixels').items
        want = 0
        for i in range(size):
            for j in range(i + 1, size):
                inv = it.order('>', xs[i], xs[j])
                want += inv
                q = meet_stub(it, [chains[i], chains[j]], None)
                there = any(it.eq(it.getattr(p, 'x'), it.getattr(q, 'x'))
                            and it.eq(it.getattr(p, 'y'), it.getattr(q, 'y'))
                            for p in px)
                if inv and not there:
                    return 'the crossing of two chains is no snap point'
        if len(px) != want:
            return '%d snap points for %d crossings' % (len(px), want)
        if any(p.label != 'rounded' for p in px):
            return 'a crossing is not rounded'
        return None
    return run


def cursor(size):
    def run(it):
        y = it.sym('scanline')
        ys = [it.sym('y%d' % i) for i in range(size)]
        for a, b in zip(ys, ys[1:]):
            if not it.sign(a - b, {0, 1}):
                raise Infeasible()
        at = it.choose(size, 'index before')
        for v in ys[:at]:
            if not it.sign(v - y, {1}):
                raise Infeasible()
        if not it.sign(y - ys[-1], {0, 1}):
            raise Infeasible()
        mgr = obj(it, 'RingManager', 'manager', hot_pixels=ListV(
            [point(it, it.sym('x%d' % i), v) for i, v in enumerate(ys)]),
            _current_hot_pixel_index=n(at))
        meth(it, mgr, 'update_current_hot_pixel_index', y)
        got = it.const_int(it.getattr(mgr, 'current_hot_pixel_index'))
        want = next(i for i, v in enumerate(ys) if it.order('<=', v, y))
        if got != want:
            return 'the current snap point is %d instead of %d' % (got, want)
        return None
    return run


def build(ctx):
    stubs = dict(EXACT, **{'Edge.is_horizontal': flat_stub,
                           'round_half_up': lambda it, a, b: a[0]})
    ctx.rule('left', 'every chain ending at the height goes on or leaves, '
             'its end and its crossings with flat edges are snap points')
    ctx.assume('left: chains are sorted by position when edges end')
    name = 'RingManager.process_hot_pixel_edges_at_top_of_scanbeam'
    cases = [''.join(c) for k in (1, 2)
             for c in itertools.product('PNESLRlrgG', repeat=k)]
    more = [a + f + b for f in 'LRlrG' for a in 'PNE' for b in 'PNE']
    more += [f + a + b for f in 'RrG' for a in 'PNELR' for b in 'PNE']
    more += [a + b + f for f in 'Llg' for a in 'PNE' for b in 'PNERL']
    if ctx.thorough:
        more += [''.join(c) for c in itertools.product('PELRlG', repeat=3)]
        more += [f + a + b + c for f in 'RrG' for a in 'PNE' for b in 'PNE'
                 for c in 'PNE']
    for part in range(8):
        ctx.table('left', 'one or two chains, part %d' % part,
                  hot(cases[part::8]), stubs, max_paths=200000,
                  anchors=[name, 'Edge.is_horizontal', 'round_half_up'])
    for part in range(16):
        ctx.table('left', 'more chains, part %d' % part,
                  hot(more[part::16]), stubs, max_paths=200000,
                  anchors=[name, 'Edge.is_horizontal', 'round_half_up'])
    ctx.rule('top', 'at a height maxima are closed, chains turning flat '
             'advance, flat minima and edges follow, then the others advance')
    base = ['P', 'N', 'L', 'R', 'S', 'EE', 'Ff', 'fF']
    cases = list(base)
    cases += [a + b for a in 'PNLRS' for b in 'PNLRS']
    cases += ['E%sE' % a for a in 'PNLRS'] + ['%sEE' % a for a in 'PNLRS'] + \
        ['EE%s' % a for a in 'PNLRS'] + ['F%sf' % a for a in 'PNR'] + \
        ['f%sF' % a for a in 'PNL'] + ['E%s%sE' % a for a in
                                       itertools.product('PNR', repeat=2)]
    for part in range(8):
        ctx.table('top', 'chains, part %d' % part, vatti(cases[part::8]),
                  {'Edge.is_horizontal': flat_stub}, max_paths=100000,
                  anchors=['RingManager.process_edges_at_top_of_scanbeam',
                           'Edge.is_horizontal', 'RingManager.do_maxima',
                           'RingManager.insert_horizontal_local_minima_into_'
                           'abl', 'RingManager.process_horizontals',
                           'RingManager.add_point_to_ring',
                           'RingManager.insert_hot_pixels_in_path',
                           'Edge.get_current_x', 'Bound.to_next_edge'])
    ctx.rule('flats', 'every flat edge at the height is processed once')
    flats = [''.join(c) for k in range(4) for c in itertools.product(
        '-PGg', repeat=k)]
    for part in range(4):
        ctx.table('flats', 'chains, part %d' % part,
                  flat_row(flats[part::4]), {'Edge.is_horizontal': flat_stub},
                  anchors=['RingManager.process_horizontals',
                           'RingManager.process_horizontal',
                           'Edge.is_horizontal'], max_paths=50000)
    ctx.rule('crossed', 'the first pass puts every chain at the height, '
             'sorts the chains, and records each crossing rounded')
    for size in range(4 if not ctx.thorough else 5):
        ctx.table('crossed', '%d chains' % size, crossings(size), {
            'Edge.__and__': meet_stub, 'Point.round': round_stub,
            'are_edges_slopes_equal': lambda it, a, b: False},
            anchors=['RingManager.process_hot_pixel_intersections',
                     'Edge.__and__', 'Point.round', 'are_edges_slopes_equal',
                     'Edge.get_current_x'])
    ctx.rule('cursor', 'the current snap point is the first one not below '
             'the height')
    for size in range(1, 5):
        ctx.table('cursor', '%d snap points' % size, cursor(size), EXACT,
                  anchors=['RingManager.update_current_hot_pixel_index',
                           'RingManager.current_hot_pixel_index'])
