"""No event height of the sweep is skipped."""
from checks.c25_top import build as build_top
from wv.absint import Infeasible, ListV, ObjV, Unsupported
from wv.build import EXACT, enum, meth, n, new, obj, point
from wv.num import INF
from wv.sweep import members


def below(it, big, small):
    """Assumes small < big."""
    if not it.sign(big - small, {1}):
        raise Infeasible()


def ladder(it, size, name='s'):
    """Ascending scheduled heights."""
    out = []
    for i in range(size):
        v = it.sym('%s%d' % (name, i))
        if out:
            below(it, v, out[-1])
        out.append(v)
    return out


def steep(it, k, flat=False, name='e'):
    b = point(it, it.sym('%sbx%d' % (name, k)), it.sym('%sby%d' % (name, k)),
              '%s%d bottom' % (name, k))
    if flat:
        t = point(it, it.sym('%stx%d' % (name, k)), it.getattr(b, 'y'))
    else:
        t = point(it, it.sym('%stx%d' % (name, k)),
                  it.sym('%sty%d' % (name, k)))
        below(it, it.getattr(b, 'y'), it.getattr(t, 'y'))
    return obj(it, 'Edge', '%s%d' % (name, k), bottom=b, top=t,
               slope=INF if flat else it.sym('%sm%d' % (name, k)))


def scheduled_fault(it, before, after, v):
    """None, or why ``after`` is not ``before`` with ``v`` scheduled once."""
    got = list(after.items)
    for a, b in zip(got, got[1:]):
        if not it.order('<', a, b):
            return 'the scheduled heights are not in ascending order'
    for a in before:
        if not any(it.eq(a, g) for g in got):
            return 'a scheduled height is lost'
    if v is not None and not any(it.eq(v, g) for g in got):
        return 'the height of the upper end is not scheduled'
    for g in got:
        if not any(it.eq(a, g) for a in before) and not (
                v is not None and it.eq(v, g)):
            return 'a height where nothing ends is scheduled'
    return None


# -- advancing ---------------------------------------------------------------
def advancing(size):
    def run(it):
        k = it.choose(3, 'edges') + 1
        at = it.choose(k, 'current edge')
        flat = it.choose(k, 'flat edge') if k > 1 and it.choose(
            2, 'a flat edge') else None
        es = [steep(it, i, i == flat) for i in range(k)]
        before = ladder(it, size)
        beams = ListV(list(before))
        mark = it.sym('position before')
        b = obj(it, 'Bound', 'chain', edges=ListV(list(es)), current_x=mark)
        it.setattr(b, 'current_edge_index', n(at))
        it.setattr(b, 'next_edge_index', n(at + 1))
        meth(it, b, 'to_next_edge', beams)
        if [id(e) for e in it.getattr(b, 'edges').items] != \
                [id(e) for e in es]:
            return 'the edges of the chain are changed'
        cur = it.const_int(it.getattr(b, 'current_edge_index'))
        nxt = it.const_int(it.getattr(b, 'next_edge_index'))
        if cur != at + 1:
            return 'the current edge is %s after %s' % (cur, at)
        if at + 1 < k:
            if nxt != min(at + 2, k):
                return 'the next edge is %s after %s' % (nxt, at + 1)
            e = es[at + 1]
            if not it.eq(it.getattr(b, 'current_x'),
                         it.getattr(it.getattr(e, 'bottom'), 'x')):
                return 'the position does not restart at the lower end'
            v = None if at + 1 == flat else it.getattr(
                it.getattr(e, 'top'), 'y')
        else:
            if nxt < k:
                return 'a chain without edges left has a next edge'
            v = None
        if v is None:
            # scheduling the height of a flat edge at hand is harmless
            return scheduled_fault(
                it, before, beams, None if at + 1 >= k or len(
                    beams.items) == len(before)
                else it.getattr(it.getattr(es[at + 1], 'top'), 'y'))
        return scheduled_fault(it, before, beams, v)
    return run


# -- the minima ---------------------------------------------------------------
def minimum(it, y, flat=False, label='minimum', left=None, right=None):
    return obj(it, 'LocalMinimum', label, y=y, left_bound=left,
               right_bound=right, minimum_has_horizontal=flat)


def initial(size):
    def run(it):
        ys = [it.sym('y%d' % i) for i in range(size)]
        ms = [minimum(it, y, label='minimum%d' % i)
              for i, y in enumerate(ys)]
        lst = new(it, 'LocalMinimumList', *ms)
        got = [v for v in it.iterate(it.getattr(lst, 'scanbeams'))]
        for a, b in zip(got, got[1:]):
            if not it.order('<=', a, b):
                return 'the initial heights are not in ascending order'
        for y in ys:
            if not any(it.eq(y, g) for g in got):
                return 'the height of a local minimum is not scheduled'
        for g in got:
            if not any(it.eq(y, g) for y in ys):
                return 'a height without local minimum is scheduled'
        kept = it.getattr(lst, 'values').items
        if [id(m) for m in kept] != [id(m) for m in ms]:
            return 'the local minima are reordered'
        return None
    return run


def chain(it, k, flat=(), label='chain', vary=False, **fields):
    """A chain as an earlier operation left it."""
    es = [steep(it, i, i in flat, label) for i in range(k)]
    c = obj(it, 'Bound', label, edges=ListV(es),
            last_point=None, ring=obj(it, 'Ring', 'earlier contour'),
            position=n(5), winding_delta=n(1),
            side=enum(it, 'EdgeSide', ('LEFT', 'RIGHT')[
                vary and it.choose(2, 'side left over')]),
            current_x=it.sym('left over position of ' + label),
            winding_count=it.sym('left over count of ' + label),
            opposite_winding_count=it.sym('left over other count ' + label),
            polygon_kind=enum(it, 'PolygonKind', 'SUBJECT'), **fields)
    left = it.choose(k + 1, 'left over edge of ' + label) if vary else k
    it.setattr(c, 'current_edge_index', n(left))
    it.setattr(c, 'next_edge_index', n(left + 1))
    return c, es


def fresh_fault(it, c, es, left=None):
    if it.const_int(it.getattr(c, 'current_edge_index')) != 0 or \
            it.const_int(it.getattr(c, 'next_edge_index')) != 1:
        return 'a chain does not restart at its first edge'
    if not it.eq(it.getattr(c, 'current_x'), it.getattr(
            it.getattr(es[0], 'bottom'), 'x')):
        return 'the position of a chain does not restart at its lower end'
    if left is None:
        return None
    if it.getattr(c, 'side').name != ('LEFT' if left else 'RIGHT'):
        return 'a chain is not put on its side'
    if it.getattr(c, 'ring') is not None:
        return 'a chain keeps the contour of an earlier operation'
    if not (it.eq(it.getattr(c, 'winding_count'), n(0))
            and it.eq(it.getattr(c, 'opposite_winding_count'), n(0))):
        return 'a chain keeps the winding numbers of an earlier operation'
    return None


def initialize(it):
    a, ea = chain(it, 2, label='left', vary=True)
    b, eb = chain(it, 2, label='right', vary=True)
    m = minimum(it, it.sym('y'), left=a, right=b)
    meth(it, m, 'initialize')
    if it.getattr(m, 'left_bound') is not a or \
            it.getattr(m, 'right_bound') is not b:
        return 'the chains of a minimum are changed'
    return fresh_fault(it, a, ea, True) or fresh_fault(it, b, eb, False)


# -- entering ------------------------------------------------------------------
def place_stub(it, args, bound):
    left, right, act = bound['left'], bound['right'], bound['active_bounds']
    for x in (left, right):
        e = it.getattr(x, 'current_edge')
        if not isinstance(e, ObjV):
            raise Unsupported('a chain without edge is placed')
    at = it.at if it.at <= len(act.items) else len(act.items)
    act.items[at:at] = [left, right]
    it.placed.append((left, right, it.getattr(left, 'current_x'),
                      it.getattr(right, 'current_x')))
    return n(at)


def count_stub(it, args, bound):
    return None


def grow_stub(it, args, bound):
    it.grown.append([v for v in bound.values() if isinstance(v, ObjV)])
    return None


def yes_stub(it, args, bound):
    return bool(it.choose(2, 'contributes'))


def entering(way, size, total):
    """``total`` sorted minima, of which the entered ones are at the
    height."""
    def run(it):
        o, f, _ = members(it)
        it.at, it.placed, it.grown = 0, [], []
        coarse = total > 1
        y = n(10) if coarse else it.sym('scanline')
        ms, chains = [], []
        done = it.choose(total + 1, 'minima entered before')
        here = it.choose(total - done + 1, 'minima at the height')
        flats = []
        for i in range(total):
            flat = bool(i >= done and it.choose(2, 'flat minimum'))
            flats.append(flat)
            if i < done:
                h = y
            elif i < done + here:
                h = y
            else:
                h = n(9 - i) if coarse else it.sym('height%d' % i)
                below(it, y, h)
            if done <= i < done + here:
                l, le = chain(it, 1, label='left%d' % i)
                r, re = chain(it, 2, (0,) if flat else (),
                              label='right%d' % i)
                chains.append((l, le, r, re))
                if coarse:
                    for e, name in ((le[0], 'left'), (re[0], 'right')):
                        it.setattr(it.getattr(e, 'bottom'), 'y', y)
                        it.setattr(it.getattr(e, 'top'), 'y',
                                   y if it.is_flat(e) else n(
                                       it.choose(3, name + ' end') + 1))
            else:
                l = obj(it, 'Bound', 'other left')
                r = obj(it, 'Bound', 'other right')
            ms.append(minimum(it, h, flat, 'minimum%d' % i, l, r))
        # flat minima come first among those at one height
        span = flats[done:done + here]
        if span != sorted(span, reverse=True):
            raise Infeasible()
        act = ListV([obj(it, 'Bound', 'active')]) if it.choose(
            2, 'an active chain') else ListV([])
        first = list(act.items)
        if first and it.choose(2, 'to the right'):
            it.at = 1
        before = [n(2)] * size if coarse else ladder(it, size)
        beams = ListV(list(before))
        h = obj(it, 'RingManager', 'manager', hot_pixels=ListV([]))
        minima = ListV(ms)
        if way == 'hot':
            got = meth(it, h, 'insert_local_minima_into_abl_hot_pixel', y,
                       minima, n(done), act, beams)
            count = here
        elif way == 'all':
            got = meth(it, h, 'insert_local_minima_into_abl', o['UNION'],
                       f['EVEN_ODD'], f['NEGATIVE'], y, beams, minima,
                       n(done), act)
            count = here
        else:
            got = meth(it, h, 'insert_horizontal_local_minima_into_abl',
                       o['UNION'], f['EVEN_ODD'], f['NEGATIVE'], y, beams,
                       minima, n(done), act)
            count = sum(span)
        if it.const_int(got) != done + count:
            return '%s of %d minima at the height are entered' % (
                it.const_int(got) - done, count)
        if len(it.placed) != count or [id(p[0]) for p in it.placed] != [
                id(c[0]) for c in chains[:count]] or [
                    id(p[1]) for p in it.placed] != [
                        id(c[2]) for c in chains[:count]]:
            return 'the chains of a minimum are not put on the active list'
        tops = []
        for (l, le, r, re), p in zip(chains, it.placed):
            for c, es, x, left in ((l, le, p[2], True), (r, re, p[3], False)):
                if not it.eq(x, it.getattr(it.getattr(es[0], 'bottom'),
                                           'x')):
                    return 'a chain is placed by a stale position'
                bad = fresh_fault(it, c, es)
                if bad:
                    return bad
            tops.append(it.getattr(it.getattr(le[0], 'top'), 'y'))
            if not it.is_flat(re[0]):
                tops.append(it.getattr(it.getattr(re[0], 'top'), 'y'))
        after = beams.items
        for a, b in zip(after, after[1:]):
            if not it.order('<', a, b):
                return 'the scheduled heights are not in ascending order'
        for v in before + tops:
            if not any(it.eq(v, g) for g in after):
                return 'the height where an entering edge ends is not ' \
                    'scheduled'
        for g in after:
            if not any(it.eq(v, g) for v in before + tops + [y]):
                return 'a height where nothing ends is scheduled'
        if way == 'hot':
            px = it.getattr(h, 'hot_pixels').items
            for l, le, r, re in chains[:count]:
                b = it.getattr(le[0], 'bottom')
                if not any(it.eq(it.getattr(b, 'x'), it.getattr(q, 'x'))
                           and it.eq(it.getattr(b, 'y'), it.getattr(q, 'y'))
                           for q in px):
                    return 'a local minimum is no snap point'
            for q in px:
                if not any(it.eq(it.getattr(it.getattr(e[0], 'bottom'), 'x'),
                                 it.getattr(q, 'x'))
                           for c in chains[:count] for e in (c[1], c[3])):
                    return 'a snap point where nothing is'
        return None
    return run


def flat_of(it, e):
    return it.getattr(e, 'slope') is INF


def flat_stub(it, args, bound):
    return flat_of(it, args[0])


def with_flat(run):
    def go(it):
        it.is_flat = lambda e: flat_of(it, e)
        return run(it)
    return go


# -- the loops -----------------------------------------------------------------
def visits(which, heights):
    """Both passes over up to three minima; the steps are stand-ins that
    schedule further heights the way the steps do."""
    def run(it):
        o, f, _ = members(it)
        # choose the minima and the heights their chains reach
        k = it.choose(4, 'minima')
        ms, plan = [], {}
        for i in range(k):
            y = it.choose(heights, 'height of minimum %d' % i) + 1
            ms.append(minimum(it, n(y), label='minimum%d' % i,
                              left=obj(it, 'Bound', 'l%d' % i),
                              right=obj(it, 'Bound', 'r%d' % i)))
            tops = [t for t in range(y)
                    if t == 0 or it.choose(2, 'an edge of minimum %d ends '
                                           'at %d' % (i, t))]
            plan[i] = sorted(tops, reverse=True)
        it.log = log = []
        it.lists = lists = []
        active = []              # (minimum, remaining ends)

        def push(beams, v):
            vals = [it.const_int(g) for g in beams.items]
            if v not in vals:
                vals.append(v)
                beams.items[:] = [n(x) for x in sorted(vals)]

        def act_list(bound):
            return next((v for k_, v in bound.items()
                         if k_ == 'active_bounds'), None)

        def check_active(a):
            if lists and a is not lists[-1]:
                raise Unsupported('stale')

        def height(it, v):
            return it.const_int(v) if it.num_of(v) is not None and \
                not v is INF else None

        def scan(bound):
            for name in ('scanline_y', 'top_y', 'bot_y'):
                if name in bound:
                    v = bound[name]
                    return 'inf' if v is INF else it.const_int(v)
            raise Unsupported('the scanline parameter is renamed')

        def known(a):
            if not lists:
                lists.append(a)
            elif a is not lists[-1]:
                it.stale = True

        def crossing(it, args, bound):
            a = act_list(bound)
            known(a)
            log.append(('cross', scan(bound)))
            if which == 'hot':
                new_list = ListV(list(a.items))
                lists.append(new_list)
                return new_list
            return None

        def entry(it, args, bound):
            a = act_list(bound)
            known(a)
            y = scan(bound)
            log.append(('enter', y))
            at = it.const_int(bound['minimums_index'])
            order = bound['minimums'].items
            vals = [it.const_int(it.getattr(m, 'y')) for m in order]
            if vals != sorted(vals, reverse=True) or len(order) != k:
                it.unsorted = True
            while at < len(order) and vals[at] == y:
                i = next(j for j, m in enumerate(ms) if m is order[at])
                ends = list(plan[i])
                active.append([i, ends])
                if ends:
                    push(bound['scanbeams'], ends[0])
                a.items.append(obj(it, 'Bound', 'chain of %d' % i))
                at += 1
                log.append(('entered', i, y))
            return n(at)

        def tops(it, args, bound):
            a = act_list(bound)
            known(a)
            y = scan(bound)
            log.append(('top', y))
            for rec in active:
                if rec[1] and rec[1][0] == y:
                    log.append(('end', rec[0], y))
                    rec[1].pop(0)
                    if rec[1]:
                        push(bound['scanbeams'], rec[1][0])
            new_list = ListV(list(a.items))
            lists.append(new_list)
            if which == 'hot':
                return new_list
            return (new_list, bound['minimums_index'])
        names = (('process_hot_pixel_intersections', crossing),
                 ('insert_local_minima_into_abl_hot_pixel', entry),
                 ('process_hot_pixel_edges_at_top_of_scanbeam', tops)) \
            if which == 'hot' else (
                ('process_intersections', crossing),
                ('process_edges_at_top_of_scanbeam', tops),
                ('insert_local_minima_into_abl', entry))
        for name, fn in names:
            it.stubs['RingManager.' + name] = fn
        it.stubs['RingManager.update_current_hot_pixel_index'] = \
            lambda it, a, b: log.append(('index', scan(b)))
        it.stubs['RingManager.sort_hot_pixels'] = \
            lambda it, a, b: log.append(('sorted',))
        it.stale = it.unsorted = False
        mgr = obj(it, 'RingManager', 'manager', hot_pixels=ListV([]),
                  _current_hot_pixel_index=n(7))
        lst = new(it, 'LocalMinimumList', *ms)
        if which == 'hot':
            meth(it, mgr, 'build_hot_pixels', lst)
        else:
            meth(it, mgr, 'execute_vatti', lst, o['UNION'], f['EVEN_ODD'],
                 f['NEGATIVE'])
        if it.stale:
            return 'a step works on an outdated list of active chains'
        if it.unsorted:
            return 'the minima are not handed out from the lowest one'
        entered = sorted(x[1] for x in log if x[0] == 'entered')
        if entered != list(range(k)):
            return 'the local minima %s of %d enter the sweep' % (entered, k)
        if any(rec[1] for rec in active):
            return 'the height of an upper end is never visited'
        seen = [x[1] for x in log if x[0] == 'cross']
        if any(v == 'inf' for v in seen):
            return 'the sweep runs at no height'
        if seen != sorted(seen, reverse=True):
            return 'the sweep goes back'
        steps = [x for x in log if x[0] in ('cross', 'enter', 'top',
                                            'index')]
        order = ['cross', 'enter', 'top'] if which == 'hot' else [
            'cross', 'index', 'top', 'enter']
        per = len(order)
        if which != 'hot' and not any(x[0] == 'index' for x in steps):
            order, per = ['cross', 'top', 'enter'], 3
        if [x[0] for x in steps] != order * len(seen):
            if which != 'hot':
                rest = [x for x in steps if x[0] != 'index']
                if [x[0] for x in rest] != ['cross', 'top', 'enter'] * len(
                        seen):
                    return 'a height is not processed in the order of steps'
            else:
                return 'a height is not processed in the order of steps'
        for i, v in enumerate(seen):
            if any(x[1] != v for x in steps[i * per:(i + 1) * per]):
                return 'a step runs at another height'
        if which == 'hot':
            if k and log[-1] != ('sorted',):
                return 'the snap points are not sorted at the end'
        else:
            at = it.getattr(mgr, '_current_hot_pixel_index')
            if k and at is not None and it.const_int(at) == 7:
                return 'the sweep does not restart at the first snap point'
        return None
    return run


def entered(ctx, rule, most=3):
    flat = dict(EXACT, **{'Edge.is_horizontal': flat_stub})
    stubs = dict(flat, **{
        'insert_bound_into_abl': place_stub, 'set_winding_count': count_stub,
        'Bound.is_contributing': yes_stub,
        'RingManager.add_local_minimum_point': grow_stub})
    for way, name in (('hot', 'insert_local_minima_into_abl_hot_pixel'),
                      ('all', 'insert_local_minima_into_abl'),
                      ('flat', 'insert_horizontal_local_minima_into_abl')):
        for total in range(most):
            for size in ((0, 1) if total < 2 else (1,)):
                ctx.table(rule, '%s, %d minima, %d heights scheduled' % (
                    name, total, size), with_flat(entering(way, size, total)),
                    stubs, max_paths=150000,
                    anchors=['RingManager.' + name, 'insert_bound_into_abl',
                             'set_winding_count', 'Bound.is_contributing',
                             'RingManager.add_local_minimum_point',
                             'Edge.is_horizontal'])


def build(ctx):
    ctx.rule('advanced', 'advancing a chain selects the next edge, restarts '
             'the position at its lower end and schedules its upper height '
             'once in order')
    flat = dict(EXACT, **{'Edge.is_horizontal': flat_stub})
    for size in range(4 if ctx.thorough else 3):
        ctx.table('advanced', '%d heights scheduled' % size,
                  with_flat(advancing(size)), flat,
                  anchors=['Bound.to_next_edge', 'Edge.is_horizontal'])
    ctx.rule('initial', 'the heights of all local minima are scheduled first '
             'in ascending order')
    for size in range(4):
        ctx.table('initial', '%d minima' % size, initial(size), EXACT,
                  anchors=['LocalMinimumList.scanbeams'])
    ctx.rule('initialize', 'entering chains restart from their lower ends '
             'with nothing left over')
    ctx.table('initialize', 'a minimum used before', initialize, EXACT,
              anchors=['LocalMinimum.initialize'])
    ctx.rule('entered', 'every local minimum at the height enters, and the '
             'heights where its edges end are scheduled')
    entered(ctx, 'entered')
    ctx.rule('visited', 'both passes visit all scheduled heights from below '
             'upwards, each with all steps in order, until nothing is left')
    for which, names in (
            ('hot', ('build_hot_pixels', 'process_hot_pixel_intersections',
                     'insert_local_minima_into_abl_hot_pixel',
                     'process_hot_pixel_edges_at_top_of_scanbeam',
                     'sort_hot_pixels')),
            ('vatti', ('execute_vatti', 'process_intersections',
                       'process_edges_at_top_of_scanbeam',
                       'insert_local_minima_into_abl',
                       'update_current_hot_pixel_index'))):
        ctx.table('visited', names[0], visits(which, 3), EXACT,
                  anchors=['RingManager.' + x for x in names],
                  max_paths=100000)
    build_top(ctx)
