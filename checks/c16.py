"""What was added is what is processed."""
from wv.absint import EnumV, ListV, ObjV, Unsupported
from wv.build import EXACT, enum, meth, n, new, obj
from wv.sweep import members

LIST = 'LocalMinimumList.add_linear_ring'
RULES = ('EVEN_ODD', 'NON_ZERO', 'POSITIVE', 'NEGATIVE')
STEPS = ('build_hot_pixels', 'execute_vatti', 'correct_topology',
         'build_result')
CALLS = ('intersect', 'unite', 'subtract', 'symmetric_subtract')


def stored(it, w):
    v = it.getattr(w, 'minimums')
    return list(it.iterate(v))


def usable(it, log):
    """Stands for storing one ring: answers whether it was usable."""
    def stub(it, args, bound):
        ring = next((a for a in args if isinstance(a, ObjV)
                     and a.cls.name == 'LinearRing'), None)
        said = bool(it.choose(2, 'ring %d usable' % len(log)))
        log.append((ring, said))
        return said
    return stub


def polygon(size):
    def run(it):
        log = []
        it.stubs[LIST] = usable(it, log)
        w = new(it, 'Wagyu')
        rings = [new(it, 'LinearRing', ListV([])) for _ in range(size)]
        poly = new(it, 'Polygon', ListV(list(rings)))
        got = it.truth(meth(it, w, 'add_polygon', poly, enum(
            it, 'PolygonKind', 'SUBJECT')))
        seen = [id(r) for r, _ in log]
        if sorted(seen) != sorted(id(r) for r in rings):
            return ('of %d rings of a polygon the ones processed are %s'
                    % (size, [i for r in seen for i, x in enumerate(rings)
                              if id(x) == r]))
        if seen != [id(r) for r in rings]:
            return 'the rings of a polygon are processed out of order'
        want = any(s for _, s in log)
        if got is not want:
            return ('adding a polygon reports %s although %s of its rings is '
                    'usable' % (got, 'one' if want else 'none'))
        return None
    return run


def single(it):
    log = []
    it.stubs[LIST] = usable(it, log)
    w = new(it, 'Wagyu')
    ring = new(it, 'LinearRing', ListV([]))
    got = it.truth(meth(it, w, 'add_linear_ring', ring, enum(
        it, 'PolygonKind', 'CLIP')))
    if [id(r) for r, _ in log] != [id(ring)]:
        return 'a ring is processed %d times' % len(log)
    if got is not log[0][1]:
        return 'adding a ring reports %s although it is %susable' % (
            got, '' if log[0][1] else 'un')
    return None


def appended(cases):
    """Storing a ring keeps what was stored and adds all its minima."""
    from checks import c24

    def run(it):
        moves = cases[it.choose(len(cases), 'ring')]
        it.loop = loop = c24.Loop(it, moves)
        old = [obj(it, 'LocalMinimum', 'stored %d' % i)
               for i in range(it.choose(3, 'stored before'))]
        lst = new(it, 'LocalMinimumList', *old)
        w = new(it, 'Wagyu')
        it.setattr(w, 'minimums', lst)
        ring = obj(it, 'LinearRing', 'ring', points=ListV(loop.points))
        said = it.truth(meth(it, w, 'add_linear_ring', ring, enum(
            it, 'PolygonKind', 'SUBJECT')))
        have = stored(it, w)
        if [id(x) for x in have[:len(old)]] != [id(x) for x in old]:
            return 'adding a ring drops or moves what was added before'
        more = len(have) - len(old)
        want = len(c24.extrema(moves))
        if more != want:
            return '%s: %d of %d local minima are stored' % (moves, more,
                                                             want)
        if said is not True:
            return 'a ring with edges is reported as unusable'
        return None
    return run


def refused(it):
    old = [obj(it, 'LocalMinimum', 'stored %d' % i)
           for i in range(it.choose(3, 'stored before'))]
    w = new(it, 'Wagyu')
    it.setattr(w, 'minimums', new(it, 'LocalMinimumList', *old))
    ring = new(it, 'LinearRing', ListV([]))
    said = it.truth(meth(it, w, 'add_linear_ring', ring, enum(
        it, 'PolygonKind', 'SUBJECT')))
    if said is not False:
        return 'a ring without usable edges is reported as usable'
    if [id(x) for x in stored(it, w)] != [id(x) for x in old]:
        return 'a ring without usable edges changes what is stored'
    return None


def degenerate(words):
    from checks import c24
    from wv.heap import Heap
    from wv.build import point

    def run(it):
        word = words[it.choose(len(words), 'vertices')]
        h = Heap(it)
        ring = obj(it, 'LinearRing', 'ring', points=ListV(
            [point(it, *h.at(k), label='vertex at %d' % k) for k in word]))
        got = len(list(it.iterate(it.getattr(ring, 'edges'))))
        if bool(got) != bool(c24.reduced(word)):
            return 'the ring %s has %d usable edges' % (word, got)
        return None
    return run


def cleared(it):
    old = [obj(it, 'LocalMinimum', 'stored %d' % i)
           for i in range(it.choose(4, 'stored before'))]
    w = new(it, 'Wagyu', bool(it.choose(2, 'reverse')))
    it.setattr(w, 'minimums', new(it, 'LocalMinimumList', *old))
    flag = it.getattr(w, 'reverse_output')
    meth(it, w, 'clear')
    if stored(it, w):
        return 'clearing leaves %d of %d local minima' % (
            len(stored(it, w)), len(old))
    if it.getattr(w, 'reverse_output') is not flag:
        return 'clearing changes the orientation of results'
    return None


def watch(it):
    """Replaces the phases of an operation by recorders."""
    log = []
    answer = obj(it, 'Multipolygon', 'answer')

    def step(name):
        def stub(it, args, bound):
            log.append((name, args[0], list(args[1:])))
            return answer if name == 'build_result' else None
        return stub
    for s in STEPS:
        it.stubs['RingManager.' + s] = step(s)
    return log, answer


def empty(it):
    log, answer = watch(it)
    w = new(it, 'Wagyu', bool(it.choose(2, 'reverse')))
    way = it.choose(3, 'emptiness')
    if way:
        m = obj(it, 'LocalMinimum', 'stored')
        it.setattr(w, 'minimums', new(it, 'LocalMinimumList', m))
        meth(it, w, 'clear')
    got = meth(it, w, CALLS[it.choose(4, 'operation')])
    if got is answer:
        # the phases are run on nothing: their result is judged elsewhere
        raise Unsupported('phases run on an empty accumulator')
    if not (isinstance(got, ObjV) and got.cls.name == 'Multipolygon'):
        return 'an operation on nothing returns no multipolygon'
    if list(it.iterate(it.getattr(got, 'polygons'))):
        return 'an operation on nothing returns polygons'
    return None


def whole(it):
    o, f, k = members(it)
    log, answer = watch(it)
    ms = [obj(it, 'LocalMinimum', 'stored %d' % i)
          for i in range(1 + it.choose(3, 'stored'))]
    flag = bool(it.choose(2, 'reverse'))
    w = new(it, 'Wagyu', flag)
    it.setattr(w, 'minimums', new(it, 'LocalMinimumList', *ms))
    rounds = 1 + it.choose(2, 'repeated')
    managers = []
    for i in range(rounds):
        del log[:]
        got = meth(it, w, CALLS[it.choose(4, 'operation')])
        if [s for s, _, _ in log] != list(STEPS):
            return 'the phases run are %s' % [s for s, _, _ in log]
        if any(m is not log[0][1] for _, m, _ in log):
            return 'the phases of one operation work on different contours'
        if any(m is log[0][1] for m in managers):
            return 'two operations share their contours'
        managers.append(log[0][1])
        for s, _, args in log[:2]:
            lists = [a for a in args if isinstance(a, ListV)
                     or isinstance(a, ObjV) and a.cls.name
                     == 'LocalMinimumList']
            if len(lists) != 1:
                raise Unsupported('arguments of ' + s)
            have = list(it.iterate(lists[0]))
            if [id(x) for x in have] != [id(x) for x in ms]:
                return '%s gets %d of %d local minima' % (s, len(have),
                                                          len(ms))
        if got is not answer:
            return 'the result built is not returned'
        flags = [a for a in log[3][2] if isinstance(a, bool)]
        if flags != [flag]:
            return 'the orientation flag given is not the one stored'
        if [id(x) for x in stored(it, w)] != [id(x) for x in ms]:
            return 'an operation changes what is stored'
    return None


def build(ctx):
    ctx.p.need('Wagyu.add_polygon')
    ctx.p.need('Wagyu.add_linear_ring')
    ctx.rule('polygon', 'adding a polygon processes every ring once, in '
             'order, and reports whether any was usable')
    for size in range(6 if ctx.thorough else 5):
        ctx.table('polygon', '%d rings' % size, polygon(size),
                  anchors=['Wagyu.add_polygon', LIST])
    ctx.rule('ring', 'adding a ring reports whether it was usable')
    ctx.table('ring', 'one ring', single,
              anchors=['Wagyu.add_linear_ring', LIST])
    ctx.table('ring', 'a ring without edges', refused,
              {'LinearRing.edges': lambda it, a, b: ListV([])},
              anchors=[LIST, 'LinearRing.edges'])
    from checks import c24
    from wv.num import INF
    from wv.heap import partitions
    c24.INF = INF
    for size in range(3, 7 if ctx.thorough else 6):
        cases = list(c24.rings_of(size))
        ctx.table('ring', 'rings of %d sides' % size, appended(cases),
                  dict(EXACT, **{'LinearRing.edges': c24.edges_stub,
                                 'Edge.is_horizontal': c24.flat_stub,
                                 'Point.__eq__': c24.same_stub}),
                  anchors=[LIST, 'LinearRing.edges', 'Edge.is_horizontal',
                           'Point.__eq__'], max_paths=200000)
    ctx.rule('edges', 'a ring has usable edges exactly when something is '
             'left after dropping repeated vertices and steps back')
    ctx.assume('edges: no three different vertices are collinear')
    for size in range(7 if ctx.thorough else 6):
        words = list(partitions(size)) if size else [()]
        ctx.table('edges', 'rings of %d points' % size, degenerate(words), {
            'are_points_slopes_equal': c24.collinear_stub,
            'are_edges_slopes_equal': c24.parallel_stub},
            anchors=['LinearRing.edges', 'are_points_slopes_equal',
                     'are_edges_slopes_equal'], max_paths=200000)
    ctx.rule('clear', 'clearing leaves nothing stored')
    ctx.table('clear', 'up to three minima', cleared,
              anchors=['Wagyu.clear'])
    phases = ['RingManager.' + s for s in STEPS]
    ctx.rule('empty', 'an operation on nothing returns an empty result')
    ctx.table('empty', 'never filled or cleared', empty,
              anchors=['Wagyu.clear'] + phases)
    ctx.rule('whole', 'an operation runs its phases in order on a manager of '
             'its own and on everything stored, and returns the result')
    ctx.table('whole', 'all operations', whole, anchors=phases)
