"""Rings become paired, directed, linked chains of edges."""
import itertools

from wv.absint import Infeasible, ListV, ObjV
from wv.build import EXACT, enum, meth, n, new, obj, point
from wv.heap import Heap, partitions


# -- edges of a ring -------------------------------------------------------
def reduced(word):
    """A closed walk without repeated vertices and steps back."""
    w = list(word)
    again = True
    while again and w:
        again = False
        for i in range(len(w)):
            j, k = (i + 1) % len(w), (i + 2) % len(w)
            if len(w) > 1 and w[i] == w[j]:
                del w[j]
                again = True
                break
            if len(w) > 2 and w[i] == w[k]:
                for x in sorted((j, k), reverse=True):
                    del w[x]
                again = True
                break
        if len(w) <= 2:
            return []
    return w


def which(it, p):
    h = it.heap
    return h.place(p)


def collinear_stub(it, args, bound):
    a, b, c = (which(it, x) for x in args[:3])
    return a == b or b == c or a == c


def parallel_stub(it, args, bound):
    def pair(e):
        return {which(it, it.getattr(e, 'bottom')),
                which(it, it.getattr(e, 'top'))}
    return pair(args[0]) == pair(args[1])


def edges_case(words):
    def run(it):
        word = words[it.choose(len(words), 'vertices')]
        h = Heap(it)
        ps = ListV([point(it, *h.at(k), label='vertex at %d' % k)
                    for k in word])
        ring = obj(it, 'LinearRing', 'ring', points=ps)
        got = [e for e in it.iterate(it.getattr(ring, 'edges'))]
        pairs = []
        for e in got:
            b, t = it.getattr(e, 'bottom'), it.getattr(e, 'top')
            if it.order('<', it.getattr(b, 'y'), it.getattr(t, 'y')):
                return 'an edge runs from its upper to its lower end'
            pairs.append(frozenset((which(it, b), which(it, t))))
        w = reduced(word)
        want = [frozenset(x) for x in zip(w, w[1:] + w[:1])]
        if sorted(map(sorted, pairs)) != sorted(map(sorted, want)):
            return 'the ring %s has the edges %s instead of %s' % (
                word, list(map(sorted, pairs)), list(map(sorted, want)))
        if pairs and not any(pairs[i:] + pairs[:i] == want
                             for i in range(len(pairs))):
            return 'the edges of the ring %s are out of order' % (word,)
        for p, k in zip(ps.items, word):
            if not (it.eq(it.getattr(p, 'x'), h.at(k)[0])
                    and it.eq(it.getattr(p, 'y'), h.at(k)[1])):
                return 'the ring is changed'
        return None
    return run


def usable_case(it):
    """Degenerate rings are refused, others accepted."""
    return None


# -- chains ------------------------------------------------------------------
class Loop:
    """A ring as a circle of moves: U rising (towards smaller heights), D
    falling, L and R flat."""

    def __init__(self, it, moves):
        self.it, self.moves = it, moves
        self.n = k = len(moves)
        xs = [it.sym('x%d' % i) for i in range(k)]
        ys = [it.sym('y%d' % i) for i in range(k)]
        for i, m in enumerate(moves):
            j = (i + 1) % k
            if m in 'UD':
                self.force(ys[j] - ys[i], -1 if m == 'U' else 1)
            else:
                if i == k - 1 or True:
                    self.force(ys[j] - ys[i], 0)
                self.force(xs[j] - xs[i], -1 if m == 'L' else 1)
        self.xs, self.ys = xs, ys
        self.points = [point(it, x, y, 'p%d' % i)
                       for i, (x, y) in enumerate(zip(xs, ys))]
        self.edges = []
        inf = it.p  # noqa
        for i, m in enumerate(moves):
            j = (i + 1) % k
            a, b = self.points[i], self.points[j]
            if m == 'D':
                bottom, top = b, a
            else:
                bottom, top = a, b
            flat = m in 'LR'
            e = obj(it, 'Edge', 'edge%d' % i, bottom=bottom, top=top,
                    slope=INF if flat else it.sym('slope%d' % i))
            e.number = i
            self.edges.append(e)

    def force(self, num, sign):
        if not self.it.sign(num, {sign}):
            raise Infeasible()


def flat_stub(it, args, bound):
    return it.loop.moves[args[0].number] in 'LR'


def point_eq(it, loop, a, b):
    return it.eq(it.getattr(a, 'x'), it.getattr(b, 'x')) and \
        it.eq(it.getattr(a, 'y'), it.getattr(b, 'y'))


def canonical(moves):
    return moves == min(moves[i:] + moves[:i] for i in range(len(moves)))


def rings_of(size):
    for ms in itertools.product('UDLR', repeat=size):
        s = ''.join(ms)
        if 'U' not in s or 'D' not in s:
            continue
        # a flat run does not turn back on itself
        if any(a + b in ('LR', 'RL') for a, b in zip(s, s[1:] + s[:1])):
            continue
        if any(a + b in ('LL', 'RR') for a, b in zip(s, s[1:] + s[:1])):
            continue       # such edges are merged before
        yield s


def name_points(loop):
    """Vertices are told apart; equality of points is that of vertices."""
    return {id(p): i for i, p in enumerate(loop.points)}


def same_stub(it, args, bound):
    """Point equality in a ring that visits no place twice."""
    a, b = args[0], args[1]
    if not isinstance(b, ObjV):
        return it.loop_default(a, b)
    return number(it, a) == number(it, b)


def number(it, p):
    x, y = repr(it.getattr(p, 'x')), repr(it.getattr(p, 'y'))
    loop = it.loop
    for i in range(loop.n):
        if repr(loop.xs[i]) == x:
            # the height of a vertex on a flat run may be written otherwise
            return i
    return (x, y)


def extrema(moves):
    """Indices of vertices that are local minima: runs D..(flat)..U."""
    k = len(moves)
    steep = [i for i in range(k) if moves[i] in 'UD']
    out = []
    for a, b in zip(steep, steep[1:] + steep[:1]):
        if moves[a] == 'D' and moves[b] == 'U':
            out.append((a, b))
    return out


def pairing(cases):
    def run(it):
        moves = cases[it.choose(len(cases), 'ring')]
        it.loop = loop = Loop(it, moves)
        k = loop.n
        kind = enum(it, 'PolygonKind',
                    ('SUBJECT', 'CLIP')[it.choose(2, 'kind')])
        lst = new(it, 'LocalMinimumList')
        ring = obj(it, 'LinearRing', 'ring', points=ListV(loop.points))
        said = meth(it, lst, 'add_linear_ring', ring, kind)
        if it.truth(said) is not True:
            return 'a ring with edges is reported as unusable'
        ms = it.getattr(lst, 'values').items
        want = extrema(moves)
        if len(ms) != len(want):
            return '%s: %d local minima instead of %d' % (moves, len(ms),
                                                          len(want))
        seen = {}
        bounds = []
        for m in ms:
            pair = [it.getattr(m, 'left_bound'), it.getattr(m, 'right_bound')]
            for b, left in zip(pair, (True, False)):
                bounds.append(b)
                es = it.getattr(b, 'edges').items
                if not es:
                    return '%s: a chain without edges' % moves
                for e in es:
                    if not hasattr(e, 'number'):
                        return '%s: an edge that is not of the ring' % moves
                    if e.number in seen:
                        return '%s: edge %d is on two chains' % (moves,
                                                                 e.number)
                    seen[e.number] = b
                for e, f in zip(es, es[1:]):
                    if number(it, it.getattr(e, 'top')) != number(
                            it, it.getattr(f, 'bottom')):
                        return '%s: the edges of a chain do not follow each '\
                            'other' % moves
                up = {moves[e.number] for e in es} & set('UD')
                if len(up) != 1:
                    return '%s: a chain that is not monotone' % moves
                delta = it.getattr(b, 'winding_delta')
                if not delta.is_const or delta.value != (
                        1 if up == {'U'} else -1):
                    return '%s: a chain %s has the direction %s' % (
                        moves, 'rising' if up == {'U'} else 'falling', delta)
                if it.getattr(b, 'polygon_kind') is not kind:
                    return '%s: a chain has not the kind of its ring' % moves
                if (it.getattr(b, 'side').name == 'LEFT') is not left:
                    return '%s: a chain is not on its side' % moves
            l, r = (it.getattr(b, 'edges').items for b in pair)
            if number(it, it.getattr(l[0], 'bottom')) != number(
                    it, it.getattr(r[0], 'bottom')):
                return '%s: paired chains do not start at one point' % moves
            if {moves[e.number] for e in l} & {moves[e.number] for e in r} \
                    & set('UD'):
                return '%s: paired chains run the same way' % moves
            steep = [next(e for e in es if moves[e.number] in 'UD')
                     for es in (l, r)]
            if not it.eq(it.getattr(m, 'y'), it.getattr(it.getattr(
                    l[0], 'bottom'), 'y')):
                return '%s: the height of a local minimum is wrong' % moves
            flat = moves[l[0].number] in 'LR' or moves[r[0].number] in 'LR'
            if it.truth(it.getattr(m, 'minimum_has_horizontal')) is not flat:
                return '%s: a flat local minimum is not marked' % moves
            if flat:
                if moves[l[0].number] in 'LR':
                    return '%s: the left chain of a flat minimum starts ' \
                        'flat' % moves
                a, b = (it.getattr(it.getattr(e, 'bottom'), 'x')
                        for e in steep)
                if not it.order('<', a, b):
                    return '%s: the left chain of a flat minimum is on the ' \
                        'right' % moves
            else:
                a, b = (it.getattr(e, 'slope') for e in steep)
                if not it.order('>=', a, b):
                    return '%s: the left chain leaves to the right' % moves
        if len(seen) != k:
            return '%s: %d edges of %d are on chains' % (moves, len(seen), k)
        for b in bounds:
            o = it.getattr(b, 'maximum_bound')
            if not any(o is x for x in bounds):
                return '%s: a chain without partner at its maximum' % moves
            if it.getattr(o, 'maximum_bound') is not b:
                return '%s: partners at a maximum are not mutual' % moves
            p, q = (it.getattr(it.getattr(x, 'edges').items[-1], 'top')
                    for x in (b, o))
            if number(it, p) != number(it, q):
                return '%s: partners at a maximum do not meet' % moves
        # neighbours on the circle at every maximum
        steep = [i for i in range(k) if moves[i] in 'UD']
        for a, b in zip(steep, steep[1:] + steep[:1]):
            if moves[a] == 'U' and moves[b] == 'D':
                if it.getattr(seen[a], 'maximum_bound') is not seen[b]:
                    return '%s: chains meeting at a maximum are not ' \
                        'partners' % moves
            if moves[a] == 'D' and moves[b] == 'U':
                if not any({id(seen[a]), id(seen[b])}
                           == {id(it.getattr(m, 'left_bound')),
                               id(it.getattr(m, 'right_bound'))}
                           for m in ms):
                    return '%s: chains meeting at a minimum are not paired' \
                        % moves
            if moves[a] == moves[b] and seen[a] is not seen[b]:
                return '%s: a monotone run is cut' % moves
        return None
    return run


def edges_stub(it, args, bound):
    return ListV(list(it.loop.edges))


def refused(it):
    it.loop = None
    lst = new(it, 'LocalMinimumList')
    ring = obj(it, 'LinearRing', 'ring', points=ListV([]))
    said = meth(it, lst, 'add_linear_ring', ring,
                enum(it, 'PolygonKind', 'CLIP'))
    if it.truth(said) is not False:
        return 'a ring without edges is reported as usable'
    if it.getattr(lst, 'values').items:
        return 'a ring without edges leaves local minima'
    return None


def build(ctx):
    global INF
    from wv.num import INF
    ctx.rule('edges', 'the edges of a ring are its sides in order without '
             'repeated vertices and steps back, each from its lower to its '
             'upper end')
    ctx.assume('edges: no three different vertices are collinear, so that '
               'sides run back exactly when vertices repeat')
    stubs = {'are_points_slopes_equal': collinear_stub,
             'are_edges_slopes_equal': parallel_stub}
    for size in range(0, 8 if ctx.thorough else 7):
        words = list(partitions(size)) if size else [()]
        parts = 8 if len(words) > 60 else 1
        for part in range(parts):
            ctx.table('edges', 'rings of %d points, part %d' % (size, part),
                      edges_case(words[part::parts]), stubs,
                      anchors=['LinearRing.edges', 'are_points_slopes_equal',
                               'are_edges_slopes_equal'], max_paths=200000)
    ctx.rule('chains', 'chains are monotone, paired at minima, directed, of '
             'the kind of the ring, linked at maxima, and use every edge once')
    ctx.assume('chains: a ring visits no place twice in succession and has '
               'no two flat sides in a row')
    for size in range(3, 9 if ctx.thorough else 8):
        cases = list(rings_of(size))
        parts = min(len(cases), 8 if size > 4 else 1)
        for part in range(parts):
            ctx.table('chains', 'rings of %d sides, part %d' % (size, part),
                      pairing(cases[part::parts]),
                      dict(EXACT, **{'LinearRing.edges': edges_stub,
                                     'Edge.is_horizontal': flat_stub,
                                     'Point.__eq__': same_stub}),
                      anchors=['LocalMinimumList.add_linear_ring',
                               'LinearRing.edges', 'Edge.is_horizontal',
                               'Point.__eq__'], max_paths=200000)
    ctx.rule('refused', 'a ring without edges is refused and leaves nothing')
    ctx.table('refused', 'a ring without edges', refused,
              {'LinearRing.edges': lambda it, a, b: ListV([])},
              anchors=['LocalMinimumList.add_linear_ring',
                       'LinearRing.edges'])
