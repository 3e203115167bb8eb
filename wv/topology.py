"""Steps of topology correction on small heaps of contours."""
from .absint import DictV, ListV, ObjV, PyRaise
from .build import TOLERANT, meth, obj, walk
from .heap import Heap, STATS, partitions


class Step:
    """One step: a heap, an action and what came of it."""

    def __init__(self, heap, action, expect=None, new_ok=True, counts=True,
                 boundary=True, ok_raises=()):
        self.h, self.action, self.expect = heap, action, expect
        self.new_ok, self.counts, self.boundary = new_ok, counts, boundary
        self.ok_raises = ok_raises
        self.value = None
        self.before = heap.chain()
        self.census = census(heap)

    def go(self):
        """Runs the action; False when it ended in an expected error."""
        try:
            self.value = self.action()
        except PyRaise as e:
            if e.name in self.ok_raises:
                return False
            raise
        return True


def census(h):
    vs, rs = 0, 0
    for r in h.live():
        w = walk(h.it, h.it.getattr(r, 'node'))
        vs += len(w) if w else 0
        rs += 1
    return vs, rs


class Case:
    """A family of steps: ``make(it)`` picks one and returns the Step."""

    def __init__(self, name, make, anchors, stubs=None, topics='cfob',
                 loops='violation', max_paths=20000):
        # topics: c circles, f forest, o owners and measurements, b boundary,
        # r resolution of coincidences
        self.name, self.make, self.anchors = name, make, anchors
        self.stubs = dict(STATS, **(stubs or {}))
        self.topics, self.loops, self.max_paths = (topics, loops, max_paths)


def pick(it, options, label):
    options = list(options)
    return options[it.choose(len(options), label)]


def same_contour(size, other, first):
    def make(it):
        places = pick(it, partitions(size, [(0, other)]), 'places')
        h = Heap(it)
        r = h.ring(places)
        r.fields['node'] = r.verts[first]
        a, b = r.verts[0], r.verts[other]
        s = Step(h, lambda: meth(it, h.manager, 'process_collinear_edges', a,
                                 b), counts=False)
        s.pair = a, b
        return s
    return make


def two_contours(na, nb, fa, fb, nested):
    def make(it):
        places = pick(it, partitions(na + nb, [(0, na)]), 'places')
        h = Heap(it)
        r = h.ring(places[:na])
        t = h.ring(places[na:], parent=r if nested else None)
        r.fields['node'], t.fields['node'] = r.verts[fa], t.verts[fb]
        a, b = r.verts[0], t.verts[0]
        if nested == 2:
            a, b = b, a
        s = Step(h, lambda: meth(it, h.manager, 'process_collinear_edges', a,
                                 b), counts=False)
        s.pair = a, b
        return s
    return make


COLLINEAR = ['RingManager.process_collinear_edges',
             'RingManager.process_collinear_edges_same_ring',
             'RingManager.process_collinear_edges_different_rings',
             'find_start_and_end_of_collinear_edges', 'fix_collinear_path',
             'has_collinear_edge', 'PointNode.stats',
             'RingManager.remove_duplicate_points',
             'RingManager.correct_self_intersection']


def collinear(thorough):
    for size in range(2, 8 if thorough else 7):
        for other in range(1, size):
            for first in range(size):
                if size > 6 and first not in (0, other):
                    continue
                yield Case('cleaning vertices 0 and %d of a contour of %d '
                           'entered at %d' % (other, size, first),
                           same_contour(size, other, first),
                           COLLINEAR, topics='cfobr')
    top = 7 if thorough else 6
    for na in range(1, top):
        for nb in range(1, top - na + 1):
            for fa in range(na):
                for fb in range(nb):
                    if na + nb > 5 and (fa and fb) and not thorough:
                        continue
                    for nested in (0, 1, 2):
                        if nested and (fa or fb):
                            continue
                        yield Case('cleaning two contours of %d and %d '
                                   'entered at %d and %d%s' % (
                                       na, nb, fa, fb,
                                       ('', ', second inside',
                                        ', second inside, swapped')[nested]),
                                   two_contours(na, nb, fa, fb, nested),
                                   COLLINEAR, topics='cfobr')


def self_touch(size, other):
    def make(it):
        h = Heap(it)
        places = list(range(size))
        places[other] = 0
        outer = h.ring(['o1', 'o2', 'o3'], 'outer', stats='unset')
        r = h.ring(places, parent=outer)
        a, b = r.verts[0], r.verts[other]
        if it.choose(2, 'order'):
            a, b = b, a
        h.given = (a, b)

        def expect(step):
            it = step.h.it
            ra, rb = it.getattr(a, 'ring'), it.getattr(b, 'ring')
            if ra is rb:
                return 'the two vertices stay on one contour'
            new = step.value
            if not isinstance(new, ObjV):
                return 'the new contour is not returned'
            if r not in (ra, rb) or new not in (ra, rb) or r is new:
                return 'the vertices are not on the old and the new contour'
            big, small = (abs_area(it, v) for v in (r, new))
            if it.order('<', big, small):
                return 'the contour keeps the smaller part'
            return None
        return Step(h, lambda: meth(it, h.manager,
                                    'correct_self_intersection', a, b),
                    expect)
    return make


def abs_area(it, ring):
    a = it.getattr(ring, 'area')
    return -a if it.sign(a, {-1}) else a


def foreign_touch(it):
    h = Heap(it)
    r, t = h.ring((0, 1, 2)), h.ring((0, 3, 4))

    def expect(step):
        if step.value is not None:
            return 'two contours touching are split'
        if census(h) != step.census:
            return 'two contours touching are changed'
    return Step(h, lambda: meth(it, h.manager, 'correct_self_intersection',
                                r.verts[0], t.verts[0]), expect)


def duplicates(size):
    def make(it):
        places = pick(it, partitions(size, [(0, 1)]), 'places')
        h = Heap(it)
        r = h.ring(places)
        r.fields['node'] = r.verts[it.choose(size, 'entered at')]
        a, b = r.verts[0], r.verts[1]
        if it.choose(2, 'order'):
            a, b = b, a

        def expect(step):
            if it.truth(step.value) is not True:
                return 'neighbours at one place are not reported as cleaned'
            if it.getattr(a, 'ring') is r and it.getattr(b, 'ring') is r:
                return 'neighbours at one place both remain'
        return Step(h, lambda: meth(it, h.manager, 'remove_duplicate_points',
                                    a, b), expect, counts=False)
    return make


def apart(size, other, na, nb):
    def make(it):
        h = Heap(it)
        if size:
            r = h.ring(pick(it, partitions(size, [(0, other)]), 'places'))
            a, b = r.verts[0], r.verts[other]
        else:
            ps = pick(it, partitions(na + nb, [(0, na)]), 'places')
            r, t = h.ring(ps[:na]), h.ring(ps[na:])
            a, b = r.verts[0], t.verts[0]

        def expect(step):
            gone = [v for v in (a, b) if it.getattr(v, 'ring') is None]
            if it.truth(step.value) and not gone:
                return 'reported as cleaned although both vertices remain'
            if not it.truth(step.value):
                if gone:
                    return 'a vertex is gone without being reported'
                for v in (a, b):
                    for w in ('next', 'prev'):
                        u = it.getattr(v, w)
                        if u is not v and h.place(u) == h.place(v):
                            return ('a neighbour of %s at its place remains'
                                    % v.label)
        return Step(h, lambda: meth(it, h.manager, 'remove_duplicate_points',
                                    a, b), expect, counts=False)
    return make


def splits(thorough):
    top = 7 if thorough else 6
    for size in range(3, top + 1):
        for other in range(1, size):
            yield Case('splitting a contour of %d at 0 and %d'
                       % (size, other), self_touch(size, other),
                       ['RingManager.correct_self_intersection',
                        'PointNode.stats'], topics='cfobr')
    yield Case('touching contours are not split', foreign_touch,
               ['RingManager.correct_self_intersection'], topics='cobr')
    dup = ['RingManager.remove_duplicate_points', 'PointNode.stats',
           'RingManager.remove_ring_and_points']
    for size in range(2, top + 1):
        yield Case('neighbours at one place on a contour of %d' % size,
                   duplicates(size), dup, topics='cfobr')
    for size in range(3, top + 1):
        for other in range(1, size):
            yield Case('vertices 0 and %d at one place of %d' % (other, size),
                       apart(size, other, 0, 0), dup, topics='cfobr')
    for na in range(1, 5):
        for nb in range(1, 6 - na):
            yield Case('duplicates next to a contact of contours of %d and '
                       '%d' % (na, nb), apart(0, 0, na, nb), dup,
                       topics='cfobr')


# -- contours touching others ---------------------------------------------
def inside_stub(it, args, bound):
    """One contour lies in another: unknown, but never in a smaller one."""
    a, b = args[0], args[1]
    h = it.heap
    memo = h.__dict__.setdefault('inside', {})
    key = (tuple(sorted(v.label for v in walk(it, a.fields['node']))),
           tuple(sorted(v.label for v in walk(it, b.fields['node']))))
    if key not in memo:
        x, y = (it.getattr(r, 'area') for r in (a, b))
        x, y = (-v if it.sign(v, {-1}) else v for v in (x, y))
        memo[key] = (not it.order('<', y, x)
                     and bool(it.choose(2, '%s inside %s' % key)))
    return memo[key]


CHAINED = ['RingManager.process_single_intersection',
           'RingManager.correct_chained_rings', 'PointNode.stats',
           'Ring.inside_of']


def chained(contacts, holes, parent_hole=False, turned=()):
    """Holes of one contour (or islands of one hole) in contact.

    contacts: (contour, contour) pairs, 'P' being the parent, in the order
    of their places from below."""
    def make(it):
        h = Heap(it)
        top = None
        if parent_hole:
            top = h.ring(['t0', 't1', 't2'], 'around', hole=False)
        places = {'P': []}
        for i in range(holes):
            places[i] = []
        for k, (a, b) in enumerate(contacts):
            places[a].append('c%d' % k)
            places[b].append('c%d' % k)
        for name, ps in places.items():
            i = 0
            out = []
            if name in turned:
                ps = ps[::-1]
            for p in ps:
                out += [p, 'f%s_%d' % (name, i)]
                i += 1
            while len(out) < 3:
                out.append('f%s_%d' % (name, i))
                i += 1
            places[name] = out
        P = h.ring(places['P'], 'parent', parent=top, hole=parent_hole)
        rs = {'P': P}
        for i in range(holes):
            rs[i] = h.ring(places[i], 'hole%d' % i, parent=P,
                           hole=not parent_hole)
        island = h.ring(['i0', 'i1', 'i2'], 'island', parent=rs[0],
                        hole=parent_hole)
        other = h.ring(['j0', 'j1', 'j2'], 'other', parent=P,
                       hole=not parent_hole)
        swap = it.choose(2, 'contact order')
        lst = []
        for k, (a, b) in enumerate(contacts):
            vs = [v for r in (rs[a], rs[b]) for v in r.verts
                  if v.place == 'c%d' % k]
            lst += vs[::-1] if swap else vs
        h.manager.fields['all_nodes'] = ListV(lst)

        def action():
            return meth(it, h.manager, 'correct_chained_rings')
        s = Step(h, action, ok_raises=('RuntimeError',), new_ok=False)
        return s
    return make


def chains(thorough):
    sets = [(2, [(0, 'P'), (0, 'P')]), (2, [(0, 1), (0, 1)]),
            (2, [(0, 'P'), (0, 1), (1, 'P')]),
            (2, [(0, 1), (0, 'P'), (1, 'P')]),
            (3, [(0, 1), (1, 2), (0, 2)]),
            (1, [(0, 'P')]), (2, [(0, 1)]), (2, [(0, 'P'), (1, 'P')]),
            (2, [(0, 1), (0, 'P')]),
            (1, [(0, 'P'), (0, 'P'), (0, 'P')], (0,)),
            (2, [(0, 1), (0, 1), (0, 1)], (0,))]
    if thorough:
        sets += [(3, [(0, 'P'), (0, 1), (1, 2), (2, 'P')]),
                 (3, [(0, 1), (2, 'P'), (1, 2), (0, 'P')]),
                 (4, [(0, 1), (1, 2), (2, 3), (0, 3)]),
                 (2, [(0, 'P'), (0, 'P'), (1, 'P'), (1, 'P')])]
    for holes, contacts, *turned in sets:
        for deep in (False, True):
            yield Case('contacts %s of %s' % (
                ', '.join('%s-%s' % c for c in contacts),
                'islands in a hole' if deep else 'holes'),
                chained(contacts, holes, deep, *turned), CHAINED,
                dict(TOLERANT, **{'Ring.inside_of': inside_stub}), topics='cfob')


def steps(thorough):
    yield from collinear(thorough)
    yield from splits(thorough)
    yield from chains(thorough)


def register(ctx, rule, topic, judge, cases, **kw):
    for c in cases:
        if topic not in c.topics:
            continue

        def run(it, c=c):
            s = c.make(it)
            if not s.go():
                return None
            return judge(it, s)
        ctx.table(rule, c.name, run, c.stubs, anchors=c.anchors,
                  loops=c.loops, max_paths=c.max_paths, **kw)


def resolved(it, s):
    a, b = s.pair
    h = s.h
    vs, rs = census(h)
    ra, rb = it.getattr(a, 'ring'), it.getattr(b, 'ring')
    said = it.truth(s.value)
    if said and vs >= s.census[0] and rs <= s.census[1]:
        return 'a change is reported but nothing changed'
    if ra is None or rb is None:
        return None
    if ra is rb:
        return 'the pair stays on one contour'
    if said:
        return None
    for u, v in ((a, b), (b, a)):
        if h.place(it.getattr(u, 'next')) == h.place(it.getattr(v, 'prev')):
            return 'a doubled edge stays between two contours'
    return None
