"""Scans over groups of vertices, passes of topology correction."""
from .absint import REAL, Infeasible, ListV, ObjV
from .build import EXACT, meth, n, node, obj, walk
from .heap import Heap, STATS, partitions


def groupings(total):
    """Compositions of the total."""
    if total == 0:
        yield ()
        return
    for first in range(1, total + 1):
        for rest in groupings(total - first):
            yield (first,) + rest


class Scan:
    """A manager with vertices in groups; calls on pairs are recorded."""

    def __init__(self, it, groups, dead=0):
        self.it = it
        self.h = Heap(it)
        self.vs, self.group = [], {}
        k = 0
        for g, count in enumerate(groups):
            for _ in range(count):
                r = obj(it, 'Ring', 'contour%d' % k, node=None, parent=None)
                v = node(it, n(g), n(-g), 'v%d' % k, r)
                v.fields['next'] = v.fields['prev'] = None
                self.group[id(v)] = g
                self.vs.append(v)
                k += 1
        self.h.manager.fields['all_nodes'] = ListV(list(self.vs))
        self.log = []
        self.active = None
        it.scan = self

    def alive(self, v):
        return v.fields['ring'] is not None

    def visit(self, a, b):
        if not isinstance(a, ObjV) or not isinstance(b, ObjV):
            self.fault = 'a pair without a vertex'
            return
        if a is b or not self.alive(a) or not self.alive(b):
            return True        # to be rejected by what examines the pair
        self.log.append((a, b))
        if self.group[id(a)] != self.group[id(b)]:
            self.fault = 'vertices of different places are examined'

    fault = None

    def missing(self, log, only=None):
        """A live pair of a group that the log does not examine."""
        done = {frozenset((id(a), id(b))) for a, b in log}
        for i, a in enumerate(self.vs):
            for b in self.vs[i + 1:]:
                if self.group[id(a)] != self.group[id(b)]:
                    continue
                if not (self.alive(a) and self.alive(b)):
                    continue
                if only is not None and a is not only and b is not only:
                    continue
                if frozenset((id(a), id(b))) not in done:
                    return '%s and %s' % (a.label, b.label)
        return None


def pair_stub(change):
    """``change``: what may be reported: 0 nothing, 1 one change, 2 also that
    the first vertex is gone."""
    def stub(it, args, bound):
        s = it.scan
        a, b = args[1], args[2]
        if s.visit(a, b):
            return REAL
        if change and s.active is None and s.fault is None \
                and len(s.log) <= 12:
            k = it.choose(1 + change, 'a change at %s, %s'
                          % (a.label, b.label))
            if k:
                s.active = len(s.log), a, b
                if k == 2:
                    a.fields['ring'] = None
                elif k == 3:
                    b.fields['ring'] = None
                return True
        return False
    return stub


def scan_case(groups, method, change):
    def run(it):
        s = Scan(it, groups)
        meth(it, s.h.manager, method)
        if s.fault:
            return s.fault
        m = s.missing(s.log)
        if m:
            return '%s are never examined' % m
        if s.active:
            at, a, b = s.active
            later = s.log[at:]
            ms = [s.missing(later, v) for v in (a, b) if s.alive(v)]
            if len(ms) == 2 and all(ms):
                return '%s are not examined again after a change' % ms[0]
        return None
    return run


def none_stub(it, args, bound):
    s = it.scan
    return REAL if s.visit(args[1], args[2]) else None


def scans(ctx, rule):
    top = 6 if ctx.thorough else 5
    for total in range(0, top + 1):
        for groups in groupings(total):
            if total == top and max(groups) > 3 and not ctx.thorough:
                continue
            for method, target, change in (
                    ('correct_collinear_edges', 'process_collinear_edges', 3),
                    ('correct_chained_rings', 'process_single_intersection',
                     0)):
                ctx.table(rule, '%s over groups of %s' % (method, groups),
                          scan_case(groups, method,
                                    change if total < 5 else min(change, 1)),
                          {'RingManager.' + target:
                           pair_stub(change) if change else none_stub},
                          anchors=['RingManager.' + method,
                                   'RingManager.' + target],
                          max_paths=40000)


# -- a contour visiting places several times -------------------------------
class GridHeap(Heap):
    """Places with known coordinates (areas stay unknown)."""

    def at(self, k):
        if k not in self.classes:
            self.classes[k] = n(self.order[k] % 3), n(self.order[k] // 3)
        return self.classes[k]

    def distance(self):
        pass


def apart_case(places, method):
    def run(it):
        h = GridHeap(it)
        count = max(places) + 1
        h.order = list(range(count))
        if it.choose(2, 'order of places'):
            h.order.reverse()
        outer = h.order and None
        r = h.ring(places, 'contour', outer)
        before = h.chain()
        new = ListV([])
        if method == 'find_and_correct_repeated_points':
            meth(it, h.manager, method, r, new)
            found = [x for x in h.all_rings() if x is not r]
            if sorted(map(id, found)) != sorted(map(id, new.items)):
                return 'the contours split off are not those reported'
        else:
            said = meth(it, h.manager, method, False)
            if it.truth(said) is not True:
                return 'contours corrected for the first time are not reported'
            if it.truth(it.getattr(r, 'corrected')) is not True:
                return 'the contour is not marked as corrected'
        f = h.circles() or h.owners()
        if f:
            return f
        if h.chain() != before:
            return 'the boundary changes'
        for x in h.live():
            seen = set()
            for v in walk(it, it.getattr(x, 'node')):
                if h.place(v) in seen:
                    return '%s still visits one place twice' % x.label
                seen.add(h.place(v))
        return None
    return run


def aparts(ctx, rule):
    top = 7 if ctx.thorough else 6
    anchors = ['RingManager.correct_self_intersection', 'PointNode.stats']
    for size in range(3, top + 1):
        cases = [p for p in partitions(size)
                 if all(p[i] != p[(i + 1) % size] for i in range(size))
                 and len(set(p)) < size]
        for part in range(min(8, len(cases)) or 0):
            sub = cases[part::8]
            for method in ('find_and_correct_repeated_points',
                           'correct_self_intersections'):
                def run(it, sub=sub, method=method):
                    return apart_case(sub[it.choose(len(sub), 'places')],
                                      method)(it)
                ctx.table(rule, '%s on a contour of %d visiting places '
                          'again, part %d' % (method, size, part), run,
                          dict(EXACT, **STATS), anchors=anchors + [
                              'RingManager.' + method], max_paths=60000)


# -- passes ------------------------------------------------------------------
PASSES = ('correct_orientations', 'correct_collinear_edges',
          'correct_self_intersections', 'correct_tree',
          'correct_chained_rings')


def pass_stub(name, rounds):
    def stub(it, args, bound):
        log = it.log
        nodes = it.manager.fields['all_nodes'].items
        if name in ('correct_collinear_edges', 'correct_chained_rings'):
            ys = [int(v.fields['y'].value) for v in nodes]
            if ys != sorted(ys, reverse=True):
                it.fault = '%s runs before the vertices are sorted' % name
        flag = args[1] if len(args) > 1 else None
        if name != 'correct_self_intersections':
            log.append((name, None))
            return None
        k = sum(1 for e in log if e[0] == name)
        res = k < rounds
        log.append((name, res, it.truth(flag)))
        return res
    return stub


def passes_case(it):
    it.log, it.fault = [], None
    vs = [node(it, n(0), n(y), 'v%d' % y) for y in (1, 3, 2)]
    it.manager = obj(it, 'RingManager', 'manager', all_nodes=ListV(vs),
                     nodes=ListV(list(vs)), rings=ListV([]),
                     children=ListV([]))
    meth(it, it.manager, 'correct_topology')
    if it.fault:
        return it.fault
    names = [e[0] for e in it.log]
    for a in PASSES:
        if a not in names:
            return '%s never runs' % a
    if names.index('correct_orientations') > \
            names.index('correct_collinear_edges'):
        return 'orientations are corrected after the cleaning'
    first = names.index('correct_self_intersections')
    if names.index('correct_collinear_edges') > first:
        return 'self contacts are resolved before the cleaning'
    if names.index('correct_tree') < first:
        return 'the tree is built before self contacts are resolved'
    if names.index('correct_chained_rings') < names.index('correct_tree'):
        return 'chains are joined before the tree is built'
    last_chain = len(names) - 1 - names[::-1].index('correct_chained_rings')
    last = len(names) - 1 - names[::-1].index('correct_self_intersections')
    if last < last_chain:
        return 'self contacts are not looked for after the last joining'
    if it.log[last][1]:
        return 'the passes end although something was corrected'
    for e in it.log:
        if e[0] != 'correct_self_intersections':
            continue
        at = it.log.index(e)
        if (at > names.index('correct_tree')) is not e[2]:
            return ('parts split off are not placed in the tree'
                    if not e[2] else
                    'parts split off are placed before there is a tree')
    return None


def passes(ctx, rule):
    for rounds in (0, 1, 2, 3, 4):
        ctx.table(rule, 'passes of correct_topology, %d with corrections'
                  % rounds, passes_case,
                  {'RingManager.' + p: pass_stub(p, rounds) for p in PASSES},
                  anchors=['RingManager.' + p for p in PASSES]
                  + ['RingManager.correct_topology'])


def again_case(it):
    """Contours are corrected again exactly when not marked."""
    h = GridHeap(it)
    h.order = list(range(6))
    rs = []
    for i in range(3):
        done = bool(it.choose(2, 'contour%d corrected before' % i))
        r = h.ring([0, 1, 2] if i == 0 else [2, 3, 4] if i == 1 else
                   [4, 5, 0], 'contour%d' % i, corrected=done)
        rs.append(r)
    gone = it.choose(4, 'removed')
    if gone:
        rs[gone - 1].fields.update(node=None)
    it.seen = []
    want = [r for r in rs if r.fields['corrected'] is not True
            and r.fields['node'] is not None]
    tree = bool(it.choose(2, 'tree'))
    said = meth(it, h.manager, 'correct_self_intersections', tree)
    if it.truth(said) is not bool(want):
        return 'whether anything was corrected is reported wrongly'
    got = [a for a, b in it.seen]
    if sorted(map(id, got)) != sorted(map(id, want)):
        return 'the contours corrected are not those to be corrected'
    for r in want:
        if it.truth(it.getattr(r, 'corrected')) is not True:
            return '%s is not marked as corrected' % r.label
    return None


def seen_stub(it, args, bound):
    it.seen.append((args[1], args[2]))


def nothing_stub(it, args, bound):
    return args[2]


def agains(ctx, rule):
    ctx.table(rule, 'contours to be corrected', again_case, dict(
        EXACT, **dict(STATS, **{
            'RingManager.find_and_correct_repeated_points': seen_stub,
            'RingManager.assign_new_ring_parents': nothing_stub})),
        anchors=['RingManager.find_and_correct_repeated_points',
                 'RingManager.assign_new_ring_parents',
                 'RingManager.correct_self_intersections'])


# -- orientations --------------------------------------------------------------
def orientation_case(sizes, parents):
    def run(it):
        h = Heap(it)
        rs = []
        for i, (size, p) in enumerate(zip(sizes, parents)):
            ps = ['%d_%d' % (i, k) for k in range(size)]
            r = h.ring(ps, 'contour%d' % i, rs[p] if p >= 0 else None,
                       stats=('set', 'unset')[it.choose(2, 'measured')]
                       if i == 0 else 'unset')
            if size > 2 and not it.sign(h.stats(r.verts[0])[0], {-1, 1}):
                raise Infeasible()     # not without area
            rs.append(r)
        gone = obj(it, 'Ring', 'gone', parent=None, node=None,
                   children=ListV([]), corrected=False, bottom_node=None)
        h.manager.fields['rings'].items.insert(1, gone)
        order = [r.verts for r in rs]
        meth(it, h.manager, 'correct_orientations')
        f = h.circles() or h.fresh() or h.owners()
        if f:
            return f
        for i, r in enumerate(rs):
            small = sizes[i] < 3
            if (it.getattr(r, 'node') is None) is not small:
                return '%s with %d vertices %s' % (
                    r.label, sizes[i], 'stays' if small else 'is removed')
            if small:
                continue
            d, j = 0, parents[i]
            while j >= 0:
                d, j = d + 1, parents[j]
            if any(sizes[j] < 3 for j in range(len(sizes))):
                continue
            if it.truth(it.getattr(r, 'is_hole')) is not (d % 2 == 1):
                return '%s at depth %d is %sa hole' % (
                    r.label, d, '' if d % 2 == 0 else 'not ')
            got = walk(it, it.getattr(r, 'node'))
            if sorted(map(id, got)) != sorted(map(id, order[i])):
                return 'the vertices of %s changed' % r.label
            area, _, _ = h.stats(it.getattr(r, 'node'))
            if it.sign(area, {0, -1}) is not (d % 2 == 1):
                return 'the direction of %s is wrong' % r.label
        return None
    return run


def orientations(ctx, rule):
    shapes = [(-1,), (-1, 0), (-1, 0, 1), (-1, 0, 0), (-1, -1, 1)]
    for parents in shapes:
        k = len(parents)
        for sizes in {(3,) * k, (4,) * k, (3,) * (k - 1) + (2,),
                      (3,) * (k - 1) + (1,), (3,) * (k - 1) + (5,)}:
            ctx.table(rule, 'correct_orientations of contours of %s under %s'
                      % (sizes, parents), orientation_case(sizes, parents),
                      dict(EXACT, **STATS),
                      anchors=['RingManager.correct_orientations',
                               'PointNode.stats'])
