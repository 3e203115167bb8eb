"""Nesting of contours: attaching, moving, removing, rebuilding."""
from .absint import Infeasible, ListV, ObjV, PyRaise
from .build import EXACT, meth, n, obj
from .heap import Heap
from .num import NAN
from .topology import Case, Step, pick


def assume(it, num, signs):
    if not it.sign(num, set(signs)):
        raise Infeasible()


# names of contours: 'A' root, 'A1' child of it, 'A11' grandchild
SHAPES = {
    'plain': ['A', 'B', 'A1', 'A2', 'A11', 'B1'],
    'deep': ['A', 'A1', 'A11', 'A111', 'A112'],
}


def parent_name(name):
    return name[:-1] or None


class Grove(Heap):
    """Contours with unknown areas; orientation by depth."""

    def __init__(self, it, names, gaps=False, vertices=3):
        super().__init__(it)
        self.by = {}
        for name in names:
            up = self.by.get(parent_name(name))
            self.by[name] = self.plain(name, up, len(name) % 2 == 0,
                                       vertices)
        if gaps:
            for owner in [self.manager] + self.rings:
                lst = owner.fields['children'].items
                lst[:] = [x for r in lst for x in (None, r)] + (
                    [None] if gaps == 2 else [])

    def plain(self, name, parent, hole, vertices=3, listed=True, **fields):
        it = self.it
        a = it.sym('a' + name)
        assume(it, a, {1})
        return self.ring(['%s%d' % (name, i) for i in range(vertices)], name,
                         parent, listed, 'none', _area=-a if hole else a,
                         _is_hole=hole, _size=n(vertices),
                         box=self.box(name), **fields)

    def parents(self):
        return {r.label: label(self.it.getattr(r, 'parent'))
                for r in self.live()}


def label(r):
    return r.label if isinstance(r, ObjV) else None


# errors no step reports on purpose
ACCIDENTS = ('AttributeError', 'TypeError', 'NameError', 'UnboundLocalError',
             'IndexError', 'KeyError', 'RecursionError', 'StopIteration',
             'ZeroDivisionError')


class Nest(Step):
    """``want``: contour -> expected parent name, contours left out are
    expected to be removed; ``loose``: contours that may be unlisted."""

    def __init__(self, heap, action, want=None, raises=None, error=None,
                 new_ok=False, **kw):
        super().__init__(heap, action, new_ok=new_ok, **kw)
        self.want, self.raises = want, raises
        self.error = error       # whether an error is due (None: unknown)

    def go(self):
        self.raised = None
        try:
            self.value = self.action()
        except PyRaise as e:
            self.raised = e
            if e.name in ACCIDENTS or self.error is None:
                raise
            return False
        return True

    def judge(self):
        f = self.h.listed(self.new_ok)
        if f:
            return f
        if self.want is None:
            return None
        got = self.h.parents()
        for name in sorted(set(got) | set(self.want)):
            if name not in self.want:
                return '%s remains' % name
            if name not in got:
                return '%s is gone' % name
            if got[name] != self.want[name]:
                return 'the parent of %s is %s instead of %s' % (
                    name, got[name] or 'none', self.want[name] or 'none')
        return None


def under(names, top):
    return [x for x in names if x.startswith(top)]


def removal(names, method, deep):
    def make(it):
        h = Grove(it, names, it.choose(3, 'gaps'))
        x = pick(it, names, 'removed')
        gone = under(names, x) if deep else [x]
        want = {y: parent_name(y) for y in names if y not in gone}

        def action():
            return meth(it, h.manager, method, h.by[x], deep)
        return Nest(h, action, want, new_ok=True)
    return make


def emptied(it, s):
    """Removed contours have no measurements left."""
    for r in s.h.rings:
        if it.getattr(r, 'node') is None:
            a = r.fields['_area']
            if getattr(a, 'kind', None) != 'nan':
                return 'the removed %s keeps its area' % r.label
    return None


def replacement(names):
    def make(it):
        h = Grove(it, names, it.choose(3, 'gaps'))
        x = pick(it, names, 'replaced')
        y = pick(it, [None] + [z for z in names if not z.startswith(x)],
                 'replacement')
        want = {}
        for z in names:
            if z != x:
                want[z] = y if parent_name(z) == x else parent_name(z)
        return Nest(h, lambda: meth(it, h.manager, 'replace_ring', h.by[x],
                                    h.by.get(y)), want)
    return make


def moving(names, method):
    """Moving a listed contour or attaching a new one."""
    new = method != 'reassign_as_child'

    def make(it):
        h = Grove(it, names, it.choose(3, 'gaps'))
        want = {z: parent_name(z) for z in names}
        if new:
            hole = bool(it.choose(2, 'new is a hole'))
            x = 'N'
            r = h.plain('N', None, hole, listed=False)
            places = [None] + names
        else:
            x = pick(it, names, 'moved')
            r = h.by[x]
            hole = len(x) % 2 == 0
            places = [None] + [z for z in names if not z.startswith(x)]
        if method == 'assign_as_sibling':
            y = pick(it, names, 'sibling')
            error = hole is not (len(y) % 2 == 0)
            want[x] = parent_name(y)
        else:
            y = pick(it, places, 'parent')
            error = (hole if y is None else hole is (len(y) % 2 == 0))
            want[x] = y
        return Nest(h, lambda: meth(it, h.manager, method, r, h.by.get(y)),
                    want, error=error)
    return make


FOREST = ['RingManager.children', 'Ring.children']


def basic(thorough):
    for key, names in SHAPES.items():
        for method in ('remove_ring', 'remove_ring_and_points'):
            for deep in (False, True):
                yield Case('%s on %s%s' % (
                    method, key, ', with its children' if deep else ''),
                    removal(names, method, deep), ['RingManager.' + method],
                    topics='cfo' if method.endswith('points') else 'f')
        yield Case('replace_ring on %s' % key, replacement(names),
                   ['RingManager.replace_ring'], topics='f')
        for method in ('reassign_as_child', 'assign_as_child',
                       'assign_as_sibling'):
            yield Case('%s on %s' % (method, key), moving(names, method),
                       ['RingManager.' + method], topics='fg')


# -- rebuilding the tree ---------------------------------------------------
def ancestor_stub(it, args, bound):
    """The contour lies in the other: by the truth of the scenario."""
    h = it.heap
    a, b = args[0], args[1]
    if a.fields.get('node') is None or b.fields.get('node') is None:
        return False
    return h.truth(a, b)


def tree(k, start):
    def make(it):
        h = Grove(it, [])
        names = ['R%d' % i for i in range(k)]
        signs = [it.choose(2, '%s is a hole' % x) for x in names]
        rs = []
        for x, hole in zip(names, signs):
            r = h.plain(x, None, bool(hole), listed=start == 'roots')
            rs.append(r)
        for i in range(k - 1):
            assume(it, it.sym('aR%d' % i) - it.sym('aR%d' % (i + 1)), {1})
        if start == 'chain':       # all under one another, from the smallest
            h.manager.fields['children'].items.append(rs[-1])
            for a, b in zip(rs[::-1], rs[::-1][1:]):
                a.fields['children'].items.append(b)
                b.fields['parent'] = a
        elif start == 'removed':   # left behind by a removed contour
            gone = h.plain('gone', None, False, listed=False)
            gone.fields.update(node=None, _area=NAN, _is_hole=False,
                               _size=n(0), box=h.box('0'))
            for r in rs:
                r.fields['parent'] = gone
        order = list(rs)
        if it.choose(2, 'listed order'):
            order.reverse()
        extra = [r for r in h.rings if r not in rs]
        h.manager.fields['rings'] = ListV(order[:1] + extra + order[1:])
        small = it.choose(3, 'degenerate') if k < 4 else 0
        if small:
            d = h.plain('thin', None, False)
            if small == 1:
                d.fields['_area'] = n(0)
                d.fields['_is_hole'] = True
            else:
                d.fields['_size'] = n(2)
                d.fields['_area'] = n(0)
                d.fields['_is_hole'] = True
            h.manager.fields['rings'].items.insert(0, d)
        memo = {}

        def truth(a, b):
            key = a.label, b.label
            i, j = names.index(a.label), names.index(b.label)
            if i <= j:
                return False
            if key not in memo:
                memo[key] = bool(it.choose(2, '%s inside %s' % key))
            return memo[key]
        h.truth = truth
        want, error = {}, False

        def action():
            return meth(it, h.manager, 'correct_tree')
        s = Nest(h, action, None, error='see below')

        def judge():
            f = h.listed(False)
            if f:
                return f
            fault = None
            for i, x in enumerate(names):
                up = None
                for j in range(i - 1, -1, -1):
                    if signs[j] != signs[i] and memo.get((x, names[j]),
                                                         None) is not False:
                        if (x, names[j]) not in memo:
                            return 'whether %s lies in %s is never asked' % (
                                x, names[j])
                        up = names[j]
                        break
                if up is None and signs[i]:
                    return 'the hole %s without a container is accepted' % x
                got = label(rs[i].fields['parent'])
                if got != up:
                    return '%s is put under %s instead of %s' % (
                        x, got or 'no contour', up or 'no contour')
                if it.getattr(rs[i], 'node') is None:
                    return '%s is removed' % x
            for r in h.live():
                if r not in rs:
                    return 'the degenerate contour remains'
            return fault
        s.judge = judge

        def due():
            """Whether an error was right."""
            for i, x in enumerate(names):
                if not signs[i]:
                    continue
                ups = [memo.get((x, names[j])) for j in range(i)
                       if signs[j] != signs[i]]
                if all(u is False for u in ups):
                    return True
            return False
        s.due = due
        return s
    return make


def trees(thorough):
    for k in range(1, 5 if thorough else 4):
        for start in ('roots', 'chain', 'removed'):
            yield Case('rebuilding the tree of %d contours, %s'
                       % (k, {'roots': 'all roots', 'chain': 'wrongly nested',
                              'removed': 'left by a removed one'}[start]),
                       tree(k, start),
                       ['RingManager.correct_tree', 'Ring.inside_of'],
                       dict(EXACT, **{'Ring.inside_of': ancestor_stub}),
                       topics='fgn', max_paths=60000)


# -- contours split off later ------------------------------------------------
def truths(size):
    """All rooted forests of the size as parent tuples (parents first)."""
    def rec(ps):
        if len(ps) == size:
            yield tuple(ps)
            return
        for p in range(-1, len(ps)):
            yield from rec(ps + [p])
    yield from rec([])


def depth(ps, i):
    d = 0
    while ps[i] >= 0:
        i, d = ps[i], d + 1
    return d


def above(ps, i, j):
    """j is an ancestor of i."""
    while ps[i] >= 0:
        i = ps[i]
        if i == j:
            return True
    return False


def newcomers(ps, o, new):
    """Contours ``new`` were split off ``o``; ps is the true nesting."""
    names = ['R%d' % i for i in range(len(ps))]

    def before(i):
        p = ps[i]
        if p in new:
            same = depth(ps, p) % 2 == depth(ps, o) % 2
            return o if same else ps[o]
        return p

    def make(it):
        h = Grove(it, [])
        rs = {}
        for i in range(len(ps)):
            rs[i] = h.plain(names[i], None, depth(ps, i) % 2 == 1,
                            listed=False)
        for i, p in enumerate(ps):
            if p >= 0:
                assume(it, it.sym('aR%d' % p) - it.sym('aR%d' % i), {1})
            if i in new:
                # the contour split keeps the largest part
                assume(it, it.sym('aR%d' % o) - it.sym('aR%d' % i), {0, 1})
                continue
            b = before(i)
            rs[i].fields['parent'] = rs.get(b)
            (rs[b] if b >= 0 else h.manager).fields['children'].items.append(
                rs[i])
        if it.choose(2, 'gaps'):
            for w in [h.manager] + list(rs.values()):
                w.fields['children'].items.insert(0, None)
        h.truth = lambda a, b: above(ps, names.index(a.label),
                                     names.index(b.label))
        given = [rs[i] for i in new]
        if it.choose(2, 'order'):
            given.reverse()
        want = {names[i]: names[p] if p >= 0 else None
                for i, p in enumerate(ps)}
        return Nest(h, lambda: meth(it, h.manager, 'assign_new_ring_parents',
                                    rs[o], ListV(given)), want)
    return make


def sane(ps, o, new):
    """Only nestings that a split can lead to: contours other than the new
    ones were correctly nested before, the new ones stay within reach."""
    for i in new:
        if above(ps, o, i):
            return False      # the split contour keeps the largest part
        same = depth(ps, i) % 2 == depth(ps, o) % 2
        if same:
            # beside it, inside one of its holes, or of another new one
            p = ps[i]
            if len(new) == 1 and p != ps[o]:
                return False  # they share a vertex and nothing is between
            if p != ps[o] and not above(ps, i, o) and p not in new:
                return False
        elif ps[i] != o and ps[i] not in new:
            return False
    return True


def later(thorough):
    top = 6 if thorough else 5
    for size in range(2, top + 1):
        for count in (1, 2) if size < 6 else (2,):
            cases = []
            for ps in truths(size):
                for o in range(size):
                    for a in range(size):
                        for b in range(a + 1, size) if count == 2 else (a,):
                            new = (a, b) if count == 2 else (a,)
                            if o in new or not sane(ps, o, new):
                                continue
                            cases.append((ps, o, new))
            if not cases:
                continue
            parts = 8 if len(cases) > 60 else 1
            for part in range(parts):
                sub = cases[part::parts]

                def make(it, sub=sub):
                    c = pick(it, sub, 'nesting')
                    return newcomers(*c)(it)
                yield Case('%d contours split off among %d, part %d'
                           % (count, size, part), make,
                           ['RingManager.assign_new_ring_parents',
                            'Ring.inside_of'],
                           dict(EXACT, **{'Ring.inside_of':
                                             ancestor_stub}),
                           topics='fn', max_paths=100000)


def steps(thorough):
    yield from basic(thorough)
    yield from trees(thorough)
    yield from later(thorough)


def nested(it, s):
    return s.judge()


def register(ctx, rule, topic, judge, cases):
    for c in cases:
        if topic not in c.topics:
            continue

        def run(it, c=c):
            s = c.make(it)
            if not s.go():
                return None
            return judge(it, s)
        ctx.table(rule, c.name, run, c.stubs, anchors=c.anchors,
                  loops=c.loops, max_paths=c.max_paths)
