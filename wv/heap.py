"""Small abstract heaps of contours: construction, invariants, effects.

Positions are equality classes: class k stands for one unknown point, two
classes for two different ones.  Areas, sizes and boxes reported by
``PointNode.stats`` are unknowns attached to the circle of vertices."""
from fractions import Fraction

from .absint import Infeasible, ListV, ObjV, PyRaise, Unsupported
from .build import circle_fault, n, obj, walk
from .num import NAN, Num


def distinct(it, a, b):
    """Assumes two numbers to differ."""
    d = a - b
    if d.is_const:
        return
    poly = d.n
    lead = max(poly)
    flip = poly[lead] < 0
    scale = abs(poly[lead])
    key = tuple(sorted((m, (c / scale) * (-1 if flip else 1))
                       for m, c in poly.items()))
    it.signs[key] = {-1, 1}


class Heap:
    """A manager with contours."""

    def __init__(self, it, **fields):
        self.it = it
        self.classes = {}
        self.rings, self.nodes = [], []
        f = dict(children=ListV([]), rings=ListV([]), nodes=ListV([]),
                 all_nodes=ListV([]), storage=ListV([]),
                 hot_pixels=ListV([]), _current_hot_pixel_index=None,
                 index=n(100))
        f.update(fields)
        self.manager = obj(it, 'RingManager', 'manager', **f)
        self.areas = {}
        it.heap = self

    def at(self, k):
        it = self.it
        if k not in self.classes:
            p = it.sym('X%s' % k), it.sym('Y%s' % k)
            for q in self.classes.values():
                distinct(it, p[0], q[0])
                distinct(it, p[1], q[1])
            self.classes[k] = p
        return self.classes[k]

    def node(self, k, label=None, ring=None):
        x, y = self.at(k)
        o = obj(self.it, 'PointNode', label or 'v%d' % len(self.nodes), x=x,
                y=y, ring=ring, next=None, prev=None)
        o.place = k
        self.nodes.append(o)
        self.manager.fields['nodes'].items.append(o)
        self.manager.fields['all_nodes'].items.append(o)
        return o

    def ring(self, places, label=None, parent=None, listed=True, stats='set',
             hole=None, **fields):
        """A contour with vertices at the given places."""
        it = self.it
        label = label or 'contour%d' % len(self.rings)
        r = obj(it, 'Ring', label, parent=parent, children=ListV([]),
                index=n(len(self.rings)), bottom_node=None, corrected=False,
                node=None)
        ns = [self.node(k, '%s.%d' % (label, i), r)
              for i, k in enumerate(places)]
        for a, b in zip(ns, ns[1:] + ns[:1]):
            a.fields['next'], b.fields['prev'] = b, a
        r.fields['node'] = ns[0] if ns else None
        r.verts = ns
        self.rings.append(r)
        self.manager.fields['rings'].items.append(r)
        if listed:
            (self.manager if parent is None else
             parent).fields['children'].items.append(r)
        if stats == 'set' and ns:
            area, size, box = self.stats(ns[0])
            if hole is not None:
                if not it.sign(area, {-1 if hole else 1}):
                    raise Infeasible()
            r.fields.update(_area=area, _size=size, box=box,
                            _is_hole=it.sign(area, {0, -1})
                            if hole is None else hole)
        elif stats != 'none':
            r.fields.update(_area=NAN, _size=n(0), box=self.box('0'),
                            _is_hole=False)
        r.fields.update(fields)
        return r

    def box(self, label):
        it = self.it
        z = [it.sym('%s%s' % (w, label)) for w in
             ('bx0_', 'by0_', 'bx1_', 'by1_')] if label != '0' else \
            [n(0)] * 4
        return obj(it, 'Box', 'box of ' + label,
                   minimum=obj(it, 'Point', x=z[0], y=z[1]),
                   maximum=obj(it, 'Point', x=z[2], y=z[3]))

    def stats(self, start):
        """What the statistics of the circle through a vertex are."""
        it = self.it
        c = walk(it, start)
        if c is None:
            raise PyRaise('AttributeError', where='statistics of a broken '
                          'circle')
        area = n(0)
        places = [self.place(v) for v in c]
        for a, b in zip(places, places[1:] + places[:1]):
            if a < b:
                area = area + it.sym('A%s_%s' % (a, b))
            elif b < a:
                area = area - it.sym('A%s_%s' % (b, a))
        return area, n(len(c)), self.box('_'.join(
            str(k) for k in sorted(set(places))))

    # -- invariants -------------------------------------------------------
    def live(self):
        it = self.it
        return [r for r in self.all_rings()
                if it.getattr(r, 'node') is not None]

    def all_rings(self):
        return [r for r in self.manager.fields['rings'].items]

    def all_vertices(self):
        out = list(self.nodes)
        for r in self.manager.fields['all_nodes'].items:
            if isinstance(r, ObjV) and r not in out:
                out.append(r)
        return out

    def circles(self, owned=True, only=None):
        """Every live contour is a two-way circle of vertices that belong to
        it, no vertex is on two."""
        it = self.it
        seen = {}
        for r in self.live():
            if only is not None and r not in only:
                continue
            start = it.getattr(r, 'node')
            if not isinstance(start, ObjV):
                return '%s has no vertex' % r.label
            f = circle_fault(it, start)
            if f:
                return '%s: %s' % (r.label, f)
            for v in walk(it, start):
                if id(v) in seen:
                    return 'vertex %s is on %s and on %s' % (
                        v.label, seen[id(v)].label, r.label)
                seen[id(v)] = r
        return None

    def owners(self):
        it = self.it
        seen = {}
        for r in self.live():
            for v in walk(it, it.getattr(r, 'node')) or ():
                seen[id(v)] = r
                own = it.getattr(v, 'ring')
                if own is not r:
                    return 'vertex %s of %s is marked as of %s' % (
                        v.label, r.label,
                        own.label if isinstance(own, ObjV) else own)
        for v in self.all_vertices():
            if id(v) not in seen and it.getattr(v, 'ring') is not None:
                return 'vertex %s is on no contour but marked as of %s' % (
                    v.label, it.getattr(v, 'ring').label)
        return None

    def listed(self, new_ok=True):
        """None or what is wrong with parents and lists of children."""
        it = self.it
        where = {}

        def scan(owner, lst):
            if not isinstance(lst, ListV):
                raise Unsupported('list of children')
            for c in lst.items:
                if c is None:
                    continue
                where.setdefault(id(c), []).append(owner)
        scan(None, it.getattr(self.manager, 'children'))
        for r in self.all_rings():
            scan(r, it.getattr(r, 'children'))
        for r in self.all_rings():
            at = where.get(id(r), [])
            name = lambda o: 'the roots' if o is None else o.label  # noqa
            if it.getattr(r, 'node') is None:
                if at:
                    return 'the removed %s stays listed under %s' % (
                        r.label, name(at[0]))
                continue
            parent = it.getattr(r, 'parent')
            if not at and r not in self.rings and parent is None \
                    and new_ok and not it.getattr(r, 'children').items:
                continue
            if not at and new_ok and isinstance(parent, ObjV) \
                    and it.getattr(parent, 'node') is None:
                continue     # waits for the tree to be rebuilt
            if len(at) != 1:
                return '%s is listed %d times' % (r.label, len(at))
            if at[0] is not parent:
                return '%s is listed under %s, its parent is %s' % (
                    r.label, name(at[0]), name(parent))
            seen = []
            cur = r
            while cur is not None:
                if any(cur is s for s in seen):
                    return '%s is its own ancestor' % r.label
                seen.append(cur)
                cur = it.getattr(cur, 'parent')
        return None

    def fresh(self, counts=True):
        """Cached measurements are unset or those of the current circle."""
        it = self.it
        for r in self.live():
            f = r.fields
            a = f['_area']
            if a is NAN or getattr(a, 'kind', None) == 'nan':
                continue
            area, size, box = self.stats(f['node'])
            if not it.eq(a, area):
                return 'the area of %s is not that of its vertices' % r.label
            if counts and not it.eq(f['_size'], size):
                return 'the vertex count of %s is stale' % r.label
            if not it.eq(f['box'], box):
                return 'the box of %s is not that of its vertices' % r.label
            if it.truth(f['_is_hole']) is not it.sign(area, {0, -1}):
                return 'the orientation of %s is stale' % r.label
        return None

    def chain(self, rings=None):
        """The signed directed boundary pieces, cancelled."""
        it = self.it
        out = {}
        for r in (self.live() if rings is None else rings):
            vs = walk(it, it.getattr(r, 'node'))
            if vs is None:
                return None
            for v in vs:
                a, b = self.place(v), self.place(it.getattr(v, 'next'))
                if a == b:
                    continue
                k, s = ((a, b), 1) if a < b else ((b, a), -1)
                out[k] = out.get(k, 0) + s
        return {k: v for k, v in out.items() if v}

    def place(self, v):
        if hasattr(v, 'place'):
            return v.place
        x, y = self.it.getattr(v, 'x'), self.it.getattr(v, 'y')
        for k, (a, b) in self.classes.items():
            if repr(a) == repr(x) and repr(b) == repr(y):
                return k
        raise Unsupported('a vertex at an unknown place')


def stats_stub(it, args, bound):
    return it.heap.stats(args[0])


STATS = {'PointNode.stats': stats_stub}


def partitions(size, same=()):
    """Restricted growth strings of the size with the given index pairs at
    the same place."""
    def rec(prefix, top):
        if len(prefix) == size:
            if all(prefix[i] == prefix[j] for i, j in same):
                yield tuple(prefix)
            return
        for k in range(top + 1):
            yield from rec(prefix + [k], max(top, k + 1))
    yield from rec([], 0)
