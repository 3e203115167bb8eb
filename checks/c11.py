"""Assembly of the result from the forest of contours."""
from wv.absint import ListV, ObjV
from wv.build import link, meth, node, obj, call, new


def forests(size):
    """Ordered forests as nested tuples."""
    if size == 0:
        yield ()
        return
    for first in range(1, size + 1):
        for kids in forests(first - 1):
            for rest in forests(size - first):
                yield (kids,) + rest


class Forest:
    def __init__(self, it, shape, holes, corners=3):
        self.it, self.corners, self.rings = it, corners, []
        self.roots = self.make(shape, None, 0, '', holes)

    def make(self, shape, parent, depth, path, holes):
        out = []
        for i, kids in enumerate(shape):
            name = '%s%d' % (path, i)
            it = self.it
            ring = obj(it, 'Ring', 'contour' + name, parent=parent,
                       corrected=False, bottom_node=None,
                       index=it.sym('i' + name))
            nodes = link([node(it, it.sym('x%s_%d' % (name, k)),
                               it.sym('y%s_%d' % (name, k)),
                               'vertex%s_%d' % (name, k), ring)
                          for k in range(self.corners)])
            ring.fields['node'] = nodes[0]
            self.rings.append((name, depth, ring, nodes))
            ring.fields['children'] = self.make(kids, ring, depth + 1,
                                                name, holes)
            out.append(ring)
        if holes == 'front':
            out = [None] + out
        elif holes == 'back':
            out = out + [None]
        elif holes == 'between':
            out = [x for r in out for x in (None, r, None)]
        return ListV(out)


def corner(it, p):
    x, y = it.getattr(p, 'x'), it.getattr(p, 'y')
    return repr(x), repr(y)


def read(it, result):
    """Polygons of a result as lists of lists of corners."""
    return [[[corner(it, p) for p in it.iterate(ring)]
             for ring in it.iterate(polygon)]
            for polygon in it.iterate(result)]


def judge(it, forest, got, flip):
    known = {}
    for name, depth, ring, nodes in forest.rings:
        for k, nd in enumerate(nodes):
            known[corner(it, nd)] = (name, k)
    depth_of = {name: depth for name, depth, _, _ in forest.rings}
    seen = []
    for polygon in got:
        if not polygon:
            return 'an empty polygon is returned'
        names = []
        for ring in polygon:
            if not ring:
                return 'an empty ring is returned'
            if any(c not in known for c in ring):
                return 'a vertex of no contour is returned'
            owner = {known[c][0] for c in ring}
            if len(owner) > 1:
                return 'a ring mixes the vertices of contours %s' % sorted(
                    owner)
            name = owner.pop()
            order = [known[c][1] for c in ring]
            if len(order) < 2 or order[0] != order[-1]:
                return 'the ring of contour %s is not closed' % name
            order = order[:-1]
            if sorted(order) != list(range(forest.corners)):
                return ('the ring of contour %s has corners %s instead of '
                        'each once' % (name, order))
            step = (order[1] - order[0]) % forest.corners
            want = 1 if flip else forest.corners - 1
            if any((b - a) % forest.corners != want for a, b in
                   zip(order, order[1:])):
                return ('the ring of contour %s runs %s although the flag is '
                        '%s' % (name, 'forwards' if step == 1 else
                                'backwards', flip))
            names.append(name)
        border, holes = names[0], names[1:]
        if depth_of[border] % 2:
            return 'the hole %s is returned as a border' % border
        for h in holes:
            if h[:-1] != border:
                return ('contour %s is returned as a hole of %s'
                        % (h, border))
        want = [name for name in depth_of if name[:-1] == border]
        if sorted(holes) != sorted(want):
            return 'contour %s has holes %s, %s are returned' % (
                border, want, holes)
        seen.append(border)
    want = sorted(n for n, d in depth_of.items() if not d % 2)
    if sorted(seen) != want:
        return 'borders %s are returned, %s exist' % (sorted(seen), want)
    return None


def entries(it, forest, flip, how):
    if how == 'RingManager.build_result':
        return meth(it, obj(it, 'RingManager', 'manager',
                            children=forest.roots), 'build_result', flip)
    if how == 'Multipolygon.from_rings':
        return call_class(it, 'Multipolygon', 'from_rings', forest.roots,
                          flip)
    o = new(it, 'Multipolygon', ListV([]))
    meth(it, o, 'extend', forest.roots, flip)
    return o


def call_class(it, cls, name, *args):
    from wv.absint import ClassV
    return it.call(it.getattr(ClassV(it.p.need_class(cls)), name),
                   list(args), {})


def build(ctx):
    ctx.rule('assembly', 'every contour at an even level is a border followed '
             'by exactly its direct holes, every ring is closed and holds '
             'each vertex once, in the direction the flag asks for')
    ctx.assume('forests of at most %d contours and nesting depth %d, three '
               'or four vertices each' % ((6, 6) if ctx.thorough else (5, 5)))
    for how in ('RingManager.build_result', 'Multipolygon.from_rings',
                'Multipolygon.extend'):
        top = (6 if ctx.thorough else 5) if how.startswith('R') else 3
        for size in range(top + 1):
            for shape in forests(size):
                for holes in ('none', 'front', 'back', 'between'):
                    if size > 4 and holes not in ('none', 'between'):
                        continue

                    def run(it, shape=shape, holes=holes, how=how):
                        flip = bool(it.choose(2, 'reverse flag'))
                        f = Forest(it, shape, holes,
                                   4 if len(shape) == 1 else 3)
                        before = state(it, f)
                        got = read(it, entries(it, f, flip, how))
                        if state(it, f) != before:
                            return 'assembling changes a contour'
                        return judge(it, f, got, flip)
                    ctx.table('assembly', '%s of %s, gaps %s' % (
                        how, shape, holes), run, anchors=[how])

    def empty(it):
        f = Forest(it, (), 'none')
        r = entries(it, f, True, 'RingManager.build_result')
        if not isinstance(r, ObjV) or r.cls.name != 'Multipolygon':
            return 'no multipolygon is returned'
    ctx.table('assembly', 'kind of the result', empty,
              anchors=['RingManager.build_result'])


def state(it, f):
    out = []
    for name, depth, ring, nodes in f.rings:
        out.append((name, id(ring.fields['node']),
                    id(ring.fields['parent']),
                    [id(c) for c in ring.fields['children'].items],
                    [(id(n), id(n.fields['next']), id(n.fields['prev']),
                      repr(n.fields['x']), repr(n.fields['y']),
                      id(n.fields['ring'])) for n in nodes]))
    return out, [id(c) for c in f.roots.items]
