"""Containment tests classify every relative position."""
from wv.absint import EnumV, Infeasible
from wv.build import EXACT, call, enum, link, meth, n, node, obj, point


def place(it, name, y=False):
    """An offset of either sign or none."""
    s = (0, 1, -1)[it.choose(3, 'side of ' + name)]
    return s, n(s) * it.sym(name, 1, None, True) if s else n(0)


def segment(it, a, b):
    """'on', True (the ray to the right crosses it) or False."""
    (su, u), (sv, v) = a
    (sx, x), (sy, y) = b
    if sv == sy == 0:
        return 'on' if su * sx <= 0 else False
    if sv == su == 0 or sx == sy == 0:
        return 'on'
    if (sv < 0) is (sy < 0):
        return False
    if sv * sy == 0:
        # touches the height at one end only
        return (su if sv == 0 else sx) > 0
    if su >= 0 and sx >= 0 and su + sx:
        return True
    if su <= 0 and sx <= 0 and su + sx:
        return False
    if su == sx == 0:
        return 'on'
    c = u * y - x * v
    s = it.sign(c)
    if s == 0:
        return 'on'
    return (s > 0) is (sy > 0)


def inside(size):
    def run(it):
        px, py = it.sym('px', integer=True), it.sym('py', integer=True)
        offs = []
        for i in range(size):
            offs.append((place(it, 'u%d' % i), place(it, 'v%d' % i)))
        nodes = link([node(it, px + u[1], py + v[1], 'vertex%d' % i)
                      for i, (u, v) in enumerate(offs)])
        got = call(it, 'point_in_polygon', point(it, px, py), nodes[0])
        segs = [segment(it, a, b) for a, b in zip(offs, offs[1:] + offs[:1])]
        if 'on' in segs:
            want = 'ON'
        else:
            want = 'INSIDE' if sum(segs) % 2 else 'OUTSIDE'
        if not isinstance(got, EnumV) or got.name != want:
            return 'a point %s is classified as %s' % (want, getattr(
                got, 'name', got))
        return None
    return run


def box(it):
    v = {k: it.sym(k) for k in ('ax', 'ay', 'bx', 'by', 'cx', 'cy', 'dx',
                                'dy')}
    for lo, hi in (('ax', 'bx'), ('ay', 'by'), ('cx', 'dx'), ('cy', 'dy')):
        if not it.sign(v[hi] - v[lo], {0, 1}):
            raise Infeasible()
    first = obj(it, 'Box', 'inner', minimum=point(it, v['ax'], v['ay']),
                maximum=point(it, v['bx'], v['by']))
    other = obj(it, 'Box', 'outer', minimum=point(it, v['cx'], v['cy']),
                maximum=point(it, v['dx'], v['dy']))
    got = it.truth(meth(it, first, 'inside_of', other))
    want = all(it.order('<=', v[a], v[b]) for a, b in (
        ('cx', 'ax'), ('cy', 'ay'), ('bx', 'dx'), ('by', 'dy')))
    return None if got is want else 'a box is reported %s another' % (
        'inside' if got else 'not inside')


def contour(it, name, size):
    r = obj(it, 'Ring', name, box=obj(it, 'Box', 'box of ' + name),
            _area=it.sym('area of ' + name), _is_hole=False)
    nodes = link([node(it, it.sym('%sx%d' % (name, i)),
                       it.sym('%sy%d' % (name, i)),
                       'vertex %d of %s' % (i, name), r)
                  for i in range(size)])
    r.fields['node'] = nodes[0]
    return r, nodes


def rings(it):
    size = it.choose(3, 'vertices') + 1
    a, na = contour(it, 'inner', size)
    b, nb = contour(it, 'outer', 2)
    answer = ('INSIDE', 'OUTSIDE')[it.choose(2, 'answer off the border')]
    border = [bool(it.choose(2, 'vertex %d on the border' % i))
              for i in range(size)]
    special = ('INSIDE', 'OUTSIDE', 'ON')[
        it.choose(3, 'answer of an inner point')] if all(border) else None
    fits = bool(it.choose(2, 'box fits'))
    it.wrong = None

    def boxes(it, args, bound):
        if args[0] is not it.getattr(a, 'box') or \
                args[1] is not it.getattr(b, 'box'):
            it.wrong = 'the boxes are mixed up'
        return fits

    def where(it, args, bound):
        p, q = args[:2]
        at = [i for i, v in enumerate(na) if v is p]
        if not at or not any(q is v for v in nb):
            it.wrong = 'vertices of the wrong contour are tested'
            return enum(it, 'PointInPolygonResult', 'ON')
        return enum(it, 'PointInPolygonResult',
                    'ON' if border[at[0]] else answer)

    def inner(it, args, bound):
        if not any(args[0] is v for v in na) or not any(args[1] is v
                                                        for v in nb):
            it.wrong = 'the contours are mixed up'
        if special is None:
            it.wrong = 'vertices off the border are ignored'
            return enum(it, 'PointInPolygonResult', 'ON')
        return enum(it, 'PointInPolygonResult', special)
    it.stubs.update({'Box.inside_of': boxes, 'point_in_polygon': where,
                     'inside_or_outside_special': inner})
    got = it.truth(meth(it, a, 'inside_of', b))
    if it.wrong:
        return it.wrong
    areas = [it.getattr(r, '_area') for r in (a, b)]
    absol = [-v if it.sign(v, {-1}) else v for v in areas]
    want = fits and not it.order('<', absol[1], absol[0]) and (
        special or answer) == 'INSIDE'
    if got is not want:
        return 'a contour is reported %s another (box %s, answer %s)' % (
            'inside' if got else 'not inside', fits, special or answer)
    return None


def inner_point(it):
    size = it.choose(3, 'vertices') + 1
    a, na = contour(it, 'inner', size)
    b, nb = contour(it, 'outer', 2)
    convex = [bool(it.choose(2, 'corner %d is convex' % i))
              for i in range(size)]
    within = [it.choose(3, 'middle of corner %d' % i) if c else None
              for i, c in enumerate(convex)]
    answer = enum(it, 'PointInPolygonResult', ('INSIDE', 'OUTSIDE', 'ON')[
        it.choose(3, 'answer')])
    mids = [point(it, it.sym('mx%d' % i), it.sym('my%d' % i))
            for i in range(size)]
    it.wrong = None

    def index(v):
        return next((i for i, w in enumerate(na) if w is v), None)

    def is_convex(it, args, bound):
        return convex[index(args[0])]

    def middle(it, args, bound):
        return mids[index(args[0])]

    def where(it, args, bound):
        i = next((i for i, m in enumerate(mids) if m is args[0]), None)
        if i is None:
            it.wrong = 'another point than the middle of a corner is tested'
            return answer
        if any(args[1] is v for v in nb):
            if not convex[i] or within[i] != 0:
                it.wrong = 'a point outside of the contour is tested'
            return answer
        if not any(args[1] is v for v in na):
            it.wrong = 'another contour is tested'
        return enum(it, 'PointInPolygonResult', (
            'INSIDE', 'OUTSIDE', 'ON')[within[i] or 0])
    it.stubs.update({'is_convex': is_convex, 'points_centroid': middle,
                     'point_in_polygon': where})
    usable = any(c and w == 0 for c, w in zip(convex, within))
    from wv.absint import PyRaise
    try:
        got = call(it, 'inside_or_outside_special', na[0], nb[0])
    except PyRaise as e:
        if usable:
            return 'no inner point is found though there is one'
        return None
    if it.wrong:
        return it.wrong
    if not usable:
        return 'an inner point is found though there is none'
    return None if got is answer else 'the answer for an inner point is lost'


def corner(it):
    r = obj(it, 'Ring', 'contour', _area=it.sym('area'), _is_hole=False)
    v = [(it.sym('x%d' % i), it.sym('y%d' % i)) for i in range(3)]
    nodes = link([node(it, x, y, 'vertex%d' % i, r)
                  for i, (x, y) in enumerate(v)])
    got = it.truth(call(it, 'is_convex', nodes[1]))
    (ax, ay), (bx, by), (cx, cy) = v
    # areas are negative for a positive turn (heights grow downwards)
    turn = it.sign((bx - ax) * (cy - by) - (cx - bx) * (by - ay))
    area = it.sign(it.getattr(r, '_area'))
    want = turn * area < 0
    return None if got is want else 'a corner is reported %s' % (
        'convex' if got else 'not convex')


def middle(it):
    v = [(it.sym('x%d' % i), it.sym('y%d' % i)) for i in range(3)]
    nodes = link([node(it, x, y, 'vertex%d' % i)
                  for i, (x, y) in enumerate(v)])
    got = call(it, 'points_centroid', nodes[1])
    for k, axis in ((0, 'x'), (1, 'y')):
        want = (v[0][k] + v[1][k] + v[2][k]).div(n(3))
        if not it.eq(it.getattr(got, axis), want):
            return 'the middle of a corner is wrong'
    return None


def build(ctx):
    ctx.rule('point', 'a point is on the border if it is on a side, else '
             'inside if a ray from it crosses an odd number of sides')
    ctx.assume('point: products of coordinates are exact')
    for size in range(1, 5 if ctx.thorough else 4):
        ctx.table('point', 'contours of %d vertices' % size, inside(size),
                  EXACT, anchors=['point_in_polygon'], max_paths=400000)
    ctx.rule('box', 'a box is inside another if it is on every side')
    ctx.table('box', 'Box.inside_of', box, EXACT, anchors=['Box.inside_of'])
    ctx.rule('contour', 'a contour is inside another only if box and area '
             'fit and its first vertex off the border is inside, or a point '
             'within it if all are on the border')
    ctx.assume('contour: contours do not cross, so that all vertices off the '
               'border are on one side')
    ctx.table('contour', 'Ring.inside_of', rings, EXACT, anchors=[
        'Ring.inside_of', 'Box.inside_of', 'point_in_polygon',
        'inside_or_outside_special'])
    ctx.rule('within', 'the point within a contour is the middle of a convex '
             'corner that is inside it')
    ctx.table('within', 'inside_or_outside_special', inner_point, EXACT,
              anchors=['inside_or_outside_special', 'is_convex',
                       'points_centroid', 'point_in_polygon'])
    ctx.rule('corner', 'a corner is convex if it turns as the contour does')
    ctx.table('corner', 'is_convex', corner, EXACT, anchors=['is_convex'])
    ctx.table('corner', 'points_centroid', middle, EXACT,
              anchors=['points_centroid'])
