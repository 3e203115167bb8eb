"""Edge geometry formulas are exact."""
import ast
from fractions import Fraction

from wv.absint import Infeasible
from wv.build import EXACT, call, meth, n, new, point
from wv.num import INF

HALF = n(Fraction(1, 2))


def xy(it, p):
    return it.getattr(p, 'x'), it.getattr(p, 'y')


def at(it, p, x, y):
    a, b = xy(it, p)
    return it.eq(a, x) and it.eq(b, y)


def ends(it, name, integer=True):
    return [it.sym(name + k, integer=integer) for k in
            ('x0', 'y0', 'x1', 'y1')]


def assume(it, num, signs):
    if not it.sign(num, set(signs)):
        raise Infeasible()


def shaped(it, shape, name=''):
    """An edge made by the constructor and its lower and upper ends.
    shape: sign of the horizontal way from the lower to the upper end, or
    'flat'."""
    bx, by, tx, ty = ends(it, name)
    if shape == 'flat':
        ty = by
        assume(it, tx - bx, {-1, 1})
    else:
        assume(it, by - ty, {1})
        if shape == 0:
            tx = bx
        assume(it, tx - bx, {shape})
    e = new(it, 'Edge', point(it, bx, by), point(it, tx, ty))
    return e, bx, by, tx, ty


def built(it):
    x0, y0, x1, y1 = ends(it, '')
    p, q = point(it, x0, y0, 'first'), point(it, x1, y1, 'second')
    e = new(it, 'Edge', p, q)
    b, t = it.getattr(e, 'bottom'), it.getattr(e, 'top')
    if not (at(it, p, x0, y0) and at(it, q, x1, y1)):
        return 'the points given are changed'
    bx, by = xy(it, b)
    tx, ty = xy(it, t)
    forth = it.eq(bx, x0) and it.eq(by, y0) and it.eq(tx, x1) and it.eq(
        ty, y1)
    back = it.eq(bx, x1) and it.eq(by, y1) and it.eq(tx, x0) and it.eq(
        ty, y0)
    if not forth and not back:
        return 'the ends are not those given'
    if it.order('<', by, ty):
        return 'the lower end is above the upper one'
    flat = it.eq(y0, y1)
    if flat and not forth:
        return 'a flat edge is reversed'
    if it.truth(it.getattr(e, 'is_horizontal')) is not flat:
        return 'horizontality is wrong'
    m = it.getattr(e, 'slope')
    if not flat:
        want = (x1 - x0).div(y1 - y0)
        if m is INF or not it.eq(m, want):
            return 'the slope is not the horizontal way over the vertical ' \
                'one'
    return None


def position(it):
    shape = (-1, 0, 1, 'flat')[it.choose(4, 'shape')]
    e, bx, by, tx, ty = shaped(it, shape)
    where = it.choose(3 if shape != 'flat' else 1, 'top, bottom or between')
    y = (ty, by, it.sym('y'))[where]
    got = meth(it, e, 'get_current_x', y)
    want = (tx, bx, None)[where]
    if want is None:
        assume(it, by - y, {1})
        assume(it, y - ty, {1})
        want = bx + (tx - bx) * (y - by).div(ty - by)
    if not it.eq(got, want):
        return 'the position at %s is %r instead of %r' % (
            ('the upper end', 'the lower end', 'a height between')[where],
            got, want)
    return None


def spans(it):
    shape = (-1, 0, 1, 'flat')[it.choose(4, 'shape')]
    e, bx, by, tx, ty = shaped(it, shape)
    where = it.choose(3, 'top, bottom or between')
    y = (ty, by, it.sym('y', integer=True))[where]
    if where == 2:
        if shape == 'flat':
            y = by
        else:
            assume(it, by - y, {1})
            assume(it, y - ty, {1})
    for name, way in (('get_min_x', -1), ('get_max_x', 1)):
        it.used = []
        got = meth(it, e, name, y)
        if shape == 'flat':
            lo = it.order('<', bx, tx)
            want = {bx if lo is (way < 0) else tx}
        else:
            # the end of the pixel row the edge leaves towards that side
            # heights fall towards the upper end; its horizontal way is
            # ``shape``
            to_top = shape == way
            end, ex = (ty, tx) if to_top else (by, bx)
            shift = -HALF if to_top else HALF
            raw = bx + (tx - bx) * (y - by + shift).div(ty - by)
            if shape == 0:
                want = {bx, rounded(it, bx, way)}
            elif y is end:
                want = {ex}
            else:
                want = {rounded(it, raw, way)}
        if not any(it.eq(got, w) for w in want):
            return '%s of an edge going %s at %s is %r instead of %r' % (
                name, shape, ('the upper end', 'the lower end',
                              'a height between')[where], got, want)
    return None


def rounded(it, v, way):
    return it.sym('rounded %s %r' % ('down' if way < 0 else 'up', v))


def meet(it):
    a = ends(it, 'a', False)
    b = ends(it, 'b', False)
    for v in (a, b):
        assume(it, v[1] - v[3], {1} if not it.choose(2, 'flat') else {0})
    e = new(it, 'Edge', point(it, *a[:2]), point(it, *a[2:]))
    f = new(it, 'Edge', point(it, *b[:2]), point(it, *b[2:]))
    r = it.binop(ast.BitAnd(), e, f)
    rx, ry, qx, qy = a[2] - a[0], a[3] - a[1], b[2] - b[0], b[3] - b[1]
    den = rx * qy - qx * ry
    if it.sign(den, {0}):
        return None if r is None else 'parallel edges meet'
    cx, cy = b[0] - a[0], b[1] - a[1]
    s = (cx * qy - cy * qx).div(den)
    t = (cx * ry - cy * rx).div(den)
    one = n(1)
    within = all(it.order('<=', n(0), v) and it.order('<=', v, one)
                 for v in (s, t))
    if r is None:
        return 'edges that meet are reported not to' if within else None
    if not within:
        return 'edges that do not meet are reported to'
    x, y = xy(it, r)
    if not it.eq(x, a[0] + s * rx) or not it.eq(y, a[1] + s * ry):
        return 'the meeting point is wrong'
    return None


def parallel(it):
    a, b = ends(it, 'a'), ends(it, 'b')
    e = new(it, 'Edge', point(it, *a[:2]), point(it, *a[2:]))
    f = new(it, 'Edge', point(it, *b[:2]), point(it, *b[2:]))
    got = it.truth(call(it, 'are_edges_slopes_equal', e, f))
    want = it.sign((a[2] - a[0]) * (b[3] - b[1])
                   - (b[2] - b[0]) * (a[3] - a[1]), {0})
    return None if got is want else 'parallel edges are misjudged'


def collinear(it):
    p = [(it.sym('x%d' % i), it.sym('y%d' % i)) for i in range(3)]
    got = it.truth(call(it, 'are_points_slopes_equal', *[
        point(it, x, y) for x, y in p]))
    (ax, ay), (bx, by), (cx, cy) = p
    want = it.sign((bx - ax) * (cy - by) - (cx - bx) * (by - ay), {0})
    return None if got is want else 'collinear points are misjudged'


def between(it):
    """On one line; the middle one is told from the way of the others."""
    ax, ay, dx, dy = [it.sym(k) for k in ('x', 'y', 'dx', 'dy')]
    k = (-1, 0, Fraction(1, 2), 1, 2)[it.choose(5, 'place of the second')]
    if it.sign(dx, {0}):
        dx = n(0)
        if it.sign(dy, {0}):
            return None
    q = point(it, ax + dx * n(k), ay + dy * n(k))
    got = it.truth(call(it, 'is_point_between_others', point(it, ax, ay), q,
                        point(it, ax + dx, ay + dy)))
    return None if got is (0 < k < 1) else 'betweenness is misjudged'


def reverse(it):
    e, bx, by, tx, ty = shaped(it, 'flat')
    p, q = it.getattr(e, 'bottom'), it.getattr(e, 'top')
    meth(it, e, 'reverse_horizontal')
    if not (at(it, it.getattr(e, 'bottom'), tx, by)
            and at(it, it.getattr(e, 'top'), bx, ty)):
        return 'a flat edge is not reversed'
    if not (at(it, p, bx, by) and at(it, q, tx, ty)):
        return 'the former ends are changed in place'
    return None


def rounding(name):
    """Numbers k + f for every integer k."""
    def run(it):
        k = it.sym('k', integer=True)
        f = Fraction(it.choose(8, 'eighths'), 8)
        v = k + n(f)
        got = call(it, name, v)
        if f == Fraction(1, 2):
            if name == 'round_towards_max':
                want = k + n(1)
            elif name == 'round_towards_min':
                want = k
            else:
                want = k if it.sign(v, {-1}) else k + n(1)
        else:
            want = k + n(1 if f > Fraction(1, 2) else 0)
        if not it.eq(got, want):
            return 'k + %s becomes %r' % (f, got)
        return None
    return run


def point_round(it):
    k, m = it.sym('k', integer=True), it.sym('m', integer=True)
    f, g = (Fraction(it.choose(4, 'quarters ' + c), 4) for c in 'xy')
    p = point(it, k + n(f), m + n(g))
    r = meth(it, p, 'round')
    if not at(it, p, k + n(f), m + n(g)):
        return 'the point is changed'
    up = [n(1 if v >= Fraction(1, 2) else 0) for v in (f, g)]
    if not at(it, r, k + up[0], m + up[1]):
        return 'a crossing (k + %s, m + %s) becomes %r' % (f, g, xy(it, r))
    return None


def build(ctx):
    for rid, text, run, anchors, stubs in (
            ('built', 'an edge runs from its lower to its upper end and '
             'knows its slope and whether it is flat', built, ['Edge.__init__'],
             {}),
            ('position', 'the position of an edge at a height is the point '
             'of its line there', position, ['Edge.get_current_x'], {}),
            ('span', 'the pixel span at a height is that of the edge within '
             'half a row, clamped at the ends, rounded outwards on ties',
             spans, ['Edge.get_min_x', 'Edge.get_max_x', 'round_towards_min',
                     'round_towards_max'],
             {'round_towards_min': lambda it, a, b: rounded(it, a[0], -1),
              'round_towards_max': lambda it, a, b: rounded(it, a[0], 1)}),
            ('meet', 'two edges meet in the common point of their lines '
             'exactly when it lies within both, ends included', meet,
             ['Edge.__and__'], {}),
            ('parallel', 'edges have equal slopes exactly when their '
             'directions are multiples', parallel,
             ['are_edges_slopes_equal'], {}),
            ('collinear', 'three points have equal slopes exactly when they '
             'lie on one line', collinear, ['are_points_slopes_equal'], {}),
            ('between', 'a point of a line is between two others exactly '
             'when it is strictly so', between, ['is_point_between_others'],
             {}),
            ('reversed', 'reversing a flat edge swaps its ends into new '
             'points', reverse, ['Edge.reverse_horizontal'], {}),
            ('crossing', 'a crossing is rounded half up in both coordinates',
             point_round, ['Point.round'], {})):
        ctx.rule(rid, text)
        ctx.table(rid, anchors[0], run, dict(EXACT, **stubs),
                  anchors=anchors, max_paths=20000)
    ctx.rule('rounding', 'ties are rounded up, down or away from zero as the '
             'name says, everything else to the nearest integer')
    for name in ('round_towards_max', 'round_towards_min', 'round_half_up'):
        ctx.table('rounding', name, rounding(name), EXACT, anchors=[name])
