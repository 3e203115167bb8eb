"""The bounds enclose exactly the stored geometry."""
from wv.absint import Infeasible, ListV
from wv.build import EXACT, enum, meth, n, new, obj, point


def chain(it, pts, label):
    """Edges through points given from the bottom up."""
    es = [obj(it, 'Edge', 'edge %d of %s' % (i, label), bottom=a, top=b)
          for i, (a, b) in enumerate(zip(pts, pts[1:]))]
    return obj(it, 'Bound', label, edges=ListV(es), polygon_kind=enum(
        it, 'PolygonKind', 'SUBJECT'))


def rising(it, pts):
    for a, b in zip(pts, pts[1:]):
        if not it.sign(it.getattr(a, 'y') - it.getattr(b, 'y'), {0, 1}):
            raise Infeasible()


def fresh(it, p):
    """Another point at the same place: edges do not share their ends."""
    return point(it, it.getattr(p, 'x'), it.getattr(p, 'y'))


def scene(shape, axis):
    """shape: per minimum the inner vertices of its left and right chain;
    minima of one ring share maxima in turn. Only one axis is symbolic, the
    other one follows the chains."""
    def run(it):
        points = []

        def pt(name, level):
            x = it.sym('x ' + name) if axis == 'x' else n(len(points) * 7 % 5)
            y = it.sym('y ' + name) if axis == 'y' else n(-level)
            p = point(it, x, y, name)
            points.append(p)
            return p
        ms = []
        for r, ring in enumerate(shape):
            tops = [pt('top%d%d' % (r, i), 9) for i in range(len(ring))]
            for i, (a, b) in enumerate(ring):
                bottom = pt('bottom%d%d' % (r, i), 0)
                sides = []
                for side, k, top in (('left', a, tops[i]),
                                     ('right', b, tops[i - 1])):
                    ps = [bottom] + [pt('%s%d%d%d' % (side, r, i, j), j + 1)
                                     for j in range(k)] + [top]
                    if axis == 'y':
                        rising(it, ps)
                    sides.append(chain(it, [fresh(it, p) for p in ps], side))
                if len(ms) % 2:
                    sides.reverse()
                ms.append(obj(it, 'LocalMinimum', 'minimum%d' % len(ms),
                              left_bound=sides[0], right_bound=sides[1],
                              y=it.getattr(bottom, 'y'),
                              minimum_has_horizontal=False))
        lst = new(it, 'LocalMinimumList', *ms)
        w = obj(it, 'Wagyu', 'accumulator', minimums=lst,
                reverse_output=False)
        box = it.getattr(w, 'bounds')
        lo, hi = it.getattr(box, 'minimum'), it.getattr(box, 'maximum')
        for k in 'xy':
            vals = [it.getattr(p, k) for p in points]
            for corner, op, name in ((lo, '<=', 'lower'), (hi, '>=',
                                                           'upper')):
                c = it.getattr(corner, k)
                for v in vals:
                    if not it.order(op, c, v):
                        return 'a vertex is beyond the %s %s side' % (name, k)
                if not any(it.eq(c, v) for v in vals):
                    return 'the %s %s side touches no vertex' % (name, k)
        return None
    return run


def empty(it):
    w = obj(it, 'Wagyu', 'accumulator', minimums=new(it, 'LocalMinimumList'),
            reverse_output=False)
    box = it.getattr(w, 'bounds')
    lo, hi = it.getattr(box, 'minimum'), it.getattr(box, 'maximum')
    if not it.eq(it.getattr(lo, 'x'), it.getattr(hi, 'x')) or \
            not it.eq(it.getattr(lo, 'y'), it.getattr(hi, 'y')):
        return 'the bounds of nothing are not empty'
    return None


def build(ctx):
    ctx.rule('enclosed', 'no vertex is outside of the bounds and every side '
             'touches a vertex')
    ctx.assume('chains meeting at a maximum end in one place (C24)')
    shapes = [[[(0, 1)]], [[(1, 0)]], [[(1, 1)]], [[(0, 0)]],
              [[(0, 0), (0, 0)]], [[(0, 0)], [(0, 0)]]]
    if ctx.thorough:
        shapes += [[[(2, 1)]], [[(1, 2)]], [[(0, 1), (0, 0)]],
                   [[(0, 0)], [(1, 0)]]]
    for shape in shapes:
        for axis in 'xy':
            ctx.table('enclosed', 'rings of minima with inner vertices %s, '
                      'axis %s' % (shape, axis), scene(shape, axis), EXACT,
                      anchors=['Wagyu.bounds'], max_paths=100000)
    ctx.rule('empty', 'the bounds of nothing are a point')
    ctx.table('empty', 'nothing added', empty, EXACT,
              anchors=['Wagyu.bounds'])
