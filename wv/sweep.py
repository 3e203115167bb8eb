"""Abstract sweep objects shared by several checks."""
from .absint import ListV, Unsupported
from .build import edge, enums, n, obj, point
from .num import INF, Num

OPS = ('INTERSECTION', 'UNION', 'DIFFERENCE', 'XOR')
RULES = ('EVEN_ODD', 'NON_ZERO', 'POSITIVE', 'NEGATIVE')
KINDS = ('SUBJECT', 'CLIP')
ONE = Num.const(1)


def members(it):
    return ({m.name: m for m in enums(it, 'OperationKind')},
            {m.name: m for m in enums(it, 'FillKind')},
            {m.name: m for m in enums(it, 'PolygonKind')})


def sides(it):
    return {m.name: m for m in enums(it, 'EdgeSide')}


def own_rule(kind, sf, cf):
    return sf if kind == 'SUBJECT' else cf


def other_rule(kind, sf, cf):
    return cf if kind == 'SUBJECT' else sf


def contributing(it, op, kind, sf, cf, wc, owc):
    """The contribution specification (see C06)."""
    own, other = own_rule(kind, sf, cf), other_rule(kind, sf, cf)
    if own == 'NON_ZERO':
        if not (it.sign(wc - ONE, {0}) or it.sign(wc + ONE, {0})):
            return False
    elif own == 'POSITIVE':
        if not it.sign(wc - ONE, {0}):
            return False
    elif own == 'NEGATIVE':
        if not it.sign(wc + ONE, {0}):
            return False
    if op == 'XOR':
        return True
    inside = it.sign(owc, {'POSITIVE': {1}, 'NEGATIVE': {-1}}.get(
        other, {1, -1}))
    return inside is (op == 'INTERSECTION'
                      or op == 'DIFFERENCE' and kind == 'CLIP')


def absval(it, v):
    return -v if it.sign(v, {-1}) else v


def wider(it, a, b):
    """Whichever of two winding numbers is farther from zero."""
    return a if it.sign(absval(it, a) - absval(it, b), {1}) else b


def plain_edge(it, bx, by, tx, ty, label='edge'):
    """An edge with numeric ends (not horizontal) and its slope."""
    b, t = point(it, n(bx), n(by)), point(it, n(tx), n(ty))
    slope = INF if by == ty else n(tx - bx).div(n(ty - by))
    return edge(it, b, t, slope, label)
