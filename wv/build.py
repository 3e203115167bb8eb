"""Abstract objects of the package under analysis."""
from .absint import (MISSING, EnumV, ListV, ObjV, PyRaise, PyFn,
                     Unsupported)
from .num import INF, NAN, Num, Rank


def n(v):
    return Num.const(v)


def enum(it, cls, name):
    c = it.p.need_class(cls)
    return it.enum_member(c, name)


def enums(it, cls):
    return it.enum_members(it.p.need_class(cls))


def missing(it, o, name):
    slots = o.cls.all_slots()
    if slots is not None and name not in slots:
        return MISSING       # a genuine AttributeError
    raise Unsupported('field %s of %s is not modelled' % (name, o.cls.name))


def obj(it, cls, label=None, **fields):
    """An object with the given fields; reading any other declared field makes
    the path undecided (no constructor is run)."""
    o = ObjV(it.p.need_class(cls), {}, missing, label or cls)
    o.fields.update(fields)
    return o


def new(it, cls, *args, label=None, **kwargs):
    """Runs the constructor."""
    o = it.construct(it.p.need_class(cls), list(args), kwargs)
    if label and isinstance(o, ObjV):
        o.label = label
    return o


def point(it, x, y, label=None):
    return obj(it, 'Point', label, x=x, y=y)


def edge(it, bottom, top, slope=None, label=None):
    return obj(it, 'Edge', label, bottom=bottom, top=top, slope=slope)


def call(it, name, *args, **kwargs):
    """Calls a function or method of the package by dotted name."""
    from .absint import FuncV
    f = it.p.func(name)
    if f is None:
        raise Unsupported('%s is gone' % name)
    return it.call(FuncV(f), list(args), kwargs)


def meth(it, o, name, *args, **kwargs):
    return it.call(it.getattr(o, name), list(args), kwargs)


def node(it, x, y, label=None, ring=None):
    o = obj(it, 'PointNode', label, x=x, y=y, ring=ring)
    o.fields['next'] = o.fields['prev'] = o
    return o


def link(nodes):
    for a, b in zip(nodes, nodes[1:] + nodes[:1]):
        a.fields['next'] = b
        b.fields['prev'] = a
    return nodes


def circle_fault(it, start, limit=40):
    """None, or why the links from the node on are no two-way circle."""
    seen = []
    cur = start
    while True:
        if not isinstance(cur, ObjV):
            return 'the forward walk from %s leaves the circle' % start.label
        if any(cur is s for s in seen):
            return ('the forward walk from %s enters a loop without it'
                    % start.label)
        seen.append(cur)
        nx = it.getattr(cur, 'next')
        if not isinstance(nx, ObjV):
            return 'the successor of %s is missing' % cur.label
        pv = it.getattr(nx, 'prev')
        if pv is not cur:
            return ('%s follows %s but its predecessor is %s'
                    % (nx.label, cur.label,
                       pv.label if isinstance(pv, ObjV) else pv))
        cur = nx
        if cur is start:
            return None
        if len(seen) > limit:
            return 'endless circle'


def walk(it, start, limit=60, field='next'):
    out = [start]
    cur = it.getattr(start, field)
    while cur is not start:
        if not isinstance(cur, ObjV) or len(out) > limit:
            return None
        out.append(cur)
        cur = it.getattr(cur, field)
    return out


def almost(it, a, b):
    """The verdict of the tolerant comparison of two numbers: exact on
    constants, otherwise true when equal and left open when not."""
    if isinstance(a, Rank) or isinstance(b, Rank):
        return it.eq(a, b)
    x, y = it.num_of(a), it.num_of(b)
    if x is None or y is None:
        raise PyRaise('TypeError')
    if not isinstance(x, Num) or not isinstance(y, Num):
        return it.eq(x, y)
    d = x - y
    if d.is_const:
        return d.value == 0
    if it.sign(d, {0}):
        return True
    p = d.n
    lead = max(p)
    key = ('almost', tuple(sorted((m, c / p[lead]) for m, c in p.items())),
           tuple(sorted(d.d.items())))
    if key not in it.signs:
        it.signs[key] = bool(it.choose(2, '%r within tolerance of zero' % d))
    return it.signs[key]


def almost_stub(it, args, bound):
    return almost(it, args[0], args[1])


def exact_stub(it, args, bound):
    if isinstance(args[0], Rank) or isinstance(args[1], Rank):
        return it.eq(args[0], args[1])
    return it.eq(args[0], args[1])


TOLERANT = {'are_floats_almost_equal': almost_stub}
EXACT = {'are_floats_almost_equal': exact_stub}
