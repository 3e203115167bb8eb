"""Value semantics and sequence behaviour of the package's classes."""
from wv.absint import EnumV, ListV, OpaqueV
from wv.build import call, enums, meth, n, new, obj
from wv.absbuiltins import call as builtin

# class -> components: 'v' any value, 'b' flag, or the enumeration's name
VALUES = {
    'Point': {'x': 'v', 'y': 'v'},
    'Box': {'minimum': 'v', 'maximum': 'v'},
    'Edge': {'bottom': 'v', 'top': 'v'},
    'LinearRing': {'points': 'l'},
    'Polygon': {'linear_rings': 'l'},
    'Multipolygon': {'polygons': 'l'},
    'IntersectNode': {'first_bound': 'v', 'second_bound': 'v', 'point': 'v'},
    'LocalMinimum': {'left_bound': 'v', 'right_bound': 'v', 'y': 'v',
                     'minimum_has_horizontal': 'b'},
    'LocalMinimumList': {'values': 'l'},
    'Bound': {'edges': 'l', '_current_edge_index': 'i',
              '_next_edge_index': 'i', 'last_point': 'v', 'ring': 'v',
              'current_x': 'v', 'position': 'v', 'winding_count': 'v',
              'opposite_winding_count': 'v', 'winding_delta': 'v',
              'polygon_kind': 'PolygonKind', 'side': 'EdgeSide'},
    'PointNode': {'x': 'v', 'y': 'v'},
    'Ring': {'index': 'v', 'children': 'l', 'node': 'v', 'bottom_node': 'v',
             'corrected': 'b'},
    'Wagyu': {'minimums': 'v', 'reverse_output': 'b'},
}
EXTRA = {'Edge': {'slope': 'v'}}
STORED = {
    'Point': ('x', 'y'), 'Box': ('minimum', 'maximum'),
    'LinearRing': ('points',), 'Polygon': ('linear_rings',),
    'Multipolygon': ('polygons',),
    'IntersectNode': ('first_bound', 'second_bound', 'point'),
    'LocalMinimum': ('left_bound', 'right_bound', 'y',
                     'minimum_has_horizontal'),
    'PointNode': ('x', 'y'),
}
SEQUENCES = {'LinearRing': 'points', 'Polygon': 'linear_rings',
             'Multipolygon': 'polygons', 'LocalMinimumList': 'values'}


def pairs(it, kind, name):
    """Value, equal value, different value."""
    if kind == 'b':
        return True, True, False
    if kind == 'v':
        return it.sym(name), it.sym(name), it.sym(name) + n(1)
    if kind == 'i':
        return n(0), n(0), n(1)
    if kind == 'l':
        def lst(d):
            return ListV([it.sym(name + '0'), it.sym(name + '1') + n(d)])
        return lst(0), lst(0), lst(1)
    ms = enums(it, kind)
    return ms[0], ms[0], ms[1]


def not_implemented(v):
    return 'NotImplemented' in repr(v) or getattr(v, 'name', '') == \
        'builtins.NotImplemented' or getattr(v, 'label', '') == \
        'NotImplemented'


def equality(ctx, cls, comps):
    for differing in [None] + list(comps):
        def run(it, differing=differing):
            fa, fb = {}, {}
            for name, kind in list(comps.items()) + list(
                    EXTRA.get(cls, {}).items()):
                a, same, other = pairs(it, kind, name)
                fa[name] = a
                fb[name] = other if name == differing else same
            a, b = obj(it, cls, 'first', **fa), obj(it, cls, 'second', **fb)
            for u, v in ((a, b), (b, a)):
                got = meth(it, u, '__eq__', v)
                if not_implemented(got):
                    return 'declines to compare with its own type'
                got = it.truth(got)
                if got is not (differing is None):
                    return ('equal although %s differs' % differing if got
                            else 'unequal although all components are equal')
                if it.truth(it.eq(u, v)) is not got:
                    return '== disagrees'
            if not it.truth(it.eq(a, a)):
                return 'not equal to itself'
        ctx.table('equality', '%s, %s' % (cls, differing + ' differs' if
                                          differing else 'all equal'), run,
                  anchors=[cls + '.__eq__'])

    def longer(name, sizes):
        def run(it):
            fa, fb = {}, {}
            for other, kind in list(comps.items()) + list(
                    EXTRA.get(cls, {}).items()):
                a, same, _ = pairs(it, kind, other)
                if other == name:
                    a, same = (ListV([it.sym('%s%d' % (name, i))
                                      for i in range(k)]) for k in sizes)
                fa[other], fb[other] = a, same
            a, b = obj(it, cls, 'first', **fa), obj(it, cls, 'second', **fb)
            for u, v in ((a, b), (b, a)):
                got = meth(it, u, '__eq__', v)
                if not_implemented(got):
                    return 'declines to compare with its own type'
                if it.truth(got) is not (sizes[0] == sizes[1]):
                    return ('one with %d %s is %s one with %d'
                            % (sizes[0], name, 'equal to' if it.truth(got)
                               else 'unequal to', sizes[1]))
        return run
    for name, kind in comps.items():
        if kind != 'l':
            continue
        for sizes in ((0, 0), (0, 1), (1, 2), (2, 3), (3, 3), (1, 3)):
            ctx.table('equality', '%s, %s of %d and of %d' % (
                (cls, name) + sizes), longer(name, sizes),
                anchors=[cls + '.__eq__'])

    def foreign(it):
        f = {name: pairs(it, kind, name)[0] for name, kind in comps.items()}
        a = obj(it, cls, 'first', **f)
        for x in (OpaqueV('foreign'), None, n(3), ListV([])):
            got = meth(it, a, '__eq__', x)
            if not not_implemented(got):
                return 'answers a comparison with %r' % (x,)
    ctx.table('foreign', cls, foreign, anchors=[cls + '.__eq__'])


def storing(ctx, cls, names):
    def run(it):
        vals = []
        for name in names:
            kind = VALUES[cls].get(name, 'v')
            vals.append(pairs(it, kind, name)[0])
        o = new(it, cls, *vals)
        for name, v in zip(names, vals):
            got = it.getattr(o, name)
            if got is not v and not it.truth(it.eq(got, v)):
                return '%s holds %r instead of %r' % (name, got, v)
        o = new(it, cls, **dict(zip(names, vals)))
        for name, v in zip(names, vals):
            got = it.getattr(o, name)
            if got is not v and not it.truth(it.eq(got, v)):
                return '%s given by name holds %r' % (name, got)
    ctx.table('storing', cls, run, anchors=[cls + '.__init__'])


def sequence(ctx, cls, name):
    for size in range(4):
        def run(it, size=size):
            els = [obj(it, 'Point', 'element%d' % i) for i in range(size)]
            o = (new(it, cls, *els) if cls == 'LocalMinimumList'
                 else new(it, cls, ListV(list(els))))
            if it.const_int(builtin(it, 'len', [o], {})) != size:
                return 'wrong length'
            for i in range(-size, size):
                if it.getitem(o, n(i)) is not els[i]:
                    return 'element %d is another one' % i
            for i in (size, -size - 1):
                try:
                    it.getitem(o, n(i))
                except Exception as e:
                    if getattr(e, 'name', None) != 'IndexError':
                        raise
                else:
                    return 'element %d of %d exists' % (i, size)
            got = list(it.iterate(o))
            if len(got) != size or any(a is not b for a, b in
                                       zip(got, els)):
                return 'iterates over something else'
            if it.truth(o) is not (size > 0):
                return 'truth value is not its being non-empty'
        ctx.table('sequence', '%s of %d' % (cls, size), run,
                  anchors=[cls + '.__len__', cls + '.__getitem__'])
    if cls != 'LocalMinimumList':
        return
    for size in range(3):
        def change(it, size=size):
            def fresh():
                els = [obj(it, 'LocalMinimum', 'element%d' % i)
                       for i in range(size)]
                return els, new(it, cls, *els)
            x = obj(it, 'LocalMinimum', 'new')

            def differs(o, want):
                got = list(it.iterate(o))
                return len(got) != len(want) or any(
                    a is not b for a, b in zip(got, want))
            for i in range(size + 1):
                els, o = fresh()
                meth(it, o, 'insert', n(i), x)
                if differs(o, els[:i] + [x] + els[i:]):
                    return 'insert(%d) puts it elsewhere' % i
            els, o = fresh()
            meth(it, o, 'append', x)
            if differs(o, els + [x]):
                return 'append does not append'
            for i in range(size):
                els, o = fresh()
                it.setitem(o, n(i), x)
                if differs(o, els[:i] + [x] + els[i + 1:]):
                    return 'assignment to %d goes elsewhere' % i
                els, o = fresh()
                it.delitem(o, n(i))
                if differs(o, els[:i] + els[i + 1:]):
                    return 'deletion of %d deletes something else' % i
            els, o = fresh()
            meth(it, o, 'clear')
            if differs(o, []):
                return 'clear leaves elements'
        ctx.table('sequence', '%s of %d changed' % (cls, size), change,
                  anchors=[cls + '.insert', cls + '.__setitem__',
                           cls + '.__delitem__'])


def build(ctx):
    for c in VALUES:
        ctx.p.need_class(c)
    ctx.rule('equality', 'equal exactly when all defining components are')
    ctx.rule('foreign', 'comparison with another type is declined')
    ctx.rule('storing', 'construction stores each component under its name')
    ctx.rule('sequence', 'length, indexing, iteration and truth are those of '
             'the elements given')
    for c, comps in VALUES.items():
        equality(ctx, c, comps)
    for c, names in STORED.items():
        storing(ctx, c, names)
    for c, name in SEQUENCES.items():
        sequence(ctx, c, name)
