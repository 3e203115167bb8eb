"""Crossing of two active chains: winding numbers and emitted vertices."""
from wv.absint import EnumV, ListV, ObjV
from wv.build import EXACT, meth, n, obj, point
from wv.sweep import (KINDS, OPS, RULES, absval, edge, members, other_rule,
                      own_rule, plain_edge, sides)

ZERO, ONE = n(0), n(1)


def effective(it, rule, v):
    if rule == 'POSITIVE':
        return v
    if rule == 'NEGATIVE':
        return -v
    return absval(it, v)


def zero_or_one(it, v):
    return it.sign(v, {0}) or it.sign(v - ONE, {0})


def make(it, k, s, kind, i, sf, cf, contributing, delta):
    own, other = own_rule(kind, sf, cf), other_rule(kind, sf, cf)
    if own == 'EVEN_ODD':
        wc = n(1 if it.choose(2, 'winding number %d' % i) == 0 else -1)
    else:
        wc = it.sym('wc%d' % i, integer=True)
        it.syms['wc%d' % i].excl.add(0)
    if other == 'EVEN_ODD':
        owc = n(it.choose(2, 'opposite number %d' % i))
    else:
        owc = it.sym('owc%d' % i, integer=True)
    return obj(it, 'Bound', 'bound%d' % i, polygon_kind=k[kind],
               winding_delta=n(delta), winding_count=wc,
               opposite_winding_count=owc,
               side=s['LEFT' if i == 1 else 'RIGHT'],
               ring=obj(it, 'Ring', 'ring%d' % i) if contributing else None,
               last_point=obj(it, 'Point', 'last%d' % i))


def recorder(it, log, name):
    def stub(it, args, bound):
        vals = list(bound.values()) if isinstance(bound, dict) else args
        bs = [v for v in vals if isinstance(v, ObjV)
              and v.cls.name == 'Bound']
        ps = [v for v in vals if isinstance(v, ObjV)
              and v.cls.name == 'Point']
        log.append((name, ps[0] if ps else None, bs,
                    [(b.fields['side'], b.fields['ring']) for b in bs]))
        return None
    return stub


EVENTS = {'RingManager.add_point': 'vertex',
          'RingManager.add_first_point': 'first vertex',
          'RingManager.add_point_to_ring': 'vertex',
          'RingManager.add_local_maximum_point': 'maximum',
          'RingManager.add_local_minimum_point': 'minimum'}


def expected_counts(it, b1, b2, same, sf, cf, k1, k2):
    w1, w2 = b1['w'], b2['w']
    o1, o2 = b1['o'], b2['o']
    if same:
        if own_rule(k1, sf, cf) == 'EVEN_ODD':
            return w2, w1, o1, o2
        x = w1 + n(b2['d'])
        y = w2 - n(b1['d'])
        return (-w1 if it.sign(x, {0}) else x,
                -w2 if it.sign(y, {0}) else y, o1, o2)
    if own_rule(k2, sf, cf) == 'EVEN_ODD':
        p1 = ONE if it.sign(o1, {0}) else ZERO
    else:
        p1 = o1 + n(b2['d'])
    if own_rule(k1, sf, cf) == 'EVEN_ODD':
        p2 = ONE if it.sign(o2, {0}) else ZERO
    else:
        p2 = o2 - n(b1['d'])
    return w1, w2, p1, p2


def expected_events(it, op, k1, k2, sf, cf, c1, c2, w1, w2, o1, o2):
    """(kind of event, swap of sides, swap of contours)"""
    e1 = effective(it, own_rule(k1, sf, cf), w1)
    e2 = effective(it, own_rule(k2, sf, cf), w2)
    if c1 and c2:
        if (not zero_or_one(it, e1) or not zero_or_one(it, e2)
                or k1 != k2 and op != 'XOR'):
            return 'close', False, False
        return 'both', True, True
    if c1:
        return (('first', True, True) if zero_or_one(it, e2)
                else (None, False, False))
    if c2:
        return (('second', True, True) if zero_or_one(it, e1)
                else (None, False, False))
    if not zero_or_one(it, e1) or not zero_or_one(it, e2):
        return None, False, False
    if k1 != k2:
        return 'open', False, False
    if not it.sign(e1 - ONE, {0}) or not it.sign(e2 - ONE, {0}):
        return None, True, False
    if op == 'XOR':
        return 'open', False, False
    inside = [it.sign(effective(it, other_rule(k1, sf, cf), o), {1})
              for o in (o1, o2)]
    if op == 'INTERSECTION' or op == 'DIFFERENCE' and k1 == 'CLIP':
        return ('open' if all(inside) else None), False, False
    return ('open' if not any(inside) else None), False, False


def crossing(ctx, op, sf, cf, k1, k2, c1, c2):
    def run(it):
        o, f, k = members(it)
        s = sides(it)
        d1 = 1 if it.choose(2, 'direction 1') == 0 else -1
        d2 = 1 if it.choose(2, 'direction 2') == 0 else -1
        b1 = make(it, k, s, k1, 1, sf, cf, c1, d1)
        b2 = make(it, k, s, k2, 2, sf, cf, c2, d2)
        p = obj(it, 'Point', 'crossing')
        log = []
        it.stubs = {a: recorder(it, log, e) for a, e in EVENTS.items()}
        mgr = obj(it, 'RingManager', 'manager')
        abl = ListV([b1, b2])
        before = [dict(b.fields) for b in (b1, b2)]
        q1 = {'w': before[0]['winding_count'], 'd': d1,
              'o': before[0]['opposite_winding_count']}
        q2 = {'w': before[1]['winding_count'], 'd': d2,
              'o': before[1]['opposite_winding_count']}
        meth(it, mgr, 'intersect_bounds', p, o[op], f[sf], f[cf], b1, b2,
             abl)
        w1, w2, o1, o2 = expected_counts(it, q1, q2, k1 == k2, sf, cf, k1,
                                         k2)
        for b, w, ow in ((b1, w1, o1), (b2, w2, o2)):
            g, go = (b.fields['winding_count'],
                     b.fields['opposite_winding_count'])
            if not it.eq(g, w):
                return ('%s gets winding number %r instead of %r'
                        % (b.label, g, w))
            if not it.eq(go, ow):
                return ('%s gets opposite winding number %r instead of %r'
                        % (b.label, go, ow))
        ev, sw, rw = expected_events(it, op, k1, k2, sf, cf, c1, c2, w1, w2,
                                     o1, o2)
        want = {'close': [('maximum', {b1, b2})],
                'open': [('minimum', (b1, b2))],
                'both': [('vertex', b1), ('vertex', b2)],
                'first': [('vertex', b1)], 'second': [('vertex', b2)],
                None: []}[ev]
        got = []
        for name, pt, bs, state in log:
            if pt is not p:
                return 'emits a vertex elsewhere'
            if name in ('vertex', 'first vertex'):
                i = 0 if bs[0] is b1 else 1
                if state[0][1] is not before[i]['ring']:
                    return ('the vertex for %s goes to another contour'
                            % bs[0].label)
                if state[0][0] is not before[i]['side']:
                    return 'the vertex for %s goes to another end' \
                        % bs[0].label
                got.append((name, bs[0]))
            elif name == 'maximum':
                got.append((name, {bs[0], bs[1]}))
            else:
                got.append((name, (bs[0], bs[1])))

        def text(es):
            return ', '.join('%s %s' % (e, '/'.join(sorted(
                b.label for b in (x if isinstance(x, (set, tuple))
                                  else [x])))) for e, x in es) or 'nothing'
        if len(got) != len(want) or any(w not in got for w in want):
            return 'emits %s instead of %s' % (text(got), text(want))
        for i, b in enumerate((b1, b2)):
            j = 1 - i if sw else i
            if b.fields['side'] is not before[j]['side']:
                return '%s ends up on the wrong side' % b.label
            j = 1 - i if rw else i
            if b.fields['ring'] is not before[j]['ring']:
                return '%s ends up on the wrong contour' % b.label
            for name in ('winding_delta', 'polygon_kind'):
                if b.fields[name] is not before[i][name]:
                    return 'changes %s of %s' % (name, b.label)
            lp = b.fields['last_point']
            if ev in ('first', 'second') and (ev == 'first') == (i == 1):
                if lp is not p:
                    return 'the last point of %s is not the crossing' \
                        % b.label
            elif lp is not before[i]['last_point'] and (
                    lp is not p or ev is None):
                return 'changes the last point of %s' % b.label
    ctx.table('crossing', '%s, subject %s, clip %s, %s%s x %s%s' % (
        op, sf, cf, k1, ' on a contour' if c1 else '', k2,
        ' on a contour' if c2 else ''), run,
        anchors=['RingManager.intersect_bounds'])


def insertion(ctx, op, kind):
    """Entering chains open a contour exactly when they contribute."""
    for sf in RULES:
        for cf in RULES:
            def run(it, sf=sf, cf=cf):
                o, f, k = members(it)
                s = sides(it)
                want = bool(it.choose(2, 'contributing'))
                log = []
                it.stubs = dict(EXACT)
                it.stubs['RingManager.add_local_minimum_point'] = recorder(
                    it, log, 'minimum')
                seen = []

                def decide(it, args, bound):
                    seen.append(args)
                    return want
                it.stubs['Bound.is_contributing'] = decide
                it.stubs['set_winding_count'] = lambda it, a, b: None
                pair = []
                for i in (0, 1):
                    e = plain_edge(it, 5, 9, 5 + 2 * (i * 2 - 1), 0,
                                   'edge%d' % i)
                    pair.append(obj(
                        it, 'Bound', 'bound%d' % i, polygon_kind=k[kind],
                        winding_delta=n(1 - 2 * i), winding_count=n(0),
                        opposite_winding_count=n(0), ring=None,
                        side=s['LEFT' if i == 0 else 'RIGHT'],
                        current_x=n(5), current_edge=e,
                        edges=ListV([e]), last_point=None))
                meth(it, obj(it, 'RingManager', 'manager'),
                     'insert_lm_left_and_right_bound', o[op], f[sf], f[cf],
                     ListV([]), pair[0], pair[1], ListV([]))
                if not seen:
                    return 'never asks whether the chain contributes'
                for a in seen:
                    if a[0] not in pair:
                        return 'asks about another chain'
                    if (a[1] is not o[op] or a[2] is not f[sf]
                            or a[3] is not f[cf]):
                        return 'asks with the wrong operation or rules'
                if bool(log) is not want:
                    return 'opens %s contour' % ('a' if log else 'no')
                if log:
                    _, p, bs, _ = log[0]
                    bottom = pair[0].fields['current_edge'].fields['bottom']
                    if len(log) > 1 or bs[0] is not pair[0] \
                            or bs[1] is not pair[1]:
                        return 'opens a contour with other chains'
                    if not (it.eq(p.fields['x'], bottom.fields['x'])
                            and it.eq(p.fields['y'], bottom.fields['y'])):
                        return 'opens the contour elsewhere'
            ctx.table('opening', '%s %s, subject %s, clip %s' % (
                kind, op, sf, cf), run, anchors=[
                    'RingManager.insert_lm_left_and_right_bound',
                    'Bound.is_contributing', 'set_winding_count'])


def build(ctx):
    for a in ('RingManager.intersect_bounds',
              'RingManager.insert_lm_left_and_right_bound'):
        ctx.p.need(a)
    ctx.assume('winding numbers before a crossing obey the invariant of C07')
    ctx.rule('crossing',
             'winding numbers, emitted events, sides and contours after a '
             'crossing follow the operation, the rules and both chains')
    ctx.rule('opening', 'an entering pair opens a contour at its bottom '
             'exactly when its left chain contributes')
    for op in OPS:
        for sf in RULES:
            for cf in RULES:
                for k1 in KINDS:
                    for k2 in KINDS:
                        for c1 in (False, True):
                            for c2 in (False, True):
                                crossing(ctx, op, sf, cf, k1, k2, c1, c2)
        for kind in KINDS:
            insertion(ctx, op, kind)
    import checks.c08_order as order
    order.build(ctx)
