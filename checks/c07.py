"""Winding numbers of a chain entering the sweep."""
import itertools

from wv.absint import ListV
from wv.build import EXACT, call, meth, n, obj
from wv.num import Num
from wv.sweep import (KINDS, OPS, RULES, members, other_rule, own_rule,
                      plain_edge, sides, wider)


def expected(it, left, kind, delta, sf, cf):
    """left: list of (kind, delta, wc, owc) from left to right."""
    own, other = own_rule(kind, sf, cf), other_rule(kind, sf, cf)
    near = None
    for i in range(len(left) - 1, -1, -1):
        if left[i][0] == kind:
            near = i
            break
    carried = n(0) if near is None else left[near][3]
    if own == 'EVEN_ODD' or near is None:
        wc = n(delta)
    else:
        _, pd, pwc, _ = left[near]
        # winding number of the region right of the nearest chain: its own
        # number is that of the adjacent region farther from zero
        dec = it.sign(pwc, {-1}) if pd > 0 else it.sign(pwc, {1})
        region = pwc + n(pd) if dec else pwc
        wc = wider(it, region, region + n(delta))
    owc = carried
    for k, d, _, _ in left[0 if near is None else near + 1:]:
        if other == 'EVEN_ODD':
            owc = n(0) if it.sign(owc, {1, -1}) else n(1)
        else:
            owc = owc + n(d)
    return wc, owc


def make(it, k, kind, delta, i, sf, cf, counted=True):
    fields = {'polygon_kind': k[kind], 'winding_delta': n(delta)}
    if counted:
        if own_rule(kind, sf, cf) == 'EVEN_ODD':
            wc = n(delta)
        else:
            wc = it.sym('wc%d' % i, integer=True)
            it.syms['wc%d' % i].excl.add(0)
        if other_rule(kind, sf, cf) == 'EVEN_ODD':
            owc = it.sym('owc%d' % i, 0, 1, True)
        else:
            owc = it.sym('owc%d' % i, integer=True)
        fields.update(winding_count=wc, opposite_winding_count=owc)
    else:
        fields.update(winding_count=it.sym('old_wc%d' % i, integer=True),
                      opposite_winding_count=it.sym('old_owc%d' % i,
                                                    integer=True))
    return obj(it, 'Bound', 'bound%d' % i, **fields)


def same(it, a, b):
    return it.eq(a, b)


def differs(it, b, wc, owc, even_odd, who='the inserted chain'):
    gwc = it.getattr(b, 'winding_count')
    gowc = it.getattr(b, 'opposite_winding_count')
    if even_odd:
        if not (it.eq(gwc, n(1)) or it.eq(gwc, n(-1))):
            return '%s gets winding number %r under even-odd' % (who, gwc)
    elif not same(it, gwc, wc):
        return '%s gets winding number %r instead of %r' % (who, gwc, wc)
    if not same(it, gowc, owc):
        return ('%s gets opposite winding number %r instead of %r'
                % (who, gowc, owc))


def build(ctx):
    for a in ('set_winding_count',
              'RingManager.insert_lm_left_and_right_bound'):
        ctx.p.need(a)
    ctx.assume('winding numbers of active chains are non-zero unless their '
               'own rule is even-odd, opposite numbers are 0 or 1 when the '
               'other rule is even-odd (what the insertion and crossing '
               'rules establish)')
    ctx.assume('sequences of at most %d chains to the left are enumerated; '
               'kinds, directions and rules exhaustively, winding numbers '
               'as arbitrary integers' % (4 if ctx.thorough else 3))
    ctx.rule('winding-count',
             'the winding numbers given to an entering chain are those of '
             'the regions to its left and right, per the fill rules')
    ctx.rule('pair-insertion',
             'both chains of an inserted local minimum get the numbers of '
             'the left one, whatever was stored on them before')
    top = 4 if ctx.thorough else 3
    for size in range(top + 1):
        for sf in RULES:
            for cf in RULES:
                for kind in KINDS:
                    for kinds in itertools.product(KINDS, repeat=size):
                        if size >= 3 and not ctx.thorough and len(
                                {sf, cf}) == 1 and kind == 'CLIP':
                            continue

                        def run(it, size=size, sf=sf, cf=cf, kind=kind,
                                kinds=kinds):
                            _, f, k = members(it)
                            ds = [1 if it.choose(2, 'direction %d' % i) == 0
                                  else -1 for i in range(size + 1)]
                            bs = [make(it, k, kinds[i], ds[i], i, sf, cf)
                                  for i in range(size)]
                            left = [(kinds[i], ds[i],
                                     b.fields['winding_count'],
                                     b.fields['opposite_winding_count'])
                                    for i, b in enumerate(bs)]
                            new = make(it, k, kind, ds[size], size, sf, cf,
                                       False)
                            call(it, 'set_winding_count', n(size),
                                 ListV(bs + [new]), f[sf], f[cf])
                            wc, owc = expected(it, left, kind, ds[size], sf,
                                               cf)
                            for b, (_, _, w, o) in zip(bs, left):
                                if not same(it, b.fields['winding_count'],
                                            w) or not same(
                                        it, b.fields[
                                            'opposite_winding_count'], o):
                                    return 'changes a chain to the left'
                            return differs(it, new, wc, owc, own_rule(
                                kind, sf, cf) == 'EVEN_ODD')
                        ctx.table('winding-count', '%s chain after %s, '
                                  'subject %s, clip %s' % (
                                      kind, '/'.join(kinds) or 'none', sf,
                                      cf), run,
                                  anchors=['set_winding_count'])
    for sf in RULES:
        for cf in RULES:
            for kind in KINDS:
                for kinds in itertools.product(KINDS, repeat=2):
                    def run(it, sf=sf, cf=cf, kind=kind, kinds=kinds):
                        o, f, k = members(it)
                        s = sides(it)
                        ds = [1 if it.choose(2, 'direction %d' % i) == 0
                              else -1 for i in range(3)]
                        where = it.choose(3, 'chains to the left')
                        bs = [make(it, k, kinds[i], ds[i], i, sf, cf)
                              for i in range(2)]
                        for i, b in enumerate(bs):
                            b.fields['current_x'] = n(10 * i)
                        pair = []
                        for i, d in ((2, ds[2]), (3, -ds[2])):
                            b = make(it, k, kind, d, i, sf, cf, False)
                            e = plain_edge(it, 10 * where - 5, 9,
                                           10 * where - 5 + (i * 2 - 5), 0,
                                           'edge%d' % i)
                            b.fields.update(
                                current_x=n(10 * where - 5), ring=None,
                                current_edge=e, side=s['LEFT'],
                                edges=ListV([e]))
                            pair.append(b)
                        mgr = obj(it, 'RingManager', 'manager')
                        abl = ListV(bs)
                        meth(it, mgr, 'insert_lm_left_and_right_bound',
                             o[OPS[it.choose(4, 'operation')]], f[sf], f[cf],
                             ListV([]), pair[0], pair[1], abl)
                        at = [i for i, b in enumerate(abl.items)
                              if b is pair[0]]
                        if at != [where] or len(abl.items) != 4 \
                                or abl.items[where + 1] is not pair[1]:
                            return 'the pair is not inserted side by side ' \
                                   'at its position'
                        left = [(kinds[i], ds[i], b.fields['winding_count'],
                                 b.fields['opposite_winding_count'])
                                for i, b in enumerate(bs)][:where]
                        wc, owc = expected(it, left, kind, ds[2], sf, cf)
                        eo = own_rule(kind, sf, cf) == 'EVEN_ODD'
                        return (differs(it, pair[0], wc, owc, eo,
                                        'the left chain')
                                or differs(it, pair[1], wc, owc, eo,
                                           'the right chain'))
                    stubs = dict(EXACT)
                    stubs['RingManager.add_local_minimum_point'] = (
                        lambda it, a, b: None)
                    ctx.table('pair-insertion', '%s pair among %s, subject '
                              '%s, clip %s' % (kind, '/'.join(kinds), sf, cf),
                              run, stubs, anchors=[
                                  'RingManager.insert_lm_left_and_right_bound'
                              ])
