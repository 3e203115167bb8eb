"""Contribution decision: table of is_contributing and the even-odd
predicates over all operations, rules, kinds and integer winding numbers."""
from wv.build import enums, meth, obj


def own_ok(it, rule, wc):
    if rule == 'NON_ZERO':
        return it.sign(wc - ONE, {0}) or it.sign(wc + ONE, {0})
    if rule == 'POSITIVE':
        return it.sign(wc - ONE, {0})
    if rule == 'NEGATIVE':
        return it.sign(wc + ONE, {0})
    return True


def inside_other(it, rule, owc):
    if rule == 'POSITIVE':
        return it.sign(owc, {1})
    if rule == 'NEGATIVE':
        return it.sign(owc, {-1})
    return it.sign(owc, {1, -1})


def expected(it, op, kind, sf, cf, wc, owc):
    own, other = (sf, cf) if kind == 'SUBJECT' else (cf, sf)
    if not own_ok(it, own, wc):
        return False
    if op == 'XOR':
        return True
    want_inside = (op == 'INTERSECTION'
                   or op == 'DIFFERENCE' and kind == 'CLIP')
    return inside_other(it, other, owc) is want_inside


from wv.num import Num  # noqa: E402

ONE = Num.const(1)
OPS = ('INTERSECTION', 'UNION', 'DIFFERENCE', 'XOR')
RULES = ('EVEN_ODD', 'NON_ZERO', 'POSITIVE', 'NEGATIVE')
KINDS = ('SUBJECT', 'CLIP')


def members(it):
    return ({m.name: m for m in enums(it, 'OperationKind')},
            {m.name: m for m in enums(it, 'FillKind')},
            {m.name: m for m in enums(it, 'PolygonKind')})


def make_bound(it, kind_member, tag=''):
    return obj(it, 'Bound', 'bound' + tag, polygon_kind=kind_member,
               winding_count=it.sym('wc' + tag, integer=True),
               opposite_winding_count=it.sym('owc' + tag, integer=True))


def build(ctx):
    ctx.p.need('Bound.is_contributing')
    ctx.p.need('Bound.is_even_odd_fill_kind')
    ctx.p.need('Bound.is_even_odd_alt_fill_kind')
    ctx.rule('contribution-table',
             'for every operation, polygon kind, pair of fill rules and all '
             'integer winding numbers the contribution decision equals the '
             'specification derived from the set operation')
    ctx.rule('even-odd-predicates',
             'a chain\'s own (other) fill rule is even-odd exactly when the '
             'rule given for its (the other) polygon kind is')
    ctx.rule('members-complete',
             'the operation, fill rule and kind enumerations have exactly '
             'the members the decision table covers')

    def complete(res):
        from wv.absint import Interp
        it = Interp(ctx.p)
        for cls, want in (('OperationKind', OPS), ('FillKind', RULES),
                          ('PolygonKind', KINDS)):
            have = [m.name for m in enums(it, cls)]
            if sorted(have) != sorted(want):
                res.undecided.append('%s has members %s' % (cls, have))
        res.held += 1
    ctx.job('members-complete', 'enums', complete)

    for op in OPS:
        for kind in KINDS:
            for sf in RULES:
                for cf in RULES:
                    def run(it, op=op, kind=kind, sf=sf, cf=cf):
                        o, f, k = members(it)
                        b = make_bound(it, k[kind])
                        wc = b.fields['winding_count']
                        owc = b.fields['opposite_winding_count']
                        got = it.truth(meth(it, b, 'is_contributing', o[op],
                                            f[sf], f[cf]))
                        want = expected(it, op, kind, sf, cf, wc, owc)
                        if got is not want:
                            return ('decides %s where the operation requires '
                                    '%s' % (got, want))
                    ctx.table('contribution-table',
                              '%s of %s chain, subject %s, clip %s' % (
                                  op, kind, sf, cf), run,
                              anchors=['Bound.is_contributing'])
    for name, own in (('is_even_odd_fill_kind', True),
                      ('is_even_odd_alt_fill_kind', False)):
        for kind in KINDS:
            for sf in RULES:
                for cf in RULES:
                    def run(it, name=name, own=own, kind=kind, sf=sf, cf=cf):
                        _, f, k = members(it)
                        b = make_bound(it, k[kind])
                        got = it.truth(meth(it, b, name, f[sf], f[cf]))
                        rule = sf if (kind == 'SUBJECT') is own else cf
                        want = rule == 'EVEN_ODD'
                        if got is not want:
                            return 'answers %s instead of %s' % (got, want)
                    ctx.table('even-odd-predicates', '%s of %s chain, subject '
                              '%s, clip %s' % (name, kind, sf, cf), run,
                              anchors=['Bound.' + name])
