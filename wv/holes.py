"""Nesting of a contour opened during the sweep."""
from .absint import ListV
from .build import enum, meth, n, obj


def sequences(k, most):
    """Non-crossing sequences of contours over k places: each contour has at
    most two chains; None is a chain without a contour."""
    def rec(prefix, opened, used):
        if len(prefix) == k:
            yield tuple(prefix)
            return
        yield from rec(prefix + [None], opened, used)
        yield from rec(prefix + ['gap'], opened, used)
        if used < most:
            yield from rec(prefix + [used], opened + [used], used + 1)
        # closing the innermost open one, or one further out with the ones
        # inside left with a single chain to the right of the new chain
        for i in range(len(opened)):
            if i == len(opened) - 1:
                yield from rec(prefix + [opened[i]], opened[:i], used)
    yield from rec([], [], 0)


def case(seqs, right):
    def run(it):
        seq = seqs[it.choose(len(seqs), 'chains to the left')]
        rings = {}

        def ring(i):
            if i not in rings:
                rings[i] = obj(it, 'Ring', 'contour%d' % i, parent=None,
                               children=ListV([]), node=None, index=n(i),
                               bottom_node=None, corrected=False)
            return rings[i]

        def chain(label, r):
            return obj(it, 'Bound', label, ring=r,
                       side=enum(it, 'EdgeSide', 'LEFT'), position=n(0),
                       last_point=None)
        act = []
        for i, s in enumerate(seq):
            act.append(None if s == 'gap' else
                       chain('chain%d' % i, None if s is None else ring(s)))
        own = ring('own') if False else obj(
            it, 'Ring', 'new contour', parent=None, children=ListV([]),
            node=None, index=n(50), bottom_node=None, corrected=False)
        b = chain('new chain', own)
        act.append(b)
        # chains to the right must not matter
        open_ = []
        for s in seq:
            if s in (None, 'gap'):
                continue
            open_.remove(s) if s in open_ else open_.append(s)
        if right == 1:
            act += [chain('right of %s' % s, ring(s)) for s in open_[::-1]]
        elif right == 2:
            act += [None, chain('right', ring(90)), chain('right', ring(90))]
        m = obj(it, 'RingManager', 'manager', children=ListV([]),
                rings=ListV([]))
        meth(it, m, 'set_hole_state', b, ListV(act))
        want = rings[open_[-1]] if open_ else None
        got = it.getattr(own, 'parent')
        if got is not want:
            return 'with %s to the left the new contour is put under %s ' \
                'instead of %s' % (
                    ['-' if s is None else s for s in seq],
                    got.label if got else 'none',
                    want.label if want else 'none')
        for o in [m] + list(rings.values()):
            inside = [c for c in it.getattr(o, 'children').items
                      if c is not None]
            due = [own] if o is (want or m) else []
            if len(inside) != len(due) or any(
                    x is not y for x, y in zip(inside, due)):
                return 'the new contour is not listed where its parent says'
        return None
    return run


def register(ctx, rule):
    for k in range(0, 7 if ctx.thorough else 6):
        seqs = list(sequences(k, 4))
        for right in (0, 1, 2):
            ctx.table(rule, 'a contour opened with %d entries to its left, '
                      'right side %d' % (k, right), case(seqs, right),
                      anchors=['RingManager.set_hole_state'],
                      max_paths=40000)
