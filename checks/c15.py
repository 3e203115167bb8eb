"""Inconsistent states are reported, consistent ones never fail."""
import ast
import itertools

from wv import forest
from wv.absint import Infeasible, ListV, ObjV, PyRaise
from wv.build import EXACT, call, meth, n, obj, point
from wv.forest import ACCIDENTS
from wv.sweep import members


# -- nesting -----------------------------------------------------------------
def reported(it, c):
    """Judges only whether the step failed, and whether it had to."""
    s = c.make(it)
    due = s.due if hasattr(s, 'due') else lambda: bool(s.error)
    s.go()
    if s.raised is None:
        if due():
            return 'an inconsistent nesting is accepted'
        return None
    if not due():
        return 'a consistent nesting fails: %s' % s.raised.name
    return None


def homeless(it):
    """A contour split off whose orientation asks for a container that is
    nowhere."""
    h = forest.Grove(it, ['A', 'B'])
    which = it.choose(2, 'split contour is a hole')
    top = 'A'
    if which:
        h = forest.Grove(it, ['A', 'A1', 'B'])
        top = 'A1'
    hole = len(top) % 2 == 0
    same = h.plain('S', None, hole, listed=False)
    other = h.plain('T', None, not hole, listed=False)
    if not it.sign(it.sym('aS') - it.sym('aT'), {1}):
        raise Infeasible()
    h.truth = lambda a, b: False
    new = [same, other] if it.choose(2, 'order') else [other, same]
    return fails(it, lambda: meth(
        it, h.manager, 'assign_new_ring_parents', h.by[top], ListV(new)),
        True, 'a contour that lies in none of the candidates is nested')


def fails(it, action, due, said):
    try:
        action()
    except PyRaise as e:
        if e.name in ACCIDENTS:
            raise
        return None if due else 'a consistent state fails: %s' % e.name
    return said if due else None


# -- crossings -----------------------------------------------------------------
def solvable(size, crossings):
    """Whether some order processes all crossings between neighbours."""
    def rec(state, left):
        if not left:
            return True
        for i, (a, b) in enumerate(left):
            p, q = state.index(a), state.index(b)
            if abs(p - q) == 1:
                nxt = list(state)
                nxt[p], nxt[q] = nxt[q], nxt[p]
                if rec(nxt, left[:i] + left[i + 1:]):
                    return True
        return False
    return rec(list(range(size)), list(crossings))


def listed(size, sets):
    def run(it):
        crossings = sets[it.choose(len(sets), 'crossings')]
        o, f, _ = members(it)
        bs = [obj(it, 'Bound', 'bound%d' % i, ring=None) for i in range(size)]
        nodes = [obj(it, 'IntersectNode', 'crossing%d%d' % c,
                     first_bound=bs[c[0]], second_bound=bs[c[1]],
                     point=obj(it, 'Point', 'at%d%d' % c)) for c in crossings]
        abl = ListV(list(bs))
        far = []

        def cross(it, args, bound):
            b = [v for v in bound.values() if isinstance(v, ObjV)
                 and v.cls.name == 'Bound']
            if abs(abl.items.index(b[1]) - abl.items.index(b[0])) != 1:
                far.append(b)
            return None
        it.stubs = {'RingManager.intersect_bounds': cross,
                    'Point.round': lambda it, a, b: a[0]}
        due = not solvable(size, crossings)
        try:
            meth(it, obj(it, 'RingManager', 'manager'),
                 'process_intersect_list', ListV(nodes), o['UNION'],
                 f['NON_ZERO'], f['POSITIVE'], abl)
        except PyRaise as e:
            if e.name in ACCIDENTS:
                raise
            return None if due else 'crossings %s fail' % (crossings,)
        if far:
            return 'chains that are not neighbours are crossed'
        if due:
            return 'crossings %s are accepted' % (crossings,)
        return None
    return run


def crossing_sets(size, thorough):
    """Lists of crossings: all orders of consistent ones, and unsolvable
    ones."""
    pairs = [(i, j) for i in range(size) for j in range(i + 1, size)]
    out = []
    for k in range(1, 4 if size < 4 or thorough else 3):
        for c in itertools.permutations(pairs, k):
            final = consistent(size, c)
            if final or not solvable(size, c):
                out.append(c)
    return out


def consistent(size, c):
    """The crossings are the inversions of some order of the chains."""
    for perm in itertools.permutations(range(size)):
        inv = {(i, j) for i in range(size) for j in range(i + 1, size)
               if perm.index(i) > perm.index(j)}
        if inv == set(c):
            return True
    return False


def swapped(way):
    def run(it):
        x = [it.sym('x%d' % i) for i in range(2)]
        apart = it.sign(x[0] - x[1])
        height = it.sym('scanline')
        meets = bool(it.choose(2, 'edges meet'))
        chains = []
        for i in range(2):
            e = obj(it, 'Edge', 'edge%d' % i)
            e.i = i
            c = obj(it, 'Bound', 'chain%d' % i, edges=ListV([e]),
                    current_x=x[i], position=n(9),
                    winding_count=n(0), opposite_winding_count=n(0))
            it.setattr(c, 'current_edge_index', n(0))
            chains.append(c)
        it.stubs['Edge.get_current_x'] = lambda it, a, b: x[a[0].i]
        it.stubs['Edge.__and__'] = lambda it, a, b: (
            point(it, it.sym('px'), it.sym('py')) if meets else None)
        it.stubs['Point.round'] = lambda it, a, b: a[0]
        it.stubs['are_edges_slopes_equal'] = lambda it, a, b: False
        mgr = obj(it, 'RingManager', 'manager', hot_pixels=ListV([]))
        due = apart == 1 and not meets

        def action():
            if way == 'list':
                return call(it, 'build_intersect_list', ListV(chains))
            return meth(it, mgr, 'process_hot_pixel_intersections', height,
                        ListV(chains))
        return fails(it, action, due,
                     'edges that change places without meeting are accepted')
    return run


def maximum(it):
    o, f, _ = members(it)
    r = [obj(it, 'Ring', 'contour') if it.choose(2, 'chain %d open' % i)
         else None for i in range(2)]
    gap = it.choose(2, 'between')
    top = point(it, n(1), n(1))
    bs = [obj(it, 'Bound', 'chain%d' % i, ring=r[i], current_edge=obj(
        it, 'Edge', 'edge%d' % i, top=top, bottom=point(it, n(0), n(5))))
        for i in range(2)]
    bs[0].fields['maximum_bound'] = bs[1]
    bs[1].fields['maximum_bound'] = bs[0]
    mid = [obj(it, 'Bound', 'between', ring=None)] if gap else []
    it.stubs = {'RingManager.intersect_bounds': lambda it, a, b: None,
                'RingManager.add_local_maximum_point':
                lambda it, a, b: None}
    abl = ListV([bs[0]] + mid + [bs[1]])
    due = (r[0] is None) != (r[1] is None)
    return fails(it, lambda: meth(
        it, obj(it, 'RingManager', 'manager'), 'do_maxima', o['UNION'],
        f['NON_ZERO'], f['POSITIVE'], n(0), n(1 + gap), abl), due,
        'a maximum of a chain on a contour and one on none is accepted')


# -- swallowing ---------------------------------------------------------------
CAUGHT = {'RuntimeError', 'Exception', 'BaseException'}


def catches(h):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(ast.unparse(t).split('.')[-1] in CAUGHT for t in ts)


def always_raises(body):
    for st in body:
        if isinstance(st, ast.Raise):
            return True
        if isinstance(st, ast.If) and st.orelse and always_raises(
                st.body) and always_raises(st.orelse):
            return True
        if isinstance(st, (ast.With,)) and always_raises(st.body):
            return True
        if isinstance(st, (ast.Return, ast.Break, ast.Continue)):
            return False
    return False


def own_nodes(node):
    """The nodes of a function without those of nested ones."""
    stack = [node]
    while stack:
        x = stack.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            stack.append(c)


def swallow(ctx):
    p = ctx.p
    named = {}
    for f in p.all_functions():
        named.setdefault(f.name, []).append(f)
    raising = set()
    uses = {}
    for f in p.all_functions():
        names = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Raise) and x.exc is not None:
                e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
                if ast.unparse(e).split('.')[-1] == 'RuntimeError':
                    raising.add(f)
            elif isinstance(x, ast.Attribute):
                names.add(x.attr)
            elif isinstance(x, ast.Name):
                names.add(x.id)
        uses[f] = names
    changed = True
    while changed:
        changed = False
        for f, names in uses.items():
            if f in raising:
                continue
            if any(g in raising for nm in names for g in named.get(nm, ())):
                raising.add(f)
                changed = True

    def may_raise(body):
        for st in body:
            for x in ast.walk(st):
                if isinstance(x, ast.Raise):
                    return True
                nm = (x.attr if isinstance(x, ast.Attribute) else
                      x.id if isinstance(x, ast.Name) else None)
                if nm and any(g in raising for g in named.get(nm, ())):
                    return True
                # operators may run methods of the package
                if isinstance(x, (ast.BinOp, ast.Compare)) and any(
                        g in raising for m in ('__and__', '__lt__')
                        for g in named.get(m, ())):
                    return True
        return False

    def fn(res):
        handlers = 0
        for m in p.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Try):
                    for h in x.handlers:
                        handlers += 1
                        if catches(h) and not always_raises(h.body) \
                                and may_raise(x.body):
                            res.violations.append((
                                'an error of an inconsistent state is caught '
                                'and dropped', '%s:%d' % (m.relpath,
                                                          h.lineno), []))
                    for st in x.finalbody:
                        for y in ast.walk(st):
                            if isinstance(y, ast.Return) and may_raise(
                                    x.body):
                                res.violations.append((
                                    'a return in a finally clause drops '
                                    'errors', '%s:%d' % (m.relpath, y.lineno),
                                    []))
                elif isinstance(x, (ast.With,)):
                    for i in x.items:
                        e = i.context_expr
                        if isinstance(e, ast.Call) and ast.unparse(
                                e.func).split('.')[-1] == 'suppress' and any(
                                ast.unparse(a).split('.')[-1] in CAUGHT
                                for a in e.args) and may_raise(x.body):
                            res.violations.append((
                                'an error of an inconsistent state is '
                                'suppressed', '%s:%d' % (m.relpath, x.lineno),
                                []))
        res.held = handlers + 1
        res.paths = len(raising)
        res.notes.append('functions that can report: %d' % len(raising))
    ctx.job('not-swallowed', 'handlers of the package', fn)


def build(ctx):
    ctx.rule('nesting', 'nesting a contour under one of its own orientation, '
             'or a hole under none, fails; consistent nestings do not')
    for c in forest.steps(ctx.thorough):
        if not set('gn') & set(c.topics):
            continue

        def run(it, c=c):
            return reported(it, c)
        ctx.table('nesting', c.name, run, c.stubs, anchors=c.anchors,
                  loops='undecided', max_paths=c.max_paths)
    stubs = dict(EXACT, **{'Ring.inside_of': forest.ancestor_stub})
    ctx.table('nesting', 'a contour split off that lies in no candidate',
              homeless, stubs, anchors=['RingManager.assign_new_ring_parents',
                                        'Ring.inside_of'],
              loops='undecided')
    ctx.rule('crossing-order', 'crossings that cannot be brought into an '
             'order of neighbours fail; inversions of an order never do')
    for size in (2, 3, 4):
        sets = crossing_sets(size, ctx.thorough)
        parts = 4 if len(sets) > 30 else 1
        for part in range(parts):
            ctx.table('crossing-order', '%d chains, part %d' % (size, part),
                      listed(size, sets[part::parts]), anchors=[
                          'RingManager.process_intersect_list',
                          'RingManager.intersect_bounds', 'Point.round'],
                      raises='violation', max_paths=100000)
    ctx.rule('meeting', 'edges that change places without meeting fail')
    for way, name in (('list', 'build_intersect_list'),
                      ('hot', 'RingManager.process_hot_pixel_intersections')):
        ctx.table('meeting', name, swapped(way), anchors=[
            name, 'Edge.__and__', 'Edge.get_current_x', 'Point.round',
            'are_edges_slopes_equal'])
    ctx.rule('maximum', 'a maximum of one chain on a contour and one on none '
             'fails, any other does not')
    ctx.table('maximum', 'do_maxima', maximum, anchors=[
        'RingManager.do_maxima', 'RingManager.intersect_bounds',
        'RingManager.add_local_maximum_point'])
    ctx.rule('not-swallowed', 'no handler drops an error reported for an '
             'inconsistent state')
    swallow(ctx)
