"""Operations are repeatable on one accumulator."""
import ast

from checks import c08, c25, c26
from checks.c04 import changed
from checks.c18 import at, own_nodes
from wv.absint import ListV
from wv.build import EXACT, meth, obj
from wv.owner import KEPT, owned
from wv.sweep import KINDS, OPS, members, sides
from wv.types import own_fields_stored

ENDS = {('Bound', 'last_point')}


def reads(types, live):
    """(class name, field) read by functions that an operation may run,
    comparing and printing whole objects left out."""
    out = set()
    for f in live:
        if f.name in ('__repr__', '__str__'):
            continue
        for n in own_nodes(f):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                for a in types.node_types.get(id(n.value), ()):
                    if a[0] == 'inst':
                        out.add((a[1].name, n.attr))
            elif isinstance(n, ast.AugAssign) and isinstance(
                    n.target, ast.Attribute):
                for a in types.node_types.get(id(n.target.value), ()):
                    if a[0] == 'inst':
                        out.add((a[1].name, n.target.attr))
    return out


def memo(f, n):
    """The store is inside a test whether the field is still empty."""
    class Up(ast.NodeVisitor):
        found = False

        def visit_If(self, node):
            if any(x is n for s in node.body for x in ast.walk(s)) and any(
                    isinstance(x, ast.Compare) and len(x.ops) == 1
                    and isinstance(x.ops[0], ast.Is)
                    and isinstance(x.comparators[0], ast.Constant)
                    and x.comparators[0].value is None
                    and n.attr in ast.unparse(x.left)
                    for x in [node.test]):
                self.found = True
            self.generic_visit(node)

        def visit_Try(self, node):
            if any(x is n for h in node.handlers for x in ast.walk(h)) and \
                    any(isinstance(x, ast.Attribute) and x.attr == n.attr
                        for s in node.body for x in ast.walk(s)):
                self.found = True
            self.generic_visit(node)
    v = Up()
    v.visit(f.node)
    return v.found


def kept_job(types, f, scratch, read, live):
    def fn(res):
        T = lambda e: types.node_types.get(id(e), frozenset())
        res.functions.add(f.qual)
        for n, e, how in changed(types, f):
            res.paths += 1
            t = T(e)
            if KEPT not in t:
                res.held += 1
                continue
            if isinstance(n, ast.Attribute):
                cs = [a[1] for a in t if a[0] == 'inst']
                if cs and all(c.find_setter(n.attr) is not None
                              for c in cs):
                    continue
                keys = {(k.name, n.attr) for c in cs for k in c.mro()}
                if keys & scratch:
                    res.held += 1
                    continue
                if keys & ENDS:
                    res.held += 1
                    res.notes.append('%s: see rule ends' % at(f, n))
                    continue
                if cs and not keys & read:
                    res.held += 1
                    res.notes.append('%s: never read' % at(f, n))
                    continue
                if memo(f, n):
                    res.undecided.append('%s: a remembered value'
                                         % at(f, n))
                    continue
            res.violations.append((
                'an operation changes what was added and nothing sets it '
                'back: %s' % how, at(f, n), []))
    return fn


def ends(op, k1, k2, c1, c2):
    """A chain that joins a contour gets its end from this operation."""
    def run(it):
        o, f, k = members(it)
        s = sides(it)
        b1 = c08.make(it, k, s, k1, 1, 'NON_ZERO', 'NON_ZERO', c1, 1)
        b2 = c08.make(it, k, s, k2, 2, 'NON_ZERO', 'NON_ZERO', c2, -1)
        p = obj(it, 'Point', 'crossing')
        log = []
        it.stubs = {a: c08.recorder(it, log, e)
                    for a, e in c08.EVENTS.items()}
        old = [None if c else b.fields['last_point']
               for b, c in ((b1, c1), (b2, c2))]
        meth(it, obj(it, 'RingManager', 'manager'), 'intersect_bounds', p,
             o[op], f['NON_ZERO'], f['NON_ZERO'], b1, b2, ListV([b1, b2]))
        for b, stale in ((b1, old[0]), (b2, old[1])):
            if b.fields['ring'] is not None and stale is not None \
                    and b.fields['last_point'] is stale:
                return ('%s joins a contour with the end an earlier '
                        'operation left' % b.label)
        return None
    return run


def build(ctx):
    types, ops, adds, scratch = owned(ctx.p)
    ctx.rule('kept', 'whatever an operation changes on stored objects is set '
                     'afresh before the next one or never read')
    ctx.rule('afresh', 'stored chains restart from the same state whatever '
                       'an earlier operation left on them')
    ctx.rule('entered', 'every chain is set afresh when it enters a sweep, '
                        'the snap-point pass included')
    ctx.rule('ends', 'a chain joins a contour with an end set by the same '
                     'operation')
    ctx.assume('Every operation works on a manager of its own (C16) and '
               'nothing is shared between operations outside the '
               'accumulator (C04).')
    ctx.assume('An object is followed through names, fields, containers, '
               'parameters and results, joined over all assignments; what is '
               'read from a stored object counts as stored, except the '
               'fields set by LocalMinimum.initialize.')
    if not ops or scratch is None:
        ctx.job('kept', 'package', lambda r: r.undecided.append(
            'no accumulator or no LocalMinimum.initialize found'))
        return
    live = types.reachable(ops)
    read = reads(types, live)
    ctx.extra['operations'] = [f.qual for f in ops]
    ctx.extra['set_afresh'] = sorted('%s.%s' % x for x in scratch)
    for f in sorted(live, key=lambda f: f.where):
        ctx.job('kept', f.qual, kept_job(types, f, scratch, read, live))
    ctx.table('afresh', 'left over chains', c25.initialize, EXACT,
              anchors=['LocalMinimum.initialize'])
    for op in OPS:
        for k1 in KINDS:
            for k2 in KINDS:
                for c1 in (False, True):
                    for c2 in (False, True):
                        ctx.table('ends', '%s, %s%s x %s%s' % (
                            op, k1, ' on a contour' if c1 else '', k2,
                            ' on a contour' if c2 else ''),
                            ends(op, k1, k2, c1, c2),
                            anchors=['RingManager.intersect_bounds'])
    ctx.table('ends', 'the first vertex', c26.first_case, c26.SNAP,
              anchors=['RingManager.add_first_point'])
    ctx.table('ends', 'a local minimum', c26.minimum_case,
              dict(EXACT, **c26.SNAP),
              anchors=['RingManager.add_local_minimum_point',
                       'RingManager.insert_hot_pixels_in_path'])
    c25.entered(ctx, 'entered', 2)
