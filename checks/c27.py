"""The package and the compiled module share one vocabulary."""
import re

from wv.absint import Interp, PyRaise, Unsupported
from wv.build import enums, meth, n, obj
from wv.cpp import CppUnsupported, Runner, Sources
from wv.sweep import members

KINDS = ('OperationKind', 'FillKind', 'PolygonKind', 'EdgeSide')
CALLS = ('intersect', 'unite', 'subtract', 'symmetric_subtract')
POINTS = {'PointInPolygonResult': {
    'ON': 'on', 'INSIDE': 'inside', 'OUTSIDE': 'outside'}}


def literal(t):
    return t[1:-1] if t and t.startswith('"') else None


class Binding:
    """What the compiled module exposes, read from its source."""

    def __init__(self, root):
        self.s = Sources(root)
        self.enums = self.s.enums()
        self.aliases = self.s.aliases()
        self.macros = self.s.macros(root)
        self.kinds = {}       # exposed name -> {member: value}
        self.classes = {}     # exposed name -> {method: tokens}
        for ts in self.s.files.values():
            self.read(ts)

    def name(self, t):
        return literal(t) or self.macros.get(t)

    def read(self, ts):
        current = None
        i = 0
        while i < len(ts) - 3:
            t = ts[i]
            if t in ('enum_', 'class_') and ts[i + 1] == '<':
                j = i + 2
                while ts[j] != '(':
                    j += 1
                name = self.name(ts[j + 3]) if ts[j + 2] == ',' else None
                current = None
                if name:
                    table = self.kinds if t == 'enum_' else self.classes
                    current = table.setdefault(name, {})
                i = j
            elif t == ';' and current is not None and ts[i + 1] in (
                    'py', 'm', '}'):
                current = None
            elif t == '.' and ts[i + 2] == '(' and current is not None:
                from wv.cpp import match
                end = match(ts, i + 2)
                key = literal(ts[i + 3])
                if key and ts[i + 4] == ',' and ts[i + 1] in (
                        'value', 'def'):
                    rest = ts[i + 5:end]
                    if ts[i + 1] == 'value':
                        e = rest[-1]
                        if e not in self.enums:
                            raise CppUnsupported('enumerator ' + e)
                        current[key] = self.enums[e][1]
                    else:
                        current[key] = rest
                i = end
            i += 1


def vocabulary(ctx, b, kind):
    def fn(res):
        it = Interp(ctx.p)
        if b is None or kind not in b.kinds:
            res.undecided.append('the compiled module exposes no ' + kind)
            return
        mine = {m.name: it.const_int(m.value) for m in enums(it, kind)}
        theirs = b.kinds[kind]
        where = ctx.p.need_class(kind)
        where = '%s:%d' % (where.module.relpath, where.node.lineno)
        for k in sorted(set(mine) | set(theirs)):
            res.paths += 1
            if k not in mine:
                res.violations.append((
                    '%s.%s exists only in the compiled module' % (kind, k),
                    where, []))
            elif k not in theirs:
                res.violations.append((
                    '%s.%s exists only in the package' % (kind, k), where,
                    []))
            elif mine[k] != theirs[k]:
                res.violations.append((
                    '%s.%s is %d in the package and %d in the compiled '
                    'module' % (kind, k, mine[k], theirs[k]), where, []))
            else:
                res.held += 1
    ctx.job('vocabulary', kind, fn)


def results(ctx, b):
    def fn(res):
        it = Interp(ctx.p)
        cls = 'PointInPolygonResult'
        mine = {m.name: it.const_int(m.value) for m in enums(it, cls)}
        theirs = {}
        for e, (name, v) in b.enums.items():
            if name == 'point_in_polygon_result':
                for k in ('on', 'inside', 'outside'):
                    if '_%s_' % k in '_%s_' % e:
                        theirs[k.upper()] = v
        if len(theirs) != 3:
            res.undecided.append('the results of the compiled containment '
                                 'test are unknown')
            return
        c = ctx.p.need_class(cls)
        for k, v in sorted(mine.items()):
            res.paths += 1
            if theirs.get(k) != v:
                res.violations.append((
                    '%s.%s is %d in the package and %s in the compiled '
                    'module' % (cls, k, v, theirs.get(k)), '%s:%d' % (
                        c.module.relpath, c.node.lineno), []))
            else:
                res.held += 1
    ctx.job('vocabulary', 'PointInPolygonResult', fn)


def operations(ctx, b, name):
    """Both sides run the same operation under the same name."""
    def fn(res):
        methods = b.classes.get('Wagyu', {})
        if name not in methods:
            res.violations.append(('the compiled module has no ' + name,
                                   'src', []))
            return
        if ctx.p.func('Wagyu.' + name) is None:
            res.violations.append(('the package has no ' + name, 'wagyu',
                                   []))
            return
        ts = methods[name]
        ops = [b.enums[t][1] for t in ts if t in b.enums
               and b.enums[t][0] == 'clip_type']
        fills = [b.enums[t][1] for i, t in enumerate(ts) if t in b.enums
                 and b.enums[t][0] == 'fill_type']
        if len(ops) != 1:
            res.undecided.append('the compiled operation of ' + name)
            return
        it = Interp(ctx.p)
        seen = []

        def sweep(it, args, bound):
            seen.append([it.const_int(v.value) for v in args
                         if hasattr(v, 'cls') and v.cls.name in (
                             'OperationKind', 'FillKind')])
        for s in ('build_hot_pixels', 'correct_topology', 'build_result'):
            it.stubs['RingManager.' + s] = lambda it, a, b: None
        it.stubs['RingManager.execute_vatti'] = sweep
        from wv.build import new
        try:
            w = new(it, 'Wagyu')
            it.setattr(w, 'minimums', new(it, 'LocalMinimumList', obj(
                it, 'LocalMinimum', 'minimum')))
            meth(it, w, name)
        except (Unsupported, PyRaise) as e:
            res.undecided.append('%s: %s' % (name, e))
            return
        res.functions |= it.calls
        res.paths += 1
        if len(seen) != 1 or len(seen[0]) != 3:
            res.undecided.append('the sweep of ' + name)
            return
        if seen[0][0] != ops[0]:
            res.violations.append((
                '%s runs operation %d in the package and %d in the compiled '
                'module' % (name, seen[0][0], ops[0]),
                ctx.p.func('Wagyu.' + name).where, []))
        elif fills and any(set(fills) != {f} for f in seen[0][1:]):
            res.violations.append((
                'the rules %s takes by default are %s in the package and %s '
                'in the compiled module' % (name, seen[0][1:],
                                            sorted(set(fills))),
                ctx.p.func('Wagyu.' + name).where, []))
        else:
            res.held += 1
    ctx.job('operations', name, fn)


def target(ts):
    """The function a method is bound to: a::b::name<...>."""
    names = [t for i, t in enumerate(ts) if re.match(r'[A-Za-z_]', t)
             and (i == 0 or ts[i - 1] in ('::', '&'))]
    if not names or '[' in ts:
        return None
    return names[-1]


def agree(ctx, b, method, op, kind):
    def fn(res):
        ts = b.classes.get('Bound', {}).get(method)
        name = target(ts) if ts else None
        if name is None:
            res.undecided.append('the compiled ' + method)
            return
        run = Runner(b.s, b.enums)
        ctxp = ctx.p.need('Bound.' + method)
        for sf in range(4):
            for cf in range(4):
                for w in range(-2, 3):
                    for ow in range(-2, 3):
                        it = Interp(ctx.p)
                        o, f, k = members(it)
                        by = {it.const_int(v.value): v for v in f.values()}
                        bound = obj(it, 'Bound', 'bound',
                                    polygon_kind=k[kind], winding_count=n(w),
                                    opposite_winding_count=n(ow))
                        args = [by[sf], by[cf]]
                        theirs = [sf, cf]
                        if op is not None:
                            args.insert(0, o[op])
                            theirs.insert(0, it.const_int(o[op].value))
                        c = {'poly_type': it.const_int(k[kind].value),
                             'winding_count': w, 'winding_count2': ow}
                        try:
                            mine = it.truth(meth(it, bound, method, *args))
                            other = bool(run.call(name, [c] + theirs))
                        except (Unsupported, CppUnsupported, PyRaise) as e:
                            res.undecided.append(str(e))
                            return
                        res.functions |= it.calls
                        res.paths += 1
                        if mine is not other:
                            res.violations.append((
                                'for subject rule %d, clip rule %d, winding '
                                'numbers %d and %d the package answers %s '
                                'and the compiled module %s' % (
                                    sf, cf, w, ow, mine, other), ctxp.where,
                                []))
                            return
                        res.held += 1
        if not run.literals <= {0, 1}:
            res.undecided.append('compares with other numbers: %s' % sorted(
                map(str, run.literals)))
    ctx.job('agree', '%s, %s%s chain' % (method, op + ' of ' if op else '',
                                         kind), fn)


def build(ctx):
    ctx.p.need('Bound.is_contributing')
    ctx.assume('the numeric meaning of the compiled module is read from its '
               'sources; winding numbers are told apart as at most -2, -1, '
               '0, 1, at least 2 (the decisions compare with these only)')
    ctx.rule('vocabulary', 'both sides have the same members with the same '
             'numbers')
    ctx.rule('operations', 'both sides run the same operation and default '
             'rules under the same name')
    ctx.rule('agree', 'both sides decide alike for every rule, kind, '
             'operation and winding number')
    try:
        b = Binding(ctx.p.root)
    except (CppUnsupported, OSError, IndexError, ValueError) as e:
        for k in KINDS:
            ctx.job('vocabulary', k, lambda r, e=e: r.undecided.append(
                'the sources of the compiled module: %s' % e))
        return
    for k in KINDS:
        vocabulary(ctx, b, k)
    results(ctx, b)
    for c in CALLS:
        operations(ctx, b, c)
    for kind in ('SUBJECT', 'CLIP'):
        for op in ('INTERSECTION', 'UNION', 'DIFFERENCE', 'XOR'):
            agree(ctx, b, 'is_contributing', op, kind)
        for m in ('is_even_odd_fill_kind', 'is_even_odd_alt_fill_kind'):
            agree(ctx, b, m, None, kind)
