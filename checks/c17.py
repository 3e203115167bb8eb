"""Horizontal and vertical coordinates are never mixed."""
import ast

from checks.c20 import survey
from wv.flow import NONE, Flow
from wv.types import Types, all_args

X, Y = ('U', (('x', 1),)), ('U', (('y', 1),))
K = ('K',)                       # a plain number: fits anything
AXES = {'x': X, 'y': Y}
PASS = {'float', 'int', 'abs', 'round', 'floor', 'ceil', 'trunc', 'fabs',
        'Decimal', 'Fraction', 'to_integral_value', 'quantize', 'rint',
        'c_int32', 'c_int64', 'c_double', 'c_float', 'list', 'tuple',
        'sorted', 'reversed', 'set', 'frozenset', 'iter', 'next', 'pop',
        'popleft', 'copy', 'deepcopy', 'deque', '__getitem__',
        'nextafter', 'fmod', 'copysign', 'to_integral_exact', 'normalize',
        'islice', 'chain', 'cycle', 'sum', 'fsum', 'accumulate', 'array'}
OF_RECEIVER = {'to_integral_value', 'to_integral_exact', 'quantize', 'pop',
               'popleft', 'copy', 'normalize', '__getitem__'}
TOGETHER = {'min', 'max', 'isclose', 'fmod'}


def mono(factors):
    """The product of (base, exponent) pairs."""
    out = {}
    for b, e in factors:
        out[b] = out.get(b, 0) + e
    return ('U', tuple(sorted(((b, e) for b, e in out.items() if e),
                              key=repr)))


def show(m):
    if m == K:
        return 'a number'
    if m[0] == 'T':
        return '(%s)' % ', '.join('/'.join(map(show, sorted(
            p, key=repr))) or '?' for p in m[1])
    if not m[1]:
        return 'a ratio'
    names = {X: 'horizontal', Y: 'vertical'}
    if m in names:
        return names[m]
    return '*'.join('%s%s' % (b if isinstance(b, str) else 'argument',
                              '' if e == 1 else '^%g' % e) for b, e in m[1])


def fits(a, b):
    """Can quantities of the marks stand on one scale?"""
    if a == b or K in (a, b) or a[0] != 'U' or b[0] != 'U':
        return True
    # squares of lengths
    square = [all(e % 2 == 0 for _, e in m[1]) and sum(
        e for _, e in m[1]) == 2 for m in (a, b)]
    return all(square)


def clash(a, b):
    """No way for the two to be on one scale."""
    a = {m for m in a if m != K}
    b = {m for m in b if m != K}
    return bool(a and b) and not any(fits(p, q) for p in a for q in b)


class Axes:
    """Marks: what powers of horizontal and vertical lengths a number is."""

    def __init__(self, types, points):
        self.t, self.points = types, points

    def cap(self, marks):
        return marks if len(marks) < 60 else NONE

    def open(self, m):
        if m[0] == 'T':
            return any(self.open(x) for p in m[1] for x in p)
        return m[0] == 'U' and any(isinstance(b, tuple) for b, _ in m[1])

    def partial(self, kind):
        return kind[0] == 'field'

    def keep_empty(self, kind):
        return False

    def refine(self, body, test, truth):
        pass

    def param(self, i, a, f):
        return frozenset({('U', ((('P', i), 1),))})

    def subst(self, m, args, g):
        if not self.open(m):
            return {m}
        if m[0] == 'T':
            return {('T', tuple(frozenset().union(*[
                self.subst(x, args, g) for x in p]) if p else p
                for p in m[1]))}
        out = {()}
        for b, e in m[1]:
            if not isinstance(b, tuple):
                out = {fs + ((b, e),) for fs in out}
                continue
            a = args[b[1]] if b[1] < len(args) else None
            if a is None:
                a = self.default(g, b[1])
            if m[1] == ((b, 1),):
                return set(a)
            new = set()
            for fs in out:
                for x in a:
                    if x == K:
                        new.add(fs)
                    elif x[0] == 'U':
                        new.add(fs + tuple((c, d * e) for c, d in x[1]))
            out = new
        return {mono(fs) for fs in out}

    def default(self, g, i):
        pos = g.node.args.posonlyargs + g.node.args.args
        ds = g.node.args.defaults
        if i < len(pos) and i >= len(pos) - len(ds):
            d = ds[i - (len(pos) - len(ds))]
            if isinstance(d, ast.Constant) and isinstance(
                    d.value, (int, float)):
                return frozenset({K})
        return NONE

    def const(self, v):
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return frozenset({K})
        return NONE

    def name(self, body, e):
        return NONE

    def items(self, marks):
        return marks

    def item(self, marks, i):
        out = set()
        for m in marks:
            if m[0] == 'T':
                if isinstance(i, ast.Constant) and isinstance(
                        i.value, int) and -len(m[1]) <= i.value < len(m[1]):
                    out |= m[1][i.value]
                else:
                    for p in m[1]:
                        out |= p
            else:
                out.add(m)
        return frozenset(out)

    def parts(self, marks, n):
        out = [set() for _ in range(n)]
        for m in marks:
            if m[0] == 'T' and len(m[1]) == n:
                for o, p in zip(out, m[1]):
                    o |= p
        return [frozenset(o) for o in out]

    def pack(self, body, e, ms):
        if not any(ms) or any(isinstance(x, ast.Starred) for x in e.elts):
            return NONE
        return frozenset({('T', tuple(flat(m) for m in ms))})

    def gather(self, body, e, ms):
        return frozenset().union(*ms) if ms else NONE

    def unary(self, body, e, m):
        return m

    # -- demands -------------------------------------------------------
    def same(self, body, node, what, a, b):
        a, b = strip(a), strip(b)
        if not a or not b:
            return
        for p in a:
            for q in b:
                if p[0] == q[0] == 'T':
                    for u, v in zip(p[1], q[1]):
                        self.same(body, node, what, u, v)
        a = frozenset(m for m in a if m[0] == 'U')
        b = frozenset(m for m in b if m[0] == 'U')
        if a and b and a != b:
            body.effect(('same', what), body.here(node), (a, b))
        elif a and b:
            body.effect(('same', what), body.here(node), (a, b))

    def compare(self, body, e, vs):
        for op, l, r in zip(e.ops, vs, vs[1:]):
            if not isinstance(op, (ast.Is, ast.IsNot)):
                self.same(body, e, 'compares', l, r)

    def binop(self, body, e, op, l, r):
        if isinstance(op, (ast.Add, ast.Sub)):
            self.same(body, e, 'adds', l, r)
            both = l | r
            return strip(both) or both
        if isinstance(op, (ast.Mult, ast.Div, ast.FloorDiv)):
            sign = 1 if isinstance(op, ast.Mult) else -1
            out = set()
            for p in l:
                for q in r:
                    if p[0] == 'T' or q[0] == 'T':
                        continue
                    if p == K and q == K:
                        out.add(K)
                        continue
                    fs = [] if p == K else list(p[1])
                    fs += [] if q == K else [(b, sign * x)
                                             for b, x in q[1]]
                    out.add(mono(fs))
            return frozenset(m for m in out if size(m) <= 8)
        if isinstance(op, ast.Mod):
            return l
        if isinstance(op, ast.Pow) and isinstance(e, ast.BinOp) and \
                isinstance(e.right, ast.Constant) and isinstance(
                    e.right.value, (int, float)):
            n = e.right.value
            return frozenset(m if m == K else mono(
                [(b, x * n) for b, x in m[1]]) for m in l if m[0] != 'T')
        return NONE

    def attr(self, body, e, base):
        out = NONE
        known = False
        for a in body.flow.typ(e.value):
            if a[0] != 'inst':
                continue
            known = True
            if a[1].qual in self.points and e.attr in AXES:
                out |= {AXES[e.attr]}
                continue
            for k in a[1].mro():
                out |= body.flow.fields.get((k.qual, e.attr), NONE)
        if not known and e.attr == 'value':
            return base
        return out

    def store(self, body, target, marks, value, inside=False):
        for a in body.flow.typ(target.value):
            if a[0] != 'inst':
                continue
            c = a[1]
            if c.qual in self.points and target.attr in AXES:
                self.same(body, target, 'stores',
                          marks, frozenset({AXES[target.attr]}))
                continue
            home = c
            for k in c.mro():
                if (k.qual, target.attr) in body.flow.t.fields:
                    home = k
                    break
            if marks:
                body.effect(('field', home.qual, target.attr), None,
                            (strip(marks) or marks,))
                body.effect(('kept', home.qual, target.attr),
                            body.here(target), (strip(marks) or marks,))

    def new(self, body, e, cls, init, args):
        return NONE

    def external(self, body, e, name, recv, args, kws):
        if name in TOGETHER and len(args) > 1:
            for a, b in zip(args, args[1:]):
                self.same(body, e, 'compares', a, b)
            both = frozenset().union(*args)
            return NONE if name == 'isclose' else strip(both) or both
        if name in ('min', 'max') and args:
            return args[0]
        if name == 'enumerate' and args:
            return frozenset({('T', (NONE, flat(args[0])))})
        if name == 'zip' and args:
            return frozenset({('T', tuple(flat(a) for a in args))})
        if name == 'groupby' and args:
            return frozenset({('T', (flat(args[0]) if len(args) < 2 else
                                     NONE, flat(args[0])))})
        if name == 'sqrt' and args:
            return frozenset(m if m == K else mono(
                [(b, x / 2) for b, x in m[1]]) for m in args[0]
                if m[0] != 'T')
        if name in PASS:
            if name in OF_RECEIVER and isinstance(e.func, ast.Attribute):
                return recv
            return args[0] if args else recv
        return NONE


def size(m):
    return sum(abs(e) for _, e in m[1]) if m[0] == 'U' else 0


def strip(marks):
    return frozenset(m for m in marks if m != K)


def flat(marks, depth=2):
    """Tuples within tuples only so deep."""
    return frozenset(m for m in marks if m[0] != 'T' or depth > 0 and all(
        q[0] != 'T' for p in m[1] for q in p))


def axis_job(flow, kind, f_qual, entries):
    def fn(res):
        res.functions.add(f_qual)
        res.paths += len(entries)
        for (k, site, (a, b)), trace in entries:
            if clash(a, b):
                res.violations.append((
                    '%s %s and %s' % (k[1], ' or '.join(map(show, sorted(
                        a, key=repr))), ' or '.join(map(show, sorted(
                            b, key=repr)))), site, list(trace)))
            else:
                res.held += 1
    return fn


def kept_job(flow, key, entries):
    def fn(res):
        res.paths += len(entries)
        units = {}
        for site, marks in sorted(entries, key=repr):
            for m in marks:
                if m[0] == 'U':
                    units.setdefault(m, site)
        odd = sorted(units, key=repr)
        for i, a in enumerate(odd):
            for b in odd[i + 1:]:
                if not fits(a, b):
                    res.violations.append((
                        '%s.%s is given %s here and %s at %s' % (
                            key[0].split('.')[-1], key[1], show(b), show(a),
                            units[a]), units[b], []))
                    return
        res.held += 1
    return fn


def ret_job(flow, f):
    def fn(res):
        res.functions.add(f.qual)
        res.paths += 1
        units = sorted((m for m in flow.sums[f].ret if m[0] == 'U'
                        and not flow.dom.open(m)), key=repr)
        parts = {}
        for m in flow.sums[f].ret:
            if m[0] == 'T':
                for i, p in enumerate(m[1]):
                    parts.setdefault((len(m[1]), i), set()).update(
                        q for q in p if q[0] == 'U' and not flow.dom.open(q))
        for group in [units] + [sorted(v, key=repr)
                                for v in parts.values()]:
            for i, a in enumerate(group):
                for b in group[i + 1:]:
                    if not fits(a, b):
                        res.violations.append((
                            'returns %s on some paths and %s on others' % (
                                show(a), show(b)), f.where, []))
                        return
        res.held += 1
    return fn


def build(ctx):
    types = Types(ctx.p)
    _, vertices, points = survey(ctx.p, types)
    flow = Flow(types, Axes(types, vertices | points))
    ctx.rule('scale', 'nothing horizontal is added to, compared with or '
                      'stored as something vertical; products and quotients '
                      'keep their powers of each')
    ctx.rule('kept', 'what a field or list holds is of one kind')
    ctx.rule('results', 'what a function returns is of one kind')
    ctx.assume('x of a point or vertex is horizontal, y vertical; plain '
               'numbers fit anything; sums of squares are lengths.')
    ctx.assume('A place is reported only when no combination of what may '
               'arrive there fits; what is not known is not judged.')
    by_fn = {}
    kept = {}
    for key, trace in flow.done.items():
        kind, site, payload = key
        if kind[0] == 'same':
            by_fn.setdefault(site.split('(')[-1].rstrip(')'), []).append(
                (key, trace))
        elif kind[0] == 'kept':
            kept.setdefault(kind[1:], []).append((site, payload[0]))
    judged = sum(len(v) for v in by_fn.values())
    ctx.extra['flow'] = {'functions': len(flow.sums),
                         'places_judged': judged,
                         'fields_judged': len(kept),
                         'settled': flow.steady}
    if not points or not vertices or judged < 10:
        ctx.job('scale', 'package', lambda r: r.undecided.append(
            'too little is known about coordinates'))
        return
    for name, entries in sorted(by_fn.items()):
        ctx.job('scale', name, axis_job(flow, 'scale', name, sorted(
            entries, key=repr)))
    for key, entries in sorted(kept.items()):
        ctx.job('kept', '%s.%s' % key, kept_job(flow, key, entries))
    for f in types.order:
        if flow.sums[f].ret:
            ctx.job('results', f.qual, ret_job(flow, f))
