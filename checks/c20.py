"""Output vertices lie on the grid, rounded one way everywhere."""
import ast

from checks.c18 import own_nodes
from wv.flow import NONE, Flow
from wv.types import Types, all_args

VERTEX = 'PointNode'
PLAIN = {'len', 'isinstance', 'bool', 'range', 'id', 'hash', 'type', 'str',
         'repr', 'print', 'issubclass', 'callable', 'ord', 'isnan', 'isinf',
         'isfinite', 'is_integer', 'index', 'count', 'find', 'format',
         'setLevel', 'bit_length'}
ROUNDS = {'int', 'round', 'floor', 'ceil', 'trunc', 'rint',
          'to_integral_value', 'to_integral_exact', 'to_integral',
          'quantize', '__round__', '__floor__', '__ceil__', '__trunc__',
          '__int__'}


class Grid:
    """Marks (source, rounding): where a value off the grid comes from and
    how it was brought back, if it was."""

    def __init__(self, types, snaps, vertices, points):
        self.t = types
        self.snaps, self.vertices, self.points = snaps, vertices, points

    def cap(self, marks):
        return marks if len(marks) < 200 else frozenset(list(marks)[:200])

    def open(self, m):
        return isinstance(m[0], tuple)

    def partial(self, kind):
        return True

    def keep_empty(self, kind):
        return False

    def refine(self, body, test, truth):
        pass

    def param(self, i, a, f):
        return frozenset({(('P', i), None)})

    def subst(self, m, args, g):
        if not self.open(m):
            return {m}
        i = m[0][1]
        a = args[i] if i < len(args) else None
        if a is None:
            return set()
        return {(s, r if r is not None else m[1]) for s, r in a}

    def const(self, v):
        if isinstance(v, float) and v == v and abs(v) != float('inf') and \
                v != int(v):
            return frozenset({('a fraction', None)})
        return NONE

    def name(self, body, e):
        return NONE

    def items(self, marks):
        return marks

    def item(self, marks, i):
        return marks

    def parts(self, marks, n):
        return [marks] * n

    def pack(self, body, e, ms):
        return frozenset().union(*ms) if ms else NONE

    gather = pack

    def unary(self, body, e, m):
        return m

    def compare(self, body, e, vs):
        pass

    def binop(self, body, e, op, l, r):
        if isinstance(op, ast.Div):
            return frozenset({(body.f.qual, None)})
        if isinstance(op, ast.FloorDiv):
            return self.rounded(l | r, 'floor')
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift,
                           ast.RShift)):
            return NONE
        return l | r

    def rounded(self, marks, how):
        return frozenset((s, how if r is None else r) for s, r in marks)

    def attr(self, body, e, base):
        out = NONE
        t = body.flow.typ(e.value)
        known = False
        for a in t:
            if a[0] != 'inst':
                continue
            known = True
            c = a[1]
            if c.qual in self.points and e.attr in ('x', 'y'):
                out |= base
            if c.qual in self.snaps and e.attr in self.snaps[c.qual]:
                continue
            for k in c.mro():
                out |= body.flow.fields.get((k.qual, e.attr), NONE)
        return out if known else base

    def store(self, body, target, marks, value, inside=False):
        name = target.attr
        for a in body.flow.typ(target.value):
            if a[0] != 'inst':
                continue
            c = a[1]
            if c.qual in self.points and name in ('x', 'y') and \
                    body.f.name == '__init__' and body.f.cls is c:
                continue
            if c.qual in self.snaps and name in self.snaps[c.qual]:
                if body.f.name == '__init__' and body.f.cls is c:
                    continue
                body.effect(('sink', 'snap'), body.here(target), (marks,))
                continue
            if c.qual in self.vertices and name in ('x', 'y'):
                body.effect(('sink', 'vertex'), body.here(target), (marks,))
                continue
            home = c
            for k in c.mro():
                if (k.qual, name) in body.flow.t.fields:
                    home = k
                    break
            body.effect(('field', home.qual, name), None, (marks,))

    def new(self, body, e, cls, init, args):
        got = frozenset().union(*[a for a in args[1:] if a])
        if cls.qual in self.vertices:
            names = [a.arg for a in all_args(init.node)]
            placed = frozenset().union(*[
                a for n, a in list(zip(names, args))[1:3] if a])
            body.effect(('sink', 'vertex'), body.here(e), (placed,))
            return NONE
        if cls.qual in self.points:
            return got
        return NONE

    def external(self, body, e, name, recv, args, kws):
        got = recv
        for a in args + list(kws.values()):
            got |= a
        if name in PLAIN:
            return NONE
        if name in ROUNDS:
            if name == 'round' and len(e.args) > 1 and not (
                    isinstance(e.args[1], ast.Constant)
                    and e.args[1].value in (0, None)):
                return got
            return self.rounded(got, self.how(e, name))
        return got

    def how(self, e, name):
        """The rounding with what is added before and its mode."""
        bits = [name]
        for x in e.args + [k.value for k in e.keywords]:
            if isinstance(x, ast.Name) and x.id.startswith('ROUND_') or \
                    isinstance(x, ast.Attribute) and x.attr.startswith(
                        'ROUND_'):
                bits.append(x.id if isinstance(x, ast.Name) else x.attr)
            elif isinstance(x, ast.BinOp):
                for y in (x.left, x.right):
                    if isinstance(y, ast.Constant):
                        bits.append('%s %r' % (type(x.op).__name__, y.value))
        if name == 'quantize' or name.startswith('to_integral'):
            bits[0] = 'to integer'
        return ' '.join(bits)


def has_fields(types, c, names):
    return all(any((k.qual, n) in types.fields for k in c.mro())
               for n in names)


def survey(p, types):
    """Where snap points are kept, what vertices and points are."""
    snaps, vertices, points = {}, set(), set()
    for c in p.all_classes():
        if c.name == VERTEX:
            vertices.add(c.qual)
        elif has_fields(types, c, ('x', 'y')) and not has_fields(
                types, c, ('next',)):
            points.add(c.qual)
        if (c.qual, 'hot_pixels') in types.fields:
            snaps[c.qual] = {'hot_pixels'}
    return snaps, vertices, points


def sinks(flow, name):
    """source -> rounding -> (site, trace)"""
    out = {}
    for (kind, site, payload), trace in sorted(flow.done.items(), key=repr):
        if kind != ('sink', name):
            continue
        for s, r in payload[0]:
            ways = out.setdefault(s, {})
            if r not in ways or len(trace) < len(ways[r][1]):
                ways[r] = (site, trace)
    return out


def rounded_job(flow, name, what, n):
    def fn(res):
        found = sinks(flow, name)
        res.paths += n
        sites = {site for (kind, site, _) in flow.done
                 if kind == ('sink', name)}
        res.notes.append('places where computed values arrive: %s' % (
            ', '.join(sorted(sites)) or 'none'))
        bad = False
        for s, ways in sorted(found.items()):
            if None in ways:
                bad = True
                site, trace = ways[None]
                res.violations.append((
                    'a value computed in %s can become %s without being '
                    'rounded' % (s, what), site, list(trace)))
        if not flow.steady:
            res.undecided.append('marks did not settle')
        if not bad:
            res.held += max(1, len(sites))
    return fn


def agree_job(flow):
    def fn(res):
        a, b = sinks(flow, 'snap'), sinks(flow, 'vertex')
        res.paths += 1
        for s in sorted(set(a) & set(b)):
            ra = {r for r in a[s] if r is not None}
            rb = {r for r in b[s] if r is not None}
            if not ra or not rb:
                continue
            res.notes.append('%s: snap points by %s, vertices by %s' % (
                s, sorted(ra), sorted(rb)))
            if ra != rb:
                odd = sorted(ra ^ rb)[0]
                site, trace = (a[s].get(odd) or b[s].get(odd))
                res.violations.append((
                    'values computed in %s are rounded by {%s} for snap '
                    'points and by {%s} for vertices' % (
                        s, ', '.join(sorted(ra)), ', '.join(sorted(rb))),
                    site, list(trace)))
            else:
                res.held += 1
        if not set(a) & set(b):
            res.undecided.append('no computed value reaches both')
    return fn


# -- phases ----------------------------------------------------------------
class Phases:
    """What functions do to the state of the snap points: in order (C), out
    of order (U), vertices under way (K)."""
    START = 'C'

    def __init__(self, types, flow, snaps, vertices):
        self.t, self.flow = types, flow
        self.snaps, self.vertices = snaps, vertices
        self.sums = {}           # Func -> {state: set of states}
        self.found = {}          # (message, site) -> None
        self.sorted_somewhere = False
        self.calls = set()
        for f in types.order:
            self.sums[f] = {s: set() for s in 'CUK'}
        self.mutates = self.sorters()
        for _ in range(10):
            before = {f: {s: set(o) for s, o in m.items()}
                      for f, m in self.sums.items()}
            for f in types.order:
                for s in 'CUK':
                    self.sums[f][s] |= self.run(f, s)
            if before == self.sums:
                break

    def sorters(self):
        """Functions that rearrange a list they are given."""
        out = set()
        for f in self.t.order:
            names = {a.arg for a in all_args(f.node)}
            for n in own_nodes(f):
                base = None
                if isinstance(n, ast.Subscript) and isinstance(
                        n.ctx, ast.Store):
                    base = n.value
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr == 'sort':
                    base = n.func.value
                if isinstance(base, ast.Name) and base.id in names:
                    out.add((f, base.id))
        size = None
        while size != len(out):
            size = len(out)
            for f in self.t.order:
                names = {a.arg for a in all_args(f.node)}
                for n in own_nodes(f):
                    if isinstance(n, ast.Call):
                        out |= {(f, x) for x in self.handed(n, out)
                                if x in names}
        return out

    def handed(self, call, out):
        """Names given to a call that rearranges them."""
        for c in self.flow.by_node.get(id(call), ()):
            for g, implicit in c.targets:
                args = [a.arg for a in all_args(g.node)]
                if isinstance(implicit, int):
                    args = args[implicit:]
                given = list(zip(args, call.args)) + [
                    (k.arg, k.value) for k in call.keywords]
                for name, e in given:
                    if (g, name) in out and isinstance(e, ast.Name):
                        yield e.id

    def is_snaps(self, e, f):
        if isinstance(e, ast.Attribute) and any(
                e.attr in v for v in self.snaps.values()):
            return any(a[0] == 'inst' and e.attr in self.snaps.get(
                a[1].qual, ()) for a in self.flow.typ(e.value))
        if isinstance(e, ast.Name):
            for n in own_nodes(f):
                if isinstance(n, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == e.id
                        for t in n.targets) and isinstance(
                            n.value, ast.Attribute) and self.is_snaps(
                                n.value, f):
                    return True
        return False

    def run(self, f, state):
        body = f.node.body if isinstance(f.node.body, list) else None
        self.f = f
        self.outs = set()
        if body is None:
            return self.expr(f.node.body, {state})
        live = self.block(body, {state})
        return live | self.outs

    def block(self, sts, live):
        for st in sts:
            live = self.stmt(st, live)
        return live

    def stmt(self, st, live):
        k = type(st)
        if not live:
            return live
        if k is ast.Return:
            if st.value is not None:
                live = self.expr(st.value, live)
            self.outs |= live
            return set()
        if k is ast.Raise:
            return set()
        if k in (ast.Break, ast.Continue):
            self.breaks |= live
            return set()
        if k is ast.If:
            live = self.expr(st.test, live)
            return self.block(st.body, set(live)) | self.block(
                st.orelse, set(live))
        if k in (ast.While, ast.For):
            outer, self.breaks = self.breaks, set()
            live = self.expr(st.test if k is ast.While else st.iter, live)
            for _ in range(5):
                now = live | self.block(st.body, set(live)) | self.breaks
                if k is ast.While:
                    now |= self.expr(st.test, now)
                if now == live:
                    break
                live = now
            self.breaks = outer
            return self.block(st.orelse, live)
        if k is ast.Try:
            after = self.block(st.body, set(live))
            mid = live | after
            out = self.block(st.orelse, after)
            for h in st.handlers:
                out |= self.block(h.body, set(mid))
            return self.block(st.finalbody, out)
        if k is ast.With:
            for i in st.items:
                live = self.expr(i.context_expr, live)
            return self.block(st.body, live)
        if k in (ast.FunctionDef, ast.ClassDef):
            return live
        if k in (ast.Assign, ast.AnnAssign, ast.AugAssign):
            if st.value is not None:
                live = self.expr(st.value, live)
            for t in (st.targets if k is ast.Assign else [st.target]):
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and isinstance(
                            x.ctx, ast.Store) and self.is_snaps(x, self.f):
                        live = self.assigned(st, x, live)
            return live
        for c in ast.iter_child_nodes(st):
            if isinstance(c, ast.expr):
                live = self.expr(c, live)
        return live

    breaks = set()

    def assigned(self, st, x, live):
        if self.f.name == '__init__':
            return {'C'}
        if isinstance(st, ast.AugAssign):
            return self.event('collect', st, live)
        reads = any(isinstance(n, ast.Attribute) and isinstance(
            n.ctx, ast.Load) and self.is_snaps(n, self.f)
            for n in ast.walk(st.value))
        sorts = any(isinstance(n, ast.Call) and isinstance(
            n.func, ast.Name) and n.func.id == 'sorted'
            for n in ast.walk(st.value))
        if sorts:
            return self.event('sort', st, live)
        if reads:
            return live
        if isinstance(st.value, ast.List) and not st.value.elts:
            return {'C' if s != 'K' else s for s in live}
        return live

    def event(self, kind, node, live):
        out = set()
        where = '%s:%d (%s)' % (self.f.module.relpath, node.lineno,
                                self.f.short)
        for s in live:
            if kind == 'collect':
                if s == 'K':
                    self.found[('a snap point is added when vertices have '
                                'already been made', where)] = None
                    out.add('K')
                else:
                    out.add('U')
            elif kind == 'sort':
                self.sorted_somewhere = True
                out.add('C' if s == 'U' else s)
            else:
                if s == 'U':
                    self.found[('vertices are made while the snap points '
                                'are not in order', where)] = None
                out.add('K')
        return out

    def expr(self, e, live):
        if isinstance(e, (ast.Lambda, ast.Constant)):
            return live
        if isinstance(e, ast.IfExp):
            live = self.expr(e.test, live)
            return self.expr(e.body, set(live)) | self.expr(e.orelse,
                                                            set(live))
        if isinstance(e, ast.BoolOp):
            live = self.expr(e.values[0], live)
            for v in e.values[1:]:
                live = live | self.expr(v, set(live))
            return live
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                live = self.expr(c, live)
            elif isinstance(c, ast.comprehension):
                for x in [c.iter] + c.ifs:
                    live = live | self.expr(x, set(live))
            elif isinstance(c, ast.keyword):
                live = self.expr(c.value, live)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and self.is_snaps(
                    e.func.value, self.f):
                if e.func.attr in ('append', 'insert', 'extend', 'add'):
                    live = self.event('collect', e, live)
                elif e.func.attr == 'sort':
                    live = self.event('sort', e, live)
        given = isinstance(e, ast.Call) and isinstance(e.func, ast.Name) \
            and any(a.arg == e.func.id for a in all_args(self.f.node))
        for c in self.flow.by_node.get(id(e), ()):
            # what is given to be called counts where it is given
            if not c.targets or given:
                continue
            new = set()
            ran = False
            for g, _ in c.targets:
                if g.cls is not None and g.name == '__init__':
                    if g.cls.qual in self.vertices:
                        new |= self.event('create', e, live)
                        ran = True
                        continue
                    if g.cls.qual in self.snaps:
                        new |= {'C'}
                        ran = True
                        continue
                for h, name in self.mutates:
                    if h is g and isinstance(e, ast.Call) and any(
                            self.is_snaps(x, self.f) for x in e.args +
                            [k.value for k in e.keywords]):
                        new |= self.event('sort', e, live)
                        ran = True
                        break
                else:
                    m = self.sums.get(g)
                    if m is None:
                        new |= live
                        ran = True
                        continue
                    for s in live:
                        new |= m[s]
                        self.calls.add((g, s))
                    ran = True
            if ran:
                live = new
        if isinstance(e, ast.Call):
            back = [a[1] for x in e.args + [k.value for k in e.keywords]
                    for a in self.flow.typ(x) if a[0] in ('fun', 'bound')]
            while back:
                new = set(live)
                for g in back:
                    for s in live:
                        new |= self.sums.get(g, {}).get(s, {s})
                        self.calls.add((g, s))
                if new == live:
                    break
                live = new
        return live


class Watch(Phases):
    """One run of a function, remembering what is called in which state."""

    def __init__(self, ph, f, state):
        self.__dict__.update(ph.__dict__)
        self.found, self.calls = {}, set()
        self.run(f, state)


def phases_job(types, flow, snaps, vertices, roots):
    def fn(res):
        ph = Phases(types, flow, snaps, vertices)
        if not ph.sorted_somewhere:
            res.undecided.append('nothing recognised as sorting the snap '
                                 'points')
            return
        seen, stack, found = {}, [(f, 'C', ()) for f in roots], {}
        while stack:
            f, s, path = stack.pop()
            if (f, s) in seen or f not in ph.sums:
                continue
            seen[f, s] = path
            w = Watch(ph, f, s)
            res.functions.add(f.qual)
            for m in w.found:
                found.setdefault(m, path)
            for g, state in sorted(w.calls, key=lambda x: (x[0].qual, x[1])):
                stack.append((g, state, path + (f.short,)))
        res.paths += len(seen)
        for (message, where), path in sorted(found.items()):
            res.violations.append((message, where, list(path)))
        if not found:
            res.held += len(seen)
    return fn


def build(ctx):
    types = Types(ctx.p)
    snaps, vertices, points = survey(ctx.p, types)
    flow = Flow(types, Grid(types, snaps, vertices, points))
    ctx.rule('rounded', 'every computed coordinate is rounded before it '
                        'becomes a snap point or a vertex')
    ctx.rule('same', 'computed coordinates of one origin are rounded the '
                     'same way for snap points and for vertices')
    ctx.rule('phases', 'snap points are all collected and sorted before a '
                       'vertex is made')
    ctx.assume('Input coordinates and anything computed from them without '
               'division or fractional constants count as grid values.')
    ctx.assume('Snap points are what RingManager.hot_pixels holds, vertices '
               'are instances of PointNode.')
    n = len(flow.sums)
    ctx.extra['flow'] = {'functions': n, 'effects': len(flow.done),
                         'snap_lists': sorted(snaps),
                         'vertex_classes': sorted(vertices),
                         'point_classes': sorted(points)}
    if not snaps or not vertices:
        ctx.job('rounded', 'package', lambda r: r.undecided.append(
            'snap points or vertices not found'))
        return
    ctx.job('rounded', 'snap points', rounded_job(flow, 'snap',
                                                  'a snap point', n))
    ctx.job('rounded', 'vertices', rounded_job(flow, 'vertex', 'a vertex',
                                               n))
    ctx.job('same', 'snap points and vertices', agree_job(flow))
    roots = [f for f in types.order if f.cls is not None
             and f.cls.name == 'Wagyu' and not f.name.startswith('_')]
    if roots:
        ctx.job('phases', 'operations', phases_job(types, flow, snaps,
                                                   vertices, roots))
    else:
        ctx.job('phases', 'operations', lambda r: r.undecided.append(
            'no public operations found'))
