"""Operations, fill rules and kinds reach the places they are meant for."""
import ast
import re

from wv.absint import EnumV, ListV, PyRaise, Unsupported
from wv.build import EXACT, enum, meth, n, new, obj
from wv.harness import Result
from wv.sweep import members

API = {'intersect': 'INTERSECTION', 'unite': 'UNION',
       'subtract': 'DIFFERENCE', 'symmetric_subtract': 'XOR'}
RULES = ('EVEN_ODD', 'NON_ZERO', 'POSITIVE', 'NEGATIVE')


# -- entry points -------------------------------------------------------------
def named(name, given):
    def run(it):
        o, f, k = members(it)
        seen = []

        def sweep(it, args, bound):
            seen.append([a for a in args if isinstance(a, EnumV)])
        answer = obj(it, 'Multipolygon', 'answer')
        it.stubs.update({
            'RingManager.execute_vatti': sweep,
            'RingManager.build_hot_pixels': lambda it, a, b: None,
            'RingManager.correct_topology': lambda it, a, b: None,
            'RingManager.build_result': lambda it, a, b: answer})
        w = new(it, 'Wagyu')
        it.setattr(w, 'minimums', new(it, 'LocalMinimumList', obj(
            it, 'LocalMinimum', 'minimum')))
        rules = [RULES[it.choose(4, 'rule %d' % i)] for i in range(given)]
        args = [f[r] for r in rules]
        if name == 'execute':
            op = list(o)[it.choose(len(o), 'operation')]
            args.insert(0, o[op])
        else:
            op = API[name]
        meth(it, w, name, *args)
        rules += ['EVEN_ODD'] * (2 - given)
        if not seen:
            return 'the sweep is not run'
        for got in seen:
            ops = [e for e in got if e.cls.name == 'OperationKind']
            fills = [e for e in got if e.cls.name == 'FillKind']
            if len(ops) != 1 or len(fills) != 2:
                raise Unsupported('unknown arguments of the sweep')
            if ops[0] is not o[op]:
                return '%s runs %s' % (name, ops[0].name)
            if fills[0] is not f[rules[0]]:
                return ('the subject rule is %s instead of %s'
                        % (fills[0].name, rules[0]))
            if fills[1] is not f[rules[1]]:
                return ('the clip rule is %s instead of %s'
                        % (fills[1].name, rules[1]))
        return None
    return run


def kinds(name):
    def run(it):
        k = enum(it, 'PolygonKind',
                 ('SUBJECT', 'CLIP')[it.choose(2, 'kind')])
        seen = []

        def stub(it, args, bound):
            seen.extend(a for a in args if isinstance(a, EnumV))
            return bool(it.choose(2, 'usable'))
        it.stubs['LocalMinimumList.add_linear_ring'] = stub
        w = new(it, 'Wagyu')
        rings = [new(it, 'LinearRing', ListV([])) for _ in range(3)]
        if name == 'add_polygon':
            meth(it, w, name, new(it, 'Polygon', ListV(rings)), k)
        else:
            meth(it, w, name, rings[0], k)
        if not seen:
            return 'no ring is stored'
        if any(s is not k for s in seen):
            return 'a %s ring is stored as %s' % (k.name, [
                s.name for s in seen if s is not k][0])
        return None
    return run


# -- calls between the steps ---------------------------------------------------
def roles(bound):
    """Fill rules by role and operations among the arguments of a call."""
    out = {}
    for name, v in bound.items():
        if not isinstance(v, EnumV):
            continue
        low = name.lower()
        if v.cls.name == 'FillKind':
            if 'subject' in low and 'clip' not in low:
                out['subject rule'] = v
            elif 'clip' in low and 'subject' not in low:
                out['clip rule'] = v
        elif v.cls.name == 'OperationKind':
            out['operation'] = v
    return out


def watched(run):
    def inner(it):
        entry = {}
        bad = []

        def hook(func, bound):
            r = roles(bound)
            if not it.frames:
                entry.clear()
            for key, v in r.items():
                if key not in entry:
                    entry[key] = v
                elif entry[key] is not v and not bad:
                    bad.append('%s: %s is called with %s as the %s instead '
                               'of %s' % (it.frames[-1].func.where
                                          if it.frames[-1].func else '',
                                          func.short, v.name, key,
                                          entry[key].name))
        it.on_call = hook
        try:
            run(it)
        except (Unsupported, PyRaise) as e:
            if bad:
                return bad[0]
            if isinstance(e, Unsupported):
                raise
            return None
        return bad[0] if bad else None
    return inner


class Watch:
    """Stands in for the context of another check: its scenes are run, only
    the roles of the arguments are judged."""

    def __init__(self, ctx, tag, keep=lambda rule, construct: True):
        self.ctx, self.tag, self.keep = ctx, tag, keep
        self.p, self.thorough, self.seed = ctx.p, False, ctx.seed

    def rule(self, rid, text):
        pass

    def assume(self, text):
        pass

    def job(self, rule, construct, fn):
        pass

    def table(self, rule, construct, run, stubs=None, **kw):
        if not self.keep(rule, construct):
            return
        kw.update(loops='undecided', raises='undecided')
        self.ctx.table('steps', '%s %s: %s' % (self.tag, rule, construct),
                       watched(run), stubs, **kw)


# -- defects that need two different rules -------------------------------------
PAIR = re.compile(r'subject (\w+), clip (\w+)')


class Twin:
    """Collects the decision tables of another check. A table that fails for
    two different rules but holds when either rule is given for both kinds
    applies a rule to the wrong kind."""

    def __init__(self, ctx, tag, keep=lambda rule, construct: True):
        self.ctx, self.tag, self.keep = ctx, tag, keep
        self.p, self.thorough, self.seed = ctx.p, False, ctx.seed
        self.cases = {}
        self.rules = {}
        self.last = None

    def rule(self, rid, text):
        pass

    def assume(self, text):
        pass

    def job(self, rule, construct, fn):
        self.last = fn

    def table(self, rule, construct, run, *args, **kw):
        m = PAIR.search(construct)
        if not m or not self.keep(rule, construct):
            return
        from wv.harness import Ctx
        Ctx.table(self, rule, construct, run, *args, **kw)
        key = (rule, PAIR.sub('', construct))
        self.cases.setdefault(key, {})[m.groups()] = (construct, self.last)

    def emit(self):
        for (rule, rest), table in self.cases.items():
            def fn(res, rule=rule, table=table):
                held = {}

                def holds(pair):
                    if pair not in held:
                        r = Result(rule, '')
                        table[pair][1](r)
                        held[pair] = (not r.violations and not r.undecided)
                    return held[pair]
                for pair, (construct, job) in table.items():
                    if pair[0] == pair[1]:
                        continue
                    r = Result(rule, construct)
                    job(r)
                    res.paths += r.paths
                    res.functions |= r.functions
                    res.undecided.extend(r.undecided)
                    res.sample = res.sample or r.sample
                    if r.violations:
                        twins = [(pair[0],) * 2, (pair[1],) * 2]
                        if all(t in table and holds(t) for t in twins):
                            msg, where, path = r.violations[0][:3]
                            res.violations.append((
                                'with subject rule %s and clip rule %s, but '
                                'not when both are equal: %s' % (
                                    pair + (msg,)), where, path))
                            return
                    else:
                        res.held += r.held
            self.ctx.job('right-rule', '%s %s: %s' % (self.tag, rule, rest),
                         fn)


# -- kinds --------------------------------------------------------------------
def stores(ctx):
    def fn(res):
        writers = {}
        for f in ctx.p.all_functions():
            for st in ast.walk(f.node):
                ts = []
                if isinstance(st, ast.Assign):
                    ts = st.targets
                elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
                    ts = [st.target]
                for t in ts:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Attribute) and isinstance(
                                x.ctx, ast.Store) and \
                                x.attr == 'polygon_kind':
                            writers.setdefault(f, []).append(st)
        if not writers:
            res.undecided.append('the kind of a chain is stored nowhere')
        calls = callers(ctx.p)
        roots = [f for f in (ctx.p.func('RingManager.' + m) for m in (
            'build_hot_pixels', 'execute_vatti', 'correct_topology',
            'build_result')) if f is not None]
        reached = reach(ctx.p, roots, calls)
        for f, sts in writers.items():
            res.paths += 1
            if f.name == '__init__' or f not in reached:
                res.held += 1
                continue
            # a store into an object just made is no change of a kind
            res.violations.append((
                'the kind of a chain is stored while an operation runs '
                '(line %d)' % sts[0].lineno, f.where, []))
    ctx.job('kind-kept', 'stores of Bound.polygon_kind', fn)


def callers(p):
    """Names called or read as attributes by each function."""
    out = {}
    for f in p.all_functions():
        names = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute):
                names.add(x.attr)
            elif isinstance(x, ast.Name):
                names.add(x.id)
        out[f] = names
    return out


def reach(p, roots, names):
    by_name = {}
    for f in p.all_functions():
        by_name.setdefault(f.name, []).append(f)
    seen, stack = set(), list(roots)
    while stack:
        f = stack.pop()
        if f in seen:
            continue
        seen.add(f)
        for nm in names[f]:
            for g in by_name.get(nm, ()):
                if g.name != '__init__':
                    stack.append(g)
    return seen


def build(ctx):
    ctx.rule('named', 'every public operation runs the operation it names '
             'with the given rules in place, even-odd by default')
    for name in API:
        for given in range(3):
            ctx.table('named', '%s with %d rules' % (name, given),
                      named(name, given), anchors=[
                          'Wagyu.' + name, 'RingManager.execute_vatti',
                          'RingManager.build_hot_pixels',
                          'RingManager.correct_topology',
                          'RingManager.build_result'])
    ctx.table('named', 'execute', named('execute', 2), anchors=[
        'Wagyu.execute', 'RingManager.execute_vatti',
        'RingManager.build_hot_pixels', 'RingManager.correct_topology',
        'RingManager.build_result'])
    ctx.rule('kind-given', 'a ring is stored as the kind it is added as')
    for name in ('add_linear_ring', 'add_polygon'):
        ctx.table('kind-given', name, kinds(name), anchors=[
            'Wagyu.' + name, 'LocalMinimumList.add_linear_ring'])
    import checks.c24 as c24
    from wv.num import INF
    c24.INF = INF
    for size in range(3, 6):
        cases = list(c24.rings_of(size))

        def run(it, cases=cases):
            got = c24.pairing(cases)(it)
            return got if got and 'kind' in got else None
        ctx.table('kind-given', 'rings of %d sides' % size, run,
                  dict(EXACT, **{'LinearRing.edges': c24.edges_stub,
                                 'Edge.is_horizontal': c24.flat_stub,
                                 'Point.__eq__': c24.same_stub}),
                  raises='undecided', loops='undecided',
                  anchors=['LocalMinimumList.add_linear_ring',
                           'LinearRing.edges', 'Edge.is_horizontal',
                           'Point.__eq__'], max_paths=200000)
    ctx.rule('kind-kept', 'no step of an operation changes the kind of a '
             'chain')
    stores(ctx)
    ctx.rule('steps', 'wherever one step calls another, the operation, the '
             'subject rule and the clip rule are handed on as such')
    import checks.c08 as c08
    import checks.c08_order as order
    import checks.c25 as c25
    order.build(Watch(ctx, 'order'))
    c25.build(Watch(ctx, 'heights', lambda r, c: r in (
        'entered', 'visited', 'top', 'flats')))
    pick = ('INTERSECTION, subject EVEN_ODD, clip NON_ZERO',
            'UNION, subject POSITIVE, clip EVEN_ODD',
            'XOR, subject NON_ZERO, clip POSITIVE',
            'DIFFERENCE, subject NEGATIVE, clip POSITIVE')
    c08.build(Watch(ctx, 'crossing', lambda r, c: r == 'crossing'
                    and c.startswith(pick)))
    ctx.rule('right-rule', 'no decision fails only because the two rules '
             'differ: each chain is judged by the rules of its own and the '
             'other kind')
    import checks.c06 as c06
    import checks.c07 as c07
    t = Twin(ctx, 'contribution')
    c06.build(t)
    t.emit()
    t = Twin(ctx, 'insertion', lambda r, c: c.count('/') < 2)
    c07.build(t)
    t.emit()
    t = Twin(ctx, 'crossing')
    c08.build(t)
    t.emit()
