"""No loop can spin in place."""
import ast

from checks.c18 import at, own_nodes
from wv.spin import (ALL, Effects, Loop, TooMany, clash, fold, has_new,
                     same_again, subst, sym, syms, turn)
from wv.types import Types

GROWS = {'append', 'appendleft', 'insert', 'extend', 'extendleft', 'add'}
ENDLESS = {'itertools.count', 'itertools.cycle', 'itertools.repeat'}


def text(e, most=70):
    s = ast.unparse(e)
    return s if len(s) <= most else s[:most] + '...'


def shown(t):
    if t[0] == 'sym':
        return t[1]
    if t[0] == 'const':
        return repr(t[1])
    if t[0] == 'new':
        return '?'
    if t[0] == 'plus':
        return '%s %+d' % (shown(t[1]), t[2])
    if isinstance(t[1], tuple) and t[1][0] == '.':
        return '%s.%s' % (shown(t[2]), t[1][1])
    name = t[1] if isinstance(t[1], str) else t[1][0]
    if name in ('==', 'is', '<', '<=', 'in'):
        return '%s %s %s' % (shown(t[2]), name, shown(t[3]))
    return '%s(%s)' % (name, ', '.join(shown(x) for x in t[2:]))


def trace(way):
    return ['%s%s' % ('' if want else 'not ', shown(c))
            for c, want, _ in way.conds] + [
        '%s becomes %s' % (n, shown(v)) for n, v in sorted(way.env.items())
        if v != sym(n)]


def moved(term):
    """(name, fields) of a chain of attribute reads on a name."""
    fields = []
    while term[0] == 'app' and isinstance(term[1], tuple) and len(
            term[1]) == 3 and term[1][0] == '.':
        fields.append(term[1][1])
        term = term[2]
    return (term[1], tuple(fields)) if term[0] == 'sym' and fields else None


def inside(t):
    yield t
    if t[0] in ('app', 'plus'):
        for x in t[1:]:
            if isinstance(x, tuple) and x and x[0] in (
                    'sym', 'const', 'new', 'plus', 'app'):
                yield from inside(x)


def circular(types, f, name, fields):
    """Do the fields lead from the objects the name stands for to their
    like, around circles?"""
    t = types.locals.get((id(f.node), name), frozenset())
    cs = [a[1] for a in t if a[0] == 'inst']
    if len(cs) != 1:
        return False
    for attr in fields:
        ft = frozenset()
        for k in cs[0].mro():
            ft |= types.fields.get((k.qual, attr), frozenset())
        if not any(a[0] == 'inst' and a[1] is cs[0] for a in ft):
            return False
    return True


def around(types, f, way, rings):
    """A walk around a circle that no test on the way must end: the name
    that walks, or None."""
    walks = {}
    used = set()
    for c, _, r in way.conds:
        if has_new(c) or clash(way.w, r):
            return None
        used |= syms(c)
    for n in used:
        v = way.env.get(n, sym(n))
        if v == sym(n):
            continue
        m = moved(v)
        if m is None or m[0] != n or not circular(types, f, n, m[1]):
            return None
        if not set(m[1]) <= rings:
            return None
        walks[n] = m[1]
    if not walks or ALL in way.w:
        return None
    if clash(way.w, {('attr', a, frozenset())
                     for fs in walks.values() for a in fs}):
        return None
    for c, want, _ in way.conds:
        if fold(c) is not None or not syms(c) & set(walks):
            continue
        if c[0] != 'app' or c[1] not in ('==', 'is'):
            if c[0] == 'app' and c[1] in ('<', '<=', 'in'):
                continue
            # a truth value: may depend on where the walk is
            if any(x[0] == 'app' and x[1] not in ('==', 'is') and
                   not (isinstance(x[1], tuple) and x[1][0] == '.')
                   for x in inside(c)):
                continue
            continue
        sides = [c[2], c[3]]
        on = [bool(syms(x) & set(walks)) for x in sides]
        if want:
            continue
        # `x is T` failed: T is met after at most one turn of the circle
        if on[0] != on[1]:
            x, other = (sides if on[0] else sides[::-1])
            m = moved(x)
            whole = m is None or set(m[1]) <= rings
            if whole and other[0] != 'new':
                return None
        elif all(on):
            # two walkers that meet
            return None
    return sorted(walks)[0]


def chained(types):
    """Fields that are never empty and link objects to their like: what is
    reached by them goes around."""
    out = set()
    for (q, *rest), t in types.fields.items():
        if len(rest) != 1:
            continue
        if any(a[0] == 'inst' and a[1].qual == q for a in t):
            out.add(rest[0])
    return out


def loop_job(types, effects, rings, f, node):
    def fn(res):
        res.functions.add(f.qual)
        try:
            ways = Loop(effects, f, node).ways()
        except TooMany:
            res.undecided.append('too many ways around')
            return
        except RecursionError:
            res.undecided.append('nested too deeply')
            return
        res.paths += len(ways)
        for way in ways:
            v = turn(way)
            if v == 'stuck':
                res.violations.append((
                    'a way around the loop changes nothing its tests read: '
                    'once taken it is taken forever', at(f, node),
                    trace(way)))
                continue
            if v == 'away':
                res.violations.append((
                    'a way around the loop moves only away from where it '
                    'would end', at(f, node), trace(way)))
                continue
            n = around(types, f, way, rings)
            if n is not None:
                res.violations.append((
                    'a walk of %s around a circle is ended by no test that '
                    'must come out when it is back where it started' % n,
                    at(f, node), trace(way)))
                continue
            res.held += 1
    return fn


def always(sts, hit):
    """Is the node on every way through the statements?"""
    for st in sts:
        if isinstance(st, ast.Expr) and any(n is hit for n in ast.walk(
                st.value)):
            return True
        if isinstance(st, ast.If):
            if always(st.body, hit) and always(st.orelse, hit):
                return True
            if any(isinstance(n, (ast.Continue, ast.Break, ast.Return,
                                  ast.Raise)) for n in ast.walk(st)):
                return False
        elif any(isinstance(n, (ast.Continue, ast.Break, ast.Return,
                                ast.Raise)) for n in ast.walk(st)):
            return False
    return False


def exits(sts):
    return any(isinstance(n, (ast.Break, ast.Return, ast.Raise, ast.Yield))
               for st in sts for n in ast.walk(st))


def for_job(types, effects, f, node):
    def fn(res):
        res.functions.add(f.qual)
        res.paths += 1
        over = node.iter
        for c in effects.by_node.get(id(over), ()):
            if set(c.ext) & ENDLESS and not (
                    'itertools.repeat' in c.ext and len(over.args) > 1):
                if not exits(node.body):
                    res.violations.append((
                        'the loop over %s is never left' % text(over),
                        at(f, node), []))
                    return
        t = effects.typ(over)
        if isinstance(over, (ast.Name, ast.Attribute)) and any(
                a[0] in ('list', 'set', 'dict', 'deque') for a in t):
            same = ast.dump(over)
            for st in node.body:
                for n in ast.walk(st):
                    if isinstance(n, ast.Call) and isinstance(
                            n.func, ast.Attribute) and n.func.attr in \
                            GROWS and ast.dump(n.func.value) == same and \
                            always(node.body, n):
                        res.violations.append((
                            'the loop goes over %s and adds to it on every '
                            'turn' % text(over), at(f, n), []))
                        return
        res.held += 1
    return fn


def build(ctx):
    types = Types(ctx.p)
    effects = Effects(types)
    rings = chained(types)
    ctx.rule('progress', 'on every way around a while loop something its '
                         'tests read changes, and not only away from the '
                         'limit')
    ctx.rule('circle', 'a walk around linked objects is ended by a test '
                       'against where it started')
    ctx.rule('growing', 'a for loop does not go over what each turn adds to, '
                        'nor over an endless series it never leaves')
    ctx.assume('Calls and stores count with every field and container they '
               'may reach by type, so a loop is reported only when nothing '
               'the tests read can change; that the change leads to the '
               'exit is decided for counters and for walks along links.')
    loops = 0
    for f in types.order:
        for n in sorted((n for n in own_nodes(f) if isinstance(
                n, (ast.While, ast.For))), key=lambda n: n.lineno):
            loops += 1
            where = '%s loop at %s' % (f.qual, 'while' if isinstance(
                n, ast.While) else 'for')
            if isinstance(n, ast.While):
                ctx.job('progress', '%s:%d' % (f.qual, n.lineno),
                        loop_job(types, effects, rings, f, n))
            else:
                ctx.job('growing', '%s:%d' % (f.qual, n.lineno),
                        for_job(types, effects, f, n))
    ctx.extra['loops'] = loops
    if loops < 5:
        ctx.job('progress', 'package', lambda r: r.undecided.append(
            'no loops found'))
