"""Accumulators are isolated from each other."""
import ast

from checks.c18 import at, own_nodes
from wv.types import (Roots, Types, all_args, has_tag, mutable, parts,
                      remembered)

CONTAINERS = {'list', 'set', 'dict', 'deque', 'iter', 'gen'}
CHANGES = {'append', 'appendleft', 'add', 'insert', 'extend', 'extendleft',
           'pop', 'popleft', 'popitem', 'remove', 'clear', 'update',
           'discard', 'sort', 'reverse', 'setdefault', 'rotate', 'send',
           '__setitem__', '__delitem__', 'difference_update',
           'intersection_update', 'symmetric_difference_update'}
IN_PLACE = {'heapq.heappush': 0, 'heapq.heappop': 0, 'heapq.heapify': 0,
            'heapq.heapreplace': 0, 'heapq.heappushpop': 0,
            'bisect.insort': 0, 'bisect.insort_left': 0,
            'bisect.insort_right': 0, 'random.shuffle': 0,
            'builtins.next': 0, 'builtins.setattr': 0,
            'builtins.delattr': 0, 'operator.setitem': 0,
            'operator.delitem': 0, 'operator.iadd': 0}
PROCESS = {'decimal.setcontext', 'sys.setrecursionlimit', 'sys.settrace',
           'sys.setprofile', 'sys.setswitchinterval', 'locale.setlocale',
           'os.chdir', 'os.putenv', 'os.umask', 'random.seed', 'gc.disable',
           'gc.enable', 'gc.freeze', 'warnings.simplefilter',
           'warnings.filterwarnings', 'signal.signal', 'atexit.register',
           'threading.settrace', 'sys.set_int_max_str_digits',
           'os.environ.update', 'os.environ.setdefault', 'os.environ.pop'}
PUBLIC = ('bounds', 'intersect', 'subtract', 'symmetric_subtract', 'unite',
          'execute')


class Shared(Roots):
    shared = True


def shared(t):
    return sorted(a[2] for a in t if a[0] == 'tag' and a[1] == 'shared')


def load_time(p, types):
    """Functions run while the package is loaded, decorators included."""
    out = set()
    for c in types.calls.values():
        if c.func is None:
            out |= {t[0] for t in c.targets}
    for f in types.order:
        if isinstance(f.node, ast.Lambda):
            continue
        for d in f.node.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            if isinstance(e, ast.Name):
                r = p.resolve_name(f.module, e.id)
                if hasattr(r, 'node') and hasattr(r, 'kind'):
                    out.add(r)
    # with what they call and return
    stack = list(out)
    g = types.graph()
    while stack:
        f = stack.pop()
        for h in g.get(f, ()):
            if h not in out and types.scope_parent[id(h.node)] is None:
                out.add(h)
                stack.append(h)
    return out


def owner_scope(types, f, name):
    """The function whose local ``name`` is, seen from ``f``."""
    g = f
    while g is not None:
        if name in types.bound_names[id(g.node)]:
            return g
        g = types.scope_parent[id(g.node)]
    return None


def changed(types, f):
    """(node, expression changed, how) of a function."""
    T = lambda e: types.node_types.get(id(e), frozenset())
    for n in own_nodes(f):
        if isinstance(n, ast.Attribute) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            yield n, n.value, 'its %s is set' % n.attr
        elif isinstance(n, ast.Subscript) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            yield n, n.value, 'an item of it is set'
        elif isinstance(n, ast.AugAssign) and isinstance(
                n.target, (ast.Name, ast.Attribute)):
            src = types.loads.get(id(n))
            t = T(src) if src is not None else T(n.target)
            if any(a[0] in ('list', 'set', 'dict', 'deque') for a in t):
                yield n, src, 'it is extended in place'
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in CHANGES:
                if any(a[0] in CONTAINERS or a[0] == 'any' or a[0] == 'inst'
                       and a[1].find_method(n.func.attr) is None
                       for a in T(n.func.value)):
                    yield n, n.func.value, '%s is called on it' % n.func.attr
            c = types.calls.get((id(n), 'call'))
            for e in (c.ext if c is not None else ()):
                if e in IN_PLACE and len(n.args) > IN_PLACE[e]:
                    yield n, n.args[IN_PLACE[e]], '%s changes it' % e
        elif isinstance(n, ast.For):
            if any(a[0] in ('iter', 'gen') for a in T(n.iter)):
                yield n, n.iter, 'it is used up'


def changes_job(types, f, early):
    def fn(res):
        T = lambda e: types.node_types.get(id(e), frozenset())
        res.functions.add(f.qual)
        for n, e, how in changed(types, f):
            res.paths += 1
            t = T(e)
            what = shared(t)
            if what:
                res.violations.append((
                    '%s is shared by everything in the process and %s'
                    % (what[0], how), at(f, n), what))
                continue
            if any(a[0] in ('class', 'fun', 'mod') for a in t) and not any(
                    a[0] == 'inst' for a in t):
                res.violations.append((
                    'a class, function or module is changed at run time: %s'
                    % how, at(f, n), []))
                continue
            if any(a[0] == 'inst' and a[1].is_enum for a in t) and all(
                    a[0] == 'inst' for a in t):
                res.violations.append((
                    'a member of an enumeration is changed: %s' % how,
                    at(f, n), []))
                continue
            if any(a[0] == 'ext' for a in t) and all(
                    a[0] == 'ext' for a in t):
                res.violations.append((
                    'a library object is changed: %s' % how, at(f, n), []))
                continue
            # a container captured from a function run at load time
            if isinstance(e, ast.Name):
                g = owner_scope(types, f, e.id)
                if g is not None and g is not f and g in early and not any(
                        a.arg == e.id for a in all_args(g.node)):
                    res.violations.append((
                        'the %s captured when the package was loaded is '
                        'shared and %s' % (e.id, how), at(f, n), []))
                    continue
            res.held += 1
        for n in own_nodes(f):
            if isinstance(n, ast.Global):
                stored = [x for x in own_nodes(f) if isinstance(x, ast.Name)
                          and x.id in n.names and not isinstance(
                              x.ctx, ast.Load)]
                if stored:
                    res.violations.append((
                        'the module name %s is set at run time'
                        % stored[0].id, at(f, stored[0]), []))
            elif isinstance(n, ast.Nonlocal):
                for name in n.names:
                    g = owner_scope(types, f, name)
                    if g in early:
                        res.violations.append((
                            'the %s captured when the package was loaded is '
                            'set at run time' % name, at(f, n), []))
            elif isinstance(n, ast.Call):
                c = types.calls.get((id(n), 'call'))
                for e in (c.ext if c is not None else ()):
                    if e in PROCESS:
                        res.violations.append((
                            '%s changes the whole process' % e, at(f, n),
                            []))
    return fn


def fields_job(types, c):
    """No instance is built around a shared container."""
    def fn(res):
        for (q, *rest), t in sorted(types.fields.items(),
                                    key=lambda kv: str(kv[0])):
            if q != c.qual or len(rest) != 1:
                continue
            res.paths += 1
            what = shared(t)
            hard = [a for a in t if a[0] in ('list', 'set', 'deque', 'iter',
                                             'gen')]
            if what and hard and any(w.startswith('the default')
                                     for w in what):
                init = c.find_method('__init__')
                res.violations.append((
                    'instances keep %s in %s: they all share it'
                    % (what[0], rest[0]),
                    init.where if init is not None else c.qual, what))
            else:
                res.held += 1
    return fn


def closure(types, t, skip=()):
    """What can be reached from a value: (path, T)."""
    out, seen = [], set()
    stack = [('result', t)]
    while stack:
        path, t = stack.pop()
        out.append((path, t))
        for a in t:
            if a[0] == 'inst' and not a[1].is_enum:
                if a[1] in seen:
                    continue
                seen.add(a[1])
                for (q, *rest), ft in types.fields.items():
                    if len(rest) == 1 and any(q == k.qual
                                              for k in a[1].mro()):
                        stack.append(('%s.%s' % (a[1].name, rest[0]), ft))
            elif a[0] not in ('partial',):
                for x in parts(a):
                    if len(path) < 200:
                        stack.append((path + ' element', x))
    return out


def escapes_job(types, f):
    """Results hold nothing that is shared."""
    def fn(res):
        res.functions.add(f.qual)
        for path, t in closure(types, types.ret_type(f)):
            res.paths += 1
            what = shared(t)
            if what and mutable(frozenset(a for a in t if a[0] != 'tag')):
                res.violations.append((
                    'the result may contain %s (%s): every caller gets the '
                    'same object' % (what[0], path), f.where, what))
            else:
                res.held += 1
    return fn


def cached_job(types, f):
    """A remembered result depends on nothing but what the arguments are
    compared by."""
    def fn(res):
        res.functions.add(f.qual)
        res.paths += 1
        for a in all_args(f.node):
            t = types.locals.get((id(f.node), a.arg), frozenset())
            for x in t:
                if x[0] != 'inst' or x[1].is_enum:
                    continue
                eq = x[1].find_method('__eq__')
                compared = {n.attr for n in ast.walk(eq.node) if isinstance(
                    n, ast.Attribute)} if eq is not None else None
                read = set()
                for n in own_nodes(f):
                    if isinstance(n, ast.Attribute) and any(
                            y == x for y in types.node_types.get(
                                id(n.value), ())):
                        read.add(n.attr)
                if compared is not None and read - compared:
                    res.violations.append((
                        'the remembered result reads %s, by which the '
                        'arguments are not compared'
                        % ', '.join(sorted(read - compared)), f.where, []))
                    return
                if compared is None and read:
                    res.undecided.append('remembered by object: %s' % a.arg)
        res.held += 1
    return fn


def build(ctx):
    types = Types(ctx.p, roots=Shared())
    early = load_time(ctx.p, types)
    ctx.rule('changes', 'nothing that exists once per process (module or '
                        'class objects, default values, remembered results, '
                        'classes, functions) is changed at run time')
    ctx.rule('fields', 'instances do not keep default values they would '
                       'share')
    ctx.rule('results', 'results and boxes contain nothing that is shared')
    ctx.rule('remembered', 'remembered results depend on what arguments are '
                           'compared by')
    ctx.assume('Types are joined over all assignments to a name: a name that '
               'may stand for a shared object counts as shared everywhere '
               'in its function.')
    ctx.extra['types'] = {'functions': len(types.order),
                          'fields': len(types.fields),
                          'call_sites': len(types.calls)}
    if len(types.order) < 5:
        ctx.job('changes', 'package', lambda r: r.undecided.append(
            'no functions found'))
        return
    for f in types.order:
        ctx.job('changes', f.qual, changes_job(types, f, early))
        if remembered(f):
            ctx.job('remembered', f.qual, cached_job(types, f))
    for c in ctx.p.all_classes():
        ctx.job('fields', c.qual, fields_job(types, c))
        if c.name == 'Wagyu':
            for name in PUBLIC:
                f = c.find_method(name)
                if f is not None:
                    ctx.job('results', f.qual, escapes_job(types, f))
