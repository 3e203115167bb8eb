"""Results are a function of the input history only."""
import ast

from checks.c18 import at, own_nodes
from wv.model import Func
from wv.types import NUMBERS, Types, parts, stable, tags

# libraries whose answers are not determined by their arguments
FOREIGN = ('random', 'time', 'datetime', 'secrets', 'uuid', 'threading',
           '_thread', 'multiprocessing', 'concurrent', 'asyncio', 'socket',
           'subprocess', 'tempfile', 'platform', 'locale', 'getpass',
           'resource', 'gc', 'signal', 'queue', 'select', 'selectors',
           'urllib', 'http', 'shelve', 'pathlib', 'glob', 'inspect',
           'tracemalloc', 'sched', 'numpy.random', 'calendar', 'weakref')
FOREIGN_NAMES = {'builtins.input', 'builtins.open', 'builtins.globals',
                 'builtins.vars', 'sys.getrefcount', 'sys.argv', 'sys.stdin',
                 'sys.flags', 'sys._getframe', 'sys.getsizeof',
                 'sys.getallocatedblocks', 'sys.gettrace', 'sys.path',
                 'sys.modules', 'sys.getswitchinterval', 'sys.executable',
                 'sys.platform', 'math.random'}
OS_FINE = {'os.sep', 'os.linesep', 'os.path', 'os.PathLike', 'os.fspath'}
# arithmetic of the decimal library works in the context of the calling
# thread: precision, rounding and traps are the caller's
AMBIENT = {'quantize', 'sqrt', 'exp', 'ln', 'log10', 'fma', 'remainder_near',
           'normalize', 'scaleb', 'next_minus', 'next_plus', 'next_toward',
           'rotate', 'shift', 'logical_and', 'logical_or', 'logical_xor',
           'logical_invert', 'Add', 'Sub', 'Mult', 'Div', 'FloorDiv', 'Mod',
           'Pow', 'USub', 'UAdd', '__add__', '__sub__', '__mul__',
           '__truediv__', '__neg__', '__pos__', '__abs__', 'plus', 'minus',
           'create_decimal', 'create_decimal_from_float'}
ROUNDED = {'to_integral_value', 'to_integral_exact', 'to_integral',
           'quantize'}
ORDER = {'list', 'tuple', 'iter', 'next', 'enumerate', 'zip', 'map',
         'filter', 'reversed', 'deque', 'chain', 'islice', 'reduce',
         'accumulate', 'groupby', 'takewhile', 'dropwhile', 'starmap',
         'fromkeys', 'cycle', 'count', 'extend', 'extendleft', 'join',
         'append', 'print', 'dict', 'OrderedDict'}
FREE = {'len', 'set', 'frozenset', 'any', 'all', 'min', 'max', 'sorted',
        'sum', 'update', 'union', 'intersection', 'difference', 'issubset',
        'issuperset', 'isdisjoint', 'discard', 'add',
        'symmetric_difference', 'difference_update',
        'intersection_update', 'bool', 'isinstance', 'type', 'Counter'}


def deep_addr(t, depth=0):
    return any(a[0] == 'addr' or (depth < 4 and a[0] in (
        'tuple', 'tupleof', 'list') and any(
            deep_addr(x, depth + 1) for x in parts(a))) for a in t)


def only_addr(t):
    """A number made of an address and nothing else it may be."""
    return any(a[0] == 'addr' for a in t)


def foreign(name):
    if name in OS_FINE or any(name.startswith(x + '.') for x in OS_FINE):
        return False
    if name in FOREIGN_NAMES or name == 'os' or name.startswith('os.'):
        return name != 'os'
    return any(name == x or name.startswith(x + '.') for x in FOREIGN) \
        and '.' in name


def sources_job(types, f):
    def fn(res):
        res.functions.add(f.qual)
        seen = set()
        for n in own_nodes(f):
            if not isinstance(n, (ast.Name, ast.Attribute)) or not isinstance(
                    n.ctx, ast.Load):
                continue
            res.paths += 1
            for a in types.node_types.get(id(n), ()):
                if a[0] == 'ext' and foreign(a[1]) and a[1] not in seen:
                    seen.add(a[1])
                    res.violations.append((
                        '%s is not determined by the rings, the order of '
                        'adding, the operation and the flags' % a[1],
                        at(f, n), []))
        res.held = 1
    return fn


def ambient_job(types, f):
    def fn(res):
        res.functions.add(f.qual)
        for c in types.calls.values():
            if c.func is not f:
                continue
            for name in c.ext:
                if not name.startswith('decimal.'):
                    continue
                res.paths += 1
                last = name.split('.')[-1]
                if last in ('getcontext', 'setcontext', 'localcontext'):
                    res.violations.append((
                        '%s: the decimal context belongs to the calling '
                        'thread' % name, at(f, c.node), []))
                elif last in AMBIENT and not given_context(c.node):
                    res.violations.append((
                        'decimal %s follows the precision and the traps of '
                        'the calling thread' % last, at(f, c.node), []))
                elif last in ROUNDED and not given_rounding(c.node):
                    res.violations.append((
                        'decimal %s without a rounding follows the rounding '
                        'of the calling thread' % last, at(f, c.node), []))
                else:
                    res.held += 1
    return fn


def given_context(n):
    return isinstance(n, ast.Call) and any(
        k.arg == 'context' and not (isinstance(k.value, ast.Constant)
                                    and k.value.value is None)
        for k in n.keywords)


def given_rounding(n):
    if not isinstance(n, ast.Call):
        return False
    if given_context(n):
        return True
    vals = n.args[:1] + [k.value for k in n.keywords if k.arg == 'rounding']
    return any(not (isinstance(v, ast.Constant) and v.value is None)
               for v in vals)


def order_job(types, f):
    """Addresses are only looked up."""
    def fn(res):
        res.functions.add(f.qual)
        hashes = f.node.__class__ is not ast.Lambda and f.name == '__hash__'
        for node, g, t in types.ordered.values():
            if g is not f:
                continue
            res.paths += 1
            if deep_addr(t):
                res.violations.append((
                    'an address or a hash decides an order', at(f, node),
                    []))
            else:
                res.held += 1
        for n in own_nodes(f):
            T = lambda e: types.node_types.get(id(e), frozenset())
            if isinstance(n, (ast.BinOp, ast.UnaryOp)) and not hashes \
                    and not isinstance(getattr(n, 'op', None), ast.Not):
                ops = ([n.left, n.right] if isinstance(n, ast.BinOp)
                       else [n.operand])
                res.paths += 1
                if any(only_addr(T(o)) and not any(
                        a[0] in ('set', 'list', 'tuple', 'dict')
                        for a in T(o)) for o in ops):
                    res.violations.append((
                        'a number is computed from an address or a hash',
                        at(f, n), []))
            elif isinstance(n, ast.Compare):
                es = [n.left] + n.comparators
                for op, l, r in zip(n.ops, es, es[1:]):
                    if isinstance(op, (ast.Eq, ast.NotEq)):
                        res.paths += 1
                        if only_addr(T(l)) != only_addr(T(r)) and all(
                                a in NUMBERS for x in (l, r)
                                for a in T(x) if a[0] != 'addr') and (
                                    T(l) and T(r)):
                            res.violations.append((
                                'an address or a hash is compared with '
                                'another number', at(f, n), []))
            elif isinstance(n, ast.Subscript) and not isinstance(
                    n.slice, ast.Slice):
                if only_addr(T(n.slice)) and any(
                        a[0] in ('list', 'tuple', 'tupleof', 'deque')
                        for a in T(n.value)):
                    res.violations.append((
                        'an address or a hash selects an element',
                        at(f, n), []))
    return fn


def unordered(types, t):
    """(hash ordered, known)"""
    bad = None
    for a in t:
        if a[0] == 'set':
            v = stable(types, a[1])
            if v is not True:
                bad = bad or (v is False and 'yes') or 'unknown'
                if v is False:
                    bad = 'yes'
    return bad


def harmless(f, loop):
    """The order in which the body runs cannot be told afterwards: it only
    marks, discards or sets constants."""
    def ok(s):
        if isinstance(s, ast.Pass):
            return True
        if isinstance(s, ast.If):
            return not any(isinstance(x, (ast.Call, ast.NamedExpr))
                           for x in ast.walk(s.test)) and all(
                               map(ok, s.body + s.orelse))
        if isinstance(s, ast.Assign):
            return isinstance(s.value, ast.Constant) and all(
                isinstance(t, ast.Attribute) for t in s.targets)
        if isinstance(s, ast.AugAssign):
            return isinstance(s.value, ast.Constant) and isinstance(
                s.value.value, int) and isinstance(s.op, (ast.Add, ast.Sub))
        if isinstance(s, ast.Delete):
            return True
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return True
            return isinstance(s.value, ast.Call) and isinstance(
                s.value.func, ast.Attribute) and s.value.func.attr in (
                    'add', 'discard') and not any(
                        isinstance(x, ast.Call) and ast.unparse(
                            x.func) not in ('id', 'hash')
                        for y in s.value.args for x in ast.walk(y))
        return False
    return all(map(ok, loop.body)) and not loop.orelse


def sets_job(types, f):
    def fn(res):
        res.functions.add(f.qual)
        T = lambda e: types.node_types.get(id(e), frozenset())
        parents = {}
        body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
        for st in body:
            for n in ast.walk(st):
                for c in ast.iter_child_nodes(n):
                    parents[id(c)] = n

        def judge(e, n):
            if not any(a[0] == 'set' for a in T(e)):
                return
            res.paths += 1
            v = unordered(types, T(e))
            if v == 'yes':
                res.violations.append((
                    'the order of a set of addresses, objects or texts is '
                    'used: it differs from process to process', at(f, n),
                    []))
            elif v == 'unknown':
                res.undecided.append('%s: elements of unknown hash walked'
                                     % at(f, n))
            else:
                res.held += 1

        for n in own_nodes(f):
            if isinstance(n, ast.For):
                if not harmless(f, n):
                    judge(n.iter, n)
            elif isinstance(n, (ast.ListComp, ast.DictComp,
                                ast.GeneratorExp)):
                up = parents.get(id(n))
                if isinstance(n, ast.GeneratorExp) and isinstance(
                        up, ast.Call) and free_use(up, n):
                    continue
                for g in n.generators:
                    judge(g.iter, n)
            elif isinstance(n, ast.Starred):
                up = parents.get(id(n))
                if not isinstance(up, ast.Set):
                    judge(n.value, n)
            elif isinstance(n, ast.YieldFrom):
                judge(n.value, n)
            elif isinstance(n, ast.Assign) and any(
                    isinstance(t, (ast.Tuple, ast.List)) for t in n.targets):
                judge(n.value, n)
            elif isinstance(n, ast.Call):
                last = ast.unparse(n.func).split('.')[-1]
                if last == 'pop' and isinstance(n.func, ast.Attribute):
                    judge(n.func.value, n)
                up = parents.get(id(n))
                if last in ('iter', 'map', 'filter', 'list', 'tuple', 'zip',
                            'enumerate') and isinstance(up, ast.Call) \
                        and free_use(up, n):
                    continue
                if last in ORDER:
                    for x in n.args:
                        judge(x, n)
                elif last in ('sorted', 'min', 'max') and any(
                        k.arg == 'key' for k in n.keywords):
                    # equals keep the order they come in
                    for x in n.args:
                        judge(x, n)
    return fn


def free_use(call, arg):
    last = ast.unparse(call.func).split('.')[-1]
    if last not in FREE:
        return False
    if last in ('sorted', 'min', 'max') and any(k.arg == 'key'
                                                for k in call.keywords):
        return False
    return True


MUTATORS = {'append', 'add', 'insert', 'extend', 'pop', 'remove', 'clear',
            'update', 'discard', 'sort', 'reverse', 'setdefault',
            'popleft', 'appendleft', 'next', 'send', 'popitem'}


def writes(types):
    """Functions that store something outside themselves."""
    direct = set()
    for f in types.order:
        fresh_self = f.name == '__init__'
        for n in own_nodes(f):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                base = n
                while isinstance(base, (ast.Attribute, ast.Subscript)):
                    base = base.value
                if fresh_self and isinstance(base, ast.Name) and \
                        base.id == f.node.args.args[0].arg:
                    continue
                direct.add(f)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                direct.add(f)
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in MUTATORS:
                v = n.func.value
                if isinstance(v, ast.Name) and v.id in types.bound_names[
                        id(f.node)] and v.id not in {
                            a.arg for a in f.node.args.args}:
                    continue
                direct.add(f)
    g = types.graph()
    out = set(direct)
    changed = True
    while changed:
        changed = False
        for f, cs in g.items():
            if f is not None and f not in out and cs & out:
                out.add(f)
                changed = True
    return out


def asserts_job(types, f, effects):
    def fn(res):
        res.functions.add(f.qual)
        for n in own_nodes(f):
            if isinstance(n, ast.Name) and n.id == '__debug__':
                res.paths += 1
                res.violations.append((
                    '__debug__ decides what is done', at(f, n), []))
            if not isinstance(n, ast.Assert):
                continue
            res.paths += 1
            bad = None
            for x in ast.walk(n.test):
                if isinstance(x, ast.NamedExpr):
                    bad = 'assigns'
                elif isinstance(x, ast.Call):
                    if isinstance(x.func, ast.Attribute) and \
                            x.func.attr in MUTATORS:
                        bad = 'changes a container'
                    c = types.calls.get((id(x), 'call'))
                    if c is not None and any(t[0] in effects
                                             for t in c.targets):
                        bad = 'calls a function that stores'
            if bad:
                res.violations.append((
                    'the assertion %s: the result depends on whether '
                    'assertions are switched on' % bad, at(f, n), []))
            else:
                res.held += 1
    return fn


def module_job(types, m):
    """Code run when the package is loaded."""
    def fn(res):
        stack = [st for st in m.tree.body]
        for c in m.classes:
            stack.extend(c.node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                if isinstance(n, ast.FunctionDef):
                    stack.extend(n.args.defaults + [
                        d for d in n.args.kw_defaults if d is not None])
                    stack.extend(n.decorator_list)
                continue
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(
                    n.ctx, ast.Load):
                res.paths += 1
                for a in types.node_types.get(id(n), ()):
                    if a[0] == 'ext' and (foreign(a[1]) or a[1] in (
                            'decimal.getcontext', 'decimal.setcontext')):
                        res.violations.append((
                            '%s is used when the package is loaded' % a[1],
                            at(m, n), []))
            stack.extend(ast.iter_child_nodes(n))
        res.held = 1
    return fn


def build(ctx):
    types = Types(ctx.p)
    effects = writes(types)
    ctx.rule('sources', 'nothing outside the arguments is asked: no clock, '
                        'no randomness, no environment, no threads')
    ctx.rule('ambient', 'decimal arithmetic names its rounding and does not '
                        'follow the context of the calling thread')
    ctx.rule('addresses', 'addresses and hashes are only looked up and '
                          'compared with each other, never put in order, '
                          'computed with or used as an index')
    ctx.rule('sets', 'the order of a set whose elements hash by address or '
                     'by seed is never used')
    ctx.rule('asserts', 'assertions have no effect')
    ctx.assume('Two hashes or addresses of live objects are equal only for '
               'the same object; the objects used as keys stay alive while '
               'the map does.')
    ctx.extra['types'] = {'functions': len(types.order),
                          'ordered_places': len(types.ordered),
                          'call_sites': len(types.calls)}
    if len(types.order) < 5:
        ctx.job('sources', 'package', lambda r: r.undecided.append(
            'no functions found'))
        return
    for m in ctx.p.modules.values():
        ctx.job('sources', m.name, module_job(types, m))
    for f in types.order:
        ctx.job('sources', f.qual, sources_job(types, f))
        ctx.job('ambient', f.qual, ambient_job(types, f))
        ctx.job('addresses', f.qual, order_job(types, f))
        ctx.job('sets', f.qual, sets_job(types, f))
        ctx.job('asserts', f.qual, asserts_job(types, f, effects))
