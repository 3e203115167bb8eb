"""No latent crash: whatever is named exists and fits."""
import ast
import builtins
import collections
import collections.abc
import enum as enum_module
import importlib
import symtable

from wv.model import Class, Func
from wv.paths import State, Walk, mark_chains
from wv.types import NUMBERS, Types, all_args, bound_names

SAFE_MODULES = {'math', 'ctypes', 'struct', 'bisect', 'decimal', 'itertools',
                'functools', 'operator', 'collections', 'typing', 'enum',
                'numbers', 'heapq', 'copy', 'weakref', 'abc', 're', 'sys',
                'os', 'random', 'time', 'string', 'contextlib',
                'collections.abc', 'fractions', 'dataclasses'}
MODULE_NAMES = {'__name__', '__file__', '__doc__', '__package__',
                '__path__', '__spec__', '__loader__', '__builtins__',
                '__annotations__', '__class__'}


class _Int(enum_module.IntEnum):
    A = 0


class _Plain(enum_module.Enum):
    A = 0


SAMPLE = {'list': [], 'set': set(), 'dict': {}, 'tuple': (), 'tupleof': (),
          'str': '', 'int': 0, 'float': 0., 'bool': False,
          'deque': collections.deque(), 'iter': None, 'num': 0}


def external(dotted):
    """(known, object) of a library name; known is False when the library is
    not available to the analysis."""
    parts = dotted.split('.')
    if parts[0] == 'builtins':
        obj = builtins
        rest = parts[1:]
    else:
        for i in range(len(parts), 0, -1):
            name = '.'.join(parts[:i])
            if name not in SAFE_MODULES:
                continue
            try:
                obj = importlib.import_module(name)
            except ImportError:
                continue
            rest = parts[i:]
            break
        else:
            return False, None
    for r in rest:
        if not hasattr(obj, r):
            return True, None
        obj = getattr(obj, r)
    return True, obj


def at(f_or_m, node):
    m = getattr(f_or_m, 'module', f_or_m)
    name = f_or_m.short if isinstance(f_or_m, Func) else 'module'
    return '%s:%d (%s)' % (m.relpath, getattr(node, 'lineno', 0), name)


def own_nodes(f):
    """Nodes of a function without those of functions inside it."""
    body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


# -- names -----------------------------------------------------------------
def module_names(m):
    out = set(MODULE_NAMES)
    for n in ast.walk(m.tree):
        pass
    table = symtable.symtable(m.source, m.path, 'exec')
    for s in table.get_symbols():
        if s.is_assigned() or s.is_imported() or s.is_namespace():
            out.add(s.get_name())
    return out, table


def star_import(m):
    return any(isinstance(n, ast.ImportFrom) and any(
        a.name == '*' for a in n.names) for n in ast.walk(m.tree))


def names_job(p, m):
    def fn(res):
        if star_import(m):
            res.undecided.append('star import')
            return
        known, table = module_names(m)
        # names a function declares global and assigns
        stack = [table]
        while stack:
            t = stack.pop()
            for s in t.get_symbols():
                if s.is_declared_global() and s.is_assigned():
                    known.add(s.get_name())
            stack.extend(t.get_children())
        missing = {}
        stack = [table]
        while stack:
            t = stack.pop()
            for s in t.get_symbols():
                n = s.get_name()
                if not s.is_referenced() or n in known or hasattr(builtins,
                                                                  n):
                    continue
                if t.get_type() == 'module' or s.is_global():
                    missing.setdefault(n, []).append((t.get_name(),
                                                      t.get_lineno()))
            stack.extend(t.get_children())
        for n, where in sorted(missing.items()):
            line = next((x.lineno for x in ast.walk(m.tree)
                         if isinstance(x, ast.Name) and x.id == n),
                        where[0][1])
            scope = where[0][0]
            res.violations.append((
                'the name %s is used in %s but nothing defines it'
                % (n, scope), '%s:%d (%s)' % (m.relpath, line, scope), []))
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.ImportFrom):
                continue
            for name, (_, mod, attr) in p._import_targets(m, n):
                if mod in p.modules:
                    ok = (p.resolve_name(p.modules[mod], attr) is not None
                          or attr in module_names(p.modules[mod])[0]
                          or mod + '.' + attr in p.modules)
                elif mod in SAFE_MODULES:
                    known_ext, obj = external('%s.%s' % (mod, attr))
                    ok = not known_ext or obj is not None or guarded(m, n)
                else:
                    ok = not (n.level and not any(
                        x == mod or x.startswith(mod + '.')
                        for x in p.modules))
                if not ok:
                    res.violations.append((
                        'imports %s, which %s does not define' % (attr, mod),
                        at(m, n), []))
        res.paths = 1
        res.held = 1
    return fn


def guarded(m, node):
    for t in ast.walk(m.tree):
        if isinstance(t, ast.Try) and any(node is x for b in t.body
                                          for x in ast.walk(b)):
            return True
    return False


# -- attributes ------------------------------------------------------------
def class_has(types, c, name, store=False):
    """True, False or None for an instance of ``c``."""
    if c.find_method(name) is not None:
        m = c.find_method(name)
        if store and m.kind == 'property':
            return c.find_setter(name) is not None
        return True
    if c.is_enum:
        ints = any(b.split('.')[-1] == 'IntEnum' for b in c.all_ext_bases())
        if c.find_attr(name) is not None:
            return True
        return hasattr(_Int.A if ints else _Plain.A, name)
    if hasattr(object, name) and not store:
        return True
    ext = []
    for k in c.mro():
        for b in k.base_exprs:
            r = types.p.resolve_name(k.module, b.id) if isinstance(
                b, ast.Name) else None
            if isinstance(r, Class):
                continue
            dotted = ext_name(types.p, k.module, b)
            known, obj = external(dotted) if dotted else (False, None)
            if not known:
                return None
            if obj is not None:
                ext.append(obj)
    slots = c.all_slots()
    if any('__slots__' not in getattr(k, '__dict__', {})
           for o in ext for k in getattr(o, '__mro__', ())[:-1]):
        slots = None
    if slots is not None and name in slots:
        return True
    if any(hasattr(o, name) for o in ext) and not store:
        return True
    if c.find_attr(name) is not None:
        return not store or slots is None
    if slots is None:
        if store:
            return True
        return True if any((k.qual, name) in types.fields
                           for k in c.mro()) else False
    if any(s.startswith('__') for s in slots):
        return None
    return False


def ext_name(p, m, e):
    if isinstance(e, ast.Attribute):
        base = ext_name(p, m, e.value)
        return base and base + '.' + e.attr
    if isinstance(e, ast.Name):
        r = p.resolve_name(m, e.id)
        if isinstance(r, tuple) and r[0] == 'ext':
            return r[1]
        if r is None and hasattr(builtins, e.id):
            return 'builtins.' + e.id
    return None


def has_attr(types, a, name, store):
    if a[0] == 'inst':
        return class_has(types, a[1], name, store)
    if a[0] == 'class':
        c = a[1]
        if store:
            return None
        if (c.find_method(name) is not None or c.find_attr(name) is not None
                or c.find_setter(name) is not None):
            return True
        if hasattr(type, name):
            return True
        if c.all_slots() is not None and name in c.all_slots():
            return True
        bases = [external(ext_name(types.p, k.module, b) or '?')
                 for k in c.mro() for b in k.base_exprs
                 if not (isinstance(b, ast.Name) and isinstance(
                     types.p.resolve_name(k.module, b.id), Class))]
        if any(not k for k, _ in bases):
            return None
        return any(hasattr(o, name) for _, o in bases)
    if a[0] == 'mod':
        return (name in module_names(a[1])[0]
                or a[1].name + '.' + name in types.p.modules)
    if a[0] == 'ext':
        known, obj = external(a[1])
        if not known or obj is None:
            return None
        return hasattr(obj, name)
    if a[0] in SAMPLE and a[0] not in ('iter', 'num'):
        return hasattr(SAMPLE[a[0]], name) and not store
    if a[0] == 'iter':
        # an iterable of some kind: only what no iterable or container has
        return True if hasattr(iter(()), name) else None
    if a[0] == 'none':
        return hasattr(None, name)
    return None


def attributes_job(types, f):
    def fn(res):
        for n in own_nodes(f):
            if not isinstance(n, ast.Attribute):
                continue
            t = types.node_types.get(id(n.value))
            if not t:
                continue
            store = not isinstance(n.ctx, ast.Load)
            res.paths += 1
            atoms = [a for a in t if a[0] != 'none']
            if not atoms:
                continue
            said = [has_attr(types, a, n.attr, store) for a in atoms]
            if any(s is not False for s in said):
                res.held += 1
                continue
            kinds = sorted({a[1].name if a[0] in ('inst', 'class')
                            else a[1] if a[0] == 'ext' else a[0]
                            for a in atoms})
            res.violations.append((
                '%s: %s has no %s %s' % (
                    ast.unparse(n), ' / '.join(map(str, kinds)),
                    'settable' if store else 'attribute', n.attr),
                at(f, n), []))
    return fn


# -- calls -----------------------------------------------------------------
def calls_job(types, f):
    def fn(res):
        for node, caller, callee, msg in types.mismatch.values():
            if caller is f:
                res.violations.append((
                    'the call %s cannot be bound to %s: %s'
                    % (ast.unparse(node)[:80], callee.short, msg),
                    at(f, node), []))
        for n in own_nodes(f):
            if isinstance(n, ast.Call):
                res.paths += 1
                t = types.node_types.get(id(n.func), frozenset())
                bad = [a for a in t if a in NUMBERS or a[0] in (
                    'str', 'list', 'set', 'dict', 'tuple', 'tupleof', 'none')
                    or a[0] == 'inst' and not a[1].is_enum
                    and a[1].find_method('__call__') is None
                    and not a[1].ext_bases]
                if t and len(bad) == len(t) and t != {('none',)}:
                    res.violations.append((
                        '%s is called but is not callable'
                        % ast.unparse(n.func), at(f, n), []))
                else:
                    res.held += 1
    return fn


# -- operators -------------------------------------------------------------
ORDER = {ast.Lt: ('__lt__', '__gt__'), ast.Gt: ('__gt__', '__lt__'),
         ast.LtE: ('__le__', '__ge__'), ast.GtE: ('__ge__', '__le__')}
ARITH = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul',
         ast.Div: 'truediv', ast.BitAnd: 'and', ast.BitOr: 'or',
         ast.BitXor: 'xor', ast.Mod: 'mod', ast.FloorDiv: 'floordiv'}


def plain(t, *names):
    """Every known shape of ``t`` is an instance lacking all of ``names``."""
    atoms = [a for a in t if a[0] != 'none']
    return bool(atoms) and all(
        a[0] == 'inst' and not a[1].is_enum
        and all(a[1].find_method(n) is None for n in names)
        and not inherits(a[1], names) for a in atoms)


def inherits(c, names):
    for k in c.mro():
        for b in k.ext_bases:
            obj = getattr(collections.abc, b.split('.')[-1], None)
            if obj is None:
                return True
            if any(getattr(obj, n, None) is not None and not hasattr(
                    object, n) for n in names):
                return True
    return False


def unhashable(t, depth=0):
    """A class making values of this type unhashable."""
    atoms = [a for a in t if a[0] != 'none']
    if not atoms or depth > 3:
        return None
    out = []
    for a in atoms:
        if a[0] == 'inst' and not a[1].is_enum:
            c = a[1]
            own = next((k for k in c.mro() if '__eq__' in k.methods
                        or '__hash__' in k.methods), None)
            if own is not None and '__hash__' not in own.methods and \
                    own.find_attr('__hash__') is None:
                out.append(c.name)
                continue
            return None
        if a[0] in ('list', 'set', 'dict', 'deque'):
            out.append(a[0])
            continue
        if a[0] == 'tuple':
            bad = [u for u in (unhashable(x, depth + 1) for x in a[1]) if u]
            if bad:
                out.append(bad[0])
                continue
        return None
    return out[0] if out else None


def operators_job(types, f):
    def fn(res):
        ty = types.type_of

        def bad(n, msg):
            res.violations.append((msg, at(f, n), []))
        for n in own_nodes(f):
            if isinstance(n, ast.Compare):
                res.paths += 1
                items = [n.left] + n.comparators
                for op, a, b in zip(n.ops, items, items[1:]):
                    if type(op) in ORDER:
                        l, r = ORDER[type(op)]
                        if plain(ty(a), l) and plain(ty(b), r):
                            bad(n, '%s orders values which have no order'
                                % ast.unparse(n))
                    if isinstance(op, (ast.In, ast.NotIn)):
                        at_ = [x for x in ty(b) if x[0] in ('set', 'dict')]
                        if at_ and len(at_) == len(ty(b)):
                            u = unhashable(ty(a))
                            if u:
                                bad(n, '%s looks up a value of type %s, '
                                    'which cannot be hashed'
                                    % (ast.unparse(n), u))
            elif isinstance(n, ast.BinOp) and type(n.op) in ARITH:
                res.paths += 1
                k = ARITH[type(n.op)]
                if plain(ty(n.left), '__%s__' % k) and plain(
                        ty(n.right), '__r%s__' % k):
                    bad(n, '%s combines values which have no such operator'
                        % ast.unparse(n))
            elif isinstance(n, ast.Subscript):
                res.paths += 1
                if plain(ty(n.value), '__getitem__', '__setitem__',
                         '__delitem__'):
                    bad(n, '%s indexes a value which cannot be indexed'
                        % ast.unparse(n))
                ds = [x for x in ty(n.value) if x[0] == 'dict']
                if ds and len(ds) == len(ty(n.value)):
                    u = unhashable(ty(n.slice))
                    if u:
                        bad(n, '%s uses a value of type %s as a key, which '
                            'cannot be hashed' % (ast.unparse(n), u))
                for x in ty(n.value):
                    if (x[0] == 'tuple' and len(ty(n.value)) == 1
                            and isinstance(n.slice, ast.Constant)
                            and isinstance(n.slice.value, int)
                            and not -len(x[1]) <= n.slice.value < len(x[1])):
                        bad(n, '%s is out of range' % ast.unparse(n))
            elif isinstance(n, (ast.For, ast.comprehension)):
                res.paths += 1
                if plain(ty(n.iter), '__iter__', '__getitem__'):
                    bad(n.iter, '%s cannot be iterated'
                        % ast.unparse(n.iter))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    unpack(res, f, types, t, ty(n.value))
            elif isinstance(n, ast.Call):
                ft = ty(n.func)
                names = {x[1] for x in ft if x[0] == 'ext'}
                if len(names) == 1 and len(ft) == 1 and n.args:
                    name = next(iter(names))
                    a0 = ty(n.args[0])
                    res.paths += 1
                    if name == 'builtins.len' and plain(a0, '__len__'):
                        bad(n, '%s has no length' % ast.unparse(n.args[0]))
                    if name in ('builtins.sorted', 'builtins.min',
                                'builtins.max') and len(n.args) == 1 and \
                            not any(k.arg == 'key' for k in n.keywords):
                        for x in a0:
                            if x[0] in ('list', 'iter', 'set', 'tupleof') \
                                    and plain(x[1], '__lt__', '__gt__'):
                                bad(n, '%s orders values which have no order'
                                    % ast.unparse(n))
                    if name in ('builtins.hash',):
                        u = unhashable(a0)
                        if u:
                            bad(n, '%s hashes a value of type %s'
                                % (ast.unparse(n), u))
                    if name in ('builtins.set', 'builtins.frozenset',
                                'builtins.dict.fromkeys'):
                        for x in a0:
                            if x[0] in ('list', 'iter', 'tupleof') and \
                                    unhashable(x[1]):
                                bad(n, '%s collects values of type %s, which '
                                    'cannot be hashed' % (
                                        ast.unparse(n), unhashable(x[1])))
                for x in sorted(ft, key=str)[:1]:
                    if n.args and all(y[0] == 'meth' and y[1] == x[1]
                                      and {z[0] for z in y[2]}
                                      == {z[0] for z in x[2]} for y in ft):
                        recv = next(iter(x[2]))
                        if recv[0] == 'set' and x[1] in ('add', 'discard',
                                                         'remove') or \
                                recv[0] == 'dict' and x[1] in (
                                    'get', 'setdefault', 'pop'):
                            u = unhashable(ty(n.args[0]))
                            if u:
                                bad(n, '%s uses a value of type %s, which '
                                    'cannot be hashed' % (ast.unparse(n), u))
                        if x[1] == 'sort' and recv[0] == 'list' and \
                                plain(recv[1], '__lt__', '__gt__') and not \
                                any(k.arg == 'key' for k in n.keywords):
                            bad(n, '%s orders values which have no order'
                                % ast.unparse(n))
            elif isinstance(n, ast.Set):
                for e in n.elts:
                    u = unhashable(ty(e))
                    if u:
                        bad(n, 'a set holds a value of type %s, which cannot '
                            'be hashed' % u)
        res.held = res.paths - len(res.violations)
    return fn


def unpack(res, f, types, target, t):
    if not isinstance(target, (ast.Tuple, ast.List)):
        return
    n = len(target.elts)
    star = any(isinstance(e, ast.Starred) for e in target.elts)
    sizes = [len(a[1]) if a[0] == 'tuple' else None for a in t]
    if sizes and None not in sizes and all(
            (s < n - 1) if star else s != n for s in sizes):
        res.violations.append((
            '%d values are unpacked into %d targets' % (sizes[0], n),
            at(f, target), []))
        return
    if len(t) == 1 and not star:
        a = next(iter(t))
        if a[0] == 'tuple':
            for e, x in zip(target.elts, a[1]):
                unpack(res, f, types, e, x)


# -- locals ----------------------------------------------------------------
def locals_job(f):
    def fn(res):
        mark_chains(f.node)
        local = bound_names(f.node)
        params = {a.arg for a in all_args(f.node)}
        if f.node.args.vararg:
            params.add(f.node.args.vararg.arg)
        if f.node.args.kwarg:
            params.add(f.node.args.kwarg.arg)
        if isinstance(f.node, ast.Lambda):
            return
        hits, maybe = {}, {}
        shared = set()
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                shared |= set(n.names)

        def on_use(n, s):
            if n.id in s.got or n.id in shared:
                res.held += 1
            elif s.sure and n.id not in s.doubt:
                hits[(n.id, n.lineno)] = n
            else:
                maybe[(n.id, n.lineno)] = n
        w = Walk(local - params, on_use)
        w.run(f.node.body, {State(frozenset(params))})
        res.paths = res.held + len(hits) + len(maybe)
        for (name, line), n in sorted(hits.items()):
            res.violations.append((
                'the local name %s may be read before anything is assigned '
                'to it' % name, at(f, n), []))
        for (name, line), n in sorted(maybe.items()):
            res.notes.append('%s is unset at %s when a loop never runs or '
                             'no arm of a chain applies' % (name, line))
    return fn


def enum_covering(types, f, st):
    """An if-chain comparing one thing to all members of an enumeration."""
    seen, cls, subject = set(), None, None
    cur = st
    while True:
        t = cur.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1
                and isinstance(t.ops[0], (ast.Is, ast.Eq))
                and isinstance(t.comparators[0], ast.Attribute)):
            return False
        c = t.comparators[0]
        r = types.node_types.get(id(c), frozenset())
        if len(r) != 1 or next(iter(r))[0] != 'inst':
            return False
        k = next(iter(r))[1]
        text = ast.unparse(t.left)
        if (cls not in (None, k)) or subject not in (None, text):
            return False
        cls, subject = k, text
        seen.add(c.attr)
        if not cur.orelse:
            members = {n for n in cls.attrs if not n.startswith('_')}
            return members <= seen
        if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If):
            cur = cur.orelse[0]
            continue
        return False


def fall_job(types, f):
    def fn(res):
        node = f.node
        t = types.annotation(f.module, node.returns)
        if (t is None or ('none',) in t or node.returns is None
                or ast.unparse(node.returns) in ('Any', 'object')):
            res.held = 1
            return
        if any('abstract' in ast.unparse(d) for d in node.decorator_list):
            return
        mark_chains(node)
        for n in ast.walk(node):
            if isinstance(n, ast.If) and enum_covering(types, f, n):
                n.in_chain = True
        w = Walk(set(), None, loop_end_sure=True)
        r = w.run(node.body, {State()})
        res.paths = sum(len(v) for v in r.values())
        ends = [s for s in r['end'] if s.sure]
        bare = [n for n in own_nodes(f) if isinstance(n, ast.Return)
                and (n.value is None or isinstance(n.value, ast.Constant)
                     and n.value.value is None)]
        if ends:
            facts = sorted('%s is %s' % (x[0], x[1])
                           for x in ends[0].facts)[:6]
            res.violations.append((
                'a call can end without a result although one is promised'
                + (' (when %s)' % ', '.join(facts) if facts else ''),
                f.where, facts))
        elif bare and t != frozenset({('any',)}):
            res.violations.append((
                'returns nothing although a result is promised',
                at(f, bare[0]), []))
        elif r['end']:
            res.notes.append('end reachable when no arm applies')
        else:
            res.held = 1
    return fn


# -- endless recursion -----------------------------------------------------
class Must:
    """Calls every run of a function makes."""

    def __init__(self, types):
        self.t = types
        self.by_node = {}
        for (nid, via), c in types.calls.items():
            self.by_node.setdefault(nid, []).append(c)

    def of(self, f):
        if isinstance(f.node, ast.Lambda):
            return self.expr(f.node.body)
        if f.is_gen:
            return set()
        return self.seq(f.node.body, set())

    def seq(self, body, after):
        out = set(after)
        for st in reversed(body):
            out = self.stmt(st, out)
        return out

    def stmt(self, st, after):
        if isinstance(st, ast.Return):
            return self.expr(st.value)
        if isinstance(st, ast.Raise):
            return set()
        if isinstance(st, (ast.Break, ast.Continue)):
            return set()
        if isinstance(st, ast.If):
            return self.expr(st.test) | (self.seq(st.body, after)
                                         & self.seq(st.orelse, after))
        if isinstance(st, ast.While):
            if any(isinstance(n, (ast.Return, ast.Raise))
                   for n in ast.walk(st)):
                after = set()
            return self.expr(st.test) | after
        if isinstance(st, ast.For):
            if any(isinstance(n, (ast.Return, ast.Raise))
                   for n in ast.walk(st)):
                after = set()
            return self.expr(st.iter) | self.direct(st.iter, 'iter') | after
        if isinstance(st, ast.Try):
            return after & self.seq(st.body, after) if st.handlers else \
                self.seq(st.body, after)
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Pass,
                           ast.Import, ast.ImportFrom, ast.Global)):
            return after
        if isinstance(st, ast.With):
            out = set()
            for i in st.items:
                out |= self.expr(i.context_expr)
            return out | self.seq(st.body, after)
        out = set(after)
        for e in ast.iter_child_nodes(st):
            if isinstance(e, ast.expr):
                out |= self.expr(e)
        return out

    def direct(self, e, *vias):
        out = set()
        for c in self.by_node.get(id(e), ()):
            if c.via == 'cmp-in' or (vias and c.via not in vias):
                continue
            if not vias and c.via == 'iter':
                continue
            if c.via == 'mixin':
                out |= {t[0] for t in c.targets}
            elif len(c.targets) == 1 and not c.ext and not c.unknown:
                out.add(next(iter(c.targets))[0])
            elif len(c.targets) == 1 and c.via != 'call':
                out.add(next(iter(c.targets))[0])
            elif len(c.targets) == 1 and c.ext <= {
                    'builtins.len', 'builtins.reversed', 'builtins.repr',
                    'builtins.str'}:
                out.add(next(iter(c.targets))[0])
        return {f for f in out if not f.is_gen}

    def expr(self, e):
        if e is None:
            return set()
        if isinstance(e, (ast.Lambda,)):
            return set()
        if isinstance(e, ast.IfExp):
            return self.expr(e.test) | (self.expr(e.body)
                                        & self.expr(e.orelse))
        if isinstance(e, ast.BoolOp):
            return self.expr(e.values[0])
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            return self.expr(e.left) | self.expr(e.comparators[0])
        if isinstance(e, ast.GeneratorExp):
            g = e.generators[0]
            return self.expr(g.iter)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp)):
            g = e.generators[0]
            return self.expr(g.iter) | self.direct(g.iter, 'iter')
        out = self.direct(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.expr(c)
            elif isinstance(c, ast.keyword):
                out |= self.expr(c.value)
        return out


def cycles(graph):
    """Strongly connected parts with an edge inside."""
    index, low, stack, on, out = {}, {}, [], set(), []

    def visit(v):
        index[v] = low[v] = len(index)
        stack.append(v)
        on.add(v)
        for w in graph.get(v, ()):
            if w not in index:
                visit(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            part = []
            while True:
                w = stack.pop()
                on.discard(w)
                part.append(w)
                if w is v:
                    break
            if len(part) > 1 or v in graph.get(v, ()):
                out.append(part)
    for v in list(graph):
        if v not in index:
            visit(v)
    return out


def recursion_job(types):
    def fn(res):
        m = Must(types)
        g = {f: m.of(f) for f in types.order}
        res.paths = sum(len(v) for v in g.values())
        res.held = len(g)
        res.functions |= {f.qual for f in types.order}
        for part in cycles(g):
            names = sorted(f.short for f in part)
            res.violations.append((
                'every call ends up calling itself again: %s'
                % ' -> '.join(names), sorted(f.where for f in part)[0],
                names))
    return fn


# -- fields ----------------------------------------------------------------
def fields_job(types, c):
    """Every slot read somewhere is set by the constructor."""
    def fn(res):
        slots = c.all_slots()
        init = c.find_method('__init__')
        if slots is None or init is None or c.is_enum:
            res.held = 1
            return
        # what the constructor and the methods it calls on itself set
        seen, stack, done = set(), [init], set()
        opaque = False
        while stack:
            f = stack.pop()
            if f in done:
                continue
            done.add(f)
            me = all_args(f.node)[0].arg if all_args(f.node) else None
            for n in own_nodes(f):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.value, ast.Name) and n.value.id == me:
                    if isinstance(n.ctx, ast.Store):
                        seen.add(n.attr)
                        s = c.find_setter(n.attr)
                        if s is not None:
                            stack.append(s)
                    else:
                        g = c.find_method(n.attr)
                        if g is not None and g.kind == 'method':
                            stack.append(g)
                if isinstance(n, ast.Call):
                    for a in n.args:
                        if isinstance(a, ast.Name) and a.id == me:
                            name = ast.unparse(n.func)
                            if name in ('setattr', 'object.__setattr__'):
                                opaque = True
                    if isinstance(n.func, ast.Attribute) and isinstance(
                            n.func.value, ast.Call) and ast.unparse(
                                n.func.value.func) == 'super':
                        for k in c.mro()[1:]:
                            g = k.methods.get(n.func.attr)
                            if g is not None:
                                stack.append(g)
        if opaque:
            res.undecided.append('fields are set by name')
            return
        for s in sorted(slots):
            if s in seen or s in ('__weakref__', '__dict__'):
                res.held += 1
                continue
            # lazily created fields: every class method setting it first
            reads = [f for f in types.order for n in own_nodes(f)
                     if isinstance(n, ast.Attribute) and n.attr == s
                     and isinstance(n.ctx, ast.Load)
                     and any(a == ('inst', c) for a in
                             types.node_types.get(id(n.value), ()))]
            caught = any(isinstance(x, ast.Name) and x.id in (
                'hasattr', 'AttributeError', 'getattr')
                for f in reads for x in ast.walk(f.node))
            made = any(isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr == '__new__'
                for f in types.order for n in own_nodes(f))
            if reads and not caught and not made:
                res.violations.append((
                    'the field %s is read but no constructor sets it' % s,
                    reads[0].where, []))
        res.paths = len(slots)
    return fn


ABSTRACT = {'Sequence': ('__getitem__', '__len__'),
            'MutableSequence': ('__getitem__', '__len__', '__setitem__',
                                '__delitem__', 'insert'),
            'Sized': ('__len__',), 'Iterable': ('__iter__',),
            'Iterator': ('__next__',), 'Container': ('__contains__',),
            'Collection': ('__len__', '__iter__', '__contains__'),
            'Set': ('__len__', '__iter__', '__contains__'),
            'Mapping': ('__len__', '__iter__', '__getitem__')}


def abstract_job(c):
    def fn(res):
        need = set()
        for b in c.all_ext_bases():
            need |= set(ABSTRACT.get(b.split('.')[-1], ()))
        missing = sorted(n for n in need if c.find_method(n) is None
                         and c.find_attr(n) is None)
        res.paths = len(need)
        res.held = len(need) - len(missing)
        if missing:
            res.violations.append((
                'no object can be created: %s left abstract'
                % ', '.join(missing), '%s:%d (%s)' % (
                    c.module.relpath, c.node.lineno, c.name), []))
    return fn


def build(ctx):
    p = ctx.p
    types = Types(p)
    ctx.rule('names', 'every name and every imported name is defined')
    ctx.rule('attributes', 'every attribute exists on the values it is taken '
                           'from or put on')
    ctx.rule('calls', 'every call fits the parameters of what it calls')
    ctx.rule('operators', 'values support the operators, the ordering, the '
                          'hashing and the unpacking they are put to')
    ctx.rule('locals', 'no local name is read before it is assigned')
    ctx.rule('result', 'a promised result is returned on every path')
    ctx.rule('recursion', 'no function calls itself again on every path')
    ctx.rule('fields', 'constructors set every field that is read')
    ctx.rule('concrete', 'classes implement the protocol they inherit')
    ctx.assume('Parameter and result annotations describe what is passed and '
               'returned; types are joined over all assignments, a rule '
               'speaks only when every type a value may have breaks it.')
    ctx.assume('A loop that never runs and a chain of conditions none of '
               'which applies do not count as a path to an unset name.')
    ctx.extra['types'] = {
        'functions': len(types.order), 'fields': len(types.fields),
        'call_sites': len(types.calls), 'rounds': types.rounds}
    if len(types.order) < 5:
        ctx.job('names', 'package', lambda r: r.undecided.append(
            'no functions found'))
        return
    for m in p.modules.values():
        ctx.job('names', m.name, names_job(p, m))
    for f in types.order:
        ctx.job('attributes', f.qual, attributes_job(types, f))
        ctx.job('calls', f.qual, calls_job(types, f))
        ctx.job('operators', f.qual, operators_job(types, f))
        if not isinstance(f.node, ast.Lambda):
            ctx.job('locals', f.qual, locals_job(f))
            if not f.is_gen and f.node.name != '__init__':
                ctx.job('result', f.qual, fall_job(types, f))
    ctx.job('recursion', 'call graph', recursion_job(types))
    for c in p.all_classes():
        ctx.job('fields', c.qual, fields_job(types, c))
        ctx.job('concrete', c.qual, abstract_job(c))
