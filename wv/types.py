"""Flow-insensitive types of the whole package (global fixpoint).

A type is a frozenset of atoms:
  ('inst', Class) ('class', Class) ('fun', Func) ('bound', Func)
  ('partial', atom, positional, keywords) ('lambda', node, Func)
  ('none',) ('bool',) ('int',) ('float',) ('num',) ('str',) ('bytes',)
  ('list', T) ('set', T) ('dict', K, V) ('deque', T) ('iter', T) ('gen', T)
  ('tuple', (T, ...)) ('tupleof', T) ('slice',)
  ('ext', dotted) ('extinst', dotted) ('mod', Module) ('any',)
  ('addr',)                a number made of an address or of a hash
  ('tag', kind, key)       the value may be the object the tag stands for
Annotations of parameters and results are trusted; everything else is
joined from what is assigned, stored, passed and returned.
"""
import ast
import builtins

from .model import Class, Func, Module

ANY = frozenset({('any',)})
NONE = frozenset({('none',)})
BOT = frozenset()
BOOL = frozenset({('bool',)})
INT = frozenset({('int',)})
FLOAT = frozenset({('float',)})
NUM = frozenset({('num',)})
STR = frozenset({('str',)})
DEPTH = 4
NUMBERS = {('int',), ('float',), ('num',), ('bool',)}


def size(t, depth=0):
    if depth > DEPTH:
        return depth
    best = depth
    for a in t:
        for x in a[1:]:
            if isinstance(x, frozenset):
                best = max(best, size(x, depth + 1))
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, frozenset):
                        best = max(best, size(y, depth + 1))
    return best


def cut(t):
    if size(t) > DEPTH or len(t) > 24:
        return ANY | tags(t)
    return t


def tags(t):
    return frozenset(a for a in t if a[0] in ('tag', 'addr'))


def parts(a):
    for x in a[1:]:
        if isinstance(x, frozenset):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, frozenset):
                    yield y


def has_tag(t):
    return any(a[0] in ('tag', 'addr') or (a[0] != 'partial' and any(
        has_tag(x) for x in parts(a))) for a in t)


def mutable(t):
    for a in t:
        if a[0] in ('list', 'set', 'dict', 'deque', 'iter', 'gen', 'any',
                    'extinst'):
            return True
        if a[0] == 'inst' and not a[1].is_enum:
            return True
        if a[0] in ('tuple', 'tupleof') and any(mutable(x)
                                                for x in parts(a)):
            return True
    return False


def spread(t):
    """A new container of the same elements."""
    tg = frozenset(a for a in t if a[0] == 'tag')
    if not tg:
        return t
    out = set()
    for a in t:
        if a[0] == 'tag':
            continue
        if a[0] in ('list', 'set', 'deque', 'iter', 'tupleof', 'gen'):
            a = (a[0], a[1] | tg if mutable(a[1]) else a[1])
        elif a[0] == 'tuple':
            a = ('tuple', tuple(x | tg if mutable(x) else x for x in a[1]))
        out.add(a)
    return frozenset(out)


def join(*ts):
    out = frozenset().union(*ts)
    # containers of one kind are merged: keeps the lattice small
    for kind in ('list', 'set', 'iter', 'gen', 'deque', 'tupleof'):
        same = [a for a in out if a[0] == kind]
        if len(same) > 1:
            out = (out - set(same)) | {(kind, join(*[a[1] for a in same]))}
    same = [a for a in out if a[0] == 'dict']
    if len(same) > 1:
        out = (out - set(same)) | {('dict', join(*[a[1] for a in same]),
                                    join(*[a[2] for a in same]))}
    by_len = {}
    for a in out:
        if a[0] == 'tuple':
            by_len.setdefault(len(a[1]), []).append(a)
    for n, same in by_len.items():
        if len(same) > 1:
            out = (out - set(same)) | {('tuple', tuple(
                join(*[a[1][i] for a in same]) for i in range(n)))}
    return cut(frozenset(out))


def listof(t):
    return cut(frozenset({('list', t)}))


def iterof(t):
    return cut(frozenset({('iter', t)}))


class Roots:
    """Where tags start and what they spread to."""
    shared = False           # module, class and default objects are tagged

    def param(self, f, name):
        return BOT

    def field(self, cls, attr, f):
        return BOT

    def carries(self, tag, cls, attr):
        return True


class Call:
    """A call site with what it may reach."""
    __slots__ = ('node', 'func', 'targets', 'ext', 'unknown', 'via')

    def __init__(self, node, func, via='call'):
        self.node, self.func, self.via = node, func, via
        self.targets = {}        # (Func, implicit args) -> None
        self.ext = set()         # dotted external names
        self.unknown = False


class Types:
    def __init__(self, program, rounds=12, roots=None):
        self.p = program
        self.roots = roots or Roots()
        self.params = {}         # (id(fn node), name) -> T
        self.locals = {}         # (id(fn node), name) -> T
        self.rets = {}           # id(fn node) -> T
        self.yields = {}
        self.fields = {}         # (class qual, attr) -> T
        self.globs = {}          # (module, name) -> T
        self.node_types = {}     # id(expr) -> T
        self.calls = {}          # id(call node) -> Call
        self.fun_of = {}         # id(fn node) -> Func
        self.scope_parent = {}   # id(fn node) -> enclosing Func or None
        self.bound_names = {}    # id(fn node) -> set of local names
        self.mismatch = {}       # (id(call), id(fn)) -> (node, Func, message)
        self.loads = {}          # augmented assignment -> target as read
        self.ordered = {}        # id(node) -> (node, Func, T put in order)
        self.iterated = {}       # id(node) -> (node, Func, T walked)
        self.order = []
        for f in program.all_functions():
            self.register(f, None)
        self.changed = True
        n = 0
        while self.changed and n < rounds:
            self.changed = False
            n += 1
            for m in program.modules.values():
                self.module_body(m)
            for f in list(self.order):
                self.function(f)
        self.rounds = n

    # -- registration ------------------------------------------------------
    def register(self, f, parent):
        self.fun_of[id(f.node)] = f
        self.scope_parent[id(f.node)] = parent
        self.bound_names[id(f.node)] = bound_names(f.node)
        self.order.append(f)
        body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                g = Func(n, f.module, None, 'nested')
                self.register(g, f)
                continue
            if isinstance(n, ast.ClassDef):
                continue
            stack.extend(ast.iter_child_nodes(n))

    def up(self, table, key, t):
        old = table.get(key, BOT)
        new = join(old, t)
        if new != old:
            table[key] = new
            self.changed = True

    # -- annotations -------------------------------------------------------
    def annotation(self, m, e, depth=0):
        if e is None or depth > 8:
            return None
        if isinstance(e, ast.Constant):
            if e.value is None:
                return NONE
            if isinstance(e.value, str):
                try:
                    return self.annotation(
                        m, ast.parse(e.value, mode='eval').body, depth + 1)
                except SyntaxError:
                    return ANY
            return ANY
        if isinstance(e, ast.Name):
            if e.id in ('int', 'float', 'bool', 'str'):
                return {'int': INT, 'float': FLOAT, 'bool': BOOL,
                        'str': STR}[e.id]
            r = self.p.resolve_name(m, e.id)
            if isinstance(r, Class):
                return frozenset({('inst', r)})
            if isinstance(r, tuple) and r[0] == 'ext':
                last = r[1].split('.')[-1]
                if last in ('Real', 'Rational', 'Number'):
                    return NUM
                return ANY
            if isinstance(r, tuple) and r[0] == 'expr':
                return self.annotation(r[1], r[2], depth + 1)
            return ANY
        if isinstance(e, ast.Subscript):
            head = ast.unparse(e.value).split('.')[-1]
            args = (e.slice.elts if isinstance(e.slice, ast.Tuple)
                    else [e.slice])
            ts = [self.annotation(m, a, depth + 1) or ANY for a in args]
            if head == 'Optional':
                return join(ts[0], NONE)
            if head == 'Union':
                return join(*ts)
            if head in ('List', 'list', 'MutableSequence'):
                return listof(ts[0])
            if head in ('Set', 'set', 'FrozenSet', 'frozenset'):
                return cut(frozenset({('set', ts[0])}))
            if head in ('Dict', 'dict', 'DefaultDict', 'Mapping'):
                return cut(frozenset({('dict', ts[0], ts[-1])}))
            if head in ('Deque', 'deque'):
                return cut(frozenset({('deque', ts[0])}))
            if head in ('Iterator', 'Iterable', 'Generator'):
                return iterof(ts[0])
            if head in ('Tuple', 'tuple'):
                if len(args) == 2 and isinstance(args[1], ast.Constant) \
                        and args[1].value is Ellipsis:
                    return cut(frozenset({('tupleof', ts[0])}))
                return cut(frozenset({('tuple', tuple(ts))}))
            return ANY
        return ANY

    def param_type(self, f, name):
        for a in all_args(f.node):
            if a.arg == name:
                t = self.annotation(f.module, a.annotation)
                extra = self.roots.param(f, name)
                passed = self.params.get((id(f.node), name), BOT)
                if t is not None and t != ANY:
                    if has_tag(passed):
                        t = join(t, passed)
                    return join(t, extra) if extra else t
                return join(passed, extra) if extra else passed
        return self.params.get((id(f.node), name), BOT)

    # -- bodies ------------------------------------------------------------
    def module_body(self, m):
        env = Env(self, m, None)
        for st in m.tree.body:
            env.stmt(st)
        for c in m.classes:
            for st in c.node.body:
                if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    env.stmt(st, cls=c)

    def function(self, f):
        env = Env(self, f.module, f)
        node = f.node
        args = all_args(node)
        for i, a in enumerate(args):
            if i == 0 and f.cls is not None and f.kind in (
                    'method', 'property', 'setter'):
                t = frozenset({('inst', f.cls)}) | self.roots.param(f, a.arg)
            elif i == 0 and f.cls is not None and f.kind == 'classmethod':
                t = frozenset({('class', f.cls)})
            else:
                t = self.param_type(f, a.arg)
            self.up(self.locals, (id(node), a.arg), t)
        if node.args.vararg:
            ann = self.annotation(f.module, node.args.vararg.annotation)
            self.up(self.locals, (id(node), node.args.vararg.arg),
                    cut(frozenset({('tupleof', ann or ANY)})))
        if node.args.kwarg:
            self.up(self.locals, (id(node), node.args.kwarg.arg),
                    cut(frozenset({('dict', STR, ANY)})))
        for d in node.args.defaults + [x for x in node.args.kw_defaults
                                       if x is not None]:
            t = env.expr(d)
        pos = (node.args.posonlyargs + node.args.args)
        for a, d in zip(pos[len(pos) - len(node.args.defaults):],
                        node.args.defaults):
            self.up(self.params, (id(node), a.arg), env.made_once(
                d, env.expr(d), 'the default of %s in %s' % (a.arg,
                                                             f.short)))
        if isinstance(node, ast.Lambda):
            self.up(self.rets, id(node), env.expr(node.body))
            return
        for st in node.body:
            env.stmt(st)

    def ret_type(self, f):
        if isinstance(f.node, ast.Lambda):
            return self.rets.get(id(f.node), BOT)
        t = self.annotation(f.module, f.node.returns)
        got = (iterof(self.yields.get(id(f.node), BOT)) if f.is_gen
               else self.rets.get(id(f.node), BOT))
        if self.roots.shared and remembered(f):
            if mutable(got | (t or BOT)):
                got = join(got, frozenset({(
                    'tag', 'shared', 'the remembered result of '
                    + f.short)}))
        if t is not None and t != ANY:
            # what is promised, and where it may come from
            return join(t, got) if has_tag(got) else t
        return got or (ANY if t == ANY else BOT)

    # -- queries -----------------------------------------------------------
    def type_of(self, node):
        return self.node_types.get(id(node), ANY)

    def callees(self, f):
        """Package functions reachable from the calls in ``f`` itself,
        properties and operators included."""
        out = set()
        for c in self.calls.values():
            if c.func is f:
                out |= {t[0] for t in c.targets}
        return out

    def graph(self):
        g = {}
        for c in self.calls.values():
            g.setdefault(c.func, set()).update(t[0] for t in c.targets)
        for f in self.order:
            g.setdefault(f, set())
            p = self.scope_parent[id(f.node)]
            if p is not None:
                g.setdefault(p, set()).add(f)
        return g

    def reachable(self, starts):
        g = self.graph()
        seen, stack = set(), list(starts)
        while stack:
            f = stack.pop()
            if f in seen:
                continue
            seen.add(f)
            stack.extend(g.get(f, ()))
        return seen


def own_fields_stored(types, f):
    """(class, field, node) of the attribute stores of a function."""
    body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store,
                                                               ast.Del)):
            for a in types.node_types.get(id(n.value), ()):
                if a[0] == 'inst' and a[1].find_setter(n.attr) is None:
                    yield a[1], n.attr, n
        stack.extend(ast.iter_child_nodes(n))


def remembered(f):
    return not isinstance(f.node, ast.Lambda) and any(
        'cache' in ast.unparse(d) and 'cached_property' not in ast.unparse(d)
        for d in f.node.decorator_list)


def all_args(node):
    a = node.args
    return a.posonlyargs + a.args + a.kwonlyargs


def bound_names(node):
    out = {a.arg for a in all_args(node)}
    if node.args.vararg:
        out.add(node.args.vararg.arg)
    if node.args.kwarg:
        out.add(node.args.kwarg.arg)
    if isinstance(node, ast.Lambda):
        return out
    glob = set()
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            # walrus targets inside comprehensions bind here
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        stack.extend(ast.iter_child_nodes(n))
    return out - glob


ELEMENT = {'list', 'set', 'iter', 'gen', 'deque', 'tupleof'}
DUNDER = {ast.Add: ('__add__', '__radd__'), ast.Sub: ('__sub__', '__rsub__'),
          ast.Mult: ('__mul__', '__rmul__'),
          ast.BitAnd: ('__and__', '__rand__'),
          ast.BitOr: ('__or__', '__ror__'),
          ast.BitXor: ('__xor__', '__rxor__'),
          ast.Div: ('__truediv__', '__rtruediv__')}
COMPARE = {ast.Eq: ('__eq__', '__eq__'), ast.NotEq: ('__ne__', '__ne__'),
           ast.Lt: ('__lt__', '__gt__'), ast.Gt: ('__gt__', '__lt__'),
           ast.LtE: ('__le__', '__ge__'), ast.GtE: ('__ge__', '__le__')}


class Env:
    """Walks one body, joining types into the tables of ``Types``."""

    def __init__(self, types, module, func):
        self.t, self.m, self.f = types, module, func
        self.comp = []           # comprehension scopes

    # -- names -------------------------------------------------------------
    def load(self, name):
        for scope in reversed(self.comp):
            if name in scope:
                return scope[name]
        f = self.f
        while f is not None:
            if name in self.t.bound_names[id(f.node)]:
                got = self.t.locals.get((id(f.node), name), BOT)
                for g in self.t.order:
                    if (self.t.scope_parent[id(g.node)] is f
                            and g.name == name):
                        got = join(got, frozenset({('fun', g)}))
                return got
            f = self.t.scope_parent[id(f.node)]
        r = self.t.p.resolve_name(self.m, name)
        return self.resolved(r, name)

    def resolved(self, r, name):
        if isinstance(r, Func):
            return frozenset({('fun', r)})
        if isinstance(r, Class):
            return frozenset({('class', r)})
        if isinstance(r, Module):
            return frozenset({('mod', r)})
        if isinstance(r, tuple) and r[0] == 'ext':
            return frozenset({('ext', r[1])})
        if isinstance(r, tuple) and r[0] in ('expr', 'item'):
            return self.t.globs.get((r[1].name, name)) or ANY
        got = self.t.globs.get((self.m.name, name))
        if got:
            return got
        if hasattr(builtins, name):
            return frozenset({('ext', 'builtins.' + name)})
        return ANY

    def store(self, name, t):
        for scope in reversed(self.comp):
            if name in scope:
                scope[name] = join(scope[name], t)
                return
        f = self.f
        while f is not None:
            if name in self.t.bound_names[id(f.node)]:
                self.t.up(self.t.locals, (id(f.node), name), t)
                return
            f = self.t.scope_parent[id(f.node)]
        self.t.up(self.t.globs, (self.m.name, name), t)

    # -- statements --------------------------------------------------------
    def stmt(self, st, cls=None):
        k = type(st).__name__
        fn = getattr(self, 's_' + k, None)
        if fn is not None:
            if k in ('Assign', 'AnnAssign') and cls is not None:
                if st.value is not None:
                    t = self.made_once(st.value, self.expr(st.value),
                                       'the class attribute %s of %s' % (
                                           ast.unparse(st).split('=')[0]
                                           .split(':')[0].strip(), cls.name))
                    for x in (st.targets if k == 'Assign' else [st.target]):
                        if isinstance(x, ast.Name):
                            self.t.up(self.t.fields, (cls.qual, x.id,
                                                      'class'), t)
                return
            fn(st)

    def body(self, sts):
        for s in sts:
            self.stmt(s)

    def made_once(self, e, t, what):
        """The value of an expression evaluated once, when the package is
        loaded."""
        if not self.t.roots.shared or e is None or not mutable(t):
            return t
        if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)) and not \
                any(isinstance(x, ast.Call) for x in ast.walk(e)):
            return t
        if any(a[0] in ('class', 'fun', 'ext', 'partial') for a in t):
            return t
        return join(t, frozenset({('tag', 'shared', what)}))

    def s_Assign(self, st):
        t = self.expr(st.value)
        if self.f is None:
            t = self.made_once(st.value, t, 'the module object %s'
                               % ast.unparse(st.targets[0]))
        for x in st.targets:
            self.assign(x, t, st.value)

    def s_AnnAssign(self, st):
        t = self.t.annotation(self.m, st.annotation)
        if st.value is not None:
            v = self.expr(st.value)
            if t is None or t == ANY:
                t = v
            elif has_tag(v):
                t = join(t, v)
            if self.f is None:
                t = self.made_once(st.value, t, 'the module object %s'
                                   % ast.unparse(st.target))
        self.assign(st.target, t or ANY, st.value)

    def s_AugAssign(self, st):
        v = self.expr(st.value)
        if id(st) not in self.t.loads:
            self.t.loads[id(st)] = _as_load(st.target)
        cur = self.expr(self.t.loads[id(st)])
        t = self.binop(st, st.op, cur, v)
        if isinstance(st.target, ast.Subscript):
            self.expr(st.target.value)
            return
        self.assign(st.target, t, None)

    def s_Expr(self, st):
        self.expr(st.value)

    def s_Return(self, st):
        t = self.expr(st.value) if st.value is not None else NONE
        if self.f is not None:
            self.t.up(self.t.rets, id(self.f.node), t)

    def s_If(self, st):
        self.expr(st.test)
        self.body(st.body)
        self.body(st.orelse)

    def s_While(self, st):
        self.s_If(st)

    def s_For(self, st):
        it = self.expr(st.iter)
        self.assign(st.target, self.element(it, st.iter), None)
        self.body(st.body)
        self.body(st.orelse)

    def s_Try(self, st):
        self.body(st.body)
        for h in st.handlers:
            if h.type is not None:
                self.expr(h.type)
            if h.name:
                self.store(h.name, ANY)
            self.body(h.body)
        self.body(st.orelse)
        self.body(st.finalbody)

    def s_With(self, st):
        for i in st.items:
            t = self.expr(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, ANY, None)
        self.body(st.body)

    def s_Raise(self, st):
        if st.exc is not None:
            self.expr(st.exc)
        if st.cause is not None:
            self.expr(st.cause)

    def s_Assert(self, st):
        self.expr(st.test)
        if st.msg is not None:
            self.expr(st.msg)

    def s_Delete(self, st):
        for x in st.targets:
            if isinstance(x, ast.Subscript):
                t = self.expr(x.value)
                self.expr(x.slice)
                self.special(x, t, '__delitem__', 1)
            elif isinstance(x, ast.Attribute):
                self.expr(x.value)

    def s_ImportFrom(self, st):
        if self.f is None:
            return
        for name, (kind, mod, attr) in self.t.p._import_targets(self.m, st):
            r = None
            if mod in self.t.p.modules:
                r = self.t.p.resolve_name(self.t.p.modules[mod], attr)
                self.store(name, self.resolved(r, attr))
            else:
                self.store(name, frozenset({('ext', '%s.%s' % (mod, attr))}))

    def s_Import(self, st):
        if self.f is None:
            return
        for a in st.names:
            self.store((a.asname or a.name).split('.')[0],
                       frozenset({('ext', a.name)}))

    def s_FunctionDef(self, st):
        for d in st.decorator_list:
            self.expr(d)
        if self.f is not None:
            self.store(st.name, frozenset())

    def s_Match(self, st):
        self.expr(st.subject)
        for c in st.cases:
            for n in ast.walk(c.pattern):
                if isinstance(n, ast.MatchAs) and n.name:
                    self.store(n.name, ANY)
            if c.guard is not None:
                self.expr(c.guard)
            self.body(c.body)

    # -- assignment --------------------------------------------------------
    def assign(self, target, t, value):
        if isinstance(target, ast.Name):
            self.store(target.id, t)
        elif isinstance(target, (ast.Tuple, ast.List)):
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, listof(self.element(t, None)), None)
                else:
                    self.assign(e, self.item(t, i, len(target.elts)), None)
        elif isinstance(target, ast.Attribute):
            r = self.expr(target.value)
            self.t.node_types[id(target.value)] = r
            for a in r:
                if a[0] == 'inst':
                    s = a[1].find_setter(target.attr)
                    if s is not None:
                        self.self_tags(s, r)
                        self.record(target, s, 1, 'setter')
                        args = all_args(s.node)
                        if len(args) > 1:
                            self.t.up(self.t.params,
                                      (id(s.node), args[1].arg), t)
                    else:
                        self.t.up(self.t.fields, (a[1].qual, target.attr), t)
        elif isinstance(target, ast.Subscript):
            r = self.expr(target.value)
            self.expr(target.slice)
            self.special(target, r, '__setitem__', 2)
            if isinstance(target.slice, ast.Slice):
                self.grow(target.value, self.element(t, None))
            else:
                kt = self.t.type_of(target.slice)
                self.grow(target.value, t, kt)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, t, value)

    def grow(self, recv, t, key=None):
        """The container named by ``recv`` may now hold ``t``."""
        if isinstance(recv, ast.Subscript):
            inner = self.t.type_of(recv)
            grown = grown_type(inner, t, key)
            self.grow(recv.value, grown, self.t.type_of(recv.slice))
            return
        cur = self.t.type_of(recv)
        new = grown_type(cur, t, key)
        if not new:
            return
        if isinstance(recv, ast.Name):
            self.store(recv.id, new)
        elif isinstance(recv, ast.Attribute):
            for a in self.t.type_of(recv.value):
                if a[0] == 'inst':
                    self.t.up(self.t.fields, (a[1].qual, recv.attr), new)

    def item(self, t, i, n):
        out = BOT
        for a in t:
            if a[0] == 'tuple':
                if i < len(a[1]):
                    out = join(out, a[1][i])
            else:
                out = join(out, self.element(frozenset({a}), None))
        return out

    def element(self, t, node):
        out = BOT
        for a in t:
            if a[0] in ELEMENT:
                out = join(out, a[1])
            elif a[0] == 'dict':
                out = join(out, a[1])
            elif a[0] == 'tuple':
                out = join(out, *a[1]) if a[1] else out
            elif a[0] == 'str':
                out = join(out, STR)
            elif a[0] == 'inst':
                m = a[1].find_method('__iter__')
                if m is not None:
                    self.self_tags(m, t)
                    if node is not None:
                        self.record(node, m, 0, 'iter')
                    out = join(out, self.element(self.t.ret_type(m), None))
                else:
                    m = a[1].find_method('__getitem__')
                    if m is not None:
                        self.self_tags(m, t)
                        if node is not None:
                            self.record(node, m, 1, 'iter')
                        out = join(out, self.t.ret_type(m))
                    else:
                        out = join(out, ANY)
            elif a[0] == 'class' and a[1].is_enum:
                out = join(out, frozenset({('inst', a[1])}))
            elif a[0] not in ('none', 'tag', 'addr'):
                out = join(out, ANY)
        return self.carry(t, out)

    def note(self, table, node, t):
        old = table.get(id(node))
        table[id(node)] = (node, self.f, join(old[2], t) if old else t)

    def carry(self, t, out, cls=None, attr=None):
        """Parts of a tagged thing are tagged."""
        tg = frozenset(a for a in t if a[0] == 'tag'
                       and self.t.roots.carries(a, cls, attr))
        return out | tg if tg and mutable(out) else out

    def self_tags(self, m, t):
        tg = frozenset(a for a in t if a[0] == 'tag')
        if tg and m.kind in ('method', 'property', 'setter'):
            args = all_args(m.node)
            if args:
                self.t.up(self.t.locals, (id(m.node), args[0].arg), tg)

    # -- calls -------------------------------------------------------------
    def record(self, node, func, implicit, via='call'):
        key = (id(node), via)
        c = self.t.calls.get(key)
        if c is None:
            c = self.t.calls[key] = Call(node, self.f, via)
        c.targets[(func, implicit)] = None
        return c

    def record_ext(self, node, name=None, via='call'):
        key = (id(node), via)
        c = self.t.calls.get(key)
        if c is None:
            c = self.t.calls[key] = Call(node, self.f, via)
        if name is None:
            c.unknown = True
        else:
            c.ext.add(name)

    def special(self, node, t, name, implicit):
        out = BOT
        for a in t:
            if a[0] == 'inst':
                m = a[1].find_method(name)
                if m is not None:
                    self.self_tags(m, t)
                    self.record(node, m, implicit, name)
                    out = join(out, self.t.ret_type(m))
        return out

    # -- expressions -------------------------------------------------------
    def expr(self, e):
        if e is None:
            return NONE
        fn = getattr(self, 'e_' + type(e).__name__, None)
        t = ANY if fn is None else fn(e)
        if fn is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.expr(c)
        t = cut(t)
        old = self.t.node_types.get(id(e), BOT)
        self.t.node_types[id(e)] = join(old, t)
        return t

    def e_Constant(self, e):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return BOOL
        if isinstance(v, int):
            return INT
        if isinstance(v, float):
            return FLOAT
        if isinstance(v, str):
            return STR
        return ANY

    def e_Name(self, e):
        return self.load(e.id)

    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.expr(v.value)
        return STR

    def e_NamedExpr(self, e):
        t = self.expr(e.value)
        self.store(e.target.id, t)
        return t

    def e_Tuple(self, e):
        ts = [self.expr(x) for x in e.elts]
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return frozenset({('tupleof', join(*ts))})
        return frozenset({('tuple', tuple(ts))})

    def e_List(self, e):
        return listof(join(BOT, *[self.expr(x) for x in e.elts]))

    def e_Set(self, e):
        return frozenset({('set', join(BOT, *[self.expr(x)
                                              for x in e.elts]))})

    def e_Dict(self, e):
        ks = [self.expr(x) for x in e.keys if x is not None]
        vs = [self.expr(x) for x in e.values]
        return frozenset({('dict', join(BOT, *ks), join(BOT, *vs))})

    def e_Starred(self, e):
        return self.element(self.expr(e.value), e.value)

    def e_IfExp(self, e):
        self.expr(e.test)
        return join(self.expr(e.body), self.expr(e.orelse))

    def e_BoolOp(self, e):
        ts = [self.expr(x) for x in e.values]
        if isinstance(e.op, ast.Or):
            ts = [t - NONE for t in ts[:-1]] + ts[-1:]
        return join(*ts)

    def e_UnaryOp(self, e):
        t = self.expr(e.operand)
        if isinstance(e.op, ast.Not):
            return BOOL
        for a in t:
            if a[0] == 'extinst':
                self.record_ext(e, a[1] + '.' + type(e.op).__name__, 'op')
        if any(a[0] in ('addr', 'extinst') for a in t):
            return t
        return frozenset(a for a in t if a in NUMBERS) or ANY

    def e_BinOp(self, e):
        return self.binop(e, e.op, self.expr(e.left), self.expr(e.right))

    def binop(self, node, op, lt, rt):
        out = BOT
        names = DUNDER.get(type(op), (None, None))
        for t, name in ((lt, names[0]), (rt, names[1])):
            for a in t:
                if a[0] == 'inst' and name is not None:
                    m = a[1].find_method(name)
                    if m is not None:
                        self.self_tags(m, t)
                        self.record(node, m, 1, name)
                        out = join(out, self.t.ret_type(m))
        if not lt or not rt:
            return out
        tg = frozenset(a for a in lt | rt if a[0] == 'addr')
        if tg:
            return out | tg | INT
        if any(a[0] == 'extinst' for a in lt | rt):
            for a in lt | rt:
                if a[0] == 'extinst':
                    self.record_ext(node, a[1] + '.' + type(op).__name__,
                                    'op')
            return out | frozenset(a for a in lt | rt if a[0] == 'extinst')
        lt, rt = spread(lt), spread(rt)
        num = lambda t: t and all(a in NUMBERS for a in t)
        if num(lt) and num(rt):
            if isinstance(op, ast.Div):
                return join(out, FLOAT)
            both = lt | rt
            if ('num',) in both:
                return join(out, NUM)
            if ('float',) in both:
                return join(out, FLOAT)
            if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and \
                    both == BOOL:
                return BOOL
            return join(out, INT)
        seqs = frozenset(a for a in lt | rt
                         if a[0] in ('list', 'str', 'set', 'tuple',
                                     'tupleof'))
        if seqs and isinstance(op, (ast.Add, ast.Mult, ast.BitOr, ast.BitAnd,
                                    ast.Sub)):
            return join(out, seqs)
        if isinstance(op, ast.Mod) and ('str',) in lt:
            return STR
        return out or ANY

    def e_Compare(self, e):
        ts = [self.expr(e.left)] + [self.expr(c) for c in e.comparators]
        for op, lt, rt in zip(e.ops, ts, ts[1:]):
            if type(op) in COMPARE:
                self.compare(e, COMPARE[type(op)], lt, rt)
            elif isinstance(op, (ast.In, ast.NotIn)):
                self.special(e, rt, '__contains__', 1)
                self.element(rt, e)
        return BOOL

    def compare(self, node, names, lt, rt, depth=0):
        if depth > 4:
            return
        if not depth and names[0] not in ('__eq__', '__ne__'):
            self.note(self.t.ordered, node, lt | rt)
        for t, name in ((lt, names[0]), (rt, names[1])):
            for a in t:
                if a[0] == 'inst':
                    m = a[1].find_method(name)
                    if m is None and name == '__ne__':
                        m = a[1].find_method('__eq__')
                    if m is not None:
                        self.record(node, m, 1,
                                    'cmp' if not depth else 'cmp-in')
                elif a[0] in ('list', 'tupleof', 'set', 'deque'):
                    self.compare(node, names, a[1], BOT, depth + 1)
                elif a[0] == 'dict':
                    self.compare(node, names, a[2], BOT, depth + 1)
                elif a[0] == 'tuple':
                    for x in a[1]:
                        self.compare(node, names, x, BOT, depth + 1)

    def e_Lambda(self, e):
        f = self.t.fun_of.get(id(e))
        if f is None:
            return ANY
        return frozenset({('fun', f)})

    def comp_scopes(self, gens):
        scope = {}
        self.comp.append(scope)
        for g in gens:
            it = self.expr(g.iter)
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    scope.setdefault(n.id, BOT)
            self.assign(g.target, self.element(it, g.iter), None)
            for c in g.ifs:
                self.expr(c)

    def e_ListComp(self, e):
        self.comp_scopes(e.generators)
        t = self.expr(e.elt)
        self.comp.pop()
        return listof(t)

    def e_SetComp(self, e):
        self.comp_scopes(e.generators)
        t = self.expr(e.elt)
        self.comp.pop()
        return frozenset({('set', t)})

    def e_GeneratorExp(self, e):
        self.comp_scopes(e.generators)
        t = self.expr(e.elt)
        self.comp.pop()
        return iterof(t)

    def e_DictComp(self, e):
        self.comp_scopes(e.generators)
        k, v = self.expr(e.key), self.expr(e.value)
        self.comp.pop()
        return frozenset({('dict', k, v)})

    def e_Yield(self, e):
        t = self.expr(e.value) if e.value is not None else NONE
        if self.f is not None:
            self.t.up(self.t.yields, id(self.f.node), t)
        return ANY

    def e_YieldFrom(self, e):
        t = self.element(self.expr(e.value), e.value)
        if self.f is not None:
            self.t.up(self.t.yields, id(self.f.node), t)
        return ANY

    def e_Slice(self, e):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.expr(x)
        return frozenset({('slice',)})

    def e_Subscript(self, e):
        t = self.expr(e.value)
        self.expr(e.slice)
        out = BOT
        sl = isinstance(e.slice, ast.Slice)
        for a in t:
            if a[0] in ('list', 'tupleof', 'deque', 'str'):
                out = join(out, spread(frozenset({a}) | tags(t)) if sl else
                           (STR if a[0] == 'str' else a[1]))
            elif a[0] == 'dict':
                out = join(out, a[2])
            elif a[0] == 'tuple':
                if sl:
                    out = join(out, frozenset(
                        {('tupleof', join(BOT, *a[1]))}))
                elif isinstance(e.slice, ast.Constant) and isinstance(
                        e.slice.value, int) and -len(a[1]) <= \
                        e.slice.value < len(a[1]):
                    out = join(out, a[1][e.slice.value])
                else:
                    out = join(out, BOT, *a[1])
            elif a[0] == 'inst':
                m = a[1].find_method('__getitem__')
                if m is not None:
                    self.self_tags(m, t)
                    self.record(e, m, 1, '__getitem__')
                    out = join(out, self.t.ret_type(m))
                else:
                    out = join(out, ANY)
            elif a[0] == 'class' and a[1].is_enum:
                out = join(out, frozenset({('inst', a[1])}))
            elif a[0] not in ('none', 'tag', 'addr'):
                out = join(out, ANY)
        return out if sl else self.carry(t, out)

    def e_Attribute(self, e):
        t = self.expr(e.value)
        return join(BOT, *[self.attr(e, a, t) for a in t])

    def attr(self, e, a, t=BOT):
        name = e.attr
        if a[0] in ('tag', 'addr'):
            return BOT
        if a[0] == 'extinst':
            return frozenset({('ext', a[1] + '.' + name)})
        if a[0] == 'inst':
            c = a[1]
            if c.is_enum:
                return (frozenset({('bound', c.find_method(name))})
                        if c.find_method(name) is not None
                        and c.find_method(name).kind != 'property' else ANY)
            if name == '__class__':
                return frozenset({('class', c)})
            m = c.find_method(name)
            if m is not None:
                self.self_tags(m, t)
                if m.kind == 'property':
                    if isinstance(e.ctx, ast.Load):
                        self.record(e, m, 0, 'property')
                    return self.t.ret_type(m)
                if m.kind == 'staticmethod':
                    return frozenset({('fun', m)})
                return frozenset({('bound', m)})
            got = self.t.fields.get((c.qual, name), BOT)
            for b in c.mro()[1:]:
                got = join(got, self.t.fields.get((b.qual, name), BOT))
            for b in c.mro():
                got = join(got, self.t.fields.get((b.qual, name, 'class'),
                                                  BOT))
            got = self.carry(t, got, c, name)
            got = got | self.t.roots.field(c, name, self.f)
            if not got and c.find_attr(name) is not None:
                return ANY
            if not got and c.all_ext_bases():
                slots = c.all_slots()
                if slots is None or name not in slots:
                    return frozenset({('mixin', c, name)})
            return got
        if a[0] == 'class':
            c = a[1]
            m = c.find_method(name)
            if m is not None:
                return frozenset({('bound' if m.kind == 'classmethod'
                                   else 'fun', m)})
            if c.is_enum and c.find_attr(name) is not None:
                return frozenset({('inst', c)})
            for b in c.mro():
                got = self.t.fields.get((b.qual, name, 'class'))
                if got:
                    return got
            return ANY
        if a[0] == 'mod':
            r = self.t.p.resolve_name(a[1], name)
            return self.resolved(r, name) if r is not None else ANY
        if a[0] == 'ext':
            if a[1] == 'math' and name in ('inf', 'nan', 'pi', 'e'):
                return FLOAT
            return frozenset({('ext', a[1] + '.' + name)})
        if a[0] in ('list', 'set', 'dict', 'deque', 'str', 'tuple',
                    'tupleof'):
            # the receiver without what it holds: keeps rounds few
            return frozenset({('meth', name, frozenset({a}))})
        if a[0] == 'none':
            return BOT
        return ANY

    def e_Call(self, e):
        ft = self.expr(e.func)
        args = [self.expr(x) for x in e.args]
        kws = {k.arg: self.expr(k.value) for k in e.keywords}
        out = BOT
        if not ft:
            self.record_ext(e)
            return ANY
        for a in ft:
            out = join(out, self.call_atom(e, a, args, kws))
        return out

    def fits(self, e, f, skip, args, kws, names=()):
        if any(isinstance(x, ast.Starred) for x in getattr(e, 'args', ())) \
                or None in kws:
            return
        msg = misfit(f.node, skip, len(args), set(kws) | set(names))
        if msg is not None:
            self.t.mismatch[(id(e), id(f.node))] = (e, self.f, f, msg)

    def pass_args(self, f, skip, args, kws, e=None):
        pos = f.node.args.posonlyargs + f.node.args.args
        starred = e is not None and any(isinstance(x, ast.Starred)
                                        for x in e.args)
        if starred:
            for p in pos[skip:]:
                self.t.up(self.t.params, (id(f.node), p.arg), ANY)
            return
        for p, t in zip(pos[skip:], args):
            self.t.up(self.t.params, (id(f.node), p.arg), t)
        names = {p.arg for p in all_args(f.node)}
        for k, t in kws.items():
            if k in names:
                self.t.up(self.t.params, (id(f.node), k), t)

    def call_atom(self, e, a, args, kws):
        if a[0] == 'fun':
            self.record(e, a[1], 0)
            self.fits(e, a[1], 0, args, kws)
            self.pass_args(a[1], 0, args, kws, e)
            return self.result(a[1], args)
        if a[0] == 'bound':
            self.record(e, a[1], 1, 'call')
            self.fits(e, a[1], 1, args, kws)
            self.pass_args(a[1], 1, args, kws, e)
            return self.result(a[1], args)
        if a[0] == 'class':
            init = a[1].find_method('__init__')
            if init is not None:
                self.record(e, init, 1)
                self.fits(e, init, 1, args, kws)
                self.pass_args(init, 1, args, kws, e)
            return frozenset({('inst', a[1])})
        if a[0] == 'partial':
            inner, pos, names = a[1], a[2], a[3]
            if inner[0] in ('fun', 'bound'):
                f = inner[1]
                skip = (1 if inner[0] == 'bound' else 0) + pos
                self.record(e, f, skip)
                self.fits(e, f, skip, args, kws, names)
                self.pass_args(f, skip, args, kws, e)
                return self.result(f, args)
            return ANY
        if a[0] == 'meth':
            return self.method(e, a[1], a[2], args, kws)
        if a[0] == 'mixin':
            return self.mixin(e, a[1], a[2], args)
        if a[0] == 'inst':
            m = a[1].find_method('__call__')
            if m is not None:
                self.record(e, m, 1)
                self.pass_args(m, 1, args, kws, e)
                return self.t.ret_type(m)
            return ANY
        if a[0] == 'ext':
            self.record_ext(e, a[1])
            return self.external(e, a[1], args, kws)
        if a[0] in ('none', 'tag', 'addr'):
            return BOT
        self.record_ext(e)
        return ANY

    def result(self, f, args):
        t = self.t.ret_type(f)
        if t == BOT and not isinstance(f.node, ast.Lambda):
            ann = self.t.annotation(f.module, f.node.returns)
            if ann == ANY:
                return ANY
        return t

    def mixin(self, e, c, name, args):
        uses = MIXINS.get(name)
        recv = self.t.type_of(e.func.value) if isinstance(
            e.func, ast.Attribute) else BOT
        if uses is None:
            self.record_ext(e)
            return ANY
        for u in uses:
            m = c.find_method(u)
            if m is not None:
                self.self_tags(m, recv)
                self.record(e, m, None, 'mixin')
        if name in ('append', 'insert') and args:
            m = c.find_method('insert')
            if m is not None:
                ps = all_args(m.node)
                if len(ps) > 2:
                    self.t.up(self.t.params, (id(m.node), ps[2].arg),
                              args[-1])
        if name == 'pop':
            m = c.find_method('__getitem__')
            return self.t.ret_type(m) if m is not None else ANY
        if name in ('index', 'count'):
            return INT
        return NONE

    def method(self, e, name, recv, args, kws):
        self.record_ext(e, 'method.' + name)
        node = e.func.value if isinstance(e.func, ast.Attribute) else None
        el = self.element(recv, None)
        a = next(iter(recv))
        if node is not None:
            whole = self.t.type_of(node)
            el = self.carry(whole, el)
            if name == 'copy':
                return spread(recv | tags(whole))
        if name in ('append', 'appendleft', 'add') and args:
            if node is not None:
                self.grow(node, args[0])
            return NONE
        if name == 'insert' and len(args) > 1:
            if node is not None:
                self.grow(node, args[1])
            return NONE
        if name in ('extend', 'extendleft', 'update') and args:
            if node is not None:
                self.grow(node, self.element(args[0], None))
            return NONE
        if name in ('sort', 'reverse', 'clear', 'remove', 'rotate',
                    'discard'):
            if name == 'sort':
                self.sort_calls(e, el, kws)
            if name == 'remove':
                self.compare(e, COMPARE[ast.Eq], el, args[0] if args else BOT)
            return NONE
        if name in ('pop', 'popleft'):
            return a[2] if a[0] == 'dict' else el
        if name in ('copy',):
            return recv
        if name in ('index', 'count'):
            self.compare(e, COMPARE[ast.Eq], el, args[0] if args else BOT)
            return INT
        if a[0] == 'dict':
            if name in ('get', 'setdefault'):
                if name == 'setdefault' and len(args) > 1 and node is not None:
                    self.grow(node, args[1], args[0])
                return join(a[2], args[1] if len(args) > 1 else NONE)
            if name == 'values':
                return iterof(a[2])
            if name == 'keys':
                return iterof(a[1])
            if name == 'items':
                return iterof(frozenset({('tuple', (a[1], a[2]))}))
        if a[0] == 'set' and name in ('union', 'intersection', 'difference'):
            return recv
        if a[0] == 'str':
            return STR
        return ANY

    def sort_calls(self, e, el, kws):
        if 'key' in kws:
            for a in kws['key']:
                t = self.call_atom(e, a, [el], {})
                self.compare(e, COMPARE[ast.Lt], t, BOT)
        else:
            self.compare(e, COMPARE[ast.Lt], el, BOT)

    def external(self, e, name, args, kws):
        last = name.split('.')[-1]
        el = [self.element(t, None) for t in args]
        if name.startswith('builtins.'):
            if last in ('len',):
                if args:
                    self.special(e, args[0], '__len__', 0)
                return INT
            if last in ('range',):
                return iterof(INT)
            if last == 'enumerate' and args:
                return iterof(frozenset({('tuple', (
                    INT, self.element(args[0], e.args[0])))}))
            if last in ('list', 'sorted', 'reversed', 'iter', 'set', 'tuple',
                        'frozenset', 'filter'):
                src = args[-1] if last == 'filter' and args else (
                    args[0] if args else BOT)
                node = e.args[-1 if last == 'filter' else 0] if e.args \
                    else None
                if last == 'reversed':
                    if any(a[0] == 'inst' and a[1].find_method(
                            '__reversed__') for a in src):
                        src = frozenset(src)
                        r = self.special(e, src, '__reversed__', 0)
                        x = self.element(r, None)
                    else:
                        x = self.element(src, None)
                        for a in src:
                            if a[0] == 'inst':
                                for u in ('__len__', '__getitem__'):
                                    m = a[1].find_method(u)
                                    if m is not None:
                                        self.record(e, m, None, 'reversed')
                else:
                    x = self.element(src, node)
                if last == 'sorted':
                    self.sort_calls(e, x, kws)
                if last == 'filter' and len(args) > 1:
                    for a in args[0]:
                        self.call_atom(e, a, [x], {})
                if last in ('list', 'sorted'):
                    return listof(x)
                if last in ('set', 'frozenset'):
                    return frozenset({('set', x)})
                if last == 'tuple':
                    return frozenset({('tupleof', x)})
                return iterof(x)
            if last == 'map' and len(args) >= 2:
                x = [self.element(t, n) for t, n in zip(args[1:],
                                                        e.args[1:])]
                out = BOT
                for a in args[0]:
                    out = join(out, self.call_atom(e, a, x, {}))
                return iterof(out)
            if last == 'zip':
                return iterof(frozenset({('tuple', tuple(
                    self.element(t, n) for t, n in zip(args, e.args)))}))
            if last == 'next' and args:
                out = self.element(args[0], None)
                return join(out, args[1]) if len(args) > 1 else out
            if last in ('min', 'max'):
                x = el[0] if len(args) == 1 else join(BOT, *args)
                if len(args) == 1:
                    self.element(args[0], e.args[0])
                self.sort_calls(e, x, kws)
                return x
            if last == 'sum':
                return self.element(args[0], e.args[0]) if args else NUM
            if last in ('abs', 'round'):
                return args[0] if args else NUM
            if last in ('float',):
                return FLOAT
            if last == 'id' or last == 'hash' and not (args and stable(
                    self.t, args[0])):
                return frozenset({('addr',)})
            if last in ('int', 'hash', 'ord'):
                return INT | frozenset(a for t in args for a in t
                                       if a[0] == 'addr')
            if last in ('bool', 'isinstance', 'hasattr', 'callable', 'any',
                        'all', 'issubclass'):
                if last in ('any', 'all') and args:
                    self.element(args[0], e.args[0])
                return BOOL
            if last in ('str', 'repr'):
                if args:
                    self.special(e, args[0], '__repr__', 0)
                    for a in args[0]:
                        if a[0] == 'addr' or a[0] == 'extinst' and a[1] == (
                                'builtins.object') or a[0] == 'inst' and not (
                                    a[1].is_enum or a[1].all_ext_bases()
                                    or any(a[1].find_method(n) is not None
                                           or a[1].find_attr(n) is not None
                                           for n in ('__repr__', '__str__'))):
                            return STR | frozenset({('addr',)})
                return STR
            if last == 'object':
                return frozenset({('extinst', 'builtins.object')})
            if last == 'dict':
                return frozenset({('dict', ANY, ANY)})
            if last == 'type' and args:
                return frozenset(('class', a[1]) if a[0] == 'inst' else
                                 ('any',) for a in args[0]) or ANY
            return ANY
        if name == 'functools.partial' and args:
            out = BOT
            for a in args[0]:
                if a[0] in ('fun', 'bound'):
                    self.pass_args(a[1], 1 if a[0] == 'bound' else 0,
                                   args[1:], kws)
                    out = join(out, frozenset({(
                        'partial', a, len(args) - 1,
                        tuple(sorted(k for k in kws if k)))}))
                else:
                    out = join(out, ANY)
            return out
        if name == 'collections.deque':
            return frozenset({('deque', el[0] if el else BOT)})
        if name == 'collections.defaultdict':
            v = BOT
            for a in (args[0] if args else BOT):
                v = join(v, self.call_atom(e, a, [], {}))
            return frozenset({('dict', BOT, v)})
        if name in ('math.floor', 'math.ceil', 'math.trunc'):
            return INT
        if name.startswith('math.'):
            return BOOL if last.startswith('is') else FLOAT
        if name == 'bisect.bisect_left' or last.startswith('bisect'):
            return INT
        if name == 'itertools.groupby' and args:
            self.compare(e, COMPARE[ast.Eq], el[0], el[0])
            return iterof(frozenset({('tuple', (
                self.element(args[0], e.args[0]), iterof(el[0])))}))
        if name == 'itertools.chain' and args:
            return iterof(join(*el))
        if name in ('itertools.count', 'itertools.cycle'):
            return iterof(INT if last == 'count' else (el[0] if el
                                                       else ANY))
        if name == 'decimal.Decimal':
            return frozenset({('extinst', 'decimal.Decimal')})
        if name.startswith('decimal.Decimal.'):
            return frozenset({('extinst', 'decimal.Decimal')})
        if name in ('copy.copy', 'copy.deepcopy') and args:
            return (spread(args[0]) if last == 'copy'
                    else frozenset(a for a in args[0] if a[0] != 'tag'))
        return ANY


def stable(types, t, depth=0):
    """The hash of such a value is the same in every process; None when not
    known."""
    verdict = True
    for a in t:
        if a in NUMBERS or a[0] == 'none':
            continue
        if a[0] == 'addr' or a[0] in ('str', 'bytes', 'class', 'fun',
                                      'bound', 'mod'):
            return False
        if a[0] in ('tuple', 'tupleof') and depth < 4:
            for x in parts(a):
                v = stable(types, x, depth + 1)
                if v is False:
                    return False
                if v is None:
                    verdict = None
            continue
        if a[0] == 'extinst':
            if a[1] == 'decimal.Decimal':
                continue
            if a[1] == 'builtins.object':
                return False
        if a[0] == 'inst':
            bases = {b.split('.')[-1] for b in a[1].all_ext_bases()}
            if bases & {'IntEnum', 'IntFlag', 'int', 'float'}:
                continue
            if a[1].is_enum:
                return False
            m = a[1].find_method('__hash__')
            if m is not None:
                if any(x[0] == 'addr' for x in types.ret_type(m)) or any(
                        x[0] == 'addr' for x in types.rets.get(
                            id(m.node), ())):
                    return False
                continue
            if a[1].find_attr('__hash__') is None and not bases and \
                    a[1].find_method('__eq__') is None:
                return False
        verdict = None
    return verdict


def misfit(node, skip, npos, kws):
    """Why a call with ``npos`` positional arguments and the keywords cannot
    be bound to the parameters of ``node``."""
    a = node.args
    pos = a.posonlyargs + a.args
    names = [x.arg for x in pos]
    if npos + skip > len(pos) and a.vararg is None:
        return ('%d positional arguments for %d parameters'
                % (npos, len(pos) - skip))
    given = set(names[:npos + skip])
    only = {x.arg for x in a.posonlyargs}
    allowed = {x.arg for x in a.args + a.kwonlyargs}
    for k in sorted(kws):
        if k in only or (k not in allowed and a.kwarg is None):
            return 'no parameter is called %s' % k
        if k in given:
            return 'parameter %s is given twice' % k
    required = names[:len(names) - len(a.defaults)]
    for r in required:
        if r not in given and r not in kws:
            return 'parameter %s is not given' % r
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in kws:
            return 'parameter %s is not given' % x.arg
    return None


def grown_type(cur, t, key):
    out = BOT
    for a in cur:
        if a[0] in ('list', 'set', 'deque'):
            out = join(out, frozenset({(a[0], join(a[1], t))}))
        elif a[0] == 'dict':
            out = join(out, frozenset({('dict', join(a[1], key or BOT),
                                        join(a[2], t))}))
    return out


def _as_load(target):
    t = ast.parse(ast.unparse(target), mode='eval').body
    for n in ast.walk(t):
        ast.copy_location(n, target)
    return t


MIXINS = {
    'append': ('insert', '__len__'), 'extend': ('insert', '__len__'),
    'clear': ('__getitem__', '__delitem__'), 'pop': ('__getitem__',
                                                     '__delitem__'),
    'remove': ('__delitem__', '__getitem__'), 'reverse': (
        '__len__', '__getitem__', '__setitem__'),
    'index': ('__getitem__', '__len__'), 'count': ('__getitem__',),
}
