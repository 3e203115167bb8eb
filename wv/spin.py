"""Ways around a loop: what one turn does to everything its tests read.

A way is executed on terms over the values at the head of the loop; it is
stuck when every test passed on the way would come out the same again
because nothing it reads has changed (or has only moved away from the
limit).  Calls and stores count with all they may reach.
"""
import ast

from .types import NUMBERS, all_args

ALL = ('all',)
PURE_EXT = {'len', 'abs', 'min', 'max', 'isinstance', 'int', 'float', 'bool',
            'id', 'type', 'tuple', 'str', 'range', 'round', 'sum', 'any',
            'all', 'sorted', 'list', 'enumerate', 'zip', 'reversed', 'set',
            'hash', 'divmod', 'pow', 'repr', 'dict', 'frozenset'}
CHANGING = {'append', 'appendleft', 'add', 'insert', 'extend', 'extendleft',
            'pop', 'popleft', 'popitem', 'remove', 'clear', 'update',
            'discard', 'sort', 'reverse', 'setdefault', 'rotate'}


class TooMany(Exception):
    pass


def insts(t):
    """Classes of the elements of containers."""
    out = set()
    for a in t:
        if a[0] in ('list', 'set', 'deque', 'tupleof', 'iter', 'gen'):
            out |= {kind(b) for b in a[1] if b[0] not in ('none', 'tag')}
        elif a[0] == 'dict':
            out |= {('dict',)}
        elif a[0] in ('any', 'inst'):
            out.add(('any',))
    return out


def owners(t):
    """Classes an attribute may belong to; empty for any."""
    out = set()
    for a in t:
        if a[0] in ('inst', 'class') and len(a) > 1 and hasattr(a[1], 'mro'):
            out |= {k.qual for k in a[1].mro()}
        elif a[0] not in ('none', 'tag'):
            return frozenset()
    return frozenset(out)


def kind(a):
    if a in NUMBERS:
        return ('number',)
    if a[0] == 'inst':
        return ('inst', a[1])
    if a[0] == 'none':
        return ('none',)
    return (a[0],)


class Effects:
    """Fields and containers written and read by functions."""

    def __init__(self, types):
        self.t = types
        self.loose = {}
        self.by_node = {}
        for c in types.calls.values():
            self.by_node.setdefault(id(c.node), []).append(c)
        self.direct = {f: self.own(f) for f in types.order}
        self.passed = {f: self.given(f) for f in types.order}
        self.total = {}
        g = types.graph()
        for f in types.order:
            w, r, seen, stack = set(), set(), set(), [f]
            while stack:
                h = stack.pop()
                if h in seen:
                    continue
                seen.add(h)
                dw, dr = self.direct.get(h, (set(), set()))
                pw, pr = self.passed.get(h, (set(), set()))
                w |= dw | pw
                r |= dr | pr
                stack.extend(g.get(h, ()))
            self.total[f] = (w, r)

    def typ(self, e):
        return self.t.node_types.get(id(e), frozenset())

    def own(self, f):
        """What the function itself does; what it does to elements of
        parameters of unknown elements is left to its calls."""
        from checks.c18 import own_nodes
        w, r = set(), set()
        names = [a.arg for a in all_args(f.node)]
        stored = {n.id for n in own_nodes(f) if isinstance(n, ast.Name)
                  and not isinstance(n.ctx, ast.Load)}
        self.loose[f] = (set(), set())
        for n in own_nodes(f):
            a, b = self.node(n)
            base = n.value if isinstance(n, ast.Subscript) else (
                n.func.value if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) else None)
            if isinstance(base, ast.Name) and base.id in names and \
                    base.id not in stored:
                for own, loose in ((a, self.loose[f][0]),
                                   (b, self.loose[f][1])):
                    k = ('items', frozenset(insts(self.typ(base))))
                    if ('any',) in k[1] and k in own:
                        own.discard(k)
                        loose.add(names.index(base.id))
            w |= a
            r |= b
        return w, r

    def handed(self, call):
        """What calls do to the elements of what they are given."""
        w, r = set(), set()
        n = call.node
        for g, implicit in call.targets:
            for loose, out in zip(self.loose.get(g, ((), ())), (w, r)):
                for i in loose:
                    k = ('items', frozenset({('any',)}))
                    j = i - implicit
                    if isinstance(n, ast.Call) and call.via == 'call' and \
                            not any(isinstance(x, ast.Starred)
                                    for x in n.args):
                        if 0 <= j < len(n.args):
                            k = ('items', frozenset(insts(self.typ(
                                n.args[j]))))
                        else:
                            name = all_args(g.node)[i].arg
                            for x in n.keywords:
                                if x.arg == name:
                                    k = ('items', frozenset(insts(self.typ(
                                        x.value))))
                    out.add(k)
        return w, r

    def given(self, f):
        from checks.c18 import own_nodes
        w, r = set(), set()
        for n in own_nodes(f):
            for c in self.by_node.get(id(n), ()):
                a, b = self.handed(c)
                w |= a
                r |= b
        return w, r

    def node(self, n):
        """(written, read) by the node itself, calls it makes left out
        unless they are external."""
        w, r = set(), set()
        if isinstance(n, ast.Attribute):
            (r if isinstance(n.ctx, ast.Load) else w).add(
                ('attr', n.attr, owners(self.typ(n.value))))
        elif isinstance(n, ast.Subscript):
            t = self.typ(n.value)
            k = ('items', frozenset(insts(t)))
            if t and all(a[0] in ('inst', 'tag') and (
                    a[0] == 'tag' or a[1].find_method({
                        ast.Load: '__getitem__', ast.Store: '__setitem__',
                        ast.Del: '__delitem__'}[type(n.ctx)]))
                    for a in t):
                # what the method does counts
                k = ('attr', '[]', frozenset({'[]'}))
            (r if isinstance(n.ctx, ast.Load) else w).add(k)
        elif isinstance(n, (ast.For, ast.comprehension)):
            r.add(('items', frozenset(insts(self.typ(n.iter)))))
            if any(a[0] in ('iter', 'gen') for a in self.typ(n.iter)):
                w.add(('items', frozenset(insts(self.typ(n.iter)))))
        elif isinstance(n, ast.Compare):
            for e in [n.left] + n.comparators:
                for a in self.typ(e):
                    if a[0] in ('list', 'set', 'dict', 'deque'):
                        r.add(('items', frozenset(insts(frozenset({a})))))
        elif isinstance(n, ast.AugAssign):
            if isinstance(n.target, ast.Attribute):
                r.add(('attr', n.target.attr,
                       owners(self.typ(n.target.value))))
            for a in self.typ(n.target):
                if a[0] in ('list', 'set', 'dict', 'deque'):
                    w.add(('items', frozenset(insts(frozenset({a})))))
        elif isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            w.add(ALL)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute):
                t = self.typ(n.func.value)
                k = ('items', frozenset(insts(t)))
                if n.func.attr in CHANGING and not any(
                        a[0] == 'inst' and a[1].find_method(n.func.attr)
                        for a in t):
                    w.add(k)
                r.add(k)
            for c in self.by_node.get(id(n), ()):
                if c.unknown:
                    w.add(ALL)
                    r.add(ALL)
                for e in c.ext:
                    last = e.split('.')[-1]
                    if e.startswith('builtins.') and last in PURE_EXT or \
                            e.startswith(('math.', 'method.', 'decimal.',
                                          'struct.', 'ctypes.', 'bisect.bi',
                                          'operator.', 'itertools.',
                                          'functools.', 'copy.')):
                        for x in n.args:
                            t = self.typ(x)
                            if e in ('builtins.len', 'builtins.isinstance',
                                     'builtins.id', 'builtins.type'):
                                # the method called for it counts
                                t = frozenset(a for a in t
                                              if a[0] != 'inst')
                            k = insts(t)
                            if k:
                                r.add(('items', frozenset(k)))
                    elif e.startswith('builtins.') and (
                            'Error' in last or last == 'StopIteration'):
                        pass
                    elif last in ('next', 'insort', 'heappop', 'heappush',
                                  'insort_left', 'insort_right'):
                        k = insts(self.typ(n.args[0])) if n.args else set()
                        w.add(('items', frozenset(k)))
                    else:
                        w.add(ALL)
                        r.add(ALL)
            if id(n) not in {i for i in self.by_node}:
                w.add(ALL)
                r.add(ALL)
        return w, r

    def expr(self, e):
        """(written, read) by evaluating an expression, calls included."""
        w, r = set(), set()
        stack = [e]
        while stack:
            n = stack.pop()
            a, b = self.node(n)
            w |= a
            r |= b
            for c in self.by_node.get(id(n), ()):
                for f, _ in c.targets:
                    a, b = self.total.get(f, ({ALL}, {ALL}))
                    if f.name == '__init__':
                        # a new object: its own fields are not read before
                        a = {x for x in a if x[0] != 'attr'}
                    w |= a
                    r |= b
                a, b = self.handed(c)
                w |= a
                r |= b
            if isinstance(n, ast.Lambda):
                f = self.t.fun_of.get(id(n))
                if f is not None:
                    w |= self.total[f][0]
                    r |= self.total[f][1]
                continue
            stack.extend(ast.iter_child_nodes(n))
        return w, r


def clash(w, r):
    """May something written be something read?"""
    if not w or not r:
        return False
    if ALL in w or ALL in r:
        return True
    for a in w:
        for b in r:
            if a[0] != b[0]:
                continue
            if a[0] == 'attr':
                if a[1] == b[1] and (not a[2] or not b[2] or a[2] & b[2]):
                    return True
            else:
                x, y = a[1], b[1]
                if not x or not y or ('any',) in x or ('any',) in y or x & y:
                    return True
    return False


# -- terms -----------------------------------------------------------------
def sym(n):
    return ('sym', n)


def syms(t):
    if t[0] == 'sym':
        return {t[1]}
    out = set()
    for x in t[1:]:
        if isinstance(x, tuple):
            out |= syms(x) if x and isinstance(x[0], str) else set().union(
                *[syms(y) for y in x]) if x else set()
    return out


def add(t, k):
    if t[0] == 'const' and isinstance(t[1], (int, float)) and not isinstance(
            t[1], bool):
        return ('const', t[1] + k)
    if t[0] == 'plus':
        t, k = t[1], t[2] + k
    return t if k == 0 else ('plus', t, k)


def subst(t, s):
    if t[0] == 'sym':
        return s.get(t[1], t)
    if t[0] in ('const', 'new'):
        return t
    if t[0] == 'plus':
        return add(subst(t[1], s), t[2])
    return (t[0], t[1]) + tuple(subst(x, s) for x in t[2:])


def fold(t):
    """A test on constants."""
    if t[0] == 'const':
        return bool(t[1])
    if t[0] == 'app' and len(t) == 4 and t[2][0] == 'const' and \
            t[3][0] == 'const':
        a, b = t[2][1], t[3][1]
        try:
            return {'==': a == b, 'is': a is b, '<': a < b,
                    '<=': a <= b}.get(t[1])
        except TypeError:
            return {'==': a == b, 'is': a is b}.get(t[1])
    return None


class Way:
    __slots__ = ('env', 'conds', 'w', 'end', 'count', 'moving')

    def __init__(self):
        self.env, self.conds, self.w = {}, [], set()
        self.end, self.count = None, 0
        self.moving = False

    def copy(self):
        c = Way()
        c.env, c.conds, c.w = dict(self.env), list(self.conds), set(self.w)
        c.end, c.count, c.moving = self.end, self.count, self.moving
        return c


class Loop:
    def __init__(self, effects, f, node, limit=6000):
        self.e, self.f, self.node, self.limit = effects, f, node, limit
        self.left = limit
        self.steps = 400000
        self.reads = {}        # term -> what evaluating it has read

    # -- evaluation ----------------------------------------------------
    def fresh(self, way):
        way.count += 1
        return ('new', (id(self.node), way.count))

    def value(self, way, e):
        """The term of an expression without effects on names."""
        t = self.term(way, e)
        if t[0] == 'app':
            r = self.e.expr(e)[1]
            if r:
                self.reads[t] = self.reads.get(t, frozenset()) | r
        return t

    def read_by(self, t):
        """What the value of the term depends on, when it was kept in a
        name."""
        out = set(self.reads.get(t, ()))
        for x in t[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str) and \
                    x[0] in ('sym', 'const', 'new', 'plus', 'app'):
                out |= self.read_by(x)
        return out

    def term(self, way, e):
        if isinstance(e, ast.Constant):
            return ('const', e.value)
        if isinstance(e, ast.Name):
            return way.env.get(e.id, sym(e.id))
        if isinstance(e, ast.NamedExpr):
            v = self.value(way, e.value)
            way.env[e.target.id] = v
            return v
        w, r = self.e.expr(e)
        if w:
            way.w |= w
            if not isinstance(e, (ast.Tuple, ast.List)):
                return self.fresh(way)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            a, b = self.value(way, e.left), self.value(way, e.right)
            num = lambda t: t[0] == 'const' and isinstance(
                t[1], (int, float)) and not isinstance(t[1], bool)
            if num(b):
                return add(a, b[1] if isinstance(e.op, ast.Add) else -b[1])
            if num(a) and isinstance(e.op, ast.Add):
                return add(b, a[1])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            a = self.value(way, e.operand)
            if a[0] == 'const' and isinstance(a[1], (int, float)):
                return ('const', -a[1])
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            t, neg = self.compare(way, e)
            if not neg:
                return t
        if isinstance(e, ast.Attribute):
            return ('app', ('.', e.attr, frozenset(r)),
                    self.value(way, e.value))
        parts = [c for c in ast.iter_child_nodes(e)
                 if isinstance(c, (ast.expr, ast.keyword, ast.comprehension))]
        return ('app', (skeleton(e), frozenset(r))) + tuple(
            self.value(way, c.value if isinstance(c, ast.keyword) else c)
            if not isinstance(c, ast.comprehension)
            else self.value(way, c.iter) for c in parts)

    def compare(self, way, e):
        """(term, negated)"""
        a, b = self.value(way, e.left), self.value(way, e.comparators[0])
        w, r = self.e.expr(e)
        op = type(e.ops[0])
        if op in (ast.Eq, ast.NotEq):
            return ('app', '==', a, b), op is ast.NotEq
        if op in (ast.Is, ast.IsNot):
            return ('app', 'is', a, b), op is ast.IsNot
        if op is ast.Lt:
            return ('app', '<', a, b), False
        if op is ast.Gt:
            return ('app', '<', b, a), False
        if op is ast.LtE:
            return ('app', '<=', a, b), False
        if op is ast.GtE:
            return ('app', '<=', b, a), False
        return ('app', 'in', a, b), op is ast.NotIn

    def test(self, way, e, want):
        """Ways on which the test comes out as wanted."""
        self.spend()
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.test(way, e.operand, not want)
        if isinstance(e, ast.BoolOp):
            both = isinstance(e.op, ast.And) is want
            ways = [way]
            if both:
                for v in e.values:
                    ways = [x for y in ways for x in self.test(y, v, want)]
                return ways
            out = []
            rest = [way]
            for v in e.values:
                out += [x for y in rest for x in self.test(y.copy(), v,
                                                           want)]
                rest = [x for y in rest for x in self.test(y, v, not want)]
            return out
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            es = [e.left] + e.comparators
            pieces = [ast.copy_location(ast.Compare(l, [o], [r]), e)
                      for o, l, r in zip(e.ops, es, es[1:])]
            if want:
                ways = [way]
                for p in pieces:
                    ways = [x for y in ways for x in self.atom(y, p, True,
                                                               e)]
                return ways
            out, rest = [], [way]
            for p in pieces:
                out += [x for y in rest for x in self.atom(y.copy(), p,
                                                           False, e)]
                rest = [x for y in rest for x in self.atom(y, p, True, e)]
            return out
        return self.atom(way, e, want, e)

    def atom(self, way, e, want, origin):
        w, r = self.e.expr(origin)
        if isinstance(e, ast.Compare):
            t, neg = self.compare(way, e)
            if w:
                way.w |= w
                t, neg = self.fresh(way), False
            want = want is not neg
        else:
            t = self.value(way, e)
            r = r | self.truth(e)
        r = r | self.read_by(t)
        v = fold(t)
        if v is not None:
            return [way] if v is want else []
        for c, old, _ in way.conds:
            if c == t and old is not want and not clash(way.w, r):
                return []
        way.conds.append((t, want, frozenset(r)))
        return [way]

    def truth(self, e):
        """What the truth of a value reads."""
        out = set()
        t = self.e.typ(e)
        for a in t:
            if a[0] in ('list', 'set', 'dict', 'deque'):
                out.add(('items', frozenset(insts(frozenset({a})))))
            elif a[0] == 'inst' and (a[1].find_method('__len__') or
                                     a[1].find_method('__bool__')):
                out.add(ALL)
        if not t:
            out.add(('items', frozenset()))
        return out

    def spend(self):
        self.steps -= 1
        if self.steps < 0:
            raise TooMany()

    # -- statements ------------------------------------------------------
    def bind(self, way, target, v):
        if isinstance(target, ast.Name):
            way.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            for i, x in enumerate(target.elts):
                self.bind(way, x.value if isinstance(x, ast.Starred) else x,
                          self.fresh(way))
        elif isinstance(target, (ast.Attribute, ast.Subscript)):
            w, _ = self.e.expr(target)
            way.w |= w

    def body(self, ways, sts):
        done = []
        for st in sts:
            live = []
            for w in ways:
                for x in self.stmt(w, st):
                    (live if x.end is None else done).append(x)
            ways = live
            if len(ways) + len(done) > self.limit:
                raise TooMany()
            if not ways:
                break
        return ways + done

    def stmt(self, way, st):
        self.spend()
        k = type(st)
        if k in (ast.Pass, ast.Import, ast.ImportFrom, ast.Global,
                 ast.Nonlocal, ast.ClassDef):
            return [way]
        if k is ast.FunctionDef:
            way.env[st.name] = sym(st.name)
            return [way]
        if k is ast.Expr:
            self.value(way, st.value)
            return [way]
        if k is ast.Assign:
            if len(st.targets) == 1 and isinstance(
                    st.targets[0], ast.Tuple) and isinstance(
                        st.value, ast.Tuple) and len(st.value.elts) == len(
                            st.targets[0].elts) and not any(
                                isinstance(x, ast.Starred) for x in
                                st.value.elts + st.targets[0].elts):
                vs = [self.value(way, x) for x in st.value.elts]
                for x, v in zip(st.targets[0].elts, vs):
                    self.bind(way, x, v)
                return [way]
            if isinstance(st.value, ast.IfExp):
                out = []
                for want, e in ((True, st.value.body),
                                (False, st.value.orelse)):
                    for x in self.test(way.copy(), st.value.test, want):
                        v = self.value(x, e)
                        for t in st.targets:
                            self.bind(x, t, v)
                        out.append(x)
                return out
            v = self.value(way, st.value)
            for t in st.targets:
                self.bind(way, t, v)
            return [way]
        if k is ast.AnnAssign:
            if st.value is not None:
                self.bind(way, st.target, self.value(way, st.value))
            return [way]
        if k is ast.AugAssign:
            w, _ = self.e.expr(st)
            if isinstance(st.target, ast.Name) and not w:
                b = ast.BinOp(ast.Name(st.target.id, ast.Load()), st.op,
                              st.value)
                cur = way.env.get(st.target.id, sym(st.target.id))
                v = self.value(way, st.value)
                if isinstance(st.op, (ast.Add, ast.Sub)) and v[0] == \
                        'const' and isinstance(v[1], (int, float)):
                    t = add(cur, v[1] if isinstance(st.op, ast.Add)
                            else -v[1])
                else:
                    t = ('app', type(st.op).__name__, cur, v)
                way.env[st.target.id] = t
            else:
                way.w |= w
                self.bind(way, st.target, self.fresh(way))
            return [way]
        if k in (ast.Return, ast.Raise, ast.Break):
            way.end = 'out'
            return [way]
        if k is ast.Continue:
            way.end = 'next'
            return [way]
        if k is ast.Delete:
            for t in st.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    way.w |= self.e.expr(t)[0]
            return [way]
        if k is ast.Assert:
            return self.test(way, st.test, True)
        if k is ast.If:
            out = []
            for x in self.test(way.copy(), st.test, True):
                out += self.body([x], st.body)
            for x in self.test(way, st.test, False):
                out += self.body([x], st.orelse)
            return out
        if k is ast.While:
            out = []
            stays = isinstance(st.test, ast.Constant) and st.test.value
            if not stays:
                for x in self.test(way.copy(), st.test, False):
                    out += self.body([x], st.orelse)
            out += self.havoc(way, st)
            return out
        if k is ast.For:
            v = self.value(way, st.iter)
            w, r = self.e.expr(st.iter)
            out = []
            empty = way.copy()
            t = ('app', 'empty', v)
            empty.conds.append((t, True, frozenset(r | self.items(st.iter))))
            out += self.body([empty], st.orelse)
            out += self.havoc(way, st)
            return out
        if k is ast.Try:
            passed = self.passing(way.copy(), st) if st.handlers else []
            out = self.body([way.copy()], st.body)
            res = []
            for x in out:
                x.conds += passed
                res += (self.body([x], st.orelse) if x.end is None
                        else [x])
            for h in st.handlers:
                x = way.copy()
                for s in st.body:
                    self.spoil(x, s)
                x.conds.append((self.fresh(x), True, frozenset()))
                res += self.body([x], h.body)
            if st.finalbody:
                fin = []
                for x in res:
                    end, x.end = x.end, None
                    for y in self.body([x], st.finalbody):
                        y.end = y.end or end
                        fin.append(y)
                res = fin
            return res
        if k is ast.With:
            for i in st.items:
                self.value(way, i.context_expr)
                if i.optional_vars is not None:
                    self.bind(way, i.optional_vars, self.fresh(way))
            return self.body([way], st.body)
        self.spoil(way, st)
        way.w.add(ALL)
        return [way]

    def passing(self, way, st):
        """What it depends on that nothing is raised in a try block."""
        out = []
        for s in st.body:
            for e in ast.iter_child_nodes(s):
                if isinstance(e, ast.expr) and any(isinstance(
                        x, (ast.Call, ast.Subscript)) for x in ast.walk(e)):
                    r = self.e.expr(e)[1]
                    out.append((('app', 'passes', self.value(way, e)), True,
                                frozenset(r)))
            ways = self.stmt(way, s)
            if len(ways) != 1 or ways[0].end is not None:
                out.append((self.fresh(way), True, frozenset()))
                break
            way = ways[0]
        return out

    def items(self, e):
        return {('items', frozenset(insts(self.e.typ(e))))}

    def spoil(self, way, st):
        """Everything the statement may assign or write."""
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                              ast.Del)):
                way.env[n.id] = self.fresh(way)
            if isinstance(n, ast.expr):
                way.w |= self.e.expr(n)[0]
            elif isinstance(n, (ast.AugAssign, ast.For)):
                way.w |= self.e.node(n)[0]

    def havoc(self, way, st):
        """Inner loops that run at least once: they may end in any way."""
        leaves = [n for n in inner(st) if isinstance(n, (ast.Return,))]
        x = way
        self.spoil(x, st)
        x.conds.append((self.fresh(x), True, frozenset()))
        out = [x]
        if leaves:
            y = x.copy()
            y.end = 'out'
            out.append(y)
        return out

    # -- verdict -------------------------------------------------------------
    def ways(self):
        """The ways around: from the head back to the head."""
        n = self.node
        ways = [Way()]
        if not (isinstance(n.test, ast.Constant) and n.test.value):
            ways = self.test(ways[0], n.test, True)
        return [w for w in self.body(ways, n.body) if w.end in (None,
                                                                'next')]


def inner(st):
    stack = list(ast.iter_child_nodes(st))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def skeleton(e):
    """The shape of an expression without the names it reads."""
    t = type(e)
    if t is ast.Call:
        kw = ','.join(k.arg or '**' for k in e.keywords)
        return 'call(%d;%s)' % (len(e.args), kw)
    if t is ast.BinOp:
        return type(e.op).__name__
    if t is ast.UnaryOp:
        return type(e.op).__name__
    if t is ast.BoolOp:
        return type(e.op).__name__
    if t is ast.Compare:
        return 'cmp' + ','.join(type(o).__name__ for o in e.ops)
    if t in (ast.Subscript, ast.Tuple, ast.List, ast.IfExp, ast.Slice):
        return t.__name__
    return t.__name__ + ast.dump(e)


def same_again(c, want, s):
    """The test comes out the same on the next turn: 'fixed' when nothing it
    reads changed, 'away' when it has only moved away from the limit."""
    d = subst(c, s)
    if d == c:
        return 'fixed'
    v = fold(d)
    if v is not None:
        return ('fixed' if v is want and fold(subst(d, s)) is want
                else None)
    if c[0] == 'app' and c[1] in ('<', '<='):
        l, r = c[2], c[3]
        dl, dr = d[2], d[3]

        def shift(a, b):
            if a == b:
                return 0
            pa, ka = (a[1], a[2]) if a[0] == 'plus' else (a, 0)
            pb, kb = (b[1], b[2]) if b[0] == 'plus' else (b, 0)
            return kb - ka if pa == pb else None
        x, y = shift(l, dl), shift(r, dr)
        if x is None or y is None:
            return None
        move = x - y
        if want and move <= 0 or not want and move >= 0:
            return 'away'
    return None


def known(t):
    """The outcome of a test on one and the same term, or on constants."""
    v = fold(t)
    if v is None and t[0] == 'app' and len(t) == 4 and t[2] == t[3]:
        return {'==': True, 'is': True, '<': False, '<=': True}.get(t[1])
    return v


def turn(way):
    """'stuck', 'away' or None."""
    worst = 'stuck'
    if ALL in way.w and not way.conds:
        return None
    later = {}
    for c, want, r in way.conds:
        if has_new(c) or clash(way.w, r):
            return None
        v = same_again(c, want, way.env)
        if v is None:
            # settled after one more turn?
            d = subst(c, way.env)
            if has_new(d) or subst(d, way.env) != d or known(d) is (
                    not want):
                return None
            v = 'fixed'
            if later.setdefault(d, want) is not want:
                return None
        elif later.setdefault(c, want) is not want:
            return None
        if v == 'away':
            worst = 'away'
    return worst


def has_new(t):
    if t[0] == 'new':
        return True
    return any(has_new(x) for x in t[1:] if isinstance(x, tuple) and x
               and isinstance(x[0], str) and x[0] in (
                   'sym', 'const', 'new', 'plus', 'app'))
