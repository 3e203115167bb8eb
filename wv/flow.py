"""Marks on values carried through the whole package.

Every function gets a summary: the marks of its result and what it does
with marks (stores, demands), both possibly in terms of its parameters; calls
put the marks of their arguments into the summaries.  Within a function marks
follow the order of statements.  A ``domain`` says what marks mean.
"""
import ast

from .types import all_args

NONE = frozenset()
CHANGING = {'append', 'appendleft', 'add', 'insert', 'extend', 'extendleft',
            'update', 'setdefault'}


class Summary:
    __slots__ = ('ret', 'effects')

    def __init__(self):
        self.ret = NONE
        self.effects = {}        # (kind, site, payload) -> trace


class Flow:
    def __init__(self, types, dom, rounds=12):
        self.t, self.dom = types, dom
        self.by_node = {}
        for c in types.calls.values():
            self.by_node.setdefault(id(c.node), []).append(c)
        self.sums = {f: Summary() for f in types.order}
        self.fields = {}         # (class, attr) -> marks
        self.globs = {}
        self.free = {}           # (id fn node, name) -> marks
        self.done = {}           # (kind, site, payload) -> trace
        self.steady = False
        for i in range(rounds):
            self.dirty = False
            for f in types.order:
                Body(self, f).run()
            if not self.dirty:
                self.steady = True
                break

    def typ(self, e):
        return self.t.node_types.get(id(e), NONE)

    def put(self, table, key, marks):
        old = table.get(key, NONE)
        new = old | marks
        if new != old:
            table[key] = self.dom.cap(new)
            if table[key] != old:
                self.dirty = True

    def classes(self, e):
        return [a[1] for a in self.typ(e) if a[0] == 'inst']


class Body:
    def __init__(self, flow, f):
        self.flow, self.f, self.dom = flow, f, flow.dom
        self.sum = flow.sums[f]
        self.env = {}
        self.alias = {}
        self.depth = 0

    def run(self):
        node = self.f.node
        for i, a in enumerate(all_args(node)):
            self.env[a.arg] = self.dom.param(i, a, self.f)
        for a in (node.args.vararg, node.args.kwarg):
            if a is not None:
                self.env[a.arg] = NONE
        if isinstance(node, ast.Lambda):
            self.returned(self.expr(node.body))
            return
        self.block(node.body)

    # -- outcomes ------------------------------------------------------
    def returned(self, marks):
        new = self.dom.cap(self.sum.ret | marks)
        if new != self.sum.ret:
            self.sum.ret = new
            self.flow.dirty = True

    def effect(self, kind, site, payload, trace=()):
        """Something done with marks; what depends on parameters waits for
        the callers."""
        if not any(payload) and not self.dom.keep_empty(kind):
            return
        key = (kind, site, payload)
        if any(self.dom.open(m) for p in payload for m in p):
            if len(self.sum.effects) < 4000 and key not in self.sum.effects:
                self.sum.effects[key] = trace
                self.flow.dirty = True
            closed = tuple(frozenset(m for m in p if not self.dom.open(m))
                           for p in payload)
            if not self.dom.partial(kind):
                return
            payload = closed
            if not any(payload):
                return
            key = (kind, site, payload)
        if kind[0] == 'field':
            self.flow.put(self.flow.fields, kind[1:], payload[0])
            return
        if key not in self.flow.done:
            self.flow.done[key] = trace
            self.flow.dirty = True

    def here(self, node):
        return '%s:%d (%s)' % (self.f.module.relpath, getattr(
            node, 'lineno', 0), self.f.short)

    # -- statements ------------------------------------------------------
    def block(self, sts):
        """False when the end is not reached."""
        for st in sts:
            if not self.stmt(st):
                return False
        return True

    def both(self, a, b, live_a, live_b):
        if not live_a:
            return b
        if not live_b:
            return a
        out = dict(a)
        for n, m in b.items():
            out[n] = out[n] | m if n in out else m
        return out

    def stmt(self, st):
        k = type(st)
        if k is ast.Expr:
            self.expr(st.value)
        elif k is ast.Assign:
            self.assign(st)
        elif k is ast.AnnAssign:
            if st.value is not None:
                self.bind(st.target, self.expr(st.value), st.value)
        elif k is ast.AugAssign:
            self.augment(st)
        elif k is ast.Return:
            if st.value is not None:
                self.returned(self.expr(st.value))
            return False
        elif k is ast.Raise:
            if st.exc is not None:
                self.expr(st.exc)
            return False
        elif k in (ast.Break, ast.Continue):
            self.jumps.append(dict(self.env)) if self.depth else None
            return False
        elif k is ast.If:
            self.expr(st.test)
            before = dict(self.env)
            a_live = self.block(st.body)
            a = self.env
            self.env = before
            self.dom.refine(self, st.test, False)
            b_live = self.block(st.orelse)
            if not a_live and not b_live:
                return False
            self.env = self.both(a, self.env, a_live, b_live)
        elif k in (ast.While, ast.For, ast.AsyncFor):
            return self.loop(st)
        elif k is ast.Try:
            before = dict(self.env)
            live = self.block(st.body)
            if live:
                live = self.block(st.orelse)
            after = self.env
            mid = self.both(before, after, True, True)
            for h in st.handlers:
                self.env = dict(mid)
                h_live = self.block(h.body)
                after = self.both(after, self.env, live, h_live) if (
                    live or h_live) else after
                live = live or h_live
            self.env = after
            if st.finalbody:
                return self.block(st.finalbody) and live
            return live
        elif k in (ast.With, ast.AsyncWith):
            for i in st.items:
                m = self.expr(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, m)
            return self.block(st.body)
        elif k is ast.Assert:
            self.expr(st.test)
        elif k is ast.Delete:
            pass
        elif k is ast.FunctionDef:
            self.env[st.name] = NONE
            self.capture(st)
        return True

    def capture(self, node):
        """Names a function inside reads from here."""
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                    n.id in self.env:
                self.flow.put(self.flow.free, (id(node), n.id), frozenset(
                    m for m in self.env[n.id] if not self.dom.open(m)))

    jumps = ()

    def loop(self, st):
        outer, self.jumps = self.jumps, []
        self.depth += 1
        if isinstance(st, ast.While):
            self.expr(st.test)
        else:
            items = self.dom.items(self.expr(st.iter))
        for _ in range(4):
            before = dict(self.env)
            if not isinstance(st, ast.While):
                self.bind(st.target, items, st.iter, element=True)
            live = self.block(st.body)
            now = self.both(before, self.env, True, live)
            for j in self.jumps:
                now = self.both(now, j, True, True)
            self.env = now
            if isinstance(st, ast.While):
                self.expr(st.test)
            if now == before:
                break
        self.jumps = outer
        self.depth -= 1
        self.block(st.orelse)
        return True

    def assign(self, st):
        if len(st.targets) == 1 and isinstance(st.targets[0], ast.Tuple) \
                and isinstance(st.value, (ast.Tuple, ast.List)) and len(
                    st.targets[0].elts) == len(st.value.elts) and not any(
                        isinstance(x, ast.Starred)
                        for x in st.targets[0].elts + st.value.elts):
            ms = [self.expr(x) for x in st.value.elts]
            for x, m, v in zip(st.targets[0].elts, ms, st.value.elts):
                self.bind(x, m, v)
            return
        m = self.expr(st.value)
        for t in st.targets:
            self.bind(t, m, st.value)

    def bind(self, target, marks, value=None, element=False):
        if isinstance(target, ast.Name):
            self.env[target.id] = marks
            self.alias.pop(target.id, None)
            if isinstance(value, ast.Attribute) and not element:
                self.alias[target.id] = value
        elif isinstance(target, ast.Starred):
            self.bind(target.value, marks)
        elif isinstance(target, (ast.Tuple, ast.List)):
            parts = self.dom.parts(marks, len(target.elts))
            for x, m in zip(target.elts, parts):
                self.bind(x, m)
        elif isinstance(target, ast.Attribute):
            base = self.expr(target.value)
            called = False
            for c in self.flow.by_node.get(id(target), ()):
                for g, implicit in c.targets:
                    if g.kind == 'setter':
                        called = True
                        self.enter(g, [base, marks], target)
            if not called:
                self.dom.store(self, target, marks, value)
        elif isinstance(target, ast.Subscript):
            self.expr(target.slice)
            self.into(target.value, marks, target)

    def into(self, container, marks, site):
        """Marks are put into a container."""
        if isinstance(container, ast.Name):
            n = container.id
            self.env[n] = self.env.get(n, NONE) | marks
            for i, a in enumerate(all_args(self.f.node)):
                if a.arg == n:
                    self.effect(('into', i), None, (marks,))
            if n in self.alias:
                self.dom.store(self, self.alias[n], marks, None, True)
        elif isinstance(container, ast.Attribute):
            self.expr(container)
            self.dom.store(self, container, marks, None, True)
        elif isinstance(container, (ast.Subscript, ast.Starred)):
            self.into(container.value, marks, site)
        else:
            self.expr(container)

    def augment(self, st):
        m = self.expr(st.value)
        t = st.target
        if any(a[0] in ('list', 'set', 'dict', 'deque')
               for a in self.flow.typ(t)):
            self.into(t, m, st)
            return
        old = self.expr(ast.copy_location(ast.Name(t.id, ast.Load()), t)
                        if isinstance(t, ast.Name) else self.loaded(t))
        self.bind(t, self.dom.binop(self, st, st.op, old, m))

    def loaded(self, t):
        return t

    # -- expressions -----------------------------------------------------
    def expr(self, e):
        fn = getattr(self, 'e_' + type(e).__name__, None)
        if fn is not None:
            return fn(e)
        out = NONE
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.expr(c)
        return out

    def e_Constant(self, e):
        return self.dom.const(e.value)

    def e_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        g = self.f
        got = self.flow.free.get((id(self.f.node), e.id))
        return got if got is not None else self.dom.name(self, e)

    def e_Lambda(self, e):
        self.capture(e)
        return NONE

    def e_NamedExpr(self, e):
        m = self.expr(e.value)
        self.bind(e.target, m, e.value)
        return m

    def e_IfExp(self, e):
        self.expr(e.test)
        return self.expr(e.body) | self.expr(e.orelse)

    def e_BoolOp(self, e):
        out = NONE
        for v in e.values:
            out |= self.expr(v)
        return out

    def e_UnaryOp(self, e):
        m = self.expr(e.operand)
        return NONE if isinstance(e.op, ast.Not) else self.dom.unary(
            self, e, m)

    def e_BinOp(self, e):
        l, r = self.expr(e.left), self.expr(e.right)
        got = self.special(e, [[l, r]])
        return self.dom.binop(self, e, e.op, l, r) if got is None else got

    def e_Compare(self, e):
        vs = [self.expr(x) for x in [e.left] + e.comparators]
        self.special(e, [[a, b] for a, b in zip(vs, vs[1:])])
        self.dom.compare(self, e, vs)
        return NONE

    def e_Tuple(self, e):
        return self.dom.pack(self, e, [self.expr(x) for x in e.elts])

    def e_List(self, e):
        return self.dom.gather(self, e, [self.expr(x) for x in e.elts])

    e_Set = e_List

    def e_Dict(self, e):
        return self.dom.gather(self, e, [self.expr(x) for x in e.values
                                         if x is not None])

    def comp(self, e, result):
        before = dict(self.env)
        for g in e.generators:
            self.bind(g.target, self.dom.items(self.expr(g.iter)), g.iter,
                      element=True)
            for c in g.ifs:
                self.expr(c)
        out = self.dom.gather(self, e, [self.expr(x) for x in result])
        self.env = before
        return out

    def e_ListComp(self, e):
        return self.comp(e, [e.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e):
        return self.comp(e, [e.value])

    def e_Yield(self, e):
        if e.value is not None:
            self.returned(self.dom.gather(self, e, [self.expr(e.value)]))
        return NONE

    def e_YieldFrom(self, e):
        self.returned(self.expr(e.value))
        return NONE

    def e_Subscript(self, e):
        base, i = self.expr(e.value), self.expr(e.slice)
        got = self.special(e, [[base, i]])
        if got is not None:
            return got
        return (base if isinstance(e.slice, ast.Slice)
                else self.dom.item(base, e.slice))

    def e_Starred(self, e):
        return self.expr(e.value)

    def e_Attribute(self, e):
        base = self.expr(e.value)
        got = self.special(e, [[base]])
        return self.dom.attr(self, e, base) if got is None else got

    def special(self, e, arglists):
        """Functions of the package behind an operator or attribute."""
        out, found = NONE, False
        for c in self.flow.by_node.get(id(e), ()):
            for g, _ in c.targets:
                if g.kind == 'setter':
                    continue
                found = True
                for args in arglists:
                    out |= self.enter(g, args, e)
        return out if found else None

    def enter(self, g, args, e):
        """A call of a function of the package."""
        s = self.flow.sums.get(g)
        if s is None:
            return NONE
        args = list(args)
        n = len(all_args(g.node))
        args += [None] * (n - len(args))
        where = self.here(e)
        for (kind, site, payload), trace in list(s.effects.items()):
            new = tuple(frozenset().union(*[
                self.dom.subst(m, args, g) for m in p]) if p else p
                for p in payload)
            if kind[0] == 'into':
                node = self.arg_node(e, g, kind[1])
                if node is not None and new[0]:
                    self.into(node, new[0], e)
                continue
            self.effect(kind, site, new, (trace + (where,))[-8:])
        return frozenset().union(*[self.dom.subst(m, args, g)
                                   for m in s.ret]) if s.ret else NONE

    def arg_node(self, e, g, i):
        if not isinstance(e, ast.Call):
            return None
        for c in self.flow.by_node.get(id(e), ()):
            for h, implicit in c.targets:
                if h is g and implicit is not None:
                    j = i - implicit
                    if j < 0:
                        return e.func.value if isinstance(
                            e.func, ast.Attribute) else None
                    if j < len(e.args):
                        return e.args[j]
                    name = all_args(g.node)[i].arg
                    for k in e.keywords:
                        if k.arg == name:
                            return k.value
        return None

    def e_Call(self, e):
        recv = NONE
        if isinstance(e.func, ast.Attribute):
            recv = self.expr(e.func.value)
        elif not isinstance(e.func, ast.Name):
            self.expr(e.func)
        args = [self.expr(x) for x in e.args]
        kws = {k.arg: self.expr(k.value) for k in e.keywords}
        starred = any(isinstance(x, ast.Starred) for x in e.args)
        out, known = NONE, False
        for c in self.flow.by_node.get(id(e), ()):
            for g, implicit in c.targets:
                known = True
                if implicit is None:
                    # by way of a collection's own methods
                    self.enter(g, [recv] + args[-1:] * 3, e)
                    out |= recv
                    continue
                names = all_args(g.node)
                full = [recv] * implicit + (
                    [frozenset().union(*args)] * 8 if starred else args)
                full = full[:len(names)]
                full += [None] * (len(names) - len(full))
                for n, m in kws.items():
                    for i, a in enumerate(names):
                        if a.arg == n:
                            full[i] = m
                got = self.enter(g, full, e)
                if g.name == '__init__' and any(
                        a[0] == 'inst' and a[1] is not None
                        and g.cls in a[1].mro() for a in self.flow.typ(e)):
                    cls = next(a[1] for a in self.flow.typ(e)
                               if a[0] == 'inst' and g.cls in a[1].mro())
                    got = self.dom.new(self, e, cls, g, full)
                out |= got
            if c.ext or c.unknown:
                known = True
                out |= self.external(e, c, recv, args, kws)
        if not known:
            out |= self.external(e, None, recv, args, kws)
        return out

    def external(self, e, c, recv, args, kws):
        name = (e.func.attr if isinstance(e.func, ast.Attribute)
                else e.func.id if isinstance(e.func, ast.Name) else '')
        if isinstance(e.func, ast.Attribute) and name in CHANGING and (
                c is not None and any(x.startswith(('builtins.', 'method.',
                                                    'collections.', 'meth'))
                                      for x in c.ext)
                or any(a[0] in ('list', 'set', 'dict', 'deque')
                       for a in self.flow.typ(e.func.value))):
            new = args[-1] if args else NONE
            if name in ('extend', 'extendleft', 'update'):
                new = self.dom.items(new)
            self.into(e.func.value, self.dom.gather(self, e, [new]), e)
            return recv if name == 'setdefault' else NONE
        if name in ('insort', 'insort_left', 'insort_right',
                    'heappush') and len(e.args) > 1:
            self.into(e.args[0], self.dom.gather(self, e, [args[1]]), e)
            return NONE
        return self.dom.external(self, e, name, recv, args, kws)
