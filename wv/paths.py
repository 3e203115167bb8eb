"""Paths through one body, as far as a single question needs them."""
import ast

CAP = 4000


def norm(test):
    """(text, polarity) of a condition."""
    pol = True
    while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        test, pol = test.operand, not pol
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        flip = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In,
                ast.GtE: ast.Lt, ast.LtE: ast.Gt}
        op = type(test.ops[0])
        if op in flip:
            test = ast.Compare(test.left, [flip[op]()], test.comparators)
            pol = not pol
    return ast.unparse(test), pol


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def is_true(test):
    return isinstance(test, ast.Constant) and bool(test.value)


def is_false(test):
    return isinstance(test, ast.Constant) and not test.value


class State:
    """Assigned names of interest, facts, names in doubt, certainty of the
    path."""
    __slots__ = ('got', 'facts', 'sure', 'doubt')

    def __init__(self, got=frozenset(), facts=frozenset(), sure=True,
                 doubt=frozenset()):
        self.got, self.facts, self.sure = got, facts, sure
        self.doubt = doubt - got

    def key(self):
        return (self.got, self.facts, self.sure, self.doubt)

    def doubting(self, names):
        return State(self.got, self.facts, self.sure, self.doubt | names)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, other):
        return self.key() == other.key()

    def bind(self, names):
        facts = frozenset(f for f in self.facts if not (f[2] & names))
        return State(self.got | names, facts, self.sure, self.doubt)

    def drop(self, names):
        facts = frozenset(f for f in self.facts if not (f[2] & names))
        return State(self.got - names, facts, self.sure, self.doubt)

    def assume(self, test, value):
        """None when the state already knows better."""
        s = self
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj is value:
                for t in test.values:
                    s = s.assume(t, value)
                    if s is None:
                        return None
                return s
        text, pol = norm(test)
        value = value if pol else not value
        for f in s.facts:
            if f[0] == text:
                return s if f[1] is value else None
        # 'is None' and plain truth tell about each other
        return State(s.got, s.facts | {(text, value,
                                        frozenset(names_in(test)))}, s.sure,
                     s.doubt)

    def unsure(self):
        return State(self.got, self.facts, False, self.doubt)


class Walk:
    """Runs a body. ``on_use(name node, state)`` sees every load of a local
    name; the result of ``run`` maps 'end', 'return', 'break', ... to states.
    """

    def __init__(self, local_names, on_use=None, enum_members=None,
                 loop_end_sure=False):
        self.local = local_names
        self.on_use = on_use or (lambda n, s: None)
        self.enum_members = enum_members
        self.loop_end_sure = loop_end_sure
        self.overflow = False

    def uses(self, e, states):
        if e is None:
            return states
        for n in walk_scope(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) \
                    and n.id in self.local:
                for s in states:
                    self.on_use(n, s)
        bound = {n.target.id for n in ast.walk(e)
                 if isinstance(n, ast.NamedExpr)}
        if bound:
            states = {s.bind(bound) for s in states}
        return states

    def target(self, t, states):
        names = set()
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Store):
                    names.add(n.id)
                elif n.id in self.local:
                    for s in states:
                        self.on_use(n, s)
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            # a fact about a changed place is no longer known
            text = ast.unparse(t)
            return {State(s.got, frozenset(
                f for f in s.facts if text not in f[0]), s.sure, s.doubt)
                for s in states}
        return {s.bind(names) for s in states}

    def run(self, body, states):
        out = {'end': set(), 'return': set(), 'raise': set(),
               'break': set(), 'continue': set()}
        for st in body:
            if not states:
                break
            if len(states) > CAP:
                self.overflow = True
                states = {State(frozenset.intersection(
                    *[s.got for s in states]), frozenset(), False)}
            r = self.stmt(st, states)
            states = r.pop('end')
            for k, v in r.items():
                out[k] |= v
        out['end'] |= states
        return out

    def stmt(self, st, states):
        k = type(st).__name__
        fn = getattr(self, 'x_' + k, None)
        if fn is not None:
            return fn(st, states)
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return {'end': {s.bind({st.name}) for s in states}}
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            names = {(a.asname or a.name).split('.')[0] for a in st.names}
            return {'end': {s.bind(names) for s in states}}
        if isinstance(st, ast.Assign):
            states = self.uses(st.value, states)
            for t in st.targets:
                states = self.target(t, states)
            return {'end': states}
        if isinstance(st, ast.AnnAssign):
            if st.value is None:
                return {'end': states}
            states = self.uses(st.value, states)
            return {'end': self.target(st.target, states)}
        if isinstance(st, ast.AugAssign):
            states = self.uses(st.value, states)
            if isinstance(st.target, ast.Name):
                if st.target.id in self.local:
                    n = ast.copy_location(ast.Name(st.target.id, ast.Load()),
                                          st.target)
                    for s in states:
                        self.on_use(n, s)
            return {'end': self.target(st.target, states)}
        if isinstance(st, ast.Delete):
            gone = {t.id for t in st.targets if isinstance(t, ast.Name)}
            for t in st.targets:
                if not isinstance(t, ast.Name):
                    states = self.uses(t, states)
            return {'end': {s.drop(gone) for s in states}}
        for e in ast.iter_child_nodes(st):
            if isinstance(e, ast.expr):
                states = self.uses(e, states)
        return {'end': states}

    def x_Return(self, st, states):
        states = self.uses(st.value, states)
        return {'end': set(), 'return': states}

    def x_Raise(self, st, states):
        states = self.uses(st.exc, states)
        states = self.uses(st.cause, states)
        return {'end': set(), 'raise': states}

    def x_Break(self, st, states):
        return {'end': set(), 'break': states}

    def x_Continue(self, st, states):
        return {'end': set(), 'continue': states}

    def x_Assert(self, st, states):
        states = self.uses(st.test, states)
        got = {s.assume(st.test, True) for s in states} - {None}
        return {'end': got}

    def merge(self, *rs):
        out = {}
        for r in rs:
            for k, v in r.items():
                out.setdefault(k, set()).update(v)
        out.setdefault('end', set())
        return out

    def x_If(self, st, states):
        states = self.uses(st.test, states)
        yes = {s.assume(st.test, True) for s in states} - {None} \
            if not is_false(st.test) else set()
        no = {s.assume(st.test, False) for s in states} - {None} \
            if not is_true(st.test) else set()
        if not st.orelse and self.chain_covers(st):
            arms = chain_arms(st)
            names = assigned_in(arms)
            no = {s.doubting(names) for s in no}
            if all(a and isinstance(a[-1], (ast.Return, ast.Raise))
                   for a in arms):
                no = {s.unsure() for s in no}
        return self.merge(self.run(st.body, yes), self.run(st.orelse, no))

    def chain_covers(self, st):
        """The last arm of a chain of several arms without a final else: the
        arms may well cover everything."""
        return getattr(st, 'in_chain', False)

    def loop(self, st, states, zero_sure, infinite):
        after = set()
        out = {}
        seen = set()
        entry = states
        for _ in range(6):
            new = entry - seen
            if not new:
                break
            seen |= new
            if isinstance(st, (ast.For, ast.AsyncFor)):
                start = self.target(st.target, new)
            else:
                new = self.uses(st.test, new)
                start = {s.assume(st.test, True) for s in new} - {None} \
                    if not infinite else new
            r = self.run(st.body, start)
            for k in ('return', 'raise'):
                out.setdefault(k, set()).update(r[k])
            after |= r['break']
            entry = r['end'] | r['continue']
            if isinstance(st, ast.While):
                # the body may have changed anything the test reads
                names = names_in(st.test)
                entry = {State(s.got, frozenset(
                    f for f in s.facts if not (f[2] & names)), s.sure,
                    s.doubt) for s in entry}
        done = set()
        if not infinite:
            if isinstance(st, ast.While):
                zero = self.uses(st.test, states)
                zero = {s.assume(st.test, False) for s in zero} - {None}
                done = {s.assume(st.test, False)
                        for s in seen - states} - {None}
            else:
                zero, done = set(states), seen - states
            if not zero_sure:
                names = assigned_in([st.body]) | (
                    {n.id for n in ast.walk(st.target)
                     if isinstance(n, ast.Name)}
                    if isinstance(st, ast.For) else set())
                zero = {s.doubting(names) for s in zero}
            done = done | zero
            # a state that left the body at least once
            done |= {s for s in entry}
        r = self.run(st.orelse, done)
        out = self.merge(out, r)
        out['end'] = out['end'] | after
        return out

    def x_For(self, st, states):
        states = self.uses(st.iter, states)
        return self.loop(st, states, self.loop_end_sure, False)

    def x_While(self, st, states):
        return self.loop(st, states, self.loop_end_sure, is_true(st.test))

    def x_With(self, st, states):
        for i in st.items:
            states = self.uses(i.context_expr, states)
            if i.optional_vars is not None:
                states = self.target(i.optional_vars, states)
        return self.run(st.body, states)

    def x_Try(self, st, states):
        r = self.run(st.body, states)
        ends = self.run(st.orelse, r['end'])
        out = {k: set(v) for k, v in ends.items()}
        for k in ('return', 'break', 'continue'):
            out[k] |= r[k]
        # a handler may start anywhere in the body
        names = assigned_in([st.body])
        start = {s.doubting(names) for s in states} | {
            s.doubting(names) for s in r['end']}
        for h in st.handlers:
            b = {s.bind({h.name}) for s in start} if h.name else start
            out = self.merge(out, self.run(h.body, b))
        if not st.handlers:
            out['raise'] = out.get('raise', set()) | r['raise']
        if st.finalbody:
            fin = self.run(st.finalbody, out['end'])
            out = self.merge({k: v for k, v in out.items() if k != 'end'},
                             fin)
        return out

    def x_Match(self, st, states):
        states = self.uses(st.subject, states)
        outs = []
        for c in st.cases:
            names = {n.name for n in ast.walk(c.pattern)
                     if isinstance(n, (ast.MatchAs, ast.MatchStar))
                     and n.name}
            b = {s.bind(names) for s in states}
            if c.guard is not None:
                b = self.uses(c.guard, b)
            outs.append(self.run(c.body, b))
        names = assigned_in([c.body for c in st.cases])
        outs.append({'end': {s.doubting(names).unsure() for s in states}})
        return self.merge(*outs)


def walk_scope(e):
    """Nodes evaluated when the expression is, not those of lambdas."""
    stack = [e]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, ast.Lambda):
            stack.extend(n.args.defaults)
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            own = set()
            for g in n.generators:
                own |= {x.id for x in ast.walk(g.target)
                        if isinstance(x, ast.Name)}
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and x.id not in own and \
                        x is not n:
                    yield x
            continue
        stack.extend(ast.iter_child_nodes(n))


def assigned_in(bodies):
    return frozenset(n.id for b in bodies for st in b for n in ast.walk(st)
                     if isinstance(n, ast.Name)
                     and isinstance(n.ctx, ast.Store))


def chain_arms(last):
    return [last.body] + [a.body for a in getattr(last, 'earlier', ())]


def mark_chains(fn_node):
    """Marks the last arm of if/elif chains of two arms or more."""
    for n in ast.walk(fn_node):
        if isinstance(n, ast.If) and len(n.orelse) == 1 and isinstance(
                n.orelse[0], ast.If):
            n.orelse[0].in_chain = True
            n.orelse[0].earlier = getattr(n, 'earlier', []) + [n]
