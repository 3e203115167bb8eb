"""A small reader for decision functions written in C++."""
import os
import re

TOKEN = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<tok>"(?:\\.|[^"\\])*"|'''
                   r'''[A-Za-z_]\w*|\d[\w.']*|::|->|==|!=|<=|>=|&&|\|\||'''
                   r'''\+\+|--|\+=|-=|<<|>>|.)''', re.S)


class CppUnsupported(Exception):
    pass


def tokens(text):
    text = re.sub(r'^\s*#[^\n]*', '', text, flags=re.M)
    return [m.group('tok') for m in TOKEN.finditer(text)
            if m.group('tok') is not None]


class Sources:
    """All C++ files of the repository."""

    def __init__(self, root):
        self.files = {}
        for base in ('include', 'src'):
            for d, dirs, names in os.walk(os.path.join(root, base)):
                dirs.sort()
                for n in sorted(names):
                    if n.endswith(('.hpp', '.cpp', '.h')):
                        p = os.path.join(d, n)
                        with open(p, encoding='utf-8') as f:
                            self.files[os.path.relpath(p, root)] = tokens(
                                f.read())

    def enums(self):
        """enumerator -> (enum, value)"""
        out = {}
        for ts in self.files.values():
            for i, t in enumerate(ts):
                if t != 'enum':
                    continue
                j = i + 1
                if ts[j] in ('class', 'struct'):
                    j += 1
                name = ts[j]
                while ts[j] not in '{;':
                    j += 1
                if ts[j] != '{':
                    continue
                value = -1
                j += 1
                while ts[j] != '}':
                    e = ts[j]
                    j += 1
                    if ts[j] == '=':
                        j += 1
                        sign = 1
                        if ts[j] == '-':
                            sign, j = -1, j + 1
                        value = sign * int(ts[j], 0)
                        j += 1
                    else:
                        value += 1
                    out[e] = (name, value)
                    if ts[j] == ',':
                        j += 1
                    elif ts[j] != '}':
                        raise CppUnsupported('enum ' + name)
        return out

    def aliases(self):
        """using A = ...::b;"""
        out = {}
        for ts in self.files.values():
            for i, t in enumerate(ts):
                if t == 'using' and i + 2 < len(ts) and ts[i + 2] == '=':
                    j = i + 3
                    last = None
                    while ts[j] != ';':
                        if re.match(r'[A-Za-z_]', ts[j]):
                            last = ts[j] if last is None or \
                                ts[j - 1] == '::' else last
                        j += 1
                    out[ts[i + 1]] = last
        return out

    def macros(self, root):
        out = {}
        for p in self.files:
            with open(os.path.join(root, p), encoding='utf-8') as f:
                for m in re.finditer(r'#define\s+(\w+)\s+"(\w+)"', f.read()):
                    out[m.group(1)] = m.group(2)
        return out

    def function(self, name):
        """(parameters, body tokens, file) of the definition."""
        for p, ts in self.files.items():
            for i, t in enumerate(ts):
                if t != name or i + 1 >= len(ts) or ts[i + 1] != '(':
                    continue
                if i and ts[i - 1] in ('.', '->', '(', ',', 'return', '!'):
                    continue
                j = match(ts, i + 1)
                if j + 1 < len(ts) and ts[j + 1] == 'const':
                    j += 1
                if j + 1 < len(ts) and ts[j + 1] == '{':
                    end = match(ts, j + 1)
                    return (split(ts[i + 2:match(ts, i + 1)]),
                            ts[j + 1:end + 1], p)
        return None


OPEN = {'(': ')', '{': '}', '[': ']'}


def match(ts, i):
    close, depth = OPEN[ts[i]], 0
    for j in range(i, len(ts)):
        if ts[j] == ts[i]:
            depth += 1
        elif ts[j] == close:
            depth -= 1
            if not depth:
                return j
    raise CppUnsupported('unbalanced ' + ts[i])


def split(ts):
    """Comma separated parts at depth 0 (angle brackets included)."""
    out, cur, depth = [], [], 0
    for t in ts:
        if t in '({[<':
            depth += 1
        elif t in ')}]>':
            depth -= 1
        if t == ',' and not depth:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


class Break(Exception):
    pass


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Runner:
    """Evaluates a function body over given abstract arguments."""

    def __init__(self, sources, enums):
        self.s, self.enums = sources, enums
        self.literals = set()
        self.depth = 0

    def call(self, name, args):
        f = self.s.function(name)
        if f is None:
            raise CppUnsupported('function ' + name)
        params, body, _ = f
        if len(params) != len(args):
            raise CppUnsupported('arguments of ' + name)
        env = {}
        for p, a in zip(params, args):
            if '=' in p:
                p = p[:p.index('=')]
            env[p[-1]] = a
        self.depth += 1
        if self.depth > 20:
            raise CppUnsupported('recursion')
        save = getattr(self, 'ts', None), getattr(self, 'i', 0)
        try:
            self.run_block(body, 0, env)
            return None
        except Return as r:
            return r.value
        finally:
            self.depth -= 1
            self.ts, self.i = save

    # -- statements: parse while executing; skip() passes over one ----------
    def run_block(self, ts, i, env):
        end = match(ts, i)
        i += 1
        while i < end:
            i = self.stmt(ts, i, env)
        return end + 1

    def skip(self, ts, i):
        t = ts[i]
        if t == '{':
            return match(ts, i) + 1
        if t == 'if':
            j = match(ts, i + 1)
            j = self.skip(ts, j + 1)
            if j < len(ts) and ts[j] == 'else':
                j = self.skip(ts, j + 1)
            return j
        if t in ('switch', 'while', 'for'):
            return self.skip(ts, match(ts, i + 1) + 1)
        while ts[i] != ';':
            i = match(ts, i) + 1 if ts[i] in OPEN else i + 1
        return i + 1

    def stmt(self, ts, i, env):
        t = ts[i]
        if t == '{':
            return self.run_block(ts, i, env)
        if t == ';':
            return i + 1
        if t == 'if':
            j = match(ts, i + 1)
            cond = self.value(ts[i + 2:j], env)
            k = self.skip(ts, j + 1)
            other = k < len(ts) and ts[k] == 'else'
            if self.truth(cond):
                self.stmt(ts, j + 1, env)
            elif other:
                self.stmt(ts, k + 1, env)
            return self.skip(ts, i)
        if t == 'return':
            j = i + 1
            while ts[j] != ';':
                j = match(ts, j) + 1 if ts[j] in OPEN else j + 1
            raise Return(self.value(ts[i + 1:j], env) if j > i + 1 else None)
        if t == 'break':
            raise Break()
        if t == 'switch':
            return self.switch(ts, i, env)
        if t in ('while', 'for', 'do', 'goto', 'try', 'throw', 'using'):
            raise CppUnsupported('statement ' + t)
        j = i
        while ts[j] != ';':
            j = match(ts, j) + 1 if ts[j] in OPEN else j + 1
        part = ts[i:j]
        if '=' in part:
            k = part.index('=')
            left, right = part[:k], part[k + 1:]
            if all(re.match(r'[A-Za-z_]\w*$|::$|&$', x) for x in left):
                env[left[-1]] = self.value(right, env)
            else:
                raise CppUnsupported('assignment')
        elif part[:2] == ['(', 'void']:
            pass
        elif all(re.match(r'[A-Za-z_]\w*$|::$', x) for x in part) and \
                len(part) > 1:
            env[part[-1]] = None
        else:
            raise CppUnsupported('statement ' + ' '.join(part[:6]))
        return j + 1

    def switch(self, ts, i, env):
        j = match(ts, i + 1)
        v = self.value(ts[i + 2:j], env)
        start, end = j + 1, match(ts, j + 1)
        k, entry, default = start + 1, None, None
        while k < end:
            if ts[k] == 'case':
                c = k + 1
                while ts[c] != ':':
                    c += 1
                if entry is None and self.value(ts[k + 1:c], env) == v:
                    entry = c + 1
                k = c + 1
            elif ts[k] == 'default':
                default = k + 2
                k += 2
            else:
                k = self.skip(ts, k)
        at = entry if entry is not None else default
        if at is not None:
            try:
                while at < end:
                    if ts[at] == 'case':
                        while ts[at] != ':':
                            at += 1
                        at += 1
                    elif ts[at] == 'default':
                        at += 2
                    else:
                        at = self.stmt(ts, at, env)
            except Break:
                pass
        return end + 1

    # -- expressions --------------------------------------------------------
    def truth(self, v):
        if isinstance(v, (bool, int)):
            return bool(v)
        raise CppUnsupported('condition')

    def value(self, ts, env):
        save = getattr(self, 'ts', None), getattr(self, 'i', 0)
        self.ts, self.i = ts, 0
        try:
            v = self.ternary(env)
            if self.i != len(ts):
                raise CppUnsupported('expression ' + ' '.join(ts[:8]))
            return v
        finally:
            self.ts, self.i = save

    def peek(self):
        return self.ts[self.i] if self.i < len(self.ts) else None

    def take(self, t=None):
        x = self.peek()
        if x is None or t is not None and x != t:
            raise CppUnsupported('expected %s' % t)
        self.i += 1
        return x

    def ternary(self, env):
        c = self.binary(env, 0)
        if self.peek() == '?':
            self.take()
            a = self.ternary(env)
            self.take(':')
            b = self.ternary(env)
            return a if self.truth(c) else b
        return c

    LEVELS = (('||',), ('&&',), ('==', '!='), ('<', '>', '<=', '>='),
              ('+', '-'), ('*',))

    def binary(self, env, level):
        if level == len(self.LEVELS):
            return self.unary(env)
        a = self.binary(env, level + 1)
        while self.peek() in self.LEVELS[level]:
            op = self.take()
            b = self.binary(env, level + 1)
            if op == '||':
                a = self.truth(a) or self.truth(b)
            elif op == '&&':
                a = self.truth(a) and self.truth(b)
            else:
                if not isinstance(a, int) or not isinstance(b, int):
                    raise CppUnsupported('operands of ' + op)
                a = {'==': a == b, '!=': a != b, '<': a < b, '>': a > b,
                     '<=': a <= b, '>=': a >= b, '+': a + b, '-': a - b,
                     '*': a * b}[op]
                if op in '+-*':
                    self.literals.add('arithmetic')
        return a

    def unary(self, env):
        t = self.peek()
        if t == '!':
            self.take()
            return not self.truth(self.unary(env))
        if t == '-':
            self.take()
            return -self.unary(env)
        if t in ('+', '*'):
            self.take()
            return self.unary(env)
        return self.postfix(env)

    def postfix(self, env):
        t = self.take()
        if t == '(':
            v = self.ternary(env)
            self.take(')')
        elif t.isdigit():
            v = int(t)
            self.literals.add(v)
        elif t in ('true', 'false'):
            v = t == 'true'
        elif t == 'static_cast':
            self.take('<')
            while self.take() != '>':
                pass
            self.take('(')
            v = self.ternary(env)
            self.take(')')
        elif re.match(r'[A-Za-z_]', t):
            while self.peek() == '::':
                self.take()
                t = self.take()
            if self.peek() == '(':
                self.take()
                args = []
                while self.peek() != ')':
                    args.append(self.ternary(env))
                    if self.peek() == ',':
                        self.take()
                self.take(')')
                v = abs(args[0]) if t == 'abs' and len(args) == 1 else \
                    self.call(t, args)
            elif t in env:
                v = env[t]
            elif t in self.enums:
                v = self.enums[t][1]
            else:
                raise CppUnsupported('name ' + t)
        else:
            raise CppUnsupported('token ' + t)
        while self.peek() in ('.', '->'):
            self.take()
            f = self.take()
            if not isinstance(v, dict) or f not in v:
                raise CppUnsupported('member ' + f)
            v = v[f]
        return v
