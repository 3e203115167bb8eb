"""Exact numbers of the abstract domain: quotients of polynomials over named
symbols with rational coefficients (value numbering), and order-only ranks."""
from fractions import Fraction


class Num:
    __slots__ = ('n', 'd', '_key')

    def __init__(self, n, d=None):
        # n, d: dict monomial -> Fraction; monomial: sorted tuple of
        # (symbol, power)
        self.n = n
        self.d = d if d is not None else {(): Fraction(1)}
        self._key = None

    @staticmethod
    def const(v):
        v = Fraction(v)
        return Num({(): v} if v else {})

    @staticmethod
    def sym(name):
        return Num({((name, 1),): Fraction(1)})

    def norm(self):
        n = {m: c for m, c in self.n.items() if c}
        d = {m: c for m, c in self.d.items() if c}
        if not n:
            return Num({}, {(): Fraction(1)})
        if len(d) == 1:
            (m, c), = d.items()
            if m == ():
                if c != 1:
                    n = {k: v / c for k, v in n.items()}
                return Num(n, {(): Fraction(1)})
        # n proportional to d?
        if set(n) == set(d):
            it = iter(n)
            k = next(it)
            r = n[k] / d[k]
            if all(n[m] == r * d[m] for m in n):
                return Num.const(r)
        # make leading denominator coefficient 1
        k = max(d)
        c = d[k]
        if c != 1:
            n = {m: v / c for m, v in n.items()}
            d = {m: v / c for m, v in d.items()}
        return Num(n, d)

    @property
    def is_poly(self):
        return len(self.d) == 1 and () in self.d

    @property
    def is_const(self):
        return self.is_poly and (not self.n or set(self.n) == {()})

    @property
    def value(self):
        return self.n.get((), Fraction(0)) / self.d[()]

    def symbols(self):
        return ({s for m in self.n for s, _ in m}
                | {s for m in self.d for s, _ in m})

    def __add__(self, o):
        if self.d == o.d:
            return Num(padd(self.n, o.n), self.d).norm()
        return Num(padd(pmul(self.n, o.d), pmul(o.n, self.d)),
                   pmul(self.d, o.d)).norm()

    def __neg__(self):
        return Num({m: -c for m, c in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Num(pmul(self.n, o.n), pmul(self.d, o.d)).norm()

    def div(self, o):
        return Num(pmul(self.n, o.d), pmul(self.d, o.n)).norm()

    def same(self, o):
        x = pmul(self.n, o.d)
        y = pmul(o.n, self.d)
        return padd(x, {m: -c for m, c in y.items()}) == {}

    @property
    def key(self):
        if self._key is None:
            self._key = (pkey(self.n), pkey(self.d))
        return self._key

    def __repr__(self):
        s = pstr(self.n)
        if not self.is_poly:
            return '(%s)/(%s)' % (s, pstr(self.d))
        return s


def padd(a, b):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def pmul(a, b):
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = out.get(m, 0) + c1 * c2
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    return out


def mmul(a, b):
    d = dict(a)
    for s, p in b:
        d[s] = d.get(s, 0) + p
    return tuple(sorted((s, p) for s, p in d.items() if p))


def pkey(p):
    return tuple(sorted(p.items()))


def pstr(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items()):
        t = '*'.join(s + ('^%d' % e if e != 1 else '') for s, e in m)
        if not t:
            out.append(str(c))
        elif c == 1:
            out.append(t)
        elif c == -1:
            out.append('-' + t)
        else:
            out.append('%s*%s' % (c, t))
    return ' + '.join(out).replace('+ -', '- ')


class Rank:
    """A value known only through its order among values of one axis."""
    __slots__ = ('axis', 'v', 'neg')

    def __init__(self, axis, v, neg=False):
        self.axis = axis
        self.v = v
        self.neg = neg

    def __repr__(self):
        return '%s%s#%s' % ('-' if self.neg else '', self.axis, self.v)


class Special:
    """inf, -inf or nan."""
    __slots__ = ('kind',)

    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return self.kind


INF, NINF, NAN = Special('inf'), Special('-inf'), Special('nan')
