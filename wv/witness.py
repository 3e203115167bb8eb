"""Concretisation of an abstract path: an assignment of the symbols that meets
every sign the path assumed.  A mismatch without one is not reported."""
from fractions import Fraction

BASE = [Fraction(v) for v in (0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5)]
HALVES = [Fraction(1, 2), Fraction(-1, 2), Fraction(3, 2), Fraction(-3, 2),
          Fraction(1, 3)]
FUN = {
    'floor': lambda x: Fraction(x.numerator // x.denominator),
    'ceil': lambda x: Fraction(-((-x.numerator) // x.denominator)),
    'trunc': lambda x: Fraction(int(x)),
    'round': lambda x: Fraction(round(x)),
}


def evalpoly(poly, env):
    tot = Fraction(0)
    for m, c in poly:
        t = Fraction(c)
        for s, e in m:
            t *= env[s] ** e
        tot += t
    return tot


def sgn(x):
    return (x > 0) - (x < 0)


def witness(it, node_limit=200000):
    """dict symbol -> Fraction, or None when none was found."""
    cons = []
    for key, val in it.signs.items():
        if key and key[0] == 'par':
            poly = key[1]
            cons.append(('par', poly, val,
                         {s for m, _ in poly[0] for s, _ in m}))
        elif key and key[0] == 'almost':
            continue
        else:
            cons.append(('sign', key, val, {s for m, _ in key
                                            for s, _ in m}))
    syms = []
    for c in cons:
        for s in sorted(c[3]):
            if s not in syms:
                syms.append(s)
    changed = True
    while changed:          # arguments of opaque functions
        changed = False
        for s in list(syms):
            if s in it.opaque:
                fn, arg = it.opaque[s]
                for t in sorted(arg.symbols()):
                    if t not in syms:
                        syms.append(t)
                        changed = True
    free = [s for s in syms if s not in it.opaque]
    opq = [s for s in syms if s in it.opaque]
    # symbols of most constraints first
    weight = {s: sum(1 for c in cons if s in c[3]) for s in free}
    free.sort(key=lambda s: (-weight[s], s))
    dom = {}
    for s in free:
        info = it.syms.get(s)
        cand = list(BASE) + ([] if info is not None and info.integer
                             else HALVES)
        if info is not None:
            for b in (info.lo, info.hi):
                if b is not None:
                    cand += [b, b + 1, b - 1, b + 2, b - 2]
            cand = [v for v in dict.fromkeys(cand)
                    if (info.lo is None or v >= info.lo)
                    and (info.hi is None or v <= info.hi)
                    and v not in info.excl
                    and (not info.integer or v.denominator == 1)]
        dom[s] = cand
    # constraint -> the position at which it becomes checkable
    pos = {s: i for i, s in enumerate(free)}

    def need(names):
        out = set()
        for n in names:
            if n in it.opaque:
                out |= need(it.opaque[n][1].symbols())
            else:
                out.add(n)
        return out

    at = {}
    for c in cons:
        ps = [pos[n] for n in need(c[3]) if n in pos]
        at.setdefault(max(ps) if ps else -1, []).append(c)
    env = {}
    count = [0]

    def fill():
        for s in opq:
            fn, arg = it.opaque[s]
            if all(t in env for t in arg.symbols()):
                n = evalpoly(arg.n.items(), env)
                d = evalpoly(arg.d.items(), env)
                if d == 0:
                    return False
                f = FUN.get(fn)
                if f is None:
                    return False
                env[s] = f(n / d)
        return True

    def ok(cs):
        for kind, poly, val, names in cs:
            if opq and not fill():
                return False
            if kind == 'par':
                n = evalpoly(poly[0], env)
                if n.denominator != 1 or n % 2 != val:
                    return False
            elif sgn(evalpoly(poly, env)) not in val:
                return False
        return True

    def rec(i):
        count[0] += 1
        if count[0] > node_limit:
            return False
        if i == len(free):
            return True
        s = free[i]
        for v in dom[s]:
            env[s] = v
            if ok(at.get(i, ())) and rec(i + 1):
                return True
        env.pop(s, None)
        for o in opq:
            if s in it.opaque[o][1].symbols():
                env.pop(o, None)
        return False

    if not ok(at.get(-1, ())):
        return None
    return dict(env) if rec(0) else None


def show(w):
    return ', '.join('%s=%s' % kv for kv in sorted(w.items()))


def contradictory(it, limit=4000):
    """True when the linear part of what the path assumed has no rational
    solution (products are taken as unknowns of their own): the path does
    not exist."""
    base, split = [], []
    integer = {s for s, i in it.syms.items() if i.integer}

    def add(out, poly, strict):      # poly >= 0 or > 0
        d = {m: Fraction(c) for m, c in poly}
        if strict and all(len(m) == 0 or all(s in integer for s, _ in m)
                          for m in d):
            den = 1
            for c in d.values():
                den = den * c.denominator // _gcd(den, c.denominator)
            d = {m: c * den for m, c in d.items()}
            d[()] = d.get((), Fraction(0)) - 1
            strict = False
        out.append((d, strict))

    def neg(poly):
        return [(m, -c) for m, c in poly]
    for key, val in it.signs.items():
        if key and key[0] in ('par', 'almost'):
            continue
        poly = list(key)
        if val == {1}:
            add(base, poly, True)
        elif val == {-1}:
            add(base, neg(poly), True)
        elif val == {0}:
            add(base, poly, False)
            add(base, neg(poly), False)
        elif val == {0, 1}:
            add(base, poly, False)
        elif val == {0, -1}:
            add(base, neg(poly), False)
        elif val == {-1, 1}:
            split.append(poly)
    for s, info in it.syms.items():
        m = ((s, 1),)
        if info.lo is not None:
            add(base, [(m, Fraction(1)), ((), -Fraction(info.lo))], False)
        if info.hi is not None:
            add(base, [(m, Fraction(-1)), ((), Fraction(info.hi))], False)

    def empty(cons):
        cons = list(cons)
        while True:
            names = {}
            for d, st in cons:
                for m, c in d.items():
                    if m and c:
                        names.setdefault(m, [0, 0])[c > 0] += 1
            rest = []
            for d, st in cons:
                if not any(m and c for m, c in d.items()):
                    v = d.get((), Fraction(0))
                    if v < 0 or st and v == 0:
                        return True
                else:
                    rest.append((d, st))
            cons = rest
            if not names:
                return False
            m = min(names, key=lambda k: names[k][0] * names[k][1])
            pos = [(d, s) for d, s in cons if d.get(m, 0) > 0]
            ngs = [(d, s) for d, s in cons if d.get(m, 0) < 0]
            out = [(d, s) for d, s in cons if not d.get(m, 0)]
            for d1, s1 in pos:
                for d2, s2 in ngs:
                    a, b = d1[m], -d2[m]
                    e = {}
                    for k in set(d1) | set(d2):
                        v = d1.get(k, Fraction(0)) * b + d2.get(
                            k, Fraction(0)) * a
                        if v:
                            e[k] = v
                    e.pop(m, None)
                    out.append((e, s1 or s2))
            seen, cons = set(), []
            for d, s in out:
                k = (tuple(sorted(d.items())), s)
                if k not in seen:
                    seen.add(k)
                    cons.append((d, s))
            if len(cons) > limit:
                return False

    def rec(i, cons):
        if empty(cons):
            return True
        if i == len(split) or i > 6:
            return False
        for p in (split[i], neg(split[i])):
            c = list(cons)
            add(c, p, True)
            if not rec(i + 1, c):
                return False
        return True
    return rec(0, base)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a
