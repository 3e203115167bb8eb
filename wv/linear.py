"""Exact feasibility of linear sign conditions, with a solution."""
import random
from fractions import Fraction

LIMIT = 3000


class TooBig(Exception):
    pass


def plain(it):
    """Constraints (dict symbol->coef with '' for the constant, allowed
    signs), or None when they are not all linear over the rationals."""
    out = []
    used = set()
    for key, val in it.signs.items():
        if key and key[0] == 'almost':
            continue
        if key and key[0] == 'par':
            return None
        d = {}
        for m, c in key:
            if not m:
                d[''] = Fraction(c)
            elif len(m) == 1 and m[0][1] == 1:
                d[m[0][0]] = Fraction(c)
                used.add(m[0][0])
            else:
                return None
        out.append((d, frozenset(val)))
    for s in used:
        if s in it.opaque:
            return None
        info = it.syms.get(s)
        if info is None:
            continue
        if info.integer:
            return None
        if info.lo is not None:
            out.append(({s: Fraction(1), '': -info.lo}, frozenset((0, 1))))
        if info.hi is not None:
            out.append(({s: Fraction(-1), '': info.hi}, frozenset((0, 1))))
        for v in info.excl:
            out.append(({s: Fraction(1), '': -v}, frozenset((-1, 1))))
    return out


def add(a, k, b):
    d = dict(a)
    for s, c in b.items():
        v = d.get(s, Fraction(0)) + k * c
        if v:
            d[s] = v
        else:
            d.pop(s, None)
    return d


def solve(cons, rnd, span=50):
    """dict of values, or None when there is none."""
    eqs, ineqs, nes = [], [], []
    for d, val in cons:
        if val == {0}:
            eqs.append(d)
        elif val == {1}:
            ineqs.append((d, True))
        elif val == {-1}:
            ineqs.append(({s: -c for s, c in d.items()}, True))
        elif val == {0, 1}:
            ineqs.append((d, False))
        elif val == {-1, 0}:
            ineqs.append(({s: -c for s, c in d.items()}, False))
        elif val == {-1, 1}:
            nes.append(d)
        elif not val:
            return None
    subst = []
    while eqs:
        d = eqs.pop()
        syms = [s for s in d if s]
        if not syms:
            if d.get('', 0):
                return None
            continue
        s = syms[0]
        k = d[s]
        e = {t: -c / k for t, c in d.items() if t != s}
        subst.append((s, e))

        def put(x):
            c = x.get(s)
            if not c:
                return x
            y = dict(x)
            del y[s]
            return add(y, c, e)
        eqs = [put(x) for x in eqs]
        ineqs = [(put(x), st) for x, st in ineqs]
        nes = [put(x) for x in nes]
    for d in nes:
        if not any(s for s in d) and not d.get('', 0):
            return None
    stages = []
    cur = ineqs
    while True:
        count = {}
        keep = []
        seen = set()
        for d, st in cur:
            syms = [s for s in d if s]
            if not syms:
                v = d.get('', Fraction(0))
                if v < 0 or st and v == 0:
                    return None
                continue
            g = abs(d[min(syms)])
            d = {s: c / g for s, c in d.items()}
            k = (tuple(sorted(d.items())), st)
            if k in seen:
                continue
            seen.add(k)
            keep.append((d, st))
            for s in syms:
                p = count.setdefault(s, [0, 0])
                p[d[s] > 0] += 1
        cur = keep
        if not count:
            break
        if len(cur) > LIMIT:
            raise TooBig
        s = min(count, key=lambda k: (count[k][0] * count[k][1], k))
        lo = [(d, st) for d, st in cur if d.get(s, 0) > 0]
        hi = [(d, st) for d, st in cur if d.get(s, 0) < 0]
        stages.append((s, lo, hi))
        nxt = [(d, st) for d, st in cur if not d.get(s, 0)]
        for d1, s1 in lo:
            for d2, s2 in hi:
                a = {t: c / d1[s] for t, c in d1.items()}
                nxt.append((add(a, Fraction(-1) / d2[s], d2), s1 or s2))
        cur = nxt
    env = {}

    def value(d):
        t = d.get('', Fraction(0))
        for s, c in d.items():
            if s:
                if s not in env:
                    env[s] = Fraction(rnd.randint(-span, span))
                t += c * env[s]
        return t
    for s, lo, hi in reversed(stages):
        low = high = None
        for d, st in lo:
            e = {t: c for t, c in d.items() if t != s}
            v = -value(e) / d[s]
            if low is None or v > low[0] or v == low[0] and st:
                low = (v, st)
        for d, st in hi:
            e = {t: c for t, c in d.items() if t != s}
            v = -value(e) / d[s]
            if high is None or v < high[0] or v == high[0] and st:
                high = (v, st)
        if low and high:
            if low[0] == high[0]:
                env[s] = low[0]
            else:
                env[s] = low[0] + (high[0] - low[0]) * Fraction(
                    rnd.randint(1, span + 1), span + 2)
        elif low:
            env[s] = low[0] + rnd.randint(1, span)
        elif high:
            env[s] = high[0] - rnd.randint(1, span)
        else:
            env[s] = Fraction(rnd.randint(-span, span))
    for d in nes:
        value(d)
    for s, e in reversed(subst):
        env[s] = value(e)
    return env


def decide(it):
    """('no', None), ('yes', values) or (None, None)."""
    cons = plain(it)
    if cons is None:
        return None, None
    rnd = random.Random(7)
    try:
        for span in (50, 50, 5000, 10 ** 6, 10 ** 9):
            env = solve(cons, rnd, span)
            if env is None:
                return 'no', None
            if all(sgn(ev(d, env)) in val for d, val in cons):
                return 'yes', env
        # a condition "different" may be forced to fail
        for i, (d, val) in enumerate(cons):
            if val == {-1, 1}:
                for sign in (1, -1):
                    c = list(cons)
                    c[i] = (d, frozenset((sign,)))
                    if solve(c, rnd) is not None:
                        break
                else:
                    return 'no', None
    except TooBig:
        pass
    return None, None


def ev(d, env):
    t = d.get('', Fraction(0))
    for s, c in d.items():
        if s:
            t += c * env.setdefault(s, Fraction(0))
    return t


def sgn(x):
    return (x > 0) - (x < 0)
