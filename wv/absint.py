"""Path sensitive abstract interpretation of functions of /repo.

Abstract values: constants, enumeration members, polynomials over named
symbols (value numbers) with intervals, order-only ranks, tuples, lists,
abstract objects with lazily created fields.  A condition the domain cannot
decide is split both ways (all outcomes are explored, no feasibility check by a
solver); what the interpreter does not model raises ``Unsupported`` and makes
the obligation undecided.
"""
import ast
import builtins
import collections
import collections.abc
import ctypes
import decimal
import enum
from fractions import Fraction

from .model import Class, Func, Module
from .num import INF, NAN, NINF, Num, Rank, Special

FUEL = 60000


class Unsupported(Exception):
    pass


class AxisMix(Exception):
    """Order of values of different axes was asked for."""


class PyRaise(Exception):
    def __init__(self, name, value=None, where=None):
        Exception.__init__(self, name)
        self.name = name
        self.value = value
        self.where = where


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class EnumV:
    __slots__ = ('cls', 'name', 'value')

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return '%s.%s' % (self.cls.name, self.name)


class ListV:
    __slots__ = ('items', 'kind')

    def __init__(self, items=(), kind='list'):
        self.items = list(items)
        self.kind = kind   # 'list', 'deque'

    def __repr__(self):
        return repr(self.items)


class DictV:
    def __init__(self, default=None):
        self.d = {}        # hash key -> (key, value)
        self.default = default

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % kv for kv in self.d.values())


class SetV:
    def __init__(self, items=()):
        self.d = {}
        for i in items:
            self.d[hkey(i)] = i


class ObjV:
    _n = 0

    def __init__(self, cls, fields=None, lazy=None, label=None):
        self.cls = cls
        self.fields = dict(fields or {})
        self.lazy = lazy
        self.label = label
        self.meta = None

    def __repr__(self):
        return '<%s %s>' % (self.cls.name if self.cls else '?',
                            self.label or hex(id(self))[-5:])


class FuncV:
    __slots__ = ('func', 'closure')

    def __init__(self, func, closure=None):
        self.func, self.closure = func, closure

    def __repr__(self):
        return repr(self.func)


class MethodV:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class ClassV:
    __slots__ = ('cls',)

    def __init__(self, cls):
        self.cls = cls

    def __repr__(self):
        return repr(self.cls)


class ModuleV:
    __slots__ = ('mod',)

    def __init__(self, mod):
        self.mod = mod


class ExtV:
    """External (library or builtin) name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<ext %s>' % self.name


class BMethod:
    """Method of a builtin container value."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class PartialV:
    __slots__ = ('fn', 'args', 'kwargs')

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class CIntV:
    """A ctypes integer whose argument provably fits."""
    __slots__ = ('value',)

    def __init__(self, value):
        self.value = value


class PyFn:
    """A callable supplied by a specification."""
    __slots__ = ('fn', 'name')

    def __init__(self, fn, name=''):
        self.fn, self.name = fn, name


class IterV:
    __slots__ = ('items', 'pos')

    def __init__(self, items):
        self.items, self.pos = list(items), 0


class IdV:
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj


class OpaqueV:
    """A value only passed around (its identity is its label)."""
    __slots__ = ('label',)

    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return '<opaque %s>' % self.label


NOTIMPL = OpaqueV('NotImplemented')


class SymInfo:
    __slots__ = ('lo', 'hi', 'integer', 'excl')

    def __init__(self, lo=None, hi=None, integer=False):
        self.lo, self.hi, self.integer = lo, hi, integer
        self.excl = set()


def hkey(v):
    if isinstance(v, (bool,)):
        return ('n', int(v))
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, Num):
        if v.is_const:
            return ('n', v.value)
        return ('sym', v.key)
    if isinstance(v, EnumV):
        return ('enum', v.cls.qual, v.name)
    if isinstance(v, tuple):
        return ('t',) + tuple(hkey(i) for i in v)
    if isinstance(v, IdV):
        return ('id', id(v.obj))
    if isinstance(v, Rank):
        return ('rank', v.axis, v.v, v.neg)
    if isinstance(v, ObjV):
        if v.cls is not None and v.cls.find_method('__eq__') is not None \
                and v.cls.find_method('__hash__') is None:
            raise PyRaise('TypeError')
        return ('obj', id(v))
    if isinstance(v, (ListV, DictV, SetV)):
        raise PyRaise('TypeError')
    return ('obj', id(v))


class Frame:
    __slots__ = ('func', 'module', 'vars', 'parent', 'yields', 'line',
                 'nonlocals')

    def __init__(self, func, module, parent=None):
        self.func, self.module, self.parent = func, module, parent
        self.vars = {}
        self.yields = []
        self.line = 0
        self.nonlocals = set()


def real_types(o):
    """Types of the library a value may be of, for what it may have."""
    if isinstance(o, ListV):
        return (collections.deque,) if o.kind == 'deque' else (list,)
    if isinstance(o, DictV):
        return dict, collections.defaultdict
    if isinstance(o, SetV):
        return set, frozenset
    if isinstance(o, (tuple, str, bool)):
        return type(o),
    if isinstance(o, (Num, Rank, Special)):
        return int, float
    if isinstance(o, CIntV):
        return ctypes.c_int32,
    if isinstance(o, EnumV):
        return enum.IntEnum, enum.Enum
    if isinstance(o, ObjV) and o.cls is None and o.label == 'Decimal':
        return decimal.Decimal,
    cls = getattr(o, 'cls', None)
    if isinstance(o, (ObjV, ClassV)) and cls is not None:
        out = [type if isinstance(o, ClassV) else object]
        for b in cls.all_ext_bases():
            name = b.split('.')[-1].split('[')[0]
            real = getattr(collections.abc, name, None) or getattr(
                enum, name, None) or getattr(builtins, name, None)
            if real is None and name not in ('Generic', 'ABC'):
                return None
            if real is not None:
                out.append(real)
        return tuple(out)
    return None


def lacking(o, name):
    """What to raise where a value is not known to have an attribute."""
    ts = real_types(o)
    if ts is None or any(hasattr(t, name) for t in ts):
        return Unsupported('attribute %s of %r' % (name, o))
    return PyRaise('AttributeError', where=name)


def unfit(*vs):
    """What to raise where values do not fit an operation."""
    if any(isinstance(v, (OpaqueV, ExtV, LazyGen, IterV, LiveIter, IdV,
                          PyFn, Special)) or isinstance(v, ObjV) and (
                              v.cls is None or v.cls.all_ext_bases())
           for v in vs):
        return Unsupported('operation on %s' % (vs,))
    return PyRaise('TypeError')


REAL = object()      # a stub's answer: run the function itself


class Interp:
    def __init__(self, program, stubs=None, choices=(), fuel=FUEL,
                 max_choices=400, ext_stubs=None):
        self.p = program
        self.on_call = None
        self.stubs = dict(stubs or {})
        self.ext_stubs = ext_stubs or {}
        self.prefix = list(choices)
        self.taken = []       # (choice, arity)
        self.fuel = fuel
        self.max_choices = max_choices
        self.syms = {}
        self.signs = {}
        self.trace = []
        self.calls = set()    # functions entered
        self.sites = []
        self.depth = 0
        self.frames = []
        self.decisions = []
        self.genv = {}
        self.opaque = {}      # opaque symbol -> (function, argument)

    # -- choices ----------------------------------------------------------
    def choose(self, n, label=''):
        if n == 1:
            return 0
        i = len(self.taken)
        if i >= self.max_choices:
            raise Unsupported('too many undecided conditions')
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((c, n))
        self.decisions.append((label, c))
        return c

    # -- symbols ----------------------------------------------------------
    def sym(self, name, lo=None, hi=None, integer=False):
        if name not in self.syms:
            self.syms[name] = SymInfo(
                None if lo is None else Fraction(lo),
                None if hi is None else Fraction(hi), integer)
        return Num.sym(name)

    def interval(self, poly):
        """(lo, hi) of a polynomial given as dict, None for unbounded."""
        lo = hi = Fraction(0)
        for m, c in poly.items():
            mlo, mhi = Fraction(1), Fraction(1)
            for s, e in m:
                info = self.syms.get(s)
                slo = info.lo if info else None
                shi = info.hi if info else None
                if e == 2 and len(m) == 1:
                    # square
                    cand = [x * x if x is not None else None
                            for x in (slo, shi)]
                    nlo = Fraction(0)
                    if slo is not None and slo > 0:
                        nlo = slo * slo
                    if shi is not None and shi < 0:
                        nlo = shi * shi
                    nhi = None if None in cand else max(cand)
                    mlo, mhi = nlo, nhi
                    continue
                for _ in range(e):
                    mlo, mhi = imul(mlo, mhi, slo, shi)
            tlo, thi = imul(mlo, mhi, c, c)
            lo = None if lo is None or tlo is None else lo + tlo
            hi = None if hi is None or thi is None else hi + thi
        return lo, hi

    def sign(self, num, want=None):
        """Decides the sign (-1, 0, 1) of a Num, splitting when necessary.

        want: optional set of signs of interest: returns whether the sign is
        in the set, splitting only as far as necessary.
        """
        if isinstance(num, Special):
            s = {'inf': 1, '-inf': -1}.get(num.kind)
            return s if want is None else s in want
        if not num.is_poly:
            sd = self.sign(Num(num.d))
            sn = Num(num.n)
            if sd < 0:
                sn = -sn
            return self.sign(sn, want)
        if num.is_const:
            v = num.value
            s = (v > 0) - (v < 0)
            return s if want is None else s in want
        poly = num.n
        poss = self.possible(poly)
        # canonical direction: first monomial positive
        lead = max(poly)
        flip = poly[lead] < 0
        scale = abs(poly[lead])
        key = tuple(sorted((m, (c / scale) * (-1 if flip else 1))
                           for m, c in poly.items()))
        memo = self.signs.get(key)
        if memo is not None:
            poss &= {-s for s in memo} if flip else memo
        if not poss:
            raise Infeasible()
        if want is not None:
            if poss <= want:
                return True
            if not (poss & want):
                return False
            opts = [poss & want, poss - want]
            c = self.choose(2, '%s sign in %s' % (num, sorted(want)))
            res = opts[c]
            self.remember(poly, key, flip, res)
            return c == 0
        order = sorted(poss)
        if len(order) == 1:
            return order[0]
        c = self.choose(len(order), 'sign of %s' % num)
        self.remember(poly, key, flip, {order[c]})
        return order[c]

    def remember(self, poly, key, flip, res):
        self.signs[key] = {-s for s in res} if flip else set(res)
        # refine the interval of a single linear symbol
        mons = [m for m in poly if m]
        if len(mons) == 1 and len(mons[0]) == 1 and mons[0][0][1] == 1:
            s = mons[0][0][0]
            a = poly[mons[0]]
            b = poly.get((), Fraction(0))
            info = self.syms.setdefault(s, SymInfo())
            bound = -b / a
            if a < 0:
                res = {-r for r in res}
            eps = Fraction(1) if info.integer else Fraction(0)
            if res == {0}:
                info.lo = info.hi = bound
            elif res == {1}:
                nb = _floor(bound) + 1 if info.integer else bound
                info.lo = nb if info.lo is None else max(info.lo, nb)
                if not info.integer:
                    info.excl.add(bound)
            elif res == {-1}:
                nb = _ceil(bound) - 1 if info.integer else bound
                info.hi = nb if info.hi is None else min(info.hi, nb)
                if not info.integer:
                    info.excl.add(bound)
            elif res == {0, 1}:
                nb = _ceil(bound) if info.integer else bound
                info.lo = nb if info.lo is None else max(info.lo, nb)
            elif res == {0, -1}:
                nb = _floor(bound) if info.integer else bound
                info.hi = nb if info.hi is None else min(info.hi, nb)
            elif res == {-1, 1}:
                info.excl.add(bound)
            if info.integer:
                while info.lo is not None and info.lo in info.excl:
                    info.lo += eps
                while info.hi is not None and info.hi in info.excl:
                    info.hi -= eps
            if (info.lo is not None and info.hi is not None
                    and info.lo > info.hi):
                raise Infeasible()

    def possible(self, poly):
        lo, hi = self.interval(poly)
        poss = {-1, 0, 1}
        if lo is not None:
            if lo > 0:
                poss &= {1}
            elif lo == 0:
                poss &= {0, 1}
        if hi is not None:
            if hi < 0:
                poss &= {-1}
            elif hi == 0:
                poss &= {0, -1}
        mons = [m for m in poly if m]
        if 0 in poss and len(mons) == 1 and len(mons[0]) == 1 \
                and mons[0][0][1] == 1:
            s = mons[0][0][0]
            z = -poly.get((), Fraction(0)) / poly[mons[0]]
            info = self.syms.get(s)
            if info is not None and (z in info.excl
                                     or info.integer
                                     and z.denominator != 1):
                poss.discard(0)
        return poss

    # -- comparison -------------------------------------------------------
    def num_of(self, v):
        if isinstance(v, bool):
            return Num.const(int(v))
        if isinstance(v, EnumV):
            return v.value if isinstance(v.value, Num) else None
        if isinstance(v, (Num, Special)):
            return v
        return None

    def order(self, op, a, b):
        """a < b, a <= b, a > b, a >= b -> bool."""
        if isinstance(a, Rank) or isinstance(b, Rank):
            return self.rank_order(op, a, b)
        na, nb = self.num_of(a), self.num_of(b)
        if na is not None and nb is not None:
            if isinstance(na, Special) or isinstance(nb, Special):
                return special_order(op, na, nb)
            d = na - nb
            want = {'<': {-1}, '<=': {-1, 0}, '>': {1}, '>=': {0, 1}}[op]
            return self.sign(d, want)
        if isinstance(a, tuple) and isinstance(b, tuple) \
                or isinstance(a, ListV) and isinstance(b, ListV):
            xa = a if isinstance(a, tuple) else a.items
            xb = b if isinstance(b, tuple) else b.items
            for x, y in zip(xa, xb):
                if not self.eq(x, y):
                    return self.order(op, x, y)
            la, lb = len(xa), len(xb)
            return {'<': la < lb, '<=': la <= lb, '>': la > lb,
                    '>=': la >= lb}[op]
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        dunder = {'<': '__lt__', '<=': '__le__', '>': '__gt__',
                  '>=': '__ge__'}
        swap = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}
        if isinstance(a, ObjV):
            m = self.class_attr(a, dunder[op])
            if m is not None:
                r = self.call(m, [b], {})
                if r is not NOTIMPL:
                    return self.truth(r)
        if isinstance(b, ObjV):
            m = self.class_attr(b, dunder[swap[op]])
            if m is not None:
                r = self.call(m, [a], {})
                if r is not NOTIMPL:
                    return self.truth(r)
        if a is None or b is None:
            raise PyRaise('TypeError')
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            raise Unsupported('order of opaque values')
        raise unfit(a, b)

    def rank_order(self, op, a, b):
        if not isinstance(a, Rank) or not isinstance(b, Rank):
            raise Unsupported('rank compared with %r' % (
                b if isinstance(a, Rank) else a,))
        if a.axis != b.axis:
            raise AxisMix('%s compared with %s' % (a.axis, b.axis))
        if a.neg != b.neg:
            raise Unsupported('rank compared with a negated one')
        x, y = (-a.v, -b.v) if a.neg else (a.v, b.v)
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]

    def eq(self, a, b):
        if a is b and not isinstance(a, (Special, ObjV)):
            return True
        if isinstance(a, Rank) or isinstance(b, Rank):
            if isinstance(a, Rank) and isinstance(b, Rank):
                if a.axis != b.axis:
                    raise AxisMix('%s compared with %s' % (a.axis, b.axis))
                if a.neg != b.neg:
                    raise Unsupported('rank compared with a negated one')
                return a.v == b.v
            if isinstance(a, (Num, Special)) or isinstance(b, (Num,
                                                               Special)):
                raise Unsupported('rank compared with a number')
            return False
        na, nb = self.num_of(a), self.num_of(b)
        if na is not None and nb is not None:
            if isinstance(na, Special) or isinstance(nb, Special):
                if isinstance(na, Special) and isinstance(nb, Special):
                    return na.kind == nb.kind and na.kind != 'nan'
                return False
            return self.sign(na - nb, {0})
        if isinstance(a, ObjV):
            m = self.class_attr(a, '__eq__')
            if m is not None:
                r = self.call(m, [b], {})
                if r is not NOTIMPL:
                    return self.truth(r)
            if isinstance(b, ObjV):
                m = self.class_attr(b, '__eq__')
                if m is not None:
                    r = self.call(m, [a], {})
                    if r is not NOTIMPL:
                        return self.truth(r)
            return a is b
        if isinstance(b, ObjV):
            m = self.class_attr(b, '__eq__')
            if m is not None:
                r = self.call(m, [a], {})
                if r is not NOTIMPL:
                    return self.truth(r)
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.ident_or_eq(x, y)
                                            for x, y in zip(a, b))
        if isinstance(a, ListV) and isinstance(b, ListV):
            return (len(a.items) == len(b.items)
                    and all(self.ident_or_eq(x, y)
                            for x, y in zip(a.items, b.items)))
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            return a.cls is b.cls and a.name == b.name
        if isinstance(a, SetV) and isinstance(b, SetV):
            return set(a.d) == set(b.d)
        if isinstance(a, IdV) and isinstance(b, IdV):
            return a.obj is b.obj
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            if isinstance(a, OpaqueV) and isinstance(b, OpaqueV):
                if a.label == b.label:
                    return True
                raise Unsupported('equality of opaque values')
            return False
        return False

    def ident_or_eq(self, a, b):
        return self.identical(a, b, soft=True) or self.eq(a, b)

    def identical(self, a, b, soft=False):
        if a is b:
            return True
        if a is None or b is None:
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            return isinstance(a, bool) and isinstance(b, bool) and a == b
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            return a.cls is b.cls and a.name == b.name
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return a.cls is b.cls
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return a.name == b.name
        if isinstance(a, (Num, Rank, str)) and isinstance(b, (Num, Rank,
                                                              str)):
            if soft:
                return False
            raise Unsupported('identity of numbers')
        return False

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, Num):
            return self.sign(v, {-1, 1})
        if isinstance(v, Special):
            return True
        if isinstance(v, EnumV):
            n = self.num_of(v)
            if n is not None and any(
                    b.split('.')[-1] == 'IntEnum'
                    for b in v.cls.all_ext_bases()):
                return self.truth(n)
            return True
        if isinstance(v, (tuple, str)):
            return len(v) > 0
        if isinstance(v, ListV):
            return len(v.items) > 0
        if isinstance(v, (DictV, SetV)):
            return len(v.d) > 0
        if isinstance(v, ObjV):
            m = self.class_attr(v, '__bool__')
            if m is not None:
                return self.truth(self.call(m, [], {}))
            m = self.class_attr(v, '__len__')
            if m is not None:
                return self.truth(self.call(m, [], {}))
            return True
        if isinstance(v, Rank):
            raise Unsupported('truth of a rank')
        if v is NOTIMPL:
            return True
        if isinstance(v, OpaqueV):
            raise Unsupported('truth of an opaque value')
        return True

    # -- attributes -------------------------------------------------------
    def class_attr(self, obj, name):
        c = obj.cls
        if c is None:
            return None
        m = c.find_method(name)
        if m is not None:
            return MethodV(m, obj)
        a = c.find_attr(name)
        if a is not None:
            owner, expr = a
            v = self.eval_in_module(owner.module, expr)
            if isinstance(v, FuncV):
                return MethodV(v.func, obj)
            return v
        return None

    def getattr(self, o, name):
        if o is None:
            raise PyRaise('AttributeError')
        if isinstance(o, CIntV):
            if name == 'value':
                return o.value
            raise lacking(o, name)
        if isinstance(o, ObjV):
            if name in o.fields:
                return o.fields[name]
            if name == '__class__':
                return ClassV(o.cls)
            m = o.cls.find_method(name) if o.cls else None
            if m is not None:
                if m.kind == 'property':
                    return self.call_func(m, [o], {})
                if m.kind == 'classmethod':
                    return MethodV(m, ClassV(o.cls))
                if m.kind == 'staticmethod':
                    return FuncV(m)
                return MethodV(m, o)
            if o.cls is not None:
                a = o.cls.find_attr(name)
                if a is not None:
                    v = self.eval_in_module(a[0].module, a[1])
                    if isinstance(v, FuncV):
                        return MethodV(v.func, o)
                    return v
            if o.lazy is not None:
                v = o.lazy(self, o, name)
                if v is not MISSING:
                    o.fields[name] = v
                    return v
            if o.cls is not None and any('Sequence' in b for b in
                                         o.cls.all_ext_bases()):
                if name in ('append', 'extend', 'index', 'count', 'clear',
                            'pop', 'remove', 'reverse', 'insert',
                            '__iter__', '__contains__', '__reversed__'):
                    return BMethod(o, name)
            raise lacking(o, name)
        if isinstance(o, ClassV):
            c = o.cls
            if c.is_enum and name in c.attrs:
                return self.enum_member(c, name)
            m = c.find_method(name)
            if m is not None:
                if m.kind == 'classmethod':
                    return MethodV(m, o)
                return FuncV(m)
            a = c.find_attr(name)
            if a is not None:
                return self.eval_in_module(a[0].module, a[1])
            if name == '__name__' or name == '__qualname__':
                return c.name
            raise lacking(o, name)
        if isinstance(o, ModuleV):
            return self.global_value(o.mod, name)
        if isinstance(o, EnumV):
            if name == 'value' or name == '_value_':
                return o.value
            if name == 'name' or name == '_name_':
                return o.name
            m = o.cls.find_method(name)
            if m is not None:
                if m.kind == 'property':
                    return self.call_func(m, [o], {})
                return MethodV(m, o)
            if name in o.cls.attrs:
                return self.enum_member(o.cls, name)
            raise lacking(o, name)
        if isinstance(o, ExtV):
            return self.ext_attr(o.name, name)
        if isinstance(o, (ListV, DictV, SetV, tuple, str, IterV)):
            return BMethod(o, name)
        if isinstance(o, (MethodV, FuncV, PartialV, PyFn)):
            raise Unsupported('attribute %s of a function' % name)
        if isinstance(o, (Num, Rank, Special, bool)):
            if name in ('real',):
                return o
            raise lacking(o, name)
        raise Unsupported('attribute %s of %r' % (name, o))

    def setattr(self, o, name, v):
        if o is None:
            raise PyRaise('AttributeError')
        if isinstance(o, ObjV):
            s = o.cls.find_setter(name) if o.cls else None
            if s is not None:
                self.call_func(s, [o, v], {})
                return
            if o.cls is not None:
                m = o.cls.find_method(name)
                if m is not None and m.kind == 'property':
                    raise PyRaise('AttributeError', where=name)
                slots = o.cls.all_slots()
                if slots is not None and name not in slots \
                        and not o.cls.ext_bases and o.cls.mro()[-1] is o.cls:
                    raise PyRaise('AttributeError', where=name)
            hook = self.stubs.get('__setattr__')
            if hook is not None:
                hook(self, o, name, v)
            o.fields[name] = v
            return
        raise Unsupported('store to attribute %s of %r' % (name, o))

    def enum_member(self, c, name):
        key = (c.qual, name)
        if key not in self.genv:
            if name.startswith('_') or name not in c.attrs:
                raise PyRaise('AttributeError', where=name)
            self.genv[key] = EnumV(c, name, self.eval_in_module(
                c.module, c.attrs[name]))
        return self.genv[key]

    def enum_members(self, c):
        return [self.enum_member(c, n) for n in c.attrs
                if not n.startswith('_')]

    def ext_attr(self, base, name):
        full = base + '.' + name
        if full in ('math.inf', 'cmath.inf'):
            return INF
        if full == 'math.nan':
            return NAN
        return ExtV(full)

    # -- globals ----------------------------------------------------------
    def eval_in_module(self, m, expr):
        f = Frame(None, m)
        self.frames.append(f)
        try:
            return self.eval(expr, f)
        finally:
            self.frames.pop()

    def global_value(self, m, name):
        r = self.p.resolve_name(m, name)
        if r is None:
            if hasattr(builtins, name):
                return self.builtin_const(name)
            raise PyRaise('NameError', where=name)
        return self.wrap_global(r)

    def wrap_global(self, r):
        if isinstance(r, Func):
            return FuncV(r)
        if isinstance(r, Class):
            return ClassV(r)
        if isinstance(r, Module):
            return ModuleV(r)
        if r[0] == 'ext':
            if r[1] == 'math.inf':
                return INF
            if r[1] == 'math.nan':
                return NAN
            return ExtV(r[1])
        if r[0] == 'expr':
            key = ('g', id(r[2]))
            if key not in self.genv:
                self.genv[key] = self.eval_in_module(r[1], r[2])
            return self.genv[key]
        if r[0] == 'item':
            key = ('g', id(r[2]))
            if key not in self.genv:
                self.genv[key] = self.eval_in_module(r[1], r[2])
            return self.iterate(self.genv[key])[r[3]]
        raise Unsupported('global %r' % (r,))

    def builtin_const(self, name):
        if name == 'NotImplemented':
            return NOTIMPL
        if name in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[name]
        return ExtV('builtins.' + name)

    # -- calls ------------------------------------------------------------
    def call(self, f, args, kwargs):
        if isinstance(f, MethodV):
            return self.call_func(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f.func, list(args), kwargs, f.closure)
        if isinstance(f, PyFn):
            return f.fn(self, *args, **kwargs)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.fn, list(f.args) + list(args), kw)
        if isinstance(f, ClassV):
            return self.construct(f.cls, args, kwargs)
        if isinstance(f, ExtV):
            return self.call_ext(f.name, args, kwargs)
        if isinstance(f, BMethod):
            return self.call_bmethod(f.obj, f.name, args, kwargs)
        if isinstance(f, ObjV):
            m = self.class_attr(f, '__call__')
            if m is not None:
                return self.call(m, args, kwargs)
            raise unfit(f)
        if f is None or isinstance(f, (Num, bool, tuple, ListV)):
            raise PyRaise('TypeError')
        raise Unsupported('call of %r' % (f,))

    def construct(self, cls, args, kwargs):
        if cls.is_enum:
            if len(args) == 1:
                v = args[0]
                for m in self.enum_members(cls):
                    if m is v or (self.num_of(v) is not None
                                  and self.eq(m.value, v)):
                        return m
                raise PyRaise('ValueError')
            raise Unsupported('enum construction')
        stub = self.stubs.get(cls.qual)
        if stub is not None:
            return stub(self, args, kwargs)
        new = cls.find_method('__new__')
        if new is not None:
            raise Unsupported('__new__')
        if any(b.split('.')[-1] in ('Exception', 'RuntimeError',
                                    'ValueError') for b in
               cls.all_ext_bases()):
            return ObjV(cls)
        o = ObjV(cls)
        init = cls.find_method('__init__')
        if init is not None:
            self.call_func(init, [o] + list(args), kwargs)
        elif args or kwargs:
            raise Unsupported('constructor of %s' % cls.name)
        return o

    def bind(self, func, args, kwargs, closure=None):
        a = func.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        pos = list(args)
        if len(pos) > len(names):
            if a.vararg is None:
                raise PyRaise('TypeError', where='too many arguments for '
                              + func.name)
            out[a.vararg.arg] = tuple(pos[len(names):])
            pos = pos[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(names, pos):
            out[n] = v
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in out:
                    raise PyRaise('TypeError')
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise('TypeError', where='keyword %s of %s'
                              % (k, func.name))
        if a.kwarg is not None:
            d = DictV()
            for k, v in extra.items():
                d.d[hkey(k)] = (k, v)
            out[a.kwarg.arg] = d
        defaults = a.defaults
        for n, dv in zip(names[len(names) - len(defaults):], defaults):
            if n not in out:
                out[n] = self.default_value(func, dv, closure)
        for n, dv in zip(kwonly, a.kw_defaults):
            if n not in out:
                if dv is None:
                    raise PyRaise('TypeError')
                out[n] = self.default_value(func, dv, closure)
        for n in names:
            if n not in out:
                raise PyRaise('TypeError', where='missing %s of %s'
                              % (n, func.name))
        return out

    def default_value(self, func, expr, closure):
        key = ('default', id(expr))
        if key not in self.genv:
            if closure is not None:
                self.genv[key] = self.eval(expr, closure)
            else:
                self.genv[key] = self.eval_in_module(func.module, expr)
        return self.genv[key]

    def call_func(self, func, args, kwargs, closure=None):
        bound = self.bind(func, args, kwargs, closure)
        if self.on_call is not None:
            self.on_call(func, bound)
        stub = self.stubs.get(func.qual) if closure is None else None
        if stub is None and func.cls is not None:
            stub = self.stubs.get(func.short)
        elif stub is None and closure is None:
            stub = self.stubs.get(func.name)
        if stub is not None:
            names = func.params
            got = stub(self, [bound[n] for n in names if n in bound], bound)
            if got is not REAL:
                return got
        for d in getattr(func.node, 'decorator_list', []):
            dn = ast.unparse(d)
            if func.kind in ('property', 'setter', 'classmethod',
                             'staticmethod') or dn in (
                    'unique', 'enum.unique', 'abstractmethod'):
                continue
            raise Unsupported('decorator %s' % dn)
        self.calls.add(func.qual)
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise PyRaise('RecursionError', where=func.name)
        fr = Frame(func, func.module, closure)
        fr.vars.update(bound)
        self.frames.append(fr)
        try:
            if isinstance(func.node, ast.Lambda):
                return self.eval(func.node.body, fr)
            if func.is_gen and simple_yields(func.node):
                return LazyGen.of(self.grun(func.node.body, fr))
            try:
                self.exec_body(func.node.body, fr)
                res = None
            except _Return as r:
                res = r.value
            if func.is_gen:
                return IterV(fr.yields)
            return res
        finally:
            self.frames.pop()
            self.depth -= 1

    # -- generator functions ----------------------------------------------
    def grun(self, body, fr):
        try:
            for v in self.gexec(body, fr):
                yield v
        except _Return:
            return

    def gexec(self, body, fr):
        for st in body:
            self.fuel -= 1
            if self.fuel <= 0:
                raise Unsupported('out of fuel')
            if not has_yield(st):
                self.exec(st, fr)
            elif isinstance(st, ast.Expr):
                e = st.value
                if isinstance(e, ast.Yield):
                    yield None if e.value is None else self.eval(e.value, fr)
                else:
                    for v in self.iterate(self.eval(e.value, fr)):
                        yield v
            elif isinstance(st, ast.If):
                for v in self.gexec(st.body if self.truth(
                        self.eval(st.test, fr)) else st.orelse, fr):
                    yield v
            elif isinstance(st, ast.While):
                n = 0
                broken = False
                while self.truth(self.eval(st.test, fr)):
                    n += 1
                    if n > 500:
                        raise LoopLimit('%s:%d' % (fr.module.relpath,
                                                   st.lineno))
                    try:
                        for v in self.gexec(st.body, fr):
                            yield v
                    except _Break:
                        broken = True
                        break
                    except _Continue:
                        continue
                if not broken:
                    for v in self.gexec(st.orelse, fr):
                        yield v
            elif isinstance(st, ast.For):
                broken = False
                for x in self.iterate(self.eval(st.iter, fr)):
                    self.assign(st.target, x, fr)
                    try:
                        for v in self.gexec(st.body, fr):
                            yield v
                    except _Break:
                        broken = True
                        break
                    except _Continue:
                        continue
                if not broken:
                    for v in self.gexec(st.orelse, fr):
                        yield v
            else:
                raise Unsupported('yield in %s' % type(st).__name__)

    # -- iteration --------------------------------------------------------
    def iterate(self, v):
        """The elements of an iterable as a python list."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListV):
            return LiveIter(v)
        if isinstance(v, IterV):
            out = v.items[v.pos:]
            v.pos = len(v.items)
            return out
        if isinstance(v, SetV):
            return list(v.d.values())
        if isinstance(v, DictV):
            return [k for k, _ in v.d.values()]
        if isinstance(v, ObjV):
            m = self.class_attr(v, '__iter__')
            if m is not None:
                return self.iterate(self.call(m, [], {}))
            g = self.class_attr(v, '__getitem__')
            if g is not None:
                ln = self.class_attr(v, '__len__')
                if ln is not None:
                    n = self.const_int(self.call(ln, [], {}))
                    return [self.call(g, [Num.const(i)], {})
                            for i in range(n)]
            raise unfit(v)
        if isinstance(v, ClassV) and v.cls.is_enum:
            return self.enum_members(v.cls)
        if isinstance(v, str):
            return list(v)
        if v is None or isinstance(v, (Num, bool, EnumV)):
            raise PyRaise('TypeError')
        raise Unsupported('iteration over %r' % (v,))

    def const_int(self, v):
        v = self.num_of(v)
        if isinstance(v, Num) and v.is_const and v.value.denominator == 1:
            return int(v.value)
        if isinstance(v, Num) and not v.is_const:
            raise Unsupported('symbolic index %r' % (v,))
        raise unfit(v)

    # -- statements -------------------------------------------------------
    def exec_body(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        self.fuel -= 1
        if self.fuel <= 0:
            raise Unsupported('out of fuel')
        fr.line = st.lineno
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        m(st, fr)

    def st_Pass(self, st, fr):
        pass

    def st_Expr(self, st, fr):
        self.eval(st.value, fr)

    def st_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def st_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr)
            v = self.inplace(st.op, cur, self.eval(st.value, fr))
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.inplace(st.op, cur, self.eval(st.value, fr))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_slice(t.slice, fr)
            cur = self.getitem(o, k)
            v = self.inplace(st.op, cur, self.eval(st.value, fr))
            self.setitem(o, k, v)
        else:
            raise Unsupported('augmented target')

    def inplace(self, op, a, b):
        if isinstance(a, ListV) and isinstance(op, ast.Add):
            a.items.extend(list(self.iterate(b)))
            return a
        if isinstance(a, SetV) and isinstance(op, ast.BitOr):
            a.d.update(b.d)
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr),
                         self.eval_slice(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < i + after:
                    raise PyRaise('ValueError')
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value,
                            ListV(items[i:len(items) - after]), fr)
                if after:
                    for e, x in zip(t.elts[i + 1:], items[-after:]):
                        self.assign(e, x, fr)
            else:
                if len(items) != len(t.elts):
                    raise PyRaise('ValueError')
                for e, x in zip(t.elts, items):
                    self.assign(e, x, fr)
        else:
            raise Unsupported('target %s' % type(t).__name__)

    def store_name(self, name, v, fr):
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.vars:
                    f.vars[name] = v
                    return
                f = f.parent
            raise Unsupported('global store %s' % name)
        fr.vars[name] = v

    def load_name(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        if fr.func is not None and is_local(fr.func, name):
            raise PyRaise('UnboundLocalError', where=name)
        return self.global_value(fr.module, name)

    def st_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            self.exec_body(st.body, fr)
        else:
            self.exec_body(st.orelse, fr)

    def st_While(self, st, fr):
        n = 0
        while self.truth(self.eval(st.test, fr)):
            n += 1
            if n > 500:
                raise LoopLimit('%s:%d' % (fr.module.relpath, st.lineno))
            try:
                self.exec_body(st.body, fr)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_body(st.orelse, fr)

    def st_For(self, st, fr):
        it = self.iterate(self.eval(st.iter, fr))
        for v in it:
            self.fuel -= 1
            if self.fuel <= 0:
                raise Unsupported('out of fuel')
            self.assign(st.target, v, fr)
            try:
                self.exec_body(st.body, fr)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_body(st.orelse, fr)

    def st_Break(self, st, fr):
        raise _Break()

    def st_Continue(self, st, fr):
        raise _Continue()

    def st_Return(self, st, fr):
        raise _Return(None if st.value is None
                      else self.eval(st.value, fr))

    def st_Raise(self, st, fr):
        if st.exc is None:
            raise PyRaise('reraise')
        v = self.eval(st.exc, fr)
        where = '%s:%d' % (fr.module.relpath, st.lineno)
        if isinstance(v, ExtV):
            raise PyRaise(v.name.split('.')[-1], where=where)
        if isinstance(v, OpaqueV) and v.label.startswith('exc:'):
            raise PyRaise(v.label[4:], where=where)
        if isinstance(v, ClassV):
            raise PyRaise(v.cls.name, where=where)
        if isinstance(v, ObjV):
            raise PyRaise(v.cls.name, v, where=where)
        raise Unsupported('raise %r' % (v,))

    def exc_matches(self, name, h):
        """Whether exception class named matches handler value."""
        if isinstance(h, tuple):
            return any(self.exc_matches(name, x) for x in h)
        if isinstance(h, ExtV):
            hn = h.name.split('.')[-1]
            hc = getattr(builtins, hn, None)
            ec = getattr(builtins, name, None)
            if isinstance(hc, type) and isinstance(ec, type):
                return issubclass(ec, hc)
            c = self.p.cls(name)
            if c is not None and isinstance(hc, type):
                for b in c.all_ext_bases():
                    bc = getattr(builtins, b.split('.')[-1], None)
                    if isinstance(bc, type) and issubclass(bc, hc):
                        return True
            return False
        if isinstance(h, ClassV):
            c = self.p.cls(name)
            return c is not None and h.cls in c.mro()
        return False

    def st_Try(self, st, fr):
        try:
            try:
                self.exec_body(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(
                            e.name, self.eval(h.type, fr)):
                        if h.name:
                            fr.vars[h.name] = OpaqueV('exc:' + e.name)
                        try:
                            self.exec_body(h.body, fr)
                        except PyRaise as e2:
                            if e2.name == 'reraise':
                                raise e
                            raise
                        break
                else:
                    raise
            else:
                self.exec_body(st.orelse, fr)
        finally:
            if st.finalbody:
                self.exec_body(st.finalbody, fr)

    def st_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            raise PyRaise('AssertionError')

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr),
                             self.eval_slice(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, ObjV):
                    o.fields.pop(t.attr, None)
                else:
                    raise Unsupported('del attribute')
            else:
                raise Unsupported('del target')

    def st_FunctionDef(self, st, fr):
        f = Func(st, fr.module, None, 'nested')
        fr.vars[st.name] = FuncV(f, fr)
        if st.decorator_list:
            raise Unsupported('decorated nested function')

    def st_Import(self, st, fr):
        for name, t in self.p._import_targets(fr.module, st):
            fr.vars[name] = self.import_value(t)

    def st_ImportFrom(self, st, fr):
        for name, t in self.p._import_targets(fr.module, st):
            fr.vars[name] = self.import_value(t)

    def import_value(self, t):
        _, mod, attr = t
        if mod in self.p.modules:
            m = self.p.modules[mod]
            if attr is None:
                return ModuleV(m)
            r = self.p.resolve_name(m, attr)
            if r is None and mod + '.' + attr in self.p.modules:
                return ModuleV(self.p.modules[mod + '.' + attr])
            if r is None:
                raise PyRaise('ImportError', where=attr)
            return self.wrap_global(r)
        full = mod if attr is None else mod + '.' + attr
        if full == 'math.inf':
            return INF
        if full == 'math.nan':
            return NAN
        return ExtV(full)

    def st_Global(self, st, fr):
        raise Unsupported('global statement')

    def st_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)

    def st_Match(self, st, fr):
        v = self.eval(st.subject, fr)
        for case in st.cases:
            if self.match(case.pattern, v, fr) and (
                    case.guard is None
                    or self.truth(self.eval(case.guard, fr))):
                self.exec_body(case.body, fr)
                return

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.eval(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.identical(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                fr.vars[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v, fr) for x in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, ListV)):
                return False
            items = list(self.iterate(v))
            if any(isinstance(x, ast.MatchStar) for x in p.patterns):
                raise Unsupported('star pattern')
            return (len(items) == len(p.patterns)
                    and all(self.match(x, y, fr)
                            for x, y in zip(p.patterns, items)))
        raise Unsupported('pattern %s' % type(p).__name__)

    # -- expressions ------------------------------------------------------
    def eval(self, e, fr):
        self.fuel -= 1
        if self.fuel <= 0:
            raise Unsupported('out of fuel')
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def ex_Constant(self, e, fr):
        v = e.value
        if v is None or isinstance(v, (bool, str)):
            return v
        if isinstance(v, int):
            return Num.const(v)
        if isinstance(v, float):
            if v != v:
                return NAN
            if v in (float('inf'), float('-inf')):
                return INF if v > 0 else NINF
            return Num.const(Fraction(v))
        if v is Ellipsis:
            return OpaqueV('...')
        if isinstance(v, bytes):
            return OpaqueV('bytes')
        raise Unsupported('constant %r' % (v,))

    def ex_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def ex_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.store_name(e.target.id, v, fr)
        return v

    def ex_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def ex_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def ex_List(self, e, fr):
        return ListV(self.elts(e.elts, fr))

    def ex_Set(self, e, fr):
        return SetV(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def ex_Dict(self, e, fr):
        d = DictV()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, fr)
                if not isinstance(o, DictV):
                    raise Unsupported('** of non dict')
                d.d.update(o.d)
            else:
                kv = self.eval(k, fr)
                d.d[hkey(kv)] = (kv, self.eval(v, fr))
        return d

    def ex_JoinedStr(self, e, fr):
        return OpaqueV('fstring')

    def ex_IfExp(self, e, fr):
        return (self.eval(e.body, fr)
                if self.truth(self.eval(e.test, fr))
                else self.eval(e.orelse, fr))

    def ex_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) is not is_and:
                return v
        return v

    def ex_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Rank):
                return Rank(v.axis, v.v, not v.neg)
            n = self.num_of(v)
            if isinstance(n, Special):
                return {'inf': NINF, '-inf': INF, 'nan': NAN}[n.kind]
            if n is None:
                raise unfit(v)
            return -n
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            n = self.num_of(v)
            if isinstance(n, Num):
                return -n - Num.const(1)
        raise Unsupported('unary operator')

    def ex_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            names = {ast.BitAnd: '__and__', ast.Add: '__add__',
                     ast.Sub: '__sub__', ast.Mult: '__mul__',
                     ast.BitOr: '__or__', ast.BitXor: '__xor__',
                     ast.Div: '__truediv__'}
            nm = names.get(type(op))
            if isinstance(a, ObjV) and nm:
                m = self.class_attr(a, nm)
                if m is not None:
                    r = self.call(m, [b], {})
                    if r is not NOTIMPL:
                        return r
            if isinstance(b, ObjV) and nm:
                m = self.class_attr(b, '__r' + nm[2:])
                if m is not None:
                    return self.call(m, [a], {})
            raise unfit(a, b)
        if isinstance(a, Rank) or isinstance(b, Rank):
            raise Unsupported('arithmetic on ranks')
        na, nb = self.num_of(a), self.num_of(b)
        if na is not None and nb is not None:
            if isinstance(a, bool) and isinstance(b, bool):
                if isinstance(op, ast.BitXor):
                    return a != b
                if isinstance(op, ast.BitAnd):
                    return a and b
                if isinstance(op, ast.BitOr):
                    return a or b
            return self.arith(op, na, nb)
        if isinstance(op, ast.Add):
            if isinstance(a, ListV) and isinstance(b, ListV):
                return ListV(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (str, OpaqueV)) and isinstance(b, (str,
                                                                OpaqueV)):
                return OpaqueV('str')
        if isinstance(op, ast.Mult):
            seq, k = (a, nb) if nb is not None else (b, na)
            if isinstance(seq, ListV) and k is not None:
                return ListV(seq.items * self.const_int(k))
            if isinstance(seq, tuple) and k is not None:
                return seq * self.const_int(k)
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return OpaqueV('str')
        if isinstance(a, SetV) and isinstance(b, SetV):
            out = SetV()
            if isinstance(op, ast.BitOr):
                out.d.update(a.d)
                out.d.update(b.d)
            elif isinstance(op, ast.BitAnd):
                out.d = {k: v for k, v in a.d.items() if k in b.d}
            elif isinstance(op, ast.Sub):
                out.d = {k: v for k, v in a.d.items() if k not in b.d}
            else:
                raise Unsupported('set operator')
            return out
        if a is None or b is None:
            raise PyRaise('TypeError')
        raise Unsupported('operator %s on %r, %r'
                          % (type(op).__name__, a, b))

    def arith(self, op, a, b):
        if isinstance(a, Special) or isinstance(b, Special):
            return self.special_arith(op, a, b)
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            if self.sign(b, {0}):
                raise PyRaise('ZeroDivisionError')
            return a.div(b)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if a.is_const and b.is_const:
                if b.value == 0:
                    raise PyRaise('ZeroDivisionError')
                q = a.value // b.value
                return (Num.const(q) if isinstance(op, ast.FloorDiv)
                        else Num.const(a.value - q * b.value))
            if isinstance(op, ast.Mod) and b.is_const and b.value == 2:
                c = self.choose_parity(a)
                return Num.const(c)
            raise Unsupported('symbolic integer division')
        if isinstance(op, ast.Pow):
            if b.is_const and b.value.denominator == 1:
                k = int(b.value)
                if a.is_const and k >= 0:
                    return Num.const(a.value ** k)
                if 0 <= k <= 4:
                    r = Num.const(1)
                    for _ in range(k):
                        r = r * a
                    return r
            raise Unsupported('power')
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift,
                           ast.RShift)):
            if a.is_const and b.is_const:
                x, y = int(a.value), int(b.value)
                return Num.const({ast.BitAnd: lambda: x & y,
                                  ast.BitOr: lambda: x | y,
                                  ast.BitXor: lambda: x ^ y,
                                  ast.LShift: lambda: x << y,
                                  ast.RShift: lambda: x >> y}[type(op)]())
            if isinstance(op, ast.BitAnd) and b.is_const and b.value == 1:
                return Num.const(self.choose_parity(a))
        raise Unsupported('arithmetic operator')

    def choose_parity(self, a):
        key = ('par', a.key)
        if key not in self.signs:
            self.signs[key] = self.choose(2, 'parity of %r' % (a,))
        return self.signs[key]

    def special_arith(self, op, a, b):
        if (isinstance(a, Special) and a.kind == 'nan'
                or isinstance(b, Special) and b.kind == 'nan'):
            return NAN
        if isinstance(op, (ast.Add, ast.Sub)):
            if isinstance(op, ast.Sub):
                b = (-b if isinstance(b, Num)
                     else {'inf': NINF, '-inf': INF}[b.kind])
            if isinstance(a, Special) and isinstance(b, Special):
                return a if a.kind == b.kind else NAN
            return a if isinstance(a, Special) else b
        if isinstance(op, ast.Mult):
            sa = self.sign(a)
            sb = self.sign(b)
            s = sa * sb
            return NAN if s == 0 else (INF if s > 0 else NINF)
        if isinstance(op, ast.Div):
            if isinstance(b, Special):
                return (NAN if isinstance(a, Special) else Num.const(0))
            s = self.sign(b)
            if s == 0:
                raise PyRaise('ZeroDivisionError')
            return a if s > 0 else {'inf': NINF, '-inf': INF}[a.kind]
        raise Unsupported('arithmetic on infinity')

    def ex_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            res = self.compare(op, left, right)
            if not res:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            return not self.identical(a, b)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return not self.eq(a, b)
        if isinstance(op, ast.Lt):
            return self.order('<', a, b)
        if isinstance(op, ast.LtE):
            return self.order('<=', a, b)
        if isinstance(op, ast.Gt):
            return self.order('>', a, b)
        if isinstance(op, ast.GtE):
            return self.order('>=', a, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else not r
        raise Unsupported('comparison')

    def contains(self, c, v):
        if isinstance(c, (SetV, DictV)):
            return hkey(v) in c.d
        if isinstance(c, ObjV):
            m = self.class_attr(c, '__contains__')
            if m is not None:
                return self.truth(self.call(m, [v], {}))
        return any(self.ident_or_eq(x, v) for x in self.iterate(c))

    def ex_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            raise Unsupported('super')
        f = self.eval(e.func, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.iterate(self.eval(x.value, fr)))
            else:
                args.append(self.eval(x, fr))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if not isinstance(v, DictV):
                    raise Unsupported('** of non dict')
                for kk, vv in v.d.values():
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = v
        fr.line = e.lineno
        return self.call(f, args, kwargs)

    def ex_Lambda(self, e, fr):
        return FuncV(Func(e, fr.module, None, 'nested'), fr)

    def ex_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.eval_slice(e.slice, fr))

    def eval_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return ('slice',) + tuple(
                None if x is None else self.eval(x, fr)
                for x in (s.lower, s.upper, s.step))
        return self.eval(s, fr)

    def is_slice(self, k):
        return isinstance(k, tuple) and len(k) == 4 and k[0] == 'slice'

    def pyslice(self, k):
        return slice(*[None if x is None else self.const_int(x)
                       for x in k[1:]])

    def getitem(self, o, k):
        if isinstance(o, ListV):
            if self.is_slice(k):
                return ListV(o.items[self.pyslice(k)])
            i = self.const_int(k)
            if not -len(o.items) <= i < len(o.items):
                raise PyRaise('IndexError')
            return o.items[i]
        if isinstance(o, tuple):
            if self.is_slice(k):
                return o[self.pyslice(k)]
            i = self.const_int(k)
            if not -len(o) <= i < len(o):
                raise PyRaise('IndexError')
            return o[i]
        if isinstance(o, DictV):
            h = hkey(k)
            if h not in o.d:
                if o.default is not None:
                    o.d[h] = (k, self.call(o.default, [], {}))
                else:
                    raise PyRaise('KeyError')
            return o.d[h][1]
        if isinstance(o, ObjV):
            m = self.class_attr(o, '__getitem__')
            if m is not None:
                return self.call(m, [k], {})
            raise unfit(o)
        if isinstance(o, ClassV) and o.cls.is_enum and isinstance(k, str):
            return self.enum_member(o.cls, k)
        if isinstance(o, ExtV):
            return o     # typing subscripts
        if o is None:
            raise PyRaise('TypeError')
        raise Unsupported('subscript of %r' % (o,))

    def setitem(self, o, k, v):
        if isinstance(o, ListV):
            if self.is_slice(k):
                o.items[self.pyslice(k)] = list(self.iterate(v))
                return
            i = self.const_int(k)
            if not -len(o.items) <= i < len(o.items):
                raise PyRaise('IndexError')
            o.items[i] = v
            return
        if isinstance(o, DictV):
            o.d[hkey(k)] = (k, v)
            return
        if isinstance(o, ObjV):
            m = self.class_attr(o, '__setitem__')
            if m is not None:
                self.call(m, [k, v], {})
                return
        if o is None or isinstance(o, tuple):
            raise PyRaise('TypeError')
        raise Unsupported('item store to %r' % (o,))

    def delitem(self, o, k):
        if isinstance(o, ListV):
            if self.is_slice(k):
                del o.items[self.pyslice(k)]
                return
            i = self.const_int(k)
            if not -len(o.items) <= i < len(o.items):
                raise PyRaise('IndexError')
            del o.items[i]
            return
        if isinstance(o, DictV):
            if hkey(k) not in o.d:
                raise PyRaise('KeyError')
            del o.d[hkey(k)]
            return
        if isinstance(o, ObjV):
            m = self.class_attr(o, '__delitem__')
            if m is not None:
                self.call(m, [k], {})
                return
        raise Unsupported('item deletion')

    def comp(self, e, fr, emit):
        f = Frame(None, fr.module, fr)

        def rec(i):
            if i == len(e.generators):
                emit(f)
                return
            g = e.generators[i]
            for v in self.iterate(self.eval(g.iter, f)):
                self.assign(g.target, v, f)
                if all(self.truth(self.eval(c, f)) for c in g.ifs):
                    rec(i + 1)

        rec(0)

    def ex_ListComp(self, e, fr):
        out = []
        self.comp(e, fr, lambda f: out.append(self.eval(e.elt, f)))
        return ListV(out)

    def ex_GeneratorExp(self, e, fr):
        # lazily: only as many elements as consumers ask for matter; the
        # effects of the elements are pure in this code base
        return LazyGen.make(self, e, fr)

    def ex_SetComp(self, e, fr):
        out = []
        self.comp(e, fr, lambda f: out.append(self.eval(e.elt, f)))
        return SetV(out)

    def ex_DictComp(self, e, fr):
        d = DictV()

        def emit(f):
            k = self.eval(e.key, f)
            d.d[hkey(k)] = (k, self.eval(e.value, f))

        self.comp(e, fr, emit)
        return d

    def ex_Starred(self, e, fr):
        raise Unsupported('starred')

    def gen_frame(self, fr):
        f = fr
        while f is not None and (f.func is None or not f.func.is_gen):
            f = f.parent
        return f if f is not None else fr

    def ex_Yield(self, e, fr):
        self.gen_frame(fr).yields.append(
            None if e.value is None else self.eval(e.value, fr))
        return None

    def ex_YieldFrom(self, e, fr):
        self.gen_frame(fr).yields.extend(
            self.iterate(self.eval(e.value, fr)))
        return None

    # -- builtins ---------------------------------------------------------
    def call_ext(self, name, args, kwargs):
        stub = self.ext_stubs.get(name)
        if stub is not None:
            return stub(self, args, kwargs)
        from . import absbuiltins
        return absbuiltins.call(self, name, args, kwargs)

    def call_bmethod(self, o, name, args, kwargs):
        from . import absbuiltins
        return absbuiltins.method(self, o, name, args, kwargs)


class Infeasible(Exception):
    pass


class LoopLimit(Exception):
    pass


MISSING = object()


class LazyGen(IterV):
    """Generator expressions are evaluated on construction except that a
    consumer of the first element (next, any, all) must not evaluate more: a
    python generator does the work on demand."""
    __slots__ = ('gen', 'done')

    @staticmethod
    def of(gen):
        g = LazyGen([])
        g.gen = gen
        g.done = False
        return g

    @staticmethod
    def make(interp, e, fr):
        g = LazyGen([])
        f = Frame(None, fr.module, fr)
        first = interp.iterate(interp.eval(e.generators[0].iter, fr))

        def rec(i):
            if i == len(e.generators):
                yield interp.eval(e.elt, f)
                return
            gen = e.generators[i]
            it = (first if i == 0
                  else interp.iterate(interp.eval(gen.iter, f)))
            for v in it:
                interp.assign(gen.target, v, f)
                if all(interp.truth(interp.eval(c, f)) for c in gen.ifs):
                    for x in rec(i + 1):
                        yield x

        g.gen = rec(0)
        g.done = False
        return g


class LiveIter:
    """Iteration over a list that may change meanwhile, as Python does."""

    def __init__(self, lst):
        self.lst = lst

    def __iter__(self):
        i = 0
        while i < len(self.lst.items):
            yield self.lst.items[i]
            i += 1
            if i > 3000:
                raise LoopLimit('iteration over a growing list')

    def __getitem__(self, i):
        return self.lst.items[i]

    def __len__(self):
        return len(self.lst.items)


_orig_iterate = Interp.iterate


def _iterate(self, v):
    if isinstance(v, LazyGen):
        return v.gen
    return _orig_iterate(self, v)


Interp.iterate = _iterate


def imul(alo, ahi, blo, bhi):
    """Product of intervals with None as unbounded."""
    def mul(x, xs, y, ys):
        # x may be None = infinite of sign xs
        if x is not None and x == 0 or y is not None and y == 0:
            return Fraction(0)
        if x is None or y is None:
            sx = xs if x is None else (1 if x > 0 else -1)
            sy = ys if y is None else (1 if y > 0 else -1)
            return 'inf' if sx * sy > 0 else '-inf'
        return x * y

    cands = [mul(x, xs, y, ys)
             for x, xs in ((alo, -1), (ahi, 1))
             for y, ys in ((blo, -1), (bhi, 1))]
    lo = None if '-inf' in cands else min(
        (c for c in cands if c != 'inf'), default=None)
    hi = None if 'inf' in cands else max(
        (c for c in cands if c != '-inf'), default=None)
    return lo, hi


def _floor(x):
    return Fraction(x.numerator // x.denominator)


def _ceil(x):
    return Fraction(-((-x.numerator) // x.denominator))


def special_order(op, a, b):
    def f(x):
        if isinstance(x, Special):
            return {'inf': float('inf'), '-inf': float('-inf'),
                    'nan': float('nan')}[x.kind]
        return 0.0

    x, y = f(a), f(b)
    return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]


def has_yield(st):
    stack = [st]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not st:
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


_simple = {}


def simple_yields(node):
    """Every yield is a statement of its own below plain control flow."""
    if id(node) in _simple:
        return _simple[id(node)][1]

    def ok(body):
        for st in body:
            if not has_yield(st):
                continue
            if isinstance(st, ast.Expr):
                if not isinstance(st.value, (ast.Yield, ast.YieldFrom)) or (
                        st.value.value is not None
                        and has_yield(st.value.value)):
                    return False
            elif isinstance(st, (ast.If, ast.While)):
                if has_yield(st.test) or not ok(st.body) or not ok(st.orelse):
                    return False
            elif isinstance(st, ast.For):
                if has_yield(st.iter) or not ok(st.body) or not ok(st.orelse):
                    return False
            else:
                return False
        return True

    _simple[id(node)] = (node, ok(node.body))
    return _simple[id(node)][1]


_locals_cache = {}


def is_local(func, name):
    key = id(func.node)
    if key not in _locals_cache:
        names = set()
        if not isinstance(func.node, ast.Lambda):
            for n in ast.walk(func.node):
                if isinstance(n, ast.Name) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
        _locals_cache[key] = (func.node, names)
    return name in _locals_cache[key][1]


class Outcome:
    __slots__ = ('kind', 'value', 'interp', 'where')

    def __init__(self, kind, value, interp, where=None):
        self.kind, self.value, self.interp = kind, value, interp
        self.where = where

    def __repr__(self):
        return '%s %r' % (self.kind, self.value)


def explore(program, run, stubs=None, max_paths=20000, fuel=FUEL,
            ext_stubs=None, max_choices=400):
    """Runs ``run(interp)`` along every choice sequence.

    Yields Outcome objects: 'return', 'raise' (value is the exception name),
    'unsupported', 'loop', 'axis'.
    """
    stack = [[]]
    paths = 0
    while stack:
        prefix = stack.pop()
        paths += 1
        if paths > max_paths:
            yield Outcome('unsupported', 'too many paths', None)
            return
        it = Interp(program, stubs, prefix, fuel, max_choices, ext_stubs)
        infeasible = False
        out = None
        try:
            v = run(it)
            out = Outcome('return', v, it)
        except PyRaise as e:
            out = Outcome('raise', e.name, it, e.where)
        except Unsupported as e:
            out = Outcome('unsupported', str(e), it)
        except RecursionError:
            out = Outcome('unsupported', 'analysis recursion', it)
        except LoopLimit as e:
            out = Outcome('loop', str(e), it)
        except AxisMix as e:
            out = Outcome('axis', str(e), it)
        except Infeasible:
            infeasible = True
        for i in range(len(prefix), len(it.taken)):
            c, n = it.taken[i]
            for alt in range(1, n):
                stack.append([x for x, _ in it.taken[:i]] + [alt])
        if not infeasible:
            yield out
