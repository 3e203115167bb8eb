"""Builtins and library functions in the abstract domain."""
import ast
import builtins as pyb
from fractions import Fraction

from .absint import (NOTIMPL, BMethod, ClassV, DictV, EnumV, ExtV, FuncV, IdV,
                     IterV, LazyGen, ListV, LiveIter, MethodV, ObjV, OpaqueV,
                     PartialV, PyFn, PyRaise, SetV, Unsupported, hkey, lacking,
                     unfit)
from .num import INF, NAN, NINF, Num, Rank, Special

MISSING = object()


class LiveIterV(IterV):
    """An iterator over a live python iterator."""
    __slots__ = ('gen',)


def lazy(gen):
    return LazyGen.of(gen)


def as_gen(it, v):
    """A python iterator over the elements of an abstract iterable."""
    if isinstance(v, LazyGen):
        return v.gen
    if isinstance(v, IterV):
        def g():
            while v.pos < len(v.items):
                v.pos += 1
                yield v.items[v.pos - 1]
        return g()
    return iter(it.iterate(v))


def num(n):
    return Num.const(n)


def sort_items(it, items, key=None, reverse=False):
    """Stable binary-free insertion sort (only ``<`` is asked for)."""
    keyed = [(it.call(key, [x], {}) if key is not None else x, x)
             for x in items]
    if reverse:
        keyed.reverse()
    out = []
    for k, x in keyed:
        i = len(out)
        while i > 0 and it.order('<', k, out[i - 1][0]):
            i -= 1
        out.insert(i, (k, x))
    if reverse:
        out.reverse()
    return [x for _, x in out]


def length(it, v):
    if isinstance(v, (tuple, str)):
        return num(len(v))
    if isinstance(v, ListV):
        return num(len(v.items))
    if isinstance(v, (DictV, SetV)):
        return num(len(v.d))
    if isinstance(v, ObjV):
        m = it.class_attr(v, '__len__')
        if m is not None:
            return it.call(m, [], {})
    if isinstance(v, OpaqueV):
        raise Unsupported('length of an opaque value')
    raise unfit(v)


def extreme(it, args, kwargs, op):
    key = kwargs.get('key')
    if len(args) == 1:
        items = list(as_gen(it, args[0]))
        if not items:
            if 'default' in kwargs:
                return kwargs['default']
            raise PyRaise('ValueError')
    else:
        items = list(args)
    best = items[0]
    bk = it.call(key, [best], {}) if key is not None else best
    for x in items[1:]:
        k = it.call(key, [x], {}) if key is not None else x
        if it.order(op, k, bk):
            best, bk = x, k
    return best


def absolute(it, v):
    if isinstance(v, Rank):
        raise Unsupported('absolute value of a rank')
    n = it.num_of(v)
    if isinstance(n, Special):
        return NAN if n.kind == 'nan' else INF
    if n is None:
        if isinstance(v, ObjV):
            m = it.class_attr(v, '__abs__')
            if m is not None:
                return it.call(m, [], {})
        raise unfit(v)
    return -n if it.sign(n, {-1}) else n


def opaque_num(it, name, n, integer=True):
    """A named unknown, the same one for the same argument."""
    if isinstance(n, Special):
        if name in ('float',):
            return n
        raise PyRaise('OverflowError')
    if n.is_const:
        return None
    key = '%s[%r]' % (name, n)
    s = it.sym(key, integer=integer)
    it.opaque.setdefault(key, (name, n))
    return s


def integral_part(it, n):
    """The symbolic part of a sum of integer symbols and a constant."""
    if n.is_const or not n.is_poly:
        return None
    out = {}
    for m, c in n.n.items():
        if not m:
            continue
        if c.denominator != 1 or not all(
                s in it.syms and it.syms[s].integer for s, _ in m):
            return None
        out[m] = c
    return Num(out)


def b_decimal(it, args, kwargs):
    n = it.num_of(args[0])
    if n is None:
        raise unfit(args[0])

    return ObjV(None, {m: BMethod(n, m) for m in WHOLE}, label='Decimal')


WHOLE = ('quantize', 'to_integral_value', 'to_integral_exact',
         'to_integral')


def quantized(it, n, args, kwargs, method='quantize'):
    if method == 'quantize':
        exp = it.num_of(args[0] if args else kwargs.get('exp'))
        args = args[1:]
        if exp is None or not exp.is_const or exp.value != 0:
            raise Unsupported('quantize')
    mode = args[0] if args else kwargs.get('rounding')
    name = getattr(mode, 'name', mode)
    if not isinstance(name, str):
        raise Unsupported('quantize by default')
    name = name.split('.')[-1]
    up = not it.sign(n, {-1})
    half = num(Fraction(1, 2))
    if name == 'ROUND_HALF_UP':
        return rounding(it, 'floor', n + half) if up else \
            rounding(it, 'ceil', n - half)
    if name == 'ROUND_HALF_DOWN':
        return rounding(it, 'ceil', n - half) if up else \
            rounding(it, 'floor', n + half)
    if name == 'ROUND_FLOOR':
        return rounding(it, 'floor', n)
    if name == 'ROUND_CEILING':
        return rounding(it, 'ceil', n)
    if name == 'ROUND_DOWN':
        return rounding(it, 'floor' if up else 'ceil', n)
    if name == 'ROUND_UP':
        return rounding(it, 'ceil' if up else 'floor', n)
    if name == 'ROUND_HALF_EVEN':
        return rounding(it, 'round', n)
    raise Unsupported(name)


def rounding(it, name, v):
    n = it.num_of(v)
    if isinstance(v, Rank):
        raise Unsupported('rounding of a rank')
    if n is None:
        raise unfit(v)
    whole = integral_part(it, n)
    if whole is not None:
        part = n - whole
        if name in ('floor', 'ceil') or part.value.denominator != 2 and \
                name == 'round':
            return whole + rounding(it, name, part)
        if name == 'trunc':
            return whole + rounding(
                it, 'ceil' if it.sign(n, {-1}) else 'floor', part)
    r = opaque_num(it, name, n)
    if r is not None:
        return r
    x = n.value
    if name == 'floor':
        return num(x.numerator // x.denominator)
    if name == 'ceil':
        return num(-((-x.numerator) // x.denominator))
    if name == 'trunc':
        q = abs(x.numerator) // x.denominator
        return num(q if x >= 0 else -q)
    if name == 'round':
        return num(round(x))
    raise Unsupported(name)


def range_items(it, args):
    vals = [it.num_of(a) for a in args]
    if any(v is None for v in vals):
        raise unfit(*args)
    return range(*[it.const_int(v) for v in vals])


TYPES = {
    'int': lambda it, v: isinstance(v, (Num, bool)) or (
        isinstance(v, EnumV) and isinstance(v.value, Num)),
    'float': lambda it, v: isinstance(v, (Num, Special)),
    'bool': lambda it, v: isinstance(v, bool),
    'str': lambda it, v: isinstance(v, str),
    'tuple': lambda it, v: isinstance(v, tuple),
    'list': lambda it, v: isinstance(v, ListV) and v.kind == 'list',
    'dict': lambda it, v: isinstance(v, DictV),
    'set': lambda it, v: isinstance(v, SetV),
    'object': lambda it, v: True,
}


def is_instance(it, v, t):
    if isinstance(t, tuple):
        return any(is_instance(it, v, x) for x in t)
    if isinstance(t, ClassV):
        if isinstance(v, ObjV):
            if v.cls is None:
                raise Unsupported('isinstance of an untyped object')
            return t.cls in v.cls.mro()
        if isinstance(v, EnumV):
            return t.cls in v.cls.mro()
        if isinstance(v, OpaqueV) and not v.label.startswith('foreign'):
            raise Unsupported('isinstance of an opaque value')
        return False
    if isinstance(t, ExtV):
        n = t.name
        if n.startswith('builtins.'):
            n = n[9:]
        if isinstance(v, ObjV):
            if v.cls is None:
                raise Unsupported('isinstance of an untyped object')
            if n == 'object':
                return True
            bases = [b.split('.')[-1] for b in v.cls.all_ext_bases()]
            return n.split('.')[-1] in bases
        if isinstance(v, OpaqueV):
            if v.label.startswith('foreign'):
                return n == 'object'
            raise Unsupported('isinstance of an opaque value')
        if n in TYPES:
            if n in ('int', 'float') and isinstance(v, Num):
                raise Unsupported('isinstance of a number')
            return TYPES[n](it, v)
    if isinstance(t, OpaqueV):
        raise Unsupported('isinstance against an opaque class')
    raise Unsupported('isinstance against %r' % (t,))


def map_gen(it, f, its):
    gens = [as_gen(it, x) for x in its]

    def g():
        while True:
            row = []
            for q in gens:
                try:
                    row.append(next(q))
                except StopIteration:
                    return
            yield it.call(f, row, {})
    return lazy(g())


def zip_gen(it, its):
    gens = [as_gen(it, x) for x in its]

    def g():
        if not gens:
            return
        while True:
            row = []
            for q in gens:
                try:
                    row.append(next(q))
                except StopIteration:
                    return
            yield tuple(row)
    return lazy(g())


def filter_gen(it, f, xs):
    q = as_gen(it, xs)

    def g():
        for x in q:
            if it.truth(x if f is None else it.call(f, [x], {})):
                yield x
    return lazy(g())


def enumerate_gen(it, xs, start):
    q = as_gen(it, xs)

    def g():
        i = start
        for x in q:
            yield (num(i), x)
            i += 1
    return lazy(g())


def reverse_of(it, v):
    if isinstance(v, ObjV):
        m = it.class_attr(v, '__reversed__')
        if m is not None:
            return it.call(m, [], {})
    if isinstance(v, (LazyGen, IterV, SetV)) and not getattr(
            v, 'is_range', False):
        raise PyRaise('TypeError', where='reversed')
    return IterV(list(reversed(list(it.iterate(v)))))


def groupby_gen(it, xs, key):
    q = as_gen(it, xs)

    def g():
        cur = MISSING
        items = []
        for x in q:
            k = it.call(key, [x], {}) if key is not None else x
            if cur is not MISSING and it.ident_or_eq(cur, k):
                items.append(x)
            else:
                if cur is not MISSING:
                    yield (cur, IterV(items))
                cur, items = k, [x]
        if cur is not MISSING:
            yield (cur, IterV(items))
    return lazy(g())


def bisect_index(it, args, kwargs, right):
    seq, x = args[0], args[1]
    if len(args) > 2 or kwargs:
        raise Unsupported('bisect with bounds')
    items = list(it.iterate(seq))
    lo, hi = 0, len(items)
    while lo < hi:
        mid = (lo + hi) // 2
        if right:
            if it.order('<', x, items[mid]):
                hi = mid
            else:
                lo = mid + 1
        else:
            if it.order('<', items[mid], x):
                lo = mid + 1
            else:
                hi = mid
    return lo


class RangeV(ListV):
    __slots__ = ()


OPS = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult,
       'truediv': ast.Div, 'floordiv': ast.FloorDiv, 'mod': ast.Mod,
       'and_': ast.BitAnd, 'or_': ast.BitOr, 'xor': ast.BitXor,
       'pow': ast.Pow}


def call(it, name, args, kwargs):
    short = name[9:] if name.startswith('builtins.') else name
    f = BUILTINS.get(short)
    if f is not None:
        return f(it, args, kwargs)
    if name.startswith('builtins.'):
        cls = getattr(pyb, short, None)
        if isinstance(cls, type) and issubclass(cls, BaseException):
            return OpaqueV('exc:' + short)
    if name.startswith('operator.'):
        return operator(it, name[9:], args, kwargs)
    if name.startswith('typing.'):
        if name == 'typing.cast':
            return args[1]
        return OpaqueV('typing')
    if name.endswith('generate_repr'):
        return OpaqueV('repr')
    raise Unsupported('library function %s' % name)


def operator(it, op, args, kwargs):
    if op in ('is_', 'is_not'):
        r = it.identical(args[0], args[1])
        return r if op == 'is_' else not r
    if op in ('eq', 'ne'):
        r = it.eq(args[0], args[1])
        return r if op == 'eq' else not r
    cmp = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}.get(op)
    if cmp:
        return it.order(cmp, args[0], args[1])
    if op == 'not_':
        return not it.truth(args[0])
    if op == 'truth':
        return it.truth(args[0])
    if op == 'neg':
        return -it.num_of(args[0])
    if op == 'contains':
        return it.contains(args[0], args[1])
    if op == 'getitem':
        return it.getitem(args[0], args[1])
    if op == 'setitem':
        it.setitem(*args)
        return None
    if op == 'delitem':
        it.delitem(*args)
        return None
    if op in OPS:
        return it.binop(OPS[op](), args[0], args[1])
    if op == 'attrgetter':
        names = list(args)

        def get(i, o):
            vals = []
            for n in names:
                v = o
                for part in n.split('.'):
                    v = i.getattr(v, part)
                vals.append(v)
            return vals[0] if len(vals) == 1 else tuple(vals)
        return PyFn(get, 'attrgetter')
    if op == 'itemgetter':
        keys = list(args)

        def item(i, o):
            vals = [i.getitem(o, k) for k in keys]
            return vals[0] if len(vals) == 1 else tuple(vals)
        return PyFn(item, 'itemgetter')
    if op == 'methodcaller':
        return PyFn(lambda i, o: i.call(i.getattr(o, args[0]),
                                        list(args[1:]), kwargs), 'caller')
    raise Unsupported('operator.%s' % op)


def b_iter(it, args, kwargs):
    v = args[0]
    if len(args) == 2:
        raise Unsupported('iter with a sentinel')
    if isinstance(v, IterV):
        return v
    if isinstance(v, ObjV):
        m = it.class_attr(v, '__iter__')
        if m is not None:
            return it.call(m, [], {})
    return lazy(as_gen(it, v))


def b_next(it, args, kwargs):
    v = args[0]
    if not isinstance(v, IterV):
        if isinstance(v, ObjV):
            m = it.class_attr(v, '__next__')
            if m is not None:
                return it.call(m, [], {})
        raise unfit(v)
    g = as_gen(it, v)
    try:
        return next(g)
    except StopIteration:
        if len(args) == 2:
            return args[1]
        raise PyRaise('StopIteration')


def b_sum(it, args, kwargs):
    acc = args[1] if len(args) > 1 else kwargs.get('start', num(0))
    for x in as_gen(it, args[0]):
        acc = it.binop(ast.Add(), acc, x)
    return acc


def b_any(it, args, kwargs):
    for x in as_gen(it, args[0]):
        if it.truth(x):
            return True
    return False


def b_all(it, args, kwargs):
    for x in as_gen(it, args[0]):
        if not it.truth(x):
            return False
    return True


def b_int(it, args, kwargs):
    if not args:
        return num(0)
    v = args[0]
    if isinstance(v, bool):
        return num(int(v))
    if isinstance(v, Rank):
        return v
    n = it.num_of(v)
    if isinstance(n, Special):
        raise PyRaise('OverflowError' if n.kind != 'nan' else 'ValueError')
    if n is not None:
        if n.is_poly and all(
                c.denominator == 1 and all(
                    it.syms.get(s) is not None and it.syms[s].integer
                    for s, _ in m) for m, c in n.n.items()):
            return n
        return rounding(it, 'trunc', n)
    if v is None or isinstance(v, (ListV, tuple, ObjV)):
        raise unfit(v)
    raise Unsupported('int of %r' % (v,))


def b_float(it, args, kwargs):
    if not args:
        return num(0)
    v = args[0]
    if isinstance(v, bool):
        return num(int(v))
    if isinstance(v, str):
        s = v.strip().lower()
        if s in ('inf', '+inf', 'infinity'):
            return INF
        if s in ('-inf', '-infinity'):
            return NINF
        if s == 'nan':
            return NAN
        return num(Fraction(s))
    if isinstance(v, (Num, Special, Rank)):
        return v
    if isinstance(v, EnumV):
        return it.num_of(v)
    if v is None or isinstance(v, (ListV, tuple, ObjV)):
        raise unfit(v)
    raise Unsupported('float of %r' % (v,))


def b_list(it, args, kwargs):
    return ListV(list(as_gen(it, args[0])) if args else [])


def b_tuple(it, args, kwargs):
    return tuple(as_gen(it, args[0])) if args else ()


def b_set(it, args, kwargs):
    return SetV(list(as_gen(it, args[0])) if args else [])


def b_dict(it, args, kwargs):
    d = DictV()
    if args:
        if isinstance(args[0], DictV):
            d.d.update(args[0].d)
        else:
            for kv in as_gen(it, args[0]):
                k, v = list(it.iterate(kv))
                d.d[hkey(k)] = (k, v)
    for k, v in kwargs.items():
        d.d[hkey(k)] = (k, v)
    return d


def b_defaultdict(it, args, kwargs):
    return DictV(args[0] if args else None)


def b_deque(it, args, kwargs):
    if len(args) > 1 or kwargs:
        raise Unsupported('bounded deque')
    return ListV(list(as_gen(it, args[0])) if args else [], 'deque')


def b_sorted(it, args, kwargs):
    rev = kwargs.get('reverse', False)
    return ListV(sort_items(it, list(as_gen(it, args[0])),
                            kwargs.get('key'), it.truth(rev)))


def b_range(it, args, kwargs):
    return ListV([num(i) for i in range_items(it, args)])


def b_getattr(it, args, kwargs):
    if not isinstance(args[1], str):
        raise Unsupported('computed attribute')
    try:
        return it.getattr(args[0], args[1])
    except PyRaise as e:
        if e.name == 'AttributeError' and len(args) == 3:
            return args[2]
        raise


def b_hasattr(it, args, kwargs):
    try:
        it.getattr(args[0], args[1])
        return True
    except PyRaise as e:
        if e.name == 'AttributeError':
            return False
        raise


def b_setattr(it, args, kwargs):
    if not isinstance(args[1], str):
        raise Unsupported('computed attribute')
    it.setattr(args[0], args[1], args[2])


def b_type(it, args, kwargs):
    if len(args) == 1 and isinstance(args[0], ObjV) and args[0].cls:
        return ClassV(args[0].cls)
    if len(args) == 1 and isinstance(args[0], EnumV):
        return ClassV(args[0].cls)
    raise Unsupported('type')


def b_partial(it, args, kwargs):
    return PartialV(args[0], args[1:], kwargs)


def b_reduce(it, args, kwargs):
    q = as_gen(it, args[1])
    if len(args) > 2:
        acc = args[2]
    else:
        try:
            acc = next(q)
        except StopIteration:
            raise PyRaise('TypeError')
    for x in q:
        acc = it.call(args[0], [acc, x], {})
    return acc


def b_chain(it, args, kwargs):
    def g():
        for a in args:
            for x in as_gen(it, a):
                yield x
    return lazy(g())


def b_chain_iter(it, args, kwargs):
    def g():
        for a in as_gen(it, args[0]):
            for x in as_gen(it, a):
                yield x
    return lazy(g())


def b_islice(it, args, kwargs):
    vals = [None if a is None else it.const_int(a) for a in args[1:]]
    import itertools
    return lazy(itertools.islice(as_gen(it, args[0]), *vals))


def b_takewhile(it, args, kwargs):
    def g():
        for x in as_gen(it, args[1]):
            if not it.truth(it.call(args[0], [x], {})):
                return
            yield x
    return lazy(g())


def b_dropwhile(it, args, kwargs):
    def g():
        on = False
        for x in as_gen(it, args[1]):
            if not on and it.truth(it.call(args[0], [x], {})):
                continue
            on = True
            yield x
    return lazy(g())


def b_count(it, args, kwargs):
    def g():
        i = it.const_int(args[0]) if args else 0
        while True:
            yield num(i)
            i += 1
    return lazy(g())


def b_isinf(it, args, kwargs):
    v = args[0]
    if isinstance(v, Special):
        return v.kind != 'nan'
    if isinstance(v, (Num, bool, Rank)):
        return False
    raise unfit(v)


def b_isnan(it, args, kwargs):
    v = args[0]
    if isinstance(v, Special):
        return v.kind == 'nan'
    if isinstance(v, (Num, bool, Rank)):
        return False
    raise unfit(v)


def b_isfinite(it, args, kwargs):
    return not isinstance(args[0], Special)


def b_bisect(right, insert):
    def f(it, args, kwargs):
        i = bisect_index(it, args, kwargs, right)
        if insert:
            seq = args[0]
            if not isinstance(seq, ListV):
                raise Unsupported('insort')
            seq.items.insert(i, args[1])
            return None
        return num(i)
    return f


def b_divmod(it, args, kwargs):
    return (it.binop(ast.FloorDiv(), *args), it.binop(ast.Mod(), *args))


def b_copy(it, args, kwargs):
    v = args[0]
    if isinstance(v, ListV):
        return ListV(v.items, v.kind)
    if isinstance(v, ObjV) and v.cls is not None \
            and v.cls.find_method('__copy__') is None:
        o = ObjV(v.cls, v.fields, v.lazy, v.label)
        return o
    raise Unsupported('copy')


def b_super(it, args, kwargs):
    raise Unsupported('super')


BUILTINS = {
    'len': lambda it, a, k: length(it, a[0]),
    'range': b_range,
    'reversed': lambda it, a, k: reverse_of(it, a[0]),
    'enumerate': lambda it, a, k: enumerate_gen(
        it, a[0], it.const_int(a[1] if len(a) > 1
                               else k.get('start', num(0)))),
    'zip': lambda it, a, k: zip_gen(it, a),
    'map': lambda it, a, k: map_gen(it, a[0], a[1:]),
    'filter': lambda it, a, k: filter_gen(it, a[0], a[1]),
    'list': b_list, 'tuple': b_tuple, 'set': b_set, 'frozenset': b_set,
    'dict': b_dict, 'sorted': b_sorted, 'iter': b_iter, 'next': b_next,
    'sum': b_sum, 'any': b_any, 'all': b_all,
    'min': lambda it, a, k: extreme(it, a, k, '<'),
    'max': lambda it, a, k: extreme(it, a, k, '>'),
    'abs': lambda it, a, k: absolute(it, a[0]),
    'math.fabs': lambda it, a, k: absolute(it, a[0]),
    'int': b_int, 'float': b_float,
    'bool': lambda it, a, k: it.truth(a[0]) if a else False,
    'isinstance': lambda it, a, k: is_instance(it, a[0], a[1]),
    'id': lambda it, a, k: IdV(a[0]),
    'print': lambda it, a, k: None,
    'repr': lambda it, a, k: OpaqueV('repr'),
    'str': lambda it, a, k: OpaqueV('str'),
    'type': b_type, 'getattr': b_getattr, 'hasattr': b_hasattr,
    'setattr': b_setattr, 'divmod': b_divmod,
    'pow': lambda it, a, k: it.binop(ast.Pow(), a[0], a[1]),
    'round': lambda it, a, k: rounding(it, 'round', a[0]),
    'callable': lambda it, a, k: isinstance(
        a[0], (FuncV, MethodV, ClassV, ExtV, PartialV, PyFn, BMethod)),
    'math.floor': lambda it, a, k: rounding(it, 'floor', a[0]),
    'math.ceil': lambda it, a, k: rounding(it, 'ceil', a[0]),
    'math.trunc': lambda it, a, k: rounding(it, 'trunc', a[0]),
    'decimal.Decimal': b_decimal,
    'math.isinf': b_isinf, 'math.isnan': b_isnan,
    'math.isfinite': b_isfinite,
    'functools.partial': b_partial, 'functools.reduce': b_reduce,
    'itertools.groupby': lambda it, a, k: groupby_gen(
        it, a[0], a[1] if len(a) > 1 else k.get('key')),
    'itertools.chain': b_chain,
    'itertools.chain.from_iterable': b_chain_iter,
    'itertools.islice': b_islice, 'itertools.takewhile': b_takewhile,
    'itertools.dropwhile': b_dropwhile, 'itertools.count': b_count,
    'collections.deque': b_deque, 'collections.defaultdict': b_defaultdict,
    'bisect.bisect_left': b_bisect(False, False),
    'bisect.bisect_right': b_bisect(True, False),
    'bisect.bisect': b_bisect(True, False),
    'bisect.insort': b_bisect(True, True),
    'bisect.insort_left': b_bisect(False, True),
    'bisect.insort_right': b_bisect(True, True),
    'copy.copy': b_copy,
}


def c_int(bits, signed):
    def f(it, args, kwargs):
        from .absint import CIntV
        v = it.num_of(args[0]) if args else num(0)
        lo = -2 ** (bits - 1) if signed else 0
        hi = 2 ** (bits - 1) - 1 if signed else 2 ** bits - 1
        if not isinstance(v, Num) or not v.is_poly:
            raise Unsupported('ctypes integer of %r' % (v,))
        if v.is_const:
            x = int(v.value)
            x = (x - lo) % 2 ** bits + lo
            return CIntV(num(x))
        a, b = it.interval(v.n)
        if a is None or b is None or a < lo or b > hi:
            raise Unsupported('ctypes integer out of range')
        return CIntV(v)
    return f


for _bits in (8, 16, 32, 64):
    BUILTINS['ctypes.c_int%d' % _bits] = c_int(_bits, True)
    BUILTINS['ctypes.c_uint%d' % _bits] = c_int(_bits, False)
BUILTINS['ctypes.c_int'] = c_int(32, True)
BUILTINS['ctypes.c_long'] = BUILTINS['ctypes.c_longlong'] = c_int(64, True)


# -- methods of containers -------------------------------------------------
def method(it, o, name, args, kwargs):
    if isinstance(o, ListV):
        return list_method(it, o, name, args, kwargs)
    if isinstance(o, DictV):
        return dict_method(it, o, name, args, kwargs)
    if isinstance(o, SetV):
        return set_method(it, o, name, args, kwargs)
    if isinstance(o, tuple):
        if name in ('index', 'count'):
            return list_method(it, ListV(o), name, args, kwargs)
    if isinstance(o, str):
        return OpaqueV('str')
    if isinstance(o, Num) and name in WHOLE:
        return quantized(it, o, args, kwargs, name)
    if isinstance(o, IterV) and name == '__next__':
        return b_next(it, [o], {})
    if isinstance(o, ObjV):
        return mixin_method(it, o, name, args, kwargs)
    raise lacking(o, name)


def index_of(it, items, x):
    for i, y in enumerate(items):
        if it.ident_or_eq(y, x):
            return i
    return None


def list_method(it, o, name, args, kwargs):
    xs = o.items
    dq = o.kind == 'deque'
    if name == 'append':
        xs.append(args[0])
    elif name == 'appendleft' and dq:
        xs.insert(0, args[0])
    elif name == 'popleft' and dq:
        if not xs:
            raise PyRaise('IndexError')
        return xs.pop(0)
    elif name == 'extend':
        xs.extend(list(as_gen(it, args[0])))
    elif name == 'extendleft' and dq:
        for x in list(as_gen(it, args[0])):
            xs.insert(0, x)
    elif name == 'insert':
        xs.insert(it.const_int(args[0]), args[1])
    elif name == 'pop':
        i = it.const_int(args[0]) if args else -1
        if not -len(xs) <= i < len(xs):
            raise PyRaise('IndexError')
        return xs.pop(i)
    elif name == 'clear':
        del xs[:]
    elif name == 'remove':
        i = index_of(it, xs, args[0])
        if i is None:
            raise PyRaise('ValueError')
        del xs[i]
    elif name == 'index':
        i = index_of(it, xs, args[0])
        if i is None:
            raise PyRaise('ValueError')
        return num(i)
    elif name == 'count':
        return num(sum(1 for y in xs if it.ident_or_eq(y, args[0])))
    elif name == 'sort' and not dq:
        xs[:] = sort_items(it, xs, kwargs.get('key'),
                           it.truth(kwargs.get('reverse', False)))
    elif name == 'reverse':
        xs.reverse()
    elif name == 'copy':
        return ListV(xs, o.kind)
    elif name == 'rotate' and dq:
        k = it.const_int(args[0]) if args else 1
        if xs:
            k %= len(xs)
            xs[:] = xs[-k:] + xs[:-k] if k else xs[:]
    elif name == '__len__':
        return num(len(xs))
    elif name == '__getitem__':
        return it.getitem(o, args[0])
    elif name == '__setitem__':
        it.setitem(o, args[0], args[1])
    elif name == '__contains__':
        return it.contains(o, args[0])
    elif name == '__iter__':
        return lazy(iter(it.iterate(o)))
    else:
        raise lacking(o, name)
    return None


def dict_method(it, o, name, args, kwargs):
    d = o.d
    if name == 'get':
        kv = d.get(hkey(args[0]))
        return kv[1] if kv is not None else (args[1] if len(args) > 1
                                             else None)
    if name == 'items':
        return ListV([tuple(kv) for kv in d.values()])
    if name == 'keys':
        return ListV([k for k, _ in d.values()])
    if name == 'values':
        return ListV([v for _, v in d.values()])
    if name == 'setdefault':
        h = hkey(args[0])
        if h not in d:
            d[h] = (args[0], args[1] if len(args) > 1 else None)
        return d[h][1]
    if name == 'pop':
        h = hkey(args[0])
        if h in d:
            return d.pop(h)[1]
        if len(args) > 1:
            return args[1]
        raise PyRaise('KeyError')
    if name == 'clear':
        d.clear()
        return None
    if name == 'update':
        d.update(b_dict(it, args, kwargs).d)
        return None
    if name == 'copy':
        n = DictV(o.default)
        n.d.update(d)
        return n
    raise lacking(o, name)


def set_method(it, o, name, args, kwargs):
    d = o.d
    if name == 'add':
        d.setdefault(hkey(args[0]), args[0])
        return None
    if name in ('discard', 'remove'):
        h = hkey(args[0])
        if h not in d and name == 'remove':
            raise PyRaise('KeyError')
        d.pop(h, None)
        return None
    if name == 'update':
        for a in args:
            for x in as_gen(it, a):
                d.setdefault(hkey(x), x)
        return None
    if name == 'clear':
        d.clear()
        return None
    if name == 'copy':
        n = SetV()
        n.d.update(d)
        return n
    if name in ('union', 'intersection', 'difference'):
        other = set()
        n = SetV()
        items = [x for a in args for x in as_gen(it, a)]
        other = {hkey(x) for x in items}
        if name == 'union':
            n.d.update(d)
            for x in items:
                n.d.setdefault(hkey(x), x)
        elif name == 'intersection':
            n.d = {k: v for k, v in d.items() if k in other}
        else:
            n.d = {k: v for k, v in d.items() if k not in other}
        return n
    raise Unsupported('set method %s' % name)


def mixin_method(it, o, name, args, kwargs):
    """Sequence and MutableSequence mixins."""
    def meth(n, *a):
        m = it.class_attr(o, n)
        if m is None:
            raise lacking(o, n)
        return it.call(m, list(a), {})

    mutable = any('MutableSequence' in b for b in o.cls.all_ext_bases())
    n = it.const_int(meth('__len__'))
    if name in ('append', 'extend', 'clear', 'pop', 'remove', 'reverse',
                'insert') and not mutable:
        raise PyRaise('AttributeError', where=name)
    if name == 'append':
        meth('insert', num(n), args[0])
        return None
    if name == 'extend':
        for x in list(as_gen(it, args[0])):
            meth('insert', meth('__len__'), x)
        return None
    if name == 'clear':
        while it.const_int(meth('__len__')):
            mixin_method(it, o, 'pop', [], {})
        return None
    if name == 'pop':
        i = args[0] if args else num(-1)
        v = meth('__getitem__', i)
        meth('__delitem__', i)
        return v
    if name == 'index':
        for i in range(n):
            if it.ident_or_eq(meth('__getitem__', num(i)), args[0]):
                return num(i)
        raise PyRaise('ValueError')
    if name in ('__iter__', '__reversed__'):
        items = [meth('__getitem__', num(i)) for i in range(n)]
        return IterV(items if name == '__iter__' else items[::-1])
    if name == '__contains__':
        return any(it.ident_or_eq(meth('__getitem__', num(i)), args[0])
                   for i in range(n))
    raise Unsupported('mixin %s' % name)
