"""Caller data is never modified; results are independent copies."""
from checks.c04 import Shared, changed, closure, escapes_job
from checks.c18 import at
from wv.owner import CALLER, KEPT, owned
from wv.types import Types, mutable


def intact_job(types, f):
    def fn(res):
        T = lambda e: types.node_types.get(id(e), frozenset())
        res.functions.add(f.qual)
        for n, e, how in changed(types, f):
            res.paths += 1
            if CALLER in T(e):
                res.violations.append((
                    'may change what the caller passed: %s' % how, at(f, n),
                    []))
            else:
                res.held += 1
    return fn


def copies_job(types, f):
    def fn(res):
        res.functions.add(f.qual)
        for path, t in closure(types, types.ret_type(f)):
            res.paths += 1
            bare = frozenset(a for a in t if a[0] != 'tag')
            for tag, text in ((CALLER, 'passed by the caller'),
                              (KEPT, 'kept by the accumulator')):
                if tag in t and mutable(bare):
                    res.violations.append((
                        'the result may contain an object %s (%s)'
                        % (text, path), f.where, []))
                    break
            else:
                res.held += 1
    return fn


def build(ctx):
    types, ops, adds, scratch = owned(ctx.p)
    ctx.rule('intact', 'nothing that comes from the caller is changed in '
                       'place, neither while adding nor by an operation')
    ctx.rule('copies', 'results and boxes are made of new objects only')
    ctx.assume('An object is followed through names, fields, containers, '
               'parameters and results, joined over all assignments; what is '
               'read from a followed object is followed too.')
    ctx.extra['types'] = {'functions': len(types.order),
                          'fields': len(types.fields),
                          'adding': [f.qual for f in adds],
                          'operations': [f.qual for f in ops]}
    if not adds or not ops:
        ctx.job('intact', 'package', lambda r: r.undecided.append(
            'no accumulator found'))
        return
    for f in types.order:
        ctx.job('intact', f.qual, intact_job(types, f))
    ctx.rule('fresh', 'results and boxes hold no object that exists once per '
                      'process and would be in every result')
    once = Types(ctx.p, roots=Shared())
    for f in ops:
        ctx.job('copies', f.qual, copies_job(types, f))
        ctx.job('fresh', f.qual, escapes_job(once, f))
