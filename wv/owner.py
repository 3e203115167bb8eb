"""Who owns an object: the caller of an accumulator or the accumulator."""
import ast

from .types import Roots, Types, all_args, own_fields_stored

CALLER = ('tag', 'caller', 'what the caller passed')
KEPT = ('tag', 'kept', 'what was added')


QUERIES = {'bounds', 'execute', 'intersect', 'subtract', 'unite',
           'symmetric_subtract'}


def operations(p, types):
    """Methods of the accumulator that must not change it, and those that
    add to it."""
    c = p.cls('Wagyu')
    if c is None:
        return [], []
    adds = [f for n, f in c.methods.items() if n.startswith('add')]
    changing = types.reachable(adds + [f for n, f in c.methods.items()
                                       if n in ('clear', '__init__')])
    ops = []
    for name, f in c.methods.items():
        if f.kind not in ('method', 'property') or f in changing:
            continue
        ret = ast.unparse(f.node.returns) if f.node.returns else ''
        if name in QUERIES or not name.startswith('_') and any(
                x in ret for x in ('Multipolygon', 'Box')):
            ops.append(f)
    return ops, adds


class Owner(Roots):
    def __init__(self, ops, adds, scratch=()):
        self.ops, self.adds = ops, adds
        self.scratch = set(scratch)

    def param(self, f, name):
        args = all_args(f.node)
        first = args and args[0].arg == name
        if f in self.ops and first:
            return frozenset({KEPT})
        if f in self.adds and not first:
            return frozenset({CALLER})
        return frozenset()

    def carries(self, tag, cls, attr):
        return not (tag == KEPT and cls is not None
                    and (cls.name, attr) in self.scratch)


def scratch_fields(p, types, ops):
    """Fields of stored objects which every operation sets afresh: those set
    by ``LocalMinimum.initialize`` and what it calls."""
    init = p.func('LocalMinimum.initialize')
    if init is None:
        return None
    out = set()
    for f in types.reachable([init]):
        out |= {(c.name, a) for c, a, _ in own_fields_stored(types, f)}
    return out


def owned(p):
    """Types with the tags of both owners: (types, ops, adds, scratch)."""
    plain = Types(p)
    ops, adds = operations(p, plain)
    scratch = scratch_fields(p, plain, ops)
    return Types(p, roots=Owner(ops, adds, scratch or ())), ops, adds, scratch
