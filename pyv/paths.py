"""Opaque sequences of diagram elements: lists known only through length, membership and appending.

A Path object stands for a Python list of (id, attributes) elements.  Its key is a term of string sort:
EMPTY for [], snoc(key, id) for appending, and whatever a callee's contract names its result.
"""
import z3
from .core import *
from .ops import *
from .interp import Builtin, ClassVal

EMPTY = z3.StringVal('')


def snoc(ctx, k, x):
    t = ctx.fn('path.snoc', S, S, S)(k, x)
    ctx.assume(length(ctx, t) == length(ctx, k) + 1)
    return t


def length(ctx, k):
    f = ctx.fn('path.len', S, I)
    ctx.assume(f(EMPTY) == 0)
    ctx.assume(f(k) >= 0)
    return f(k)


def member(ctx, k, x):
    """x (id) occurs in the sequence k."""
    if k.eq(EMPTY):
        return z3.BoolVal(False)
    if z3.is_app(k) and k.decl().name() == 'path.snoc':
        return z3.Or(member(ctx, k.arg(0), x), k.arg(1) == x)
    return ctx.fn('path.in', S, S, B)(k, x)


class NodeVal:
    """Element of the diagram, as returned by get_node_by_id: equal exactly when the ids are."""

    def __init__(self, id, attrs):
        self.id, self.attrs = id, attrs

    def getitem(self, ip, k):
        if k == 0:
            return self.id
        if k == 1:
            return self.attrs(ip, self.id)
        raise Unsup('item %r of an element' % (k,))

    def segs_of(self, ip):
        return [Lit(self.id), Lit(self.attrs(ip, self.id))]

    def deepcopy(self, ip):
        return self

    def ident(self, ip, o):
        return ip.eq(self.id, node_id(ip, o))

    def truth(self, ip):
        return True

    def inst(self, ins):
        return NodeVal(ins.val(self.id), self.attrs)

    def same_host(self, o):
        return isinstance(o, NodeVal) and self.id == o.id


def node_id(ip, v):
    v = ip.force(v)
    if isinstance(v, NodeVal):
        return v.id
    if isinstance(v, tuple) and len(v) == 2 and kind_of(v[0]) == 'str' and isinstance(v[1], Ref):
        r = ip.ctx.get(v[1])
        if isinstance(r, DictRec) and not r.layers:
            return v[0]
    raise Unsup('not an element of the diagram: %r' % (v,))


def key_of(ip, v):
    """Key of a list of elements, or None."""
    v = ip.force(v)
    if isinstance(v, Ref):
        r = ip.ctx.get(v)
        if isinstance(r, InstRec) and r.cls is ip.pathcls:
            return zt(r.attrs['key'])
        if isinstance(r, ListRec) and r.kind == 'list' and all(isinstance(s, Lit) for s in r.segs):
            k = EMPTY
            for s in r.segs:
                k = snoc(ip.ctx, k, zt(node_id(ip, s.v)))
            return k
    return None


def path(ip, t):
    length(ip.ctx, t)
    return ip.ctx.alloc(InstRec(ip.pathcls, {'key': Sym('str', t)}))


def install(ip):
    if hasattr(ip, 'pathcls'):
        return

    def key(a):
        return zt(ip.ctx.get(a).attrs['key'])

    def append(ip, a, k):
        ip.ctx.put(a[0], InstRec(ip.pathcls, {'key': Sym('str', snoc(ip.ctx, key(a[0]), zt(node_id(ip, a[1]))))}))

    def extended(ip, k, v):
        for s in ip.iter_segs(v):
            if not isinstance(s, Lit):
                raise Unsup('concatenation of unknown sequences')
            k = snoc(ip.ctx, k, zt(node_id(ip, s.v)))
        return k

    def add(ip, a, k):
        return path(ip, extended(ip, key(a[0]), a[1]))

    def extend(ip, a, k):
        ip.ctx.put(a[0], InstRec(ip.pathcls, {'key': Sym('str', extended(ip, key(a[0]), a[1]))}))

    def eq(ip, a, k):
        o = key_of(ip, a[1])
        return False if o is None else mk('bool', key(a[0]) == o)
    b = lambda n, f: Builtin('list.' + n, f)
    attrs = {'append': b('append', append), 'extend': b('extend', extend), '__add__': b('add', add), '__eq__': b('eq', eq),
             'copy': b('copy', lambda ip, a, k: path(ip, key(a[0]))),
             '__len__': b('len', lambda ip, a, k: mk('int', length(ip.ctx, key(a[0])))),
             '__contains__': b('contains', lambda ip, a, k: mk('bool', member(ip.ctx, key(a[0]), zt(node_id(ip, a[1])))))}

    def host(ip, cls, args, kw):
        raise Unsup('path')
    ip.pathcls = ClassVal('list', [ip.builtins['object']], attrs, 'builtins', host)
