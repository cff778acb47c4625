"""Trusted models of third-party / stdlib objects: networkx.Graph, ElementTree elements, minidom nodes."""
import z3
from .core import *
from .ops import *
from .interp import *


# =====================================================================================  networkx
class EdgeBase:
    """Unknown finite set of undirected edges over the nodes of one graph."""

    def __init__(self, ctx, name, val, nodes):
        self.name, self.val, self.nodes = name, val, nodes
        self.HAS = ctx.fn(name + '.has', S, S, B)
        self.IDX = ctx.fn(name + '.idx', S, S, I)
        self.U = ctx.fn(name + '.u', I, S)
        self.V = ctx.fn(name + '.v', I, S)
        self.n = z3.Int(name + '.n')

    def pair(self, k):
        if not isinstance(k, tuple) or len(k) != 2:
            return None
        a, b = kterm(k[0]), kterm(k[1])
        if a is None or b is None:
            return None
        return a, b

    def has(self, ctx, k):
        p = self.pair(k)
        if p is None:
            return z3.BoolVal(False)
        a, b = p
        from .models import uuid_terms
        h = self.HAS(a, b)
        i = self.IDX(a, b)
        ctx.assume(self.n >= 0)
        ctx.assume(z3.And(h == self.HAS(b, a), i == self.IDX(b, a)))
        ctx.assume(z3.Implies(h, z3.And(i >= 0, i < self.n,
                                        z3.Or(z3.And(self.U(i) == a, self.V(i) == b),
                                              z3.And(self.U(i) == b, self.V(i) == a)),
                                        self.nodes.has(ctx, Sym('str', a)), self.nodes.has(ctx, Sym('str', b)))))
        ctx.index_term(i)
        return h

    def value(self, ctx, k):
        a, b = self.pair(k)
        return self.val(ctx, (self.IDX(a, b),))

    def at(self, ctx, t):
        """(u, v) of edge number t."""
        u, v = self.U(t), self.V(t)
        ctx.assume(z3.Implies(z3.And(t >= 0, t < self.n),
                              z3.And(self.HAS(u, v), self.HAS(v, u), self.IDX(u, v) == t, self.IDX(v, u) == t,
                                     self.nodes.has(ctx, Sym('str', u)), self.nodes.has(ctx, Sym('str', v)))))
        return (Sym('str', u), Sym('str', v))

    def keys_gen(self, ctx):
        ctx.assume(self.n >= 0)
        me = self
        return BaseGen(self.n, lambda c, a, t: me.at(c, t), (), self.name)

    def items_gen(self, ctx, f):
        ctx.assume(self.n >= 0)
        me = self

        def el(c, a, t):
            u, v = me.at(c, t)
            return f(u, v, me.val(c, (t,)))
        return BaseGen(self.n, el, (), self.name + '.items')

    def inst(self, ins):
        return self

    def same(self, o):
        return z3.BoolVal(True) if isinstance(o, EdgeBase) and o.name == self.name else None


class NodeView:
    """graph.node / graph.nodes / graph.nodes(...)"""

    def __init__(self, g, data):
        self.g, self.data = g, data

    def d(self, ip):
        return ip.ctx.get(self.g).attrs['_nodes']

    def segs_of(self, ip):
        if not self.data:
            return ip.dict_key_segs(self.d(ip))
        return ip.dict_item_segs(self.d(ip), lambda k, v: (k, v))

    def getitem(self, ip, k):
        return ip.dict_get(self.d(ip), k)

    def setitem(self, ip, k, v):
        ip.throw('TypeError', 'NodeView does not support item assignment')

    def contains(self, ip, x):
        if isinstance(x, tuple) and self.data:
            raise Unsup('membership in node data view')
        return ip.dict_has(self.d(ip), x)

    def attr(self, ip, name):
        g = self.g
        if name == '__call__':
            return Builtin('nodes', lambda ip, a, k: node_call(g, a, k))
        if name in ('keys', 'values', 'items', 'get'):
            return ip.getattr(self.d(ip), name)
        if name == 'data':
            return Builtin('nodes.data', lambda ip, a, k: NodeView(g, True) if not a and not k else
                           node_call(g, a, k))
        raise Unsup('NodeView.' + name)

    def host_call(self, ip, args, kw):
        return node_call(self.g, args, kw)

    def deepcopy(self, ip):
        from .models import deepcopy
        return NodeView(deepcopy(ip, [self.g], {}), self.data)

    def inst(self, ins):
        return NodeView(ins.val(self.g), self.data)

    def same_host(self, o):
        return self.g == o.g and self.data == o.data


def node_call(g, a, k):
    data = a[0] if a else k.get('data', False)
    if data is True or data is False:
        return NodeView(g, data)
    raise Unsup('nodes(data=<attribute>)')


class EdgeView:
    def __init__(self, g, data):
        self.g, self.data = g, data

    def d(self, ip):
        return ip.ctx.get(self.g).attrs['_edges']

    def segs_of(self, ip):
        ctx = ip.ctx
        ref = self.d(ip)
        rec = ctx.get(ref)
        if not self.data:
            return ip.dict_key_segs(ref)
        if rec.base is not None and not rec.layers:
            return [rec.base.items_gen(ctx, lambda u, v, d: (u, v, d))]
        return ip.dict_item_segs(ref, lambda k, v: (k[0], k[1], v))

    def contains(self, ip, x):
        if not self.data:
            return ip.dict_has(self.d(ip), x)
        raise Unsup('membership in edge data view')

    def getitem(self, ip, k):
        return ip.dict_get(self.d(ip), k)

    def attr(self, ip, name):
        g = self.g
        if name == 'data':
            return Builtin('edges.data', lambda ip, a, k: EdgeView(g, True) if not a and not k else edge_call(g, a, k))
        raise Unsup('edges.' + name)

    def host_call(self, ip, args, kw):
        return edge_call(self.g, args, kw)

    def inst(self, ins):
        return EdgeView(ins.val(self.g), self.data)

    def same_host(self, o):
        return self.g == o.g and self.data == o.data


def edge_call(g, a, k):
    if len(a) > 1 or set(k) - {'data'}:
        raise Unsup('edges(nbunch)')
    if a and isinstance(a[0], bool) is False:
        raise Unsup('edges(nbunch)')
    data = k.get('data', False)
    if a:
        raise Unsup('edges(nbunch)')
    if data is True or data is False:
        return EdgeView(g, data)
    raise Unsup('edges(data=<attribute>)')


class AdjVal:
    def __init__(self, g, a):
        self.g, self.a = g, a

    def getitem(self, ip, b):
        return ip.dict_get(ip.ctx.get(self.g).attrs['_edges'], (self.a, b))

    def contains(self, ip, b):
        return ip.dict_has(ip.ctx.get(self.g).attrs['_edges'], (self.a, b))

    def inst(self, ins):
        return AdjVal(ins.val(self.g), ins.val(self.a))


class DegView:
    def __init__(self, g):
        self.g = g

    def getitem(self, ip, k):
        if not ip.truth(ip.dict_has(ip.ctx.get(self.g).attrs['_nodes'], k)):
            ip.throw('KeyError', k)
        return degree(ip, self.g, k)

    def host_call(self, ip, args, kw):
        if not args and not kw:
            return self
        return self.getitem(ip, args[0])

    def inst(self, ins):
        return DegView(ins.val(self.g))


def degree(ip, g, k):
    """Number of incident edge ends: sum over edges of [u=k]+[v=k]."""
    ctx = ip.ctx
    rec = ctx.get(ctx.get(g).attrs['_edges'])
    if rec.layers or rec.base is None:
        if rec.base is None and all(isinstance(l, Pt) for l in rec.layers):
            tot = 0
            for l in rec.layers:
                if l.v is ABSENT:
                    continue
                for e in l.k:
                    c = ip.eq(e, k)
                    tot = ip.binop('+', tot, mk('int', z3.If(zt(c), z3.IntVal(1), z3.IntVal(0))))
            return tot
        raise Unsup('degree in a modified graph')
    f = ctx.fn(rec.base.name + '.degree', S, I)
    t = f(kterm(k))
    ctx.assume(t >= 0)
    return Sym('int', t)


def install_networkx(ip):
    obj = ip.builtins['object']

    def host(ip, cls, args, kw):
        if args:
            raise Unsup('Graph(data)')
        ctx = ip.ctx
        return ctx.alloc(InstRec(cls, {'_nodes': ctx.alloc(DictRec()), '_edges': ctx.alloc(DictRec((), None, 'edge'))}))

    def nd(ip, g):
        return ip.ctx.get(g).attrs['_nodes']

    def ed(ip, g):
        return ip.ctx.get(g).attrs['_edges']

    def add_node(ip, a, k):
        g, n = a[0], ip.force(a[1])
        d = nd(ip, g)
        r = ip.dict_find(d, n)
        if r[0] == 'absent':
            ip.dict_set(d, n, ip.mkdict(k.items()))
        else:
            for x, v in k.items():
                ip.dict_set(r[1], x, v)

    def add_edge(ip, a, k):
        g, u, v = a[0], ip.force(a[1]), ip.force(a[2])
        for x in (u, v):
            if ip.dict_find(nd(ip, g), x)[0] == 'absent':
                ip.dict_set(nd(ip, g), x, ip.mkdict())
        r = ip.dict_find(ed(ip, g), (u, v))
        if r[0] == 'absent':
            ip.dict_set(ed(ip, g), (u, v), ip.mkdict(k.items()))
        else:
            for x, y in k.items():
                ip.dict_set(r[1], x, y)

    def has_node(ip, a, k):
        return ip.dict_has(nd(ip, a[0]), a[1])

    def has_edge(ip, a, k):
        return ip.dict_has(ed(ip, a[0]), (a[1], a[2]))

    def remove_edge(ip, a, k):
        if ip.dict_find(ed(ip, a[0]), (a[1], a[2]))[0] == 'absent':
            ip.throw('NetworkXError', 'edge not in graph')
        ip.dict_del(ed(ip, a[0]), (a[1], a[2]))

    def remove_node(ip, a, k):
        if ip.dict_find(nd(ip, a[0]), a[1])[0] == 'absent':
            ip.throw('NetworkXError', 'node not in graph')
        ip.dict_del(nd(ip, a[0]), a[1])
        r = ip.ctx.get(ed(ip, a[0]))
        ip.ctx.put(ed(ip, a[0]), DictRec(r.layers + (Drop(ip.force(a[1])),), r.base, r.kind))

    def getitem(ip, a, k):
        if not ip.truth(ip.dict_has(nd(ip, a[0]), a[1])):
            ip.throw('KeyError', a[1])
        return AdjVal(a[0], a[1])

    def contains(ip, a, k):
        return ip.dict_has(nd(ip, a[0]), a[1])

    def dyn(ip, o, name):
        if name in ('node', 'nodes'):
            return NodeView(o, False)
        if name == 'edges':
            return EdgeView(o, False)
        if name == 'degree':
            return DegView(o)
        if name in ('adj',):
            raise Unsup('adj')
        return NotImplemented

    b = lambda n, f: Builtin('Graph.' + n, f)
    attrs = {'add_node': b('add_node', add_node), 'add_edge': b('add_edge', add_edge), 'has_node': b('has_node', has_node),
             'has_edge': b('has_edge', has_edge), 'remove_edge': b('remove_edge', remove_edge),
             'remove_node': b('remove_node', remove_node), '__getitem__': b('getitem', getitem),
             '__contains__': b('contains', contains),
             '__len__': b('len', lambda ip, a, k: ip.dict_len(nd(ip, a[0]))),
             'number_of_nodes': b('number_of_nodes', lambda ip, a, k: ip.dict_len(nd(ip, a[0]))),
             'number_of_edges': b('number_of_edges', lambda ip, a, k: ip.dict_len(ed(ip, a[0]))),
             'order': b('order', lambda ip, a, k: ip.dict_len(nd(ip, a[0]))),
             '__iter__': b('iter', lambda ip, a, k: NodeView(a[0], False)),
             'get_edge_data': b('get_edge_data', lambda ip, a, k: (lambda r: r[1] if r[0] == 'v' else
                                                                   (a[3] if len(a) > 3 else None))(
                 ip.dict_find(ed(ip, a[0]), (a[1], a[2])))),
             '__getattr_host__': dyn}
    cls = ClassVal('Graph', [obj], attrs, 'networkx', host)
    ip.graphcls = cls
    ip.model_modules['networkx'] = {'Graph': cls}


# =====================================================================================  ElementTree
def install_etree(ip):
    obj = ip.builtins['object']
    ctx = ip.ctx

    def host(ip, cls, args, kw):
        ctx = ip.ctx
        r = ctx.alloc(InstRec(cls, {'tag': args[0], 'attrib': ip.mkdict(), 'children': ip.mklist(), 'text': None,
                                    'tail': None}))
        if len(args) > 1:
            ip.call(ip.getattr(ctx.get(r).attrs['attrib'], 'update'), [args[1]])
        for k, v in kw.items():
            ip.dict_set(ctx.get(r).attrs['attrib'], k, v)
        return r

    def A(ip, o, n):
        return ip.ctx.get(o).attrs[n]

    def set_(ip, a, k):
        ip.dict_set(A(ip, a[0], 'attrib'), a[1], a[2])

    def get_(ip, a, k):
        r = ip.dict_find(A(ip, a[0], 'attrib'), a[1])
        return r[1] if r[0] == 'v' else (a[2] if len(a) > 2 else None)

    def append(ip, a, k):
        c = A(ip, a[0], 'children')
        r = ip.ctx.get(c)
        ip.ctx.put(c, ListRec(r.segs + (Lit(a[1]),)))

    def insert(ip, a, k):
        ip.call(ip.getattr(A(ip, a[0], 'children'), 'insert'), a[1:])

    b = lambda n, f: Builtin('Element.' + n, f)
    attrs = {'set': b('set', set_), 'get': b('get', get_), 'append': b('append', append), 'insert': b('insert', insert),
             'extend': b('extend', lambda ip, a, k: ip.list_extend(A(ip, a[0], 'children'), a[1])),
             '__len__': b('len', lambda ip, a, k: ip.length(A(ip, a[0], 'children'))),
             '__iter__': b('iter', lambda ip, a, k: A(ip, a[0], 'children')),
             '__bool__': b('bool', lambda ip, a, k: raise_u('truth of an Element')),
             '__getitem__': b('getitem', lambda ip, a, k: ip.getitem(A(ip, a[0], 'children'), a[1])),
             'keys': b('keys', lambda ip, a, k: ip.call(ip.getattr(A(ip, a[0], 'attrib'), 'keys'), [])),
             'items': b('items', lambda ip, a, k: ip.call(ip.getattr(A(ip, a[0], 'attrib'), 'items'), []))}
    cls = ClassVal('Element', [obj], attrs, 'xml.etree.ElementTree', host)
    ip.elcls = cls

    def sub(ip, a, k):
        e = host(ip, cls, [a[1]] + list(a[2:]), k)
        append(ip, [a[0], e], {})
        return e

    def tree_host(ip, c, args, kw):
        return ip.ctx.alloc(InstRec(c, {'root': args[0] if args else None}))

    def write(ip, a, k):
        ip.ctx.trace.append(('xml-write', a[1], A(ip, a[0], 'root'), dict(k)))
        if ip.write_log is not None:
            ip.call(ip.getattr(ip.write_log, 'append'), [(a[1], A(ip, a[0], 'root'), k.get('encoding'), k.get('xml_declaration'))])
    tree = ClassVal('ElementTree', [obj], {'write': Builtin('ElementTree.write', write),
                                           'getroot': Builtin('getroot', lambda ip, a, k: A(ip, a[0], 'root'))},
                    'xml.etree.ElementTree', tree_host)
    m = {'Element': cls, 'SubElement': Builtin('SubElement', sub), 'ElementTree': tree}
    ip.model_modules['xml.etree.cElementTree'] = m
    ip.model_modules['xml.etree.ElementTree'] = m
    ip.model_modules['xml.etree'] = {}
    ip.model_modules['xml'] = {}


def raise_u(m):
    raise Unsup(m)


# =====================================================================================  minidom
CONSTS = {'ELEMENT_NODE': 1, 'ATTRIBUTE_NODE': 2, 'TEXT_NODE': 3, 'CDATA_SECTION_NODE': 4, 'PROCESSING_INSTRUCTION_NODE': 7,
          'COMMENT_NODE': 8, 'DOCUMENT_NODE': 9}


TEXT_ELEMENTS = ('incoming', 'outgoing', 'flowNodeRef', 'conditionExpression')


class DomFns:
    def __init__(self, ctx):
        f = ctx.fn
        self.NT = f('dom.nodeType', I, I)
        self.TAG = f('dom.tag', I, S)
        self.HAS = f('dom.hasattr', I, S, B)
        self.ATTR = f('dom.attr', I, S, S)
        self.NCH = f('dom.nch', I, I)
        self.CH = f('dom.ch', I, I, I)
        self.NV = f('dom.value', I, S)
        self.GN = f('dom.gn', I, S, I)
        self.GE = f('dom.ge', I, S, I, I)
        self.LOCAL = f('last_seg::', S, S)


class DomEl:
    """An existing DOM node (element, text, comment...)."""
    is_cursor = True
    host_kind = 'dom'

    def __init__(self, ip, t, parent=None, idx=None, element=False):
        self.t, self.parent, self.idx = t, parent, idx
        self.F = DomFns(ip.ctx)
        self.element = element
        nt = self.F.NT(t)
        if element:
            ip.ctx.assume(nt == 1)
        else:
            ip.ctx.assume(z3.Or(nt == 1, nt == 3, nt == 4, nt == 7, nt == 8))
        ip.ctx.assume(self.F.NCH(t) >= 0)
        if ip.dom_elements_only_text:
            ip.ctx.assume(z3.Or(nt == 1, nt == 3))

    def __repr__(self):
        return '<dom %s>' % self.t

    def ident(self, ip, o):
        if isinstance(o, DomCur):
            return o.ident(ip, self)
        if not isinstance(o, DomEl):
            return False
        return mk('bool', self.t == o.t)

    def same_host(self, o):
        return isinstance(o, DomEl) and self.t.eq(o.t)

    def inst(self, ins):
        d = object.__new__(DomEl)
        d.__dict__.update(self.__dict__)
        d.t = ins.z(self.t)
        d.parent = ins.z(self.parent) if self.parent is not None else None
        d.idx = ins.z(self.idx) if self.idx is not None else None
        return d

    def truth(self, ip):
        return True

    def is_elem(self, ip):
        return True if self.element else ip.ctx.fork(self.F.NT(self.t) == 1)

    # cursor protocol
    def siblings_from(self, ip):
        if self.parent is None:
            return None
        F = self.F
        par, lo = self.parent, self.idx
        n = F.NCH(par)
        return BaseGen(z3.If(n > lo, n - lo, z3.IntVal(0)),
                       lambda c, a, t: DomEl(ip, F.CH(a[0], a[1] + t), a[0], a[1] + t), [par, lo])

    def is_next(self, ip, o):
        if isinstance(o, DomCur) and o.parent.eq(self.parent):
            return ip.ctx.is_valid(o.idx == self.idx + 1)
        return False

    def attr(self, ip, name):
        F, t = self.F, self.t
        if name == 'nodeType':
            return mk('int', z3.IntVal(1) if self.element else F.NT(t))
        if name in CONSTS:
            return CONSTS[name]
        if name == 'tagName':
            if not self.is_elem(ip):
                ip.throw('AttributeError', 'tagName')
            return Sym('str', F.TAG(t))
        if name == 'nodeName':
            if not self.is_elem(ip):
                raise Unsup('nodeName of a non-element')
            return Sym('str', F.TAG(t))
        if name == 'localName':
            if not self.is_elem(ip):
                return None
            return Sym('str', F.LOCAL(F.TAG(t)))
        if name == 'nodeValue':
            if self.is_elem(ip):
                return None
            return Sym('str', F.NV(t))
        if name == 'data':
            if self.is_elem(ip):
                ip.throw('AttributeError', 'data')
            return Sym('str', F.NV(t))
        if name == 'firstChild':
            if not self.is_elem(ip):
                return None
            # well-formed BPMN: these elements hold a text (documented precondition)
            loc = F.LOCAL(F.TAG(t))
            ip.ctx.assume(z3.Or(z3.Not(z3.Or([loc == z3.StringVal(x) for x in TEXT_ELEMENTS])),
                                z3.And(F.NCH(t) > 0, F.NT(F.CH(t, 0)) == 3)))
            return DomCur(ip, t, z3.IntVal(0))
        if name == 'nextSibling':
            if self.parent is None:
                raise Unsup('nextSibling of an element of unknown position')
            return DomCur(ip, self.parent, self.idx + 1)
        if name == 'parentNode':
            raise Unsup('parentNode')
        if name == 'childNodes':
            if not self.is_elem(ip):
                return ()
            return ip.ctx.alloc(ListRec([BaseGen(F.NCH(t), lambda c, a, i: DomEl(ip, F.CH(a[0], i), a[0], i), [t])]))
        if name in ('getAttribute', 'hasAttribute', 'getElementsByTagNameNS', 'getElementsByTagName', 'getAttributeNS'):
            if not self.is_elem(ip):
                ip.throw('AttributeError', name)
            return Builtin('dom.' + name, lambda ip, a, k: self.meth(ip, name, a))
        if name == 'hasChildNodes':
            return Builtin('dom.hasChildNodes', lambda ip, a, k: mk('bool', F.NCH(t) > 0))
        if name in ('attributes', 'normalize', 'toxml', 'ownerDocument', 'lastChild', 'previousSibling'):
            raise Unsup('dom.' + name)
        raise Unsup('dom.' + name)

    def meth(self, ip, name, a):
        F, t = self.F, self.t
        a = [ip.force(x) for x in a]
        if name == 'getAttribute':
            k = kterm(a[0])
            ip.ctx.assume(z3.Or(F.HAS(t, k), F.ATTR(t, k) == z3.StringVal('')))
            return Sym('str', F.ATTR(t, k))
        if name == 'hasAttribute':
            return mk('bool', F.HAS(t, kterm(a[0])))
        if name == 'getElementsByTagNameNS':
            if a[0] != '*' or not isinstance(a[1], str):
                raise Unsup('getElementsByTagNameNS')
            k = z3.StringVal(a[1])
            ip.ctx.assume(F.GN(t, k) >= 0)

            def el(c, ar, i):
                e = F.GE(ar[0], k, i)
                c.assume(z3.And(F.NT(e) == 1, F.LOCAL(F.TAG(e)) == k))
                return DomEl(ip, e, None, None, True)
            return ip.ctx.alloc(ListRec([BaseGen(F.GN(t, k), el, [t], 'descendants')]))
        raise Unsup('dom.' + name)


class DomCur:
    """parent.childNodes[idx] or None when past the end."""
    is_cursor = True

    def __init__(self, ip, parent, idx):
        self.parent, self.idx = parent, idx
        self.F = DomFns(ip.ctx)

    def exists(self):
        return z3.And(self.idx >= 0, self.idx < self.F.NCH(self.parent))

    def el(self, ip):
        return DomEl(ip, self.F.CH(self.parent, self.idx), self.parent, self.idx)

    def ident(self, ip, o):
        if o is None:
            return mk('bool', z3.Not(self.exists()))
        if isinstance(o, DomCur):
            return mk('bool', z3.Or(z3.And(z3.Not(self.exists()), z3.Not(o.exists())),
                                    z3.And(self.exists(), o.exists(), self.F.CH(self.parent, self.idx) ==
                                           self.F.CH(o.parent, o.idx))))
        if isinstance(o, DomEl):
            return mk('bool', z3.And(self.exists(), self.F.CH(self.parent, self.idx) == o.t))
        return False

    def truth(self, ip):
        return self.exists()

    def same_host(self, o):
        return isinstance(o, DomCur) and self.parent.eq(o.parent) and self.idx.eq(o.idx)

    def inst(self, ins):
        d = object.__new__(DomCur)
        d.__dict__.update(self.__dict__)
        d.parent, d.idx = ins.z(self.parent), ins.z(self.idx)
        return d

    def siblings_from(self, ip):
        F = self.F
        n = F.NCH(self.parent)
        ip.ctx.assume(n >= 0)
        cnt = n if z3.simplify(self.idx).eq(z3.IntVal(0)) else z3.If(n > self.idx, n - self.idx, z3.IntVal(0))
        return BaseGen(cnt, lambda c, a, t: DomEl(ip, F.CH(a[0], z3.simplify(a[1] + t)), a[0], z3.simplify(a[1] + t)),
                       [self.parent, self.idx])

    def is_next(self, ip, o):
        return False

    def attr(self, ip, name):
        if not ip.ctx.fork(self.exists()):
            ip.throw('AttributeError', "'NoneType' object has no attribute '%s'" % name)
        return self.el(ip).attr(ip, name)


class DomDoc:
    """Parsed document: only descendants-by-name are reachable."""

    def __init__(self, ip, t):
        self.t = t

    def attr(self, ip, name):
        if name in ('getElementsByTagNameNS',):
            F = DomFns(ip.ctx)
            d = DomEl(ip, self.t, None, None, True)
            return Builtin('dom.' + name, lambda ip, a, k: d.meth(ip, name, a))
        if name == 'documentElement':
            raise Unsup('documentElement')
        raise Unsup('document.' + name)


Interp.dom_elements_only_text = False
Interp.write_log = None


def install_dom(ip):
    def parse(ip, a, k):
        ip.ctx.trace.append(('parse', a[0]))
        return DomDoc(ip, z3.Int('dom.document'))
    ip.model_modules['xml.dom'] = {}
    ip.model_modules['xml.dom.minidom'] = {'parse': Builtin('minidom.parse', parse), 'Node': ModuleVal('Node', CONSTS)}


def install(ip):
    install_networkx(ip)
    install_etree(ip)
    install_dom(ip)


# host-object calls
_orig_call = Interp.call


def _call(self, f, args, kw=None):
    if hasattr(f, 'host_call'):
        return f.host_call(self, list(args), kw or {})
    return _orig_call(self, f, args, kw)


Interp.call = _call
