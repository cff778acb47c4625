"""topological_sort (C11): for every diagram, the sort ends, raises nothing, and lists every node exactly once - after all its predecessors
if the diagram has no cycles.

Ghost state.  The nodes still to be sorted (the deep copy) are a set; `in` and `out` are the sets of flows still listed as incoming at their
target and as outgoing at their source; `nin`, `nout` the lengths of these lists, `live` the size of `in`.  Lists that start empty (`[]`) hold
copies (set `c`) or original nodes (set `o`, with their positions `p`).  A diagram without cycles is one with a rank that grows along flows."""
from pyv import invariants, paths
from pyv.invariants import All, every
from pyv.contract import *
from goals import grid
from goals.grid import Classified, Labels, L
from goals.c10 import REP

NONE = z3.K(S, z3.BoolVal(False))
DIR = {'incoming': ('in', 'nin'), 'outgoing': ('out', 'nout')}


class Copy(Classified):
    """Deep copy of a classified node."""

    def getitem(self, ip, k):
        if k == 'node':
            return CopyNode(self.w, self.id)
        if k == 'classification':
            return Labels(self.w, self.id)
        raise Unsup('item %r of a classified node' % (k,))

    def ident(self, ip, o):
        if not isinstance(o, Copy):
            raise Unsup('comparison with a classified node')
        return ip.eq(self.id, o.id)

    def inst(self, ins):
        return Copy(self.w, ins.val(self.id))

    def same_host(self, o):
        return isinstance(o, Copy) and self.id == o.id


class CopyNode:
    def __init__(self, w, id):
        self.w, self.id = w, id

    def getitem(self, ip, k):
        if k == 0:
            return self.id
        if k == 1:
            return CopyAttrs(self.w, self.id)
        raise Unsup('item %r of an element' % (k,))

    def segs_of(self, ip):
        return [Lit(self.id), Lit(CopyAttrs(self.w, self.id))]

    def ident(self, ip, o):
        if not isinstance(o, CopyNode):
            raise Unsup('comparison with an element')
        return ip.eq(self.id, o.id)

    def inst(self, ins):
        return type(self)(self.w, ins.val(self.id))

    def same_host(self, o):
        return type(o) is type(self) and self.id == o.id

    def truth(self, ip):
        return True


class CopyAttrs(CopyNode):
    def getitem(self, ip, k):
        if k not in DIR:
            raise Unsup('attribute %r of a copy' % (k,))
        self.w.c.index_term(zt(self.id))
        self.w.counts(zt(self.id))
        return self.w.c.alloc(InstRec(self.w.livecls, {'x': self.id, 'd': k}))

    def segs_of(self, ip):
        raise Unsup('keys of a copy')


class TopoRule(invariants.Rule):
    def __init__(self, w):
        self.w = w

    def measure(self, ip):
        w = self.w
        if w.tmp is None:
            return None
        a, b = zt(w.get(w.tmp, 'n')), zt(w.get(w.fs, 'live'))
        w.c.assume(z3.And(a >= 0, b >= 0))
        return a + b

    def begin(self, ip, g):
        return getattr(g, 'info', None)

    def candidates(self, ctx, loc, init):
        cs = invariants.Rule.candidates(self, ctx, loc, init)
        w = self.w
        if loc[0] != 'attr' or w.tmp is None:
            return cs
        o, name = loc[1:]
        node = lambda fn: cs.append(All(ctx, w.node_any, fn))
        flow = lambda fn: cs.append(All(ctx, w.flow_any, fn))
        t0 = zt(init)
        T = lambda y: zt(w.get(w.tmp, 's'))[y]
        nin = lambda y: zt(w.get(w.fs, 'nin'))[y]
        kind, d = self.loop if self.loop else (None, None)
        seen = (lambda f, i: z3.And(d['member'](f), d['pos'](f) < i)) if kind == 'flows' else None
        if o == w.fs.o:
            if name in ('in', 'out'):
                flow(lambda v, i, f: z3.Implies(v[f], t0[f]))
                if seen:
                    flow(lambda v, i, f: v[f] == z3.And(t0[f], z3.Not(seen(f, i))))
            if name == 'in':
                flow(lambda v, i, f: v[f] == zt(w.get(w.fs, 'out'))[f])
                flow(lambda v, i, f: z3.Implies(v[f], z3.And(T(w.SRC(f)), T(w.TGT(f)))))
                if w.acyclic:
                    for b in w.bags:
                        flow(lambda v, i, f, b=b: z3.Implies(z3.And(w.FLOWS[f], z3.Not(v[f])), zt(w.get(b, 'o'))[w.SRC(f)]))
            if name in ('nin', 'nout'):
                node(lambda v, i, y: v[y] >= 0)
                node(lambda v, i, y: v[y] <= t0[y])
                node(lambda v, i, y: z3.Implies(t0[y] == 0, v[y] == 0))
                if kind == 'nodes':
                    node(lambda v, i, y: z3.Implies(z3.And(T(y), d['pos'](y) >= i), v[y] == t0[y]))
                if kind == 'flows':
                    node(lambda v, i, y: z3.Implies(y != d['x'], v[y] == t0[y]))
                    cs.append(lambda v, i: zt(v)[d['x']] == t0[d['x']] - i)
            if name == 'live':
                cs.append(lambda v, i: zt(v) == zt(init) - i)
                if kind == 'nodes':
                    for t in [z3.IntVal(0)] + [t for t in ctx.idx if t.sort() == I]:
                        cs.append(lambda v, i, t=t: z3.Implies(z3.And(t >= 0, i > t), zt(v) < zt(init)))
        elif o == w.tmp.o:
            if name == 's':
                node(lambda v, i, y: z3.Implies(v[y], t0[y]))
            if name == 'n':
                for b in w.bags:
                    more = zt(init) - zt(w.get(b, 'n'))
                    cs.append(lambda v, i, b=b, more=more: zt(v) - zt(w.get(b, 'n')) == more)
        elif any(b.o == o for b in w.bags):
            if name == 'c':
                node(lambda v, i, y: z3.Implies(v[y], z3.And(T(y), nin(y) == 0)))
                node(lambda v, i, y: z3.Not(v[y]))
                if kind == 'nodes':
                    node(lambda v, i, y: z3.Implies(v[y], z3.Or(t0[y], z3.And(T(y), d['pos'](y) < i))))
                    node(lambda v, i, y: z3.Implies(z3.And(T(y), d['pos'](y) < i, nin(y) == 0), v[y]))
            if name == 'o':
                ref = Ref(o)
                p, n = (lambda y: zt(w.get(ref, 'p'))[y]), (lambda: zt(w.get(ref, 'n')))
                node(lambda v, i, y: z3.Implies(w.NODES[y], z3.Xor(T(y), v[y])))
                node(lambda v, i, y: z3.Implies(v[y], w.NODES[y]))
                if w.acyclic:
                    node(lambda v, i, y: z3.Implies(v[y], z3.And(p(y) >= 0, p(y) < n())))
                    flow(lambda v, i, f: z3.Implies(z3.And(w.FLOWS[f], v[w.TGT(f)]),
                                                    z3.And(v[w.SRC(f)], p(w.SRC(f)) < p(w.TGT(f)))))
        elif name == 'gone':
            flow(lambda v, i, f: z3.Implies(t0[f], v[f]))
            if seen:
                flow(lambda v, i, f: v[f] == z3.Or(t0[f], seen(f, i)))
        return cs


class World(grid.World):
    def __init__(self, env, acyclic):
        self.tmp, self.bags = None, []
        grid.World.__init__(self, env, acyclic)
        c = self.c
        self.RANK = c.fn('rank', S, I)
        self.NODES, self.FLOWS = z3.Const('nodes', SORT['set']), z3.Const('flows', SORT['set'])
        nin, nout = z3.Const('nin', SORT['ints']), z3.Const('nout', SORT['ints'])
        self.node_any, self.flow_any = z3.String('any.node'), z3.String('any.flow')
        live = z3.Int('flows.n')
        self.fs = c.alloc(InstRec(self.livecls, {'in': Sym('set', self.FLOWS), 'out': Sym('set', self.FLOWS), 'nin': Sym('ints', nin),
                                                 'nout': Sym('ints', nout), 'live': Sym('int', live)}))
        c.add_forall(every(lambda y: z3.And(nin[y] == self.INC(y), nout[y] == self.OUT(y), nin[y] >= 0, nout[y] >= 0)))

        def flow(f):
            fs = [self.NODES[self.SRC(f)], self.NODES[self.TGT(f)]] + ([self.RANK(self.SRC(f)) < self.RANK(self.TGT(f))] if acyclic else [])
            return z3.Implies(self.FLOWS[f], z3.And(*fs))
        c.add_forall(every(flow))
        c.index_term(self.node_any)
        self.touch(self.flow_any)
        self.nodes = c.alloc(InstRec(self.nodescls, {}))

    def get(self, ref, name):
        return self.c.get(ref).attrs[name]

    def put(self, ref, **kw):
        r = self.c.get(ref)
        a = dict(r.attrs)
        a.update(kw)
        self.c.put(ref, InstRec(r.cls, a))

    def touch(self, f):
        for t in (f, self.SRC(f), self.TGT(f)):
            self.c.index_term(t)

    def know(self, fn):
        fa = every(fn)
        if not any(x.lo is None and x.body.eq(fa.body) for x in self.c.foralls):
            self.c.add_forall(fa)

    def counts(self, x):
        """A list with a member is not empty."""
        for (s, n), end in zip(DIR.values(), (self.TGT, self.SRC)):
            s, n = [zt(self.get(self.fs, k)) for k in (s, n)]
            self.c.assume(n[x] >= 0)
            self.know(lambda f: z3.Implies(z3.And(s[f], end(f) == x), n[x] >= 1))

    def version(self):
        return Sym('int', self.c.fresh('int', 'version'))

    def seq(self, name, v, n, member, source, wrap, info):
        """The members of a set in some order."""
        c = self.c
        at, pos = c.fn(name + '.at', I, I, S), c.fn(name + '.pos', I, S, I)
        c.assume(n >= 0)
        t = z3.Int('seq!t')
        c.add_forall(Forall(t, z3.IntVal(0), n, z3.And(member(at(v, t)), pos(v, at(v, t)) == t)))
        self.know(lambda y: z3.Implies(member(y), z3.And(pos(v, y) >= 0, pos(v, y) < n, at(v, pos(v, y)) == y)))
        for y in [y for y in c.idx if y.sort() == S]:
            c.index_term(pos(v, y))
        g = BaseGen(n, lambda cc, a, t: wrap(Sym('str', at(a[0], t))), [v], name)
        g.source = source
        g.info = (info[0], dict(info[1], pos=lambda y: pos(v, y), member=member)) if info else None
        return c.alloc(ListRec([g]))

    # ---- lists
    def classes(self, ip):
        grid.World.classes(self, ip)
        c = self.c
        b = lambda name, f: Builtin('list.' + name, f)
        cls = lambda attrs: ClassVal('list', [ip.builtins['object']], dict(
            {k: b(k, f) if k != '__opaque_list__' and k != '__deep_copy__' else f for k, f in attrs.items()}), 'builtins', None)

        def member(v, x, what):
            if not ip.truth(mk('bool', v)):
                ip.throw('ValueError', 'list.remove(x): x not in list')

        def plain(k):
            if k:
                raise Unsup('keyword arguments')

        # the list given to topological_sort
        def nodes_iter(ip, a, k):
            return self.seq('given', z3.IntVal(0), z3.Int('nodes.n'), lambda y: self.NODES[y], None, lambda s: Classified(self, s), None)

        def nodes_copy(ip, ref):
            if self.tmp is not None and self.tmp != getattr(self.env, 'tmp', None):
                raise Unsup('second copy')
            self.tmp = c.alloc(InstRec(self.tmpcls, {'s': Sym('set', self.NODES), 'n': Sym('int', z3.Int('nodes.n')), 'v': 0}))
            return self.tmp
        self.nodescls = cls({'__iter__': nodes_iter, '__deep_copy__': nodes_copy})

        # nodes still to be sorted
        def tmp_iter(ip, a, k):
            s = zt(self.get(a[0], 's'))
            return self.seq('tmp', zt(self.get(a[0], 'v')), zt(self.get(a[0], 'n')), lambda y: s[y], a[0].o, lambda x: Copy(self, x), ('nodes', {}))

        def tmp_len(ip, a, k):
            s, n = zt(self.get(a[0], 's')), zt(self.get(a[0], 'n'))
            c.assume(n >= 0)
            self.know(lambda y: z3.Implies(s[y], n >= 1))
            if self.acyclic:
                # a node of least rank, and one of the flows into it
                m, f = c.fresh('str', 'least'), c.fresh('str', 'into')
                c.assume(z3.Implies(n >= 1, s[m]))
                self.know(lambda y: z3.Implies(z3.And(n >= 1, s[y]), self.RANK(m) <= self.RANK(y)))
                c.index_term(m)
                self.counts(m)
                c.assume(z3.Implies(zt(self.get(self.fs, 'nin'))[m] >= 1, z3.And(zt(self.get(self.fs, 'in'))[f], self.TGT(f) == m)))
                self.touch(f)
            return Sym('int', n)

        def tmp_item(ip, a, k):
            i, n = a[1], zt(self.get(a[0], 'n'))
            if kind_of(i) != 'int':
                raise Unsup('index')
            i = zt(i)
            if c.fork(z3.Or(i >= n, i < -n)):
                ip.throw('IndexError', 'list index out of range')
            i = z3.simplify(z3.If(i < 0, n + i, i))
            tmp_iter(ip, a, k)
            c.index_term(i)
            x = c.fn('tmp.at', I, I, S)(zt(self.get(a[0], 'v')), i)
            c.index_term(x)
            return Copy(self, Sym('str', x))

        def tmp_has(ip, a, k):
            if not isinstance(a[1], Copy):
                raise Unsup('membership of something else')
            return mk('bool', zt(self.get(a[0], 's'))[zt(a[1].id)])

        def tmp_remove(ip, a, k):
            member(zt(tmp_has(ip, a, k)), None, None)
            s, n = zt(self.get(a[0], 's')), zt(self.get(a[0], 'n'))
            c.assume(n >= 1)
            self.put(a[0], s=Sym('set', z3.Store(s, zt(a[1].id), False)), n=Sym('int', n - 1), v=self.version())
        self.tmpcls = cls({'__iter__': tmp_iter, '__len__': tmp_len, '__getitem__': tmp_item, '__contains__': tmp_has, 'remove': tmp_remove})

        # incoming or outgoing flows of a copy
        def live(ref):
            r = c.get(ref).attrs
            d, x = r['d'], zt(r['x'])
            s, n = [self.get(self.fs, k) for k in DIR[d]]
            return d, x, zt(s), zt(n), self.TGT if d == 'incoming' else self.SRC

        def live_len(ip, a, k=None):
            d, x, s, n, end = live(a[0])
            f = c.fresh('str', 'some')
            c.assume(z3.And(n[x] >= 0, z3.Implies(n[x] >= 1, z3.And(s[f], end(f) == x))))
            self.know(lambda g: z3.Implies(z3.And(s[g], end(g) == x), n[x] >= 1))
            self.touch(f)
            return Sym('int', n[x])

        def live_remove(ip, a, k):
            if kind_of(a[1]) != 'str':
                raise Unsup('removal of something else')
            d, x, s, n, end = live(a[0])
            f = zt(a[1])
            self.touch(f)
            member(z3.And(s[f], end(f) == x), None, None)
            c.assume(n[x] >= 1)
            upd = {DIR[d][0]: Sym('set', z3.Store(s, f, False)), DIR[d][1]: Sym('ints', z3.Store(n, x, n[x] - 1))}
            if d == 'incoming':
                k = zt(self.get(self.fs, 'live'))
                c.assume(k >= 1)
                upd['live'] = Sym('int', k - 1)
            self.put(self.fs, **upd)

        def live_copy(ip, ref):
            d, x, s, n, end = live(ref)
            live_len(ip, [ref])
            return c.alloc(InstRec(self.snapcls, {'s': Sym('set', s), 'gone': Sym('set', NONE), 'x': Sym('str', x), 'd': d, 'n': Sym('int', n[x]),
                                                  'v': self.version()}))

        def live_iter(ip, a, k):
            return self.call_iter(live_copy(ip, a[0]), self.fs.o)

        def live_has(ip, a, k):
            d, x, s, n, end = live(a[0])
            return mk('bool', z3.And(s[zt(a[1])], end(zt(a[1])) == x))

        def live_item(ip, a, k):
            return snap_item(ip, [live_copy(ip, a[0])] + a[1:], k)
        self.livecls = cls({'__len__': live_len, 'remove': live_remove, '__opaque_list__': live_copy, '__iter__': live_iter, '__contains__': live_has,
                            'copy': lambda ip, a, k: live_copy(ip, a[0]), '__getitem__': live_item})

        # copies of these lists
        def snap(ref):
            r = c.get(ref).attrs
            end = self.TGT if r['d'] == 'incoming' else self.SRC
            s, gone, x = zt(r['s']), zt(r['gone']), zt(r['x'])
            return (lambda f: z3.And(s[f], end(f) == x, z3.Not(gone[f]))), zt(r['n']), zt(r['v'])

        def call_iter(ref, source):
            m, n, v = snap(ref)
            return self.seq('flows', v, n, m, source, lambda f: f, ('flows', {'x': zt(self.get(ref, 'x'))}))
        self.call_iter = call_iter

        def snap_len(ip, a, k):
            m, n, v = snap(a[0])
            c.assume(n >= 0)
            self.know(lambda f: z3.Implies(m(f), n >= 1))
            return Sym('int', n)

        def snap_remove(ip, a, k):
            m, n, v = snap(a[0])
            f = zt(a[1])
            self.touch(f)
            member(m(f), None, None)
            c.assume(n >= 1)
            self.put(a[0], gone=Sym('set', z3.Store(zt(self.get(a[0], 'gone')), f, True)), n=Sym('int', n - 1), v=self.version())

        def snap_item(ip, a, k):
            m, n, v = snap(a[0])
            if kind_of(a[1]) != 'int':
                raise Unsup('index')
            i = zt(a[1])
            if c.fork(z3.Or(i >= n, i < -n)):
                ip.throw('IndexError', 'list index out of range')
            i = z3.simplify(z3.If(i < 0, n + i, i))
            call_iter(a[0], None)
            c.index_term(i)
            f = c.fn('flows.at', I, I, S)(v, i)
            self.touch(f)
            return Sym('str', f)
        self.snapcls = cls({'__len__': snap_len, 'remove': snap_remove, '__opaque_list__': lambda ip, r: c.alloc(c.get(r)),
                            '__iter__': lambda ip, a, k: call_iter(a[0], a[0].o), '__contains__': lambda ip, a, k: mk('bool', snap(a[0])[0](zt(a[1]))),
                            'copy': lambda ip, a, k: c.alloc(c.get(a[0])), '__getitem__': snap_item})

        # lists that start empty
        def bag_append(ip, a, k):
            r, x = c.get(a[0]).attrs, a[1]
            n = zt(r['n'])
            if not isinstance(x, Classified):
                self.put(a[0], n=Sym('int', n + 1), m=Sym('int', zt(r['m']) + 1))
                return
            slot, i = 'c' if isinstance(x, Copy) else 'o', zt(x.id)
            s = zt(r[slot])
            if not c.is_valid(z3.Not(s[i])):
                raise Unsup('a node may be listed twice')
            c.index_term(i)
            self.put(a[0], **{slot: Sym('set', z3.Store(s, i, True)), 'n': Sym('int', n + 1),
                              'p': Sym('ints', z3.Store(zt(r['p']), i, n)) if slot == 'o' else r['p']})

        def bag_extend(ip, a, k):
            for s in ip.iter_segs(a[1]):
                if not isinstance(s, Lit):
                    raise Unsup('extended by an unknown list')
                bag_append(ip, [a[0], s.v], {})
            return a[0]

        def bag_len(ip, a, k):
            r = c.get(a[0]).attrs
            n, cc, o = zt(r['n']), zt(r['c']), zt(r['o'])
            c.assume(n >= 0)
            self.know(lambda y: z3.Implies(z3.Or(cc[y], o[y]), n >= 1))
            return mk('int', n)

        def bag_pop(ip, a, k):
            r = c.get(a[0]).attrs
            if len(a) > 1 and a[1] not in (0, -1) or not z3.is_const_array(zt(r['o'])) or r['m'] != 0:
                raise Unsup('pop')
            n = zt(r['n'])
            if c.fork(n <= 0):
                ip.throw('IndexError', 'pop from empty list')
            x = c.fresh('str', 'popped')
            c.assume(zt(r['c'])[x])
            c.index_term(x)
            self.put(a[0], c=Sym('set', z3.Store(zt(r['c']), x, False)), n=Sym('int', n - 1))
            return Copy(self, Sym('str', x))
        self.bagcls = cls({'append': bag_append, 'extend': bag_extend, '__iadd__': bag_extend, '__len__': bag_len, 'pop': bag_pop})

    def empty(self):
        r = self.c.alloc(InstRec(self.bagcls, {'c': Sym('set', NONE), 'o': Sym('set', NONE), 'n': 0, 'm': 0, 'p': Sym('ints', z3.K(S, z3.IntVal(-1)))}))
        self.bags.append(r)
        return r

    def overrides(self):
        over = grid.World.overrides(self)
        get = over[REP + 'get_flow_by_id']

        def flow(ip, f, args, kw):
            r = get(ip, f, args, kw)
            self.touch(zt(args[1] if len(args) > 1 else kw['flow_id']))
            return r
        over[REP + 'get_flow_by_id'] = flow
        return over


def sorting(acyclic):
    def fn(env):
        env.boot([])
        impl = env.fn(L + 'topological_sort', 2)

        def path():
            c, ip = env.ctx, env.ip
            w = World(env, acyclic)
            ip.overrides = w.overrides()
            ip.loop_rule = TopoRule(w)
            ip.empty_list = w.empty
            r = env.attempt(lambda: ip.call(impl, [w.d.ref, w.nodes]))
            c.prove('no exception', r[0] == 'ret')
            if r[0] == 'ret':
                v = r[1]
                if not (isinstance(v, tuple) and len(v) == 2 and v[0] in w.bags):
                    raise Unsup('result')
                a = c.get(v[0]).attrs
                y, f = w.node_any, w.flow_any
                o, p = zt(a['o']), zt(a['p'])
                c.prove('every node is listed', z3.Implies(w.NODES[y], o[y]))
                c.prove('only nodes are listed', z3.And(z3.Implies(o[y], w.NODES[y]), z3.Not(zt(a['c'])[y]), zt(a['m']) == 0))
                if acyclic:
                    c.prove('predecessors come first', z3.Implies(w.FLOWS[f], p[w.SRC(f)] < p[w.TGT(f)]))
            env.end_path()
        env.ctx.explore(path)
    return Goal('C11', 'topological_sort (%s)' % ('no cycles' if acyclic else 'any diagram'), fn, [L + 'topological_sort'], soft=True, timeout=500)


GOALS = [sorting(True), sorting(False)]


# ---- generate_layout: the steps above, one after the other
STEPS = {'generate_elements_clasification': ['bpmn_graph'], 'topological_sort': ['bpmn_graph', 'nodes_with_classification'],
         'grid_layout': ['bpmn_graph', 'sorted_nodes_with_classification'], 'set_coordinates_for_nodes': ['bpmn_graph', 'grid'],
         'set_flows_waypoints': ['bpmn_graph']}


def composition(env):
    env.boot([])
    impl = env.fn(L + 'generate_layout', 1)
    for f, a in STEPS.items():
        env.fn(L + f, len(a))

    def path():
        c, ip = env.ctx, env.ip
        d = Diagram(env)
        token = {k: c.alloc(InstRec(ClassVal(k, [ip.builtins['object']], {}, 'ghost', None), {})) for k in ('nodes', 'flows', 'order', 'backward', 'grid')}
        state = c.alloc(InstRec(ClassVal('state', [ip.builtins['object']], {}, 'ghost', None), {'coordinates': False, 'waypoints': False}))

        def step(name):
            def f(ip, fn, args, kw):
                a = grid.bound(STEPS[name], args, kw)
                c.prove('%s: the diagram' % name, a['bpmn_graph'] == d.ref)
                if name == 'generate_elements_clasification':
                    return (token['nodes'], token['flows'])
                if name == 'topological_sort':
                    c.prove('sorted: the classified nodes', a['nodes_with_classification'] == token['nodes'])
                    return (token['order'], token['backward'])
                if name == 'grid_layout':
                    c.prove('placed: the sorted nodes', a['sorted_nodes_with_classification'] == token['order'])
                    return token['grid']
                s = dict(c.get(state).attrs)
                if name == 'set_coordinates_for_nodes':
                    c.prove('coordinates: from the grid', a['grid'] == token['grid'])
                    s['coordinates'], s['waypoints'] = True, False
                else:
                    s['waypoints'] = s['coordinates']
                c.put(state, InstRec(c.get(state).cls, s))
            return f
        ip.overrides = {L + k: step(k) for k in STEPS}
        r = env.attempt(lambda: ip.call(impl, [d.ref]))
        c.prove('no exception', r[0] == 'ret')
        if r[0] == 'ret':
            s = c.get(state).attrs
            c.prove('nodes get coordinates', s['coordinates'] is True)
            c.prove('flows get way points for these coordinates', s['waypoints'] is True)
        env.end_path()
    env.ctx.explore(path)


def lemma_coordinates(env):
    """Distinct cells have distinct coordinates, and a column further right has the larger x (contract of set_coordinates_for_nodes)."""
    env.boot(['contracts.layout'])

    def path():
        c = env.ctx
        r1, c1, r2, c2 = [z3.Int(x) for x in ('r1', 'c1', 'r2', 'c2')]
        x, y = (lambda col: col * 150 + 50), (lambda row: row * 100 + 50)
        c.prove('distinct', z3.Implies(z3.Or(r1 != r2, c1 != c2), z3.Or(x(c1) != x(c2), y(r1) != y(r2))))
        c.prove('to the right', z3.Implies(c1 < c2, x(c1) < x(c2)))
        env.end_path()
    env.ctx.explore(path)


GOALS += [Goal('C11', 'generate_layout', composition, [L + 'generate_layout'], soft=True),
          Goal('C11', 'lemma: coordinates of distinct cells', lemma_coordinates, [])]
