"""Placing of nodes in the grid (C11): one call of place_element_in_grid for an arbitrary node, grid and diagram, the recursive calls
and insert_into_grid through their contracts; and grid_layout through the contract of place_element_in_grid.

The cells of a grid are a growing sequence: cell t holds NODE(t) in column COL(t), POS(x) is the index of the cell of x (insertion never
changes the column or the node of an old cell: lemma of C11).  Rows may change with every insertion.  Each insertion has to be of a node
that is not in the grid yet, in the right column; that cells stay distinct is the lemma on insert_into_grid."""
from pyv import paths, invariants
from pyv.contract import *
from goals.c10 import World as Graph

L = 'bpmn_python.bpmn_diagram_layouter:'
PLACE = ['node_with_classification', 'grid', 'last_row', 'last_col', 'bpmn_graph', 'nodes_with_classification', 'enforced_row_num']
INSERT = ['grid', 'row', 'col', 'node_id']


def bound(names, args, kw, optional=0):
    a = dict(zip(names, args))
    a.update(kw)
    if not set(names[:len(names) - optional]) <= set(a) <= set(names):
        raise Unsup('arguments of a call')
    return a


class Cell:
    def __init__(self, g, v, t):
        self.g, self.v, self.t = g, v, t

    def attr(self, ip, name):
        if name == 'node_id':
            return Sym('str', self.g.NODE(self.t))
        if name == 'col':
            return Sym('int', self.g.COL(self.t))
        if name == 'row':
            return Sym('int', self.g.ROW(self.v, self.t))
        raise Unsup('attribute %s of a cell' % name)

    def truth(self, ip):
        return True

    def inst(self, ins):
        f = lambda x: ins.val(Sym('int', x)).t
        return Cell(self.g, f(self.v), f(self.t))

    def same_host(self, o):
        return isinstance(o, Cell) and self.v.eq(o.v) and self.t.eq(o.t)


class Labels:
    """Classification of a node, by the contract of generate_elements_clasification."""

    def __init__(self, w, id):
        self.w, self.id = w, id

    def contains(self, ip, x):
        if not isinstance(x, str):
            raise Unsup('classification')
        w, a = self.w, zt(self.id)
        c = {'Element': z3.BoolVal(True), 'Join': w.INC(a) > 1, 'Split': w.OUT(a) > 1, 'Start Event': w.TYPE(a) == z3.StringVal('startEvent'),
             'End Event': w.TYPE(a) == z3.StringVal('endEvent')}.get(x, z3.BoolVal(False))
        return mk('bool', c)

    def inst(self, ins):
        return Labels(self.w, ins.val(self.id))

    def same_host(self, o):
        return isinstance(o, Labels) and self.id == o.id

    def truth(self, ip):
        return True


class Classified:
    """{'node': element, 'classification': labels}"""

    def __init__(self, w, id):
        self.w, self.id = w, id

    def getitem(self, ip, k):
        if k == 'node':
            return self.w.node(zt(self.id))
        if k == 'classification':
            return Labels(self.w, self.id)
        raise Unsup('item %r of a classified node' % (k,))

    def ident(self, ip, o):
        if not isinstance(o, Classified):
            raise Unsup('comparison with a classified node')
        return ip.eq(self.id, o.id)

    def inst(self, ins):
        return Classified(self.w, ins.val(self.id))

    def same_host(self, o):
        return isinstance(o, Classified) and self.id == o.id

    def truth(self, ip):
        return True


class GridRule(invariants.Rule):
    def __init__(self, w):
        self.w = w

    def candidates(self, ctx, loc, init):
        cs = invariants.Rule.candidates(self, ctx, loc, init)
        w = self.w
        if kind_of(init) == 'int' and w.acyclic and w.current is not None:
            # highest column of the predecessors seen so far
            cs.append(lambda v, i: z3.Or(zt(v) == zt(init), w.PC(zt(v))))
            if w.pred is not None:
                cs.append(lambda v, i: z3.Implies(i > w.POS(w.pred), zt(v) >= w.COL(w.POS(w.pred))))
        if w.list is not None and loc == ('attr', w.list.o, 'v'):
            # nodes leave the list only for the grid
            y = w.other
            has = lambda v, x: w.members(zt(v))[2](zt(v), x)

            def kept(v, i):
                return z3.Implies(has(init, y), z3.Or(has(v, y), w.placed(y), y == w.current if w.current is not None else False))
            cs.append(kept)
            if w.sorted:
                def all_kept(v, i):
                    return z3.Implies(w.in_order(y), z3.Or(has(v, y), w.placed(y)))

                def known(v, i):
                    w.state = (zt(v), w.n())
                    return all_kept(v, i)
                all_kept.known = known
                cs.append(all_kept)
        return cs

    def measure(self, ip):
        w = self.w
        return None if w.list is None else w.members(zt(w.c.get(w.list).attrs['v']))[0]


class World(Graph):
    def __init__(self, env, acyclic):
        Graph.__init__(self, env)
        c = self.c = env.ctx
        self.acyclic, self.current, self.pred, self.sorted, self.state = acyclic, None, None, False, None
        self.other = z3.String('any.node')
        self.NODE, self.COL, self.ROW, self.POS = c.fn('cell.node', I, S), c.fn('cell.col', I, I), c.fn('cell.row', I, I, I), c.fn('cell.of', S, I)
        self.INC, self.OUT = c.fn('D.inc.len', S, I), c.fn('D.out.len', S, I)
        self.INCAT, self.OUTAT = c.fn('D.inc.at', S, I, S), c.fn('D.out.at', S, I, S)
        self.TYPE = lambda a: zt(self.d.nschema.value(c, 'type', (a,)))
        self.SRC, self.TGT = c.fn('flow.sourceRef', S, S), c.fn('flow.targetRef', S, S)
        self.PC = c.fn('column.of.predecessor', I, B)
        self.classes(env.ip)
        n = z3.Int('grid.n')
        c.assume(n >= 0)
        self.grid = c.alloc(InstRec(self.gridcls, {'n': Sym('int', n), 'v': 0}))
        self.list = self.nodelist(z3.IntVal(0))

    # ---- grid
    def n(self):
        return zt(self.c.get(self.grid).attrs['n'])

    def placed(self, x, n=None):
        n = self.n() if n is None else n
        p = self.POS(x)
        self.c.index_term(p)
        self.c.assume(z3.Implies(p >= 0, self.NODE(p) == x))
        return z3.And(p >= 0, p < n)

    def nodelist(self, v):
        return self.c.alloc(InstRec(self.listcls, {'v': Sym('int', v)}))

    def members(self, v):
        return self.c.fn('nodes.len', I, I)(v), self.c.fn('nodes.at', I, I, S), self.c.fn('nodes.in', I, S, B)

    def classes(self, ip):
        c = self.c

        def cells(ip, a, k):
            r = c.get(a[0])
            n, v = zt(r.attrs['n']), zt(r.attrs['v'])
            t = z3.Int('cell!t')
            c.add_forall(Forall(t, z3.IntVal(0), n, z3.And(self.POS(self.NODE(t)) == t, self.COL(t) >= 1)))
            if self.current is not None:
                self.placed(self.current, n)
            return c.alloc(ListRec([BaseGen(n, lambda cc, args, t: Cell(self, args[0], t), [v], 'grid')]))

        def length(ip, a, k):
            return Sym('int', zt(c.get(a[0]).attrs['n']))
        b = lambda name, f: Builtin(name, f)
        self.gridcls = ClassVal('list', [ip.builtins['object']], {'__iter__': b('iter', cells), '__len__': b('len', length)}, 'builtins', None)

        def nodes(ip, a, k):
            v = zt(c.get(a[0]).attrs['v'])
            n, at, has = self.members(v)
            c.assume(n >= 0)
            t = z3.Int('member!t')
            c.add_forall(Forall(t, z3.IntVal(0), n, has(v, at(v, t))))
            return c.alloc(ListRec([BaseGen(n, lambda cc, args, t: Classified(self, Sym('str', at(args[0], t))), [v], 'nodes')]))

        def count(ip, a, k):
            v = zt(c.get(a[0]).attrs['v'])
            n, at, has = self.members(v)
            c.assume(z3.And(n >= 0, z3.Implies(has(v, self.other), n >= 1)))
            return Sym('int', n)

        def contains(ip, a, k):
            if not isinstance(a[1], Classified):
                raise Unsup('membership of something else')
            v = zt(c.get(a[0]).attrs['v'])
            return mk('bool', self.members(v)[2](v, zt(a[1].id)))

        def remove(ip, a, k):
            if not ip.truth(contains(ip, a, k)):
                ip.throw('ValueError', 'list.remove(x): x not in list')
            self.removed(a[0], zt(a[1].id))
        self.listcls = ClassVal('list', [ip.builtins['object']], {
            '__iter__': b('iter', nodes), '__len__': b('len', count), '__contains__': b('contains', contains), 'remove': b('remove', remove),
            'pop': b('pop', lambda ip, a, k: self.pop(ip, a)), '__opaque_list__': True}, 'builtins', None)

    def removed(self, ref, x):
        self.c.prove('only the node that is being placed is taken off the list', x == self.current)
        self.without(ref, x)

    def without(self, ref, x):
        """The list without x."""
        c = self.c
        v = zt(c.get(ref).attrs['v'])
        u = c.fresh('int', 'nodes')
        y = self.other
        n, at, has = self.members(v)
        c.assume(has(u, y) == z3.And(has(v, y), y != x))
        c.assume(z3.And(n >= 1, self.members(u)[0] == n - 1))
        c.put(ref, InstRec(self.listcls, {'v': Sym('int', u)}))

    def later(self, ref):
        """The list after some nodes have been moved from it to the grid."""
        c = self.c
        v = zt(c.get(ref).attrs['v'])
        u = c.fresh('int', 'nodes')
        y = self.other
        n, at, has = self.members(v)
        c.assume(z3.Implies(has(v, y), z3.Or(has(u, y), self.placed(y))))
        c.assume(z3.And(n >= 0, self.members(u)[0] >= 0, self.members(u)[0] <= n))
        c.put(ref, InstRec(self.listcls, {'v': Sym('int', u)}))

    # ---- the order of the nodes (contract of topological_sort)
    def index(self, x):
        return self.c.fn('order.of', S, I)(x)

    def in_order(self, x):
        return z3.And(self.index(x) >= 0, self.index(x) < z3.Int('order.n'))

    def pop(self, ip, a):
        c = self.c
        if not self.sorted or a[1:] != [0]:
            raise Unsup('pop')
        v = zt(c.get(a[0]).attrs['v'])
        n, at, has = self.members(v)
        if c.fork(n <= 0):
            ip.throw('IndexError', 'pop from empty list')
        x = at(v, z3.IntVal(0))
        c.assume(z3.And(has(v, x), self.in_order(x)))
        if self.acyclic:
            # the predecessors of a node come before it; those that are no longer in the list are in the grid (invariant)
            p = self.SRC(self.INCAT(x, z3.IntVal(0)))
            c.assume(z3.Implies(self.INC(x) > 0, z3.And(self.index(p) >= 0, self.index(p) < self.index(x))))
            c.assume(z3.Implies(has(v, p), self.index(x) <= self.index(p)))
            if v.eq(z3.IntVal(0)):
                c.assume(has(v, p) == self.in_order(p))         # the whole list
            elif self.state is None or not self.state[0].eq(v) or not self.state[1].eq(self.n()):
                raise Unsup('node taken from the list elsewhere')
            c.assume(z3.Implies(self.in_order(p), z3.Or(has(v, p), self.placed(p))))
        self.without(a[0], x)
        return Classified(self, Sym('str', x))

    def grown(self, n):
        self.c.put(self.grid, InstRec(self.gridcls, {'n': Sym('int', n), 'v': Sym('int', self.c.fresh('int', 'rows'))}))

    def on_grid(self, g):
        if g != self.grid:
            raise Unsup('another grid')

    # ---- contracts
    def insert(self, ip, f, args, kw):
        c = self.c
        a = bound(INSERT, args, kw)
        self.on_grid(a['grid'])
        x, n, col = self.current, self.n(), zt(a['col'])
        if kind_of(a['row']) != 'int' or kind_of(a['col']) != 'int':
            raise Unsup('row or column is not an integer')
        c.prove('the cell is made for the node', zt(a['node_id']) == x)
        c.prove('a node gets one cell', z3.Not(self.placed(x)))
        c.prove('columns start at 1', col >= 1)
        c.prove('without incoming flows: first column', z3.Implies(self.INC(x) == 0, col == 1))
        if self.acyclic:
            s = self.SRC(self.INCAT(x, z3.IntVal(0)))
            c.prove('one predecessor: the column right of it', z3.Implies(self.INC(x) == 1, col == self.COL(self.POS(s)) + 1))
            c.prove('join: the column right of a predecessor', z3.Implies(self.INC(x) > 1, self.PC(col - 1)))
        c.assume(z3.And(self.POS(x) == n, self.NODE(n) == x, self.COL(n) == col))
        self.grown(n + 1)
        self.inserted = True
        return None

    def ready(self, x):
        """x has no incoming flows or a predecessor in the grid, as far as the witnesses at hand show it."""
        c = self.c
        r = c.fresh('bool', 'ready')
        n = self.n()
        c.assume(z3.And(self.INC(x) >= 0, z3.Implies(self.INC(x) == 0, r)))
        c.assume(z3.Implies(self.placed(x), r))
        for t in list(c.idx) + [z3.IntVal(0)]:
            j = self.JPOS(self.OUTAT(self.current, t)) if self.current is not None else t
            p = self.POS(self.SRC(self.INCAT(x, j)))
            c.assume(z3.Implies(z3.And(j >= 0, j < self.INC(x), p >= 0, p < n), r))
        return r

    def well_formed(self, x):
        """Outgoing flows of x are incoming flows of their targets (C01)."""
        c = self.c
        t = z3.Int('out!t')
        self.JPOS = c.fn('position.of.flow', S, I)
        f = self.OUTAT(x, t)
        tgt = self.TGT(f)
        c.add_forall(Forall(t, z3.IntVal(0), self.OUT(x), z3.And(self.SRC(f) == x, self.JPOS(f) >= 0, self.JPOS(f) < self.INC(tgt),
                                                                 self.INCAT(tgt, self.JPOS(f)) == f)))

    def place(self, ip, f, args, kw):
        if self.first == f.qual:
            self.first = None
            return NotImplemented
        c = self.c
        a = bound(PLACE, args, kw, 1)
        self.on_grid(a['grid'])
        node = a['node_with_classification']
        if self.list is None:
            self.list = a['nodes_with_classification']
            self.adopt(self.list)
        if not isinstance(node, Classified) or a['bpmn_graph'] != self.d.ref or a['nodes_with_classification'] != self.list or \
                not isinstance(c.get(self.list), InstRec):
            raise Unsup('arguments of place_element_in_grid')
        if self.current is not None:
            c.prove('recursion ends: the node has got its cell before', self.n() > self.n0)
        if kind_of(a['last_row']) != 'int' or kind_of(a['last_col']) != 'int':
            raise Unsup('last row or column')
        x = zt(node.id)
        c.prove('column for nodes without predecessors is the first', zt(a['last_col']) == 1)
        if self.acyclic:
            c.prove('a node is placed after one of its predecessors', self.ready(x))
        n = c.fresh('int', 'cells')
        c.assume(n >= self.n())
        self.grown(n)
        c.assume(self.placed(x))
        self.later(self.list)
        return (self.grid, Sym('int', c.fresh('int', 'last_row')), 1)

    def overrides(self):
        base = Graph.overrides(self)
        over = {k: v for k, v in base.items() if 'get_flow_by_id' in k or 'get_node_by_id' in k}
        over[L + 'insert_into_grid'] = self.insert
        over[L + 'place_element_in_grid'] = self.place
        return over


def placing(acyclic):
    def fn(env):
        env.boot([])
        impl = env.fn(L + 'place_element_in_grid', 7)
        env.fn(L + 'insert_into_grid', 4)

        def path():
            c, ip = env.ctx, env.ip
            w = World(env, acyclic)
            ip.overrides = w.overrides()
            x = z3.String('node')
            w.current = x
            w.well_formed(x)
            w.placed(x)
            n0 = w.n0 = w.n()
            v0 = zt(c.get(w.list).attrs['v'])
            t = z3.Int('cell!t')
            c.add_forall(Forall(t, z3.IntVal(0), n0, z3.And(w.POS(w.NODE(t)) == t, w.COL(t) >= 1)))
            if acyclic:
                # a predecessor is in the grid, or the node has none, or it is placed already
                j0 = z3.Int('pred')
                c.index_term(j0)
                w.pred = w.SRC(w.INCAT(x, j0))
                c.assume(z3.Or(w.INC(x) == 0, w.placed(x), z3.And(j0 >= 0, j0 < w.INC(x), w.placed(w.pred))))
                j = z3.Int('in!j')
                s = w.SRC(w.INCAT(x, j))
                c.add_forall(Forall(j, z3.IntVal(0), w.INC(x), z3.Implies(z3.And(w.POS(s) >= 0, w.POS(s) < n0), w.PC(w.COL(w.POS(s))))))
            ip.loop_rule = GridRule(w)
            w.first, w.inserted = L + 'place_element_in_grid', False
            row = optional(env, Sym('int', z3.Int('enforced')))
            args = [Classified(w, Sym('str', x)), w.grid, Sym('int', z3.Int('last_row')), 1, w.d.ref, w.list, row]
            r = env.attempt(lambda: ip.call(impl, args))
            c.prove('no exception', r[0] == 'ret')
            if r[0] == 'ret':
                v = r[1]
                if not (isinstance(v, tuple) and len(v) == 3):
                    raise Unsup('result')
                c.prove('the grid is returned', v[0] == w.grid)
                c.prove('last row is an integer', kind_of(v[1]) == 'int')
                c.prove('column for nodes without predecessors stays the first', kind_of(v[2]) == 'int' and zt(v[2]) == 1)
                c.prove('the node is in the grid', w.placed(x))
                c.prove('cells are kept', w.n() >= n0)
                v1 = zt(c.get(w.list).attrs['v'])
                has = w.members(v0)[2]
                c.prove('nodes leave the list only for the grid', z3.Implies(has(v0, w.other), z3.Or(has(v1, w.other), w.placed(w.other))))
            env.end_path()
        env.ctx.explore(path)
    return Goal('C11', 'place_element_in_grid (%s)' % ('every node after a predecessor' if acyclic else 'any order'), fn,
                [L + 'place_element_in_grid'], soft=True, timeout=300)


def layout(acyclic):
    def fn(env):
        env.boot([])
        impl = env.fn(L + 'grid_layout', 2)
        env.fn(L + 'place_element_in_grid', 7)

        def path():
            c, ip = env.ctx, env.ip
            w = World(env, acyclic)
            ip.overrides = w.overrides()
            ip.loop_rule = GridRule(w)
            w.first, w.sorted = None, True
            nodes, w.list = w.list, getattr(env, 'adopted', None)
            w.adopt = lambda ref: setattr(env, 'adopted', ref)
            grids = []

            def empty():
                g = c.alloc(InstRec(w.gridcls, {'n': 0, 'v': 0}))
                if not grids:
                    w.grid = g
                grids.append(g)
                return g
            ip.empty_list = empty
            y, v0 = w.other, z3.IntVal(0)
            # the list holds the nodes of the order
            c.assume(w.members(v0)[2](v0, y) == w.in_order(y))
            r = env.attempt(lambda: ip.call(impl, [w.d.ref, nodes]))
            c.prove('no exception', r[0] == 'ret')
            if r[0] == 'ret':
                c.prove('the grid is returned', r[1] == w.grid)
                c.prove('every node is in the grid', z3.Implies(w.in_order(y), w.placed(y)))
                c.prove('the order is not changed', c.get(nodes).attrs['v'] == Sym('int', v0))
            env.end_path()
        env.ctx.explore(path)
    return Goal('C11', 'grid_layout (%s)' % ('nodes after their predecessors' if acyclic else 'any order'), fn, [L + 'grid_layout'], soft=True)


GOALS = [placing(True), placing(False), layout(True), layout(False)]
