from pyv.contract import *
from goals import grid, topo

L = 'bpmn_python.bpmn_diagram_layouter:'
CT = 'contracts.layout:'


def grid_of(env, name='grid'):
    """Any list of grid cells."""
    c, ip = env.ctx, env.ip
    cls = env.fn('bpmn_python.grid_cell_class:GridCell')

    def maker(c, key):
        f = {k: c.fn('%s.%s' % (name, k), I, SORT[s])(*key) for k, s in (('row', 'int'), ('col', 'int'), ('node_id', 'str'))}
        return InstRec(cls, {'row': Sym('int', f['row']), 'col': Sym('int', f['col']), 'node_id': Sym('str', f['node_id'])})
    fam = Fam(c, name, maker)
    n = z3.Int(name + '.n')
    c.assume(n >= 0)
    env.grid = fam
    return c.alloc(ListRec([BaseGen(n, lambda c, a, t: fam.at(c, (t,)), (), name)]))


def on_diagram(name, with_grid=False, **kw):
    def fn(env):
        env.boot(['contracts.layout'])
        impl, sp = env.fn(L + name, 1 + with_grid), env.fn(CT + name)

        def path():
            d = Diagram(env, node={'incoming': True, 'outgoing': True, 'x': True, 'y': True}, **kw)
            a = [d.ref] + ([grid_of(env)] if with_grid else [])
            env.compare(name, lambda: env.ip.call(impl, list(a)), lambda: env.ip.call(sp, list(a)),
                        [('diagram', d.ref)] + [('grid', x) for x in a[1:]])
        env.ctx.explore(path)
    return Goal('C11', name, fn, [L + name], soft=True)


def insertion(env):
    env.boot(['contracts.layout'])
    impl, sp = env.fn(L + 'insert_into_grid', 4), env.fn(CT + 'insert_into_grid')

    def path():
        g = grid_of(env)
        a = [g, Sym('int', z3.Int('row')), Sym('int', z3.Int('col')), sstr(env, 'node')]
        env.compare('insert_into_grid', lambda: env.ip.call(impl, list(a)), lambda: env.ip.call(sp, list(a)), [('grid', g)])
    env.ctx.explore(path)


def lemma_distinct(env):
    """Inserting keeps the cells of a grid pairwise distinct (over the contract of insert_into_grid)."""
    env.boot(['contracts.layout'])
    sp = env.fn(CT + 'insert_into_grid')

    def path():
        c, ip = env.ctx, env.ip
        g = grid_of(env)
        i, j, n = z3.Int('i'), z3.Int('j'), z3.Int('grid.n')
        row, col = [c.fn('grid.' + k, I, I) for k in ('row', 'col')]
        c.assume(z3.And(0 <= i, i < j, j < n, z3.Or(row(i) != row(j), col(i) != col(j))))
        c.index_term(i)
        c.index_term(j)
        new = [Sym('int', z3.Int('row')), Sym('int', z3.Int('col')), sstr(env, 'node')]
        ip.call(sp, [g] + new)
        segs = c.get(g).segs
        c.prove('the grid grows by one cell', len(segs) == 2 and isinstance(segs[0], BaseGen) and segs[0].name == 'grid' and isinstance(segs[1], Lit))
        at = [[zt(c.get(env.grid.at(c, (k,))).attrs[x]) for x in ('row', 'col')] for k in (i, j)]
        at.append([zt(c.get(segs[1].v).attrs[x]) for x in ('row', 'col')])
        for a, b, nm in ((0, 1, 'two old cells'), (0, 2, 'an old cell and the new one'), (1, 2, 'an old cell and the new one (2)')):
            c.prove(nm + ' stay distinct', z3.Or(at[a][0] != at[b][0], at[a][1] != at[b][1]))
        c.prove('columns of old cells do not change', z3.And(at[0][1] == col(i), at[1][1] == col(j)))
        env.end_path()
    env.ctx.explore(path)


GOALS = [on_diagram('generate_elements_clasification'), Goal('C11', 'insert_into_grid', insertion, [L + 'insert_into_grid'], soft=True),
         Goal('C11', 'lemma: cells of a grid stay distinct', lemma_distinct, []),
         on_diagram('set_coordinates_for_nodes', True), on_diagram('set_flows_waypoints')] + grid.GOALS + topo.GOALS
META = dict(bounded=['topological_sort and place_element_in_grid leave the attributes of the diagram alone: generated diagrams of up to 16 nodes or nested '
                     'blocks of depth 3'],
            assumptions=['the diagram has no participants (pools); the incoming and outgoing lists of the nodes are those of the flows (C01), and every node '
                         'has one of the classified types',
                         'coordinates given to set_flows_waypoints are integer numerals',
                         'a diagram without cycles has a rank that grows along its flows, and a non-empty list of nodes has one of least rank'],
            trusted=['calls between the steps of the layout are taken through their contracts: the recursive call of place_element_in_grid by induction on '
                     'the nodes without a cell', 'get_flow_by_id and get_node_by_id are used through their contracts (C03)',
                     'ghost lists: the nodes and flows still to be sorted are sets with sizes, copies of a node are equal exactly when their ids are'])
