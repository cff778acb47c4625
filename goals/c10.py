from pyv import paths
from pyv.contract import *

LM = 'bpmn_python.diagram_layout_metrics:'
CT = 'contracts.paths:'
REP = 'bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph.'


class World:
    """Arbitrary diagram seen through the contracts of get_flow_by_id and get_node_by_id (C03), and the recursive calls seen through
    the contract being proved (induction on the number of nodes not yet on the path)."""

    def __init__(self, env):
        c = env.ctx
        paths.install(env.ip)
        self.env = env
        self.d = Diagram(env, node={'incoming': True, 'outgoing': True, 'id': True})
        fl = Schema('flow', {'id': (True, lambda c, a: Sym('str', a[0])), 'sourceRef': (True, 'str'), 'targetRef': (True, 'str')})
        self.flows = Fam(c, 'flows', lambda c, key: DictRec((), AttrBase(fl, key)))

    def node(self, t):
        return paths.NodeVal(Sym('str', t), lambda ip, i: self.d.nodefam.at(ip.ctx, (zt(i),)))

    def rec(self, name, *ks):
        return paths.path(self.env.ip, self.env.ctx.fn(name, *([S] * len(ks) + [S]))(*ks))

    def overrides(self):
        ip, d = self.env.ip, self.d
        used = {'impl': False}

        def on_diagram(v):
            if v != d.ref:
                raise Unsup('called on something other than the diagram')

        def keys(lists, node):
            ks = []
            for x in lists:
                k = paths.key_of(ip, x)
                if k is None:
                    raise Unsup('argument is not a list of elements')
                ks.append(k)
            return ks + [zt(paths.node_id(ip, node))]

        def bound(names, args, kw):
            a = list(args) + [kw[n] for n in names[len(args):] if n in kw]
            if len(a) != len(names):
                raise Unsup('arguments of a recursive call')
            return a

        def flow(ip, f, args, kw):
            me, fid = bound(['self', 'flow_id'], args, kw)
            on_diagram(me)
            if kind_of(fid) != 'str':
                raise Unsup('flow id')
            u, v = [Sym('str', ip.ctx.fn('flow.' + x, S, S)(zt(fid))) for x in 'uv']
            return (u, v, self.flows.at(ip.ctx, (zt(fid),)))

        def node(ip, f, args, kw):
            me, nid = bound(['self', 'node_id'], args, kw)
            on_diagram(me)
            return self.node(zt(nid))

        def impl_path(ip, f, args, kw):
            if self.first == f.qual:
                self.first = None
                return NotImplemented
            prev, n, g = bound(['previous_nodes', 'node', 'bpmn_graph'], args, kw)
            on_diagram(g)
            r = self.rec('complete', *keys([prev], n))
            return (r, ip.length(r))

        def impl_tasks(ip, f, args, kw):
            if self.first == f.qual:
                self.first = None
                return NotImplemented
            p, q, n, g = bound(['path', 'qualified_nodes', 'node', 'bpmn_graph'], args, kw)
            on_diagram(g)
            ks = keys([p, q], n)
            return (self.rec('all', *ks), self.rec('tasks', *ks))

        def spec_path(ip, f, args, kw):
            if self.first == f.qual:
                self.first = None
                return NotImplemented
            on_diagram(args[2])
            return self.rec('complete', *keys(args[:1], args[1]))

        def spec_tasks(ip, f, args, kw):
            if self.first == f.qual:
                self.first = None
                return NotImplemented
            on_diagram(args[3])
            return self.rec('tasks', *keys(args[:2], args[2]))
        return {REP + 'get_flow_by_id': flow, REP + 'get_node_by_id': node, LM + 'find_longest_path': impl_path,
                LM + 'find_longest_path_tasks': impl_tasks, CT + 'complete_from': spec_path, CT + 'tasks_from': spec_tasks}

    def key(self, v):
        k = paths.key_of(self.env.ip, v)
        if k is None:
            raise Unsup('result is not a list of elements')
        return Sym('str', k)


def setup(env):
    env.boot(['contracts.paths'])


def step(name, spec, lists, pick):
    """One call, the recursive calls being replaced by the contract."""
    def fn(env):
        setup(env)
        impl, sp = env.fn(LM + name, lists + 2), env.fn(CT + spec)

        def path():
            w = World(env)
            env.ip.overrides = w.overrides()
            ls = [paths.path(env.ip, z3.String('before%d' % i)) for i in range(lists)]
            n = w.node(z3.String('n0'))

            def run_impl():
                w.first = LM + name
                return pick(w, env.ip.call(impl, ls + [n, w.d.ref]))

            def run_spec():
                w.first = CT + spec
                return w.key(env.ip.call(sp, ls + [n, w.d.ref]))
            env.compare(name, run_impl, run_spec, [('diagram', w.d.ref)] + [('argument %d' % i, x) for i, x in enumerate(ls)])
        env.ctx.explore(path)
    return Goal('C10', name, fn, [LM + name], soft=True)


def path_and_length(w, r):
    if not (isinstance(r, tuple) and len(r) == 2):
        raise Unsup('result is not a pair')
    w.env.ctx.prove('reported length is the length of the path', w.env.ip.truth_term(w.env.ip.eq(r[1], w.env.ip.length(r[0]))))
    return w.key(r[0])


def second(w, r):
    return w.key(w.env.ip.getitem(r, 1))


def driver(name, find):
    def fn(env):
        setup(env)
        impl, sp = env.fn(LM + name), env.fn(CT + name)
        env.fn(LM + find[0], find[1])

        def path():
            w = World(env)
            w.first = None
            env.ip.overrides = w.overrides()
            env.compare(name, lambda: path_and_length(w, env.ip.call(impl, [w.d.ref])),
                        lambda: w.key(env.ip.getitem(env.ip.call(sp, [w.d.ref]), 0)), [('diagram', w.d.ref)])
        env.ctx.explore(path)
    return Goal('C10', name, fn, [LM + name], soft=True)


def lemma_longer(env):
    """The step of every fold keeps the longer of two paths; hence (induction over the successors) the result is at least as long as
    the result for every successor, and is the result for one of them or the initial value."""
    setup(env)
    f = env.fn(CT + 'longer')

    def path():
        paths.install(env.ip)
        a, b = [paths.path(env.ip, z3.String(x)) for x in ('best', 'path')]
        r = paths.key_of(env.ip, env.ip.call(f, [a, b]))
        ka, kb = [paths.key_of(env.ip, x) for x in (a, b)]
        L = lambda k: paths.length(env.ctx, k)
        env.ctx.prove('one of the two', z3.Or(r == ka, r == kb))
        env.ctx.prove('no shorter than either', z3.And(L(r) >= L(ka), L(r) >= L(kb)))
        env.ctx.prove('shorter candidates never replace', z3.Implies(L(kb) <= L(ka), r == ka))
        env.end_path()
    env.ctx.explore(path)


GOALS = [step('find_longest_path', 'complete_from', 1, path_and_length), step('find_longest_path_tasks', 'tasks_from', 2, second),
         driver('compute_longest_path', ('find_longest_path', 3)), driver('compute_longest_path_tasks', ('find_longest_path_tasks', 4)),
         Goal('C10', 'lemma: the longer of two paths', lemma_longer, [])]
META = dict(assumptions=['every node carries incoming and outgoing lists, and every listed flow exists (C01)'],
            trusted=['get_flow_by_id and get_node_by_id are used through their contracts (C03); recursive calls through the contract being proved, '
                     'by induction on the number of nodes not on the path', 'equal elements of a diagram have equal ids and conversely'])
