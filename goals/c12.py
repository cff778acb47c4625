from pyv import paths
from pyv.contract import *
from goals.c10 import World as Graph
from goals.c05 import opt_str

EXP = 'bpmn_python.bpmn_process_csv_export:BpmnDiagramGraphCsvExport.'
UT = 'bpmn_python.bpmn_import_utils:BpmnImportUtils.'
CT = 'contracts.csv_export:'
REP = 'bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph.'
GATES = ['exclusiveGateway', 'inclusiveGateway', 'parallelGateway']
PARAMS = ['bpmn_graph', 'export_elements', 'node', 'nodes_classification', 'order', 'prefix', 'condition', 'who', 'add_join']
DEFAULTS = {'order': 0, 'prefix': '', 'condition': '', 'who': '', 'add_join': False}


class Labels:
    """Classification of the nodes, by the contract of generate_nodes_clasification."""

    def __init__(self, g):
        self.g = g

    def getitem(self, ip, k):
        a = self.g.d.nodefam.at(ip.ctx, (zt(k),))
        ls = ['Element']
        for field, label in (('incoming', 'Join'), ('outgoing', 'Split')):
            n = ip.length(ip.getitem(a, field))
            if ip.truth(ip.compare('GtE', n, 2)):
                ls.append(label)
        return ip.mklist(ls)

    def deepcopy(self, ip):
        return self

    def inst(self, ins):
        return self

    def same_host(self, o):
        return o is self

    def truth(self, ip):
        return True


class World(Graph):
    def __init__(self, env):
        c = env.ctx
        paths.install(env.ip)
        self.env = env
        self.d = Diagram(env, node={'incoming': True, 'outgoing': True, 'id': True, 'type': True, 'node_name': True,
                                    'default': ('opt', opt_str(c, 'D.default'))})
        fl = Schema('flow', {'id': (True, lambda c, a: Sym('str', a[0])), 'sourceRef': (True, 'str'), 'targetRef': (True, 'str'),
                             'name': (True, 'str')})
        self.flows = Fam(c, 'flows', lambda c, key: DictRec((), AttrBase(fl, key)))
        self.labels = Labels(self)

    def overrides(self):
        base = Graph.overrides(self)
        over = {k: v for k, v in base.items() if 'get_flow_by_id' in k or 'get_node_by_id' in k}

        def rec(ip, f, args, kw):
            """Callee contract: the rows it appends and the element it returns depend on these arguments only."""
            if self.first == f.qual:
                self.first = None
                return NotImplemented
            a = dict(DEFAULTS)
            a.update(zip(PARAMS, args))
            a.update(kw)
            if set(a) != set(PARAMS) or a['bpmn_graph'] != self.d.ref or a['nodes_classification'] is not self.labels:
                raise Unsup('arguments of a recursive call')
            if ip.force(a['who']) != '':
                raise Unsup('a person in charge')
            n = paths.node_id(ip, a['node'])
            ghost = ip.mklist([n] + [a[k] for k in ('order', 'prefix', 'condition', 'add_join')])
            ip.call(ip.getattr(a['export_elements'], 'append'), [ghost])
            j = a['add_join']
            if not isinstance(j, bool):
                raise Unsup('add_join')
            c = ip.ctx
            if c.fork(c.fn('ends.%s' % j, S, B)(zt(n))):
                return None
            return self.node(c.fn('after.%s' % j, S, S)(zt(n)))
        over[EXP + 'export_node'] = over[CT + 'export_node'] = rec
        return over


def rows(env, name='rows'):
    sc = Schema(name + '.row', {k: (True, 'str') for k in ('Order', 'Activity', 'Condition', 'Who', 'Subprocess', 'Terminated')}, closed=True)
    return rec_list(env.ctx, name, sc)(env.ctx, ())


def node_goal(kind, add_join):
    def fn(env):
        env.boot(['contracts.csv_export'])
        impl, sp = env.fn(EXP + 'export_node', 9), env.fn(CT + 'export_node')

        def path():
            w = World(env)
            ip = env.ip
            ip.overrides = w.overrides()
            n = w.node(z3.String('n0'))
            t = zt(ip.getitem(n.getitem(ip, 1), 'type'))
            if kind:
                env.ctx.assume(t == z3.StringVal(kind))
            out = ip.mklist([])
            args = [w.d.ref, out, n, w.labels, Sym('int', z3.Int('order')), sstr(env, 'prefix'), sstr(env, 'condition'), '', add_join]
            env.ctx.assume(z3.Int('order') >= 0)

            def run(f, first):
                w.first = first
                r = ip.force(ip.call(f, list(args)))
                return r if r is None else paths.node_id(ip, r)
            env.compare('export_node', lambda: run(impl, EXP + 'export_node'), lambda: run(sp, CT + 'export_node'), [('rows', out), ('diagram', w.d.ref)])
        env.ctx.explore(path)
    return Goal('C12', 'export_node (%s%s)' % (kind, ', past its join' if add_join else ''), fn, [EXP + 'export_node'], soft=True, timeout=300)


def classification(env):
    env.boot(['contracts.csv_export'])
    impl, sp = env.fn(UT + 'generate_nodes_clasification', 1), env.fn(CT + 'generate_nodes_clasification')

    def path():
        d = Diagram(env, node={'incoming': True, 'outgoing': True})
        env.compare('generate_nodes_clasification', lambda: env.ip.call(impl, [d.ref]), lambda: env.ip.call(sp, [d.ref]), [('diagram', d.ref)])
    env.ctx.explore(path)


def writing(env):
    env.boot(['contracts.csv_export'])
    impl, sp = env.fn(EXP + 'write_export_node_to_file', 2), env.fn(CT + 'write_export_node_to_file')

    def path():
        ip = env.ip
        ip.overrides = {CT + 'quoted': lambda ip, f, args, kw: models.csv_field(ip, args[0])}
        f = env.ctx.alloc(InstRec(ip.filecls, {'path': 'p', 'writes': ip.mklist(), 'closed': False}))
        r = rows(env)
        env.compare('write_export_node_to_file', lambda: ip.call(impl, [f, r]), lambda: ip.call(sp, [f, r]), [('file', f), ('rows', r)])
    env.ctx.explore(path)


def driver(env):
    env.boot(['contracts.csv_export'])
    impl, sp = env.fn(REP + 'export_csv_file'), env.fn(CT + 'export')
    env.fn(EXP + 'export_node', 9)
    env.fn(UT + 'generate_nodes_clasification', 1)

    def path():
        w = World(env)
        ip = env.ip
        log = ip.mklist()
        ip.write_log = log

        def rec(ip, f, args, kw):
            a = dict(DEFAULTS)
            a.update(zip(PARAMS, args))
            a.update(kw)
            if set(a) != set(PARAMS) or a['bpmn_graph'] != w.d.ref or a['nodes_classification'] is not w.labels:
                raise Unsup('arguments of export_node')
            n = paths.node_id(ip, a['node'])
            ghost = [n] + [a[k] for k in ('order', 'prefix', 'condition', 'who', 'add_join')]
            ip.call(ip.getattr(log, 'append'), [ip.mklist(ghost)])
            ip.call(ip.getattr(a['export_elements'], 'extend'), [w.rows])
            return None

        def labels(ip, f, args, kw):
            if args != [w.d.ref] or kw:
                raise Unsup('argument of generate_nodes_clasification')
            return w.labels
        w.rows = rows(env)
        quoted = lambda ip, f, args, kw: models.csv_field(ip, args[0])
        ip.overrides = {EXP + 'export_node': rec, CT + 'export_node': rec, UT + 'generate_nodes_clasification': labels,
                        CT + 'generate_nodes_clasification': labels, CT + 'quoted': quoted}
        a = [w.d.ref, sstr(env, 'directory'), sstr(env, 'filename')]
        env.compare('export_csv_file', lambda: ip.call(impl, list(a)), lambda: ip.call(sp, list(a)), [('diagram', w.d.ref), ('effects', log)])
    env.ctx.explore(path)


GOALS = [node_goal(k, j) for k in ('startEvent', 'endEvent', 'task', 'subProcess') + tuple(GATES) for j in ((False, True) if k[-5:] != 'Event' else (False,))] + [
    Goal('C12', 'generate_nodes_clasification', classification, [UT + 'generate_nodes_clasification'], soft=True, timeout=400),
    Goal('C12', 'write_export_node_to_file', writing, [EXP + 'write_export_node_to_file'], soft=True),
    Goal('C12', 'export_csv_file', driver, [REP + 'export_csv_file', EXP + 'export_process_to_csv'], soft=True)]
META = dict(assumptions=['every node carries incoming and outgoing lists, and every listed flow exists (C01)', 'nodes are of the kinds the export classifies; '
                         'every flow has a name (flows without one: concrete cases only)', 'the person in charge (who) is always empty: no API call passes one'],
            trusted=['get_flow_by_id and get_node_by_id through their contracts (C03); recursive export_node calls through the contract being proved, by '
                     'induction along an acyclic diagram', 'csv.writer writes a field as contracts.csv_export.quoted does (checked concretely)',
                     'os.makedirs either succeeds or reports an existing directory'])
