from pyv.contract import *

REP = 'bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph.'


def query(name, nargs, node=None, spec=None, args=None):
    def fn(env):
        env.boot(['contracts.queries'])
        impl = env.fn(REP + name)
        sp = env.fn('contracts.queries:' + (spec or name))

        def path():
            d = Diagram(env, node=node or {})
            a = [sstr(env, 'arg%d' % i) for i in range(nargs)] if args is None else list(args)
            env.compare(name, lambda: env.ip.call(impl, [d.ref] + a), lambda: env.ip.call(sp, [d.ref] + a),
                        [('diagram', d.ref)])
        env.ctx.explore(path)
    return Goal('C03', name + ('' if spec is None else ' (%s)' % spec), fn, [REP + name])


GOALS = [
    query('get_nodes', 1),
    query('get_nodes', 0, spec='get_nodes_all'),
    query('get_nodes_list_by_process_id', 1),
    query('get_node_by_id', 1),
    query('get_nodes_id_list_by_type', 1),
    query('get_flows', 0),
    query('get_flow_by_id', 1),
    query('get_flows_list_by_process_id', 1),
    query('get_nodes_positions', 0, node={'x': True, 'y': True}),
]
