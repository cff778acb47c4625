from pyv.contract import *

MET = 'bpmn_python.bpmn_diagram_metrics:'
SIMPLE = ['get_all_gateways', 'get_gateway_counts', 'get_events_counts', 'get_activities_counts', 'all_activities_count',
          'all_gateways_count', 'all_events_count', 'all_control_flow_elements_count', 'TNSE_metric', 'TNIE_metric', 'TNEE_metric',
          'TNE_metric', 'NOA_metric', 'NOAC_metric', 'NOAJS_metric', 'NumberOfNodes_metric', 'GatewayHeterogenity_metric',
          'CoefficientOfNetworkComplexity_metric', 'AverageGatewayDegree_metric']


def metric(name, args=(), tag='', keys=None):
    def fn(env):
        env.boot(['contracts.metrics'])
        impl = env.fn(MET + name)
        sp = env.fn('contracts.metrics:' + name)

        def path():
            d = Diagram(env)
            t = d.nschema
            # element types are non-empty strings
            v = z3.Int('ty!v')
            env.ctx.add_forall(Forall(v, z3.IntVal(0), d.nodes.n,
                                      d.nschema.value(env.ctx, 'type', (d.nodes.KEY(v),)).t != z3.StringVal('')))
            a = [x(env) if callable(x) else x for x in args]
            env.compare(name, lambda: env.ip.call(impl, [d.ref] + a), lambda: env.ip.call(sp, [d.ref] + a),
                        [('diagram', d.ref)])
        if keys:
            env.ctx.keyrange = keys
        env.ctx.explore(path)
    return Goal('C08', name + tag, fn, [MET + name], timeout=250 if 'Square' in name else 60)


GOALS = [metric('get_nodes_count'), metric('get_nodes_count', [lambda e: sstr(e, 't')], ' (by type)')] + [metric(n) for n in SIMPLE] + \
    [metric(n, (), ' (%d..%d types)' % k, k) for n in ('DurfeeSquare_metric', 'PerfectSquare_metric')
     for k in ((0, 7), (8, 9), (10, 11), (12, 12), (13, 13), (14, 14), (15, 15), (16, 16), (17, 17))]
META = dict(assumptions=['element types are non-empty strings; at most 17 different element types occur in a diagram (the node tags '
                         'the library knows) for the Durfee and perfect square metrics'],
            trusted=['the model of collections.Counter: L distinct keys with positive counts that add up to the length'])
