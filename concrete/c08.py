from concrete.core import *

M = 'bpmn_python.bpmn_diagram_metrics:'
NAMES = ['get_all_gateways', 'get_gateway_counts', 'get_events_counts', 'get_activities_counts', 'all_activities_count',
         'all_gateways_count', 'all_events_count', 'all_control_flow_elements_count', 'TNSE_metric', 'TNIE_metric', 'TNEE_metric',
         'TNE_metric', 'NOA_metric', 'NOAC_metric', 'NOAJS_metric', 'NumberOfNodes_metric', 'GatewayHeterogenity_metric',
         'CoefficientOfNetworkComplexity_metric', 'AverageGatewayDegree_metric', 'DurfeeSquare_metric', 'PerfectSquare_metric']


def diag(rng):
    if rng.random() < 0.6:
        return raw_diagram(rng, nodes=rng.choice([None, 1, 10, 14]))
    # many elements of few types
    ts = rng.sample(TYPES + ['participant'], rng.randint(1, 9))
    ts = [t for t in ts for _ in range(rng.choice([1, 1, 1, 2, 3, 6]))]
    return raw_diagram(rng, nodes=rng.randint(1, 30), flows=rng.choice([0, 5, 12]), types=ts)


def count(rng):
    d = diag(rng)
    r = rng.random()
    if r < 0.3:
        return ((d,), {})
    t = rng.choice([a['type'] for _, a in d.diagram_graph.nodes(data=True)] + TYPES + [rstr(rng)])
    return ((d, t), {}) if r < 0.6 else ((d,), {'node_type': t})


CASES = [contract('get_nodes_count', M + 'get_nodes_count', 'contracts.metrics:get_nodes_count', count)] + \
    [contract(n, M + n, 'contracts.metrics:' + n, lambda rng: ((diag(rng),), {})) for n in NAMES]
