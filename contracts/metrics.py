"""Contracts of the complexity metrics: each is its published definition, computed directly from the stored elements."""
from collections import Counter

from contracts.base import requires

GATEWAYS = ['inclusiveGateway', 'exclusiveGateway', 'parallelGateway', 'eventBasedGateway', 'complexGateway']
EVENTS = ['startEvent', 'endEvent', 'intermediateCatchEvent', 'intermediateThrowEvent']
ACTIVITIES = ['task', 'subProcess']


def number(diagram, types):
    return len([n for n, a in diagram.diagram_graph.nodes(data=True) if a["type"] in types])


def get_nodes_count(diagram, node_type=None):
    if node_type is None:
        return len([n for n, a in diagram.diagram_graph.nodes(data=True)])
    requires(node_type != "")
    return number(diagram, [node_type])


def get_all_gateways(diagram):
    return [(n, a) for n, a in diagram.diagram_graph.nodes(data=True) if a["type"] in GATEWAYS]


def get_gateway_counts(diagram):
    return {t: number(diagram, [t]) for t in GATEWAYS}


def get_events_counts(diagram):
    return {t: number(diagram, [t]) for t in EVENTS}


def get_activities_counts(diagram):
    return {t: number(diagram, [t]) for t in ACTIVITIES}


def all_activities_count(diagram):
    return number(diagram, ACTIVITIES)


def all_gateways_count(diagram):
    return number(diagram, GATEWAYS)


def all_events_count(diagram):
    return number(diagram, EVENTS)


def all_control_flow_elements_count(diagram):
    return number(diagram, GATEWAYS + EVENTS)


def TNSE_metric(diagram):
    return number(diagram, ['startEvent'])


def TNIE_metric(diagram):
    return number(diagram, ['intermediateCatchEvent', 'intermediateThrowEvent'])


def TNEE_metric(diagram):
    return number(diagram, ['endEvent'])


def TNE_metric(diagram):
    return number(diagram, EVENTS)


def NOA_metric(diagram):
    return number(diagram, ACTIVITIES)


def NOAC_metric(diagram):
    return number(diagram, ACTIVITIES + GATEWAYS + EVENTS)


def NOAJS_metric(diagram):
    return number(diagram, ACTIVITIES + GATEWAYS)


def NumberOfNodes_metric(diagram):
    return number(diagram, ACTIVITIES + GATEWAYS + EVENTS)


def GatewayHeterogenity_metric(diagram):
    kinds = 0
    for t in GATEWAYS:
        kinds = kinds + int(number(diagram, [t]) > 0)
    return kinds


def CoefficientOfNetworkComplexity_metric(diagram):
    nodes = len([n for n, a in diagram.diagram_graph.nodes(data=True)])
    requires(nodes > 0)
    arcs = len([a for u, v, a in diagram.diagram_graph.edges(data=True)])
    return float(arcs) / float(nodes)


def AverageGatewayDegree_metric(diagram):
    graph = diagram.diagram_graph
    gateways = number(diagram, GATEWAYS)
    requires(gateways > 0)
    arcs = sum([graph.degree(n) for n, a in graph.nodes(data=True) if a["type"] in GATEWAYS])
    return float(arcs) / float(gateways)


def occurrences(diagram):
    """How often each element type occurs, most frequent first."""
    types = []
    for n, a in diagram.diagram_graph.nodes(data=True):
        types.append(a["type"])
    return sorted(Counter(types).values(), reverse=True)


def DurfeeSquare_metric(diagram):
    """The largest d such that d types occur at least d times each (then the other types occur at most d times)."""
    counts = occurrences(diagram)
    for d in range(len(counts), 0, -1):
        if sum([int(c >= d) for c in counts]) >= d:
            return d
    return 0


def PerfectSquare_metric(diagram):
    """The largest p such that the p most frequent types occur together at least p*p times."""
    counts = occurrences(diagram)
    for p in range(len(counts), 0, -1):
        if sum(counts[:p]) >= p * p:
            return p
    return 0
