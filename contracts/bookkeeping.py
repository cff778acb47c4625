"""Representation invariant of a diagram: nodes, edges, flow table and incoming/outgoing lists tell the same story.

Each conjunct is stated for one arbitrary flow / edge / node / list position; the invariant is the conjunction over all
of them (`consistent`, used by the concrete replayer)."""


def flow_ok(diagram, flow_id):
    """A registered flow is an edge between existing nodes carrying the same data, listed at both ends."""
    graph = diagram.diagram_graph
    if flow_id not in diagram.sequence_flows:
        return True
    entry = diagram.sequence_flows[flow_id]
    source = entry["sourceRef"]
    target = entry["targetRef"]
    if not graph.has_node(source) or not graph.has_node(target):
        return False
    if not graph.has_edge(source, target):
        return False
    edge = graph[source][target]
    if edge["id"] != flow_id or edge["name"] != entry["name"]:
        return False
    if edge["sourceRef"] != source or edge["targetRef"] != target:
        return False
    if flow_id not in graph.node[source]["outgoing"]:
        return False
    return flow_id in graph.node[target]["incoming"]


def edge_ok(diagram, source, target):
    """An edge is a registered flow between exactly those two nodes."""
    graph = diagram.diagram_graph
    if not graph.has_edge(source, target):
        return True
    edge = graph[source][target]
    if edge["id"] not in diagram.sequence_flows:
        return False
    entry = diagram.sequence_flows[edge["id"]]
    if entry["sourceRef"] != edge["sourceRef"] or entry["targetRef"] != edge["targetRef"]:
        return False
    return ((source == edge["sourceRef"] and target == edge["targetRef"])
            or (source == edge["targetRef"] and target == edge["sourceRef"]))


def node_ok(diagram, node_id):
    """A node record carries its own id."""
    graph = diagram.diagram_graph
    if not graph.has_node(node_id):
        return True
    return graph.node[node_id]["id"] == node_id


def outgoing_ok(diagram, node_id, position):
    """Outgoing lists only mention registered flows that start there."""
    graph = diagram.diagram_graph
    if not graph.has_node(node_id):
        return True
    listed = graph.node[node_id]["outgoing"]
    if position < 0 or position >= len(listed):
        return True
    if listed[position] not in diagram.sequence_flows:
        return False
    return diagram.sequence_flows[listed[position]]["sourceRef"] == node_id


def incoming_ok(diagram, node_id, position):
    graph = diagram.diagram_graph
    if not graph.has_node(node_id):
        return True
    listed = graph.node[node_id]["incoming"]
    if position < 0 or position >= len(listed):
        return True
    if listed[position] not in diagram.sequence_flows:
        return False
    return diagram.sequence_flows[listed[position]]["targetRef"] == node_id


def outgoing_once(diagram, node_id, position, other):
    """No flow is listed twice."""
    graph = diagram.diagram_graph
    if not graph.has_node(node_id):
        return True
    listed = graph.node[node_id]["outgoing"]
    if position < 0 or other < 0 or position >= other or other >= len(listed):
        return True
    return listed[position] != listed[other]


def incoming_once(diagram, node_id, position, other):
    graph = diagram.diagram_graph
    if not graph.has_node(node_id):
        return True
    listed = graph.node[node_id]["incoming"]
    if position < 0 or other < 0 or position >= other or other >= len(listed):
        return True
    return listed[position] != listed[other]


def consistent(diagram):
    """The whole invariant, enumerated (concrete diagrams only)."""
    graph = diagram.diagram_graph
    for flow_id in diagram.sequence_flows:
        if not flow_ok(diagram, flow_id):
            return "flow %s" % flow_id
    for source, target in graph.edges():
        if not edge_ok(diagram, source, target):
            return "edge %s-%s" % (source, target)
    for node_id, attrs in graph.nodes(data=True):
        if "incoming" not in attrs or "outgoing" not in attrs:
            return "node %s without flow lists" % node_id
        if not node_ok(diagram, node_id):
            return "node %s" % node_id
        for i in range(len(attrs["outgoing"])):
            if not outgoing_ok(diagram, node_id, i):
                return "outgoing of %s" % node_id
            for j in range(len(attrs["outgoing"])):
                if not outgoing_once(diagram, node_id, i, j):
                    return "outgoing of %s twice" % node_id
        for i in range(len(attrs["incoming"])):
            if not incoming_ok(diagram, node_id, i):
                return "incoming of %s" % node_id
            for j in range(len(attrs["incoming"])):
                if not incoming_once(diagram, node_id, i, j):
                    return "incoming of %s twice" % node_id
    return ""
