"""Contracts of the diagram queries (plain Python; executed symbolically by the verifier and natively by the replayer)."""


def get_nodes(diagram, node_type=""):
    graph = diagram.diagram_graph
    found = []
    for node_id, attrs in graph.nodes(data=True):
        if node_type == "" or attrs["type"] == node_type:
            found.append((node_id, attrs))
    return found


def get_nodes_all(diagram):
    return [(node_id, attrs) for node_id, attrs in diagram.diagram_graph.nodes(data=True)]


def get_nodes_list_by_process_id(diagram, process_id):
    return [(n, a) for n, a in diagram.diagram_graph.nodes(data=True) if a["process"] == process_id]


def get_node_by_id(diagram, node_id):
    if diagram.diagram_graph.has_node(node_id):
        return (node_id, diagram.diagram_graph.node[node_id])
    return None


def get_nodes_id_list_by_type(diagram, node_type):
    return [n for n, a in diagram.diagram_graph.nodes(data=True) if a["type"] == node_type]


def get_flows(diagram):
    return [(u, v, a) for u, v, a in diagram.diagram_graph.edges(data=True)]


def get_flow_by_id(diagram, flow_id):
    for u, v, a in diagram.diagram_graph.edges(data=True):
        if a["id"] == flow_id:
            return (u, v, a)
    return None


def get_flows_list_by_process_id(diagram, process_id):
    found = []
    for u, v, a in diagram.diagram_graph.edges(data=True):
        if "process" in a and a["process"] == process_id:
            found.append((u, v, a))
    return found


def get_nodes_positions(diagram):
    positions = {}
    for n, a in diagram.diagram_graph.nodes(data=True):
        positions[n] = (float(a["x"]), float(a["y"]))
    return positions
