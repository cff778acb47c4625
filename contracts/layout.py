"""Contracts of the layouter."""
from contracts.base import requires
from bpmn_python.grid_cell_class import GridCell

ORDER = ["task", "subProcess", "complexGateway", "eventBasedGateway", "inclusiveGateway", "exclusiveGateway", "parallelGateway", "startEvent",
         "intermediateCatchEvent", "endEvent", "intermediateThrowEvent", "userTask", "serviceTask", "manualTask", "boundaryEvent", "dataObject"]
ROW = 2


def kinds(t, a):
    return ["Element"] + (["Start Event"] if t == "startEvent" else []) + (["End Event"] if t == "endEvent" else []) + \
        (["Join"] if len(a["incoming"]) > 1 else []) + (["Split"] if len(a["outgoing"]) > 1 else [])


def generate_elements_clasification(diagram):
    """Every node once, with what the layout needs to know about it; every flow once."""
    nodes = []
    for t in ORDER:
        nodes = nodes + [{"node": (n, a), "classification": kinds(t, a)} for n, a in diagram.diagram_graph.nodes(data=True) if a["type"] == t]
    return nodes, [{"flow": f, "classification": ["Flow"]} for f in diagram.diagram_graph.edges(data=True)]


def insert_into_grid(grid, row, col, node_id):
    """The new cell gets (row, col); if that is taken, the cells of this row and below move down by one row height."""
    taken = any(c.row == row and c.col == col for c in grid)
    for c in grid:
        if taken and c.row >= row:
            c.row = c.row + ROW
    grid.append(GridCell(row, col, node_id))


def cell_of(grid, node_id):
    for c in grid:
        if c.node_id == node_id:
            return c


def set_coordinates_for_nodes(diagram, grid):
    for n, a in diagram.diagram_graph.nodes(data=True):
        c = cell_of(grid, n)
        requires(c is not None)
        a["x"] = str(150 * c.col + 50)
        a["y"] = str(100 * c.row + 50)


BENDS = ("parallelGateway", "inclusiveGateway", "exclusiveGateway")


def route(s, t):
    """Way points of a flow from s to t."""
    sx, sy, tx, ty = int(s["x"]), int(s["y"]), int(t["x"]), int(t["y"])
    if s["type"] in BENDS:
        return [(sx + 50, sy + 50), (sx + 50, ty + 50), (tx, ty + 50)]
    if s["y"] != t["y"] and t["type"] in BENDS:
        return [(sx + 50, sy + 50), (tx + 50, sy + 50), (tx + 50, ty)]
    return [(sx + 50, sy + 50), (tx, ty + 50)]


def set_flows_waypoints(diagram):
    g = diagram.diagram_graph
    for u, v, a in g.edges(data=True):
        a["waypoints"] = [(str(x), str(y)) for x, y in route(g.nodes[a["sourceRef"]], g.nodes[a["targetRef"]])]
