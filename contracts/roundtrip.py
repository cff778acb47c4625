"""What importing the exported document must give back: the diagram itself, completed with the defaults of the format.

Precondition: the diagram is complete (see xml_export), every element belongs to a process or sub-process of the diagram, flow
ids and condition texts are not empty, event definitions are of a kind the event may carry.
"""
from contracts.base import requires
from contracts.xml_import import ATTRIBUTES, DEFINITIONS


def node_after(node_id, node, kind):
    r = {"id": node_id, "type": kind, "node_name": node["node_name"], "process": node["process"],
         "incoming": list(node["incoming"]), "outgoing": list(node["outgoing"])}
    for name, default in ATTRIBUTES[kind]:
        if name in node:
            r[name] = node[name]
        else:
            r[name] = default
    if kind in DEFINITIONS:
        r["event_definitions"] = [{"id": d["id"], "definition_type": d["definition_type"]} for d in node["event_definitions"]
                                  if d["definition_type"] in DEFINITIONS[kind]]
    return r


def place_after(r, node, kind):
    for name in ("width", "height", "x", "y"):
        r[name] = node[name]
    if kind == "subProcess":
        r["isExpanded"] = node["isExpanded"]


def flow_name(record):
    """An unnamed conditional flow is labelled with its condition."""
    if record["name"] == "" and "conditionExpression" in record:
        return record["conditionExpression"]["conditionExpression"]
    return record["name"]


def flow_after(record):
    r = {"id": record["id"], "name": flow_name(record), "sourceRef": record["sourceRef"], "targetRef": record["targetRef"]}
    if "process" in record:
        r["process"] = record["process"]
    if "conditionExpression" in record:
        c = record["conditionExpression"]
        r["conditionExpression"] = {"id": c["id"], "conditionExpression": c["conditionExpression"]}
    return r


def process_after(process_id, attributes):
    return {"id": process_id, "name": attributes["name"], "isClosed": attributes["isClosed"], "isExecutable": attributes["isExecutable"],
            "processType": attributes["processType"], "node_ids": []}


def lane_after(lane_id, lane):
    r = {"id": lane_id, "name": lane["name"], "childLaneSet": {}, "flowNodeRefs": [], "isHorizontal": lane["isHorizontal"]}
    if "flowNodeRefs" in lane:
        r["flowNodeRefs"] = list(lane["flowNodeRefs"])
    if "childLaneSet" in lane and len(lane["childLaneSet"]) > 0:
        r["childLaneSet"] = lane_set_after(lane["childLaneSet"])
    for name in ("width", "height", "x", "y"):
        r[name] = lane[name]
    return r


def lane_set_after(lane_set):
    lanes = {}
    for lane_id, lane in lane_set["lanes"].items():
        lanes[lane_id] = lane_after(lane_id, lane)
    return {"id": lane_set["id"], "lanes": lanes}


def contents_ids(diagram, owner):
    return [n for n, a in diagram.diagram_graph.nodes(data=True) if a["process"] == owner]


def roundtrip(diagram, into):
    """The whole diagram after export and import."""
    g = diagram.diagram_graph
    for n, a in g.nodes(data=True):
        if a["type"] == "participant":
            r = {"type": "participant", "process": n}
            for k in ("incoming", "outgoing"):
                if k in a:
                    r[k] = list(a[k])
            place_after(r, a, "participant")
        else:
            r = node_after(n, a, a["type"])
            place_after(r, a, a["type"])
            if a["type"] == "subProcess":
                r["node_ids"] = contents_ids(diagram, n)
        into.diagram_graph.add_node(n, **r)
    messages = diagram.collaboration["messageFlows"] if diagram.collaboration else {}
    for u, v, e in g.edges(data=True):
        r = flow_after(e)
        r["waypoints"] = [(w[0], w[1]) for w in e["waypoints"]]
        into.diagram_graph.add_edge(u, v, **r)
        if e["id"] not in messages:
            into.sequence_flows[e["id"]] = {"name": r["name"], "sourceRef": e["sourceRef"], "targetRef": e["targetRef"]}
    for pid, p in diagram.process_elements.items():
        r = process_after(pid, p)
        r["node_ids"] = contents_ids(diagram, pid)
        if "laneSet" in p:
            r["laneSet"] = lane_set_after(p["laneSet"])
        into.process_elements[pid] = r
    into.diagram_attributes.update({"id": diagram.diagram_attributes["id"], "name": diagram.diagram_attributes["name"]})
    into.plane_attributes.update({"id": diagram.plane_attributes["id"], "bpmnElement": diagram.plane_attributes["bpmnElement"]})
    if diagram.collaboration:
        c = diagram.collaboration
        into.collaboration["id"] = c["id"]
        into.collaboration["participants"] = {i: {k: p[k] for k in ("name", "processRef", "isHorizontal", "width", "height", "x", "y")}
                                              for i, p in c["participants"].items()}
        into.collaboration["messageFlows"] = {i: {"id": i, "name": f["name"], "sourceRef": f["sourceRef"], "targetRef": f["targetRef"]}
                                              for i, f in c["messageFlows"].items()}


def node_back(graph, owner, node_id, node, kind):
    graph.add_node(node_id, **node_after(node_id, node, kind))
    owner["node_ids"].append(node_id)


def flow_back(graph, sequence_flows, record):
    """A flow between two nodes without other flows: its table entry, its edge and its place at both ends."""
    r = flow_after(record)
    sequence_flows[record["id"]] = {"name": r["name"], "sourceRef": record["sourceRef"], "targetRef": record["targetRef"]}
    graph.add_edge(record["sourceRef"], record["targetRef"], **r)
    graph.nodes[record["sourceRef"]]["outgoing"] = [record["id"]]
    graph.nodes[record["targetRef"]]["incoming"] = [record["id"]]


def process_back(processes, process_id, attributes):
    processes[process_id] = process_after(process_id, attributes)


def shape_back(graph, node_id, node):
    place_after(graph.nodes[node_id], node, node["type"])


def line_back(graph, record):
    e = graph[record["sourceRef"]][record["targetRef"]]
    e["waypoints"] = [(w[0], w[1]) for w in record["waypoints"]]


def lane_back(lane_id, lane):
    return lane_after(lane_id, lane)


def lane_set_back(process, lane_set):
    process["laneSet"] = lane_set_after(lane_set)


def contents_back(diagram, owner_id, log):
    """What is read back inside a process or sub-process: its nodes, then its flows, each once."""
    for node_id, record in diagram.diagram_graph.nodes(data=True):
        if record["process"] == owner_id and record["type"] != "participant":
            log.append(("node", node_id, record, owner_id))
    for u, v, record in diagram.diagram_graph.edges(data=True):
        if "process" in record and record["process"] == owner_id:
            log.append(("flow", record["id"], record, owner_id))


def subprocess_back(diagram, graph, owner, node_id, node, log):
    node_back(graph, owner, node_id, node, "subProcess")
    graph.nodes[node_id]["node_ids"] = []
    contents_back(diagram, node_id, log)


def bounds(record):
    return (record["width"], record["height"], record["x"], record["y"])


def document_back(diagram, into, log):
    """What is read back of the whole document, element by element."""
    a, b = diagram.diagram_attributes, diagram.plane_attributes
    requires("id" in a and "name" in a and "id" in b and "bpmnElement" in b)
    into.diagram_attributes["id"] = a["id"]
    into.diagram_attributes["name"] = a["name"]
    into.plane_attributes["id"] = b["id"]
    into.plane_attributes["bpmnElement"] = b["bpmnElement"]
    for process_id, p in diagram.process_elements.items():
        into.process_elements[process_id] = process_after(process_id, p)
        if "laneSet" in p:
            log.append(("laneSet", process_id, p["laneSet"]))
        contents_back(diagram, process_id, log)
    messages = {}
    if len(diagram.collaboration) > 0:
        c = diagram.collaboration
        messages = c["messageFlows"]
        into.collaboration["id"] = c["id"]
        into.collaboration["participants"] = {}
        into.collaboration["messageFlows"] = {}
        for flow_id, f in messages.items():
            log.append(("messageFlow", flow_id, f["name"], f["sourceRef"], f["targetRef"]))
        for participant_id, p in c["participants"].items():
            log.append(("participant", participant_id, p["name"], p["processRef"]))
        for flow_id, f in messages.items():
            log.append(("line", flow_id, [(w[0], w[1]) for w in diagram.get_flow_by_id(flow_id)[2]["waypoints"]]))
        for participant_id, p in c["participants"].items():
            log.append(("shape", participant_id, p["isHorizontal"], "", bounds(p)))
    for node_id, record in diagram.diagram_graph.nodes(data=True):
        if record["type"] != "participant":
            log.append(("shape", node_id, "", record["isExpanded"] if record["type"] == "subProcess" else "", bounds(record)))
    for u, v, record in diagram.diagram_graph.edges(data=True):
        if record["id"] not in messages:
            log.append(("line", record["id"], [(w[0], w[1]) for w in record["waypoints"]]))
