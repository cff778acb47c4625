"""Contracts of the BPMN 2.0 XML export: the element tree a diagram must be written as.

Precondition: the diagram is complete -- every node has its name, flow lists, the attributes of its kind and a position, every
flow a name and waypoints, lanes and participants a shape -- and containment of sub-processes is well founded.
"""
import os
import xml.etree.ElementTree as eTree

from contracts.base import requires

NAMESPACES = [("xmlns", "http://www.omg.org/spec/BPMN/20100524/MODEL"),
              ("xmlns:bpmndi", "http://www.omg.org/spec/BPMN/20100524/DI"),
              ("xmlns:omgdc", "http://www.omg.org/spec/DD/20100524/DC"),
              ("xmlns:omgdi", "http://www.omg.org/spec/DD/20100524/DI"),
              ("xmlns:xsi", "http://www.w3.org/2001/XMLSchema-instance"),
              ("targetNamespace", "http://www.signavio.com/bpmn20"),
              ("typeLanguage", "http://www.w3.org/2001/XMLSchema"),
              ("expressionLanguage", "http://www.w3.org/1999/XPath"),
              ("xmlns:xsd", "http://www.w3.org/2001/XMLSchema")]
# kind of flow node -> attributes written (always), attributes written when set, carries event definitions
WRITTEN = {
    "task": ([], ["default"], False), "userTask": ([], ["default"], False), "serviceTask": ([], ["default"], False),
    "manualTask": ([], ["default"], False), "subProcess": (["triggeredByEvent"], ["default"], False),
    "dataObject": (["isCollection"], [], False),
    "complexGateway": (["gatewayDirection"], ["default"], False), "inclusiveGateway": (["gatewayDirection"], ["default"], False),
    "exclusiveGateway": (["gatewayDirection"], ["default"], False), "parallelGateway": (["gatewayDirection"], [], False),
    "eventBasedGateway": (["gatewayDirection", "instantiate", "eventGatewayType"], [], False),
    "startEvent": (["parallelMultiple", "isInterrupting"], [], True), "intermediateCatchEvent": (["parallelMultiple"], [], True),
    "endEvent": ([], [], True), "intermediateThrowEvent": ([], [], True),
    "boundaryEvent": (["parallelMultiple", "cancelActivity", "attachedToRef"], [], True),
}


def child(parent, tag, attributes):
    e = eTree.SubElement(parent, tag)
    for name, value in attributes:
        e.set(name, value)
    return e


def leaf(parent, tag, text):
    e = eTree.SubElement(parent, tag)
    e.text = text


def definitions():
    root = eTree.Element("definitions")
    for name, value in NAMESPACES:
        root.set(name, value)
    return root


def diagram_and_plane(root, diagram_attributes, plane_attributes):
    d = child(root, "bpmndi:BPMNDiagram", [("id", diagram_attributes["id"]), ("name", diagram_attributes["name"])])
    p = child(d, "bpmndi:BPMNPlane", [("id", plane_attributes["id"]), ("bpmnElement", plane_attributes["bpmnElement"])])
    return d, p


def process(root, process_id, attributes):
    return child(root, "process", [("id", process_id), ("name", attributes["name"]), ("isClosed", attributes["isClosed"]),
                                   ("isExecutable", attributes["isExecutable"]), ("processType", attributes["processType"])])


def node_of_kind(diagram, node_id, node, parent, kind):
    """One flow node with everything it contains."""
    always, optional, definitions_too = WRITTEN[kind]
    e = child(parent, kind, [("id", node_id), ("name", node["node_name"])])
    for flow in node["incoming"]:
        leaf(e, "incoming", flow)
    for flow in node["outgoing"]:
        leaf(e, "outgoing", flow)
    for name in always:
        e.set(name, node[name])
    for name in optional:
        if name in node and node[name] is not None:
            e.set(name, node[name])
    if definitions_too:
        for d in node["event_definitions"]:
            de = eTree.SubElement(e, d["definition_type"])
            if d["id"] != "":
                de.set("id", d["id"])
    if kind == "subProcess":
        contents(diagram, node_id, e)


def node(diagram, node_id, record, parent):
    for k in WRITTEN:
        if record["type"] == k:
            node_of_kind(diagram, node_id, record, parent, k)


def contents(diagram, owner_id, parent):
    """The nodes and the flows of a process or sub-process, each once."""
    for node_id, record in diagram.diagram_graph.nodes(data=True):
        if record["process"] == owner_id:
            node(diagram, node_id, record, parent)
    for u, v, record in diagram.diagram_graph.edges(data=True):
        if "process" in record and record["process"] == owner_id:
            flow(record, parent)


def flow(record, parent):
    name = record["name"]
    if name == "" and "conditionExpression" in record:
        name = record["conditionExpression"]["conditionExpression"]
    e = child(parent, "sequenceFlow", [("id", record["id"]), ("name", name), ("sourceRef", record["sourceRef"]),
                                       ("targetRef", record["targetRef"])])
    if "conditionExpression" in record:
        c = child(e, "conditionExpression", [("id", record["conditionExpression"]["id"])])
        c.text = record["conditionExpression"]["conditionExpression"]


def shape(plane, element_id, record, attributes):
    e = child(plane, "bpmndi:BPMNShape", [("id", element_id + "_gui"), ("bpmnElement", element_id)] + attributes)
    child(e, "omgdc:Bounds", [(name, record[name]) for name in ("width", "height", "x", "y")])


def node_shape(node_id, record, plane):
    if record["type"] == "subProcess":
        shape(plane, node_id, record, [("isExpanded", record["isExpanded"])])
    else:
        shape(plane, node_id, record, [])


def flow_edge(record, plane):
    line(plane, record["id"], record["waypoints"])


def line(plane, flow_id, waypoints):
    e = child(plane, "bpmndi:BPMNEdge", [("id", flow_id + "_gui"), ("bpmnElement", flow_id)])
    for w in waypoints:
        child(e, "omgdi:waypoint", [("x", w[0]), ("y", w[1])])


def lanes_in(element, record, plane):
    if record["id"] != "":
        element.set("id", record["id"])
    for lane_id, attributes in record["lanes"].items():
        lane(element, lane_id, attributes, plane)


def lane_set(parent, record, plane):
    lanes_in(eTree.SubElement(parent, "laneSet"), record, plane)


def child_lane_set(parent, record, plane):
    lanes_in(eTree.SubElement(parent, "childLaneSet"), record, plane)


def lane(parent, lane_id, record, plane):
    e = child(parent, "lane", [("id", lane_id), ("name", record["name"])])
    if "childLaneSet" in record and len(record["childLaneSet"]) > 0:
        child_lane_set(e, record["childLaneSet"], plane)
    if "flowNodeRefs" in record:
        for n in record["flowNodeRefs"]:
            leaf(e, "flowNodeRef", n)
    shape(plane, lane_id, record, [("isHorizontal", record["isHorizontal"])])


def collaboration_xml(diagram, root, plane):
    c = diagram.collaboration
    e = child(root, "collaboration", [("id", c["id"])])
    for flow_id, f in c["messageFlows"].items():
        child(e, "messageFlow", [("id", flow_id), ("name", f["name"]), ("sourceRef", f["sourceRef"]), ("targetRef", f["targetRef"])])
        line(plane, flow_id, diagram.get_flow_by_id(flow_id)[2]["waypoints"])
    for participant_id, p in c["participants"].items():
        child(e, "participant", [("id", participant_id), ("name", p["name"]), ("processRef", p["processRef"])])
        shape(plane, participant_id, p, [("isHorizontal", p["isHorizontal"])])


def tree(diagram):
    root = definitions()
    _, plane = diagram_and_plane(root, diagram.diagram_attributes, diagram.plane_attributes)
    messages = {}
    if len(diagram.collaboration) > 0:
        messages = diagram.collaboration["messageFlows"]
        collaboration_xml(diagram, root, plane)
    for process_id, attributes in diagram.process_elements.items():
        p = process(root, process_id, attributes)
        if "laneSet" in attributes:
            lane_set(p, attributes["laneSet"], plane)
        contents(diagram, process_id, p)
    for node_id, record in diagram.diagram_graph.nodes(data=True):
        if record["type"] != "participant":
            node_shape(node_id, record, plane)
    for u, v, record in diagram.diagram_graph.edges(data=True):
        if record["id"] not in messages:
            flow_edge(record, plane)
    return root


def tree_no_di(diagram):
    root = definitions()
    for process_id, attributes in diagram.process_elements.items():
        contents(diagram, process_id, process(root, process_id, attributes))
    return root


def write(root, directory, filename):
    try:
        os.makedirs(directory)
    except OSError:
        pass
    eTree.ElementTree(root).write(directory + filename, encoding="utf-8", xml_declaration=True)


def export(diagram, directory, filename):
    write(tree(diagram), directory, filename)


def export_no_di(diagram, directory, filename):
    write(tree_no_di(diagram), directory, filename)


def blank(text):
    return text is None or text.strip() == ""


def kept(old, new):
    """Pretty printing may only replace white space by white space."""
    if blank(old):
        return blank(new)
    return new == old
