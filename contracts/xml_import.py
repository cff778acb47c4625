"""Contracts of the BPMN 2.0 XML import: what the inner representation holds for a given document.

The functions read the parsed document (minidom) only through its standard interface and say which record every element of
the document must produce.  Documents are well formed BPMN: `incoming`, `outgoing`, `flowNodeRef` and `conditionExpression`
hold a text, shapes have bounds, a diagram with a plane is present.
"""
from contracts.base import requires

MESSAGE, TIMER, SIGNAL = "messageEventDefinition", "timerEventDefinition", "signalEventDefinition"
CONDITIONAL, ESCALATION, ERROR = "conditionalEventDefinition", "escalationEventDefinition", "errorEventDefinition"
COMPENSATE, TERMINATE = "compensateEventDefinition", "terminateEventDefinition"

# kind of flow node -> attributes with their default
ATTRIBUTES = {
    "task": [("default", None)], "userTask": [("default", None)], "serviceTask": [("default", None)], "manualTask": [("default", None)],
    "subProcess": [("default", None), ("triggeredByEvent", "false")],
    "dataObject": [("isCollection", "false")],
    "inclusiveGateway": [("gatewayDirection", "Unspecified"), ("default", None)],
    "exclusiveGateway": [("gatewayDirection", "Unspecified"), ("default", None)],
    "complexGateway": [("gatewayDirection", "Unspecified"), ("default", None)],
    "parallelGateway": [("gatewayDirection", "Unspecified")],
    "eventBasedGateway": [("gatewayDirection", "Unspecified"), ("instantiate", "false"), ("eventGatewayType", "Exclusive")],
    "startEvent": [("parallelMultiple", "false"), ("isInterrupting", "true")],
    "intermediateCatchEvent": [("parallelMultiple", "false")],
    "endEvent": [], "intermediateThrowEvent": [],
    "boundaryEvent": [("parallelMultiple", "false"), ("cancelActivity", "true"), ("attachedToRef", "")],
}
# kind of event -> definitions it may carry
DEFINITIONS = {
    "startEvent": [MESSAGE, TIMER, CONDITIONAL, ESCALATION, SIGNAL],
    "intermediateCatchEvent": [MESSAGE, TIMER, SIGNAL, CONDITIONAL, ESCALATION],
    "endEvent": [MESSAGE, SIGNAL, ESCALATION, ERROR, COMPENSATE, TERMINATE],
    "intermediateThrowEvent": [MESSAGE, SIGNAL, ESCALATION, COMPENSATE],
    "boundaryEvent": [MESSAGE, TIMER, SIGNAL, CONDITIONAL, ESCALATION, ERROR],
}


def kind(element):
    return element.tagName.split(":")[-1]


def is_element(node):
    return node.nodeType == node.ELEMENT_NODE


def attribute(element, name, default):
    if element.hasAttribute(name):
        return element.getAttribute(name)
    return default


def text(element):
    return element.firstChild.nodeValue


def texts(element, name):
    """Texts of the children with that name, in document order."""
    return [text(c) for c in element.childNodes if is_element(c) and kind(c) == name]


def flow_node(graph, process_id, process_attributes, element):
    """The node record of a flow node, and its entry in the list of its process."""
    node_id = element.getAttribute("id")
    graph.add_node(node_id)
    node = graph.nodes[node_id]
    node["id"] = node_id
    node["type"] = kind(element)
    node["node_name"] = attribute(element, "name", "")
    node["process"] = process_id
    node["incoming"] = texts(element, "incoming")
    node["outgoing"] = texts(element, "outgoing")
    process_attributes["node_ids"].append(node_id)
    return node


def typed_node(graph, process_id, process_attributes, element, k):
    node = flow_node(graph, process_id, process_attributes, element)
    for name, default in ATTRIBUTES[k]:
        node[name] = attribute(element, name, default)
    if k in DEFINITIONS:
        node["event_definitions"] = [{"id": c.getAttribute("id"), "definition_type": kind(c)} for c in element.childNodes
                                     if is_element(c) and kind(c) in DEFINITIONS[k]]


def simple_node(graph, process_id, process_attributes, element):
    """Any flow node except a sub-process."""
    for k in ATTRIBUTES:
        if kind(element) == k:
            typed_node(graph, process_id, process_attributes, element, k)


def subprocess_node(graph, sequence_flows, process_id, process_attributes, element):
    typed_node(graph, process_id, process_attributes, element, "subProcess")
    node_id = element.getAttribute("id")
    graph.nodes[node_id]["node_ids"] = []
    contents(graph, sequence_flows, node_id, graph.nodes[node_id], element)


def contents(graph, sequence_flows, owner_id, owner_attributes, parent):
    """Flow nodes first, then sequence flows, of a process or sub-process."""
    for c in parent.childNodes:
        if is_element(c):
            if kind(c) == "subProcess":
                subprocess_node(graph, sequence_flows, owner_id, owner_attributes, c)
            elif kind(c) in ATTRIBUTES:
                simple_node(graph, owner_id, owner_attributes, c)
    for c in parent.childNodes:
        if is_element(c) and kind(c) == "sequenceFlow":
            sequence_flow(graph, sequence_flows, owner_id, c)


def edge(graph, flow_id, name, source, target):
    graph.add_edge(source, target)
    record = graph[source][target]
    record["id"] = flow_id
    record["name"] = name
    record["sourceRef"] = source
    record["targetRef"] = target
    return record


def listed(graph, flow_id, source, target):
    """The flow is listed at its two ends, whether or not the document lists it there."""
    node = graph.nodes[source]
    if "outgoing" not in node:
        node["outgoing"] = []
    if flow_id not in node["outgoing"]:
        node["outgoing"].append(flow_id)
    node = graph.nodes[target]
    if "incoming" not in node:
        node["incoming"] = []
    if flow_id not in node["incoming"]:
        node["incoming"].append(flow_id)


def sequence_flow(graph, sequence_flows, process_id, element):
    flow_id, name = element.getAttribute("id"), attribute(element, "name", "")
    source, target = element.getAttribute("sourceRef"), element.getAttribute("targetRef")
    sequence_flows[flow_id] = {"name": name, "sourceRef": source, "targetRef": target}
    record = edge(graph, flow_id, name, source, target)
    record["process"] = process_id
    for c in element.childNodes:
        if is_element(c) and kind(c) == "conditionExpression":
            record["conditionExpression"] = {"id": c.getAttribute("id"), "conditionExpression": text(c)}
    listed(graph, flow_id, source, target)


def message_flow(graph, message_flows, element):
    flow_id, name = element.getAttribute("id"), attribute(element, "name", "")
    source, target = element.getAttribute("sourceRef"), element.getAttribute("targetRef")
    message_flows[flow_id] = {"id": flow_id, "name": name, "sourceRef": source, "targetRef": target}
    edge(graph, flow_id, name, source, target)
    listed(graph, flow_id, source, target)


def participant(graph, participants, element):
    pid, process = element.getAttribute("id"), element.getAttribute("processRef")
    participants[pid] = {"name": element.getAttribute("name"), "processRef": process}
    if process == "":
        graph.add_node(pid)
        graph.nodes[pid]["type"] = "participant"
        graph.nodes[pid]["process"] = pid


def collaboration_element(graph, element, collaboration):
    collaboration["id"] = element.getAttribute("id")
    collaboration["participants"] = {}
    collaboration["messageFlows"] = {}
    for c in element.childNodes:
        if is_element(c):
            if kind(c) == "participant":
                participant(graph, collaboration["participants"], c)
            elif kind(c) == "messageFlow":
                message_flow(graph, collaboration["messageFlows"], c)


def process_element(process_elements, element):
    pid = element.getAttribute("id")
    process_elements[pid] = {"id": pid, "name": attribute(element, "name", ""), "isClosed": attribute(element, "isClosed", "false"),
                             "isExecutable": attribute(element, "isExecutable", "false"),
                             "processType": attribute(element, "processType", "None"), "node_ids": []}


def diagram_and_plane(diagram_attributes, plane_attributes, diagram_element, plane_element):
    diagram_attributes["id"] = diagram_element.getAttribute("id")
    diagram_attributes["name"] = attribute(diagram_element, "name", "")
    plane_attributes["id"] = plane_element.getAttribute("id")
    plane_attributes["bpmnElement"] = plane_element.getAttribute("bpmnElement")


def lanes_of(element, plane_element):
    lanes = {}
    for c in element.childNodes:
        if is_element(c) and kind(c) == "lane":
            lanes[c.getAttribute("id")] = lane(c, plane_element)
    return lanes


def lane_set(process_attributes, element, plane_element):
    process_attributes["laneSet"] = {"id": element.getAttribute("id"), "lanes": lanes_of(element, plane_element)}


def child_lane_set(element, plane_element):
    return {"id": element.getAttribute("id"), "lanes": lanes_of(element, plane_element)}


def lane(element, plane_element):
    lane_id = element.getAttribute("id")
    child = {}
    for c in element.childNodes:
        if is_element(c) and kind(c) == "childLaneSet":
            child = child_lane_set(c, plane_element)
    record = {"id": lane_id, "name": element.getAttribute("name"), "childLaneSet": child, "flowNodeRefs": texts(element, "flowNodeRef")}
    shape = None
    for c in plane_element.childNodes:
        if is_element(c) and c.getAttribute("bpmnElement") == lane_id:
            shape = c
    if shape is not None:
        record["isHorizontal"] = shape.getAttribute("isHorizontal")
        place(record, shape)
    return record


def place(record, shape):
    found = shape.getElementsByTagNameNS("*", "Bounds")
    requires(len(found) > 0)
    bounds = found[0]
    for name in ("width", "height", "x", "y"):
        record[name] = bounds.getAttribute(name)


def shape_di(participants, graph, shape):
    requires(len(shape.getElementsByTagNameNS("*", "Bounds")) > 0)
    element_id = shape.getAttribute("bpmnElement")
    if graph.has_node(element_id):
        node = graph.nodes[element_id]
        if node["type"] == "subProcess":
            node["isExpanded"] = attribute(shape, "isExpanded", "false")
        place(node, shape)
    if element_id in participants:
        participants[element_id]["isHorizontal"] = shape.getAttribute("isHorizontal")
        place(participants[element_id], shape)


def flow_di(graph, sequence_flows, message_flows, element):
    flow_id = element.getAttribute("bpmnElement")
    flow = None
    if flow_id in sequence_flows:
        flow = sequence_flows[flow_id]
    elif flow_id in message_flows:
        flow = message_flows[flow_id]
    if flow is not None:
        requires(graph.has_edge(flow["sourceRef"], flow["targetRef"]))
        record = graph[flow["sourceRef"]][flow["targetRef"]]
        record["waypoints"] = [(w.getAttribute("x"), w.getAttribute("y")) for w in element.getElementsByTagNameNS("*", "waypoint")]
        record["name"] = flow["name"]


def processes(document, graph, sequence_flows, process_elements, plane_element):
    for p in document.getElementsByTagNameNS("*", "process"):
        process_element(process_elements, p)
        pid = p.getAttribute("id")
        sets = p.getElementsByTagNameNS("*", "laneSet")
        if len(sets) > 0:
            lane_set(process_elements[pid], sets[0], plane_element)
        contents(graph, sequence_flows, pid, process_elements[pid], p)


def document_into(document, diagram):
    diagram_element = document.getElementsByTagNameNS("*", "BPMNDiagram")[0]
    plane_element = diagram_element.getElementsByTagNameNS("*", "BPMNPlane")[0]
    diagram_and_plane(diagram.diagram_attributes, diagram.plane_attributes, diagram_element, plane_element)
    processes(document, diagram.diagram_graph, diagram.sequence_flows, diagram.process_elements, plane_element)
    found = document.getElementsByTagNameNS("*", "collaboration")
    if len(found) > 0:
        collaboration_element(diagram.diagram_graph, found[0], diagram.collaboration)
    participants, message_flows = {}, {}
    if "participants" in diagram.collaboration:
        participants = diagram.collaboration["participants"]
    if "messageFlows" in diagram.collaboration:
        message_flows = diagram.collaboration["messageFlows"]
    for c in plane_element.childNodes:
        if is_element(c):
            if kind(c) == "BPMNShape":
                shape_di(participants, diagram.diagram_graph, c)
            elif kind(c) == "BPMNEdge":
                flow_di(diagram.diagram_graph, diagram.sequence_flows, message_flows, c)


def load(diagram, filepath):
    from xml.dom import minidom
    document_into(minidom.parse(filepath), diagram)
