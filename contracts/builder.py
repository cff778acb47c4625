"""Contracts of the diagram building operations.

Every function is an executable specification: given the diagram in its pre-state it performs exactly the change the
operation promises and returns the promised result.  `requires(c)` cuts executions outside the precondition.
"""
import uuid

from contracts.base import requires


def fresh_id():
    return "id" + str(uuid.uuid4())


def flag(value):
    if value:
        return "true"
    return "false"


def new_diagram(diagram, diagram_name=""):
    import networkx
    diagram.diagram_graph = networkx.Graph()
    diagram.sequence_flows = {}
    diagram.process_elements = {}
    diagram.diagram_attributes = {"id": fresh_id(), "name": diagram_name}
    diagram.plane_attributes = {}
    diagram.collaboration = {}


def init_diagram(diagram):
    import networkx
    diagram.diagram_graph = networkx.Graph()
    diagram.sequence_flows = {}
    diagram.process_elements = {}
    diagram.diagram_attributes = {}
    diagram.plane_attributes = {}
    diagram.collaboration = {}


def add_process_to_diagram(diagram, process_name="", process_is_closed=False, process_is_executable=False,
                           process_type="None"):
    plane_id = fresh_id()
    process_id = fresh_id()
    diagram.process_elements[process_id] = {"name": process_name, "isClosed": flag(process_is_closed),
                                            "isExecutable": flag(process_is_executable), "processType": process_type}
    diagram.plane_attributes["id"] = plane_id
    diagram.plane_attributes["bpmnElement"] = process_id
    return process_id


def new_node(diagram, process_id, node_type, name, node_id, extra):
    """The node is recorded under its id with default geometry, no flows, and the given extra attributes."""
    if node_id is None:
        node_id = fresh_id()
    requires(not diagram.diagram_graph.has_node(node_id))
    diagram.diagram_graph.add_node(node_id)
    attrs = diagram.diagram_graph.node[node_id]
    attrs["id"] = node_id
    attrs["type"] = node_type
    attrs["node_name"] = name
    attrs["process"] = process_id
    attrs["incoming"] = []
    attrs["outgoing"] = []
    attrs["width"] = "100"
    attrs["height"] = "100"
    attrs["x"] = "100"
    attrs["y"] = "100"
    for key in extra:
        attrs[key] = extra[key]
    return node_id, attrs


def add_flow_node_to_diagram(diagram, process_id, node_type, name, node_id=None):
    return new_node(diagram, process_id, node_type, name, node_id, {})


def add_task_to_diagram(diagram, process_id, task_name="", node_id=None):
    return new_node(diagram, process_id, "task", task_name, node_id, {})


def add_subprocess_to_diagram(diagram, process_id, subprocess_name, is_expanded=False, triggered_by_event=False,
                              node_id=None):
    return new_node(diagram, process_id, "subProcess", subprocess_name, node_id,
                    {"isExpanded": flag(is_expanded), "triggeredByEvent": flag(triggered_by_event)})


def event_definition(definition_type):
    return [{"id": fresh_id(), "definition_type": definition_type}]


def add_start_event_to_diagram(diagram, process_id, start_event_name="", start_event_definition=None,
                               parallel_multiple=False, is_interrupting=True, node_id=None):
    definitions = []
    node_id, attrs = new_node(diagram, process_id, "startEvent", start_event_name, node_id,
                              {"parallelMultiple": flag(parallel_multiple), "isInterrupting": flag(is_interrupting)})
    if start_event_definition == "message":
        definitions = event_definition("messageEventDefinition")
    elif start_event_definition == "timer":
        definitions = event_definition("timerEventDefinition")
    elif start_event_definition == "conditional":
        definitions = event_definition("conditionalEventDefinition")
    elif start_event_definition == "signal":
        definitions = event_definition("signalEventDefinition")
    elif start_event_definition == "escalation":
        definitions = event_definition("escalationEventDefinition")
    attrs["event_definitions"] = definitions
    return node_id, attrs


def add_end_event_to_diagram(diagram, process_id, end_event_name="", end_event_definition=None, node_id=None):
    definitions = []
    node_id, attrs = new_node(diagram, process_id, "endEvent", end_event_name, node_id, {})
    if end_event_definition == "terminate":
        definitions = event_definition("terminateEventDefinition")
    elif end_event_definition == "escalation":
        definitions = event_definition("escalationEventDefinition")
    elif end_event_definition == "message":
        definitions = event_definition("messageEventDefinition")
    elif end_event_definition == "compensate":
        definitions = event_definition("compensateEventDefinition")
    elif end_event_definition == "signal":
        definitions = event_definition("signalEventDefinition")
    elif end_event_definition == "error":
        definitions = event_definition("errorEventDefinition")
    attrs["event_definitions"] = definitions
    return node_id, attrs


def gateway(diagram, process_id, gateway_type, gateway_name, gateway_direction, node_id, extra):
    """An invalid direction is rejected and nothing changes."""
    import bpmn_python.bpmn_diagram_exception as bpmn_exception
    if gateway_direction not in ("Unspecified", "Converging", "Diverging", "Mixed"):
        requires(node_id is None or not diagram.diagram_graph.has_node(node_id))
        raise bpmn_exception.BpmnPythonError("Invalid gateway direction")
    node_id, attrs = new_node(diagram, process_id, gateway_type, gateway_name, node_id, extra)
    attrs["gatewayDirection"] = gateway_direction
    return node_id, attrs


def add_gateway_to_diagram(diagram, process_id, gateway_type, gateway_name="", gateway_direction="Unspecified",
                           node_id=None):
    return gateway(diagram, process_id, gateway_type, gateway_name, gateway_direction, node_id, {})


def add_exclusive_gateway_to_diagram(diagram, process_id, gateway_name="", gateway_direction="Unspecified",
                                     default=None, node_id=None):
    return gateway(diagram, process_id, "exclusiveGateway", gateway_name, gateway_direction, node_id,
                   {"default": default})


def add_inclusive_gateway_to_diagram(diagram, process_id, gateway_name="", gateway_direction="Unspecified",
                                     default=None, node_id=None):
    return gateway(diagram, process_id, "inclusiveGateway", gateway_name, gateway_direction, node_id,
                   {"default": default})


def add_parallel_gateway_to_diagram(diagram, process_id, gateway_name="", gateway_direction="Unspecified",
                                    node_id=None):
    return gateway(diagram, process_id, "parallelGateway", gateway_name, gateway_direction, node_id, {})


def add_sequence_flow_to_diagram(diagram, process_id, source_ref_id, target_ref_id, sequence_flow_name=""):
    """The flow appears once as an edge, once in the flow table, once in the source's outgoing and once in the
    target's incoming list.  An unknown endpoint is rejected and nothing changes."""
    graph = diagram.diagram_graph
    if not graph.has_node(source_ref_id):
        raise KeyError(source_ref_id)
    if not graph.has_node(target_ref_id):
        raise KeyError(target_ref_id)
    requires(not graph.has_edge(source_ref_id, target_ref_id))
    source = graph.node[source_ref_id]
    target = graph.node[target_ref_id]
    flow_id = fresh_id()
    diagram.sequence_flows[flow_id] = {"name": sequence_flow_name, "sourceRef": source_ref_id,
                                       "targetRef": target_ref_id}
    graph.add_edge(source_ref_id, target_ref_id)
    flow = graph[source_ref_id][target_ref_id]
    flow["id"] = flow_id
    flow["name"] = sequence_flow_name
    flow["process"] = process_id
    flow["sourceRef"] = source_ref_id
    flow["targetRef"] = target_ref_id
    flow["waypoints"] = [(source["x"], source["y"]), (target["x"], target["y"])]
    source["outgoing"].append(flow_id)
    target["incoming"].append(flow_id)
    return flow_id, flow
