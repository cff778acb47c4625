"""Contracts of the CSV export: which rows a process gives, and how they are written."""
from contracts.base import requires
from bpmn_python.bpmn_diagram_exception import BpmnPythonError

HEADER = ["Order", "Activity", "Condition", "Who", "Subprocess", "Terminated"]
LETTERS = "abcdefghijklmnopqrstuvwxyz"
ACTIVITIES = ("task", "subProcess")
CLASSIFIED = ["task", "subProcess", "complexGateway", "eventBasedGateway", "inclusiveGateway", "exclusiveGateway", "parallelGateway",
              "startEvent", "intermediateCatchEvent", "endEvent", "intermediateThrowEvent"]


def classes(t, a):
    return ["Element"] + (["Start Event"] if t == "startEvent" else []) + (["End Event"] if t == "endEvent" else []) + \
        (["Join"] if len(a["incoming"]) > 1 else []) + (["Split"] if len(a["outgoing"]) > 1 else [])


def generate_nodes_clasification(diagram):
    result = {}
    for t in CLASSIFIED:
        for n, a in diagram.diagram_graph.nodes(data=True):
            if a["type"] == t:
                result[n] = classes(t, a)
    return result


def row(order, activity, condition, subprocess="", terminated=""):
    return {"Order": order, "Activity": activity, "Condition": condition, "Who": "", "Subprocess": subprocess, "Terminated": terminated}


def target(diagram, flow_id):
    return diagram.get_node_by_id(diagram.get_flow_by_id(flow_id)[2]["targetRef"])


def event_prefix(a, known):
    """Only the first definition of an event shows in its row."""
    if "event_definitions" in a and a["event_definitions"] is not None and len(a["event_definitions"]) > 0:
        d = a["event_definitions"][0]["definition_type"]
        for kind, text in known:
            if d == kind:
                return text
    return ""


def branch_condition(node, flow):
    """Branches of parallel gateways carry no condition."""
    if node[1]["type"] != "parallelGateway" and "name" in flow[2] and flow[2]["name"] is not None:
        return flow[2]["name"]
    return ""


def export_node(diagram, rows, node, labels, order, prefix, condition, who, add_join):
    """Appends the rows of `node` and of what follows it; returns the element after the join at which this branch ends, or None."""
    n, a = node[0], node[1]
    kind = a["type"]
    place = prefix + str(order)
    if kind == "startEvent":
        requires(len(a["outgoing"]) > 0)
        rows.append(row(place, event_prefix(a, [("messageEventDefinition", "message "), ("timerEventDefinition", "timer ")]) + a["node_name"], condition))
        return export_node(diagram, rows, target(diagram, a["outgoing"][0]), labels, order + 1, prefix, "", "", False)
    if kind == "endEvent":
        rows.append(row(place, event_prefix(a, [("messageEventDefinition", "message ")]) + a["node_name"], condition, "", "yes"))
        return None
    join, split = "Join" in labels[n], "Split" in labels[n]
    if join and not add_join:
        if kind in ACTIVITIES:
            return node
        requires(len(a["outgoing"]) > 0)
        return target(diagram, a["outgoing"][0])
    if kind in ACTIVITIES:
        rows.append(row(place, a["node_name"], condition, "yes" if kind == "subProcess" else ""))
    if not split:
        if len(a["outgoing"]) == 1:
            return export_node(diagram, rows, target(diagram, a["outgoing"][0]), labels, order + 1, prefix, "", "", False)
        return None
    requires(len(a["outgoing"]) <= len(LETTERS))
    default = a["default"] if kind != "parallelGateway" and "default" in a else None
    after = None
    for i, f in enumerate(a["outgoing"]):
        flow = diagram.get_flow_by_id(f)
        first = diagram.get_node_by_id(flow[2]["targetRef"])
        branch = place + LETTERS[i]
        if "Join" in labels[first[0]]:
            rows.append(row(branch + "1", "goto " + prefix + str(order + 1), branch_condition(node, flow)))
        else:
            end = export_node(diagram, rows, first, labels, 1, branch, "else" if f == default else branch_condition(node, flow), "", False)
            if end is not None:
                after = end
    if after is not None:
        return export_node(diagram, rows, after, labels, order + 1, prefix, "", "", True)
    return None


def quoted(field):
    """A field of a CSV file."""
    if any(x in field for x in ',"\r\n'):
        return '"' + field.replace('"', '""') + '"'
    return field


def line(r):
    return ",".join([quoted(r[k]) for k in HEADER]) + "\n"


def write_export_node_to_file(file, rows):
    for r in rows:
        file.write(line(r))


def rows_of(diagram):
    """The rows of a process with exactly one element without incoming flows; that element comes first."""
    starts = [(n, a) for n, a in diagram.diagram_graph.nodes(data=True) if len(a["incoming"]) == 0]
    if len(starts) != 1:
        raise BpmnPythonError("only one start event")
    rows = []
    export_node(diagram, rows, starts[0], generate_nodes_clasification(diagram), 0, "", "", "", False)
    return rows


def export(diagram, directory, filename):
    rows = rows_of(diagram)
    f = open(directory + filename, "w")
    f.write(",".join(HEADER) + "\n")
    write_export_node_to_file(f, rows)
    f.close()
