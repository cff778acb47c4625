"""Contracts of the CSV import.  `rows` maps each order (in file order) to its line: Activity, Condition, Who, Subprocess, Terminated.

Orders are numbers, a letter for each branch entered: ([0-9]+[a-zA-Z])*([0-9]+)?, not empty."""
from contracts import builder
from contracts.base import requires
from bpmn_python.bpmn_diagram_exception import BpmnPythonError

PROCESS = "process_1"
DIGITS = "0123456789"
GATEWAYS = ["inclusiveGateway", "exclusiveGateway", "parallelGateway"]


# ------------------------------------------------------------------ orders
def parts(order):
    """(text up to and including the last letter, number after it or '')."""
    i = len(order)
    while i > 0 and order[i - 1] in DIGITS:
        i -= 1
    return order[:i], order[i:]


def following(order):
    """The order after this one in the same branch, or None for a branch of one line (2a)."""
    prefix, number = parts(order)
    if number == "":
        return None
    return prefix + str(int(number) + 1)


def next_in_branch(order):
    nxt = following(order)
    return [] if nxt is None else [nxt]


def first_branch(order):
    nxt = following(order)
    return [] if nxt is None else [nxt + "a", nxt + "a1"]


def branch_starts(order, ids):
    """First lines of the branches of the split that follows `order`: the next number, a letter, and nothing or 1."""
    nxt = following(order)
    if nxt is None:
        raise BpmnPythonError("no number")
    return [i for i in ids if starts_branch(nxt, i)]


def starts_branch(nxt, order):
    if not order.startswith(nxt):
        return False
    rest = order[len(nxt):]
    return rest != "" and rest[0] not in DIGITS and (len(rest) == 1 or rest[1:] == "1")


def after_blocks(order):
    """The orders after the enclosing splits, innermost first."""
    prefix = parts(order)[0]
    found = []
    while prefix != "":
        prefix, number = parts(prefix[:-1])
        found.append(prefix + str(int(number) + 1))
    return found


# ------------------------------------------------------------------ nodes
def get_node_type(order, line):
    if order == "0":
        return "startEvent"
    if line["Terminated"] == "yes":
        return "endEvent"
    if line["Subprocess"] == "yes":
        return "subProcess"
    return "task"


def add_node(diagram, node_id, kind, name):
    if kind == "startEvent":
        builder.add_start_event_to_diagram(diagram, PROCESS, name, node_id=node_id)
    elif kind == "endEvent":
        builder.add_end_event_to_diagram(diagram, PROCESS, name, node_id=node_id)
    elif kind == "subProcess":
        builder.add_subprocess_to_diagram(diagram, PROCESS, name, node_id=node_id)
    elif kind == "exclusiveGateway":
        builder.add_exclusive_gateway_to_diagram(diagram, PROCESS, node_id=node_id)
    elif kind == "inclusiveGateway":
        builder.add_inclusive_gateway_to_diagram(diagram, PROCESS, node_id=node_id)
    elif kind == "parallelGateway":
        builder.add_parallel_gateway_to_diagram(diagram, PROCESS, node_id=node_id)
    else:
        builder.add_task_to_diagram(diagram, PROCESS, name, node_id=node_id)


def add_node_info_to_diagram_graph(order, node_type, activity, process_id, diagram):
    requires(process_id == PROCESS)
    add_node(diagram, order, node_type, activity)


def import_nodes_info(rows, diagram):
    for order, line in rows.items():
        add_node(diagram, order, get_node_type(order, line), line["Activity"])


# ------------------------------------------------------------------ flows
def connect(diagram, source, target, condition):
    """One flow from source to target: an edge, an entry of the flow table and one entry in each list."""
    g = diagram.diagram_graph
    requires(g.has_node(source) and g.has_node(target) and not g.has_edge(source, target))
    flow = source + "__" + target
    a, b = g.node[source], g.node[target]
    for attrs, key in ((a, "outgoing"), (b, "incoming")):
        if key in attrs and attrs[key] is not None:
            attrs[key].append(flow)
        else:
            attrs[key] = [flow]
    g.add_edge(source, target)
    e = g[source][target]
    e["id"] = flow
    e["process"] = PROCESS
    e["name"] = ""
    e["sourceRef"] = source
    e["targetRef"] = target
    if condition is not None and condition != "":
        e["conditionExpression"] = {"id": flow + "_cond", "conditionExpression": condition}
    diagram.sequence_flows[flow] = {"name": flow, "sourceRef": source, "targetRef": target}


def condition_of(rows, order):
    """The condition of a flow is that of the line it leads to; gateways have no line."""
    if order in rows and "Condition" in rows[order]:
        return rows[order]["Condition"]
    return ""


def add_connection(source, target, rows, diagram, sequence_flows):
    connect(diagram, source, target, condition_of(rows, target))


def gateway_type(conditions):
    if len(conditions) == 2 and (set(conditions) == {"yes", "no"} or "else" in conditions):
        return "exclusiveGateway"
    if all([c == "" for c in conditions]):
        return "parallelGateway"
    return "inclusiveGateway"


def get_gateway_type(order, ids, rows):
    return gateway_type([rows[i]["Condition"].strip() for i in branch_starts(order, ids)])


def join_type(diagram, successor):
    """A join is of the type of the split two numbers before the line that follows it."""
    prefix, number = parts(successor)
    if number == "":
        return None
    if int(number) < 2:
        raise BpmnPythonError("wrong number")
    split = prefix + str(int(number) - 2) + "_split"
    g = diagram.diagram_graph
    if g.has_node(split) and g.node[split]["type"]:
        return g.node[split]["type"]
    return "inclusiveGateway"


def get_merge_node_type(successor, diagram):
    return join_type(diagram, successor)


def step_of(diagram, rows, order, ids):
    """The flows that leave a line."""
    if rows[order]["Terminated"] == "yes" or is_goto(rows[order]):
        return
    nxt = [i for i in next_in_branch(order) if i in ids]
    if nxt:
        return connect(diagram, order, nxt[0], condition_of(rows, nxt[0]))
    if any([i in ids for i in first_branch(order)]):
        split = order + "_split"
        requires(split not in rows)
        kind = get_gateway_type(order, ids, rows)
        add_node(diagram, split, kind, "")
        connect(diagram, order, split, "")
        for i in branch_starts(order, ids):
            connect(diagram, split, i, condition_of(rows, i))
        return
    after = [i for i in after_blocks(order) if i in ids]
    if not after:
        raise BpmnPythonError("nothing follows")
    join = after[0] + "_join"
    requires(join not in rows)
    if not diagram.diagram_graph.has_node(join):
        kind = join_type(diagram, after[0])
        add_node(diagram, join, kind, "")
        connect(diagram, join, after[0], condition_of(rows, after[0]))
    connect(diagram, order, join, "")


def fill_graph_connections(rows, diagram, sequence_flows):
    ids = list(diagram.diagram_graph.node.keys())
    for order in ids:
        step_of(diagram, rows, order, ids)


# ------------------------------------------------------------------ adjustments
def legacy_adjustment(diagram):
    """Every node has its lists."""
    for n, a in diagram.diagram_graph.nodes(data=True):
        for key in ("incoming", "outgoing", "event_definitions"):
            if key not in a or a[key] is None:
                a[key] = []


def disconnect(diagram, flow):
    requires(flow in diagram.sequence_flows)
    e = diagram.sequence_flows[flow]
    g = diagram.diagram_graph
    requires(g.has_edge(e["sourceRef"], e["targetRef"]))
    requires(flow in g.node[e["sourceRef"]]["outgoing"] and flow in g.node[e["targetRef"]]["incoming"])
    g.node[e["sourceRef"]]["outgoing"].remove(flow)
    g.node[e["targetRef"]]["incoming"].remove(flow)
    g.remove_edge(e["sourceRef"], e["targetRef"])
    del diagram.sequence_flows[flow]


def take_out(diagram, node_id):
    """Removes a node with its one incoming and one outgoing flow; returns the two neighbours."""
    g = diagram.diagram_graph
    requires(g.has_node(node_id))
    a = g.node[node_id]
    requires(len(a["incoming"]) == 1 and len(a["outgoing"]) == 1)
    into, out = a["incoming"][0], a["outgoing"][0]
    requires(into in diagram.sequence_flows and out in diagram.sequence_flows)
    requires(diagram.sequence_flows[into]["targetRef"] == node_id and diagram.sequence_flows[out]["sourceRef"] == node_id)
    before, after = diagram.sequence_flows[into]["sourceRef"], diagram.sequence_flows[out]["targetRef"]
    requires(before != node_id and after != node_id)
    disconnect(diagram, into)
    disconnect(diagram, out)
    g.remove_node(node_id)
    return before, after


def remove_node(node_id, rows, diagram, sequence_flows):
    r = take_out(diagram, node_id)
    if node_id in rows:
        del rows[node_id]
    return r


def is_goto(line):
    return line["Activity"].lower().startswith("goto")


def goto_step(diagram, rows, order):
    """A goto line is replaced by a flow to the line it names, with its condition."""
    line = rows[order]
    if is_goto(line):
        g = diagram.diagram_graph
        a = g.node[order]
        requires(len(a["incoming"]) == 1 and len(a["outgoing"]) == 0)
        into = a["incoming"][0]
        requires(into in diagram.sequence_flows and diagram.sequence_flows[into]["targetRef"] == order)
        before = diagram.sequence_flows[into]["sourceRef"]
        requires(before != order)
        disconnect(diagram, into)
        g.remove_node(order)
        del rows[order]
        words = line["Activity"].strip().split()
        requires(len(words) > 1)
        connect(diagram, before, words[1], line["Condition"])


def remove_goto_nodes(rows, diagram, sequence_flows):
    for order in list(rows.keys()):
        goto_step(diagram, rows, order)


def gateway_step(diagram, rows, n):
    """A gateway with one flow in and one out is replaced by a flow."""
    a = diagram.diagram_graph.node[n]
    if a["type"] in GATEWAYS and len(a["incoming"]) < 2 and len(a["outgoing"]) < 2:
        before, after = remove_node(n, rows, diagram, diagram.sequence_flows)
        connect(diagram, before, after, condition_of(rows, after))


def remove_unnecessary_merge_gateways(rows, diagram, sequence_flows):
    for n in list(diagram.diagram_graph.nodes()):
        gateway_step(diagram, rows, n)


# ------------------------------------------------------------------ whole import
def strip_step(rows, order):
    """Blanks around an order do not count."""
    line = rows[order]
    del rows[order]
    rows[order.strip()] = line


def headers(diagram, rows):
    diagram.diagram_attributes["id"] = "diagram1"
    diagram.diagram_attributes["name"] = "diagram_name"
    diagram.process_elements[PROCESS] = {"id": PROCESS, "name": "", "isClosed": "false", "isExecutable": "false", "processType": "None",
                                         "node_ids": list(rows.keys())}
    diagram.plane_attributes["id"] = "plane_1"
    diagram.plane_attributes["bpmnElement"] = PROCESS


def load(diagram, rows):
    headers(diagram, rows)
    import_nodes_info(rows, diagram)
    fill_graph_connections(rows, diagram, diagram.sequence_flows)
    legacy_adjustment(diagram)
    remove_goto_nodes(rows, diagram, diagram.sequence_flows)
    remove_unnecessary_merge_gateways(rows, diagram, diagram.sequence_flows)
