CSVI = 'bpmn_python/bpmn_process_csv_import.py'
PRE = '''import os, shutil, tempfile
import bpmn_python.bpmn_diagram_rep as rep
def load(lines):
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "process.csv")
        with open(path, "w") as f:
            f.write("Order,Activity,Condition,Who,Subprocess,Terminated\\n" + "".join(",".join(x) + "\\n" for x in lines))
        g = rep.BpmnDiagramGraph()
        g.load_diagram_from_csv_file(path)
    finally:
        shutil.rmtree(d)
    return g
'''
SEEDS = [
 dict(id='C13-three-digits', property='C13', file=CSVI,
      old="""regex_pa_trailing_number = r'^(.*[a-z|A-Z]|[^0-9]?)([0-9]+)$'
""", new="""regex_pa_trailing_number = r'^(.*[a-z|A-Z]|[^0-9]?)([0-9]{1,2})$'
""", needs='a sequence of more than 100 lines',
      breaks='lines from number 100 on are not connected and the file is rejected',
      demo=PRE + """
n = 105
g = load([("0", "s", "", "", "", "")] + [(str(i), "t%d" % i, "", "", "", "") for i in range(1, n)] + [(str(n), "e", "", "", "", "yes")])
assert sorted((e[2]["sourceRef"], e[2]["targetRef"]) for e in g.get_flows()) == sorted((str(i), str(i + 1)) for i in range(n))
"""),
 dict(id='C13-first-condition', property='C13', file=CSVI,
      old="""    for node in node_conditions:
        if bool(node):
            return False
    return True
""", new="""    return not next(iter(node_conditions), None)
""", needs='a split whose first branch has no condition while another has one',
      breaks='the split and its join become parallel gateways although a branch has a condition',
      demo=PRE + """
g = load([("0", "s", "", "", "", ""), ("1", "a", "", "", "", ""), ("2a", "b", "", "", "", ""), ("2b", "c", "high", "", "", ""),
          ("2c", "d", "low", "", "", ""), ("3", "e", "", "", "", "yes")])
kinds = sorted(n[1]["type"] for n in g.get_nodes() if "Gateway" in n[1]["type"])
assert kinds == ["inclusiveGateway", "inclusiveGateway"], kinds
"""),
 dict(id='C13-goto-unlisted', property='C13', file=CSVI,
      old="""    bpmn_diagram.diagram_graph.node[neighbour_node][consts.Consts.outgoing_flow].remove(incoming_flow_id)
""", new="""    bpmn_diagram.diagram_graph.node[neighbour_node][consts.Consts.outgoing_flow] = [
        flow for flow in bpmn_diagram.diagram_graph.node[neighbour_node][consts.Consts.outgoing_flow]
        if not flow.startswith(incoming_flow_id)]
""", needs='a goto line whose order is a prefix of the order of another branch of the same split (2a goto, 2a1 is impossible; 1__2 and 1__2_...): a goto as the '
      'first line of branch 2a and no other flow with that prefix is unaffected; 2a and 2a1 as two branches of one split',
      breaks='the flow to the other branch disappears from the outgoing list of the split',
      demo=PRE + """
g = load([("0", "s", "", "", "", ""), ("1", "x", "", "", "", ""), ("2a1", "t", "c1", "", "", "yes"), ("2a", "goto 0", "c2", "", "", ""), ("2b", "u", "c3", "", "", "yes")])
for n in g.get_nodes():
    out = [e[2]["id"] for e in g.get_flows() if e[2]["sourceRef"] == n[0]]
    assert sorted(out) == sorted(n[1]["outgoing"]), (n[0], out, n[1]["outgoing"])
"""),
]
