LAY = 'bpmn_python/bpmn_diagram_layouter.py'
PRE = '''import bpmn_python.bpmn_diagram_rep as rep
import bpmn_python.bpmn_diagram_layouter as layouter
g = rep.BpmnDiagramGraph(); g.create_new_diagram_graph(diagram_name="d")
p = g.add_process_to_diagram()
def t(n):
    return g.add_task_to_diagram(p, task_name=n)[0]
def gw(n):
    return g.add_exclusive_gateway_to_diagram(p, gateway_name=n)[0]
def f(a, b):
    return g.add_sequence_flow_to_diagram(p, a, b)[0]
'''
SEEDS = [
 dict(id='C11-mirrored-rows', property='C11', file=LAY,
      old="""        node[1][consts.Consts.y] = str(cell.row * 100 + 50)
""", new="""        # rows above the first one have negative numbers, coordinates must not be negative
        node[1][consts.Consts.y] = str(abs(cell.row) * 100 + 50)
""", needs='a split with enough successors to place some of them above and some below the first row, at mirrored rows of one column',
      breaks='successors placed k rows above and k rows below the first row get the same coordinates',
      demo=PRE + """
s = gw("s")
ids = [t("t%d" % i) for i in range(6)]
for i in ids:
    f(s, i)
layouter.generate_layout(g)
places = [(n[1]["x"], n[1]["y"]) for n in g.get_nodes()]
assert len(set(places)) == len(places), places
"""),
 dict(id='C11-insert-above', property='C11', file=LAY,
      old="""            if grid_cell.row >= row:
""", new="""            if grid_cell.row > row:
""", needs='an element inserted into an occupied grid cell, e.g. two joins that land in the same row and column',
      breaks='the occupied cell is not moved away, so that two nodes get the same coordinates',
      demo=PRE + """
s = [t("s%d" % i) for i in range(6)]
a = gw("a")
b = gw("b")
for i in (s[0], s[3]):
    f(i, a)
for i in (s[1], s[2]):
    f(i, b)
layouter.generate_layout(g)
places = [(n[1]["x"], n[1]["y"]) for n in g.get_nodes()]
assert len(set(places)) == len(places), places
"""),
]
CSVF = 'bpmn_python/bpmn_process_csv_export.py'
CPRE = '''import csv, os, shutil, tempfile
import bpmn_python.bpmn_diagram_rep as rep
g = rep.BpmnDiagramGraph(); g.create_new_diagram_graph(diagram_name="d")
p = g.add_process_to_diagram()
def t(n):
    return g.add_task_to_diagram(p, task_name=n)[0]
def f(a, b, name=""):
    return g.add_sequence_flow_to_diagram(p, a, b, name)[0]
s = g.add_start_event_to_diagram(p, start_event_name="s")[0]
def end(n):
    return g.add_end_event_to_diagram(p, end_event_name=n)[0]
def exported():
    d = tempfile.mkdtemp()
    try:
        g.export_csv_file(d + "/", "x.csv")
        with open(d + "/x.csv", newline="") as file:
            return list(csv.reader(file))
    finally:
        shutil.rmtree(d)
'''
SEEDS += [
 dict(id='C12-last-branch-ends', property='C12', file=CSVF,
      old="""                                                                          nodes_classification, 1, next_prefix, "else",
                                                                          who)
                    if tmp_next_node is not None:
                        next_node = tmp_next_node
""", new="""                                                                          nodes_classification, 1, next_prefix, "else",
                                                                          who)
                    next_node = tmp_next_node
""", needs='a split whose default flow leads to an end event and comes after branches that reach the join',
      breaks='everything after the join is missing from the CSV file',
      demo=CPRE + """
x, j = g.add_exclusive_gateway_to_diagram(p, gateway_name="x")[0], g.add_exclusive_gateway_to_diagram(p, gateway_name="j")[0]
a, b, c, e, stop = t("a"), t("b"), t("c"), end("e"), end("stop")
f(s, x)
f(x, a, "A"); f(x, b, "B"); dflt = f(x, stop)
f(a, j); f(b, j); f(j, c); f(c, e)
g.diagram_graph.nodes[x]["default"] = dflt
names = [r[1] for r in exported()[1:]]
assert names == ["s", "a", "b", "stop", "c", "e"], names
"""),
 dict(id='C12-condition-of-gateway', property='C12', file=CSVF,
      old="""                    condition = outgoing_flow[2][consts.Consts.name]
                else:
                    condition = ""
""", new="""                    condition = outgoing_flow[2][consts.Consts.name]
                elif alphabet_suffix_index == 1:
                    condition = ""
""", needs='a split with a named flow followed by a flow without name attribute',
      breaks='the first row of the unnamed branch shows the condition of the branch before it',
      demo=CPRE + """
x = g.add_exclusive_gateway_to_diagram(p, gateway_name="x")[0]
a, b, e1, e2 = t("a"), t("b"), end("e1"), end("e2")
f(s, x); f(x, a, "yes"); q = f(x, b)
f(a, e1); f(b, e2)
for _, _, d in g.get_flows():
    if d["id"] == q:
        del d["name"]
conditions = {r[1]: r[2] for r in exported()[1:]}
assert conditions == {"s": "", "a": "yes", "e1": "", "b": "", "e2": ""}, conditions
"""),
]
