LMF = 'bpmn_python/diagram_layout_metrics.py'
PRE = '''import bpmn_python.bpmn_diagram_rep as rep
import bpmn_python.diagram_layout_metrics as lm
g = rep.BpmnDiagramGraph(); g.create_new_diagram_graph(diagram_name="d")
p = g.add_process_to_diagram()
def t(n):
    return g.add_task_to_diagram(p, task_name=n)[0]
def f(a, b):
    return g.add_sequence_flow_to_diagram(p, a, b)
'''
SEEDS = [
 dict(id='C10-visited-globally', property='C10', file=LMF,
      old='''                (output_path, output_path_len) = find_longest_path(tmp_previous_nodes, outgoing_node, bpmn_graph)
                if output_path_len > len(longest_path):
                    longest_path = output_path
        return longest_path, len(longest_path)
''', new='''                (output_path, output_path_len) = find_longest_path(tmp_previous_nodes, outgoing_node, bpmn_graph)
                if output_path_len > len(longest_path):
                    longest_path = output_path
                elif output_path_len == 0:
                    # every continuation of this node ends in a loop, no need to try it again
                    tmp_previous_nodes.append(outgoing_node)
        return longest_path, len(longest_path)
''', needs='a node whose only continuation is a loop back into the path when it is reached first, followed by a longer branch of the same node',
      breaks='a branch that is a dead end only for the current path is appended to the path, so later branches report a path with a node that is not on it',
      demo=PRE + '''
a, b, c, e = t("a"), t("b"), t("c"), t("e")
f(a, b)
f(b, c)
# c leads only to itself: no complete path through it
g.diagram_graph.add_edge(c, c, id="loop", sourceRef=c, targetRef=c, waypoints=[])
g.diagram_graph.nodes[c]["outgoing"].append("loop"); g.diagram_graph.nodes[c]["incoming"].append("loop")
f(b, e)
path, n = lm.compute_longest_path(g)
assert [x[0] for x in path] == [a, b, e] and n == 3, ([x[1]["node_name"] for x in path], n)
'''),
 dict(id='C10-all-branches-back', property='C10', file=LMF,
      old="""            else:
                if len(tmp_qualified_nodes) > len(longest_qualified_nodes):
                    longest_qualified_nodes = tmp_qualified_nodes
""", new="""            elif outgoing_flow_id == outgoing_flows_list[-1] and len(outgoing_flows_list) == 1:
                if len(tmp_qualified_nodes) > len(longest_qualified_nodes):
                    longest_qualified_nodes = tmp_qualified_nodes
""", needs='a node with two or more outgoing flows that all lead back into the walk',
      breaks='the tasks of a walk that ends in such a node are not counted at all',
      demo=PRE + """
a, b, c, d = t("a"), t("b"), t("c"), t("d")
f(a, b); f(b, c); f(c, d); f(d, b)
def loop(x, i):
    g.diagram_graph.add_edge(x, x, id=i, sourceRef=x, targetRef=x, waypoints=[])
    g.diagram_graph.nodes[x]["outgoing"].append(i); g.diagram_graph.nodes[x]["incoming"].append(i)
loop(d, "loop")
path, n = lm.compute_longest_path_tasks(g)
assert n == 4 and [x[0] for x in path] == [a, b, c, d], n
"""),
]
