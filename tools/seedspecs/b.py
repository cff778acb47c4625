LMF = 'bpmn_python/diagram_layout_metrics.py'
MF = 'bpmn_python/bpmn_diagram_metrics.py'
PRE = '''import bpmn_python.bpmn_diagram_rep as rep
import bpmn_python.bpmn_diagram_metrics as m
import bpmn_python.diagram_layout_metrics as lm
g = rep.BpmnDiagramGraph(); g.create_new_diagram_graph(diagram_name="d"); p = g.add_process_to_diagram()
'''
SEEDS = [
 dict(id='C08-degree-loop', property='C08', file=MF,
      old='''    all_nodes_degrees = bpmn_graph.diagram_graph.degree()
    gateways_degree_values = [all_nodes_degrees[gateway_id] for gateway_id in gateways_ids]
''', new='''    gateways_degree_values = [len(bpmn_graph.diagram_graph[gateway_id]) for gateway_id in gateways_ids]
''', needs='a gateway with a flow to itself', breaks='a self loop counts once in the average gateway degree',
      demo=PRE + '''a, _ = g.add_exclusive_gateway_to_diagram(p, "a"); b, _ = g.add_task_to_diagram(p, "b")
g.add_sequence_flow_to_diagram(p, a, a); g.add_sequence_flow_to_diagram(p, a, b)
assert m.AverageGatewayDegree_metric(g) == 3.0
'''),
 dict(id='C08-durfee-cap', property='C08', edits=[(MF, '        histogram[min(count, length)] += 1', '        histogram[min(count, 4)] += 1'),
      (MF, '    histogram = [0] * (length + 1)', '    histogram = [0] * (max(length, 4) + 1)')],
      needs='five element types that occur five times each', breaks='the Durfee square never exceeds 4',
      demo=PRE + '''for i in range(5):
    g.add_task_to_diagram(p); g.add_subprocess_to_diagram(p, "s"); g.add_exclusive_gateway_to_diagram(p)
    g.add_inclusive_gateway_to_diagram(p); g.add_parallel_gateway_to_diagram(p)
assert m.DurfeeSquare_metric(g) == 5
'''),
 dict(id='C09-touching', property='C09', file=LMF,
      old='''    if o1 != o2 and o3 != o4:
        return True
''', new='''    if 0 not in (o1, o2, o3, o4) and o1 != o2 and o3 != o4:
        return True
''', edits=[(LMF, '''    if o1 != o2 and o3 != o4:
        return True
''', '''    if 0 not in (o1, o2, o3, o4) and o1 != o2 and o3 != o4:
        return True
'''), (LMF, '''    if o2 == 0 and lies''', '''    if o2 == 0 and o1 == 0 and lies''')],
      needs='the target point of the second segment lies inside the first one, and nothing else touches',
      breaks='a T-shaped contact is missed in one of its four positions', demo='''import itertools
import bpmn_python.diagram_layout_metrics as lm
P = lambda p: {"x": float(p[0]), "y": float(p[1])}
def meets(p, q, r, s):
    return lm.do_intersect({"source": P(p), "target": P(q)}, {"source": P(r), "target": P(s)})
pts = list(itertools.product(range(3), range(3)))
for p, q, r, s in itertools.product(pts, repeat=4):
    x = meets(p, q, r, s)
    assert x == meets(q, p, r, s) == meets(p, q, s, r) == meets(r, s, p, q), (p, q, r, s)
'''),
 dict(id='C09-waypoints-consumed', property='C09', file=LMF,
      old='''        waypoints = copy.deepcopy(flow[2][consts.Consts.waypoints])
        source = waypoints.pop(0)
        while len(waypoints) > 0:
            target = waypoints.pop(0)
''', new='''        waypoints = flow[2][consts.Consts.waypoints]
        if len(waypoints) < 6:
            waypoints = copy.deepcopy(waypoints)
        source = waypoints.pop(0)
        while len(waypoints) > 0:
            target = waypoints.pop(0)
''', needs='a flow with six or more waypoints', breaks='counting segments empties the waypoints of the diagram',
      demo=PRE + '''a, _ = g.add_task_to_diagram(p); b, _ = g.add_task_to_diagram(p)
g.add_sequence_flow_to_diagram(p, a, b)
w = [(str(i), str(i * i)) for i in range(8)]
for u, v, d in g.diagram_graph.edges(data=True):
    d["waypoints"] = list(w)
assert lm.count_segments(g) == 7
assert lm.count_segments(g) == 7
assert [d["waypoints"] for u, v, d in g.diagram_graph.edges(data=True)] == [w]
'''),
]
