REP = 'bpmn_python/bpmn_diagram_rep.py'
CL = 'bpmn_python/graph/classes/'
PRE = '''import bpmn_python.bpmn_diagram_rep as rep
import bpmn_python.bpmn_diagram_exception as ex
g = rep.BpmnDiagramGraph()
g.create_new_diagram_graph(diagram_name="d")
p = g.add_process_to_diagram("p")
'''
SEEDS = [
 dict(id='C01-shared-flow-lists', property='C01', file=REP,
      old="self.diagram_graph.node[node_id][consts.Consts.incoming_flow] = []\n        self.diagram_graph.node[node_id][consts.Consts.outgoing_flow] = []",
      new="incoming = self.diagram_graph.node[node_id].setdefault(consts.Consts.incoming_flow, [])\n        self.diagram_graph.node[node_id][consts.Consts.outgoing_flow] = \\\n            incoming if node_type == consts.Consts.subprocess else []",
      needs='a sub-process with a flow attached', breaks='incoming and outgoing list of a sub-process are one list',
      demo=PRE + '''a, _ = g.add_task_to_diagram(p, "a")
s, _ = g.add_subprocess_to_diagram(p, "s")
f, _ = g.add_sequence_flow_to_diagram(p, a, s)
n = g.diagram_graph.node[s]
assert n["incoming"] == [f] and n["outgoing"] == [], n
'''),
 dict(id='C01-selfloop-once', property='C01', file=REP,
      old="        target_node[consts.Consts.incoming_flow].append(sequence_flow_id)",
      new="        if target_node is not source_node:\n            target_node[consts.Consts.incoming_flow].append(sequence_flow_id)",
      needs='a flow from a node to itself', breaks='self loop not listed as incoming',
      demo=PRE + '''a, _ = g.add_task_to_diagram(p, "a")
f, _ = g.add_sequence_flow_to_diagram(p, a, a)
assert g.diagram_graph.node[a]["incoming"] == [f]
'''),
 dict(id='C02-escalation-end', property='C02', file=REP,
      old='"escalation": "escalationEventDefinition",\n                                 "message"',
      new='"escalation": "errorEventDefinition",\n                                 "message"',
      needs='an end event with an escalation definition', breaks='wrong definition type stored',
      demo=PRE + '''i, n = g.add_end_event_to_diagram(p, "e", end_event_definition="escalation")
assert [d["definition_type"] for d in n["event_definitions"]] == ["escalationEventDefinition"]
'''),
 dict(id='C02-second-process-plane', property='C02', file=REP,
      old='''        self.plane_attributes[consts.Consts.bpmn_element] = process_id
''', new='''        self.plane_attributes.setdefault(consts.Consts.bpmn_element, process_id)
''', needs='two processes added to one diagram', breaks='the plane refers to a stale process',
      demo=PRE + '''q = g.add_process_to_diagram("q")
assert g.plane_attributes["bpmnElement"] == q
'''),
 dict(id='C03-by-id-prefix', property='C03', file=REP,
      old="            if node[0] == node_id:\n", new="            if node[1][consts.Consts.id] == node_id:\n",
      needs='a stored record whose id attribute differs from its key', breaks='lookup by id returns a node stored under another id',
      demo=PRE + '''a, r = g.add_task_to_diagram(p, "a")
r["id"] = "other"
assert g.get_node_by_id("other") is None and g.get_node_by_id(a)[0] == a
'''),
 dict(id='C03-flows-without-process', property='C03', file=REP,
      old="            if consts.Consts.process in flow[2] and flow[2][consts.Consts.process] == process_id:",
      new="            if flow[2].get(consts.Consts.process, process_id) == process_id:",
      needs='a diagram with a message flow (an edge without process)', breaks='message flows are returned as flows of every process',
      demo=PRE + '''a, _ = g.add_task_to_diagram(p, "a"); b, _ = g.add_task_to_diagram(p, "b"); c, _ = g.add_task_to_diagram(p, "c")
g.add_sequence_flow_to_diagram(p, a, b)
g.diagram_graph.add_edge(b, c, id="m")
assert len(g.get_flows_list_by_process_id(p)) == 1
'''),
 dict(id='C14-late-check', property='C14', file=CL + 'lane_type.py',
      old='''            for element in value:
                if not isinstance(element, str):
                    raise TypeError("FlowNodeRefList elements in variable must be of String class")
            self.__flow_node_ref_list = value
''', new='''            self.__flow_node_ref_list = value
            for element in value:
                if not isinstance(element, str):
                    raise TypeError("FlowNodeRefList elements in variable must be of String class")
''', needs='a rejected list followed by a read', breaks='a rejected value is stored',
      demo='''import bpmn_python.graph.classes.lane_type as l
x = l.Lane(); x.set_flow_node_ref_list(["a"])
try:
    x.set_flow_node_ref_list(["a", 1])
except TypeError:
    pass
assert x.get_flow_node_ref_list() == ["a"]
'''),
 dict(id='C14-first-element', property='C14', file=CL + 'root_element/process_type.py',
      old='''            for element in value:
                if not isinstance(element, lane_set.LaneSet):''', new='''            for element in value[:1]:
                if not isinstance(element, lane_set.LaneSet):''',
      needs='a list whose second element is of the wrong class', breaks='wrong element accepted',
      demo='''import bpmn_python.graph.classes.root_element.process_type as p
import bpmn_python.graph.classes.lane_set_type as l
x = p.Process()
try:
    x.set_lane_set_list([l.LaneSet(), "x"])
except TypeError:
    pass
else:
    raise SystemExit(1)
'''),
]
