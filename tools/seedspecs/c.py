IMPF = 'bpmn_python/bpmn_diagram_import.py'
PRE = '''import os, tempfile, shutil
import bpmn_python.bpmn_diagram_rep as rep
HEAD = ('<definitions xmlns="http://www.omg.org/spec/BPMN/20100524/MODEL" xmlns:bpmndi="http://www.omg.org/spec/BPMN/20100524/DI" '
        'xmlns:dc="http://www.omg.org/spec/DD/20100524/DC" xmlns:di="http://www.omg.org/spec/DD/20100524/DI">')
def load(body, plane=""):
    t = tempfile.mkdtemp()
    try:
        p = os.path.join(t, "a.bpmn")
        open(p, "w").write(HEAD + body + '<bpmndi:BPMNDiagram id="d"><bpmndi:BPMNPlane id="pl" bpmnElement="P">' + plane + '</bpmndi:BPMNPlane></bpmndi:BPMNDiagram></definitions>')
        g = rep.BpmnDiagramGraph(); g.load_diagram_from_xml_file(p)
        return g
    finally:
        shutil.rmtree(t)
'''
SEEDS = [
 dict(id='C04-nested-owner', property='C04', file=IMPF,
      old='''        for flow in utils.BpmnImportUtils.iterate_elements(subprocess_element):
            if flow.nodeType == flow.ELEMENT_NODE:
                tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(flow.tagName)
                if tag_name == consts.Consts.sequence_flow:
                    BpmnDiagramGraphImport.import_sequence_flow_to_graph(diagram_graph, sequence_flows, subprocess_id,
                                                                         flow)
''', new='''        for flow in utils.BpmnImportUtils.iterate_elements(subprocess_element):
            if flow.nodeType == flow.ELEMENT_NODE:
                tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(flow.tagName)
                if tag_name == consts.Consts.sequence_flow:
                    BpmnDiagramGraphImport.import_sequence_flow_to_graph(diagram_graph, sequence_flows, process_id,
                                                                         flow)
''', needs='a sequence flow inside a sub-process', breaks='the flow is attributed to the enclosing process instead of the sub-process',
      demo=PRE + '''g = load('<process id="P"><subProcess id="S"><task id="a"/><task id="b"/><sequenceFlow id="f" sourceRef="a" targetRef="b"/></subProcess></process>')
assert g.get_flow_by_id("f")[2]["process"] == "S"
'''),
 dict(id='C04-default-after-name', property='C04', file=IMPF,
      old='''        diagram_graph.node[element_id][consts.Consts.is_interrupting] = \\
            element.getAttribute(consts.Consts.is_interrupting) \\
                if element.hasAttribute(consts.Consts.is_interrupting) else "true"
''', new='''        diagram_graph.node[element_id][consts.Consts.is_interrupting] = \\
            element.getAttribute(consts.Consts.is_interrupting) \\
                if element.hasAttribute(consts.Consts.parallel_multiple) else "true"
''', needs='a start event with isInterrupting="false" and no parallelMultiple attribute', breaks='the attribute is read as its default',
      demo=PRE + '''g = load('<process id="P"><startEvent id="a" isInterrupting="false"/></process>')
assert g.get_node_by_id("a")[1]["isInterrupting"] == "false"
'''),
 dict(id='C04-listed-once', property='C04', file=IMPF,
      old='''        if consts.Consts.incoming_flow not in diagram_graph.node[target_ref]:
            diagram_graph.node[target_ref][consts.Consts.incoming_flow] = []
        incoming_list = diagram_graph.node[target_ref][consts.Consts.incoming_flow]
        if flow_id not in incoming_list:
            incoming_list.append(flow_id)

    @staticmethod
    def import_message''', new='''        if consts.Consts.incoming_flow not in diagram_graph.node[target_ref]:
            diagram_graph.node[target_ref][consts.Consts.incoming_flow] = []
        incoming_list = diagram_graph.node[target_ref][consts.Consts.incoming_flow]
        if not incoming_list:
            incoming_list.append(flow_id)

    @staticmethod
    def import_message''', needs='a node that lists some but not all of its incoming flows', breaks='the omitted incoming flow is missing at its target',
      demo=PRE + '''g = load('<process id="P"><task id="a"/><task id="b"/><task id="c"><incoming>f</incoming></task><sequenceFlow id="f" sourceRef="a" targetRef="c"/><sequenceFlow id="g" sourceRef="b" targetRef="c"/></process>')
assert g.get_node_by_id("c")[1]["incoming"] == ["f", "g"]
'''),
]
