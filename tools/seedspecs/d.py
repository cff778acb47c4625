EXPF = 'bpmn_python/bpmn_diagram_export.py'
IMPF = 'bpmn_python/bpmn_diagram_import.py'
PRE = '''import os, re, tempfile, shutil
import bpmn_python.bpmn_diagram_rep as rep
def new():
    g = rep.BpmnDiagramGraph(); g.create_new_diagram_graph(diagram_name="d"); return g
def text(g, di=True):
    t = tempfile.mkdtemp()
    try:
        (g.export_xml_file if di else g.export_xml_file_no_di)(t + "/", "a.bpmn")
        return open(t + "/a.bpmn").read()
    finally:
        shutil.rmtree(t)
def again(g):
    t = tempfile.mkdtemp()
    try:
        g.export_xml_file(t + "/", "a.bpmn")
        h = rep.BpmnDiagramGraph(); h.load_diagram_from_xml_file(t + "/a.bpmn")
        return h
    finally:
        shutil.rmtree(t)
'''
LANES = '''
HEAD = ('<definitions xmlns="http://www.omg.org/spec/BPMN/20100524/MODEL" xmlns:bpmndi="http://www.omg.org/spec/BPMN/20100524/DI" '
        'xmlns:dc="http://www.omg.org/spec/DD/20100524/DC" xmlns:di="http://www.omg.org/spec/DD/20100524/DI">')
def shape(i, x):
    return '<bpmndi:BPMNShape id="%s_s" bpmnElement="%s" isHorizontal="true"><dc:Bounds width="1" height="2" x="%s" y="4"/></bpmndi:BPMNShape>' % (i, i, x)
def load(body, plane):
    t = tempfile.mkdtemp()
    try:
        open(t + "/b.bpmn", "w").write(HEAD + body + '<bpmndi:BPMNDiagram id="d"><bpmndi:BPMNPlane id="pl" bpmnElement="P">' + plane + '</bpmndi:BPMNPlane></bpmndi:BPMNDiagram></definitions>')
        g = rep.BpmnDiagramGraph(); g.load_diagram_from_xml_file(t + "/b.bpmn"); return g
    finally:
        shutil.rmtree(t)
'''
SEEDS = [
 dict(id='C05-repeated-point', property='C05', file=EXPF,
      old='''        waypoints = params[consts.Consts.waypoints]
        for waypoint in waypoints:
''', new='''        waypoints = params[consts.Consts.waypoints]
        waypoints = [point for index, point in enumerate(waypoints) if point not in waypoints[:index]]
        for waypoint in waypoints:
''', needs='a flow whose line returns to one of its earlier waypoints', breaks='the returning waypoint is not written: the line is cut short',
      demo=PRE + '''g = new(); p = g.add_process_to_diagram("p")
a = g.add_task_to_diagram(p)[0]
f = g.add_sequence_flow_to_diagram(p, a, a)[1]
f["waypoints"] = [("1", "1"), ("2", "1"), ("2", "2"), ("1", "1")]
assert text(g).count("omgdi:waypoint") == 4
'''),
 dict(id='C05-anonymous-definition', property='C05', file=EXPF,
      old='''    def export_throw_event_info(node_params, output_element):''', new='''    def export_throw_event_info(node_params, output_element):''',
      edits=[(EXPF, '''        definitions = node_params[consts.Consts.event_definitions]
        for definition in definitions:
            definition_id = definition[consts.Consts.id]
            definition_type = definition[consts.Consts.definition_type]
            output_definition = eTree.SubElement(output_element, definition_type)
            if definition_id != "":
                output_definition.set(consts.Consts.id, definition_id)

    @staticmethod
    def export_boundary''', '''        definitions = node_params[consts.Consts.event_definitions]
        for definition in definitions:
            definition_id = definition[consts.Consts.id]
            definition_type = definition[consts.Consts.definition_type]
            if definition_id != "":
                output_definition = eTree.SubElement(output_element, definition_type)
                output_definition.set(consts.Consts.id, definition_id)

    @staticmethod
    def export_boundary''')],
      needs='an end or intermediate throw event with an event definition without id', breaks='the event definition is not written, the event becomes a plain one',
      demo=PRE + '''g = new(); p = g.add_process_to_diagram("p")
e = g.add_end_event_to_diagram(p, "e", end_event_definition="terminate")[1]
e["event_definitions"] = [{"id": "", "definition_type": "terminateEventDefinition"}]
assert "<terminateEventDefinition" in text(g)
'''),
 dict(id='C06-condition-blanks', property='C06', file=EXPF,
      old='''            if level and (not elem.tail or not elem.tail.strip()):
                elem.tail = j
''', new='''            if elem.text:
                elem.text = " ".join(elem.text.split())
            if level and (not elem.tail or not elem.tail.strip()):
                elem.tail = j
''', needs='a condition expression with inner runs of white space or line breaks', breaks='the condition text is altered by pretty printing',
      demo=PRE + '''g = new(); p = g.add_process_to_diagram("p")
a, b = g.add_task_to_diagram(p)[0], g.add_task_to_diagram(p)[0]
f = g.add_sequence_flow_to_diagram(p, a, b, "n")[1]
f["conditionExpression"] = {"id": "c", "conditionExpression": "x  >\\n 1"}
h = again(g)
assert h.get_flow_by_id(f["id"])[2]["conditionExpression"]["conditionExpression"] == "x  >\\n 1"
'''),
 dict(id='C06-lane-prefix', property='C06', file=IMPF,
      old='''element.getAttribute(consts.Consts.bpmn_element) == lane_id:''', new='''element.getAttribute(consts.Consts.bpmn_element).startswith(lane_id):''',
      needs='a lane whose id is a proper prefix of the id of an element drawn later', breaks='the lane is read back with the bounds of the other element',
      demo=PRE + LANES + '''g = load('<process id="P"><laneSet id="s"><lane id="l" name="a"/><lane id="l2" name="b"/></laneSet></process>', shape("l", 1) + shape("l2", 9))
h = again(g)
assert h.process_elements["P"]["laneSet"]["lanes"]["l"]["x"] == "1"
'''),
 dict(id='C07-single-node', property='C07', file=EXPF,
      old='''            for flow in flows:
                params = flow[2]
                BpmnDiagramGraphExport.export_flow_process_data(params, process)

        BpmnDiagramGraphExport.indent(definitions)
        tree = eTree.ElementTree(definitions)
        try:
            os.makedirs(directory)
        except OSError as exception:
            if exception.errno != errno.EEXIST:
                raise
        tree.write(directory + filename, encoding='utf-8', xml_declaration=True)

    # Helper methods
    @staticmethod
    def indent''', new='''            for flow in flows:
                params = flow[2]
                if params[consts.Consts.source_ref] != params[consts.Consts.target_ref]:
                    BpmnDiagramGraphExport.export_flow_process_data(params, process)

        BpmnDiagramGraphExport.indent(definitions)
        tree = eTree.ElementTree(definitions)
        try:
            os.makedirs(directory)
        except OSError as exception:
            if exception.errno != errno.EEXIST:
                raise
        tree.write(directory + filename, encoding='utf-8', xml_declaration=True)

    # Helper methods
    @staticmethod
    def indent''', needs='a flow from a node to itself at process level, exported without layout', breaks='the flow is missing from the document',
      demo=PRE + '''g = new(); p = g.add_process_to_diagram("p")
a = g.add_task_to_diagram(p)[0]
g.add_sequence_flow_to_diagram(p, a, a, "again")
assert text(g, False).count("<sequenceFlow") == 1
'''),
 dict(id='C07-inner-process', property='C07', file=EXPF,
      old='''        subprocess_id = subprocess_params[consts.Consts.id]
        nodes = bpmn_diagram.get_nodes_list_by_process_id(subprocess_id)
''', new='''        subprocess_id = subprocess_params[consts.Consts.id]
        if subprocess_params[consts.Consts.process] not in bpmn_diagram.process_elements:
            return
        nodes = bpmn_diagram.get_nodes_list_by_process_id(subprocess_id)
''', needs='a sub-process nested in another sub-process', breaks='what the inner sub-process contains is not written',
      demo=PRE + '''g = new(); p = g.add_process_to_diagram("p")
s = g.add_subprocess_to_diagram(p, "s")[0]
q = g.add_subprocess_to_diagram(s, "q")[0]
g.add_task_to_diagram(q, "deep")
assert 'name="deep"' in text(g, False)
'''),
]
