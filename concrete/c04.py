from concrete.core import *
from concrete.xmlgen import *

API = 'bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph.load_diagram_from_xml_file'
FIELDS = ('diagram_graph', 'sequence_flows', 'process_elements', 'diagram_attributes', 'plane_attributes', 'collaboration')


def judge(xml):
    from contracts.xml_import import load
    rep = resolve('bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph')
    with Scratch() as tmp:
        path = os.path.join(tmp, 'in.bpmn')
        with open(path, 'w', encoding='utf-8') as f:
            f.write(xml)
        a, b = rep(), new_diagram()
        r2 = outcome(load, b, path)
        if r2[0] == 'exc':
            raise RuntimeError('contract fails: %r' % (r2,))
        r1 = outcome(a.load_diagram_from_xml_file, path)
        if r1[0] == 'exc':
            return 'the import %s' % show(r1)
        try:
            compare([getattr(a, f) for f in FIELDS], [getattr(b, f) for f in FIELDS], Iso(True), 'diagram')
        except Differ as e:
            return str(e)
    return None


CASES = [Case('load_diagram_from_xml_file', document, judge, [API])]
