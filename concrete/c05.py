from concrete.core import *
from concrete.xmlgen import *

API = 'bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph.'
FIELDS = ('diagram_graph', 'sequence_flows', 'process_elements', 'diagram_attributes', 'plane_attributes', 'collaboration')
PLACES = ['', 'out/', 'a/b/']


def exporting(name, spec):
    def make(rng):
        return (complete_diagram(rng), rng.choice(PLACES), rng.choice(['x.bpmn', 'a b.xml', 'é.bpmn']), rng.random() < 0.5)

    def judge(inp):
        d, place, name_, exists = inp
        g = resolve(spec)
        a, b = copy.deepcopy(d), copy.deepcopy(d)
        with Scratch() as tmp:
            i, s = os.path.join(tmp, 'i', place), os.path.join(tmp, 's', place)
            if exists:
                os.makedirs(i)
            if not place:
                i, s = i.rstrip('/') + '/', s.rstrip('/') + '/'
            r2 = outcome(g, b, s, name_)
            if r2[0] == 'exc':
                raise RuntimeError('contract fails: %r' % (r2,))
            r1 = outcome(getattr(a, name), i, name_)
            if r1[0] == 'exc':
                return 'the export %s' % show(r1)
            if not os.path.isfile(i + name_):
                return 'file not written'
            try:
                elements(read_tree(i + name_), read_tree(s + name_), Iso(True), 'file')
                compare([getattr(a, f) for f in FIELDS], [getattr(d, f) for f in FIELDS], Iso(True), 'diagram after export')
            except Differ as e:
                return str(e)
        return None
    return Case(name, make, judge, [API + name])


CASES = [exporting('export_xml_file', 'contracts.xml_export:export')]
