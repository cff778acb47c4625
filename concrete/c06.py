from concrete.core import *
from concrete.xmlgen import *
from concrete.c05 import FIELDS, API


def judge(d):
    from contracts.roundtrip import roundtrip
    rep = resolve('bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph')
    want = new_diagram()
    roundtrip(d, want)
    a, back = copy.deepcopy(d), rep()
    with Scratch() as tmp:
        r = outcome(a.export_xml_file, tmp + '/', 'x.bpmn')
        if r[0] == 'exc':
            return 'the export %s' % show(r)
        r = outcome(back.load_diagram_from_xml_file, tmp + '/x.bpmn')
        if r[0] == 'exc':
            return 'the import of the exported file %s' % show(r)
    try:
        compare([getattr(back, f) for f in FIELDS], [getattr(want, f) for f in FIELDS], Iso(True), 'diagram')
    except Differ as e:
        return str(e)
    return None


def make(rng):
    d = complete_diagram(rng)
    for u, v, e in d.diagram_graph.edges(data=True):
        if 'conditionExpression' in e and e['conditionExpression']['conditionExpression'] == '':
            e['conditionExpression']['conditionExpression'] = 'x'
    return d


def by_hand(rng):
    """A diagram made with the builder functions (checked separately, C02)."""
    rep = resolve('bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph')
    d = rep()
    d.create_new_diagram_graph(diagram_name=rstr(rng))
    ids, pids = [], []
    for _ in range(rng.choice([1, 1, 2])):
        p = d.add_process_to_diagram(rstr(rng), rbool(rng), rbool(rng), rng.choice(['None', 'Public', 'Private']))
        pids.append(p)
    for _ in range(rng.choice([0, 1, 2, 4, 7])):
        p = rng.choice(pids)
        k = rng.randrange(7)
        if k == 0:
            i = d.add_task_to_diagram(p, rstr(rng))[0]
        elif k == 1:
            i = d.add_subprocess_to_diagram(p, rstr(rng), rbool(rng), rbool(rng))[0]
            if rng.random() < 0.5:
                pids.append(i)
        elif k == 2:
            i = d.add_start_event_to_diagram(p, rstr(rng), rng.choice([None, 'message', 'timer', 'signal', 'conditional', 'escalation']), rbool(rng), rbool(rng))[0]
        elif k == 3:
            i = d.add_end_event_to_diagram(p, rstr(rng), rng.choice([None, 'terminate', 'error', 'message', 'compensate', 'escalation', 'signal']))[0]
        elif k == 4:
            i = d.add_exclusive_gateway_to_diagram(p, rstr(rng), default=rng.choice([None, 'f']))[0]
        elif k == 5:
            i = d.add_inclusive_gateway_to_diagram(p, rstr(rng))[0]
        else:
            i = d.add_parallel_gateway_to_diagram(p, rstr(rng))[0]
        ids.append((i, p))
    for _ in range(rng.choice([0, 1, 3, 5]) if ids else 0):
        (u, p), (v, q) = rng.choice(ids), rng.choice(ids)
        if p != q or d.diagram_graph.has_edge(u, v):
            continue
        d.add_sequence_flow_to_diagram(p, u, v, rstr(rng))
    return d


CASES = [Case('export then import', make, judge, [API + 'export_xml_file', API + 'load_diagram_from_xml_file']),
         Case('build, export, import', by_hand, judge, [API + 'export_xml_file', API + 'load_diagram_from_xml_file', API + 'add_task_to_diagram'])]
