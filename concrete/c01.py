from concrete.core import *
from concrete.c02 import SIG, arguments, R
from contracts.bookkeeping import consistent


def make(rng):
    """A history of building calls, as (method, positional, keyword) with node picks resolved while running."""
    return rng.getrandbits(48)


def judge(seed):
    rng = random.Random(seed)
    use_side('I')
    d = resolve('bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph')()
    hist = []
    names = [n for n in SIG if n not in ('__init__', 'create_new_diagram_graph')]
    if rng.random() < 0.8:
        d.create_new_diagram_graph(rstr(rng))
    for step in range(rng.choice([3, 8, 15, 30])):
        r = rng.random()
        if r < 0.45 and len(d.diagram_graph) > 1:
            n = 'add_sequence_flow_to_diagram'
        elif r < 0.02:
            n = 'create_new_diagram_graph'
        else:
            n = rng.choice(names)
        a, k = arguments(rng, d, SIG[n])
        full = dict(zip([x[0] for x in SIG[n]], a))
        full.update(k)
        if full.get('node_id') is not None and d.diagram_graph.has_node(full['node_id']):
            continue
        if n == 'add_sequence_flow_to_diagram' and d.diagram_graph.has_edge(full['source_ref_id'], full['target_ref_id']):
            continue        # known finding: one flow per pair of nodes
        hist.append((n, full))
        r = outcome(getattr(d, n), *a, **k)
        try:
            bad = consistent(d)
        except KeyError as e:
            bad = 'missing key %s' % e
        if bad:
            return 'after %d calls: %s; last calls %r' % (len(hist), bad, hist[-4:])
    return None


def pair_collision():
    """Known finding: a second flow between the same two nodes (in either direction) replaces the first."""
    d = resolve('bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph')()
    d.create_new_diagram_graph('k')
    p = d.add_process_to_diagram()
    a, _ = d.add_task_to_diagram(p, 'a')
    b, _ = d.add_task_to_diagram(p, 'b')
    d.add_sequence_flow_to_diagram(p, a, b)
    d.add_sequence_flow_to_diagram(p, b, a)
    return bool(consistent(d))


CASES = [Case('history', make, judge, [R + 'add_sequence_flow_to_diagram'])]
KNOWN = [('two-flows-between-one-pair', pair_collision)]
