from concrete.core import *

R = 'bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph.'
DIRS = ['Unspecified', 'Converging', 'Diverging', 'Mixed']
STARTS = ['message', 'timer', 'conditional', 'signal', 'escalation']
ENDS = ['terminate', 'escalation', 'message', 'compensate', 'signal', 'error']


def value(rng, d, kind):
    r = rng.random()
    if kind == 'str':
        return rstr(rng)
    if kind == 'bool':
        return rbool(rng)
    if kind == 'ostr':
        return rstr(rng) if r < 0.5 else None
    if kind == 'nid':
        return None if r < 0.4 else ('new_' + rstr(rng) if r < 0.9 else rstr(rng))
    if kind == 'pid':
        return rng.choice(list(d.process_elements)) if d.process_elements and r < 0.7 else rstr(rng)
    if kind == 'dir':
        return rng.choice(DIRS) if r < 0.75 else rstr(rng)
    if kind == 'start':
        return rng.choice(STARTS) if r < 0.6 else (None if r < 0.8 else rng.choice(ENDS + [rstr(rng)]))
    if kind == 'end':
        return rng.choice(ENDS) if r < 0.6 else (None if r < 0.8 else rng.choice(STARTS + [rstr(rng)]))
    if kind == 'node':
        ids = list(d.diagram_graph.nodes())
        return rng.choice(ids) if ids and r < 0.93 else rstr(rng)
    if kind == 'type':
        return rng.choice(TYPES)
    raise KeyError(kind)


SIG = {
    '__init__': [],
    'create_new_diagram_graph': [('diagram_name', 'str', 0)],
    'add_process_to_diagram': [('process_name', 'str', 0), ('process_is_closed', 'bool', 0),
                               ('process_is_executable', 'bool', 0), ('process_type', 'str', 0)],
    'add_flow_node_to_diagram': [('process_id', 'pid', 1), ('node_type', 'type', 1), ('name', 'str', 1), ('node_id', 'nid', 0)],
    'add_task_to_diagram': [('process_id', 'pid', 1), ('task_name', 'str', 0), ('node_id', 'nid', 0)],
    'add_subprocess_to_diagram': [('process_id', 'pid', 1), ('subprocess_name', 'str', 1), ('is_expanded', 'bool', 0),
                                  ('triggered_by_event', 'bool', 0), ('node_id', 'nid', 0)],
    'add_start_event_to_diagram': [('process_id', 'pid', 1), ('start_event_name', 'str', 0), ('start_event_definition', 'start', 0),
                                   ('parallel_multiple', 'bool', 0), ('is_interrupting', 'bool', 0), ('node_id', 'nid', 0)],
    'add_end_event_to_diagram': [('process_id', 'pid', 1), ('end_event_name', 'str', 0), ('end_event_definition', 'end', 0), ('node_id', 'nid', 0)],
    'add_gateway_to_diagram': [('process_id', 'pid', 1), ('gateway_type', 'type', 1), ('gateway_name', 'str', 0),
                               ('gateway_direction', 'dir', 0), ('node_id', 'nid', 0)],
    'add_exclusive_gateway_to_diagram': [('process_id', 'pid', 1), ('gateway_name', 'str', 0), ('gateway_direction', 'dir', 0),
                                         ('default', 'ostr', 0), ('node_id', 'nid', 0)],
    'add_inclusive_gateway_to_diagram': [('process_id', 'pid', 1), ('gateway_name', 'str', 0), ('gateway_direction', 'dir', 0),
                                         ('default', 'ostr', 0), ('node_id', 'nid', 0)],
    'add_parallel_gateway_to_diagram': [('process_id', 'pid', 1), ('gateway_name', 'str', 0), ('gateway_direction', 'dir', 0), ('node_id', 'nid', 0)],
    'add_sequence_flow_to_diagram': [('process_id', 'pid', 1), ('source_ref_id', 'node', 1), ('target_ref_id', 'node', 1), ('sequence_flow_name', 'str', 0)],
}
SPEC = {'__init__': 'init_diagram', 'create_new_diagram_graph': 'new_diagram'}


def arguments(rng, d, sig, positional=None):
    """Mandatory first; optional ones sometimes omitted; sometimes everything positional."""
    vals = [(n, value(rng, d, k), m) for n, k, m in sig]
    if rng.random() < 0.3:
        cut = rng.randint(sum(1 for x in vals if x[2]), len(vals))
        return [v for _, v, _ in vals[:cut]], {}
    return [], {n: v for n, v, m in vals if m or rng.random() < 0.6}


def case(name):
    sig = SIG[name]

    def make(rng):
        d = raw_diagram(rng)
        a, k = arguments(rng, d, sig)
        return ([d] + a, k)
    return contract(name, R + name, 'contracts.builder:' + SPEC.get(name, name), make,
                    weight=3 if name == 'add_sequence_flow_to_diagram' else 1)


CASES = [case(n) for n in SIG]
