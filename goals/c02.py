from pyv.contract import *

REP = 'bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph.'


SIGS = {}


def build(name, params, spec=None, flow=False, node=None, variants=('full', 'defaults')):
    """params: (name, kind, optional?) kind in str|bool|ostr(None or string); the first `flow` are mandatory"""
    def fn(env):
        env.boot(['contracts.builder', 'contracts.base'])
        impl = env.fn(REP + name)
        sp = env.fn('contracts.builder:' + (spec or name))

        def path():
            d = Diagram(env, node=node or {})
            kw = {}
            variant = variants[env.ctx.choose_any(len(variants))]
            for p, kind, mandatory in params:
                if not mandatory and variant == 'defaults':
                    continue
                kw[p] = (sbool(env, p) if kind == 'bool' else sstr(env, p) if kind == 'str'
                         else optional(env, sstr(env, p)))
            env.compare(name, lambda: env.ip.call(impl, [d.ref], dict(kw)), lambda: env.ip.call(sp, [d.ref], dict(kw)),
                        [('diagram', d.ref)])
        env.ctx.explore(path)
    SIGS[name] = (name, params)
    return Goal('C02', name, fn, [REP + name])


NAME = lambda n: (n, 'str', False)
PID = ('process_id', 'str', True)
NID = ('node_id', 'ostr', False)
GW = [PID, NAME('gateway_name'), ('gateway_direction', 'str', False)]

GOALS = [
    build('__init__', [], spec='init_diagram'),
    build('create_new_diagram_graph', [NAME('diagram_name')], spec='new_diagram'),
    build('add_process_to_diagram', [NAME('process_name'), ('process_is_closed', 'bool', False),
                                     ('process_is_executable', 'bool', False), NAME('process_type')]),
    build('add_flow_node_to_diagram', [PID, ('node_type', 'str', True), ('name', 'str', True), NID]),
    build('add_task_to_diagram', [PID, NAME('task_name'), NID]),
    build('add_subprocess_to_diagram', [PID, ('subprocess_name', 'str', True), ('is_expanded', 'bool', False),
                                        ('triggered_by_event', 'bool', False), NID]),
    build('add_start_event_to_diagram', [PID, NAME('start_event_name'), ('start_event_definition', 'ostr', False),
                                         ('parallel_multiple', 'bool', False), ('is_interrupting', 'bool', False), NID]),
    build('add_end_event_to_diagram', [PID, NAME('end_event_name'), ('end_event_definition', 'ostr', False), NID]),
    build('add_gateway_to_diagram', [PID, ('gateway_type', 'str', True)] + GW[1:] + [NID]),
    build('add_exclusive_gateway_to_diagram', GW + [('default', 'ostr', False), NID]),
    build('add_inclusive_gateway_to_diagram', GW + [('default', 'ostr', False), NID]),
    build('add_parallel_gateway_to_diagram', GW + [NID]),
    build('add_sequence_flow_to_diagram', [PID, ('source_ref_id', 'str', True), ('target_ref_id', 'str', True),
                                           NAME('sequence_flow_name')],
          node={'incoming': True, 'outgoing': True, 'x': True, 'y': True}),
]
