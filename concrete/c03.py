from concrete.core import *

R = 'bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph.'


def diag(rng):
    return raw_diagram(rng)


def pick(rng, d, what):
    g = d.diagram_graph
    pool = {'type': [a['type'] for _, a in g.nodes(data=True)], 'node': list(g.nodes()),
            'process': list(d.process_elements) + [a['process'] for _, a in g.nodes(data=True)],
            'flow': list(d.sequence_flows)}[what]
    return rng.choice(pool) if pool and rng.random() < 0.8 else rstr(rng)


def q(name, what=None, spec=None):
    def make(rng):
        d = diag(rng)
        if what == 'process' or name == 'get_flows_list_by_process_id':
            for _, _, e in d.diagram_graph.edges(data=True):
                if rng.random() < 0.2:
                    del e['process']
        return ((d,) + ((pick(rng, d, what),) if what else ()), {})
    return contract(name + (' (all)' if spec else ''), R + name, 'contracts.queries:' + (spec or name), make)


CASES = [q('get_nodes', 'type'), q('get_nodes', None, 'get_nodes_all'), q('get_nodes_list_by_process_id', 'process'),
         q('get_node_by_id', 'node'), q('get_nodes_id_list_by_type', 'type'), q('get_flows'),
         q('get_flow_by_id', 'flow'), q('get_flows_list_by_process_id', 'process'), q('get_nodes_positions')]
