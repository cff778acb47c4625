"""Generates properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TECH = 'contract-based deductive verification: contracts on the real functions, VCs generated from the Python AST of /repo, discharged by z3'


def prop(id, title, statement, over, text, why, files, mech, level_note, claim=True, reason='', observe=None, level='proof', tech=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append((d, claim, (level_note, level, tech or TECH), reason))


REPF = 'bpmn_python/bpmn_diagram_rep.py'

prop('C01', 'Flow bookkeeping stays consistent through every building history',
     'After any sequence of diagram-building calls, the diagram graph, the sequence-flow table and the per-node incoming/outgoing '
     'lists agree: every registered flow is exactly one edge between two existing nodes with the same id, name, source and target, is '
     'listed exactly once as outgoing at its source and once as incoming at its target, and nothing else is listed or connected. '
     'Rejected calls never leave a half-added element behind.',
     ['histories', 'inputs'], 'every finite sequence of public building calls with arbitrary arguments (new node ids, at most one flow per pair of nodes)',
     'tests build a handful of fixed diagrams; the invariant must survive every order, mix and rejection of calls',
     [REPF], [('representation invariant preserved by every building call', REPF + ': add_*_to_diagram, create_new_diagram_graph')],
     'inductive invariant: every conjunct proved preserved by every public building call from an arbitrary consistent diagram; '
     'uuid freshness and the networkx.Graph model are trusted; replayed on random histories under CPython')

prop('C02', 'Building calls record exactly what was asked and touch nothing else',
     'Each building call (new diagram, process, task, sub-process, events, gateways, sequence flow) stores exactly the requested '
     'attributes under the returned id, with the documented defaults, encodes booleans as "true"/"false", attaches exactly the '
     'requested event definition, and returns the id together with the live stored record. All other nodes, flows, processes and '
     'attributes of the diagram stay unchanged, and a call rejected for a bad gateway direction or an unknown flow endpoint changes nothing.',
     ['inputs', 'histories'], 'every diagram state and every argument combination of every building call',
     'tests pass one or two fixed argument combinations and never compare the rest of the diagram before and after',
     [REPF], [('builder methods', REPF + ': create_new_diagram_graph, add_process_to_diagram, add_flow_node_to_diagram, add_*_to_diagram'),
              ('event definition tables', REPF + ': add_start_event_to_diagram, add_end_event_to_diagram')],
     'full functional contract with frame condition per method, proved for arbitrary pre-state and arguments; networkx model and uuid freshness trusted')

prop('C03', 'Diagram queries return exactly the matching elements and never modify it',
     'Looking up nodes by type, process or id, flows by id or process, all nodes, all flows and node positions returns precisely the '
     'stored elements that match, each once, with their live records and coordinates, and nothing (or an empty result) when none match. '
     'No query changes the diagram.',
     ['inputs'], 'every diagram and every query argument',
     'tests query fixed diagrams for values known to be present',
     [REPF], [('query methods', REPF + ': get_nodes, get_node_by_id, get_nodes_id_list_by_type, get_nodes_list_by_process_id, get_flows, '
               'get_flow_by_id, get_flows_list_by_process_id, get_nodes_positions')],
     'functional contract per query proved for an arbitrary diagram (any number of nodes and flows); iteration order of the graph is the trusted networkx order')


def write():
    extra = os.path.join(HERE, 'tools', 'props_more.py')
    if os.path.exists(extra):
        exec(compile(open(extra).read(), extra, 'exec'), globals())
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, _, _, _ in P:
            f.write(json.dumps(d) + '\n')
    man = dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5" && /opt/venv/bin/python -c "import networkx"',
               checks=[dict(property=d['id'], quick_cmd='python3-vt /verif/check.py %s --tier quick' % d['id'],
                            thorough_cmd='python3-vt /verif/check.py %s --tier thorough' % d['id'],
                            technique=x[2], level=x[1], level_note=x[0]) for d, c, x, _ in P if c],
               not_applicable=[dict(property=d['id'], reason=r) for d, c, _, r in P if not c],
               notes='See DESIGN.md.  No hooks are needed: the checks read and import /repo as it is.')
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    write()
