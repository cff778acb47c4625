"""Longest paths, compared with all simple paths of the diagram (independent of the recursive contract)."""
from concrete.core import *

M = 'bpmn_python.diagram_layout_metrics:'


def diag(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12])
    types = rng.choice([None, ['task'], ['task', 'exclusiveGateway'], ['task', 'subProcess', 'userTask', 'startEvent', 'endEvent']])
    m = rng.choice([0, max(n - 1, 0), n, n + 2, n + 4])
    d = raw_diagram(rng, nodes=n, flows=m, types=types, weird=False, acyclic=rng.random() < 0.5)
    g = d.diagram_graph
    for u in list(g.nodes()):
        if rng.random() < 0.15 and not g.has_edge(u, u):
            f = 'self_%s' % u
            g.add_edge(u, u, id=f, name='', sourceRef=u, targetRef=u, process=g.nodes[u]['process'], waypoints=[('1', '1'), ('2', '2')])
            g.nodes[u]['incoming'].insert(rng.randrange(len(g.nodes[u]['incoming']) + 1), f)
            g.nodes[u]['outgoing'].insert(rng.randrange(len(g.nodes[u]['outgoing']) + 1), f)
    return d


def simple_paths(d):
    """Every path (list of ids) from a node without incoming flows."""
    g = d.diagram_graph
    target = {a['id']: a['targetRef'] for _, _, a in g.edges(data=True)}
    nxt = {n: [target[f] for f in a['outgoing']] for n, a in g.nodes(data=True)}
    todo = [[n] for n, a in g.nodes(data=True) if not a['incoming']]
    while todo:
        p = todo.pop()
        yield p
        todo.extend(p + [m] for m in nxt[p[-1]] if m not in p)


def judge(name, tasks):
    def f(inp):
        d = copy.deepcopy(inp)
        before = copy.deepcopy(d)
        g = d.diagram_graph
        r = outcome(resolve(M + name), d)
        if r[0] == 'exc':
            return '%s raises %s' % (name, show(r))
        try:
            path, n = r[1]
            ids = [x[0] for x in path]
        except (TypeError, ValueError, IndexError):
            return 'result is not a path and its length: %s' % short(r[1])
        ps = list(simple_paths(d))
        spec = resolve('contracts.paths:' + name)(copy.deepcopy(before))[1]
        if tasks:
            cand = [[x for x in p if g.nodes[x]['type'] in ('task', 'subProcess')] for p in ps]
        else:
            cand = [p for p in ps if not g.nodes[p[-1]]['outgoing']]
        best = max([len(c) for c in cand] + [0])
        if spec != best:
            raise RuntimeError('contract of %s gives %r, definition %r' % (name, spec, best))
        if len(ids) != best or n != best:
            return 'reported length %r (path of %d), longest is %d' % (n, len(ids), best)
        if ids and ids not in cand:
            return 'not a path of the diagram: %r' % (ids,)
        for x in path:
            if len(x) != 2 or x[1] != before.diagram_graph.nodes[x[0]]:
                return 'element %r is not the one of the diagram' % (x[0],)
        try:
            compare([d], [before], Iso(), 'state')
        except Differ as e:
            return str(e)
        return None
    return f


def case(name, tasks):
    return Case(name, diag, judge(name, tasks), [M + name])


CASES = [case('compute_longest_path', False), case('compute_longest_path_tasks', True)]
