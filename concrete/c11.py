"""Whole layouts of generated diagrams (bounded), judged by their observable result."""
from concrete.core import *

M = 'bpmn_python.bpmn_diagram_layouter:'
S = 'contracts.layout:'
KINDS = ['task', 'subProcess', 'complexGateway', 'eventBasedGateway', 'inclusiveGateway', 'exclusiveGateway', 'parallelGateway', 'startEvent',
         'intermediateCatchEvent', 'endEvent', 'intermediateThrowEvent', 'userTask', 'serviceTask', 'manualTask', 'boundaryEvent', 'dataObject']


def graph(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16])
    m = rng.choice([0, max(n - 1, 0), n, n + 3, 2 * n])
    types = rng.choice([None, None, KINDS[:11], ['task', 'exclusiveGateway', 'parallelGateway']]) or KINDS
    d = raw_diagram(rng, nodes=n, flows=m, types=types, weird=False, acyclic=rng.random() < 0.5, di=rng.random() < 0.5)
    return d


def tree(rng):
    """Nested blocks of splits and joins, with an occasional shortcut or loop."""
    d = raw_diagram(rng, nodes=0, flows=0, weird=False, processes=1)
    g = d.diagram_graph
    count = [0]

    def node(t):
        i = 'n%d' % count[0]
        count[0] += 1
        g.add_node(i, id=i, type=t, node_name=rstr(rng), process='process_0', incoming=[], outgoing=[])
        d.process_elements['process_0']['node_ids'].append(i)
        return i

    def flow(u, v):
        if g.has_edge(u, v):
            return
        f = 'f%d' % g.number_of_edges()
        g.add_edge(u, v, id=f, name='', process='process_0', sourceRef=u, targetRef=v)
        d.sequence_flows[f] = {'name': '', 'sourceRef': u, 'targetRef': v}
        g.nodes[u]['outgoing'].append(f)
        g.nodes[v]['incoming'].append(f)

    def block(depth):
        r = rng.random()
        if depth <= 0 or r < 0.4:
            i = node(rng.choice(KINDS))
            return i, i
        if r < 0.6:
            a, b = block(depth - 1), block(depth - 1)
            flow(a[1], b[0])
            return a[0], b[1]
        t = rng.choice(KINDS[2:7] + ['task'])
        s, j = node(t), node(t)
        for _ in range(rng.choice([1, 2, 2, 3, 4, 5])):
            b = block(depth - 1)
            flow(s, b[0])
            flow(b[1], j)
        return s, j
    for _ in range(rng.choice([1, 1, 2, 3])):
        block(rng.choice([1, 2, 3]))
    ids = list(g.nodes())
    for _ in range(rng.choice([0, 0, 1, 2])):
        flow(rng.choice(ids), rng.choice(ids))
    return d


def make(rng):
    d = graph(rng) if rng.random() < 0.6 else tree(rng)
    if rng.random() < 0.3:      # stored order of nodes and listed flows
        for _, a in d.diagram_graph.nodes(data=True):
            rng.shuffle(a['incoming'])
            rng.shuffle(a['outgoing'])
    return d


def cyclic(d):
    import networkx
    g = networkx.DiGraph()
    g.add_edges_from((a['sourceRef'], a['targetRef']) for _, _, a in d.diagram_graph.edges(data=True))
    return not networkx.is_directed_acyclic_graph(g)


def judge(inp):
    d = copy.deepcopy(inp)
    r = outcome(resolve(M + 'generate_layout'), d)
    if r[0] == 'exc':
        return 'generate_layout raises %s' % show(r)
    g = d.diagram_graph
    cell = {}
    for n, a in g.nodes(data=True):
        try:
            x, y = a['x'], a['y']
            if str(int(x)) != x or str(int(y)) != y:
                return 'coordinates of %r are not integer numerals: %r' % (n, (x, y))
        except (KeyError, TypeError, ValueError) as e:
            return 'node %r has no coordinates: %r' % (n, e)
        if (int(x) - 50) % 150 or (int(y) - 50) % 100:
            return 'node %r is not on the grid: %r' % (n, (x, y))
        cell[n] = ((int(x) - 50) // 150, (int(y) - 50) // 100)
    seen = {}
    for n, c in cell.items():
        if c in seen:
            return 'nodes %r and %r are both at %r' % (seen[c], n, c)
        seen[c] = n
    e = copy.deepcopy(inp)
    for n, a in e.diagram_graph.nodes(data=True):
        a['x'], a['y'] = g.nodes[n]['x'], g.nodes[n]['y']
    resolve(S + 'set_flows_waypoints')(e)
    try:
        compare([d], [e], Iso(), 'diagram')
    except Differ as ex:
        return str(ex)
    loops = cyclic(inp)
    src = {a['id']: a['sourceRef'] for _, _, a in g.edges(data=True)}
    for n, a in g.nodes(data=True):
        ps = [src[f] for f in a['incoming']]
        if not ps and cell[n][0] != 1:
            return 'node %r without incoming flows is in column %d' % (n, cell[n][0])
        if loops:
            continue
        if len(ps) == 1 and cell[n][0] != cell[ps[0]][0] + 1:
            return 'node %r is in column %d, its only predecessor %r in column %d' % (n, cell[n][0], ps[0], cell[ps[0]][0])
        if len(ps) > 1 and all(cell[n][0] != cell[p][0] + 1 for p in ps):
            return 'join %r is not right of any of its predecessors' % (n,)
    return None


def placed(rng):
    d = make(rng)
    k = rng.choice([1, 3])
    for _, a in d.diagram_graph.nodes(data=True):
        a['x'], a['y'] = str(rng.randint(-k, k) * 50), str(rng.randint(-k, k) * 50)
    return ((d,), {})


CASES = [Case('generate_layout', make, judge, [M + 'generate_layout'], weight=4),
         contract('set_flows_waypoints', M + 'set_flows_waypoints', S + 'set_flows_waypoints', placed)]
