"""CSV export of whole diagrams: against the contract (any acyclic diagram) and against rows derived from the block structure."""
import csv
import shutil
import tempfile
from concrete.core import *
from contracts import csv_export as ct

R = 'bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph.'
X = 'bpmn_python.bpmn_process_csv_export:BpmnDiagramGraphCsvExport.export_process_to_csv'
GATES = ['exclusiveGateway', 'inclusiveGateway', 'parallelGateway']
EVDEFS = ['messageEventDefinition', 'timerEventDefinition', 'signalEventDefinition', 'errorEventDefinition']
TEXTS = ['a,b', 'say "yes"', 'two\nlines', ',', '"', 'x, "y"', 'NA', 'goto 3', ' padded ', 'ü']


def text(rng):
    return rng.choice(TEXTS) if rng.random() < 0.2 else rstr(rng)


def finish(rng, d):
    """Optional attributes the export looks at."""
    g = d.diagram_graph
    for _, a in g.nodes(data=True):
        a['node_name'] = text(rng)
        if a['type'] in GATES[:2] + ['complexGateway', 'task', 'subProcess'] and rng.random() < 0.7:
            a['default'] = rng.choice(a['outgoing'] + [None]) if a['outgoing'] else rng.choice([None, '', 'nowhere'])
        elif a['type'] == 'parallelGateway' and a['outgoing'] and rng.random() < 0.2:
            a['default'] = rng.choice(a['outgoing'])
        if a['type'].endswith('Event') and rng.random() < 0.8:
            a['event_definitions'] = [{'id': 'e%d' % i, 'definition_type': rng.choice(EVDEFS)} for i in range(rng.choice([0, 1, 1, 2]))]
        else:
            a.pop('event_definitions', None)
    for _, _, a in g.edges(data=True):
        r = rng.random()
        if r < 0.8:
            a['name'] = text(rng)
        elif r < 0.9:
            a['name'] = None
        else:
            a.pop('name', None)
    return d


class Builder:
    """Diagram built block by block, nodes and flows stored in random order."""

    def __init__(self, rng):
        self.rng, self.nodes, self.flows = rng, [], []

    def node(self, t):
        i = 'n%d' % len(self.nodes)
        self.nodes.append((i, t))
        return i

    def flow(self, u, v):
        self.flows.append(('f%d' % len(self.flows), u, v))
        return self.flows[-1][0]

    def diagram(self):
        rng = self.rng
        d = raw_diagram(rng, nodes=0, flows=0, weird=False, processes=1)
        g = d.diagram_graph
        ins, outs = {}, {}
        for f, u, v in self.flows:
            outs.setdefault(u, []).append(f)
            ins.setdefault(v, []).append(f)
        ns, fs = list(self.nodes), list(self.flows)
        if rng.random() < 0.5:
            rng.shuffle(ns)
            rng.shuffle(fs)
        for i, t in ns:
            g.add_node(i, id=i, type=t, node_name='', process='process_0', incoming=ins.get(i, []), outgoing=outs.get(i, []))
            d.process_elements['process_0']['node_ids'].append(i)
        for f, u, v in fs:
            g.add_edge(u, v, id=f, name='', process='process_0', sourceRef=u, targetRef=v)
            d.sequence_flows[f] = {'name': '', 'sourceRef': u, 'targetRef': v}
        return finish(rng, d)


def block_structured(rng):
    """(diagram, rows): sequences of activities and blocks; a block is a split gateway (or an activity with several outgoing flows), its
    branches and the join (a gateway, or the next activity).  A join is not followed directly by another join."""
    b = Builder(rng)
    tree = []       # ('node', id) | ('block', split id or None, activity first?, [(flow, [items])])
    size = rng.choice([1, 2, 3, 3, 4])

    def activity():
        return b.node(rng.choice(['task', 'task', 'task', 'subProcess']))

    def sequence(depth, ends, lead=None):
        """items, loose ends: flows still to connect are given as source ids; lead = sources to connect to the first element."""
        items, sources = [], list(lead or [])

        def place(i, join_ok=True):
            fl = [b.flow(s, i) for s in sources]
            sources[:] = [i]
            return fl
        firstflows = None
        n = rng.choice([1, 1, 2, 3])
        for k in range(n):
            last = k == n - 1
            if depth > 0 and rng.random() < 0.45:
                as_task = rng.random() < 0.2
                if len(sources) > 1 and not as_task:
                    j = b.node(rng.choice(GATES))
                    fl = place(j)
                    firstflows = firstflows if firstflows is not None else fl
                s = activity() if as_task else b.node(rng.choice(GATES))
                fl = place(s)
                firstflows = firstflows if firstflows is not None else fl
                closing = last and ends and rng.random() < 0.5
                branches, loose = [], []
                m = rng.choice([2, 2, 2, 3, 4])
                live = [True] * m
                if closing:
                    live = [False] * m
                elif m > 2 and rng.random() < 0.3:
                    live[rng.randrange(m)] = False
                empty = rng.randrange(m) if not closing and sum(live) >= 2 and rng.random() < 0.3 else None
                for q in range(m):
                    if q == empty and live[q]:
                        branches.append(None)
                        loose.append((q, s))
                        continue
                    start = len(b.flows)
                    its, out, ff = sequence(depth - 1, not live[q], [s])
                    branches.append((ff[0], its))
                    loose += [(q, o) for o in out]
                if empty is not None and not live[empty]:
                    empty = None
                items.append(['block', s, as_task, branches])
                if closing:
                    return items, [], firstflows
                # the element after the block joins the loose ends
                src = [o for _, o in loose]
                if rng.random() < 0.6:
                    j = b.node(rng.choice(GATES))
                    fl = [b.flow(o, j) for o in src]
                    items[-1].append({q: f for (q, o), f in zip(loose, fl) if branches[q] is None})
                    sources[:] = [j]
                    i = b.node('endEvent') if last and ends else activity()
                    b.flow(j, i)
                else:
                    i = b.node('endEvent') if last and ends and False else activity()
                    fl = [b.flow(o, i) for o in src]
                    items[-1].append({q: f for (q, o), f in zip(loose, fl) if branches[q] is None})
                sources[:] = [i]
                items.append(['node', i])
                if last and ends and dict(b.nodes)[i] == 'endEvent':
                    return items, [], firstflows
            else:
                i = activity()
                fl = place(i)
                firstflows = firstflows if firstflows is not None else fl
                items.append(['node', i])
        if ends:
            i = b.node('endEvent')
            fl = place(i)
            firstflows = firstflows if firstflows is not None else fl
            items.append(['node', i])
            return items, [], firstflows
        return items, sources, firstflows
    s = b.node('startEvent')
    items, _, _ = sequence(size, True, [s])
    # branch order in the outgoing list of a split is the order in which its flows were made
    order = {f: k for k, (f, _, _) in enumerate(b.flows)}
    d = b.diagram()
    g = d.diagram_graph
    flows = {a['id']: a for _, _, a in g.edges(data=True)}
    rows = []

    def emit(i, place, condition):
        a = g.nodes[i]
        t, name = a['type'], a['node_name']
        if t in ('startEvent', 'endEvent'):
            ev = (a.get('event_definitions') or [{'definition_type': ''}])[0]['definition_type']
            name = {'messageEventDefinition': 'message ', 'timerEventDefinition': 'timer ' if t == 'startEvent' else ''}.get(ev, '') + name
        rows.append([place, name, condition, '', 'yes' if t == 'subProcess' else '', 'yes' if t == 'endEvent' else ''])

    def walk(items, number, prefix, condition):
        for it in items:
            here = prefix + str(number)
            if it[0] == 'node':
                emit(it[1], here, condition)
            else:
                _, s, as_task, branches = it[:4]
                direct = it[4] if len(it) > 4 else {}
                if as_task:
                    emit(s, here, condition)
                fl = [(direct[q] if br is None else br[0], br) for q, br in enumerate(branches)]
                fl.sort(key=lambda x: g.nodes[s]['outgoing'].index(x[0]))
                for k, (f, br) in enumerate(fl):
                    cond = '' if g.nodes[s]['type'] == 'parallelGateway' or flows[f].get('name') is None else flows[f]['name']
                    sub = here + 'abcdefghijklmnopqrstuvwxyz'[k]
                    if br is None:
                        rows.append([sub + '1', 'goto ' + prefix + str(number + 1), cond, '', '', ''])
                        continue
                    if f == g.nodes[s].get('default') and g.nodes[s]['type'] != 'parallelGateway':
                        cond = 'else'
                    walk(br[1], 1, sub, cond)
            condition = ''
            number += 1
    emit(s, '0', '')
    walk(items, 1, '', '')
    return d, rows


def read(path):
    with open(path, newline='') as f:
        return list(csv.reader(f))


def export(d):
    tmp = tempfile.mkdtemp(prefix='csv_')
    try:
        r = outcome(resolve(R + 'export_csv_file'), d, tmp + '/new/dir/', 'p.csv')
        p = tmp + '/new/dir/p.csv'
        return r, (read(p) if os.path.exists(p) else None)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def same_rows(got, want):
    if got == want:
        return None
    for k in range(max(len(got), len(want))):
        x, y = (l[k] if k < len(l) else None for l in (got, want))
        if x != y:
            return 'line %d is %r, expected %r' % (k + 1, x, y)


def judged(d, want):
    """want: list of rows or ('exc', class)."""
    before = copy.deepcopy(d)
    use_side('I')
    r, got = export(d)
    if isinstance(want, tuple):
        if r[0] != 'exc' or r[1] != want[1]:
            return 'export %s, expected %s' % (show(r), want[1])
        if got is not None:
            return 'a file is written although the export fails'
    else:
        if r[0] == 'exc':
            return 'export raises %s' % show(r)
        if got is None:
            return 'no file'
        bad = same_rows(got, [ct.HEADER] + want)
        if bad:
            return bad
    try:
        compare(d, before, Iso(exact=True), 'diagram')
    except Differ as e:
        return 'export changes the diagram: %s' % e
    return None


def acyclic(rng):
    d = raw_diagram(rng, flows=rng.choice([2, 5, 9, 14]), types=rng.choice([ct.CLASSIFIED, ['task', 'task', 'subProcess', 'endEvent'] + GATES]),
                    weird=False, acyclic=True, processes=1)
    g = d.diagram_graph
    if rng.random() < 0.8 and len(g):
        # one element starts it all
        starts = [n for n, a in g.nodes(data=True) if not a['incoming']]
        g.add_node('first', id='first', type=rng.choice(['startEvent', 'task', 'exclusiveGateway']), node_name='', process='process_0', incoming=[], outgoing=[])
        for n in starts[:20]:
            f = 'first_' + n
            g.add_edge('first', n, id=f, process='process_0', sourceRef='first', targetRef=n)
            g.nodes['first']['outgoing'].append(f)
            g.nodes[n]['incoming'].append(f)
    return finish(rng, d)


def judge_acyclic(d):
    d = copy.deepcopy(d)
    use_side('S')
    r = outcome(ct.rows_of, copy.deepcopy(d))
    if r[0] == 'exc':
        if r[1] != 'BpmnPythonError':
            raise Outside()
        want = ('exc', r[1])
    else:
        want = [[x[k] for k in ct.HEADER] for x in r[1]]
        if len(want) > 3000:
            raise Outside()
    return judged(d, want)


def nested_joins():
    """Known finding: a join gateway that leads directly to another join."""
    b = Builder(random.Random(5))
    s, o, i = b.node('startEvent'), b.node('exclusiveGateway'), b.node('exclusiveGateway')
    t = [b.node('task') for _ in range(5)]
    j1, j2, e = b.node('exclusiveGateway'), b.node('exclusiveGateway'), b.node('endEvent')
    for u, v in ((s, o), (o, t[0]), (t[0], i), (i, t[1]), (i, t[2]), (t[1], j1), (t[2], j1), (j1, j2), (o, t[3]), (t[3], j2), (j2, t[4]), (t[4], e)):
        b.flow(u, v)
    d = b.diagram()
    for n, a in d.diagram_graph.nodes(data=True):
        a['node_name'] = n
    r, got = export(d)
    return got is not None and [x[1] for x in got].count(t[4]) != 1


CASES = [Case('blocks', lambda rng: block_structured(rng), lambda x: judged(copy.deepcopy(x[0]), x[1]), [R + 'export_csv_file'], weight=3),
         Case('acyclic', acyclic, judge_acyclic, [R + 'export_csv_file'], weight=2)]
KNOWN = [('join-after-join', nested_joins)]
