"""CSV import of whole files: against the contract (any lines) and against nodes and flows derived from the block structure."""
import csv
import shutil
import tempfile
from concrete.core import *
from contracts import csv_import as ct

R = 'bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph.'
FIELDS = ['Order', 'Activity', 'Condition', 'Who', 'Subprocess', 'Terminated']
CONDS = ['', '', 'yes', 'no', 'else', 'Accepted', 'Rejected', ' yes ', 'true', 'False', 'NA', '0', 'a, b', 'not "x"', ' ', 'Yes']
NAMES = ['Check order', 'a,b', 'say "yes"', 'two\nlines', 'NA', 'nan', '12', '1.50', 'True', ' padded ', 'ü', '', 'null', 'go to 1', 'yes']


def name(rng):
    while True:
        s = rng.choice(NAMES) if rng.random() < 0.4 else rstr(rng)
        if not s.lower().startswith('goto') and '\x00' not in s and '\r' not in s:
            return s


def cond(rng):
    return rng.choice(CONDS) if rng.random() < 0.8 else name(rng)


def line(activity, condition='', sub='', end='', who=''):
    return {'Activity': activity, 'Condition': condition, 'Who': who, 'Subprocess': sub, 'Terminated': end}


class Blocks:
    """Lines of a block-structured process, with the nodes and flows they stand for."""

    def __init__(self, rng):
        self.rng, self.rows, self.nodes, self.flows, self.gotos = rng, {}, {}, {}, []

    def flow(self, u, v, condition=''):
        if (u, v) in self.flows or (v, u) in self.flows or u == v:
            raise Outside()
        self.flows[u, v] = condition

    def put(self, order, kind, condition):
        n = name(self.rng)
        sub = 'yes' if kind == 'subProcess' else self.rng.choice(['', '', 'no'])
        self.rows[order] = line(n, condition, sub, 'yes' if kind == 'endEvent' else self.rng.choice(['', '', 'no']), self.rng.choice(['', 'Bob']))
        self.nodes[order] = (kind, n)

    def sequence(self, prefix, number, depth, enter, closed, single=False, condition=''):
        """Lines prefix+number...; `enter(order)` makes the flows into the first line.  Returns the open ends."""
        rng = self.rng
        count = 1 if single else rng.choice([1, 1, 2, 3])
        if not single and depth < 2 and rng.random() < 0.03:
            count = rng.choice([11, 23, 105])
        after_block = False
        for k in range(count):
            order = prefix + ('' if single else str(number))
            last = k == count - 1
            if last and depth < 2 and prefix and not after_block and rng.random() < 0.12:
                self.gotos.append((order, condition if k == 0 else (rng.choice(['', '', cond(rng)])), enter))
                self.rows[order] = None
                return []
            terminal = last and closed and rng.random() < 0.6
            kind = 'endEvent' if terminal else rng.choice(['task', 'task', 'subProcess'])
            c = condition if k == 0 else ('' if rng.random() < 0.9 else cond(rng))
            self.put(order, kind, c)
            enter(order, c)
            number += 1
            if terminal:
                return []
            if not single and depth > 0 and (count < 9 or last) and rng.random() < (0.9 if last and closed else 0.4):
                split = order + '_split'
                self.nodes[split] = (None, '')
                self.flow(order, split)
                m = rng.choice([2, 2, 2, 3, 4])
                style = rng.choice(['yesno', 'else', 'none', 'any'])
                if style == 'yesno':
                    cs = [rng.choice(['yes', ' yes', 'no']), rng.choice(['no', 'yes', 'no '])] + [cond(rng) for _ in range(m - 2)]
                elif style == 'else':
                    cs = [cond(rng) for _ in range(m)]
                    cs[rng.randrange(m)] = rng.choice(['else', ' else '])
                elif style == 'none':
                    cs = [rng.choice(['', '', ' ']) for _ in range(m)]
                else:
                    cs = [cond(rng) for _ in range(m)]
                st = [c.strip() for c in cs]
                if m == 2 and (sorted(st) == ['no', 'yes'] or 'else' in st):
                    kind = 'exclusiveGateway'
                elif not any(st):
                    kind = 'parallelGateway'
                else:
                    kind = 'inclusiveGateway'
                self.nodes[split] = (kind, '')
                allclosed = last and closed
                live = [not allclosed and (rng.random() < 0.8) for _ in range(m)]
                opens = []
                start = number
                letters = 'ABCDEFGHIJ' if rng.random() < 0.1 else 'abcdefghij'
                if letters[0] == 'A':
                    letters = 'a' + letters[1:]     # a split is recognised by its branch a
                for q in range(m):
                    one = rng.random() < 0.4
                    opens += self.sequence(prefix + str(start) + letters[q], 1, depth - 1,
                                           lambda o, c, s=split: self.flow(s, o, c), not live[q], one, cs[q])
                number += 1
                if last:
                    # no line after the block inside this branch: its open ends are open ends of the branch
                    if closed:
                        if opens:
                            nxt = prefix + str(number)
                            self.put(nxt, 'endEvent', '')
                            self.join(nxt, opens, kind)
                            return []
                        return []
                    return opens
                after_block = True
                enter = lambda o, c, op=opens, kd=kind: self.join(o, op, kd, c)
            else:
                after_block = False
                enter = lambda o, c, u=order: self.flow(u, o, c)
                if last:
                    if closed:
                        o = prefix + str(number)
                        if single:
                            # a one-line branch that is not terminated stays open
                            return [order]
                        self.put(o, 'endEvent', '')
                        enter(o, '')
                        return []
                    return [order]

    def join(self, order, opens, kind, c=''):
        if len(opens) == 1:
            self.flow(opens[0], order, c)
        elif opens:
            j = order + '_join'
            self.nodes[j] = (kind, '')
            for u in opens:
                self.flow(u, j)
            self.flow(j, order, c)

    def finish(self):
        rng = self.rng
        for order, c, enter in self.gotos:
            targets = [o for o, (k, _) in self.nodes.items() if o in self.rows and o != '0' and self.rows[o] is not None]
            if not targets:
                raise Outside()
            t = rng.choice(targets)
            word = rng.choice(['goto', 'Goto', 'GOTO'])
            self.rows[order] = line(rng.choice(['%s %s', '%s  %s ', '%s %s now']) % (word, t), c)
            enter(t, c)


def blocks(rng):
    for _ in range(40):
        b = Blocks(rng)
        try:
            b.put('0', 'startEvent', '')
            b.rows['0']['Subprocess'] = rng.choice(['', 'yes'])
            b.rows['0']['Terminated'] = ''
            opens = b.sequence('', 1, rng.choice([0, 1, 2, 3]), lambda o, c: b.flow('0', o, c), True)
            if opens:
                continue
            b.finish()
            return dict(rows=b.rows, nodes=b.nodes, flows=b.flows, style=rng.random())
        except Outside:
            continue
    raise Outside()


def write(path, rows, style):
    rng = random.Random(style)
    cols = list(FIELDS)
    if rng.random() < 0.3:
        rest = cols[1:]
        rng.shuffle(rest)
        cols = cols[:1] + rest
    pad = rng.random() < 0.3
    with open(path, 'w', newline='') as f:
        w = csv.writer(f, quoting=csv.QUOTE_ALL if rng.random() < 0.2 else csv.QUOTE_MINIMAL, lineterminator=rng.choice(['\n', '\r\n']))
        w.writerow(cols)
        for o, r in rows.items():
            w.writerow([(rng.choice(['', ' ', '  ']) + o + rng.choice(['', ' ']) if pad else o) if c == 'Order' else r[c] for c in cols])


def load(rows, style):
    tmp = tempfile.mkdtemp(prefix='csv_')
    try:
        write(tmp + '/p.csv', rows, style)
        d = resolve('bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph')()
        use_side('I')
        r = outcome(d.load_diagram_from_csv_file, tmp + '/p.csv')
        return r, d
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def difference(what, got, want):
    if got == want:
        return None
    for k in sorted(set(got) | set(want)):
        if got.get(k) != want.get(k):
            return '%s %s is %r, expected %r' % (what, k, got.get(k), want.get(k))


def judge_blocks(x):
    r, d = load(x['rows'], x['style'])
    if r[0] == 'exc':
        return 'import raises %s' % show(r)
    g = d.diagram_graph
    bad = difference('node', {n: (a.get('type'), a.get('node_name')) for n, a in g.nodes(data=True)}, x['nodes'])
    if bad:
        return bad
    flows = {(a.get('sourceRef'), a.get('targetRef')): (a.get('conditionExpression') or {}).get('conditionExpression', '') for _, _, a in g.edges(data=True)}
    bad = difference('condition of flow', flows, x['flows'])
    if bad:
        return bad
    ids = {(a['sourceRef'], a['targetRef']): a['id'] for _, _, a in g.edges(data=True)}
    if len(set(ids.values())) != len(ids):
        return 'two flows share an id'
    bad = difference('flow', {k: (v['sourceRef'], v['targetRef']) for k, v in d.sequence_flows.items()}, {i: p for p, i in ids.items()})
    if bad:
        return bad
    for n, a in g.nodes(data=True):
        for key, end in (('outgoing', 0), ('incoming', 1)):
            if sorted(a[key]) != sorted(i for p, i in ids.items() if p[end] == n):
                return '%s list of %s: %s' % (key, n, a[key])
    return None


def anyrows(rng):
    """Well-formed orders, often near misses of a consistent numbering."""
    if rng.random() < 0.5:
        try:
            x = blocks(rng)
        except Outside:
            x = None
        if x:
            rows = x['rows']
            for _ in range(rng.choice([0, 1, 2])):
                o = rng.choice(list(rows))
                r = rng.random()
                if r < 0.2 and o[-1].isalpha() and o + '1' not in rows:
                    rows[o + '1'] = line(name(rng), cond(rng), '', rng.choice(['yes', '']))
                elif r < 0.3 and o != '0' and rows[o]['Terminated'] != 'yes':
                    rows[o]['Activity'] = 'goto ' + rng.choice(list(rows))
                elif r < 0.4 and len(rows) > 2:
                    del rows[o]
                elif r < 0.5:
                    rows[o]['Terminated'] = rng.choice(['yes', '', 'Yes', 'no'])
                elif r < 0.75:
                    rows[o]['Subprocess'] = rng.choice(['yes', '', 'YES'])
                else:
                    rows[o]['Condition'] = cond(rng)
            if rng.random() < 0.3:
                ks = list(rows)
                rng.shuffle(ks)
                rows = {k: rows[k] for k in ks}
            return dict(rows=rows, style=rng.random())
    rows = {}
    big = rng.choice([0, 0, 0, 8, 18, 97, 998])
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        o = ''.join(str(rng.choice([0, 1, 1, 2, 2, 3, 9, 10])) + rng.choice('aabcB') for _ in range(rng.choice([0, 0, 1, 1, 2])))
        if not o or rng.random() < 0.8:
            o += str(rng.choice([0, 1, 1, 2, 3, 4, 9, 10]) + big)
        rows[o] = line(name(rng), cond(rng), rng.choice(['', 'yes']), rng.choice(['', '', 'yes']))
    return dict(rows=rows, style=rng.random())


def judge_rows(x):
    want = resolve('bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph')()
    use_side('S')
    s = outcome(ct.load, want, copy.deepcopy(x['rows']))
    if s[0] == 'exc' and s[1] != 'BpmnPythonError':
        raise Outside()
    r, d = load(x['rows'], x['style'])
    if s[0] == 'exc' or r[0] == 'exc':
        if s[:2] != r[:2]:
            return 'import %s, expected %s' % (show(r), show(s))
        return None
    try:
        compare(d, want, Iso(), 'diagram')
    except Differ as e:
        return str(e)
    return None


def again():
    """Known finding: a goto to the line right before its split would be a second flow between one pair of nodes."""
    rows = {'0': line('start'), '1': line('a'), '2a': line('end', 'yes', end='yes'), '2b': line('goto 1', 'no')}
    r, d = load(rows, 1)
    return r[0] == 'exc' or d.diagram_graph.number_of_edges() != 4


CASES = [Case('blocks', blocks, judge_blocks, [R + 'load_diagram_from_csv_file'], weight=3),
         Case('lines', anyrows, judge_rows, [R + 'load_diagram_from_csv_file'], weight=2)]
KNOWN = [('goto-the-line-before-the-split', again)]
