"""Random well-formed BPMN 2.0 documents, written as text without the code under test."""
import os
import shutil
import tempfile
from xml.sax.saxutils import escape, quoteattr

from concrete.core import *

EVENTS = {
    'startEvent': ['message', 'timer', 'conditional', 'escalation', 'signal'],
    'intermediateCatchEvent': ['message', 'timer', 'signal', 'conditional', 'escalation'],
    'endEvent': ['message', 'signal', 'escalation', 'error', 'compensate', 'terminate'],
    'intermediateThrowEvent': ['message', 'signal', 'escalation', 'compensate'],
    'boundaryEvent': ['message', 'timer', 'signal', 'conditional', 'escalation', 'error'],
}
ALL_DEFS = ['message', 'timer', 'conditional', 'escalation', 'signal', 'error', 'compensate', 'terminate', 'link', 'cancel']


def text(rng):
    s = ''.join(c for c in rstr(rng, empty=False) if c >= ' ')
    return s if s.strip() else 'x'


class Doc:
    def __init__(self, rng, size=None, complete=False):
        self.rng, self.complete = rng, complete
        self.b = rng.choice(['', '', 'bpmn:', 'bpmn2:', 'semantic:'])
        self.di = rng.choice(['bpmndi:', 'bpmndi:', 'di2:'])
        self.dc = rng.choice(['dc:', 'omgdc:'])
        self.wp = rng.choice(['di:', 'omgdi:'])
        self.n, self.ids = 0, []
        self.left = size if size is not None else rng.choice([0, 1, 2, 3, 4, 6, 9])
        self.nodes, self.flows, self.lanes, self.parts, self.subs = [], [], [], [], []
        self.pairs = set()

    def id(self, p):
        self.n += 1
        if self.ids and self.rng.random() < 0.35:
            # an id that has another one in it, or differs from it only in case
            o = self.rng.choice(self.ids)
            i = self.rng.choice([o + '1', o + '_gui', 'x' + o, o + '_' + p, o.swapcase()])
            if i not in self.ids:
                self.ids.append(i)
                return i
        i = self.rng.choice(['%s_%d', '%s_%d', 'sid-%s-%d', '%s%d', 'id.%s_%d']) % (p, self.n)
        self.ids.append(i)
        return i

    def el(self, tag, attrs, children=(), px=None):
        rng = self.rng
        t = (self.b if px is None else px) + tag
        attrs = [(k, v) for k, v in attrs if v is not None]
        if rng.random() < 0.3:
            rng.shuffle(attrs)
        a = ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in attrs)
        if not children and rng.random() < 0.8:
            return '<%s%s/>' % (t, a)
        out = []
        for c in children:
            r = rng.random()
            if r < 0.05:
                out.append('<!-- %s -->' % rng.choice(['note', 'task', 'x y']))
            elif r < 0.07:
                out.append('<?tool keep?>')
            elif r < 0.3:
                out.append('\n  ')
            out.append(c)
        if rng.random() < 0.5:
            out.append('\n')
        return '<%s%s>%s</%s>' % (t, a, ''.join(out), t)

    def leaf(self, tag, s, attrs=()):
        t = self.b + tag
        a = ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in attrs if v is not None)
        return '<%s%s>%s</%s>' % (t, a, escape(s), t)

    def maybe(self, v, p=0.5):
        return v if self.rng.random() < p else None

    def noise(self):
        rng = self.rng
        return rng.choice([lambda: self.leaf('documentation', text(rng)), lambda: self.el('extensionElements', [], [self.el('x', [('id', 'zz')], px='ext:')]),
                           lambda: self.el('textAnnotation', [('id', self.id('ann'))], [self.leaf('text', text(rng))]),
                           lambda: self.el('association', [('id', self.id('as')), ('sourceRef', 'q'), ('targetRef', 'r')]),
                           lambda: self.el('ioSpecification', [], [self.el('inputSet', [])])])()

    def tf(self):
        return self.rng.choice(['true', 'false'])

    def node(self, depth, group):
        rng = self.rng
        t = rng.choice(TYPES)
        if t == 'subProcess' and depth >= 3:
            t = 'task'
        nid = self.id(rng.choice([t, 'n', 'Node']))
        at = [('id', nid), ('name', self.maybe(rstr(rng), 0.75))]
        node = {'id': nid, 'type': t, 'in': [], 'out': []}
        kids = []
        if t in ('task', 'userTask', 'serviceTask', 'manualTask', 'subProcess', 'inclusiveGateway', 'exclusiveGateway', 'complexGateway'):
            at.append(('default', self.maybe('flow_x', 0.3)))
        if t == 'subProcess':
            at.append(('triggeredByEvent', self.maybe(self.tf())))
        if t == 'dataObject':
            at.append(('isCollection', self.maybe(self.tf())))
        if t.endswith('Gateway'):
            at.append(('gatewayDirection', self.maybe(rng.choice(['Unspecified', 'Converging', 'Diverging', 'Mixed']))))
        if t == 'eventBasedGateway':
            at += [('instantiate', self.maybe(self.tf())), ('eventGatewayType', self.maybe(rng.choice(['Exclusive', 'Parallel'])))]
        if t in ('startEvent', 'intermediateCatchEvent', 'boundaryEvent'):
            at.append(('parallelMultiple', self.maybe(self.tf())))
        if t == 'startEvent':
            at.append(('isInterrupting', self.maybe(self.tf())))
        if t == 'boundaryEvent':
            at += [('cancelActivity', self.maybe(self.tf())), ('attachedToRef', self.maybe(rng.choice(group)['id'] if group else 'none', 0.8))]
        if t in EVENTS:
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                k = rng.choice(EVENTS[t]) if rng.random() < 0.85 else rng.choice(ALL_DEFS)
                kids.append(self.el(k + 'EventDefinition', [('id', self.maybe(self.id('def'), 0.8))],
                                    [self.leaf('timeDuration', 'PT1H')] if k == 'timer' and rng.random() < 0.5 else ()))
        node['attrs'], node['kids'] = at, kids
        self.nodes.append(node)
        group.append(node)
        if t == 'subProcess':
            self.subs.append(nid)
            node['inner'] = self.body(depth + 1)
        return node

    def body(self, depth):
        """Nodes and flows of one process or sub-process, as a function producing the text later."""
        rng = self.rng
        group, flows = [], []
        k = rng.randint(0, max(0, self.left))
        for _ in range(k):
            if self.left <= 0:
                break
            self.left -= 1
            self.node(depth, group)
        for _ in range(rng.choice([0, 1, 2, len(group)]) if group else 0):
            u, v = rng.choice(group), rng.choice(group)
            if frozenset((u['id'], v['id'])) in self.pairs or (u is v and rng.random() < 0.8):
                continue
            self.pairs.add(frozenset((u['id'], v['id'])))
            f = {'id': self.id('flow'), 'u': u, 'v': v}
            flows.append(f)
            self.flows.append(f)
            if rng.random() < 0.8:
                u['out'].append(f['id'])
            if rng.random() < 0.8:
                v['in'].append(f['id'])
        return group, flows

    def put(self, body):
        rng = self.rng
        group, flows = body
        out = []
        for n in group:
            kids = [self.leaf('incoming', x) for x in n['in']] + [self.leaf('outgoing', x) for x in n['out']] + list(n['kids'])
            if rng.random() < 0.3:
                rng.shuffle(kids)
            if rng.random() < 0.15:
                kids.insert(rng.randint(0, len(kids)), self.noise())
            if 'inner' in n:
                inner = self.put(n['inner'])
                kids = kids + inner if rng.random() < 0.8 else inner + kids
            out.append(self.el(n['type'], n['attrs'], kids))
        for f in flows:
            kids = []
            if rng.random() < 0.3:
                kids.append(self.leaf('conditionExpression', text(rng), [('id', self.maybe(self.id('cond'), 0.8))]))
            if rng.random() < 0.1:
                kids.insert(0, self.noise())
            out.append(self.el('sequenceFlow', [('id', f['id']), ('name', self.maybe(rstr(rng), 0.6)), ('sourceRef', f['u']['id']), ('targetRef', f['v']['id'])], kids))
        if rng.random() < 0.35:
            rng.shuffle(out)
        if rng.random() < 0.2:
            out.insert(rng.randint(0, len(out)), self.noise())
        return out

    def lane_set(self, tag, group, depth=0):
        rng = self.rng
        lanes = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            lid = self.id('lane')
            self.lanes.append(lid)
            kids = [self.leaf('flowNodeRef', n['id']) for n in group if rng.random() < 0.5]
            if depth < 2 and rng.random() < 0.3:
                kids.insert(rng.randint(0, len(kids)), self.lane_set('childLaneSet', group, depth + 1))
            lanes.append(self.el('lane', [('id', lid), ('name', self.maybe(rstr(rng), 0.7))], kids))
        if rng.random() < 0.1:
            lanes.insert(0, self.noise())
        return self.el(tag, [('id', self.maybe(self.id('ls'), 0.9))], lanes)

    def bounds(self):
        return self.el('Bounds', [('x', rnum(self.rng)), ('y', rnum(self.rng)), ('width', rnum(self.rng)), ('height', rnum(self.rng))], px=self.dc)

    def label(self):
        return self.el('BPMNLabel', [('id', self.maybe('lab'))], (), px=self.di)

    def build(self):
        rng = self.rng
        tops, bodies = [], []
        nproc = rng.choice([1, 1, 1, 2, 2, 3])
        pids = [self.id('Process') for _ in range(nproc)]
        for p in pids:
            bodies.append(self.body(0))
        for p, b in zip(pids, bodies):
            kids = self.put(b)
            if rng.random() < 0.3:
                kids.insert(rng.choice([0, 0, len(kids)]), self.lane_set('laneSet', b[0]))
            at = [('id', p), ('name', self.maybe(rstr(rng))), ('isClosed', self.maybe(self.tf())), ('isExecutable', self.maybe(self.tf())),
                  ('processType', self.maybe(rng.choice(['None', 'Public', 'Private'])))]
            tops.append(self.el('process', at, kids))
        cid = None
        if rng.random() < 0.5:
            cid = self.id('Collaboration')
            kids, ends = [], [n['id'] for n in self.nodes]
            boxes = []
            for p in pids:
                if rng.random() < 0.8:
                    i = self.id('Part')
                    self.parts.append(i)
                    kids.append(self.el('participant', [('id', i), ('name', self.maybe(rstr(rng), 0.8)), ('processRef', p)]))
            for _ in range(rng.choice([0, 0, 1, 2])):
                i = self.id('Pool')
                self.parts.append(i)
                boxes.append(i)
                kids.append(self.el('participant', [('id', i), ('name', self.maybe(rstr(rng), 0.8)), ('processRef', self.maybe('', 0.2))]))
            ends += boxes
            msgs = []
            for _ in range(rng.choice([0, 1, 2, 3])):
                if not ends:
                    break
                u, v = rng.choice(ends), rng.choice(ends)
                if u == v or frozenset((u, v)) in self.pairs:
                    continue
                self.pairs.add(frozenset((u, v)))
                i = self.id('Msg')
                self.flows.append({'id': i})
                msgs.append(self.el('messageFlow', [('id', i), ('name', self.maybe(rstr(rng), 0.6)), ('sourceRef', u), ('targetRef', v)]))
            kids += msgs
            if rng.random() < 0.25:
                rng.shuffle(kids)
            if rng.random() < 0.15:
                kids.insert(0, self.noise())
            tops.insert(rng.choice([0, 0, len(tops)]), self.el('collaboration', [('id', cid)], kids))
        shapes = []
        for n in [x['id'] for x in self.nodes] + self.lanes + self.parts:
            if self.complete or rng.random() < 0.9:
                at = [('id', self.id('shape')), ('bpmnElement', n)]
                if n in self.subs:
                    at.append(('isExpanded', self.maybe(self.tf(), 0.7)))
                if n in self.lanes or n in self.parts:
                    at.append(('isHorizontal', self.maybe(self.tf(), 0.7)))
                kids = [self.bounds()]
                if rng.random() < 0.2:
                    kids.append(self.label())
                shapes.append(self.el('BPMNShape', at, kids, px=self.di))
        for f in self.flows:
            if self.complete or rng.random() < 0.9:
                kids = [self.el('waypoint', [('x', rnum(rng)), ('y', rnum(rng))], px=self.wp) for _ in range(rng.choice([0, 1, 2, 2, 3, 5]))]
                if rng.random() < 0.2:
                    kids.append(self.label())
                shapes.append(self.el('BPMNEdge', [('id', self.id('edge')), ('bpmnElement', f['id'])], kids, px=self.di))
        if rng.random() < 0.4:
            rng.shuffle(shapes)
        if rng.random() < 0.2:
            shapes.insert(0, self.el('BPMNShape', [('id', self.id('shape')), ('bpmnElement', 'elsewhere')], [self.bounds()], px=self.di))
        plane = self.el('BPMNPlane', [('id', self.id('plane')), ('bpmnElement', cid or pids[0])], shapes, px=self.di)
        diagram = self.el('BPMNDiagram', [('id', self.id('diagram')), ('name', self.maybe(rstr(rng)))], [plane], px=self.di)
        tops.insert(len(tops) if rng.random() < 0.9 else 0, diagram)
        ns = {self.b: 'http://www.omg.org/spec/BPMN/20100524/MODEL', self.di: 'http://www.omg.org/spec/BPMN/20100524/DI',
              self.dc: 'http://www.omg.org/spec/DD/20100524/DC', self.wp: 'http://www.omg.org/spec/DD/20100524/DI', 'ext:': 'urn:ext'}
        at = [('xmlns' + (':' + k[:-1] if k else ''), v) for k, v in ns.items()] + [('id', 'defs'), ('targetNamespace', 'urn:t')]
        head = rng.choice(['<?xml version="1.0" encoding="UTF-8"?>\n', '', "<?xml version='1.0'?>\n<!-- made by hand -->\n"])
        return head + self.el('definitions', at, tops)


def clean(s):
    return ''.join(c for c in s if c in '\t\n' or c >= ' ')


def document(rng, size=None):
    return clean(Doc(rng, size).build())


class Scratch:
    """A directory of its own for files the code under test reads or writes."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif_xml_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def new_diagram():
    import networkx
    rep = resolve('bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph')
    d = rep.__new__(rep)
    d.diagram_graph = networkx.Graph()
    d.sequence_flows, d.process_elements, d.diagram_attributes, d.plane_attributes, d.collaboration = {}, {}, {}, {}, {}
    return d


def complete_diagram(rng):
    """A diagram ready for export with DI: read from a generated document by the contract of the import, or assembled directly."""
    if rng.random() < 0.3:
        return raw_diagram(rng, weird=False)
    from contracts.xml_import import load
    d = new_diagram()
    with Scratch() as tmp:
        p = os.path.join(tmp, 'x.bpmn')
        with open(p, 'w', encoding='utf-8') as f:
            f.write(clean(Doc(rng, complete=True).build()))
        load(d, p)
    return d


UNORDERED = ('definitions', 'process', 'subProcess', 'BPMNPlane', 'collaboration', 'laneSet', 'childLaneSet')


def local(e):
    return e.tag.split('}')[-1]


def canonical(e):
    """Order of independent siblings and white space do not matter."""
    kids = [canonical(c) for c in e]
    if local(e) in UNORDERED:
        kids.sort(key=lambda c: (local(c), c.get('id') or '', c.get('bpmnElement') or ''))
        ordered = [c for c in e if local(c) in ('incoming', 'outgoing')]
        kids = [canonical(c) for c in ordered] + [c for c in kids if local(c) not in ('incoming', 'outgoing')]
    import xml.etree.ElementTree as eTree
    r = eTree.Element(e.tag, dict(e.attrib))
    r.text = e.text if not len(e) else None
    for k in kids:
        r.append(k)
    return r


def read_tree(path):
    import xml.etree.ElementTree as eTree
    return canonical(eTree.parse(path).getroot())
