"""Concrete side of the contracts: runs the real code of /repo under CPython against the same contract functions.

Used (a) to cross-check the verifier and the contracts against the interpreter that runs the code, (b) to turn a
refuted obligation into a failing input, (c) as the bounded stand-in where a function is outside the verifier's reach.
"""
import ast
import copy
import itertools
import os
import random
import re
import signal
import sys
import time
import uuid as uuid_module

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in (HERE, os.path.join(REPO, 'bpmn_python'), REPO):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)
sys.dont_write_bytecode = True

from contracts.base import Outside      # noqa: E402


# ------------------------------------------------------------------ deterministic uuids
class FakeUuid:
    def __init__(self, tag, n):
        self.s = '@%s%05d@' % (tag, n)

    def __str__(self):
        return self.s

    __repr__ = __str__

    @property
    def hex(self):
        return self.s

    def __eq__(self, o):
        return isinstance(o, FakeUuid) and o.s == self.s

    def __hash__(self):
        return hash(self.s)


_state = {'tag': 'I', 'n': 0}


def _fake(*a, **k):
    _state['n'] += 1
    return FakeUuid(_state['tag'], _state['n'])


def use_side(tag):
    _state['tag'], _state['n'] = tag, 0


uuid_module.uuid4 = _fake
uuid_module.uuid1 = _fake
TOK = re.compile(r'@[A-Z]\d{5}@')


# ------------------------------------------------------------------ comparison up to fresh identifiers
class Differ(Exception):
    pass


class Iso:
    """Bijection between the fresh identifiers of the two sides."""

    def __init__(self, exact=False):
        self.f, self.g, self.exact = {}, {}, exact

    def clone(self):
        i = Iso(self.exact)
        i.f, i.g = dict(self.f), dict(self.g)
        return i

    def strings(self, a, b, path):
        if a == b and (self.exact or '@' not in a):
            return
        if self.exact:
            raise Differ('%s: %r / %r' % (path, a, b))
        ta, tb = TOK.findall(a), TOK.findall(b)
        if TOK.sub('@', a) != TOK.sub('@', b) or len(ta) != len(tb):
            raise Differ('%s: %r / %r' % (path, a, b))
        for x, y in zip(ta, tb):
            if self.f.get(x, y) != y or self.g.get(y, x) != x:
                raise Differ('%s: %r / %r (different identifier)' % (path, a, b))
            self.f[x] = y
            self.g[y] = x

    def fits(self, a, b):
        try:
            self.clone().strings(a, b, '')
            return True
        except Differ:
            return False


NUM = (int, float)


def norm(v):
    """Views, iterators and mappings to plain containers."""
    t = type(v).__name__
    if t in ('NodeView', 'NodeDataView', 'OutEdgeView', 'EdgeView', 'EdgeDataView', 'dict_keys', 'dict_values',
             'dict_items', 'filter', 'map', 'zip', 'generator', 'list_iterator', 'deque', 'range'):
        return list(v)
    if t in ('OrderedDict', 'Counter', 'defaultdict', 'AtlasView', 'AdjacencyView'):
        return dict(v)
    return v


def compare(a, b, iso, path='result', seen=None):
    seen = seen if seen is not None else set()
    a, b = norm(a), norm(b)
    if isinstance(a, str) and isinstance(b, str):
        iso.strings(a, b, path)
        return
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        if a is not b and not (isinstance(a, bool) and isinstance(b, bool) and a == b):
            raise Differ('%s: %r / %r' % (path, a, b))
        return
    if isinstance(a, NUM) and isinstance(b, NUM):
        if a != b and not (abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))):
            raise Differ('%s: %r / %r' % (path, a, b))
        return
    if (id(a), id(b)) in seen:
        return
    seen.add((id(a), id(b)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            raise Differ('%s: %d / %d elements: %r / %r' % (path, len(a), len(b), short(a), short(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            compare(x, y, iso, '%s[%d]' % (path, i), seen)
        return
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if sorted(map(repr, a)) != sorted(map(repr, b)):
            raise Differ('%s: %r / %r' % (path, a, b))
        return
    if isinstance(a, dict) and isinstance(b, dict):
        dicts(a, b, iso, path, seen)
        return
    if type(a).__name__ == 'Graph' and type(b).__name__ == 'Graph':
        dicts({n: d for n, d in a.nodes(data=True)}, {n: d for n, d in b.nodes(data=True)}, iso, path + '.nodes', seen)
        dicts({tuple(sorted((u, v))): d for u, v, d in a.edges(data=True)},
              {tuple(sorted((iso.g.get(u, u), iso.g.get(v, v)))): d for u, v, d in b.edges(data=True)}
              if False else {tuple(sorted((u, v))): d for u, v, d in b.edges(data=True)}, iso, path + '.edges', seen)
        return
    if type(a).__name__ == 'Element' and type(b).__name__ == 'Element':
        elements(a, b, iso, path)
        return
    if type(a) is not type(b):
        raise Differ('%s: %s / %s' % (path, short(a), short(b)))
    if hasattr(a, '__dict__'):
        dicts(vars(a), vars(b), iso, path, seen)
        return
    if a != b:
        raise Differ('%s: %r / %r' % (path, a, b))


def elements(a, b, iso, path):
    p = '%s/%s' % (path, a.tag)
    if a.tag != b.tag:
        raise Differ('%s: tag %r / %r' % (path, a.tag, b.tag))
    dicts(dict(a.attrib), dict(b.attrib), iso, p + '@', set())
    compare((a.text or '').strip(), (b.text or '').strip(), iso, p + '.text')
    ka, kb = list(a), list(b)
    if len(ka) != len(kb):
        raise Differ('%s: %d / %d children (%s / %s)' % (p, len(ka), len(kb), [x.tag for x in ka], [x.tag for x in kb]))
    for x, y in zip(ka, kb):
        elements(x, y, iso, p)


def keytext(k):
    return TOK.sub('@', repr(k))


def keyfit(iso, x, y):
    if isinstance(x, str) and isinstance(y, str):
        return iso.fits(x, y)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(keyfit(iso, p, q) for p, q in zip(x, y)) or \
            (len(x) == 2 and keyfit(iso, x[0], y[1]) and keyfit(iso, x[1], y[0]))
    return x == y


def dicts(a, b, iso, path, seen):
    fa = [] if iso.exact else [k for k in a if '@' in repr(k) and TOK.search(repr(k))]
    fb = [] if iso.exact else [k for k in b if '@' in repr(k) and TOK.search(repr(k))]
    pa, pb = set(a) - set(fa), set(b) - set(fb)
    if pa != pb:
        raise Differ('%s: keys only in implementation %r, only in contract %r' %
                     (path, sorted(map(str, pa - pb))[:5], sorted(map(str, pb - pa))[:5]))
    for k in a:
        if k in pa:
            compare(a[k], b[k], iso, '%s[%r]' % (path, k), seen)
    if len(fa) != len(fb):
        raise Differ('%s: %d / %d fresh keys' % (path, len(fa), len(fb)))
    if not fa:
        return
    err = None
    for n, perm in enumerate(itertools.permutations(fb)):
        if n > 720:
            break
        if not all(keyfit(iso, x, y) for x, y in zip(fa, perm)):
            err = err or Differ('%s: fresh keys %r / %r' % (path, fa, fb))
            continue
        it = iso.clone()
        try:
            for x, y in zip(fa, perm):
                if isinstance(x, str):
                    it.strings(x, y, path + ' key')
                compare(a[x], b[y], it, '%s[%r]' % (path, x), set())
            iso.f, iso.g = it.f, it.g
            return
        except Differ as e:
            err = e
    raise err


def short(v):
    r = repr(v)
    return r if len(r) < 300 else r[:300] + '...'


# ------------------------------------------------------------------ outcomes
class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def limited(f, seconds=5):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def outcome(f, *a, **k):
    try:
        return ('ret', limited(lambda: f(*a, **k)))
    except Timeout:
        return ('exc', 'Timeout', 'does not return')
    except RecursionError as e:
        return ('exc', 'RecursionError', '')
    except Outside:
        raise
    except Exception as e:
        return ('exc', type(e).__name__, str(e)[:200])


def resolve(dotted):
    mod, _, attr = dotted.partition(':')
    m = __import__(mod, fromlist=['x'])
    for x in attr.split('.'):
        m = getattr(m, x)
    return m


class Missing(Exception):
    pass


# ------------------------------------------------------------------ literals of the current source
def mine():
    strs, ints = set(), set()
    base = os.path.join(REPO, 'bpmn_python')
    for root, _, files in os.walk(base):
        for f in files:
            if not f.endswith('.py'):
                continue
            try:
                t = ast.parse(open(os.path.join(root, f)).read())
            except SyntaxError:
                continue
            docs = set()
            for n in ast.walk(t):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    docs.add(id(n.value))
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and id(n) not in docs:
                    if isinstance(n.value, str) and 0 < len(n.value) < 40:
                        strs.add(n.value)
                    elif isinstance(n.value, int) and not isinstance(n.value, bool) and abs(n.value) < 10000:
                        ints.add(n.value)
    return sorted(strs), sorted(ints)


STRS, INTS = mine()
WORDS = ['a', 'b', 'ab', 'Check order', 'x1', 'x2', 'A', 'é', 'task 1', 'none', '0', '7', 'id', 'n', 'yes', 'no',
         'two words', '<&>', 'True', ' ', 'p', 'q']
TYPES = ['task', 'userTask', 'serviceTask', 'manualTask', 'subProcess', 'dataObject', 'complexGateway',
         'eventBasedGateway', 'inclusiveGateway', 'exclusiveGateway', 'parallelGateway', 'startEvent',
         'intermediateCatchEvent', 'endEvent', 'intermediateThrowEvent', 'boundaryEvent']


def rstr(rng, empty=True):
    r = rng.random()
    if empty and r < 0.12:
        return ''
    if r < 0.35:
        return rng.choice(STRS)
    if r < 0.8:
        return rng.choice(WORDS)
    if r < 0.9:
        return ''.join(rng.choice('abcxyzABC019_- .') for _ in range(rng.randint(1, 8)))
    if r < 0.95:
        return rng.choice(WORDS) * rng.randint(2, 14)
    return rng.choice(STRS) + rng.choice(WORDS)


def rnum(rng):
    """A numeral as text, for coordinates and sizes."""
    r = rng.random()
    if r < 0.6:
        return str(rng.randint(0, 40) * 10)
    if r < 0.75:
        return str(rng.randint(-50, 900))
    if r < 0.9:
        return str(rng.randint(0, 4000) / 4.0)
    return str(rng.choice(INTS))


def rbool(rng):
    return rng.random() < 0.5


# ------------------------------------------------------------------ diagrams
def raw_diagram(rng, nodes=None, flows=None, types=None, weird=True, di=True, acyclic=False, processes=None):
    """A consistent diagram, assembled directly (not through the code under test)."""
    import networkx
    rep = resolve('bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph')
    d = rep.__new__(rep)
    d.diagram_graph = g = networkx.Graph()
    d.sequence_flows = {}
    d.process_elements = {}
    d.diagram_attributes = {'id': 'diagram_1', 'name': rstr(rng)}
    d.plane_attributes = {'id': 'plane_1', 'bpmnElement': 'process_0'}
    d.collaboration = {}
    np_ = processes if processes is not None else rng.choice([1, 1, 1, 2, 3])
    pids = ['process_%d' % i for i in range(np_)]
    for i, p in enumerate(pids):
        d.process_elements[p] = {'id': p, 'name': rstr(rng), 'isClosed': rng.choice(['true', 'false']),
                                 'isExecutable': rng.choice(['true', 'false']), 'processType': rng.choice(['None', 'Public', 'Private']),
                                 'node_ids': []}
    n = nodes if nodes is not None else rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12])
    ids = []
    for i in range(n):
        r = rng.random()
        nid = 'n%d' % i if r < 0.8 else rng.choice(STRS) + '_%d' % i
        ids.append(nid)
        p = rng.choice(pids) if pids else 'process_0'
        t = rng.choice(types or TYPES)
        a = {'id': nid, 'type': t, 'node_name': rstr(rng), 'process': p, 'incoming': [], 'outgoing': []}
        if di:
            a.update(width=rnum(rng), height=rnum(rng), x=rnum(rng), y=rnum(rng))
        a.update(type_attrs(rng, t, ids))
        if p in d.process_elements:
            d.process_elements[p]['node_ids'].append(nid)
        g.add_node(nid, **a)
    m = flows if flows is not None else rng.choice([0, 1, 2, 3, n, n + 2])
    for k in range(m if n else 0):
        i, j = rng.randrange(n), rng.randrange(n)
        if acyclic and i > j:
            i, j = j, i
        u, v = ids[i], ids[j]
        if g.has_edge(u, v) or (u == v and (acyclic or rng.random() < 0.9)):
            continue
        fid = 'flow_%d' % k
        name = rstr(rng)
        e = {'id': fid, 'name': name, 'process': g.nodes[u]['process'], 'sourceRef': u, 'targetRef': v}
        if di:
            e['waypoints'] = [(rnum(rng), rnum(rng)) for _ in range(rng.choice([2, 2, 3, 4, 5]))]
        if rng.random() < 0.25:
            e['conditionExpression'] = {'id': 'cond_%d' % k, 'conditionExpression': rstr(rng)}
        g.add_edge(u, v, **e)
        d.sequence_flows[fid] = {'name': name, 'sourceRef': u, 'targetRef': v}
        g.nodes[u]['outgoing'].append(fid)
        g.nodes[v]['incoming'].append(fid)
    if weird and n and rng.random() < 0.1:
        g.nodes[rng.choice(ids)]['process'] = rstr(rng)
    return d


EVDEFS = ['messageEventDefinition', 'timerEventDefinition', 'signalEventDefinition', 'conditionalEventDefinition',
          'escalationEventDefinition', 'terminateEventDefinition', 'errorEventDefinition', 'compensateEventDefinition']


def type_attrs(rng, t, ids):
    tf = lambda: rng.choice(['true', 'false'])
    a = {}
    if t == 'subProcess':
        a.update(isExpanded=tf(), triggeredByEvent=tf())
    elif t == 'dataObject':
        a.update(isCollection=tf())
    elif t.endswith('Gateway'):
        a.update(gatewayDirection=rng.choice(['Unspecified', 'Converging', 'Diverging', 'Mixed']))
        if t in ('inclusiveGateway', 'exclusiveGateway', 'complexGateway'):
            a['default'] = rng.choice([None, 'flow_0', 'flow_1', 'flow_9'])
        if t == 'eventBasedGateway':
            a.update(instantiate=tf(), eventGatewayType=rng.choice(['Exclusive', 'Parallel']))
    elif t.endswith('Event'):
        a['event_definitions'] = [{'id': 'def_%d_%d' % (len(ids), i), 'definition_type': rng.choice(EVDEFS)}
                                  for i in range(rng.choice([0, 0, 1, 1, 2]))]
        if t == 'startEvent':
            a.update(parallelMultiple=tf(), isInterrupting=tf())
        elif t == 'intermediateCatchEvent':
            a.update(parallelMultiple=tf())
        elif t == 'boundaryEvent':
            a.update(parallelMultiple=tf(), cancelActivity=tf(), attachedToRef=rng.choice(ids))
    return a


def describe(v):
    if type(v).__name__ == 'BpmnDiagramGraph':
        return {'nodes': [(n, dict(a)) for n, a in v.diagram_graph.nodes(data=True)],
                'edges': [(x, y, dict(a)) for x, y, a in v.diagram_graph.edges(data=True)],
                'sequence_flows': v.sequence_flows, 'process_elements': v.process_elements,
                'diagram_attributes': v.diagram_attributes, 'plane_attributes': v.plane_attributes,
                'collaboration': v.collaboration}
    if isinstance(v, (list, tuple)):
        return [describe(x) for x in v]
    if isinstance(v, dict):
        return {str(k): describe(x) for k, x in v.items()}
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    return repr(v)


# ------------------------------------------------------------------ cases
class Case:
    """make(rng) -> input; judge(input) -> None (held) or text describing the failure; raises Outside to skip."""

    def __init__(self, name, make, judge, needs=(), weight=1):
        self.name, self.make, self.judge, self.needs, self.weight = name, make, judge, needs, weight

    def missing(self):
        for n in self.needs:
            try:
                resolve(n)
            except (ImportError, AttributeError):
                return n
        return None


def contract(name, impl, spec, make, roots=True, result=True, exc=True, api=True, weight=1):
    """make(rng) -> (args, kwargs); args and everything reachable is compared after the call."""
    def judge(inp):
        f, g = resolve(impl), resolve(spec)
        (a1, k1), (a2, k2) = copy.deepcopy(inp), copy.deepcopy(inp)
        use_side('S')
        r2 = outcome(g, *a2, **k2)
        use_side('I')
        r1 = outcome(f, *a1, **k1)
        iso = Iso()
        if r1[0] != r2[0]:
            return 'implementation %s, contract %s' % (show(r1), show(r2))
        if r1[0] == 'exc':
            if exc and r1[1] != r2[1]:
                return 'implementation %s, contract %s' % (show(r1), show(r2))
        try:
            if r1[0] == 'ret' and result:
                compare(r1[1], r2[1], iso, 'result')
            if roots:
                compare([list(a1), k1], [list(a2), k2], iso, 'state')
        except Differ as e:
            return str(e)
        return None
    return Case(name, make, judge, [impl], weight)


def show(r):
    return 'raises %s(%s)' % (r[1], r[2]) if r[0] == 'exc' else 'returns %s' % short(describe(r[1]))


def run_cases(cases, seed, budget, max_each=100000, min_each=1, stop_on=3):
    """Round robin over the cases until the budget is used."""
    res = {c.name: {'cases': 0, 'outside': 0, 'missing': None} for c in cases}
    fails = []
    distinct = set()
    samples = []
    live = []
    for c in cases:
        m = c.missing()
        if m:
            res[c.name]['missing'] = m
        else:
            live.append(c)
    t0 = time.time()
    i = 0
    bad = set()
    while live and (time.time() - t0 < budget or i < min_each) and i < max_each:
        for c in live:
            if c.name in bad:
                continue
            for w in range(c.weight):
                rng = random.Random('%s|%s|%d|%d' % (seed, c.name, i, w))
                try:
                    inp = c.make(rng)
                    shown = describe(inp)
                    shot = short(shown)
                    why = c.judge(inp)
                except Outside:
                    res[c.name]['outside'] += 1
                    continue
                except Exception as e:
                    # the oracle cannot judge this input; only when that is the rule is the result at fault
                    res[c.name]['errors'] = n = res[c.name].get('errors', 0) + 1
                    res[c.name]['error'] = '%s: %s' % (type(e).__name__, str(e)[:200])
                    if n > 20 and n > res[c.name]['cases'] // 4 and not isinstance(e, RuntimeError):
                        fails.append({'case': c.name, 'seed': seed, 'index': i, 'sub': w, 'why': 'result cannot be judged: %s' % res[c.name]['error'],
                                      'input': shown})
                        bad.add(c.name)
                        break
                    continue
                res[c.name]['cases'] += 1
                h = hash((c.name, repr(shown)))
                if h not in distinct:
                    distinct.add(h)
                    if len(samples) < 6:
                        samples.append({'case': c.name, 'input': shot})
                if why:
                    rng = random.Random('%s|%s|%d|%d' % (seed, c.name, i, w))
                    fails.append({'case': c.name, 'seed': seed, 'index': i, 'sub': w, 'why': why[:1500],
                                  'input': describe(c.make(rng))})
                    bad.add(c.name)
                    break
            if time.time() - t0 > budget and i >= min_each:
                break
        i += 1
        if len(bad) == len(live):
            break
        if fails and len(fails) >= stop_on:
            break
    return res, fails, len(distinct), samples
