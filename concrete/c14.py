from concrete.core import *
from contracts.model import MODEL, KIND, path_of


def new(cls, rng=None):
    c = resolve(path_of(cls))
    if cls in ('MessageFlow', 'SequenceFlow'):
        return c('s', 't')
    return c()


def is_kind(v, cls):
    return type(v).__name__ in KIND.get(cls, [cls]) and type(v).__module__.startswith('bpmn_python')


def accepts(rule, v):
    """(accepted?, error class)"""
    if isinstance(rule, list):
        if not isinstance(v, str):
            return False, 'TypeError'
        return v in rule, 'ValueError'
    if rule.endswith('?'):
        if v is None:
            return True, ''
        rule = rule[:-1]
    if rule == 'str':
        return isinstance(v, str), 'TypeError'
    if rule == 'bool':
        return isinstance(v, bool), 'TypeError'
    if rule.startswith('list:'):
        if not isinstance(v, list):
            return False, 'TypeError'
        k = rule[5:]
        return all(isinstance(x, str) if k == 'str' else is_kind(x, k) for x in v), 'TypeError'
    return is_kind(v, rule), 'TypeError'


def value(rng, rule, depth=0):
    r = rng.random()
    if r < 0.5:         # an acceptable one
        if isinstance(rule, list):
            return rng.choice(rule)
        if rule.endswith('?'):
            rule = rule[:-1]
            if rng.random() < 0.3:
                return None
        if rule == 'str':
            return rstr(rng)
        if rule == 'bool':
            return rbool(rng)
        if rule.startswith('list:'):
            k = rule[5:]
            out = [rstr(rng) if k == 'str' else new(rng.choice(KIND.get(k, [k]))) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
            if rng.random() < 0.4:
                out.insert(rng.randrange(len(out) + 1), rng.choice([None, 3, 'x', 1.5, True, b'x', new('Participant'), new('BaseElement'), ['a']]))
            return out
        return new(rule)
    return rng.choice([None, rstr(rng), rng.randint(-3, 9), 0, 1, True, False, 1.5, [], ['a'], [1], {}, {'a': 1}, (), ('a',), b'x', '',
                       object, new('Lane'), new('LaneSet'), new('Task'), new('Participant'), new('ConditionExpression'),
                       'None', 'Mixed', 'Public', [new('Lane')], [new('LaneSet')], [new('Task'), 'x'], [None], set(['a'])])


def make(rng):
    cls = rng.choice(list(MODEL))
    return (cls, rng.getrandbits(48))


def view(o, cls):
    return {f: getattr(o, t[0])() for f, t in MODEL[cls][1].items()}


def eqv(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, int, float, bool, tuple, dict, bytes)):
        return a == b
    return False


def judge(inp):
    cls, seed = inp
    rng = random.Random(seed)
    fields = MODEL[cls][1]
    if cls in ('MessageFlow', 'SequenceFlow'):
        a, b = value(rng, 'str'), value(rng, 'str')
        r = outcome(resolve(path_of(cls)), a, b)
        ok = isinstance(a, str) and isinstance(b, str)
        if (r[0] == 'ret') != ok:
            return '%s(%r, %r): %s' % (cls, a, b, show(r))
        if not ok:
            return None if r[1] == 'TypeError' else show(r)
        o, ctor = r[1], [a, b]
    else:
        o, ctor = resolve(path_of(cls))(), []
    other = new(cls)
    expect = {}
    for f, (g, s, init, rule) in fields.items():
        expect[f] = ctor[int(init[5:])] if isinstance(init, str) and init.startswith('ctor:') else init
    other_view = view(other, cls)
    hist = []
    for step in range(rng.choice([1, 3, 8, 15])):
        for f in fields:
            got = getattr(o, fields[f][0])()
            if not eqv(got, expect[f]):
                return '%s.%s() is %r, expected %r after %r' % (cls, fields[f][0], got, expect[f], hist[-4:])
        f = rng.choice(list(fields))
        g, s, init, rule = fields[f]
        v = value(rng, rule)
        ok, err = accepts(rule, v)
        hist.append((s, v))
        r = outcome(getattr(o, s), v)
        if (r[0] == 'ret') != ok:
            return '%s.%s(%r): %s, expected %s' % (cls, s, v, show(r), 'acceptance' if ok else err)
        if not ok and r[1] != err:
            return '%s.%s(%r): %s, expected %s' % (cls, s, v, show(r), err)
        if ok:
            expect[f] = v
    for f in fields:
        got = getattr(o, fields[f][0])()
        if not eqv(got, expect[f]):
            return '%s.%s() is %r, expected %r after %r' % (cls, fields[f][0], got, expect[f], hist[-4:])
        if isinstance(got, list) and got is getattr(other, fields[f][0])():
            return '%s.%s() is shared between instances' % (cls, fields[f][0])
    return None


CASES = [Case('setters', make, judge, [path_of(c) for c in MODEL])]
