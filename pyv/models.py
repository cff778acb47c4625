"""Trusted models of builtins and libraries (each is part of the stated trusted base)."""
import errno as _errno
import math as _math
import re as _re
import string as _string
import z3
from .core import *
from .ops import *
from .interp import *

UNIT = None


def bi(name):
    def d(f):
        return Builtin(name, f)
    return d


# ------------------------------------------------------------------ python types
def install(ip):
    ctx = ip.ctx
    B_ = {}
    obj = ClassVal('object', [], {})
    obj.mro = lambda: [obj]
    B_['object'] = obj
    ip.types = {}

    def ty(name, host=None, bases=None):
        c = ClassVal(name, bases or [obj], {}, 'builtins', host)
        ip.types[name] = c
        B_[name] = c
        return c

    # exceptions
    def exc(name, base):
        c = ClassVal(name, [base], {}, 'builtins', host_exc)
        B_[name] = c
        ip.excs[name] = c
        return c

    def host_exc(ip, cls, args, kw):
        r = ip.ctx.alloc(InstRec(cls, {'args': tuple(args)}))
        init = None
        for c in cls.mro():
            if '__init__' in c.attrs:
                init = c.attrs['__init__']
                break
        if init is not None:
            ip.call(ip.bind(init, r), args, kw)
        if 'OSError' in [c.name for c in cls.mro()] and args:
            ip.setattr_raw(r, 'errno', args[0])
        return r
    be = exc('BaseException', obj)
    ex = exc('Exception', be)
    for n in ('TypeError', 'ValueError', 'AttributeError', 'NameError', 'StopIteration', 'AssertionError',
              'RuntimeError', 'OSError'):
        exc(n, ex)
    exc('UnboundLocalError', ip.excs['NameError'])
    le = exc('LookupError', ex)
    exc('KeyError', le)
    exc('IndexError', le)
    ae = exc('ArithmeticError', ex)
    exc('ZeroDivisionError', ae)
    exc('NotImplementedError', ip.excs['RuntimeError'])
    exc('RecursionError', ip.excs['RuntimeError'])
    exc('FileExistsError', ip.excs['OSError'])
    B_['IOError'] = B_['EnvironmentError'] = ip.excs['OSError']
    exc('NetworkXError', ex)
    ip.exc_class = lambda n: ip.excs[n]

    def h_str(ip, cls, args, kw):
        return ip.to_str(args[0]) if args else ''

    def h_int(ip, cls, args, kw):
        if not args:
            return 0
        v = ip.force(args[0])
        k = kind_of(v)
        if k == 'bool':
            return mk('int', z3.If(zt(v), z3.IntVal(1), z3.IntVal(0)))
        if k == 'int':
            return v
        if k == 'real':
            if isinstance(v, float):
                return int(v)
            t = v.t
            if z3.is_app(t) and t.decl().name() == 'sqrt' and z3.is_to_real(t.arg(0)):
                return isqrt_of(ip, t.arg(0).arg(0))
            return mk('int', z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
        if k == 'str':
            if isinstance(v, str):
                try:
                    return int(v)
                except ValueError:
                    ip.throw('ValueError', 'invalid literal for int()')
            return Sym('int', str_to_int(ip, v.t))
        if v is None or isinstance(v, (Ref, tuple)):
            ip.throw('TypeError', 'int() argument')
        raise Unsup('int()')

    def h_float(ip, cls, args, kw):
        if not args:
            return 0.0
        v = ip.force(args[0])
        k = kind_of(v)
        if k == 'real':
            return v
        if k in ('int', 'bool'):
            if not isinstance(v, Sym):
                return float(v)
            t = v.t if k == 'int' else z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            return mk('real', z3.ToReal(t))
        if k == 'str':
            if isinstance(v, str):
                try:
                    return float(v)
                except ValueError:
                    ip.throw('ValueError', 'could not convert string to float')
            return Sym('real', ip.ctx.fn('str.to_real', S, R)(v.t))
        if v is None or isinstance(v, (Ref, tuple)):
            ip.throw('TypeError', 'float() argument')
        raise Unsup('float()')

    def h_bool(ip, cls, args, kw):
        if not args:
            return False
        c = ip.truth_term(args[0])
        return c if isinstance(c, bool) else mk('bool', c)

    def h_list(ip, cls, args, kw):
        if not args:
            return ip.mklist()
        a0 = ip.force(args[0])
        if isinstance(a0, Ref) and isinstance(ip.ctx.get(a0), InstRec) and (
                ip.ctx.get(a0).cls is getattr(ip, 'pathcls', 0) or '__opaque_list__' in ip.ctx.get(a0).cls.attrs):
            f = ip.ctx.get(a0).cls.attrs.get('__opaque_list__')
            return f(ip, a0) if callable(f) else ip.ctx.alloc(ip.ctx.get(a0))
        return ip.ctx.alloc(ListRec(ip.freeze_segs(ip.iter_segs(args[0]))))

    def h_tuple(ip, cls, args, kw):
        if not args:
            return ()
        segs = ip.iter_segs(args[0])
        if all(isinstance(s, Lit) for s in segs):
            return tuple(s.v for s in segs)
        return ip.ctx.alloc(ListRec(ip.freeze_segs(segs), 'tuple'))

    def h_set(ip, cls, args, kw):
        if not args:
            return ip.mklist(kind='set')
        return ip.ctx.alloc(ListRec(ip.freeze_segs(ip.iter_segs(args[0])), 'set'))

    def h_dict(ip, cls, args, kw):
        r = ip.mkdict()
        if args:
            ip.call(ip.getattr(r, 'update'), [args[0]])
        for k, v in kw.items():
            ip.dict_set(r, k, v)
        return r

    ty('str', h_str)
    it = ty('int', h_int)
    ty('float', h_float)
    ty('bool', h_bool, [it])
    ty('list', h_list)
    ty('tuple', h_tuple)
    ty('set', h_set)
    ty('frozenset', h_set)
    ty('dict', h_dict)
    ty('NoneType')
    ty('type')
    ty('function')

    # ---------------------------------------------------------------- functions
    def reg(name):
        def d(f):
            B_[name] = Builtin(name, f)
            return f
        return d

    @reg('len')
    def _len(ip, a, k):
        return ip.length(a[0])

    @reg('print')
    def _print(ip, a, k):
        return None

    @reg('super')
    def _super(ip, a, k):
        if len(a) == 2:
            return SuperVal(a[0], a[1])
        raise Unsup('super')

    for n in ('staticmethod', 'classmethod', 'property'):
        B_[n] = Builtin(n, lambda ip, a, k, n=n: {'staticmethod': Static, 'classmethod': ClsMethod,
                                                  'property': Prop}[n](a[0]))

    @reg('isinstance')
    def _isinstance(ip, a, k):
        return ip.isinst(ip.force(a[0]), a[1])

    @reg('issubclass')
    def _issub(ip, a, k):
        cs = a[1] if isinstance(a[1], tuple) else (a[1],)
        return any(c in a[0].mro() for c in cs)

    @reg('type')
    def _type(ip, a, k):
        return ip.type_of(ip.force(a[0]))
    ip.types['type'] = B_['type']

    @reg('callable')
    def _callable(ip, a, k):
        return isinstance(a[0], (FuncVal, Builtin, Bound, ClassVal))

    @reg('getattr')
    def _getattr(ip, a, k):
        try:
            return ip.getattr(a[0], a[1])
        except PyRaise as e:
            if len(a) == 3 and ip.exc_matches(e.val, ip.excs['AttributeError']):
                return a[2]
            raise

    @reg('setattr')
    def _setattr(ip, a, k):
        ip.setattr(a[0], a[1], a[2])

    @reg('hasattr')
    def _hasattr(ip, a, k):
        try:
            ip.getattr(a[0], a[1])
            return True
        except PyRaise as e:
            if ip.exc_matches(e.val, ip.excs['AttributeError']):
                return False
            raise

    @reg('range')
    def _range(ip, a, k):
        a = [ip.force(x) for x in a]
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if any(kind_of(x) not in ('int', 'bool') for x in (lo, hi, st)):
            ip.throw('TypeError', 'range() integer expected')
        if not any(isinstance(x, Sym) for x in (lo, hi, st)):
            return ip.mklist(list(range(lo, hi, st)), 'range')
        if not isinstance(st, int) or st == 0:
            raise Unsup('range step')
        l, h = zt(lo), zt(hi)
        if st == 1:
            n = z3.If(h > l, h - l, z3.IntVal(0))
        elif st == -1:
            n = z3.If(l > h, l - h, z3.IntVal(0))
        else:
            raise Unsup('range step')
        n = z3.simplify(n)
        if not ip.ctx.feasible(h < l if st == 1 else l < h):
            n = z3.simplify(h - l if st == 1 else l - h)
        if ip.ctx.is_valid(n <= 24):
            # few values: split instead of summarising
            c = ip.ctx.choose([n == m for m in range(25)])
            return ip.mklist([mk('int', z3.simplify(l + m * st)) for m in range(c)], 'range')
        g = BaseGen(n, lambda c, ar, t: mk('int', ar[0] + t * st), [l])
        return ip.ctx.alloc(ListRec([g], 'range'))

    @reg('enumerate')
    def _enumerate(ip, a, k):
        start = a[1] if len(a) > 1 else k.get('start', 0)
        segs = ip.iter_segs(a[0])
        out = []
        off = start
        for s in segs:
            if isinstance(s, Lit):
                out.append(Lit((off, s.v)))
                off = ip.binop('+', off, 1)
            elif isinstance(s, Gen) and ip.one_each(s):
                out.append(IndexedGen(ip, s, zt(off)))
                off = ip.binop('+', off, mk('int', s.n))
            else:
                raise Unsup('enumerate of filtered sequence')
        return ip.ctx.alloc(ListRec(out, 'iter'))

    @reg('zip')
    def _zip(ip, a, k):
        ss = [ip.iter_segs(x) for x in a]
        if all(all(isinstance(s, Lit) for s in x) for x in ss):
            return ip.mklist([tuple(y.v for y in t) for t in zip(*ss)], 'iter')
        if all(len(x) == 1 and isinstance(x[0], Gen) and ip.one_each(x[0]) for x in ss):
            n = ss[0][0].n
            for x in ss[1:]:
                n = z3.If(x[0].n < n, x[0].n, n)
            return ip.ctx.alloc(ListRec([ZipGen(ip, [x[0] for x in ss], z3.simplify(n))], 'iter'))
        raise Unsup('zip')

    @reg('reversed')
    def _reversed(ip, a, k):
        segs = ip.iter_segs(a[0])
        out = []
        for s in reversed(segs):
            if isinstance(s, Lit):
                out.append(s)
            elif isinstance(s, Gen) and ip.one_each(s):
                ip.ctx.mirror(s.n)
                out.append(RevGen(s))
            else:
                raise Unsup('reversed of filtered sequence')
        return ip.ctx.alloc(ListRec(out, 'iter'))

    def quant(want):
        def f(ip, a, k):
            segs = ip.iter_segs(a[0])
            if all(isinstance(s, Lit) for s in segs):
                ts = [ip.truth_term(s.v) for s in segs]
                ts = [mk('bool', t) if not isinstance(t, bool) else t for t in ts]
                return ip.disj(ts) if want else ip.conj(ts)

            def body(v):
                if ip.truth(v) == want:
                    raise BreakEx()
            try:
                ip.run_loop(segs, body)
            except BreakEx:
                return want
            return not want
        return f
    B_['any'] = Builtin('any', quant(True))
    B_['all'] = Builtin('all', quant(False))

    @reg('sum')
    def _sum(ip, a, k):
        start = a[1] if len(a) > 1 else k.get('start', 0)
        segs = ip.iter_segs(a[0])
        box = ip.ctx.alloc(InstRec(ip.boxcls, {'acc': start}))

        def body(v):
            ip.setattr_raw(box, 'acc', ip.binop('+', ip.getattr(box, 'acc'), v))
        ip.run_loop(segs, body)
        return ip.getattr(box, 'acc')
    ip.boxcls = ClassVal('box', [obj], {})

    def minmax(op):
        def f(ip, a, k):
            if len(a) == 1:
                segs = ip.iter_segs(a[0])
                if not all(isinstance(s, Lit) for s in segs):
                    raise Unsup('min/max of symbolic sequence')
                vals = [s.v for s in segs]
            else:
                vals = list(a)
            if not vals:
                if 'default' in k:
                    return k['default']
                ip.throw('ValueError', 'empty sequence')
            key = k.get('key')
            kv = [ip.call(key, [v]) if key is not None else v for v in vals]
            best, bk = vals[0], kv[0]
            for v, x in zip(vals[1:], kv[1:]):
                c = ip.compare('Lt' if op == 'min' else 'Gt', x, bk)
                if isinstance(c, bool):
                    if c:
                        best, bk = v, x
                elif key is None and kind_of(v) and kind_of(v) == kind_of(best):
                    best = bk = mk(kind_of(v), z3.If(c.t, zt(v), zt(best)))
                elif key is None and is_num(v) and is_num(best):
                    kk, tv, tb = num_pair(v, best)
                    best = bk = mk(kk, z3.If(c.t, tv, tb))
                elif ip.truth(c):
                    best, bk = v, x
            return best
        return f
    B_['min'] = Builtin('min', minmax('min'))
    B_['max'] = Builtin('max', minmax('max'))

    @reg('abs')
    def _abs(ip, a, k):
        v = a[0]
        if not isinstance(v, Sym):
            return abs(v)
        return mk(v.k, z3.If(v.t >= 0, v.t, -v.t))

    @reg('round')
    def _round(ip, a, k):
        if not any(isinstance(x, Sym) for x in a):
            return round(*a)
        raise Unsup('round')

    @reg('iter')
    def _iter(ip, a, k):
        return ip.ctx.alloc(ListRec(ip.iter_segs(a[0]), 'iter'))

    @reg('next')
    def _next(ip, a, k):
        v = ip.force(a[0])
        rec = ip.ctx.get(v)
        segs = list(rec.segs)
        while segs:
            if isinstance(segs[0], Lit):
                ip.ctx.put(v, ListRec(segs[1:], rec.kind))
                return segs[0].v
            if not isinstance(segs[0], Gen):
                raise PoisonRead(('list', segs[0].oid))
            r = ip.first_emitted(segs[0])
            if r is not None:
                ip.ctx.put(v, ListRec([OffGen(segs[0], r[1] + 1, segs[0].n - r[1] - 1)] + segs[1:], rec.kind))
                return r[0]
            segs.pop(0)
        if len(a) > 1:
            return a[1]
        ip.throw('StopIteration')

    @reg('filter')
    def _filter(ip, a, k):
        acc = ip.mklist(kind='iter')

        def body(v):
            if ip.truth(ip.call(a[0], [v]) if a[0] is not None else v):
                r = ip.ctx.get(acc)
                ip.ctx.put(acc, ListRec(r.segs + (Lit(v),), 'iter'))
        ip.run_loop(ip.iter_segs(a[1]), body)
        return acc

    @reg('map')
    def _map(ip, a, k):
        acc = ip.mklist(kind='iter')
        if len(a) != 2:
            raise Unsup('map')

        def body(v):
            x = ip.call(a[0], [v])
            r = ip.ctx.get(acc)
            ip.ctx.put(acc, ListRec(r.segs + (Lit(x),), 'iter'))
        ip.run_loop(ip.iter_segs(a[1]), body)
        return acc

    @reg('sorted')
    def _sorted(ip, a, k):
        segs = ip.iter_segs(a[0])
        if not all(isinstance(s, Lit) for s in segs):
            raise Unsup('sorting a symbolic sequence')
        return ip.mklist(ip.sort_vals([s.v for s in segs], k.get('key'), k.get('reverse', False)))

    @reg('repr')
    def _repr(ip, a, k):
        v = ip.force(a[0])
        if not isinstance(v, Sym) and kind_of(v):
            return repr(v)
        raise Unsup('repr')

    @reg('open')
    def _open(ip, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if 'w' not in mode:
            raise Unsup('reading files')
        f = ip.ctx.alloc(InstRec(ip.filecls, {'path': a[0], 'writes': ip.mklist(), 'closed': False}))
        ip.ctx.trace.append(('open', a[0], f))
        if getattr(ip, 'write_log', None) is not None:
            ip.call(ip.getattr(ip.write_log, 'append'), [f])
        return f

    def f_write(ip, a, k):
        w = ip.ctx.get(a[0]).attrs['writes']
        r = ip.ctx.get(w)
        if kind_of(a[1]) != 'str':
            ip.throw('TypeError', 'write() argument must be str')
        ip.ctx.put(w, ListRec(r.segs + (Lit(a[1]),)))

    def f_close(ip, a, k):
        ip.setattr_raw(a[0], 'closed', True)
    ip.filecls = ClassVal('file', [obj], {'write': Builtin('file.write', f_write),
                                          'close': Builtin('file.close', f_close),
                                          '__enter__': Builtin('file.__enter__', lambda ip, a, k: a[0]),
                                          '__exit__': Builtin('file.__exit__', lambda ip, a, k: f_close(ip, a, k))})
    for n in ('True', 'False', 'None', 'NotImplemented'):
        pass
    ip.builtins = B_
    ip.default_factories = {}

    # ---------------------------------------------------------------- library modules
    mm = ip.model_modules
    mm['errno'] = {k: getattr(_errno, k) for k in dir(_errno) if k.isupper()}
    mm['string'] = {k: getattr(_string, k) for k in ('ascii_lowercase', 'ascii_uppercase', 'ascii_letters', 'digits')}
    mm['six'] = {'string_types': (ip.types['str'],), 'text_type': ip.types['str'],
                 'iteritems': Builtin('six.iteritems', lambda ip, a, k: ip.call(ip.getattr(a[0], 'items'), []))}
    mm['uuid'] = {'uuid4': Builtin('uuid.uuid4', uuid4), 'uuid1': Builtin('uuid.uuid1', uuid4)}
    mm['math'] = {'sqrt': Builtin('math.sqrt', m_sqrt), 'floor': Builtin('math.floor', m_floor),
                  'isqrt': Builtin('math.isqrt', m_isqrt)}
    mm['copy'] = {'deepcopy': Builtin('copy.deepcopy', deepcopy), 'copy': Builtin('copy.copy', shallow)}
    mm['os'] = {'makedirs': Builtin('os.makedirs', makedirs)}
    mm['os.path'] = {'exists': Builtin('os.path.exists', lambda ip, a, k: raise_unsup('os.path'))}
    mm['collections'] = {'Counter': Builtin('Counter', counter),
                         'OrderedDict': Builtin('OrderedDict', lambda ip, a, k: h_dict(ip, None, a, k)),
                         'defaultdict': Builtin('defaultdict', defaultdict_)}
    mm['csv'] = {'writer': Builtin('csv.writer', csv_writer)}
    ip.csvcls = ClassVal('csv.writer', [obj], {'writerow': Builtin('csv.writerow', csv_row)})
    mm['functools'] = {'reduce': Builtin('reduce', f_reduce)}
    mm['itertools'] = {'chain': Builtin('chain', it_chain)}
    mm['re'] = {n: Builtin('re.' + n, re_fn(n)) for n in ('match', 'search', 'finditer', 'fullmatch', 'sub', 'findall',
                                                          'compile')}
    from . import libs
    libs.install(ip)


def raise_unsup(x):
    raise Unsup(x)


# ------------------------------------------------------------------ generators over generators
class _FnAlt(Alt):
    def __init__(self, a, f, tf=None):
        self.a, self.f, self.tf = a, f, tf or (lambda t: t)

    @property
    def simple(self):
        return self.a.simple

    def cond(self, t):
        return self.a.cond(self.tf(t))

    def guard(self, t):
        return self.a.guard(self.tf(t))

    def assume(self, ctx, t):
        self.a.assume(ctx, self.tf(t))

    def segs(self, ctx, t):
        return [Lit(self.f(s.v, t)) for s in self.a.segs(ctx, self.tf(t))]


class IndexedGen(Gen):
    def __init__(self, ip, g, off):
        self.ip, self.g, self.off, self.n = ip, g, off, g.n

    def alts(self):
        return [_FnAlt(a, lambda v, t: (mk('int', self.off + t), v)) for a in self.g.alts()]

    def sub(self, p):
        return IndexedGen(self.ip, self.g.sub(p), z3.substitute(self.off, *p))


class RevGen(Gen):
    def __init__(self, g):
        self.g, self.n = g, g.n

    def alts(self):
        return [_FnAlt(a, lambda v, t: v, lambda t: self.n - 1 - t) for a in self.g.alts()]

    def sub(self, p):
        return RevGen(self.g.sub(p))


class ZipGen(Gen):
    def __init__(self, ip, gs, n):
        self.ip, self.gs, self.n = ip, gs, n

    def alts(self):
        gs, ip = self.gs, self.ip

        class A(Alt):
            simple = all(a.simple for g in gs for a in g.alts())

            def cond(s, t):
                return z3.BoolVal(True)

            def assume(s, ctx, t):
                pass

            def segs(s, ctx, t):
                return [Lit(tuple(ip.gen_pick(g, t)[0].v for g in gs))]
        return [A()]

    def sub(self, p):
        return ZipGen(self.ip, [g.sub(p) for g in self.gs], z3.substitute(self.n, *p))


# ------------------------------------------------------------------ interpreter extras
def _one_each(self, g):
    if isinstance(g, (BaseGen, ZipGen)):
        return True
    if isinstance(g, OffGen):
        return self.one_each(g.base)
    if isinstance(g, (IndexedGen, RevGen)):
        return self.one_each(g.g)
    if isinstance(g, MapGen):
        return g.p is None and self.one_each(g.g)
    if isinstance(g, PointGen):
        return self.one_each(g.g)
    return isinstance(g, LoopGen) and all(isinstance(a, LoopAlt) and len(a._segs) == 1 and isinstance(a._segs[0], Lit)
                                          for a in g.alts())


Ops.one_each = _one_each


def str_to_int(ip, t):
    """int(s) for a decimal numeral string; exact inverse of str(int)."""
    f = ip.ctx.fn('str.to_pyint', S, I)
    if z3.is_app(t) and t.decl().name() == 'int.to_str':
        return t.arg(0)
    r = f(t)
    return r


def _to_str(self, v):
    v = self.force(v)
    k = kind_of(v)
    if k == 'str':
        return v
    if k and not isinstance(v, Sym):
        return str(v)
    if v is None:
        return 'None'
    if isinstance(v, Sym):
        if v.k == 'bool':
            return mk('str', z3.If(v.t, z3.StringVal('True'), z3.StringVal('False')))
        if v.k == 'int':
            r = self.ctx.fn('int.to_str', I, S)(v.t)
            self.ctx.assume(self.ctx.fn('str.to_pyint', S, I)(r) == v.t)
            self.ctx.assume(self.ctx.fn('str.to_real', S, R)(r) == z3.ToReal(v.t))
            self.ctx.assume(r != z3.StringVal(''))
            return Sym('str', r)
        r = self.ctx.fn('real.to_str', R, S)(v.t)
        self.ctx.assume(self.ctx.fn('str.to_real', S, R)(r) == v.t)
        return Sym('str', r)
    if isinstance(v, Uuid):
        return Sym('str', v.t)
    if isinstance(v, Ref) and isinstance(self.ctx.get(v), InstRec):
        f = self.find_attr(self.ctx.get(v).cls, '__str__')
        if f is not None:
            return self.call(self.bind(f, v), [])
    raise Unsup('str() of %r' % (v,))


Interp.to_str = _to_str


class Uuid:
    def __init__(self, t):
        self.t = t

    def inst(self, ins):
        return Uuid(ins.z(self.t))

    def same_host(self, o):
        return self.t.eq(o.t)


def uuid4(ip, a, k):
    ctx = ip.ctx
    t = ctx.fresh('str', 'uuid')
    side = getattr(ip, 'side', 0)
    for u in ctx.trace:
        if u[0] == 'uuid' and u[2] == side:
            ctx.assume(u[1] != t)
    ctx.trace.append(('uuid', t, side))
    return Uuid(t)


def uuid_terms(ctx, t):
    """Does t mention a freshly generated uuid?"""
    us = [u[1] for u in ctx.trace if u[0] == 'uuid']
    if not us:
        return False
    st = [t]
    while st:
        x = st.pop()
        if any(x.eq(u) for u in us):
            return True
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_SEQ_CONCAT,):
            st.extend(x.children())
    return False


_orig_has = MapBase.has


def _has(self, ctx, k):
    h = _orig_has(self, ctx, k)
    kt = kterm(k)
    if kt is not None and uuid_terms(ctx, kt):
        ctx.assume(z3.Not(h))
    return h


MapBase.has = _has


def m_sqrt(ip, a, k):
    v = ip.force(a[0])
    if not isinstance(v, Sym):
        if v < 0:
            ip.throw('ValueError', 'math domain error')
        return _math.sqrt(v)
    if ip.ctx.fork(v.t < 0):
        ip.throw('ValueError', 'math domain error')
    f = ip.ctx.fn('sqrt', R, R)
    if v.k == 'int':
        # linear facts only: its position among the small squares
        r = f(z3.ToReal(v.t))
        ip.ctx.assume(z3.And(r >= 0, *[(r >= m) == (v.t >= m * m) for m in range(1, 24)]))
        return Sym('real', r)
    r = f(v.t)
    ip.ctx.assume(z3.And(r >= 0, r * r == v.t))
    return Sym('real', r)


def m_isqrt(ip, a, k):
    v = a[0]
    if not isinstance(v, Sym):
        return _math.isqrt(v)
    if ip.ctx.fork(v.t < 0):
        ip.throw('ValueError', 'isqrt() argument must be nonnegative')
    return isqrt_of(ip, v.t)


def isqrt_of(ip, t):
    """floor of the square root; the small squares as linear facts."""
    r = ip.ctx.fn('isqrt', I, I)(t)
    ip.ctx.assume(z3.And(r >= 0, *[(r >= m) == (t >= m * m) for m in range(1, 24)]))
    return Sym('int', r)


def m_floor(ip, a, k):
    v = a[0]
    if not isinstance(v, Sym):
        return _math.floor(v)
    if v.k == 'real' and z3.is_app(v.t) and v.t.decl().name() == 'sqrt' and z3.is_to_real(v.t.arg(0)):
        return isqrt_of(ip, v.t.arg(0).arg(0))
    return mk('int', z3.ToInt(v.t)) if v.k == 'real' else v


def csv_writer(ip, a, k):
    if len(a) != 1 or any(x not in ('lineterminator', 'delimiter') for x in k) or k.get('delimiter', ',') != ',':
        raise Unsup('dialect of csv.writer')
    return ip.ctx.alloc(InstRec(ip.csvcls, {'file': a[0], 'end': k.get('lineterminator', '\r\n')}))


def csv_field(ip, v):
    """Text of a field in the excel dialect with minimal quoting; uninterpreted for unknown text."""
    v = ip.force(v)
    if kind_of(v) != 'str':
        raise Unsup('csv field')
    if not isinstance(v, Sym):
        return '"' + v.replace('"', '""') + '"' if any(x in v for x in ',"\r\n') else v
    return mk('str', ip.ctx.fn('csv.quoted', S, S)(v.t))


def csv_row(ip, a, k):
    w = ip.ctx.get(a[0]).attrs
    segs = ip.iter_segs(a[1])
    if not all(isinstance(s, Lit) for s in segs) or len(segs) < 2:
        raise Unsup('csv row')
    text = csv_field(ip, segs[0].v)
    for s in segs[1:]:
        text = ip.binop('+', ip.binop('+', text, ','), csv_field(ip, s.v))
    ip.call(ip.getattr(w['file'], 'write'), [ip.binop('+', text, w['end'])])


def makedirs(ip, a, k):
    ctx = ip.ctx
    ctx.trace.append(('makedirs', a[0]))
    c = ctx.choose_any(2)
    if c == 1:
        if k.get('exist_ok') is True:
            raise Infeasible()
        e = ctx.alloc(InstRec(ip.excs['FileExistsError'], {'errno': _errno.EEXIST, 'args': ()}))
        raise PyRaise(e)
    return None


def shallow(ip, a, k):
    v = ip.force(a[0])
    if isinstance(v, Ref):
        rec = ip.ctx.get(v)
        return ip.ctx.alloc(rec)
    return v


def deepcopy(ip, a, k):
    ctx = ip.ctx
    memo = {}

    def go(v):
        v = ip.force(v)
        if isinstance(v, tuple):
            return tuple(go(x) for x in v)
        if isinstance(v, Ref):
            if v.o in memo:
                return memo[v.o]
            rec = ctx.get(v)
            if isinstance(rec, ListRec):
                out = ctx.alloc(None)
                memo[v.o] = out
                segs = []
                for s in ip.freeze_segs(rec.segs):
                    if isinstance(s, Lit):
                        segs.append(Lit(go(s.v)))
                    elif isinstance(s, Gen):
                        segs.append(copy_gen(s))
                    else:
                        raise PoisonRead(('list', s.oid))
                ctx.put(out, ListRec(segs, rec.kind))
                return out
            if isinstance(rec, DictRec):
                out = ctx.alloc(None)
                memo[v.o] = out
                ls = []
                for l in rec.layers:
                    if isinstance(l, Pt):
                        ls.append(Pt(go(l.k), l.v if l.v is ABSENT else go(l.v)))
                    else:
                        raise Unsup('deepcopy of loop-filled dictionary')
                base = rec.base
                if base is not None and not (isinstance(base, AttrBase) and not any(callable(f[1]) for f in base.schema.fields.values())):
                    base = CopyBase(ip, base)
                ctx.put(out, DictRec(ls, base, rec.kind))
                return out
            if isinstance(rec, InstRec):
                if callable(rec.cls.attrs.get('__deep_copy__')):
                    return rec.cls.attrs['__deep_copy__'](ip, v)
                out = ctx.alloc(None)
                memo[v.o] = out
                ctx.put(out, InstRec(rec.cls, {n: go(x) for n, x in rec.attrs.items()}))
                return out
        if hasattr(v, 'deepcopy'):
            return v.deepcopy(ip)
        return v

    def copy_gen(g):
        # scalar elements copy to themselves; check on a generic element
        var = z3.Int('dc!%d' % ctx.fresh_id())

        def run():
            ctx.skolem = ctx.skolem + [var]
            ctx.assume(z3.And(var >= 0, var < g.n))
            for s in ip.gen_pick(g, var):
                if not isinstance(s, Lit) or not immutable(s.v):
                    return False
            return True
        if all(p.value for p in ctx.subexplore(run)):
            return g
        ip.ro_copies = True
        return g

    def immutable(v):
        if isinstance(v, tuple):
            return all(immutable(x) for x in v)
        return not isinstance(v, Ref)
    return go(a[0])


class CopyBase:
    """Deep copy of an unknown dictionary: scalar values are shared, containers are copied on access."""

    def __init__(self, ip, base):
        self.ip, self.base = ip, base
        self.memo = {}

    def has(self, ctx, k):
        return self.base.has(ctx, k)

    def value(self, ctx, k):
        v = self.base.value(ctx, k)
        if isinstance(v, Ref):
            return deepcopy(self.ip, [v], {})      # fresh copy per access: writes through it are not tracked
        return v

    def keys_gen(self, ctx):
        return self.base.keys_gen(ctx)

    def inst(self, ins):
        return CopyBase(self.ip, self.base.inst(ins))

    def same(self, o):
        return self.base.same(o.base) if isinstance(o, CopyBase) else None


def counter(ip, a, k):
    if not a:
        return ip.ctx.alloc(DictRec((), None, 'counter'))
    segs = ip.iter_segs(a[0])
    if all(isinstance(s, Lit) for s in segs):
        r = ip.ctx.alloc(DictRec((), None, 'counter'))
        for s in segs:
            ip.dict_set(r, s.v, ip.binop('+', ip.getitem(r, s.v), 1))
        return r
    if ip.counter_model is not None:
        return ip.counter_model(ip, segs)
    raise Unsup('Counter over a symbolic sequence')


Interp.counter_model = None


def defaultdict_(ip, a, k):
    nm = 'default:%d' % ip.ctx.fresh_id()
    if a and a[0] is not None:
        ip.default_factories[nm] = a[0]
        return ip.ctx.alloc(DictRec((), None, nm))
    return ip.ctx.alloc(DictRec())


def f_reduce(ip, a, k):
    segs = ip.iter_segs(a[1])
    if not all(isinstance(s, Lit) for s in segs):
        raise Unsup('reduce over symbolic sequence')
    vals = [s.v for s in segs]
    acc = a[2] if len(a) > 2 else vals.pop(0)
    for v in vals:
        acc = ip.call(a[0], [acc, v])
    return acc


def it_chain(ip, a, k):
    out = []
    for x in a:
        out.extend(ip.iter_segs(x))
    return ip.ctx.alloc(ListRec(out, 'iter'))


class MatchVal:
    def __init__(self, m):
        self.m = m

    def truth(self, ip):
        return True


def re_fn(name):
    def f(ip, a, k):
        if any(isinstance(x, Sym) for x in a):
            if ip.re_model is not None:
                return ip.re_model(ip, name, a)
            raise Unsup('regular expression on a symbolic string')
        try:
            r = getattr(_re, name)(*a)
        except TypeError as e:
            ip.throw('TypeError', str(e))
        if name == 'finditer':
            return ip.mklist([MatchVal(m) for m in r], 'iter')
        if name == 'findall':
            return ip.mklist(list(r))
        if name == 'sub':
            return r
        if name == 'compile':
            raise Unsup('re.compile')
        return MatchVal(r) if r is not None else None
    return f


Interp.re_model = None


def _sort_vals(self, vals, key=None, reverse=False):
    keyed = [(self.call(key, [v]) if key is not None else v, v) for v in vals]
    out = []
    for kv in keyed:
        pos = len(out)
        # stable insertion: place after all elements <= it (ascending)
        for i in range(len(out)):
            c = self.compare('Lt' if not reverse else 'Gt', kv[0], out[i][0])
            if self.truth(c):
                pos = i
                break
        out.insert(pos, kv)
    return [v for _, v in out]


Interp.sort_vals = _sort_vals


def _type_of(self, v):
    k = kind_of(v)
    T = self.types
    if k:
        return T[{'str': 'str', 'int': 'int', 'real': 'float', 'bool': 'bool'}[k]]
    if v is None:
        return T['NoneType']
    if isinstance(v, tuple):
        return T['tuple']
    if isinstance(v, Ref):
        rec = self.ctx.get(v)
        if isinstance(rec, InstRec):
            return rec.cls
        if isinstance(rec, DictRec):
            return T['dict']
        if isinstance(rec, ListRec):
            return T.get(rec.kind, T['object'] if 'object' in T else self.builtins['object'])
    if isinstance(v, (FuncVal, Bound, Builtin)):
        return T['function']
    if isinstance(v, ClassVal):
        return T['type'] if isinstance(T['type'], ClassVal) else self.builtins['object']
    return self.builtins['object']


Interp.type_of = _type_of


def _isinst(self, v, c):
    if isinstance(c, tuple):
        return any(self.isinst(v, x) for x in c)
    if not isinstance(c, ClassVal):
        raise Unsup('isinstance with %r' % (c,))
    if c is self.builtins['object']:
        return True
    return c in self.type_of(v).mro()


Interp.isinst = _isinst


# ------------------------------------------------------------------ methods of builtin types
def last_seg(ip, s, sep):
    if isinstance(s, str):
        return s.split(sep)[-1]
    f = ip.ctx.fn('last_seg:' + sep, S, S)
    r = f(s.t)
    if ip.string_facts:
        ip.ctx.assume(z3.Not(z3.Contains(r, z3.StringVal(sep))))
        ip.ctx.assume(z3.Or(s.t == r, z3.SuffixOf(z3.Concat(z3.StringVal(sep), r), s.t)))
    return Sym('str', r)


Interp.string_facts = False


class SplitList:
    """s.split(sep) of a symbolic string."""

    def __init__(self, s, sep, maxsplit=None, r=False):
        self.s, self.sep, self.maxsplit, self.r = s, sep, maxsplit, r

    def getitem(self, ip, k):
        if k == -1 and (self.maxsplit is None or self.r):
            return last_seg(ip, self.s, self.sep)
        if k == 0 and (self.maxsplit is None or not self.r) and (self.maxsplit is None or self.maxsplit >= 1):
            sp = z3.StringVal(self.sep)
            i = z3.IndexOf(self.s.t, sp, 0)
            return mk('str', z3.If(i >= 0, z3.SubString(self.s.t, 0, i), self.s.t))
        raise Unsup('component of a symbolic split')

    def truth(self, ip):
        return True

    def segs_of(self, ip):
        raise Unsup('iteration over a symbolic split')

    def pop(self, ip):
        return self.getitem(ip, -1)


def str_method(ip, o, name):
    ctx = ip.ctx

    def conc(args):
        return isinstance(o, str) and not any(isinstance(x, Sym) for x in args)

    def f(ip, args, kw):
        me, args = args[0], [ip.force(x) for x in args[1:]]
        if name == 'join':
            segs = ip.iter_segs(args[0])
            if not all(isinstance(s, Lit) for s in segs):
                raise Unsup('join of symbolic sequence')
            out = ''
            for i, s in enumerate(segs):
                if kind_of(s.v) != 'str':
                    ip.throw('TypeError', 'sequence item: expected str')
                if i:
                    out = ip.binop('+', out, me)
                out = ip.binop('+', out, s.v)
            return out
        if name == 'format':
            if not isinstance(me, str) or kw:
                raise Unsup('format')
            parts = _re.split(r'(\{\d*\})', me)
            out, auto = '', 0
            for p in parts:
                if _re.fullmatch(r'\{\d*\}', p):
                    if p == '{}':
                        i = auto
                        auto += 1
                    else:
                        i = int(p[1:-1])
                    out = ip.binop('+', out, ip.to_str(args[i]))
                elif '{' in p or '}' in p:
                    raise Unsup('format spec')
                else:
                    out = ip.binop('+', out, p)
            return out
        if conc(args) and all(isinstance(x, (str, int, tuple)) or x is None for x in args):
            try:
                r = getattr(me, name)(*args, **kw)
            except TypeError as e:
                ip.throw('TypeError', str(e))
            except ValueError as e:
                ip.throw('ValueError', str(e))
            return ip.mklist(r) if isinstance(r, list) else r
        if any(kind_of(x) not in ('str', 'int') and not isinstance(x, tuple) for x in args):
            ip.throw('TypeError', 'must be str')
        t = zt(me)
        if name == 'startswith':
            ps = args[0] if isinstance(args[0], tuple) else (args[0],)
            return ip.disj([mk('bool', z3.PrefixOf(zt(p), t)) for p in ps])
        if name == 'endswith':
            ps = args[0] if isinstance(args[0], tuple) else (args[0],)
            return ip.disj([mk('bool', z3.SuffixOf(zt(p), t)) for p in ps])
        if name in ('split', 'rsplit') and args and isinstance(args[0], str) and len(args[0]) == 1:
            ms = args[1] if len(args) > 1 else kw.get('maxsplit')
            return SplitList(me, args[0], ms, name == 'rsplit')
        if name == 'split' and not kw and (not args or args[0] is None) and len(args) < 2:
            # words of the text; surrounding blanks do not matter
            while z3.is_app(t) and t.decl().name() in ('str.strip', 'str.lstrip', 'str.rstrip'):
                t = t.arg(0)
            n = ctx.fn('words.n', S, I)(t)
            ctx.assume(n >= 0)
            return ctx.alloc(ListRec([BaseGen(n, lambda c, a, i: Sym('str', c.fn('words.at', S, I, S)(a[0], i)), [t], 'words')]))
        if name == 'rpartition' and isinstance(args[0], str):
            l = last_seg(ip, me, args[0])
            has = z3.Contains(t, zt(args[0]))
            pre = ctx.fn('rpart_head', S, S, S)(t, zt(args[0]))
            return (Sym('str', pre), mk('str', z3.If(has, zt(args[0]), z3.StringVal(''))), l)
        if name == 'partition' and isinstance(args[0], str):
            i = z3.IndexOf(t, zt(args[0]), 0)
            has = z3.Contains(t, zt(args[0]))
            n = len(args[0])
            return (mk('str', z3.If(has, z3.SubString(t, 0, i), t)),
                    mk('str', z3.If(has, zt(args[0]), z3.StringVal(''))),
                    mk('str', z3.If(has, z3.SubString(t, i + n, z3.Length(t)), z3.StringVal(''))))
        if name in ('strip', 'lower', 'upper', 'lstrip', 'rstrip', 'title', 'capitalize'):
            key = 'str.%s%s' % (name, ':' + args[0] if args and isinstance(args[0], str) else '')
            if args and not isinstance(args[0], str):
                raise Unsup('strip argument')
            r = ctx.fn(key, S, S)(t)
            ctx.assume(z3.Implies(t == z3.StringVal(''), r == z3.StringVal('')))
            return Sym('str', r)
        if name == 'find':
            return mk('int', z3.IndexOf(t, zt(args[0]), 0))
        if name == 'replace':
            raise Unsup('replace on symbolic string')
        if name == 'isdigit':
            return mk('bool', ctx.fn('str.isdigit', S, B)(t))
        raise Unsup('str.%s on a symbolic string' % name)
    if not hasattr(str, name):
        ip.throw('AttributeError', "'str' object has no attribute '%s'" % name)
    return Bound(Builtin('str.' + name, f), o)


def _builtin_attr(self, o, name):
    if kind_of(o) == 'str':
        return str_method(self, o, name)
    if isinstance(o, Ref):
        rec = self.ctx.get(o)
        if isinstance(rec, ListRec):
            m = LIST.get(name) if rec.kind in ('list', 'set') else None
            if m is None and rec.kind == 'set':
                m = SET.get(name)
            if m is not None:
                return Bound(Builtin('list.' + name, m), o)
            if rec.kind not in ('list', 'set', 'tuple') or hasattr({'list': list, 'set': set, 'tuple': tuple}[rec.kind], name):
                raise Unsup('%s.%s' % (rec.kind, name))
            self.throw('AttributeError', "'%s' object has no attribute '%s'" % (rec.kind, name))
        if isinstance(rec, DictRec):
            m = DICT.get(name)
            if m is not None:
                return Bound(Builtin('dict.' + name, m), o)
            if rec.kind != 'dict' or hasattr(dict, name):
                raise Unsup('%s.%s' % (rec.kind, name))
            self.throw('AttributeError', "'dict' object has no attribute '%s'" % name)
    if isinstance(o, MatchVal):
        def mg(ip, a, k):
            r = getattr(o.m, name)(*a[1:])
            return r
        return Bound(Builtin('match.' + name, mg), o)
    if hasattr(o, 'attr'):
        return o.attr(self, name)
    if isinstance(o, FuncVal) and name == '__name__':
        return o.name
    if isinstance(o, SplitList) and name == 'pop':
        return Builtin('pop', lambda ip, a, k: o.getitem(ip, -1) if not a else raise_unsup('pop'))
    if o is None or kind_of(o) or isinstance(o, (tuple, FuncVal, Builtin)):
        if isinstance(o, tuple) and name in ('index', 'count'):
            raise Unsup('tuple.' + name)
        if o is not None and (isinstance(o, (FuncVal, Builtin, Sym)) or hasattr(o, name)):
            raise Unsup('attribute ' + name)
        self.throw('AttributeError', "object has no attribute '%s'" % name)
    raise Unsup('attribute %s of %r' % (name, o))


Interp.builtin_attr = _builtin_attr


def l_append(ip, a, k):
    r = ip.ctx.get(a[0])
    ip.ctx.put(a[0], ListRec(r.segs + (Lit(a[1]),), r.kind))


def l_extend(ip, a, k):
    ip.list_extend(a[0], a[1])


def l_insert(ip, a, k):
    r = ip.ctx.get(a[0])
    i = a[1]
    if isinstance(i, int) and (i == 0 or all(isinstance(s, Lit) for s in r.segs)):
        ls = list(r.segs)
        ls.insert(i, Lit(a[2]))
        ip.ctx.put(a[0], ListRec(ls, r.kind))
        return
    raise Unsup('insert')


def l_pop(ip, a, k):
    r = ip.ctx.get(a[0])
    i = a[1] if len(a) > 1 else -1
    if not r.segs:
        ip.throw('IndexError', 'pop from empty list')
    if r.kind == 'set':
        i = 0
    if i == 0 and isinstance(r.segs[0], Lit):
        ip.ctx.put(a[0], ListRec(r.segs[1:], r.kind))
        return r.segs[0].v
    if i == -1 and isinstance(r.segs[-1], Lit):
        ip.ctx.put(a[0], ListRec(r.segs[:-1], r.kind))
        return r.segs[-1].v
    if isinstance(i, int) and all(isinstance(s, Lit) for s in r.segs):
        ls = list(r.segs)
        if not -len(ls) <= i < len(ls):
            ip.throw('IndexError', 'pop index out of range')
        s = ls.pop(i)
        ip.ctx.put(a[0], ListRec(ls, r.kind))
        return s.v
    if len(r.segs) == 1 and isinstance(r.segs[0], Gen) and ip.one_each(r.segs[0]) and i in (0, -1):
        g = r.segs[0]
        if not ip.ctx.fork(g.n > 0):
            ip.throw('IndexError', 'pop from empty list')
        if i == 0:
            v = ip.gen_pick(g, z3.IntVal(0))[0].v
            ip.ctx.put(a[0], ListRec([OffGen(g, z3.IntVal(1), g.n - 1)], r.kind))
        else:
            v = ip.gen_pick(g, g.n - 1)[0].v
            ip.ctx.put(a[0], ListRec([OffGen(g, z3.IntVal(0), g.n - 1)], r.kind))
        return v
    if i in (0, -1):
        n = ip.length(a[0])
        if not ip.ctx.feasible(zt(n) != 1):
            v = ip.seq_index(r.segs, 0)
            ip.ctx.put(a[0], ListRec([], r.kind))
            return v
    raise Unsup('pop')


def l_remove(ip, a, k):
    r = ip.ctx.get(a[0])
    for i, s in enumerate(r.segs):
        if isinstance(s, Lit):
            if ip.truth(ip.eq(s.v, a[1])):
                ip.ctx.put(a[0], ListRec(r.segs[:i] + r.segs[i + 1:], r.kind))
                return
            continue
        if not isinstance(s, Gen):
            raise PoisonRead(('list', s.oid))
        if not ip.one_each(s):
            raise Unsup('remove from a filtered list')
        w = first_at(ip, s, a[1])
        if w is not None:
            ip.ctx.put(a[0], ListRec(r.segs[:i] + (OffGen(s, z3.IntVal(0), w), OffGen(s, w + 1, s.n - w - 1)) + r.segs[i + 1:], r.kind))
            return
    ip.throw('ValueError', 'list.remove(x): x not in list')


def first_at(ip, g, x):
    """Position of the first element equal to x, or None (forks)."""
    ctx = ip.ctx
    var = z3.Int('fa!%d' % ctx.fresh_id())
    c = ip.pred_over(g, var, lambda v: ip.eq(v, x))
    if ctx.choose_any(2) == 0:
        w = ctx.fresh('int', 'at')
        ctx.assume(z3.And(w >= 0, w < g.n))
        ctx.index_term(w)
        if not ip.truth(ip.eq(ip.gen_pick(g, w)[0].v, x)):
            raise Infeasible()
        if c is not None:
            ctx.add_forall(Forall(var, z3.IntVal(0), w, z3.Not(c)))
        if not ctx.feasible(z3.BoolVal(True)):
            raise Infeasible()
        return w
    if c is not None:
        ctx.add_forall(Forall(var, z3.IntVal(0), g.n, z3.Not(c)))
    if not ctx.feasible(z3.BoolVal(True)):
        raise Infeasible()
    return None


def l_index(ip, a, k):
    lits = ip.all_lits(ip.ctx.get(a[0]))
    if lits is None:
        raise Unsup('index')
    for i, v in enumerate(lits):
        if ip.truth(ip.eq(v, a[1])):
            return i
    ip.throw('ValueError', 'not in list')


def l_count(ip, a, k):
    lits = ip.all_lits(ip.ctx.get(a[0]))
    if lits is None:
        raise Unsup('count')
    n = 0
    for v in lits:
        e = ip.eq(v, a[1])
        n = ip.binop('+', n, mk('int', z3.If(zt(e), z3.IntVal(1), z3.IntVal(0))))
    return n


def l_sort(ip, a, k):
    r = ip.ctx.get(a[0])
    lits = ip.all_lits(r)
    if lits is None:
        raise Unsup('sort')
    ip.ctx.put(a[0], ListRec([Lit(v) for v in ip.sort_vals(lits, k.get('key'), k.get('reverse', False))]))


def l_reverse(ip, a, k):
    r = ip.ctx.get(a[0])
    out = []
    for s in reversed(r.segs):
        if not isinstance(s, Lit) and not (isinstance(s, Gen) and ip.one_each(s)):
            raise Unsup('reverse')
        out.append(s if isinstance(s, Lit) else RevGen(s))
    ip.ctx.put(a[0], ListRec(tuple(out), r.kind))


def l_copy(ip, a, k):
    return ip.ctx.alloc(ListRec(ip.ctx.get(a[0]).segs, ip.ctx.get(a[0]).kind))


def l_clear(ip, a, k):
    ip.ctx.put(a[0], ListRec((), ip.ctx.get(a[0]).kind))


LIST = dict(append=l_append, extend=l_extend, insert=l_insert, pop=l_pop, remove=l_remove, index=l_index, count=l_count,
            sort=l_sort, reverse=l_reverse, copy=l_copy, clear=l_clear)


def s_add(ip, a, k):
    if not ip.truth(ip.contains(a[0], a[1])):
        l_append(ip, a, k)


def s_op(keep):
    def f(ip, a, k):
        x = ip.all_lits(ip.ctx.get(a[0]))
        if x is None:
            acc = ip.mklist(kind='set')

            def body(v):
                if ip.truth(ip.contains(a[1], v)) == keep:
                    ip.ctx.put(acc, ListRec(ip.ctx.get(acc).segs + (Lit(v),), 'set'))
            ip.run_loop(ip.iter_segs(a[0]), body)
            return acc
        out = []
        for v in x:
            if ip.truth(ip.contains(a[1], v)) == keep:
                out.append(v)
        return ip.mklist(out, 'set')
    return f


def s_union(ip, a, k):
    out = ip.ctx.alloc(ip.ctx.get(a[0]))
    for o in a[1:]:
        for s in ip.iter_segs(o):
            if not isinstance(s, Lit):
                raise Unsup('set union')
            s_add(ip, [out, s.v], {})
    return out


def s_update(ip, a, k):
    for o in a[1:]:
        for s in ip.iter_segs(o):
            if not isinstance(s, Lit):
                raise Unsup('set update')
            s_add(ip, [a[0], s.v], {})


SET = dict(add=s_add, intersection=s_op(True), difference=s_op(False), union=s_union, update=s_update,
           discard=lambda ip, a, k: l_remove(ip, a, k) if ip.truth(ip.contains(a[0], a[1])) else None)


def d_get(ip, a, k):
    r = ip.dict_find(a[0], a[1])
    if r[0] == 'absent':
        return a[2] if len(a) > 2 else k.get('default')
    return r[1]


def d_setdefault(ip, a, k):
    r = ip.dict_find(a[0], a[1])
    if r[0] == 'absent':
        v = a[2] if len(a) > 2 else None
        ip.dict_set(a[0], a[1], v)
        return v
    return r[1]


def d_update(ip, a, k):
    if len(a) > 1:
        o = ip.force(a[1])
        if isinstance(o, Ref) and isinstance(ip.ctx.get(o), DictRec):
            rec = ip.ctx.get(o)
            if rec.base is not None or not all(isinstance(l, Pt) for l in rec.layers):
                raise Unsup('update with symbolic dictionary')
            for l in rec.layers:
                if l.v is not ABSENT:
                    ip.dict_set(a[0], l.k, ip.force(l.v))
        else:
            for s in ip.iter_segs(o):
                if not isinstance(s, Lit):
                    raise Unsup('update')
                kk, vv = ip.unpack(s.v, 2, False)
                ip.dict_set(a[0], kk, vv)
    for n, v in k.items():
        ip.dict_set(a[0], n, v)


def d_pop(ip, a, k):
    r = ip.dict_find(a[0], a[1])
    if r[0] == 'absent':
        if len(a) > 2:
            return a[2]
        ip.throw('KeyError', a[1])
    ip.dict_del(a[0], a[1])
    return r[1]


class DictView:
    def __init__(self, ref, what):
        self.ref, self.what = ref, what

    def segs_of(self, ip):
        if self.what == 'keys':
            return ip.dict_key_segs(self.ref)
        if self.what == 'values':
            return ip.dict_item_segs(self.ref, lambda k, v: v)
        return ip.dict_item_segs(self.ref, lambda k, v: (k, v))

    def contains(self, ip, x):
        if self.what == 'keys':
            return ip.dict_has(self.ref, x)
        lits = self.segs_of(ip)
        if all(isinstance(s, Lit) for s in lits):
            return ip.disj([ip.eq(s.v, x) for s in lits])
        raise Unsup('membership in dict view')

    def inst(self, ins):
        return DictView(ins.val(self.ref), self.what)


def d_view(w):
    return lambda ip, a, k: DictView(a[0], w)


def d_copy(ip, a, k):
    return ip.ctx.alloc(ip.ctx.get(a[0]))


def d_clear(ip, a, k):
    r = ip.ctx.get(a[0])
    ip.ctx.put(a[0], DictRec((), None, r.kind))


def d_most_common(ip, a, k):
    if ip.ctx.get(a[0]).kind != 'counter':
        ip.throw('AttributeError', 'most_common')
    if ip.most_common_model is not None:
        r = ip.most_common_model(ip, a[0])
        if r is not None:
            return r
    segs = DictView(a[0], 'items').segs_of(ip)
    if not all(isinstance(s, Lit) for s in segs):
        raise Unsup('most_common')
    f = Builtin('cnt', lambda ip, x, kk: x[0][1])
    vals = ip.sort_vals([s.v for s in segs], f, True)
    return ip.mklist(vals if len(a) < 2 else vals[:a[1]])


Interp.most_common_model = None
DICT = dict(get=d_get, setdefault=d_setdefault, update=d_update, pop=d_pop, keys=d_view('keys'), values=d_view('values'),
            items=d_view('items'), copy=d_copy, clear=d_clear,
            most_common=d_most_common)


# scalar lists: symbolic index writes/reads without forking
_orig_list_set = Interp.list_set


def named(ctx, k):
    """The same integer as a plain symbol."""
    if z3.is_const(k.t):
        return k
    for t, c in ctx.named:
        if t.eq(k.t):
            return c
    c = Sym('int', ctx.fresh('int', 'ix'))
    ctx.assume(c.t == k.t)
    ctx.named.append((k.t, c))
    return c


def _list_set(self, o, k, v):
    rec = self.ctx.get(o)
    if isinstance(k, Sym) and k.k == 'int':
        lits = self.all_lits(rec)
        if lits and is_num(v) and all(is_num(x) for x in lits):
            n = len(lits)
            k = named(self.ctx, k)
            if not self.ctx.fork(z3.And(k.t >= 0, k.t < n)):
                if self.ctx.fork(z3.Or(k.t >= n, k.t < -n)):
                    self.throw('IndexError', 'list assignment index out of range')
                raise Unsup('negative symbolic index')
            out = []
            for j, x in enumerate(lits):
                kk, tv, tx = num_pair(v, x)
                tv = z3.simplify(z3.substitute(tv, (k.t, z3.IntVal(j))))
                d = z3.simplify(tv - tx)
                if z3.is_int_value(d):
                    # order encoding of [k == j]: sums over neighbouring entries telescope
                    ge = lambda m: z3.IntVal(1) if m == 0 else z3.IntVal(0) if m == n else z3.If(k.t >= m, z3.IntVal(1), z3.IntVal(0))
                    out.append(Lit(mk(kk, z3.simplify(tx + d * (ge(j) - ge(j + 1))))))
                else:
                    out.append(Lit(mk(kk, z3.If(k.t == j, tv, tx))))
            self.ctx.put(o, ListRec(out, rec.kind))
            return
    return _orig_list_set(self, o, k, v)


Interp.list_set = _list_set
_orig_seq_index = Ops.seq_index


def _seq_index(self, segs, i, what='list index out of range'):
    if isinstance(i, Sym) and i.k == 'int' and segs and all(isinstance(s, Lit) and is_num(s.v) for s in segs):
        n = len(segs)
        i = named(self.ctx, i)
        if not self.ctx.fork(z3.And(i.t >= 0, i.t < n)):
            if self.ctx.fork(z3.Or(i.t >= n, i.t < -n)):
                self.throw('IndexError', what)
            raise Unsup('negative symbolic index')
        r = segs[-1].v
        for j in range(n - 2, -1, -1):
            kk, ta, tb = num_pair(segs[j].v, r)
            r = mk(kk, z3.If(i.t == j, ta, tb))
        return r
    return _orig_seq_index(self, segs, i, what)


Ops.seq_index = _seq_index
