"""Core of the deductive engine: symbolic values, heap, path exploration, obligations.

Paths are explored by replaying decision prefixes (depth first).  All names are allocated
deterministically, so replaying a prefix rebuilds exactly the same z3 terms.
"""
import time
import z3
from .strabs import TSolver

z3.set_param('smt.random_seed', 7)

S = z3.StringSort()
I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
SORT = {'str': S, 'int': I, 'real': R, 'bool': B, 'set': z3.ArraySort(S, B), 'ints': z3.ArraySort(S, I)}     # the last two: ghost state only


class Unsup(Exception):
    """The code uses something outside the verifier's reach: the goal is undecided."""


class Infeasible(Exception):
    """Current path is infeasible (or deliberately cut)."""


class Budget(Exception):
    pass


class Sym:
    __slots__ = ('k', 't')

    def __init__(self, k, t):
        self.k = k
        self.t = t

    def __repr__(self):
        return '<%s %s>' % (self.k, self.t)

    def __bool__(self):
        raise RuntimeError('host truth test of a symbolic value')

    def __eq__(self, o):
        return isinstance(o, Sym) and self.k == o.k and self.t.eq(o.t)

    def __hash__(self):
        return hash((self.k, self.t.hash()))


class Ref:
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return '&%d' % self.o

    def __eq__(self, x):
        return isinstance(x, Ref) and x.o == self.o

    def __hash__(self):
        return hash(('ref', self.o))


class Poison:
    """Placeholder for a location modified by the loop under summary, not yet written on this iteration."""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class PoisonRead(Exception):
    def __init__(self, loc):
        self.loc = loc


class Lazy:
    """Value computed on first read (may fork)."""
    __slots__ = ('fn', 'opt')

    def __init__(self, fn, opt=False):
        self.fn, self.opt = fn, opt      # opt: a dictionary slot that may turn out to be absent


class LazyAbsent(Exception):
    pass


# ---------------------------------------------------------------- heap records (immutable by convention)
class Rec:
    __slots__ = ()


class EnvRec(Rec):
    __slots__ = ('vars',)

    def __init__(self, vars):
        self.vars = vars


class ListRec(Rec):
    __slots__ = ('segs', 'kind')   # kind: list | set | tuple(symbolic) | iter

    def __init__(self, segs, kind='list'):
        self.segs = tuple(segs)
        self.kind = kind


class Lit:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class AccSeg:
    """The (unknown) prefix accumulated by the loop under summary."""
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid


class Gen:
    """Segment: concatenation over t in [0,n) of the pieces produced by alternatives at t."""
    n = None

    def alts(self):          # -> list of Alt
        raise NotImplementedError

    def sub(self, pairs):
        raise NotImplementedError


class Alt:
    def guard(self, t):
        return self.cond(t)

    facts = ()               # callable interface below

    def assume(self, ctx, t):
        pass

    def segs(self, ctx, t):
        raise NotImplementedError


class BaseGen(Gen):
    """n elements, element t is fn(ctx, args, t); exactly one per index."""

    def __init__(self, n, fn, args=(), name='', member=None):
        self.n = n
        self.member = member        # (ctx, args, value) -> z3 bool: whether some element equals value
        self.fn = fn
        self.args = tuple(args)
        self.name = name

    def elem(self, ctx, t):
        return self.fn(ctx, self.args, t)

    def alts(self):
        g = self

        class A(Alt):
            simple = True

            def cond(self, t):
                return z3.BoolVal(True)

            def assume(self, ctx, t):
                pass

            def segs(self, ctx, t):
                return [Lit(g.elem(ctx, t))]
        return [A()]

    def sub(self, pairs):
        return BaseGen(z3.substitute(self.n, *pairs), self.fn,
                       [z3.substitute(a, *pairs) for a in self.args], self.name, self.member)


class LoopAlt(Alt):
    """One path of a summarised loop body: facts over var, the segments it appended, and the heap they live in."""

    def __init__(self, var, facts, foralls, segs, heap, mats, start, inner):
        self.var, self._facts, self._foralls, self._segs = var, facts, foralls, segs
        self.heap, self.mats, self.start, self.inner = heap, mats, start, inner
        self.pairs = []
        self.idx = ()           # witnesses the body introduced
        self.decs = None        # the branch decisions among the facts (enough to tell the alternatives apart)

    def copy_sub(self, pairs):
        a = LoopAlt(self.var, self._facts, self._foralls, self._segs, self.heap, self.mats, self.start, self.inner)
        a.pairs = self.pairs + [list(pairs)]
        a.decs = self.decs
        a.idx = self.idx
        return a

    def _s(self, e, t):
        e = z3.substitute(e, (self.var, t))
        for p in self.pairs:
            e = z3.substitute(e, *p)
        return e

    def cond(self, t):
        fs = [self._s(f, t) for f in self._facts]
        return z3.And(*fs) if fs else z3.BoolVal(True)

    def guard(self, t):
        """cond(t) for an index known to be in range: the branch decisions only."""
        if self.decs is None:
            return self.cond(t)
        fs = [self._s(f, t) for f in self.decs]
        return z3.And(*fs) if fs else z3.BoolVal(True)

    @property
    def simple(self):
        """No Skolem symbol introduced inside the body: the guard can be negated."""
        return not self.inner

    def assume(self, ctx, t):
        for f in self._facts:
            ctx.assume(self._s(f, t))
        for fa in self._foralls:
            ctx.add_forall(fa.sub([(self.var, t)]).subm(self.pairs))
        for x in self.idx:
            ctx.index_term(self._s(x, t))

    def segs(self, ctx, t):
        inst = Inst(ctx, self, t)
        return [inst.seg(s) for s in self._segs]


class LoopGen(Gen):
    def __init__(self, n, alts):
        self.n = n
        self._alts = alts

    def alts(self):
        return self._alts

    def sub(self, pairs):
        return LoopGen(z3.substitute(self.n, *pairs), [a.copy_sub(pairs) for a in self._alts])


class OffGen(Gen):
    """Elements [off, off+n) of another generator."""

    def __init__(self, base, off, n):
        self.base, self.off, self.n = base, off, n

    def alts(self):
        off = self.off
        out = []
        for a in self.base.alts():
            out.append(_OffAlt(a, off))
        return out

    def sub(self, pairs):
        return OffGen(self.base.sub(pairs), z3.substitute(self.off, *pairs), z3.substitute(self.n, *pairs))


class _OffAlt(Alt):
    def __init__(self, a, off):
        self.a, self.off = a, off

    @property
    def simple(self):
        return self.a.simple

    def cond(self, t):
        return self.a.cond(t + self.off)

    def guard(self, t):
        return self.a.guard(t + self.off)

    def assume(self, ctx, t):
        self.a.assume(ctx, t + self.off)

    def segs(self, ctx, t):
        return self.a.segs(ctx, t + self.off)


class Forall:
    """for all v in [lo,hi): body; for all v: body, if lo is None"""
    __slots__ = ('v', 'lo', 'hi', 'body')

    def __init__(self, v, lo, hi, body):
        self.v, self.lo, self.hi, self.body = v, lo, hi, body

    def sub(self, pairs):
        if self.lo is None:
            return Forall(self.v, None, None, z3.substitute(self.body, *pairs))
        return Forall(self.v, z3.substitute(self.lo, *pairs), z3.substitute(self.hi, *pairs),
                      z3.substitute(self.body, *pairs))

    def subm(self, plist):
        f = self
        for p in plist:
            f = f.sub(p)
        return f

    def at(self, t):
        if t.sort() != self.v.sort():
            return z3.BoolVal(True)
        if self.lo is None:
            return z3.substitute(self.body, (self.v, t))
        return z3.Implies(z3.And(self.lo <= t, t < self.hi), z3.substitute(self.body, (self.v, t)))


class Inst:
    """Instantiates values created by a generic iteration at a concrete index term."""

    def __init__(self, ctx, alt, t):
        self.ctx, self.alt, self.t = ctx, alt, t
        self.memo = {}

    def z(self, e):
        return self.alt._s(e, self.t)

    def val(self, v):
        if isinstance(v, Sym):
            return Sym(v.k, self.z(v.t))
        if isinstance(v, tuple):
            return tuple(self.val(x) for x in v)
        if isinstance(v, Ref):
            return self.ref(v)
        if isinstance(v, (Lazy, Poison)):
            raise Unsup('lazy value in template')
        if hasattr(v, 'inst'):
            return v.inst(self)
        return v

    def ref(self, r):
        if r.o <= self.alt.start:
            return r
        if r.o in self.memo:
            return self.memo[r.o]
        rec = self.alt.heap[r.o]
        for (bid, key, oid, _orig) in self.alt.mats:
            if oid == r.o:
                base = self.ctx.bases[bid]
                out = base.at(self.ctx, tuple(self.z(x) for x in key))
                self.memo[r.o] = out
                return out
        out = self.ctx.alloc(None)
        self.memo[r.o] = out
        self.ctx.heap[out.o] = self.rec(rec)
        return out

    def rec(self, rec):
        if isinstance(rec, ListRec):
            return ListRec([self.seg(s) for s in rec.segs], rec.kind)
        if isinstance(rec, DictRec):
            return rec.inst(self)
        if isinstance(rec, InstRec):
            return InstRec(rec.cls, {k: self.val(v) for k, v in rec.attrs.items()})
        if isinstance(rec, EnvRec):
            return EnvRec({k: (self.val(v) if not isinstance(v, (Lazy, Poison)) else v) for k, v in rec.vars.items()})
        if hasattr(rec, 'instrec'):
            return rec.instrec(self)
        raise Unsup('template record %s' % type(rec).__name__)

    def seg(self, s):
        if isinstance(s, Lit):
            return Lit(self.val(s.v))
        if isinstance(s, Gen):
            g = s.sub([(self.alt.var, self.t)])
            for p in self.alt.pairs:
                g = g.sub(p)
            return g
        raise Unsup('template segment')


class InstRec(Rec):
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


ABSENT = object()


class Pt:
    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        self.k, self.v = k, v      # v may be ABSENT (deleted)


class AccLayer:
    __slots__ = ('oid', 'old', 'log')

    def __init__(self, oid, old=None, log=None):
        self.oid, self.old, self.log = oid, old, log


class Bulk:
    """Layer of writes d[key(t)] = val(t), t in [0,n) under guards (a LoopGen emitting (key,val) tuples)."""
    __slots__ = ('gen',)

    def __init__(self, gen):
        self.gen = gen


class Drop:
    """Layer removing every edge at a node."""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k


class DictRec(Rec):
    """layers: oldest first; base: unknown initial content or None."""
    __slots__ = ('layers', 'base', 'kind')

    def __init__(self, layers=(), base=None, kind='dict'):
        self.layers = tuple(layers)
        self.base = base
        self.kind = kind

    def inst(self, ins):
        ls = []
        for l in self.layers:
            if isinstance(l, Pt):
                ls.append(Pt(ins.val(l.k), l.v if l.v is ABSENT else ins.val(l.v)))
            elif isinstance(l, Bulk):
                ls.append(Bulk(ins.seg(l.gen)))
            else:
                raise Unsup('template dict layer')
        return DictRec(ls, self.base.inst(ins) if self.base is not None else None, self.kind)


# ---------------------------------------------------------------- obligations
class Obl:
    def __init__(self, name, status, model=None, detail='', t=0.0, smt=None):
        self.name, self.status, self.model, self.detail, self.t, self.smt = name, status, model, detail, t, smt


class PathRes:
    def __init__(self):
        self.facts = self.foralls = self.value = self.heap = self.mats = self.exc = None


class Ctx:
    def __init__(self, timeout_ms=8000, deadline=None, max_paths=20000):
        self.timeout = timeout_ms
        self.solver = TSolver()
        self.solver.set('timeout', timeout_ms)
        self.deadline = deadline
        self.max_paths = max_paths
        self.obls = []
        self.stats = {'paths': 0, 'queries': 0, 'solver_s': 0.0, 'subpaths': 0, 'feas_unknown': 0}
        self.bases = {}
        self.subcache = {}
        self.funs = {}
        self.keep_smt = None
        self.reset()

    keyrange = (0, 17)      # numbers of distinct Counter keys to split over

    # ---- state
    def reset(self):
        self.solver.reset()
        self.solver.set('timeout', self.timeout)
        self.heap = dict(getattr(self, 'boot_heap', {}))
        self.nid = getattr(self, 'boot_nid', 1)
        self.famupd = {}
        self.mats = []          # (base id, key terms, oid)
        self.pc = []
        self.foralls = []
        self.idx = []
        self.idx_ids = set()
        self.mirrors = []
        self.skolem = []        # stack of enclosing generic indices
        self.innerflag = [False]
        self.sums = []
        self.folds = []
        self.sumdefs = {}
        self.counts = []        # counting symbols per (range, term)
        self.counters = []
        self.named = []
        self.prefix = ()
        self.dec = []
        self.decc = []
        self.keystack = ()
        self.nsub = 0
        self.globals_cache = {}
        self.trace = []
        self.events = None
        self.infeas_ok = 0

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted')

    def fresh_id(self):
        self.nid += 1
        return self.nid

    def fresh(self, kind, hint='v'):
        n = '%s!%d' % (hint, self.fresh_id())
        sort = SORT[kind] if isinstance(kind, str) else kind
        self.innerflag[-1] = True
        if self.skolem:
            f = z3.Function(n, *([I] * len(self.skolem) + [sort]))
            return f(*self.skolem)
        return z3.Const(n, sort)

    def fn(self, name, *sorts):
        if name not in self.funs:
            self.funs[name] = z3.Function(name, *sorts)
        return self.funs[name]

    def alloc(self, rec):
        o = self.fresh_id()
        self.heap[o] = rec
        return Ref(o)

    def get(self, ref):
        r = self.heap[ref.o]
        if r.__class__ is HiddenRec:
            raise HiddenRead(ref.o)
        return r

    def put(self, ref, rec):
        self.heap[ref.o] = rec

    # ---- solver
    def _check(self, *extra):
        self.tick()
        t0 = time.time()
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.exact = self.solver.exact
        self.solver.pop()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        return r, m

    def assume(self, c):
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)

    def feasible(self, c):
        r, _ = self._check(c)
        if r == z3.unknown:
            self.stats['feas_unknown'] += 1
        return r != z3.unsat

    def add_forall(self, fa):
        self.foralls.append(fa)
        for t in self.idx:
            self.assume(fa.at(t))

    def index_term(self, t, mirrored=False):
        h = t.get_id()
        if h in self.idx_ids:
            return
        self.idx_ids.add(h)
        self.idx.append(t)
        for fa in self.foralls:
            self.assume(fa.at(t))
        if not mirrored:
            for n in self.mirrors:
                self.index_term(z3.simplify(n - 1 - t), True)

    def mirror(self, n):
        """A sequence of length n is read backwards: the instances at t and n-1-t belong together."""
        if not any(m.eq(n) for m in self.mirrors):
            self.mirrors.append(n)
            for t in list(self.idx):
                self.index_term(z3.simplify(n - 1 - t), True)

    # ---- decisions
    def choose(self, conds, labels=None):
        """Fork over exhaustive conditions; returns the index taken."""
        pos = len(self.dec)
        if pos < len(self.prefix):
            c = self.prefix[pos]
            self.dec.append(c)
            if c < 0:
                c = -1 - c
            else:
                self.decc.append(conds[c])
            self.assume(conds[c])
            return c
        simp = [z3.simplify(c) for c in conds]
        cand = []
        for i, c in enumerate(simp):
            if z3.is_false(c):
                continue
            if z3.is_true(c):
                cand = [i]
                break
            cand.append(i)
        if len(cand) > 1:
            cand = [i for i in cand if self.feasible(conds[i])]
        if not cand:
            raise Infeasible()
        for j in reversed(cand[1:]):
            self.work.append(tuple(self.dec) + (j,))
        if len(cand) > 1:
            self.dec.append(cand[0])
            self.decc.append(conds[cand[0]])
        else:
            self.dec.append(-1 - cand[0])
        self.assume(conds[cand[0]])
        return cand[0]

    def fork(self, c):
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return self.choose([c, z3.Not(c)]) == 0

    def choose_any(self, n):
        """Non-deterministic choice without condition (both always explored)."""
        if n > 1:
            self.decc.append(None)      # the facts that follow tell the branches apart (see gen_pick)
        pos = len(self.dec)
        if pos < len(self.prefix):
            c = self.prefix[pos]
            self.dec.append(c)
            return c
        for j in reversed(range(1, n)):
            self.work.append(tuple(self.dec) + (j,))
        self.dec.append(0)
        return 0

    def explore(self, fn):
        """Top-level exploration."""
        self.work = [()]
        n = 0
        while self.work:
            self.tick()
            p = self.work.pop()
            self.reset()
            self.prefix = p
            n += 1
            if n > self.max_paths:
                raise Budget('path budget exhausted')
            try:
                fn()
                self.stats['paths'] += 1
            except Infeasible:
                pass
        return n

    def subexplore(self, fn, keep=True):
        """Explore fn from the current state on all paths; restore the state; return list of PathRes."""
        key = self.keystack + (tuple(self.dec), self.nsub)
        self.nsub += 1
        if key in self.subcache:
            res, nid = self.subcache[key]
            self.nid = nid
            return res
        saved = dict(heap=self.heap, nid=self.nid, mats=self.mats, pc=self.pc, foralls=self.foralls, idx=self.idx,
                     idx_ids=self.idx_ids, prefix=self.prefix, dec=self.dec, decc=self.decc, keystack=self.keystack, nsub=self.nsub,
                     work=self.work, sums=self.sums, folds=self.folds, counts=self.counts, counters=self.counters, named=self.named, famupd=self.famupd, trace=self.trace, events=self.events, skolem=self.skolem)
        start = self.nid
        out = []
        maxid = start
        work = [()]
        nobl = len(self.obls)
        try:
            while work:
                self.tick()
                p = work.pop()
                self.heap = dict(saved['heap'])
                self.nid = start
                self.mats = list(saved['mats'])
                self.pc = []
                self.foralls = list(saved['foralls'])
                nf0 = len(self.foralls)
                self.idx = list(saved['idx'])
                self.idx_ids = set(saved['idx_ids'])
                self.sums = list(saved['sums'])
                self.folds = list(saved['folds'])
                self.counts = [(a, b, c, dict(d)) for a, b, c, d in saved['counts']]
                self.counters = list(saved['counters'])
                self.named = list(saved['named'])
                self.famupd = dict(saved['famupd'])
                self.trace = list(saved['trace'])
                self.events = list(saved['events']) if saved['events'] is not None else None
                self.skolem = list(saved['skolem'])
                self.prefix = p
                self.dec = []
                self.decc = []
                self.keystack = key
                self.nsub = 0
                self.work = work
                self.innerflag.append(False)
                self.stats['subpaths'] += 1
                if self.stats['subpaths'] > 200000:
                    raise Budget('sub path budget')
                self.solver.push()
                try:
                    r = PathRes()
                    try:
                        r.value = fn()
                    finally:
                        r.inner = self.innerflag.pop()
                    r.facts = list(self.pc)
                    r.decs = list(self.decc) if all(d is not None for d in self.decc) else None
                    r.foralls = self.foralls[nf0:]
                    r.idx = self.idx[len(saved['idx']):]
                    r.heap = self.heap
                    r.h0 = saved['heap']
                    r.mats = self.mats
                    r.sums = self.sums
                    r.famupd = self.famupd
                    r.events = self.events
                    r.trace = self.trace
                    out.append(r)
                except Infeasible:
                    pass
                finally:
                    self.solver.pop()
                maxid = max(maxid, self.nid)
        finally:
            for k, v in saved.items():
                setattr(self, k, v)
            self.nid = maxid
        if keep:
            self.subcache[key] = (out, maxid)
        return out

    # ---- obligations
    def prove(self, name, c, detail=''):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        s = z3.simplify(c)
        if z3.is_true(s):
            self.obls.append(Obl(name, 'discharged'))
            return True
        t0 = time.time()
        r, m = self._check(z3.Not(c))
        st = 'discharged' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'
        if st == 'unknown':
            st, m = self.second_opinion(c)
        elif st == 'refuted' and not self.exact:
            st, m = self.second_opinion(c)
        o = Obl(name, st, m, detail, time.time() - t0)
        if self.keep_smt is not None and st == 'discharged':
            self.keep_smt.append((name, self.smt2(c)))
        self.obls.append(o)
        return st == 'discharged'

    def smt2(self, c):
        s = z3.Solver()
        for f in self.pc_all():
            s.add(f)
        s.add(z3.Not(c))
        return s.to_smt2()

    def pc_all(self):
        return list(self.solver.assertions())

    def second_opinion(self, c):
        self.stats['second'] = self.stats.get('second', 0) + 1
        s = z3.Solver()
        s.set('timeout', self.timeout)
        for f in self.pc_all():
            s.add(f)
        s.add(z3.Not(c))
        r = s.check()
        if r == z3.unsat:
            return 'discharged', None
        if r == z3.sat:
            return 'refuted', s.model()
        from . import backend
        v = backend.cvc5_check(self.smt2(c), self.timeout / 1000.0)
        if v == 'unsat':
            return 'discharged', None
        return 'unknown', None

    def is_valid(self, c):
        """Does c follow from the path condition?  (no obligation recorded)"""
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return not self.feasible(z3.BoolVal(True))
        r, _ = self._check(z3.Not(c))
        return r == z3.unsat


# ---------------------------------------------------------------- families of unknown input objects
class HiddenRec:
    """Member of a family that a loop may rewrite: its state is the family's, the object itself must not be used."""


class HiddenRead(Unsup):
    def __init__(self, oid):
        Unsup.__init__(self, 'object read while its family is rewritten by a loop')
        self.oid = oid


class Fam:
    """Unknown input objects indexed by key terms; maker(ctx, key) builds the record of one of them."""

    def __init__(self, ctx, bid, maker):
        self.bid, self.maker = bid, maker
        ctx.bases[bid] = self

    def at(self, ctx, key):
        key = tuple(key)
        for (bid, k, oid, _o) in reversed(ctx.mats):
            if bid == self.bid and all(a.eq(b) for a, b in zip(k, key)):
                return Ref(oid)
        for (bid, k, oid, _o) in reversed(ctx.mats):
            if bid == self.bid:
                c = z3.And(*[a == b for a, b in zip(k, key)]) if key else z3.BoolVal(True)
                if ctx.fork(c):
                    return Ref(oid)
        rec = None
        for upd in reversed(ctx.famupd.get(self.bid, ())):
            rec = upd.find(ctx, key)
            if rec is not None:
                break
        if rec is None:
            rec = self.maker(ctx, key)
        r = ctx.alloc(rec)
        ctx.mats.append((self.bid, key, r.o, rec))
        return r


class FamUpd:
    """All members at key_a(t), t in [0,n) under alt a were rewritten by a loop."""

    def __init__(self, n, alts, total=False):
        self.n, self.alts = n, alts      # alts: (LoopAlt, key terms, oid)
        self.total = total               # every iteration rewrites the member at the (common) key

    def find(self, ctx, key):
        opts = len(self.alts) + 1
        c = ctx.choose_any(opts)
        if c == 0:
            if self.total:
                v = z3.Int('fu!%d' % ctx.fresh_id())
                a, k, _ = self.alts[0]
                ctx.add_forall(Forall(v, z3.IntVal(0), self.n, z3.Not(z3.And(*[a._s(x, v) == y for x, y in zip(k, key)]))))
            elif all(a.simple for a, _, _ in self.alts):
                v = z3.Int('fu!%d' % ctx.fresh_id())
                body = z3.Not(z3.Or(*[z3.And(a.cond(v), *[a._s(x, v) == y for x, y in zip(k, key)])
                                      for a, k, _ in self.alts]))
                ctx.add_forall(Forall(v, z3.IntVal(0), self.n, body))
            if not ctx.feasible(z3.BoolVal(True)):
                raise Infeasible()
            return None
        a, k, oid = self.alts[c - 1]
        w = ctx.fresh('int', 'w')
        ctx.assume(z3.And(w >= 0, w < self.n))
        ctx.index_term(w)
        a.assume(ctx, w)
        for x, y in zip(k, key):
            ctx.assume(a._s(x, w) == y)
        if not ctx.feasible(z3.BoolVal(True)):
            raise Infeasible()
        return Inst(ctx, a, w).rec(a.heap[oid])


class MapBase:
    """Unknown finite map (owner args) -> string keys -> members of a family or scalars."""

    def __init__(self, ctx, name, val, args=(), valfam=None):
        self.name, self.val, self.args, self.ctx = name, val, tuple(args), ctx
        ss = [a.sort() for a in self.args]
        self.N = ctx.fn(name + '.n', *(ss + [I])) if ss else None
        self.HAS = ctx.fn(name + '.has', *(ss + [S, B]))
        self.IDX = ctx.fn(name + '.idx', *(ss + [S, I]))
        self.KEY = ctx.fn(name + '.key', *(ss + [I, S]))

    @property
    def n(self):
        return self.N(*self.args) if self.args else z3.Int(self.name + '.n')

    def has(self, ctx, k):
        kt = kterm(k)
        if kt is None:
            return z3.BoolVal(False)
        h = self.HAS(*self.args, kt)
        i = self.IDX(*self.args, kt)
        tag = ('has', h.get_id())
        ctx.assume(self.n >= 0)
        ctx.assume(z3.Implies(h, z3.And(i >= 0, i < self.n, self.KEY(*self.args, i) == kt)))
        ctx.index_term(i)
        return h

    def value(self, ctx, k):
        return self.val(ctx, self.args + (kterm(k),))

    def key_at(self, ctx, t):
        k = self.KEY(*self.args, t)
        ctx.assume(z3.Implies(z3.And(t >= 0, t < self.n),
                              z3.And(self.HAS(*self.args, k), self.IDX(*self.args, k) == t)))
        return Sym('str', k)

    def keys_gen(self, ctx):
        ctx.assume(self.n >= 0)
        me = self

        def el(c, args, t):
            b = me.with_args(args)
            return b.key_at(c, t)
        return BaseGen(self.n, el, self.args, self.name + '.keys', lambda c, args, k: me.with_args(args).has(c, k))

    def with_args(self, args):
        b = object.__new__(type(self))
        b.__dict__.update(self.__dict__)
        b.args = tuple(args)
        return b

    def inst(self, ins):
        return self.with_args([ins.z(a) for a in self.args])

    def same(self, o):
        if not isinstance(o, MapBase) or o.name != self.name:
            return None
        return z3.And(*[a == b for a, b in zip(self.args, o.args)]) if self.args else z3.BoolVal(True)


class AttrBase:
    """Unknown attribute dictionary with a schema: key -> (presence, value maker)."""

    def __init__(self, schema, args):
        self.schema, self.args = schema, tuple(args)

    def has(self, ctx, k):
        if not isinstance(k, str):
            raise Unsup('symbolic key into attribute dictionary')
        return self.schema.has(ctx, k, self.args)

    def value(self, ctx, k):
        return self.schema.value(ctx, k, self.args)

    def keys_gen(self, ctx):
        raise Unsup('iteration over attribute dictionary of unknown shape')

    def inst(self, ins):
        return AttrBase(self.schema, [ins.z(a) for a in self.args])

    def same(self, o):
        if not isinstance(o, AttrBase) or o.schema is not self.schema and o.schema.name != self.schema.name:
            return None
        return z3.And(*[a == b for a, b in zip(self.args, o.args)]) if self.args else z3.BoolVal(True)


def kterm(k):
    if isinstance(k, str):
        return z3.StringVal(k)
    if isinstance(k, Sym) and k.k == 'str':
        return k.t
    return None


class Schema:
    """fields: key -> (presence, kind/maker).  presence: True | 'opt' | False.
    kind: 'str' | 'int' | 'real' | 'bool' | callable(ctx, owner args) -> value.
    unknown keys: optional strings."""

    def __init__(self, name, fields, closed=False, facts=None):
        self.name, self.fields, self.closed, self.facts = name, fields, closed, facts

    def has(self, ctx, k, args):
        p = self.fields[k][0] if k in self.fields else (False if self.closed else 'opt')
        if p is True:
            return z3.BoolVal(True)
        if p is False:
            return z3.BoolVal(False)
        if callable(p):
            return p(ctx, args)
        ss = [a.sort() for a in args]
        return ctx.fn('%s.has.%s' % (self.name, k), *(ss + [B]))(*args)

    def value(self, ctx, k, args):
        kind = self.fields[k][1] if k in self.fields else 'str'
        if callable(kind):
            return kind(ctx, args)
        ss = [a.sort() for a in args]
        return Sym(kind, ctx.fn('%s.%s' % (self.name, k), *(ss + [SORT[kind]]))(*args))
