"""Loops by invariant: an arbitrary iteration from an arbitrary state that satisfies the invariant.

What a loop changes is found by running an iteration; everything changed is arbitrary at the start of the generic iteration,
except for the candidate invariants that every iteration keeps (those that do not hold initially or are not kept are dropped).
Obligations met inside the body are stated for the generic iteration."""
import z3
from .core import *
from .ops import *
from .interp import BreakEx, ContinueEx, ReturnEx, PyRaise
from . import loops


import os
DEBUG = os.environ.get('PYV_DEBUG')


class NotForThis(Exception):
    """The loop is not of this form: use the summary."""


class All:
    """Invariant for all strings: stated for an arbitrary one, known for all."""

    def __init__(self, ctx, any, fn):
        self.ctx, self.any, self.fn = ctx, any, fn

    def __call__(self, v, i):
        return self.fn(zt(v), i, self.any)

    def known(self, v, i):
        self.ctx.add_forall(every(lambda y: self.fn(zt(v), i, y)))
        return z3.BoolVal(True)


def every(fn):
    y = z3.String('every!')
    return Forall(y, None, None, fn(y))


class Rule:
    """candidates(loc, init) -> [fn(value, i) -> z3 bool]  (fn.known: what may be assumed of it, if it is stated for an arbitrary
    witness);  measure(ip) -> int term that bounds the iterations of a while loop;  fresh(loc, init) -> value, or None if the slot has no arbitrary value."""

    def candidates(self, ctx, loc, init):
        return [lambda v, i: zt(v) == zt(init), lambda v, i: zt(v) >= zt(init), lambda v, i: zt(v) <= zt(init)] if kind_of(init) == 'int' else []

    loop = None         # what begin() said about the loop at hand

    def begin(self, ip, g):
        """g: the sequence a for loop runs over, None for a while loop."""
        return None

    def measure(self, ip):
        return None

    def fresh(self, ctx, loc, init):
        k = kind_of(init)
        if k is None:
            return None
        return Sym(k, z3.Const('any!%d' % ctx.fresh_id(), SORT[k]))


def for_loop(ip, segs, body, rule):
    if len(segs) != 1 or not isinstance(segs[0], Gen) or not ip.one_each(segs[0]):
        raise NotForThis()
    g = segs[0]
    n = g.n

    def iteration(i):
        ip.ctx.assume(z3.And(i >= 0, i < n))
        ip.ctx.index_term(i)
        body(ip.gen_pick(g, i)[0].v)
    ip.ctx.assume(n >= 0)
    ip.ctx.assume(run(ip, iteration, rule, g) == n)


def while_loop(ip, test, body, rule):
    def iteration(i):
        ip.ctx.assume(i >= 0)
        if not test():
            raise Infeasible()
        m = rule.measure(ip)
        body()
        ip.ctx.prove('the loop ends', m is not None and z3.And(m >= 0, rule.measure(ip) < m))
    run(ip, iteration, rule)
    if test():
        raise Infeasible()


def run(ip, iteration, rule, g=None):
    """Leaves the heap in an arbitrary state that satisfies the invariant; returns the function that states it for an index."""
    ctx = ip.ctx
    loop = rule.begin(ip, g)
    h0 = ctx.heap
    nobl = len(ctx.obls)
    active = {}         # loc -> candidates still standing
    locals_ = set()     # variables first assigned in the loop
    for attempt in range(40):
        del ctx.obls[nobl:]
        ctx.heap = dict(h0)
        i = z3.Int('i!%d' % ctx.fresh_id())
        vals = {}
        for loc in active:
            init = loops.get_slot(h0, loc)
            vals[loc] = rule.fresh(ctx, loc, init)
            loops.set_slot(ctx, loc, vals[loc])
        for loc in locals_:
            loops.set_slot(ctx, loc, loops.Poison(loc))
        cur, dep = ip.curexc, ip.depth

        def go():
            for loc, cs in active.items():
                for c in cs.values():
                    ctx.assume(getattr(c, 'known', c)(vals[loc], i))
            try:
                iteration(i)
            except (BreakEx, ReturnEx):
                return 'exit', None
            except PyRaise:
                ctx.prove('no exception inside the loop', False)
                return 'raise', None
            bad = []
            for loc, cs in active.items():
                v = loops.get_slot(ctx.heap, loc)
                for k, c in cs.items():
                    if kind_of(v) != kind_of(vals[loc]) or ctx._check(z3.Not(c(v, i + 1)))[0] != z3.unsat:
                        bad.append((loc, k))     # by number: results are reused when the path is run again
            return 'ok', bad
        try:
            paths = ctx.subexplore(go)
        finally:
            ip.curexc, ip.depth = cur, dep
            ctx.heap = dict(h0)
        if DEBUG:
            print('attempt', attempt, len(paths), {l: len(c) for l, c in active.items()}, len(ctx.obls) - nobl, len(ctx.idx), ctx.stats)
        if any(p.value[0] == 'exit' for p in paths):
            del ctx.obls[nobl:]
            raise NotForThis()
        again = False
        for p in paths:
            if p.value[0] != 'ok':
                continue
            for loc in loops.diff(ip, p.h0, p.heap):
                if loc in active or loc in locals_:
                    continue
                if loc[0] == 'env' and loops.get_slot(h0, loc) is ABSENT:
                    locals_.add(loc)
                    again = True
                    continue
                if g is not None and loc[:2] == ('attr', getattr(g, 'source', None)):
                    raise Unsup('list changed while a loop runs over it')
                if loc[0] not in ('env', 'attr', 'key'):
                    del ctx.obls[nobl:]
                    raise NotForThis()
                init = loops.get_slot(h0, loc)
                if isinstance(init, loops.Poison):
                    locals_.add(loc)
                    again = True
                    continue
                if loc[0] == 'env' and rule.fresh(ctx, loc, init) is None:
                    locals_.add(loc)
                    again = True
                    continue
                if init is ABSENT or rule.fresh(ctx, loc, init) is None:
                    del ctx.obls[nobl:]
                    raise NotForThis()
                # candidates that hold initially
                rule.loop = loop
                active[loc] = {k: c for k, c in enumerate(rule.candidates(ctx, loc, init)) if ctx._check(z3.Not(c(init, z3.IntVal(0))))[0] == z3.unsat}
                again = True
            for loc, k in p.value[1]:
                if DEBUG and k in active[loc]:
                    c = active[loc][k]
                    print('   dropped', loc, k, 'line', getattr(c, 'fn', c).__code__.co_firstlineno)
                if active[loc].pop(k, None) is not None:
                    again = True
        if not again:
            break
    else:
        raise Unsup('no invariant found')
    if not active:
        if len(ctx.obls) == nobl:
            raise NotForThis()      # nothing but lists: the summary knows more
    for loc in locals_:
        loops.set_slot(ctx, loc, loops.Poison(loc))
    last = z3.Int('end!%d' % ctx.fresh_id())
    ctx.assume(last >= 0)
    ends = []
    for loc, cs in active.items():
        v = rule.fresh(ctx, loc, loops.get_slot(h0, loc))
        loops.set_slot(ctx, loc, v)
        for c in cs.values():
            ends.append((c, v))
    for c, v in ends:
        ctx.assume(getattr(c, 'known', c)(v, last))
    return last
