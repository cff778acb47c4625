"""Loop summaries: one generic iteration is executed for an arbitrary index; the effect of all iterations is derived."""
import ast
import z3
from .core import *
from .ops import *
from .interp import (BreakEx, ContinueEx, ReturnEx, PointW, FuncVal)
from . import paths as pathseq


class Exit:
    def __init__(self, kind):
        self.kind = kind


def occurs(term, const):
    seen = set()
    st = [term]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(const):
            return True
        st.extend(x.children())
    return False


def diff(ip, h0, h1, path_mats=()):
    """Locations of pre-existing objects changed between heaps h0 and h1."""
    out = []
    for oid, r0 in h0.items():
        r1 = h1.get(oid)
        if r1 is r0:
            continue
        if isinstance(r0, EnvRec):
            for k in set(r0.vars) | set(r1.vars):
                if k not in r1.vars:
                    raise Unsup('variable deleted in loop')
                if k not in r0.vars or r0.vars[k] is not r1.vars[k] and not same_val(r0.vars[k], r1.vars[k]):
                    out.append(('env', oid, k))
        elif isinstance(r0, InstRec):
            for k in set(r0.attrs) | set(r1.attrs):
                if k not in r0.attrs or k not in r1.attrs or not same_val(r0.attrs[k], r1.attrs[k]):
                    out.append(('attr', oid, k))
        elif isinstance(r0, ListRec):
            if len(r0.segs) != len(r1.segs) or any(a is not b for a, b in zip(r0.segs, r1.segs)):
                out.append(('list', oid))
        elif isinstance(r0, DictRec):
            if r0.layers is r1.layers:
                continue
            d = dict_diff(r0, r1)
            if d is None:
                out.append(('dict', oid))
            else:
                out.extend(('key', oid, k) for k in d)
        else:
            raise Unsup('loop changes %s' % type(r0).__name__)
    return out


def same_val(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (str, int, float, bool, type(None), Ref, Sym)):
        return a == b
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, Poison):
        return a.loc == b.loc
    if hasattr(a, 'same_host'):
        return a.same_host(b)
    return False


def dict_diff(r0, r1):
    """Concrete keys written, or None for symbolic keys."""
    l0 = list(r0.layers)
    l1 = list(r1.layers)
    keys = []
    n0 = len(l0)
    for i, l in enumerate(l1):
        if i < n0 and l is l0[i]:
            continue
        if not isinstance(l, Pt) or not isinstance(l.k, str) or l.v is ABSENT:
            return None
        if i < n0:
            o = l0[i]
            if not isinstance(o, Pt) or o.k != l.k:
                return None
            if o.v is not ABSENT and same_val(o.v, l.v):
                continue
        keys.append(l.k)
    if len(l1) < n0:
        return None
    # concrete keys only make sense when every other layer has concrete keys or base is an attribute dictionary
    if any(isinstance(l, Pt) and not isinstance(l.k, str) for l in l1):
        return None
    if r0.base is not None and not isinstance(r0.base, AttrBase):
        return None
    return keys


def get_slot(heap, loc):
    r = heap[loc[1]]
    if loc[0] == 'env':
        return r.vars.get(loc[2], ABSENT)
    if loc[0] == 'attr':
        return r.attrs.get(loc[2], ABSENT)
    if loc[0] == 'key':
        for l in reversed(r.layers):
            if isinstance(l, Pt) and l.k == loc[2]:
                return l.v
        return ABSENT
    raise KeyError(loc)


def set_slot(ctx, loc, v):
    r = ctx.heap[loc[1]]
    if loc[0] == 'env':
        d = dict(r.vars)
        d[loc[2]] = v
        ctx.heap[loc[1]] = EnvRec(d)
    elif loc[0] == 'attr':
        d = dict(r.attrs)
        d[loc[2]] = v
        ctx.heap[loc[1]] = InstRec(r.cls, d)
    elif loc[0] == 'key':
        ls = list(r.layers)
        for i in range(len(ls) - 1, -1, -1):
            if isinstance(ls[i], Pt) and ls[i].k == loc[2]:
                ls[i] = Pt(loc[2], v)
                break
        else:
            ls.append(Pt(loc[2], v))
        ctx.heap[loc[1]] = DictRec(ls, r.base, r.kind)


def summarise(ip, g, body):
    """Execute `for x in g: body(x)` for all indices.  body may raise BreakEx/ReturnEx/PyRaise (early exit)."""
    ctx = ip.ctx
    ctx.assume(g.n >= 0)
    if z3.is_int_value(z3.simplify(g.n)):
        k = z3.simplify(g.n).as_long()
        if k <= 4:
            for j in range(k):
                for s in ip.gen_pick(g, z3.IntVal(j)):
                    if isinstance(s, Lit):
                        body(s.v)
                    else:
                        summarise(ip, s, body)
            return
    h_outer = ctx.heap
    n = g.n
    M = {}          # loc -> mode
    ph = {}         # loc -> placeholder
    hidden, keep = {}, set()
    unsteady = set()
    mats0 = ctx.mats
    for attempt in range(60):
        if hidden:
            h_outer = dict(h_outer)
            h_outer.update({o: HiddenRec() for o in hidden})
            ctx.mats = [m for m in mats0 if m[2] not in hidden]
        ctx.heap = dict(h_outer)
        i = z3.Int('i!%d' % ctx.fresh_id())
        ph = {}
        reads = []
        for loc, mode in M.items():
            ph[loc] = place(ip, loc, mode, h_outer, reads)
        hp = ctx.heap
        start = ctx.nid

        def run():
            ctx.skolem = ctx.skolem + [i]
            ctx.assume(z3.And(i >= 0, i < n))
            ctx.index_term(i)
            for loc, mode in M.items():
                if isinstance(mode, Step):
                    set_slot(ctx, loc, mode.before(ip, i, get_slot(h_outer, loc)))
                if isinstance(mode, Prev):
                    set_slot(ctx, loc, mode.before(i, get_slot(h_outer, loc)))
                    if mode.facts:
                        ctx.assume(z3.Implies(i > 0, z3.substitute(z3.And(*mode.facts), (mode.var, i - 1))))
            segs = ip.gen_pick(g, i)
            try:
                for s in segs:
                    if isinstance(s, Lit):
                        body(s.v)
                    else:
                        summarise(ip, s, body)
            except BreakEx:
                return Exit('break')
            except ReturnEx:
                return Exit('return')
            except PyRaise:
                return Exit('raise')
            return None
        cur = ip.curexc
        dep = ip.depth
        try:
            paths = ctx.subexplore(run)
        except PoisonRead as pr:
            ip.curexc, ip.depth = cur, dep
            ctx.heap = h_outer
            upgrade(ip, M, pr.loc, h_outer)
            continue
        except HiddenRead as hr:
            if hr.oid not in hidden:
                raise
            ip.curexc, ip.depth = cur, dep
            # the body uses the object: keep it visible
            h_outer = dict(h_outer)
            for o, rec in hidden.items():
                h_outer[o] = rec
            keep |= set(hidden)
            hidden, M = {}, {}
            ctx.mats = mats0
            ctx.heap = h_outer
            continue
        finally:
            ip.depth = dep
        ctx.heap = h_outer
        more = {m[2]: m[3] for m in mats0 for p in paths if p.value is None and m[2] not in keep and m[2] not in hidden
                and h_outer.get(m[2]) is m[3] and p.heap.get(m[2]) is not p.h0.get(m[2]) and rec_changed(p.h0[m[2]], p.heap[m[2]])}
        if more:
            hidden.update(more)
            M = {l: m for l, m in M.items() if l[1] not in hidden}
            continue
        new = False
        for p in paths:
            if p.value is not None:
                continue        # exits: effects are replayed concretely
            for loc in diff(ip, p.h0, p.heap):
                if loc not in M:
                    M[loc] = 'poison' if loc[0] in ('env', 'attr', 'key') else loc[0]
                    new = True
                    # a dictionary-level change subsumes key-level ones
                    if loc[0] == 'dict':
                        for l2 in list(M):
                            if l2[0] == 'key' and l2[1] == loc[1]:
                                del M[l2]
                    if loc[0] == 'key' and ('dict', loc[1]) in M:
                        del M[loc]
        if new:
            continue
        # check accumulator shapes
        bad = False
        for loc, mode in list(M.items()):
            if mode == 'acc':
                for p in paths:
                    if p.value is None:
                        v = get_slot(p.heap, loc)
                        if not is_num(v):
                            M[loc] = 'any'
                            bad = True
                            break
                        d = acc_delta(v, ph[loc])
                        if d is None:
                            M[loc] = 'prev'
                            bad = True
                            break
                if M[loc] == 'acc' and loc not in unsteady:
                    ds = [acc_delta(get_slot(p.heap, loc), ph[loc]) for p in paths if p.value is None]
                    if ds and kind_of(get_slot(h_outer, loc)) == 'int' and all(z3.is_int_value(d) and d.eq(ds[0]) for d in ds):
                        M[loc] = Step(ds[0])
                        bad = True
            elif isinstance(mode, Step):
                # still the same step, now that the value is known
                want = zt(mode.before(ip, i, get_slot(h_outer, loc))) + mode.d
                for p in paths:
                    if p.value is None:
                        v = get_slot(p.heap, loc)
                        if not is_num(v) or not z3.simplify(zt(v) - want).eq(z3.IntVal(0)):
                            unsteady.add(loc)
                            M[loc] = 'acc'
                            bad = True
                            break
            elif mode == 'prev':
                hold = [x for l, m in M.items() if m in ('acc', 'any', 'prev') for x in leaves(ph[l]) if isinstance(x, Sym)]
                v0 = get_slot(h_outer, loc)
                pv = find_prev(ctx, loc, paths, hold, i, v0)
                if pv is not None:
                    M[loc] = pv
                elif isinstance(v0, tuple):
                    raise Unsup('loop-carried tuple %r' % (loc,))
                else:
                    M[loc] = 'any'
                bad = True
        if not bad and any(m == 'fold' for m in M.values()):
            # slots written together with a folded one are folded with it
            for loc, mode in list(M.items()):
                if mode == 'poison' and foldable(ip, loc, paths, h_outer):
                    M[loc] = 'fold'
                    bad = True
        if bad:
            continue
        break
    else:
        raise Unsup('loop summary did not converge')
    ctx.heap = dict(h_outer)
    normal = [p for p in paths if p.value is None]
    exits = [p for p in paths if p.value is not None]
    alts = [LoopAlt(i, p.facts, p.foralls, (), p.heap, p.mats, start, p.inner) for p in normal]
    for a, p in zip(alts, normal):
        a.decs = p.decs
        a.idx = [x for x in p.idx if not x.eq(i) and occurs(x, i)]
    fams = fam_updates(ip, normal, alts, start, n, i, hp)
    check_reads(ip, reads, normal, alts, n, i)

    # placeholders appearing in facts or emitted values make the summary path dependent
    holders = [ph[l] for l, m in M.items() if m in ('acc', 'any', 'fold') and isinstance(ph[l], Sym)]
    dep_facts = any(occurs(f, h.t) for p in paths for f in p.facts for h in holders)

    if hidden and not fams:
        h_outer = dict(h_outer)
        h_outer.update(hidden)
        ctx.heap.update(hidden)
        ctx.mats = mats0

    def leave(nn):
        apply(ip, M, ph, normal, alts, nn, h_outer, i, holders, fams)

    if exits:
        conds = z3.Or(*[a.cond(i) for a in alts]) if alts else z3.BoolVal(False)
        if dep_facts:
            conds = z3.BoolVal(True)
        var = z3.Int('x!%d' % ctx.fresh_id())
        body_c = z3.substitute(conds, (i, var))
        if ctx.choose_any(2) == 0:
            w = ctx.fresh('int', 'exit')
            ctx.assume(z3.And(w >= 0, w < n))
            ctx.add_forall(Forall(var, z3.IntVal(0), w, body_c))
            ctx.index_term(w)
            leave(w)
            if not ctx.feasible(z3.BoolVal(True)):
                raise Infeasible()
            for s in ip.gen_pick(g, w):
                if isinstance(s, Lit):
                    body(s.v)
                else:
                    summarise(ip, s, body)
            raise Infeasible()      # iteration w must be the exit
        ctx.add_forall(Forall(var, z3.IntVal(0), n, body_c))
        leave(n)
        if not ctx.feasible(z3.BoolVal(True)):
            raise Infeasible()
        return
    if not normal:
        # no feasible iteration at all
        ctx.assume(n == 0)
        return
    leave(n)


class Step:
    """Counter that every iteration increases by the same number."""

    def __init__(self, d):
        self.d = d

    def before(self, ip, i, init):
        return ip.binop('+', init, mk('int', self.d * i if not self.d.eq(z3.IntVal(1)) else i))


def acc_delta(v, a):
    k, tv, ta = num_pair(v, a)
    d = z3.simplify(tv - ta)
    at = zt(a)
    if occurs(d, at):
        return None
    return d


def place(ip, loc, mode, h_outer, reads):
    ctx = ip.ctx
    if mode == 'poison':
        p = Poison(loc)
        set_slot(ctx, loc, p)
        return p
    if mode in ('acc', 'any'):
        v0 = get_slot(h_outer, loc)
        k = kind_of(v0)
        if mode == 'acc' and k == 'bool':
            k = 'int'
        if M_REAL.get(loc):
            k = 'real'
        s = Sym(k, z3.Const('acc!%d' % ctx.fresh_id(), SORT[k]))
        set_slot(ctx, loc, s)
        return s
    if mode == 'prev':
        # the value an iteration finds is the one the previous iteration left: first find what an iteration leaves
        s = shaped(ctx, get_slot(h_outer, loc))
        set_slot(ctx, loc, s)
        return s
    if isinstance(mode, (Prev, Step)):
        return None
    if mode == 'fold':
        t = z3.Const('fold!%d' % ctx.fresh_id(), S)
        set_slot(ctx, loc, pathseq.path(ip, t))
        return Sym('str', t)
    if mode == 'list':
        old = h_outer[loc[1]]
        ctx.heap[loc[1]] = ListRec([AccSeg(loc[1])], old.kind)
        return None
    if mode == 'dict':
        old = h_outer[loc[1]]
        ctx.heap[loc[1]] = DictRec([AccLayer(loc[1], old, reads)], None, old.kind)
        return None
    if mode == 'top':
        raise Unsup('loop-carried value outside the summarisable forms: %r' % (loc,))
    raise Unsup('mode %s' % mode)


class Prev:
    """Carried slot whose value after iteration i is val(i), whatever it was before."""

    def __init__(self, var, val, facts):
        self.var, self.val, self.facts = var, val, facts

    def at(self, t, v=None):
        v = self.val if v is None else v
        if isinstance(v, tuple):
            return tuple(self.at(t, x) for x in v)
        return mk(v.k, z3.substitute(v.t, (self.var, t))) if isinstance(v, Sym) else v

    def before(self, i, init):
        """Value found by iteration i."""
        def mix(a, b):
            if isinstance(a, tuple):
                return tuple(mix(x, y) for x, y in zip(a, b))
            if kind_of(a) == kind_of(b):
                return mk(kind_of(a), z3.If(i <= 0, zt(a), zt(b)))
            k, x, y = num_pair(a, b)
            return mk(k, z3.If(i <= 0, x, y))
        return mix(init, self.at(i - 1))


def shaped(ctx, v):
    if isinstance(v, tuple):
        return tuple(shaped(ctx, x) for x in v)
    k = kind_of(v)
    return Sym(k, z3.Const('prev!%d' % ctx.fresh_id(), SORT[k]))


def can_prev(v):
    if isinstance(v, tuple):
        return all(can_prev(x) for x in v)
    return kind_of(v) is not None


def leaves(v):
    return [x for y in v for x in leaves(y)] if isinstance(v, tuple) else [v]


def same_shape(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(same_shape(x, y) for x, y in zip(a, b))
    return kind_of(a) == kind_of(b) or is_num(a) and is_num(b)


def find_prev(ctx, loc, paths, hold, i, v0):
    """Prev for the slot, or None."""
    normal = [p for p in paths if p.value is None]
    vs = [get_slot(p.heap, loc) for p in normal]
    if not vs or any(not can_prev(v) or not same_shape(v, v0) for v in vs):
        return None
    bad = [h.t for h in hold]
    for p, v in zip(normal, vs):
        for x in leaves(v):
            if isinstance(x, Sym) and any(occurs(x.t, h) for h in bad):
                return None
        if len(normal) > 1 and (p.decs is None or p.inner or any(occurs(f, h) for f in p.decs for h in bad)):
            return None

    def mix(c, a, b):
        if isinstance(a, tuple):
            return tuple(mix(c, x, y) for x, y in zip(a, b))
        if kind_of(a) == kind_of(b):
            return mk(kind_of(a), z3.If(c, zt(a), zt(b)))
        k, x, y = num_pair(a, b)
        return mk(k, z3.If(c, x, y))
    val = vs[0]
    for p, v in zip(normal[1:], vs[1:]):
        val = mix(z3.And(*p.decs) if p.decs else z3.BoolVal(True), v, val)
    facts = [f for f in normal[0].facts if not any(occurs(f, h) for h in bad)] if len(normal) == 1 else []
    return Prev(i, val, facts)


M_REAL = {}


def upgrade(ip, M, loc, h_outer):
    """A location was read before being written in the iteration."""
    mode = M.get(loc)
    if loc[0] in ('env', 'attr', 'key'):
        v0 = get_slot(h_outer, loc)
        if isinstance(v0, Poison):
            raise PoisonRead(v0.loc)        # carried by an enclosing loop
        if mode == 'poison':
            if is_num(v0):
                M[loc] = 'acc'
                return
            if can_prev(v0):
                M[loc] = 'prev'
                return
            if hasattr(ip, 'pathcls') and loc[0] == 'env' and pathseq.key_of(ip, v0) is not None:
                M[loc] = 'fold'
                return
    raise Unsup('loop-carried %s is read inside the loop' % (loc,))


def apply(ip, M, ph, normal, alts, nn, h_outer, i, holders, fams):
    """Install the state after nn iterations (all normal)."""
    ctx = ip.ctx
    folds = [l for l, m in M.items() if m == 'fold']
    if folds:
        apply_folds(ip, folds, ph, normal, nn, h_outer, i)
    for loc, mode in M.items():
        if mode == 'fold':
            continue
        if isinstance(mode, Step):
            set_slot(ctx, loc, mode.before(ip, nn, get_slot(h_outer, loc)))
        elif isinstance(mode, Prev):
            set_slot(ctx, loc, mode.before(nn, get_slot(h_outer, loc)))
        elif mode == 'poison':
            old = get_slot(h_outer, loc)
            set_slot(ctx, loc, Lazy(make_last(ip, loc, old, normal, alts, nn, holders), old is ABSENT and loc[0] == "key"))
        elif mode == 'acc':
            old = get_slot(h_outer, loc)
            ds = []
            ok = len(alts) == 1 or all(a.simple for a in alts)
            for p in normal:
                d = acc_delta(get_slot(p.heap, loc), ph[loc])
                if any(occurs(d, h.t) for h in holders):
                    ok = False
                ds.append(d)
            if any(occurs(f, h.t) for p in normal for f in p.facts for h in holders):
                ok = False
            real = any(d.sort() == R for d in ds) or kind_of(old) == 'real'
            if ok:
                w = z3.RealVal(0) if real else z3.IntVal(0)
                last = True
                for a, d in zip(alts, ds):
                    dd = z3.ToReal(d) if real and d.sort() == I else d
                    w = dd if last else z3.If(a.guard(i), dd, w)
                    last = False
                t = ip.sum_term(nn, i, w, z3.Or(*[a.cond(i) for a in alts]))
                set_slot(ctx, loc, ip.binop('+', old, mk('real' if real else 'int', t)))
            else:
                set_slot(ctx, loc, Sym('real' if real else 'int', ctx.fresh('real' if real else 'int', 'acc')))
                r = get_slot(ctx.heap, loc)
                if not real and all(not ctx.feasible(z3.And(z3.And(*p.facts), d < 0)) for p, d in zip(normal, ds)):
                    ctx.assume(r.t >= zt(old))
        elif mode == 'any':
            old = get_slot(h_outer, loc)
            k = kind_of(old)
            kinds = {kind_of(get_slot(p.heap, loc)) for p in normal} | {k}
            if len(kinds) != 1:
                raise Unsup('loop-carried value changes type')
            set_slot(ctx, loc, Sym(k, ctx.fresh(k, 'any')))
        elif mode == 'list':
            old = h_outer[loc[1]]
            las = []
            pointw = False
            for p, a in zip(normal, alts):
                segs = p.heap[loc[1]].segs
                if not segs or not (isinstance(segs[0], AccSeg) and segs[0].oid == loc[1]):
                    raise Unsup('loop changes a list other than by appending: %r %r -> %r' % (loc, [getattr(s,'name',s) for s in old.segs], [getattr(s,'name',s) for s in segs]))
                new = segs[1:]
                if any(isinstance(s, PointW) for s in new):
                    pointw = True
                if any(isinstance(s, AccSeg) for s in new):
                    raise Unsup('list accumulator used in value')
                la = LoopAlt(i, p.facts, p.foralls, new, p.heap, p.mats, a.start, p.inner)
                la.decs, la.idx = p.decs, a.idx
                check_holders(new, p, holders, a.start)
                las.append(la)
            if pointw:
                ctx.heap[loc[1]] = point_writes(ip, old, las, nn, i)
                continue
            if any(a._segs for a in las):
                ctx.heap[loc[1]] = ListRec(old.segs + (LoopGen(nn, las),), old.kind)
            else:
                ctx.heap[loc[1]] = old
        elif mode == 'dict':
            old = h_outer[loc[1]]
            las = []
            for p, a in zip(normal, alts):
                ls = p.heap[loc[1]].layers
                if not ls or not isinstance(ls[0], AccLayer):
                    raise Unsup('loop rewrites dictionary')
                segs = []
                for l in ls[1:]:
                    if not isinstance(l, Pt) or l.v is ABSENT:
                        raise Unsup('loop deletes dictionary entries')
                    segs.append(Lit((l.k, l.v)))
                check_holders(segs, p, holders, a.start)
                las.append(LoopAlt(i, p.facts, p.foralls, segs, p.heap, p.mats, a.start, p.inner))
                las[-1].decs, las[-1].idx = p.decs, a.idx
            ctx.heap[loc[1]] = DictRec(old.layers + (Bulk(LoopGen(nn, las)),), old.base, old.kind)
    for bid, entries in fams.items():
        ctx.famupd = dict(ctx.famupd)
        ks = [k for _, k, _ in entries]
        total = all(any(e[0] is a for e in entries) for a in alts) and \
            all(len(k) == len(ks[0]) and all(x.eq(y) for x, y in zip(k, ks[0])) for k in ks) and ks[0]
        ctx.famupd[bid] = tuple(ctx.famupd.get(bid, ())) + (FamUpd(nn, entries, bool(total)),)
    for p in normal:
        if p.events is not None and ctx.events is not None:
            pass
    ev = events_of(ctx, normal, alts, nn)


def slot_key(ip, p, loc):
    """Key of the sequence in a slot at the end of path p, or None."""
    ctx = ip.ctx
    h = ctx.heap
    ctx.heap = p.heap
    try:
        v = get_slot(p.heap, loc)
        if isinstance(v, (Poison, Lazy)):
            return None
        return pathseq.key_of(ip, v)
    except Unsup:
        return None
    finally:
        ctx.heap = h


def foldable(ip, loc, paths, h_outer):
    v0 = get_slot(h_outer, loc)
    if v0 is ABSENT or isinstance(v0, (Poison, Lazy)):
        return False
    try:
        if pathseq.key_of(ip, v0) is None:
            return False
    except Unsup:
        return False
    return all(isinstance(get_slot(p.heap, loc), Poison) or slot_key(ip, p, loc) is not None for p in paths if p.value is None)


class FoldSys:
    def __init__(self, n, i, init, hold, step, res):
        self.n, self.i, self.init, self.hold, self.step, self.res = n, i, init, hold, step, res


def apply_folds(ip, folds, ph, normal, nn, h_outer, i):
    """x(0) = init, x(i + 1) = step(i, x(i)): the result x(nn) is a symbol; two folds with the same number of rounds, the same
    initial value and provably equal steps (for every index and every carried value) have the same result."""
    ctx = ip.ctx
    init = [pathseq.key_of(ip, get_slot(h_outer, l)) for l in folds]
    hold = [ph[l].t for l in folds]
    step = []
    if len(normal) > 1 and any(p.decs is None or p.inner for p in normal):
        raise Unsup('folded loop: alternatives cannot be told apart')
    for l in folds:
        vals = [slot_key(ip, p, l) for p in normal]
        if any(v is None for v in vals):
            raise Unsup('folded loop: value outside the sequence model')
        t = vals[-1]
        for p, v in list(zip(normal, vals))[-2::-1]:
            t = z3.If(z3.And(*p.decs) if p.decs else z3.BoolVal(True), v, t)
        step.append(t)
    # each slot is folded together with the slots its step depends on, and no others
    m = len(folds)
    dep = [{b for b in range(m) if b == a or occurs(step[a], hold[b])} for a in range(m)]
    for _ in range(m):
        dep = [set().union(*[dep[b] for b in d]) for d in dep]
    res = [None] * m
    for a in sorted(range(m), key=lambda x: len(dep[x])):
        if res[a] is None:
            ks = sorted(dep[a])
            fold_system(ctx, FoldSys(nn, i, [init[k] for k in ks], [hold[k] for k in ks], [step[k] for k in ks],
                                     [res[k] for k in ks]), ks, res)
    for l, t in zip(folds, res):
        set_slot(ctx, l, pathseq.path(ip, t))


def fold_system(ctx, new, ks, res):
    import itertools
    for old in ctx.folds:
        if len(old.init) != len(ks):
            continue
        for perm in itertools.permutations(range(len(ks))):
            if fold_same(ctx, old, new, perm):
                for a, k in enumerate(ks):
                    if res[k] is None:
                        res[k] = old.res[perm[a]]
                return
    new.res = [r if r is not None else ctx.fresh('str', 'folded') for r in new.res]
    for k, r in zip(ks, new.res):
        res[k] = r
    ctx.folds = ctx.folds + [new]
    ctx.assume(z3.Implies(new.n <= 0, z3.And(*[r == a for r, a in zip(new.res, new.init)])))


def fold_same(ctx, old, new, perm):
    if not ctx.is_valid(z3.And(old.n == new.n, *[new.init[a] == old.init[perm[a]] for a in range(len(perm))])):
        return False
    j = z3.Int('fi!%d' % ctx.fresh_id())
    hs = [z3.Const('fa!%d' % ctx.fresh_id(), S) for _ in perm]
    f = ctx.fn('path.len', S, I)
    so = [z3.substitute(t, (old.i, j), *zip(old.hold, hs)) for t in old.step]
    sn = [z3.substitute(t, (new.i, j), *[(new.hold[a], hs[perm[a]]) for a in range(len(perm))]) for t in new.step]
    hyp = [j >= 0, j < new.n] + [f(h) >= 0 for h in hs]
    return ctx.is_valid(z3.Implies(z3.And(*hyp), z3.And(*[sn[a] == so[perm[a]] for a in range(len(perm))])))


def events_of(ctx, normal, alts, nn):
    return None


def check_holders(segs, p, holders, start):
    if not holders:
        return
    for h in holders:
        for f in p.facts:
            if occurs(f, h.t):
                raise Unsup('emitted elements depend on loop-carried state')
        if any(val_occurs(s.v, h.t, p.heap, start) for s in segs if isinstance(s, Lit)):
            raise Unsup('emitted value depends on loop-carried state')


def val_occurs(v, c, heap, start, seen=None):
    seen = seen if seen is not None else set()
    if isinstance(v, Sym):
        return occurs(v.t, c)
    if isinstance(v, tuple):
        return any(val_occurs(x, c, heap, start, seen) for x in v)
    if isinstance(v, Ref):
        if v.o <= start or v.o in seen:
            return False
        seen.add(v.o)
        r = heap[v.o]
        if isinstance(r, ListRec):
            return any(val_occurs(s.v, c, heap, start, seen) for s in r.segs if isinstance(s, Lit))
        if isinstance(r, DictRec):
            return any(val_occurs(l.v, c, heap, start, seen) or val_occurs(l.k, c, heap, start, seen)
                       for l in r.layers if isinstance(l, Pt) and l.v is not ABSENT)
        if isinstance(r, InstRec):
            return any(val_occurs(x, c, heap, start, seen) for x in r.attrs.values())
    return False


def point_writes(ip, old, las, nn, i):
    """L[k(i)] = v(i): supported when every iteration writes exactly position i of an indexed list of length nn."""
    ctx = ip.ctx
    if not (len(old.segs) == 1 and isinstance(old.segs[0], Gen) and ip.one_each(old.segs[0])):
        raise Unsup('item writes on a list of unknown shape')
    g = old.segs[0]
    out = []
    for a in las:
        if len(a._segs) != 1 or not isinstance(a._segs[0], PointW):
            raise Unsup('mixed list updates in loop')
        pw = a._segs[0]
        if not z3.simplify(pw.k - i).eq(z3.IntVal(0)):
            raise Unsup('item writes at other positions')
        out.append(LoopAlt(i, a._facts, a._foralls, (Lit(pw.v),), a.heap, a.mats, a.start, a.inner))
        out[-1].decs, out[-1].idx = a.decs, a.idx
    if ctx.is_valid(nn == g.n):
        return ListRec([LoopGen(nn, out)], old.kind)
    if ctx.is_valid(nn <= g.n):
        return ListRec([LoopGen(nn, out), OffGen(g, nn, g.n - nn)], old.kind)
    raise Unsup('item writes may be out of range')


def make_last(ip, loc, old, normal, alts, nn, holders):
    """Value of a slot after the loop: that of the last iteration which wrote it, or the old one."""
    ctx = ip.ctx
    writers = [(p, a) for p, a in zip(normal, alts) if not isinstance(get_slot(p.heap, loc), Poison)]
    others = [a for p, a in zip(normal, alts) if isinstance(get_slot(p.heap, loc), Poison)]
    carried = any(occurs(f, h.t) for p in normal for f in p.facts for h in holders) and (others or len(writers) > 1)

    def fn():
        if carried:
            raise Unsup('value depends on loop-carried decisions')
        c = ctx.choose_any(len(writers) + 1)
        var = z3.Int('lw!%d' % ctx.fresh_id())
        nonw = z3.Or(*[a.cond(var) for a in others]) if others else z3.BoolVal(False)
        if c == 0:
            ctx.add_forall(Forall(var, z3.IntVal(0), nn, nonw))
            if not others:
                ctx.assume(nn <= 0)
            if not ctx.feasible(z3.BoolVal(True)):
                raise Infeasible()
            if old is ABSENT:
                if loc[0] == 'key':
                    r = ctx.heap[loc[1]]
                    if r.base is not None:
                        if ctx.fork(r.base.has(ctx, loc[2])):
                            return r.base.value(ctx, loc[2])
                    raise LazyAbsent()
                ip.throw('UnboundLocalError' if loc[0] == 'env' else 'AttributeError', loc[2])
            return old
        p, a = writers[c - 1]
        w = ctx.fresh('int', 'last')
        ctx.assume(z3.And(w >= 0, w < nn))
        ctx.index_term(w)
        a.assume(ctx, w)
        ctx.add_forall(Forall(var, w + 1, nn, nonw))
        if not others:
            ctx.assume(w == nn - 1)
        if not ctx.feasible(z3.BoolVal(True)):
            raise Infeasible()
        v = get_slot(p.heap, loc)
        for h in holders:
            if val_occurs(v, h.t, p.heap, a.start):
                raise Unsup('value depends on loop-carried state')
        if isinstance(v, Lazy):
            raise Unsup('nested lazy')
        return Inst(ctx, a, w).val(v)
    memo = []
    return fn


def fam_updates(ip, normal, alts, start, n, i, hp):
    """Input objects reached through the generic element and rewritten by the body."""
    ctx = ip.ctx
    upd = {}
    for p, a in zip(normal, alts):
        for (bid, key, oid, orig) in p.mats:
            if oid <= start:
                continue
            if p.heap[oid] is not orig and rec_changed(orig, p.heap[oid]):
                upd.setdefault(bid, []).append((p, a, key, oid))
    out = {}
    for bid, es in upd.items():
        for p, a, key, oid in es:
            for (b2, k2, o2, orig) in p.mats:
                if b2 == bid and o2 != oid and o2 > start:
                    raise Unsup('loop updates one member of a family while reading others')
        # every path must touch this family only at its own member; distinct iterations touch distinct members
        for p, a in zip(normal, alts):
            for (b2, k2, o2, orig) in p.mats:
                if b2 == bid and o2 > start and not any(o2 == e[3] and p is e[0] for e in es):
                    # read-only path of a member: must be this iteration's own member
                    es_keys = [e[2] for e in es]
                    if not any(len(k2) == len(k) and all(x.eq(y) for x, y in zip(k2, k)) for k in es_keys):
                        raise Unsup('loop reads members it may have updated')
        j = z3.Int('j!%d' % ctx.fresh_id())
        for p, a, key, oid in es:
            for q, b, key2, oid2 in es:
                c = z3.And(j >= 0, j < i, i < n, z3.And(*p.facts) if p.facts else True, b.cond(j),
                           *[x == b._s(y, j) for x, y in zip(key, key2)])
                # injectivity facts for j
                ok = not inj_feasible(ip, c, i, j, p, b)
                if not ok:
                    raise Unsup('two iterations may update the same object')
        out[bid] = [(a, key, oid) for p, a, key, oid in es]
    return out


def check_reads(ip, reads, normal, alts, n, i):
    """A key read by iteration i in a dictionary the loop fills is not one that an earlier iteration wrote."""
    ctx = ip.ctx
    for oid, k, facts in reads:
        for q, b in zip(normal, alts):
            for l in q.heap[oid].layers[1:]:
                j = z3.Int('j!read')
                e = ip.key_eq(q.heap[oid].kind, k, move_alt(b, l.k, j))
                if e is not False and ctx.feasible(z3.And(j >= 0, j < i, i < n, *facts, b.cond(j), zt(e))):
                    raise Unsup('read of a dictionary being filled by the loop')


def move_alt(b, k, j):
    return mk(k.k, b._s(k.t, j)) if isinstance(k, Sym) else tuple(move_alt(b, x, j) for x in k) if isinstance(k, tuple) else k


def inj_feasible(ip, c, i, j, p, b):
    return ip.ctx.feasible(c)


def rec_changed(a, b):
    if type(a) is not type(b):
        return True
    if isinstance(a, DictRec):
        if len(a.layers) != len(b.layers):
            return True
        return any(x is not y and not (isinstance(x, Pt) and isinstance(y, Pt) and same_val(x.k, y.k) and
                                       x.v is not ABSENT and y.v is not ABSENT and same_val(x.v, y.v))
                   for x, y in zip(a.layers, b.layers))
    if isinstance(a, ListRec):
        return len(a.segs) != len(b.segs) or any(x is not y for x, y in zip(a.segs, b.segs))
    if isinstance(a, InstRec):
        return any(not same_val(a.attrs.get(k), b.attrs.get(k)) for k in set(a.attrs) | set(b.attrs))
    return True


# ---------------------------------------------------------------- while
def assigned_names(body):
    out = []
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)
    return out


def while_loop(ip, st, fr):
    """while: cursor over DOM siblings / consumption of a list / bounded concrete execution."""
    ctx = ip.ctx

    def run_body():
        try:
            ip.exec_block(st.body, fr)
        except ContinueEx:
            pass

    if ip.loop_rule is not None and ip.by_rule('while_loop', lambda: ip.truth(ip.ev(st.test, fr)), run_body):
        ip.exec_block(st.orelse, fr)
        return

    # cursor pattern: a local holding a DOM node that the body advances by nextSibling
    for name in assigned_names(st.body):
        vs = ctx.get(fr.envs[0]).vars
        if name in vs and getattr(vs[name], 'is_cursor', False):
            if cursor_loop(ip, st, fr, name, run_body):
                return
    # consumption pattern: list consumed by pop(0)/pop()
    r = consume_loop(ip, st, fr, run_body)
    if r:
        return
    # plain execution (each round decides its condition)
    for rounds in range(200):
        try:
            if not ip.truth(ip.ev(st.test, fr)):
                ip.exec_block(st.orelse, fr)
                return
            run_body()
        except BreakEx:
            return
        ip.wsteps += 1
        if rounds > 40:
            raise Unsup('while loop without a recognised measure')


def cursor_loop(ip, st, fr, name, run_body):
    ctx = ip.ctx
    env = fr.envs[0]
    cur = ctx.get(env).vars[name]
    g = cur.siblings_from(ip)       # Gen of cursors: this one and those after it
    if g is None:
        return False
    # validity of the pattern is checked inside each generic iteration

    def body(v):
        ip.env_set(env, name, v)
        if not ip.truth(ip.ev(st.test, fr)):
            raise Unsup('cursor loop: condition is not "node present"')
        run_body()
        nxt = ctx.get(env).vars[name]
        if not (nxt is None or getattr(nxt, 'is_cursor', False)) or not v.is_next(ip, nxt):
            raise Unsup('cursor loop: body does not advance to the next sibling')
    try:
        summarise(ip, g, body)
    except BreakEx:
        return True
    ip.env_set(env, name, None)
    if ip.truth(ip.ev(st.test, fr)):
        raise Unsup('cursor loop: condition holds for None')
    ip.exec_block(st.orelse, fr)
    return True


def consume_loop(ip, st, fr, run_body):
    """while <list nonempty>: x = L.pop(0) ...  (L not otherwise touched) -> for x in L."""
    ctx = ip.ctx
    # find the candidate: the unique Name in the test that denotes a list with symbolic segments
    cands = []
    for n in ast.walk(st.test):
        if isinstance(n, ast.Name):
            try:
                v = ip.lookup(n.id, fr)
            except (PyRaise, PoisonRead):
                continue
            if isinstance(v, Ref) and isinstance(ctx.get(v), ListRec) and \
                    any(isinstance(s, Gen) for s in ctx.get(v).segs):
                cands.append(v)
    if len(cands) != 1:
        return False
    ref = cands[0]
    rec = ctx.get(ref)
    pops = []
    for x in st.body:
        for n in ast.walk(x):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'pop':
                pops.append(n)
    if len(pops) != 1:
        return False
    front = len(pops[0].args) == 1 and isinstance(pops[0].args[0], ast.Constant) and pops[0].args[0].value == 0
    back = len(pops[0].args) == 0
    if not (front or back):
        return False
    segs = ip.freeze_segs(list(rec.segs))

    def mkbody(rest_fn):
        def body(v, rest=None):
            ctx.put(ref, ListRec([Lit(v)] + ([rest] if rest is not None else []) if front else
                                 ([rest] if rest is not None else []) + [Lit(v)], rec.kind))
            if not ip.truth(ip.ev(st.test, fr)):
                raise Unsup('consumption loop: condition is not "list nonempty"')
            run_body()
            cur = ctx.get(ref)
            want = [rest] if rest is not None else []
            if len(cur.segs) != len(want) or any(a is not b for a, b in zip(cur.segs, want)):
                raise Unsup('consumption loop: list is changed other than by one pop')
        return body
    body = mkbody(None)
    # generic rest: an opaque segment; only allowed for single generator lists
    order = segs if front else list(reversed(segs))
    for idx, s in enumerate(order):
        rest_segs = order[idx + 1:]
        if isinstance(s, Lit):
            later = list(rest_segs) if front else list(reversed(rest_segs))
            ctx.put(ref, ListRec([s] + later if front else later + [s], rec.kind))
            if not ip.truth(ip.ev(st.test, fr)):
                raise Unsup('consumption loop condition')
            try:
                run_body()
            except BreakEx:
                return True
            cur = ctx.get(ref)
            if len(cur.segs) != len(later):
                raise Unsup('consumption loop: unexpected list change')
            continue
        if rest_segs:
            raise Unsup('consumption loop over mixed list')
        if not ip.one_each(s):
            raise Unsup('consumption loop over filtered list')
        base = s
        n = base.n

        def el(c, args, t):
            return ('idx', Sym('int', t))
        idxgen = BaseGen(n, el)

        def gbody(iv):
            t = iv[1].t
            if front:
                p = ip.gen_pick(base, t)
                body(p[0].v, OffGen(base, t + 1, n - t - 1))
            else:
                pos = n - 1 - t
                p = ip.gen_pick(base, pos)
                body(p[0].v, OffGen(base, z3.IntVal(0), pos))
        saved = ctx.get(ref)
        try:
            if ip.loop_hook is not None:
                h, ip.loop_hook = ip.loop_hook, None
                h([idxgen], gbody)
            else:
                summarise_consume(ip, idxgen, gbody, ref)
        except BreakEx:
            return True
        ctx.put(ref, ListRec([], rec.kind))
    if ip.truth(ip.ev(st.test, fr)):
        raise Unsup('consumption loop: condition holds for the empty list')
    ip.exec_block(st.orelse, fr)
    return True


def summarise_consume(ip, idxgen, gbody, ref):
    """The consumed list itself is set by gbody before use: hide it from the change detection."""
    ctx = ip.ctx
    empty = ListRec([], 'list')

    def body(iv):
        gbody(iv)
        ctx.put(ref, empty)
    ctx.put(ref, empty)
    summarise(ip, idxgen, body)
