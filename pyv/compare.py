"""Comparison of two final states reached from the same pre-state (implementation vs contract), up to fresh names."""
import z3
from .core import *
from .ops import *
from .interp import *


class State:
    def __init__(self, heap, mats, famupd):
        self.heap, self.mats, self.famupd = heap, mats, famupd

    def copy(self):
        return State(dict(self.heap), list(self.mats), dict(self.famupd))


class Mismatch(Exception):
    pass


class Cmp:
    def __init__(self, ip, s1, s2, goal):
        self.ip, self.ctx = ip, ip.ctx
        self.s = [s1, s2]
        self.goal = goal
        self.memo = {}
        self.depth = 0

    def on(self, k, f):
        """Evaluate f with side k's heap current."""
        c = self.ctx
        sv = (c.heap, c.mats, c.famupd)
        st = self.s[k]
        c.heap, c.mats, c.famupd = st.heap, st.mats, st.famupd
        try:
            return f()
        finally:
            st.heap, st.mats, st.famupd = c.heap, c.mats, c.famupd
            c.heap, c.mats, c.famupd = sv

    def ob(self, path, c, detail=''):
        if isinstance(c, Sym):
            c = c.t
        ok = self.ctx.prove('%s: %s' % (self.goal, path), c if not isinstance(c, bool) else z3.BoolVal(c), detail)
        if ok is False and self.ctx.obls[-1].status == 'refuted':
            raise Mismatch(path)
        return ok

    def undecided(self, path, why):
        self.ctx.obls.append(Obl('%s: %s' % (self.goal, path), 'unknown', None, why))

    def force(self, k, v):
        if isinstance(v, (Lazy, Poison)):
            return self.on(k, lambda: self.ip.force(v))
        return v

    # ------------------------------------------------------------------
    def sub(self, fn):
        """Run fn on all sub-paths with private copies of both states."""
        s1, s2 = self.s
        memo = self.memo

        def run():
            self.s = [s1.copy(), s2.copy()]
            self.memo = dict(memo)
            try:
                fn()
            except Mismatch:
                self.failed = True
            return None
        try:
            self.ctx.subexplore(run)
        finally:
            self.s = [s1, s2]
            self.memo = memo

    failed = False

    def val(self, a, b, path):
        a, b = self.force(0, a), self.force(1, b)
        ka, kb = kind_of(a), kind_of(b)
        if ka and kb:
            if ka == kb == 'str':
                self.match_uuid(zt(a), zt(b))
            num = ('int', 'real')
            if ka != kb and not (ka in num and kb in num):
                self.ob(path + ' type', False, 'implementation gives %r, contract %r' % (a, b))
                return
            self.ob(path, self.ip.eq(a, b), 'implementation %s / contract %s' % (a, b))
            return
        if a is None or b is None:
            c = self.ip.identical(a, b)
            self.ob(path, c, 'implementation gives %r, contract %r' % (a, b))
            return
        if isinstance(a, tuple) and isinstance(b, tuple):
            self.ob(path + ' length', len(a) == len(b))
            for i, (x, y) in enumerate(zip(a, b)):
                self.val(x, y, '%s[%d]' % (path, i))
            return
        if isinstance(a, (FuncVal, ClassVal, Builtin, ModuleVal)) or isinstance(b, (FuncVal, ClassVal, Builtin)):
            self.ob(path, a is b)
            return
        sa, sb = self.seq(0, a), self.seq(1, b)
        if sa is not None and sb is not None:
            if isinstance(a, Ref) and isinstance(b, Ref) and not self.pair(a, b, path):
                return
            self.segs(sa, sb, path)
            return
        if isinstance(a, Ref) and isinstance(b, Ref):
            if not self.pair(a, b, path):
                return
            ra, rb = self.s[0].heap[a.o], self.s[1].heap[b.o]
            if isinstance(ra, DictRec) and isinstance(rb, DictRec):
                self.dicts(a, b, path)
                return
            if isinstance(ra, InstRec) and isinstance(rb, InstRec):
                self.ob(path + ' class', ra.cls.name == rb.cls.name)
                for n in sorted(set(ra.attrs) | set(rb.attrs)):
                    if n not in ra.attrs or n not in rb.attrs:
                        self.ob('%s.%s present' % (path, n), False)
                        continue
                    self.val(ra.attrs[n], rb.attrs[n], '%s.%s' % (path, n))
                return
            self.ob(path + ' shape', type(ra) is type(rb))
            return
        if hasattr(a, 'ident') or hasattr(b, 'ident'):
            c = a.ident(self.ip, b) if hasattr(a, 'ident') else b.ident(self.ip, a)
            self.ob(path, c)
            return
        from .libs import NodeView, EdgeView
        self.ob(path + ' shape', False, 'implementation gives %r, contract %r' % (a, b))

    def seq(self, k, v):
        if isinstance(v, Ref):
            r = self.s[k].heap[v.o]
            if isinstance(r, ListRec):
                if r.kind == 'set':
                    return None if False else ('set', list(r.segs))
                return ('seq', list(r.segs))
            return None
        if hasattr(v, 'segs_of'):
            return ('seq', self.on(k, lambda: list(v.segs_of(self.ip))))
        return None

    def pair(self, a, b, path):
        """False when the pair was already visited."""
        if (a.o, b.o) in self.memo:
            return False
        for (x, y) in self.memo:
            if x == a.o and y != b.o:
                r = self.s[0].heap[a.o]
                if isinstance(r, ListRec) and r.kind in ('tuple', 'iter', 'range'):
                    continue
                if self.immutable_src(a):
                    continue
                self.ob(path + ' not shared with another value', False, 'one object where the contract has two')
        self.memo[(a.o, b.o)] = True
        return True

    def immutable_src(self, a):
        return a.o <= getattr(self.ctx, 'boot_nid', 0)

    def match_uuid(self, ta, tb):
        tr = self.ctx.trace
        ua = [u for u in tr if u[0] == 'uuid' and u[2] == 0]
        ub = [u for u in tr if u[0] == 'uuid' and u[2] == 1]
        if not ua or not ub:
            return
        from .loops import occurs
        xa = [u[1] for u in ua if occurs(ta, u[1])]
        xb = [u[1] for u in ub if occurs(tb, u[1])]
        if len(xa) == 1 and len(xb) == 1:
            paired = [p for p in tr if p[0] == 'uuid-pair']
            if any(p[1].eq(xa[0]) or p[2].eq(xb[0]) for p in paired):
                return
            tr.append(('uuid-pair', xa[0], xb[0]))
            self.ctx.assume(xa[0] == xb[0])

    # ------------------------------------------------------------------ sequences
    def segs(self, sa, sb, path):
        ctx, ip = self.ctx, self.ip
        (ka, la), (kb, lb) = sa, sb
        la = self.norm(0, la)
        lb = self.norm(1, lb)
        if ka == 'set' or kb == 'set':
            if all(isinstance(x, Lit) for x in la + lb):
                ok = ip.conj([ip.disj([ip.eq(x.v, y.v) for y in lb]) for x in la] +
                             [ip.disj([ip.eq(x.v, y.v) for x in la]) for y in lb])
                self.ob(path + ' as a set', ok)
                return
        if len(la) == len(lb) and all(isinstance(x, Lit) == isinstance(y, Lit) for x, y in zip(la, lb)):
            for i, (x, y) in enumerate(zip(la, lb)):
                if isinstance(x, Lit):
                    self.val(x.v, y.v, '%s[%d]' % (path, i))
                else:
                    self.gens(x, y, '%s[seg %d]' % (path, i))
            return
        if all(isinstance(x, Lit) for x in la + lb):
            self.ob(path + ' length', False, 'implementation has %d elements, contract %d' % (len(la), len(lb)))
            return
        # lengths may still tell them apart
        try:
            na = self.on(0, lambda: ip.seg_count(la))
            nb = self.on(1, lambda: ip.seg_count(lb))
            if ctx.prove('%s: %s length' % (self.goal, path), zt(ip.eq(na, nb))):
                self.undecided(path, 'sequences built from different pieces')
            return
        except Unsup as e:
            self.undecided(path, 'sequences built from different pieces')

    def norm(self, k, segs):
        out = []
        for s in segs:
            if isinstance(s, Gen):
                n = z3.simplify(s.n)
                if z3.is_int_value(n) and n.as_long() <= 0:
                    continue
                if z3.is_int_value(n) and n.as_long() <= 4 and self.ip.one_each(s):
                    for j in range(n.as_long()):
                        out.extend(self.on(k, lambda: self.ip.gen_pick(s, z3.IntVal(j))))
                    continue
                if isinstance(s, LoopGen) and all(isinstance(a, LoopAlt) and not a._segs for a in s.alts()):
                    continue
                if self.ctx.is_valid(n <= 0):
                    continue
            elif not isinstance(s, Lit):
                raise Unsup('comparison of an unfinished list')
            out.append(s)
        return out

    def gens(self, g1, g2, path):
        ctx, ip = self.ctx, self.ip
        if g1 is g2 and not self.changed():
            return
        if not ctx.is_valid(g1.n == g2.n):
            if ip.one_each(g1) and ip.one_each(g2):
                self.ob(path + ' length', g1.n == g2.n)
            else:
                self.undecided(path, 'iteration domains differ')
            return
        var = z3.Int('cmp!%d' % ctx.fresh_id())

        def body():
            ctx.skolem = ctx.skolem + [var]
            ctx.assume(z3.And(var >= 0, var < g1.n))
            p1 = self.on(0, lambda: ip.gen_pick(g1, var))
            p2 = self.on(1, lambda: ip.gen_pick(g2, var))
            if not ctx.feasible(z3.BoolVal(True)):
                raise Infeasible()
            if all(isinstance(x, Lit) for x in p1 + p2) and len(p1) != len(p2):
                self.ob(path + ' selected elements', False,
                        'for some element the implementation emits %d values, the contract %d' % (len(p1), len(p2)))
                return
            self.segs(('seq', p1), ('seq', p2), path + '[i]')
        self.sub(body)

    def changed(self):
        a, b = self.s
        return True

    # ------------------------------------------------------------------ dictionaries
    def dicts(self, a, b, path):
        ctx, ip = self.ctx, self.ip
        ra, rb = self.s[0].heap[a.o], self.s[1].heap[b.o]
        conc = lambda r: all(isinstance(l, Pt) and isinstance(l.k, (str, int, float, type(None))) for l in r.layers)
        if conc(ra) and conc(rb) and (ra.base is None or isinstance(ra.base, AttrBase)) and \
                (rb.base is None or isinstance(rb.base, AttrBase)):
            keys = []
            for l in ra.layers + rb.layers:
                if l.k not in keys:
                    keys.append(l.k)
            if (ra.base is None) != (rb.base is None):
                self.ob(path + ' same dictionary', False)
                return
            if ra.base is not None:
                sm = ra.base.same(rb.base)
                if sm is None:
                    self.ob(path + ' same dictionary', False)
                    return
                self.ob(path + ' same record', sm)
                # containers inside the untouched part may have been changed in place
                for k, (pres, kind) in ra.base.schema.fields.items():
                    if callable(kind) and getattr(kind, 'container', False) and k not in keys:
                        keys.append(k)
            for k in keys:
                self.key(a, b, k, '%s[%r]' % (path, k))
            return
        if ra.kind == 'edge':
            k1 = Sym('str', z3.String('ck!%d' % ctx.fresh_id()))
            k2 = Sym('str', z3.String('ck!%d' % ctx.fresh_id()))
            k = (k1, k2)
        else:
            k = Sym('str', z3.String('ck!%d' % ctx.fresh_id()))
        self.sub(lambda: self.key(a, b, k, path + '[any key]'))

    def key(self, a, b, k, path):
        ip = self.ip
        opt = any(isinstance(l, Pt) and isinstance(l.v, Lazy) and l.v.opt
                  for i, o in ((0, a), (1, b)) for l in self.s[i].heap[o.o].layers)
        if isinstance(k, str) and not opt and all(isinstance(self.s[i].heap[o.o].base, AttrBase) or self.s[i].heap[o.o].base is None
                                      for i, o in ((0, a), (1, b))):
            ha = self.on(0, lambda: ip.dict_has(a, k))
            hb = self.on(1, lambda: ip.dict_has(b, k))
            if ha is False and hb is False:
                return
            if not (isinstance(ha, bool) and isinstance(hb, bool)) or ha != hb:
                if not self.ob(path + ' present', ip.eq(ha, hb)):
                    return
            if ha is not True:
                def go():
                    if not self.ctx.fork(zt(ha)):
                        return
                    self.key2(a, b, k, path)
                self.sub(go)
                return
            self.key2(a, b, k, path)
            return
        if isinstance(k, str):
            self.sub(lambda: self.key2(a, b, k, path))
            return
        self.key2(a, b, k, path)

    def key2(self, a, b, k, path):
        ip = self.ip
        x = self.on(0, lambda: ip.dict_find(a, k))
        y = self.on(1, lambda: ip.dict_find(b, k))
        if not self.ctx.feasible(z3.BoolVal(True)):
            raise Infeasible()
        if x[0] != y[0]:
            self.ob(path + ' present', False, 'implementation: %s, contract: %s' % (
                'present' if x[0] == 'v' else 'absent', 'present' if y[0] == 'v' else 'absent'))
            return
        if x[0] == 'v':
            self.val(x[1], y[1], path)
