"""Operations on symbolic values: truth, equality, containers, arithmetic."""
import z3
from .core import *


class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, val):
        self.val = val      # Ref to InstRec


def is_num(v):
    return (isinstance(v, (int, float)) and not isinstance(v, bool)) or (isinstance(v, Sym) and v.k in ('int', 'real'))


def zt(v):
    """z3 term of a scalar."""
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsup('non-finite float')
        from fractions import Fraction
        f = Fraction(v)
        return z3.RealVal(str(f))
    if isinstance(v, str):
        return z3.StringVal(v)
    raise Unsup('not a scalar: %r' % (v,))


def kind_of(v):
    if isinstance(v, Sym):
        return v.k
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'real'
    if isinstance(v, str):
        return 'str'
    return None


def mk(kind, t):
    """Wrap a z3 term, folding constants."""
    t = z3.simplify(t) if z3.is_app(t) and t.num_args() and t.decl().kind() != z3.Z3_OP_UNINTERPRETED else t
    if kind == 'bool':
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    elif kind == 'int':
        if z3.is_int_value(t):
            return t.as_long()
    elif kind == 'str':
        if z3.is_string_value(t):
            return py_str(t)
    return Sym(kind, t)


def py_str(t):
    s = t.as_string()
    # z3 escapes non ascii as \u{..}
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def num_pair(a, b):
    ka, kb = kind_of(a), kind_of(b)
    ta, tb = zt(a), zt(b)
    if ka == 'bool':
        ta, ka = z3.If(ta, z3.IntVal(1), z3.IntVal(0)), 'int'
    if kb == 'bool':
        tb, kb = z3.If(tb, z3.IntVal(1), z3.IntVal(0)), 'int'
    if ka == kb:
        return ka, ta, tb
    if ka == 'int':
        ta = z3.ToReal(ta)
    if kb == 'int':
        tb = z3.ToReal(tb)
    return 'real', ta, tb


class Ops:
    """Mixin for the interpreter (self.ctx)."""

    # ------------------------------------------------------------------ exceptions
    def throw(self, clsname, *args):
        cls = self.exc_class(clsname)
        raise PyRaise(self.ctx.alloc(InstRec(cls, {'args': tuple(args)})))

    # ------------------------------------------------------------------ truth / equality
    def truth(self, v):
        """Host boolean (forks)."""
        c = self.truth_term(v)
        if isinstance(c, bool):
            return c
        return self.ctx.fork(c)

    def truth_term(self, v):
        v = self.force(v)
        if isinstance(v, Sym):
            if v.k == 'bool':
                return v.t
            if v.k == 'str':
                return v.t != z3.StringVal('')
            return v.t != 0
        if isinstance(v, Ref):
            rec = self.ctx.get(v)
            if isinstance(rec, DictRec) and isinstance(rec.base, AttrBase) and \
                    not any(isinstance(l, Pt) and l.v is ABSENT for l in rec.layers):
                if any(isinstance(l, Pt) for l in rec.layers) or any(f[0] is True for f in rec.base.schema.fields.values()):
                    return True         # a key is surely there
                if rec.base.schema.closed and not rec.layers:
                    return z3.Or(*[rec.base.has(self.ctx, k) for k in rec.base.schema.fields])
            if isinstance(rec, (ListRec, DictRec)):
                n = self.seg_count(rec.segs) if isinstance(rec, ListRec) else self.length(v)
                return self.truth_term(n)
            if isinstance(rec, InstRec):
                f = self.find_attr(rec.cls, '__bool__')
                if f is not None:
                    return self.truth_term(self.call(self.bind(f, v), []))
                f = self.find_attr(rec.cls, '__len__')
                if f is not None:
                    return self.truth_term(self.call(self.bind(f, v), []))
                return True
            return True
        if isinstance(v, tuple):
            return len(v) > 0
        if hasattr(v, 'truth'):
            return v.truth(self)
        if hasattr(v, 'segs_of'):
            return self.truth_term(self.length(v))
        if isinstance(v, (Poison, Lazy)):
            raise Unsup('truth of placeholder')
        if v is None or isinstance(v, (bool, int, float, str)):
            return bool(v)
        return True

    def identical(self, a, b):
        a, b = self.force(a), self.force(b)
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.o == b.o
        if isinstance(a, Ref) or isinstance(b, Ref):
            return False
        if isinstance(a, Sym) and a.k == 'bool' or isinstance(b, Sym) and b.k == 'bool':
            if kind_of(a) == 'bool' and kind_of(b) == 'bool':
                return mk('bool', zt(a) == zt(b))
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b if isinstance(a, bool) and isinstance(b, bool) else False
        if hasattr(a, 'ident'):
            return a.ident(self, b)
        if type(a) is type(b) and isinstance(a, (str, int)):
            return a == b
        if kind_of(a) and kind_of(b):
            raise Unsup('identity of scalars')
        return a is b

    def eq(self, a, b):
        """bool or Sym bool; no exceptions."""
        a, b = self.force(a), self.force(b)
        if a is None or b is None:
            return a is None and b is None
        ka, kb = kind_of(a), kind_of(b)
        if ka and kb:
            if ka == 'str' or kb == 'str':
                if ka != kb:
                    return False
                if isinstance(a, str) and isinstance(b, str):
                    return a == b
                return mk('bool', zt(a) == zt(b))
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return a == b
            if ka == 'bool' and kb == 'bool':
                return mk('bool', zt(a) == zt(b))
            _, ta, tb = num_pair(a, b)
            return mk('bool', ta == tb)
        if ka or kb:
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.o == b.o:
                return True
            ra, rb = self.ctx.get(a), self.ctx.get(b)
            if isinstance(ra, InstRec):
                f = self.find_attr(ra.cls, '__eq__')
                if f is not None:
                    return self.call(self.bind(f, a), [b])
                return False
            if isinstance(ra, ListRec) and isinstance(rb, ListRec):
                return self.list_eq(ra, rb)
            if isinstance(ra, DictRec) and isinstance(rb, DictRec):
                return self.dict_eq(ra, rb)
            return False
        if hasattr(a, 'ident'):
            return a.ident(self, b)
        return a is b

    def conj(self, xs):
        out = []
        for x in xs:
            if x is False:
                return False
            if x is True:
                continue
            out.append(zt(x) if isinstance(x, Sym) else x)
        if not out:
            return True
        return mk('bool', z3.And(*out) if len(out) > 1 else out[0])

    def disj(self, xs):
        out = []
        for x in xs:
            if x is True:
                return True
            if x is False:
                continue
            out.append(zt(x))
        if not out:
            return False
        return mk('bool', z3.Or(*out) if len(out) > 1 else out[0])

    def neg(self, x):
        if isinstance(x, bool):
            return not x
        return mk('bool', z3.Not(zt(x)))

    def list_eq(self, ra, rb):
        la, lb = self.all_lits(ra), self.all_lits(rb)
        if la is None or lb is None:
            raise Unsup('equality of symbolic lists')
        if ra.kind == 'set' or rb.kind == 'set':
            if ra.kind != rb.kind:
                return False
            return self.conj([self.disj([self.eq(x, y) for y in lb]) for x in la] +
                             [self.disj([self.eq(x, y) for x in la]) for y in lb])
        if len(la) != len(lb):
            return False
        return self.conj([self.eq(x, y) for x, y in zip(la, lb)])

    def dict_eq(self, ra, rb):
        if ra.base is None and rb.base is None and all(isinstance(l, Pt) and isinstance(l.k, (str, int)) for l in
                                                       ra.layers + rb.layers):
            da = {l.k: l.v for l in ra.layers if l.v is not ABSENT}
            db = {l.k: l.v for l in rb.layers if l.v is not ABSENT}
            if set(da) != set(db):
                return False
            return self.conj([self.eq(da[k], db[k]) for k in da])
        raise Unsup('equality of symbolic dictionaries')

    def all_lits(self, rec):
        if all(isinstance(s, Lit) for s in rec.segs):
            return [s.v for s in rec.segs]
        return None

    # ------------------------------------------------------------------ sequences
    def mklist(self, vals=(), kind='list'):
        return self.ctx.alloc(ListRec([Lit(v) for v in vals], kind))

    def mkdict(self, pairs=()):
        r = self.ctx.alloc(DictRec())
        for k, v in pairs:
            self.dict_set(r, k, v)
        return r

    def iter_segs(self, v):
        v = self.force(v)
        if isinstance(v, tuple):
            return [Lit(x) for x in v]
        if isinstance(v, str):
            return [Lit(c) for c in v]
        if isinstance(v, Ref):
            rec = self.ctx.get(v)
            if isinstance(rec, ListRec):
                return list(rec.segs)
            if isinstance(rec, DictRec):
                return self.dict_key_segs(v)
            if isinstance(rec, InstRec):
                f = self.find_attr(rec.cls, '__iter__')
                if f is not None:
                    return self.iter_segs(self.call(self.bind(f, v), []))
        if hasattr(v, 'segs_of'):
            return list(v.segs_of(self))
        if isinstance(v, Sym) and v.k == 'str':
            raise Unsup('iteration over a symbolic string')
        if v is None or isinstance(v, (int, float)) or isinstance(v, Sym):
            self.throw('TypeError', 'not iterable')
        raise Unsup('iteration over %r' % (v,))

    def length(self, v):
        v = self.force(v)
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, Sym) and v.k == 'str':
            return Sym('int', z3.Length(v.t))
        if isinstance(v, Ref):
            rec = self.ctx.get(v)
            if isinstance(rec, ListRec):
                return self.seg_count(self.dedupe(rec) if rec.kind == 'set' else rec.segs)
            if isinstance(rec, DictRec):
                return self.dict_len(v)
            if isinstance(rec, InstRec):
                f = self.find_attr(rec.cls, '__len__')
                if f is not None:
                    return self.call(self.bind(f, v), [])
        if hasattr(v, 'segs_of'):
            return self.seg_count(v.segs_of(self))
        if v is None or kind_of(v):
            self.throw('TypeError', 'object has no len()')
        raise Unsup('len of %r' % (v,))

    def dedupe(self, rec):
        lits = self.all_lits(rec)
        if lits is None:
            raise Unsup('size of symbolic set')
        out = []
        for x in lits:
            if not any(self.truth(self.eq(x, y)) for y in out):
                out.append(x)
        return [Lit(x) for x in out]

    def seg_count(self, segs):
        c = 0
        t = None
        for s in segs:
            if isinstance(s, Lit):
                c += 1
            elif isinstance(s, Gen):
                x = self.gen_count(s)
                t = x if t is None else t + x
            else:
                raise PoisonRead(('list', s.oid))
        if t is None:
            return c
        return mk('int', t + c)

    def gen_weight(self, g, v):
        """z3 Int: number of elements emitted at index v (all alternatives must be decidable)."""
        w = z3.IntVal(0)
        alts = g.alts()
        if len(alts) > 1 and not all(a.simple for a in alts):
            return None
        for j, a in enumerate(alts):
            m = self.alt_count(a, v)
            if m is None:
                return None
            w = m if j == 0 else z3.If(a.guard(v), m, w)
        return z3.simplify(w)

    def alt_count(self, a, v):
        if isinstance(a, LoopAlt):
            k = z3.IntVal(0)
            for s in a._segs:
                if isinstance(s, Lit):
                    k = k + 1
                    continue
                if not isinstance(s, Gen):
                    return None
                g = s.sub([(a.var, v)])
                for p in a.pairs:
                    g = g.sub(p)
                u = z3.Int('cnt!u%d' % self.ctx.fresh_id())
                w = self.gen_weight(g, u)
                if w is None or not z3.is_int_value(w):
                    return None
                k = k + z3.If(g.n > 0, g.n, 0) * w
            return k
        from .core import _OffAlt
        if isinstance(a, _OffAlt):
            return self.alt_count(a.a, v + a.off)
        if type(a).__name__ == '_FnAlt':
            return self.alt_count(a.a, v) if isinstance(a.a, Alt) and not self.has_nested(a.a) else None
        if type(a).__name__ == '_MapAlt':
            if a.keep is None:
                return self.alt_count(a.a, v)
            return None
        return z3.IntVal(1)

    def has_nested(self, a):
        return isinstance(a, LoopAlt) and any(not isinstance(s, Lit) for s in a._segs)

    def gen_count(self, g):
        v = z3.Int('cnt!v')
        w = self.gen_weight(g, v)
        if w is None:
            c = getattr(g, '_length', None)
            if c is None:
                c = g._length = self.ctx.fresh('int', 'len')
            self.ctx.assume(c >= 0)
            return c
        alts = g.alts()
        hyp = z3.Or(*[a.cond(v) for a in alts]) if any(isinstance(a, LoopAlt) for a in alts) else None
        return self.sum_term(g.n, v, w, hyp)

    def sum_term(self, n, v, w, hyp=None):
        """Term for the sum over v in [0,n) of w(v); equal sums share the term."""
        ctx = self.ctx
        w = z3.simplify(w)
        ctx.assume(n >= 0)
        if z3.is_int_value(w) or z3.is_rational_value(w):
            if w.sort() == R:
                return z3.ToReal(n) * w
            return n * w
        if self.classify is not None:
            r = self.classify(self, n, v, w)
            if r is not None:
                return r
        for (c, n2, v2, w2, h2) in ctx.sums:
            if w2.sort() != w.sort():
                continue
            if not (n2.eq(n) or ctx.is_valid(n2 == n)):
                continue
            for at in (v, n - 1 - v):       # the same summands, in this or the reverse order
                if self.same_summand(n, v, w, hyp, z3.substitute(w2, (v2, at)), h2 and z3.substitute(h2[0], (v2, at))):
                    return c
        nm = 'sum!%d' % ctx.fresh_id()
        kind = I if w.sort() == I else R
        c = z3.Function(nm, *([I] * len(ctx.skolem) + [kind]))(*ctx.skolem) if ctx.skolem else z3.Const(nm, kind)
        ctx.sums.append((c, n, v, w, (hyp,) if hyp is not None else None))
        ctx.sumdefs[nm] = (list(ctx.skolem), n, v, w, hyp if hyp is not None else z3.BoolVal(True))
        if not ctx.feasible(z3.And(v >= 0, v < n, w < 0)):
            ctx.assume(c >= 0)
            ctx.assume(z3.Implies(n == 0, c == 0))
            if not ctx.feasible(z3.And(v >= 0, v < n, w > 1)):
                if w.sort() == I:
                    ctx.assume(c <= n)
                    # member witness / non-member instances
                    wit = z3.substitute(w, (v, self.skolem_const(nm + '.w')))
                    ww = self.skolem_const(nm + '.w')
                    ctx.index_term(ww)
                    ctx.assume(z3.Implies(c > 0, z3.And(ww >= 0, ww < n, wit > 0)))
            ctx.add_forall(Forall(v, z3.IntVal(0), n, c >= w))
        return c

    def same_summand(self, n, v, w, h, w2, h2):
        ctx = self.ctx
        if w2.eq(w):
            return True
        hyps = [v >= 0, v < n] + [x for x in (h, h2) if x is not None]
        if ctx.is_valid(z3.Implies(z3.And(*hyps), w2 == w)):
            return True
        a, b = self.sum_apps(w), self.sum_apps(w2)
        eqs = [x == y for x in a for y in b if x.sort() == y.sort() and self.same_sums(x, y, hyps)]
        return bool(eqs) and ctx.is_valid(z3.Implies(z3.And(*(hyps + eqs)), w2 == w))

    def sum_apps(self, w):
        out, seen, st = [], set(), [w]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().name() in self.ctx.sumdefs:
                out.append(x)
            st.extend(x.children())
        return out

    def same_sums(self, x, y, hyps):
        """Do two sum terms (built in some generic iteration) have equal ranges and summands?"""
        ctx = self.ctx

        def inst(t):
            sk, n, v, w, h = ctx.sumdefs[t.decl().name()]
            p = list(zip(sk, t.children()))

            def at(e, u):
                e = z3.substitute(e, (v, u))
                return z3.substitute(e, *p) if p else e
            return (z3.substitute(n, *p) if p else n), (lambda u: at(w, u)), (lambda u: at(h, u))
        u = z3.Int('su!v')
        n1, w1, h1 = inst(x)
        n2, w2, h2 = inst(y)
        if not ctx.is_valid(z3.Implies(z3.And(*hyps), n1 == n2)):
            return False
        for at in (u, n1 - 1 - u):
            if ctx.is_valid(z3.Implies(z3.And(u >= 0, u < n1, h1(u), h2(at), *hyps), w1(u) == w2(at))):
                return True
        return False

    classify = None

    def skolem_const(self, nm):
        ctx = self.ctx
        return z3.Function(nm, *([I] * len(ctx.skolem) + [I]))(*ctx.skolem) if ctx.skolem else z3.Int(nm)

    def gen_pick(self, g, t):
        """Segments produced at index t (forks over alternatives)."""
        ctx = self.ctx
        ctx.index_term(t)
        alts = g.alts()
        if len(alts) == 1:
            alts[0].assume(ctx, t)
            return alts[0].segs(ctx, t)
        c = ctx.choose_any(len(alts))
        if all(a.simple for a in alts):
            ctx.decc[-1] = alts[c].guard(t)
        alts[c].assume(ctx, t)
        if not ctx.feasible(z3.BoolVal(True)):
            raise Infeasible()
        return alts[c].segs(ctx, t)

    def contains(self, container, x):
        """bool / Sym bool (may fork for symbolic sequences)."""
        container = self.force(container)
        if isinstance(container, str) or (isinstance(container, Sym) and container.k == 'str'):
            if kind_of(x) != 'str':
                self.throw('TypeError', 'in <string> requires string')
            if isinstance(container, str) and isinstance(x, str):
                return x in container
            return mk('bool', z3.Contains(zt(container), zt(x)))
        if isinstance(container, Ref):
            rec = self.ctx.get(container)
            if isinstance(rec, DictRec):
                return self.dict_has(container, x)
            if isinstance(rec, InstRec):
                f = self.find_attr(rec.cls, '__contains__')
                if f is not None:
                    return self.call(self.bind(f, container), [x])
        if hasattr(container, 'contains'):
            return container.contains(self, x)
        segs = self.iter_segs(container)
        lits = [s.v for s in segs if isinstance(s, Lit)]
        r = self.disj([self.eq(y, x) for y in lits])
        gens = [s for s in segs if not isinstance(s, Lit)]
        if not gens:
            return r
        if self.truth(r):
            return True
        if len(gens) == 1 and isinstance(gens[0], BaseGen) and gens[0].member:
            return mk('bool', gens[0].member(self.ctx, gens[0].args, self.force(x)))
        for g in gens:
            if not isinstance(g, Gen):
                raise PoisonRead(('list', g.oid))
            if self.gen_has(g, x):
                return True
        return False

    def gen_has(self, g, x):
        ctx = self.ctx
        # membership predicate at a generic index
        var = z3.Int('mem!%d' % ctx.fresh_id())
        conds = self.pred_over(g, var, lambda v: self.eq(v, x))
        if ctx.choose_any(2) == 0:
            w = ctx.fresh('int', 'mw')
            ctx.assume(z3.And(w >= 0, w < g.n))
            ctx.index_term(w)
            found = False
            for s in self.gen_pick(g, w):
                if isinstance(s, Lit):
                    if self.truth(self.eq(s.v, x)):
                        found = True
                        break
                else:
                    raise Unsup('nested membership')
            if not found or not ctx.feasible(z3.BoolVal(True)):
                raise Infeasible()
            return True
        if conds is not None:
            ctx.add_forall(Forall(var, z3.IntVal(0), g.n, z3.Not(conds)))
        if not ctx.feasible(z3.BoolVal(True)):
            raise Infeasible()
        return False

    def pred_over(self, g, var, pred):
        """z3 formula over var: some element emitted at var satisfies pred; None if not expressible."""
        ctx = self.ctx
        if not all(a.simple for a in g.alts()):
            return None
        out = []
        for a in g.alts():
            def run(a=a):
                ctx.skolem = ctx.skolem + [var]
                ctx.assume(z3.And(var >= 0, var < g.n))
                a.assume(ctx, var)
                rs = []
                base = len(ctx.pc)
                for s in a.segs(ctx, var):
                    if not isinstance(s, Lit):
                        raise Unsup('nested')
                    rs.append(pred(s.v))
                return (self.disj(rs), base)
            res = ctx.subexplore(run)
            for p in res:
                r, base = p.value
                if r is False:
                    continue
                extra = p.facts[base:]
                if p.inner:
                    return None
                out.append(z3.And(a.cond(var), *(extra + [zt(r) if not isinstance(r, bool) else z3.BoolVal(r)])))
        return z3.Or(*out) if out else z3.BoolVal(False)

    def seq_index(self, segs, i, what='list index out of range'):
        """Element at index i of a list with the given segments."""
        ctx = self.ctx
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int):
            if i >= 0:
                j = 0
                while j < len(segs) and isinstance(segs[j], Lit):
                    if j == i:
                        return segs[j].v
                    j += 1
                if j == len(segs):
                    self.throw('IndexError', what)
                rest, k = segs[j:], i - j
            else:
                j = 0
                while j < len(segs) and isinstance(segs[-1 - j], Lit):
                    if -1 - j == i:
                        return segs[-1 - j].v
                    j += 1
                if j == len(segs):
                    self.throw('IndexError', what)
                g = segs[-1 - j]
                if isinstance(g, BaseGen) and i + j == -1:
                    if len(segs) == j + 1:
                        if not ctx.fork(g.n > 0):
                            self.throw('IndexError', what)
                        ctx.index_term(g.n - 1)
                        return g.elem(ctx, g.n - 1)
                if isinstance(g, Gen) and i + j == -1 and not self.one_each(g):
                    r = self.first_emitted(g, last=True)
                    if r is not None:
                        return r[0]
                    return self.seq_index(segs[:-1 - j], -1, what)
                return self.seq_index_mixed(segs, z3.IntVal(i), what)
            if isinstance(rest[0], Gen) and self.one_each(rest[0]) and len(rest) == 1:
                g = rest[0]
                if not ctx.fork(g.n > k):
                    self.throw('IndexError', what)
                t = z3.IntVal(k)
                p = self.gen_pick(g, t)
                return p[0].v
            if isinstance(rest[0], Gen) and k == 0:
                # first emitted element
                g = rest[0]
                r = self.first_emitted(g)
                if r is not None:
                    return r[0]
                return self.seq_index(rest[1:], 0, what)
            return self.seq_index_mixed(segs, z3.IntVal(i), what)
        if isinstance(i, Sym) and i.k == 'int':
            if len(segs) == 1 and isinstance(segs[0], Gen) and self.one_each(segs[0]):
                g = segs[0]
                c = ctx.choose([z3.And(i.t >= 0, i.t < g.n), z3.And(i.t < 0, i.t >= -g.n),
                                z3.Or(i.t >= g.n, i.t < -g.n)])
                if c == 2:
                    self.throw('IndexError', what)
                t = i.t if c == 0 else i.t + g.n
                ctx.index_term(t)
                return self.gen_pick(g, t)[0].v
            if all(isinstance(s, Lit) for s in segs):
                n = len(segs)
                c = ctx.choose([i.t == j for j in range(n)] + [i.t == -j - 1 for j in range(n)] +
                               [z3.Or(i.t >= n, i.t < -n)])
                if c == 2 * n:
                    self.throw('IndexError', what)
                return segs[c if c < n else n - 1 - (c - n)].v
            return self.seq_index_mixed(segs, i.t, what)
        if isinstance(i, Sym) or isinstance(i, (str, float)) or i is None:
            self.throw('TypeError', 'list indices must be integers')
        raise Unsup('index %r' % (i,))

    def seq_index_mixed(self, segs, t, what):
        ctx = self.ctx
        if self.loop_rule is not None and len(segs) == 1 and isinstance(segs[0], Gen) and not self.one_each(segs[0]):
            # some element of a filtered sequence
            g = segs[0]
            n = self.gen_count(g)
            if ctx.fork(z3.Or(t >= n, t < -n)):
                self.throw('IndexError', what)
            w = ctx.fresh('int', 'at')
            ctx.assume(z3.And(w >= 0, w < g.n))
            p = self.gen_pick(g, w)
            if not p or not ctx.feasible(z3.BoolVal(True)):
                raise Infeasible()
            if len(p) > 1 or not isinstance(p[0], Lit):
                raise Unsup('index into symbolic list')
            return p[0].v
        offs, n = [], z3.IntVal(0)
        for s in segs:
            if isinstance(s, Gen) and not self.one_each(s):
                raise Unsup('index into symbolic list')
            if isinstance(s, Gen):
                ctx.assume(s.n >= 0)
            offs.append(n)
            n = n + (s.n if isinstance(s, Gen) else 1)
        pos = z3.If(t >= 0, t, t + n)
        conds = []
        for s, o in zip(segs, offs):
            conds.append(z3.And(pos >= o, pos < o + s.n) if isinstance(s, Gen) else pos == o)
        c = ctx.choose(conds + [z3.Or(pos >= n, pos < 0)])
        if c == len(segs):
            self.throw('IndexError', what)
        if isinstance(segs[c], Lit):
            return segs[c].v
        k = z3.simplify(pos - offs[c])
        ctx.index_term(k)
        return self.gen_pick(segs[c], k)[0].v

    def one_each(self, g):
        if isinstance(g, BaseGen):
            return True
        if isinstance(g, OffGen):
            return self.one_each(g.base)
        return all(isinstance(a, LoopAlt) and len(a._segs) == 1 and isinstance(a._segs[0], Lit) for a in g.alts())

    def first_emitted(self, g, last=False):
        """(value, index) of first (last) element of g, or None when g is empty (forks)."""
        ctx = self.ctx
        var = z3.Int('fe!%d' % ctx.fresh_id())
        w8 = self.gen_weight(g, var)
        if ctx.choose_any(2) == 0:
            w = ctx.fresh('int', 'fw')
            ctx.assume(z3.And(w >= 0, w < g.n))
            if w8 is not None:
                ctx.add_forall(Forall(var, w + 1, g.n, w8 == 0) if last else Forall(var, z3.IntVal(0), w, w8 == 0))
            p = self.gen_pick(g, w)
            if not p or not ctx.feasible(z3.BoolVal(True)):
                raise Infeasible()
            if not isinstance(p[-1 if last else 0], Lit):
                raise Unsup('nested first')
            return p[-1 if last else 0].v, w
        if w8 is not None:
            ctx.add_forall(Forall(var, z3.IntVal(0), g.n, w8 == 0))
        if not ctx.feasible(z3.BoolVal(True)):
            raise Infeasible()
        return None

    # ------------------------------------------------------------------ dictionaries
    def key_eq(self, kind, a, b):
        if kind == 'edge':
            return self.disj([self.conj([self.eq(a[0], b[0]), self.eq(a[1], b[1])]),
                              self.conj([self.eq(a[0], b[1]), self.eq(a[1], b[0])])])
        if isinstance(a, Sym) and isinstance(b, Sym) and a.k == b.k == 'str' and not a.t.eq(b.t):
            na, nb = a.t.decl().name(), b.t.decl().name()
            if na.startswith('key!') and nb.startswith('key!') and na.split('!')[1] == nb.split('!')[1]:
                return False        # different keys of one Counter
        return self.eq(a, b)

    def hashable(self, k):
        k = self.force(k)
        if isinstance(k, Ref) and isinstance(self.ctx.get(k), (ListRec, DictRec)):
            if not (isinstance(self.ctx.get(k), ListRec) and self.ctx.get(k).kind == 'tuple'):
                self.throw('TypeError', 'unhashable type')
        return k

    def dict_find(self, ref, k):
        """('v', value) | ('absent',) — forks as necessary."""
        ctx = self.ctx
        k = self.hashable(k)
        rec = ctx.get(ref)
        for l in reversed(rec.layers):
            if isinstance(l, Pt):
                e = self.key_eq(rec.kind, l.k, k)
                if e is True or (e is not False and self.truth(e)):
                    if l.v is ABSENT:
                        return ('absent',)
                    v = l.v
                    if isinstance(v, (Lazy, Poison)):
                        try:
                            v = self.force(v)
                        except LazyAbsent:
                            return ('absent',)
                    return ('v', v)
            elif isinstance(l, Bulk):
                r = self.bulk_find(l.gen, k)
                if r is not None:
                    return ('v', r[0])
            elif isinstance(l, Drop):
                if self.truth(self.disj([self.eq(l.k, x) for x in k])):
                    return ('absent',)
            elif isinstance(l, AccLayer):
                if l.old is None:
                    raise Unsup('read of a dictionary being filled by the loop')
                # earlier iterations wrote other keys: checked when the loop is summarised
                l.log.append((l.oid, k, list(ctx.pc)))
                return self.dict_find(ctx.alloc(l.old), k)
        if rec.base is None:
            return ('absent',)
        h = rec.base.has(ctx, k)
        if ctx.fork(h):
            return ('v', rec.base.value(ctx, k))
        return ('absent',)

    def bulk_find(self, g, k):
        ctx = self.ctx
        var = z3.Int('bf!%d' % ctx.fresh_id())
        cond = self.pred_over(g, var, lambda v: self.eq(v[0], k))
        if ctx.choose_any(2) == 0:
            w = ctx.fresh('int', 'bw')
            ctx.assume(z3.And(w >= 0, w < g.n))
            hit = None
            for s in reversed(self.gen_pick(g, w)):
                if not isinstance(s, Lit):
                    raise Unsup('nested bulk')
                if self.truth(self.eq(s.v[0], k)):
                    hit = s.v
                    break
            if hit is None:
                raise Infeasible()
            if cond is not None:
                ctx.add_forall(Forall(var, w + 1, g.n, z3.Not(cond)))
            if not ctx.feasible(z3.BoolVal(True)):
                raise Infeasible()
            return (hit[1],)
        if cond is not None:
            ctx.add_forall(Forall(var, z3.IntVal(0), g.n, z3.Not(cond)))
        if not ctx.feasible(z3.BoolVal(True)):
            raise Infeasible()
        return None

    def dict_has(self, ref, k):
        """bool or Sym bool, avoiding forks where possible."""
        ctx = self.ctx
        k = self.hashable(k)
        rec = ctx.get(ref)
        if all(isinstance(l, Pt) and not (isinstance(l.v, Lazy) and l.v.opt) for l in rec.layers):
            conds = []
            res = z3.BoolVal(False)
            if rec.base is not None:
                res = rec.base.has(ctx, k)
            for l in rec.layers:
                e = self.key_eq(rec.kind, l.k, k)
                pres = l.v is not ABSENT
                if e is False:
                    continue
                res = z3.If(zt(e), z3.BoolVal(pres), res)
            return mk('bool', res)
        return self.dict_find(ref, k)[0] == 'v'

    def dict_get(self, ref, k):
        r = self.dict_find(ref, k)
        if r[0] == 'absent':
            self.throw('KeyError', k)
        return r[1]

    def dict_set(self, ref, k, v):
        ctx = self.ctx
        k = self.hashable(k)
        rec = ctx.get(ref)
        ls = list(rec.layers)
        last = max([i for i, l in enumerate(ls) if not isinstance(l, Pt)], default=-1)
        for i in range(len(ls) - 1, last, -1):
            l = ls[i]
            e = self.key_eq(rec.kind, l.k, k)
            if e is True or (e is not False and self.truth(e)):
                if l.v is ABSENT:
                    # re-insertion goes to the end
                    ls[i:i + 1] = []
                    ls.append(Pt(k, v))
                else:
                    ls[i] = Pt(l.k, v)
                ctx.put(ref, DictRec(ls, rec.base, rec.kind))
                return
        ls.append(Pt(k, v))
        ctx.put(ref, DictRec(ls, rec.base, rec.kind))

    def dict_del(self, ref, k):
        """Remove k (assumed present)."""
        ctx = self.ctx
        rec = ctx.get(ref)
        if rec.base is None and all(isinstance(l, Pt) for l in rec.layers):
            for i, l in enumerate(rec.layers):
                if self.truth(self.key_eq(rec.kind, l.k, k)):
                    ctx.put(ref, DictRec(rec.layers[:i] + rec.layers[i + 1:], None, rec.kind))
                    return
        self.dict_set(ref, k, ABSENT)

    def dict_key_segs(self, ref):
        """Keys in iteration order."""
        ctx = self.ctx
        rec = ctx.get(ref)
        segs = []
        if rec.base is not None:
            g = rec.base.keys_gen(ctx)
            dels = [l for l in rec.layers if isinstance(l, Pt) and l.v is ABSENT]
            dels = [l for l in dels if not ctx.is_valid(z3.Not(rec.base.has(ctx, l.k)))]
            if dels:
                g = self.filter_gen(g, lambda x: self.neg(self.disj([self.key_eq(rec.kind, l.k, x) for l in dels])))
            segs.append(g)
        for l in rec.layers:
            if isinstance(l, Pt):
                if l.v is ABSENT:
                    continue
                if rec.base is not None and ctx.fork(rec.base.has(ctx, l.k)):
                    continue
                segs.append(Lit(l.k))
            elif isinstance(l, Bulk):
                if len(rec.layers) != 1 or rec.base is not None:
                    raise Unsup('keys of a dictionary with mixed layers')
                segs.append(self.map_gen(l.gen, lambda kv: kv[0]))
            else:
                if isinstance(l, Drop):
                    raise Unsup('edges after the removal of a node')
                raise PoisonRead(('dict', l.oid))
        return segs

    def dict_len(self, ref):
        rec = self.ctx.get(ref)
        if any(isinstance(l, Bulk) for l in rec.layers):
            raise Unsup('size of dictionary filled by a loop')
        return self.seg_count(self.dict_key_segs(ref))

    def dict_item_segs(self, ref, f):
        """f(k, v) for every key in order."""
        out = []
        for s in self.dict_key_segs(ref):
            if isinstance(s, Lit):
                out.append(Lit(f(s.v, self.dict_get(ref, s.v))))
            else:
                rec = self.ctx.get(ref)
                if any(isinstance(l, Bulk) for l in rec.layers):
                    out.append(self.map_gen(rec.layers[0].gen, lambda kv: f(kv[0], kv[1])))
                else:
                    out.append(self.map_gen(s, lambda k: f(k, self.dict_get(ref, k))))
        return out

    # lazily mapped generators -------------------------------------------------
    def map_gen(self, g, f):
        return MapGen(self, g, f, None)

    def filter_gen(self, g, p):
        return MapGen(self, g, lambda x: x, p)


class MapGen(Gen):
    """g mapped through a host function (evaluated in the heap of the reader: for immediate consumption)."""

    def __init__(self, ip, g, f, p, off=()):
        self.ip, self.g, self.f, self.p = ip, g, f, p
        self.n = g.n

    def alts(self):
        out = []
        for a in self.g.alts():
            if self.p is None:
                out.append(_MapAlt(self, a, None))
            else:
                out.append(_MapAlt(self, a, True))
                out.append(_MapAlt(self, a, False))
        return out

    def sub(self, pairs):
        return MapGen(self.ip, self.g.sub(pairs), self.f, self.p)


class _MapAlt(Alt):
    def __init__(self, mg, a, keep):
        self.mg, self.a, self.keep = mg, a, keep

    @property
    def simple(self):
        return self.a.simple and self.keep is None

    def cond(self, t):
        return self.a.cond(t)

    def guard(self, t):
        return self.a.guard(t)

    def assume(self, ctx, t):
        self.a.assume(ctx, t)
        if self.keep is not None:
            segs = self.a.segs(ctx, t)
            v = self.mg.p(segs[0].v)
            c = zt(v) if not isinstance(v, bool) else z3.BoolVal(v)
            ctx.assume(c if self.keep else z3.Not(c))

    def segs(self, ctx, t):
        if self.keep is False:
            return []
        return [Lit(self.mg.f(s.v)) if isinstance(s, Lit) else self.mg.ip.map_gen(s, self.mg.f)
                for s in self.a.segs(ctx, t)]
