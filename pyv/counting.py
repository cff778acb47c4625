"""Sums over a symbolic range whose weight only depends on which constant a string-valued term equals are put in a normal
form over counting symbols #{v : T(v) = k}; Counter over a symbolic sequence is split by the number of distinct keys."""
import z3
from .core import *
from .ops import *
from .interp import Interp
from . import models


def atoms(w, v):
    """(T, {constants}) if every occurrence of v in w lies in an atom T == constant with one common T, else None."""
    T, ks = None, {}
    todo, seen = [w], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_eq(e) and e.arg(0).sort() == S:
            a, b = e.arg(0), e.arg(1)
            if z3.is_string_value(a):
                a, b = b, a
            if z3.is_string_value(b) and not z3.is_string_value(a):
                if T is None:
                    T = a
                if not T.eq(a):
                    return None
                ks[b.as_string()] = b
                continue
        if e.eq(v):
            return None
        todo += e.children()
    return (T, ks) if T is not None else None


def classify(ip, n, v, w):
    ctx = ip.ctx
    if ctx.skolem:
        return None
    r = atoms(w, v)
    if r is None:
        return None
    T, ks = r
    if not depends(T, v):
        return None
    if len(ks) == 1 and z3.is_app_of(w, z3.Z3_OP_ITE):
        (b,) = ks.values()
        if basis_shape(w, T, b):
            return basis(ip, n, v, T, b)
    cs = []
    for k, b in ks.items():
        x = z3.simplify(z3.substitute(w, *[(T == c, z3.BoolVal(c.eq(b))) for c in ks.values()],
                                      *[(c == T, z3.BoolVal(c.eq(b))) for c in ks.values()]))
        cs.append((basis(ip, n, v, T, b), x))
    other = z3.simplify(z3.substitute(w, *[(T == c, z3.BoolVal(False)) for c in ks.values()],
                                      *[(c == T, z3.BoolVal(False)) for c in ks.values()]))
    if any(depends(x, v) for _, x in cs) or depends(other, v):
        return None
    cast = (lambda t: z3.ToReal(t)) if w.sort() == R else (lambda t: t)
    tot = cast(n) * other
    for c, x in cs:
        tot = tot + cast(c) * (x - other)
    return z3.simplify(tot)


def basis_shape(w, T, b):
    c, x, y = w.children()
    return z3.is_int_value(x) and z3.is_int_value(y) and x.as_long() == 1 and y.as_long() == 0 and (c.eq(T == b) or c.eq(b == T))


def depends(e, v):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        todo += x.children()
    return False


def basis(ip, n, v, T, b):
    """#{0<=v<n : T(v) = b}"""
    ctx = ip.ctx
    reg = ctx.counts
    for (n2, v2, T2, tab) in reg:
        if n2.eq(n) and z3.substitute(T2, (v2, v)).eq(T):
            break
    else:
        tab = {}
        reg.append((n, v, T, tab))
    k = b.as_string()
    if k not in tab:
        c = z3.Int('cnt!%d!%s' % (ctx.fresh_id(), k))
        tab[k] = c
        ctx.assume(c >= 0)
        ctx.assume(z3.Sum([x for x in tab.values()]) <= n if len(tab) > 1 else c <= n)
        ww = z3.Int(str(c) + '.w')
        ctx.index_term(ww)
        ctx.assume(z3.Implies(c > 0, z3.And(ww >= 0, ww < n, z3.substitute(T, (v, ww)) == b)))
        ctx.add_forall(Forall(v, z3.IntVal(0), n, z3.Implies(T == b, c >= 1)))
    return tab[k]


MAXKEYS = 17


def counter_model(ip, segs):
    """Counter(xs): L distinct keys with positive counts summing to len(xs); L is split (0..MAXKEYS, an assumption)."""
    ctx = ip.ctx
    if len(segs) != 1 or not isinstance(segs[0], Gen):
        raise Unsup('Counter over a mixed sequence')
    g = segs[0]
    v = z3.Int('ctr!v')
    w = ip.gen_weight(g, v)
    if w is None:
        raise Unsup('Counter over this sequence')
    e = generic_element(ip, g, v)
    for (n2, w2, e2, ref) in ctx.counters:
        if (n2.eq(g.n) or ctx.is_valid(n2 == g.n)) and \
                ctx.is_valid(z3.Implies(z3.And(v >= 0, v < g.n), z3.And(w2 == w, z3.Implies(w > 0, e2 == e)))):
            entries = ref
            break
    else:
        total = ip.sum_term(g.n, v, w)
        ctx.assume(total >= 0)
        lo, hi = ctx.keyrange
        L = lo + ctx.choose_any(hi - lo + 1)
        tag = ctx.fresh_id()
        ks = [z3.String('key!%d!%d' % (tag, j)) for j in range(L)]
        cs = [z3.Int('num!%d!%d' % (tag, j)) for j in range(L)]
        if L > 1:
            ctx.assume(z3.Distinct(*ks))
        for c in cs:
            ctx.assume(c >= 1)
        ctx.assume((z3.Sum(cs) if L > 1 else cs[0] if L else z3.IntVal(0)) == total)
        # the counts of a multiset may be listed in decreasing order
        for a, b in zip(cs, cs[1:]):
            ctx.assume(a >= b)
        entries = list(zip(ks, cs))
        ctx.counters.append((g.n, w, e, entries))
        if not ctx.feasible(z3.BoolVal(True)):
            raise Infeasible()
    r = ctx.alloc(DictRec((), None, 'counter'))
    ctx.put(r, DictRec(tuple(Pt(Sym('str', k), Sym('int', c)) for k, c in entries), None, 'counter'))
    return r


def generic_element(ip, g, v):
    """String term of the element emitted at index v."""
    ctx = ip.ctx
    out = z3.StringVal('')
    for a in g.alts():
        ss = a.segs(ctx, v)
        if len(ss) == 0:
            continue
        if len(ss) != 1 or not isinstance(ss[0], Lit):
            raise Unsup('Counter element')
        x = ip.force(ss[0].v)
        if kind_of(x) != 'str':
            raise Unsup('Counter over non-strings')
        out = z3.If(a.guard(v), zt(x), out)
    return out


def most_common(ip, ref):
    """Entries of the model are already in decreasing order of count."""
    ctx = ip.ctx
    rec = ctx.get(ref)
    vals = [(l.k, l.v) for l in rec.layers] if all(isinstance(l, Pt) for l in rec.layers) else None
    if vals is None:
        return None
    for (n, w, e, entries) in ctx.counters:
        if len(entries) == len(vals) and all(isinstance(a[1], Sym) and a[1].t.eq(b[1]) for a, b in zip(vals, entries)):
            return ip.mklist(vals)
    return None


def _is_sorted(ctx, vals):
    for (n, w, e, entries) in ctx.counters:
        ts = [c for _, c in entries]
        if len(ts) == len(vals) and all(isinstance(x, Sym) and x.t.eq(t) for x, t in zip(vals, ts)):
            return True
    return False


_sort0 = Interp.sort_vals


def _sort_vals(self, vals, key=None, reverse=False):
    if len(vals) > 1 and self.ctx.counters:
        kv = [self.force(self.call(key, [v])) for v in vals] if key is not None else vals
        if all(isinstance(v, Sym) and v.k == 'int' for v in kv):
            if _is_sorted(self.ctx, kv):
                return list(vals) if reverse else list(reversed(vals))
            if _is_sorted(self.ctx, list(reversed(kv))):
                return list(vals) if not reverse else list(reversed(vals))
    return _sort0(self, vals, key, reverse)


Interp.sort_vals = _sort_vals
Ops.classify = staticmethod(classify)
Interp.classify = staticmethod(classify)
Interp.counter_model = staticmethod(counter_model)
Interp.most_common_model = staticmethod(most_common)
