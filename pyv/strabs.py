"""Solver front end: strings are first abstracted to an uninterpreted sort.

Equality, uninterpreted functions and literals are translated exactly; string operations become uninterpreted
functions.  Hence `unsat` is always sound, and `sat` is exact whenever no string operation occurs in the query
(`exact` is then True).  Otherwise the caller asks the native string solver for confirmation."""
import z3

ST = z3.DeclareSort('Str')
CODE = z3.Function('str!code', ST, z3.IntSort())
SS = z3.StringSort()


class Abs:
    def __init__(self):
        self.memo = {}
        self.decls = {}
        self.lits = {}
        self.keep = []
        self.ops = {}
        self.lin = set()

    def sort(self, s):
        if s.kind() == z3.Z3_ARRAY_SORT:
            return z3.ArraySort(self.sort(s.domain()), self.sort(s.range()))
        return ST if s == SS else s

    def lit(self, text):
        if text not in self.lits:
            self.lits[text] = (z3.Const('lit!%d!%s' % (len(self.lits), text[:20]), ST), len(self.lits))
        return self.lits[text]

    def decl(self, d, kids):
        key = d.get_id()
        if key not in self.decls:
            self.keep.append(d)
            name = d.name()
            rng = self.sort(d.range())
            self.decls[key] = z3.Function('%s' % name, *([k.sort() for k in kids] + [rng]))
        return self.decls[key]

    def tr(self, e):
        """-> (term, frozenset of literals, exact, axioms)"""
        key = e.get_id()
        r = self.memo.get(key)
        if r is not None:
            return r
        stack = [e]
        while stack:
            x = stack[-1]
            if x.get_id() in self.memo:
                stack.pop()
                continue
            if not z3.is_app(x):
                self.put(x, (x, frozenset(), True, ()))
                stack.pop()
                continue
            kids = x.children()
            todo = [k for k in kids if k.get_id() not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.put(x, self.app(x, [self.memo[k.get_id()] for k in kids]))
        return self.memo[key]

    def put(self, x, v):
        self.keep.append(x)
        self.memo[x.get_id()] = v

    def app(self, x, ks):
        if z3.is_string_value(x):
            t, _ = self.lit(x.as_string())
            return (t, frozenset([x.as_string()]), True, ())
        d = x.decl()
        kids = [k[0] for k in ks]
        lits = frozenset().union(*[k[1] for k in ks]) if ks else frozenset()
        exact = all(k[2] for k in ks)
        ax = tuple(dict.fromkeys(a for k in ks for a in k[3]))
        kind = d.kind()
        if kind == z3.Z3_OP_UNINTERPRETED:
            anystr = self.sort(x.sort()) != x.sort() or any(self.sort(d.domain(i)) != d.domain(i) for i in range(d.arity()))
            if not anystr:
                if not any(o is not n and not o.eq(n) for o, n in zip(x.children(), kids)):
                    return (x, lits, exact, ax)
                return (d(*kids), lits, exact, ax)
            return (self.decl(d, kids)(*kids), lits, exact, ax)
        if kind == z3.Z3_OP_EQ:
            return (kids[0] == kids[1], lits, exact, ax)
        if kind == z3.Z3_OP_DISTINCT:
            return (z3.Distinct(*kids), lits, exact, ax)
        if kind == z3.Z3_OP_ITE:
            return (z3.If(*kids), lits, exact, ax)
        if kind == z3.Z3_OP_SELECT:
            return (z3.Select(*kids), lits, exact, ax)
        if kind == z3.Z3_OP_STORE:
            return (z3.Store(*kids), lits, exact, ax)
        if kind == z3.Z3_OP_CONST_ARRAY:
            return (z3.K(self.sort(x.sort().domain()), kids[0]), lits, exact, ax)
        srt = x.sort()
        strop = srt == SS or any(c.sort() == SS or isinstance(c, z3.ReRef) for c in x.children())
        if strop or isinstance(x, z3.ReRef):
            if isinstance(x, z3.ReRef):
                return (x, lits, False, ax)
            return self.strop(x, d, kids, lits, ax)
        if not kids:
            return (x, lits, exact, ax)
        if kind == z3.Z3_OP_MUL and srt == z3.RealSort() and sum(not z3.is_rational_value(k) and not z3.is_int_value(k) for k in kids) > 1:
            # product of unknowns: one symbol per monomial (sums are multiplied out before, see `linear`)
            num = [k for k in kids if z3.is_rational_value(k) or z3.is_int_value(k)]
            fac = sorted((k for k in kids if not (z3.is_rational_value(k) or z3.is_int_value(k))), key=lambda k: k.get_id())
            key = ('mono',) + tuple(k.get_id() for k in fac)
            if key not in self.ops:
                self.keep.extend(fac)
                self.ops[key] = z3.Const('mono!%d' % len(self.ops), srt)
            t = self.ops[key]
            for k in num:
                t = k * t
            return (t, lits, False, ax)
        if all(o.eq(n) for o, n in zip(x.children(), kids)):
            return (x, lits, exact, ax)
        if kind == z3.Z3_OP_AND:
            return (z3.And(*kids), lits, exact, ax)
        if kind == z3.Z3_OP_OR:
            return (z3.Or(*kids), lits, exact, ax)
        return (d(*kids), lits, exact, ax)

    def nonlinear(self, e):
        st, seen = [e], set()
        while st:
            x = st.pop()
            k = x.get_id()
            if k in seen or k in self.lin:
                continue
            seen.add(k)
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_MUL and x.sort() == z3.RealSort() and \
                        sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in x.children()) > 1:
                    return True
                st.extend(x.children())
        self.lin.update(seen)
        self.keep.append(e)
        return False

    def linear(self, e):
        return z3.simplify(e, som=True) if self.nonlinear(e) else e

    def strop(self, x, d, kids, lits, ax):
        name = 'op!' + d.name()
        if any(isinstance(c, z3.ReRef) for c in x.children()):
            name = 'op!%s!%s' % (d.name(), [c.sexpr() for c in x.children() if isinstance(c, z3.ReRef)])
            kids = [k for k, c in zip(kids, x.children()) if not isinstance(c, z3.ReRef)]
        key = (name, tuple(str(k.sort()) for k in kids))
        rng = self.sort(x.sort())
        if key not in self.ops:
            self.ops[key] = z3.Function('%s/%d' % (name, len(self.ops)), *([k.sort() for k in kids] + [rng]))
        t = self.ops[key](*kids) if kids else z3.Const(name, rng)
        extra = []
        if d.kind() == z3.Z3_OP_SEQ_CONCAT and len(kids) == 2:
            for i in (0, 1):
                c = x.children()[i]
                if z3.is_string_value(c):
                    inv = z3.Function('op!un%d!%s' % (i, c.as_string()), ST, ST)
                    extra.append(inv(t) == kids[1 - i])
                    if c.as_string() != '':
                        e, _ = self.lit('')
                        lits = lits | {''}
                        extra.append(t != e)
        elif d.kind() == z3.Z3_OP_SEQ_LENGTH:
            extra.append(t >= 0)
            e, _ = self.lit('')
            lits = lits | {''}
            extra.append((t == 0) == (kids[0] == e))
            if z3.is_string_value(x.children()[0]):
                extra.append(t == len(x.children()[0].as_string()))
        return (t, lits, False, ax + tuple(extra))


class TSolver:
    """Drop-in for the solver interface used by the engine; keeps the original assertions."""

    def __init__(self):
        self.a = Abs()
        self.s = z3.Solver()
        self.orig = []
        self.marks = []
        self.active = {}
        self.inexact = 0

    def set(self, *a):
        self.s.set(*a)

    def reset(self):
        self.s.reset()
        self.orig, self.marks, self.active, self.inexact = [], [], {}, 0

    def push(self):
        self.s.push()
        self.marks.append((len(self.orig), len(self.active), self.inexact))

    def pop(self):
        self.s.pop()
        n, k, x = self.marks.pop()
        del self.orig[n:]
        while len(self.active) > k:
            self.active.popitem()
        self.inexact = x

    def add(self, e):
        self.orig.append(e)
        t, lits, exact, ax = self.a.tr(self.a.linear(e))
        for l in lits:
            if l not in self.active:
                c, n = self.a.lit(l)
                self.active[l] = 1
                self.s.add(CODE(c) == n)
        for x in ax:
            k = ('ax', x.get_id())
            if k not in self.active:
                self.active[k] = x
                self.s.add(x)
        if not exact:
            self.inexact += 1
        self.s.add(t)

    @property
    def exact(self):
        return not self.inexact

    def check(self):
        return self.s.check()

    def model(self):
        return self.s.model()

    def assertions(self):
        return list(self.orig)
