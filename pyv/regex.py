"""Regular expressions over symbolic strings: a pattern as a concatenation of top-level items, each a z3 regular expression.

A match is described by what is guaranteed of it: the text is the concatenation of one piece per item (and, for a
pattern without $, any rest), each piece in the language of its item.  Which of several possible matches the re module
takes is left open, so what is proved holds for each of them.  Texts have no line breaks."""
import re._parser as sre
import re._constants as C
import z3
from .core import *
from .interp import Builtin, mk

ANY = z3.AllChar(z3.ReSort(z3.StringSort()))


def chars(items):
    neg = False
    out = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            out.append(z3.Re(chr(av)))
        elif op is C.RANGE:
            out.append(z3.Range(chr(av[0]), chr(av[1])))
        else:
            raise Unsup('regular expression class %s' % (op,))
    r = z3.Union(*out) if len(out) > 1 else out[0]
    return z3.Intersect(ANY, z3.Complement(r)) if neg else r


def lang(op, av):
    if op is C.LITERAL:
        return z3.Re(chr(av))
    if op is C.ANY:
        return ANY
    if op is C.IN:
        return chars(av)
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, p = av
        r = seq(p)
        if hi is C.MAXREPEAT:
            return z3.Star(r) if lo == 0 else z3.Concat(*([r] * lo + [z3.Star(r)]))
        return z3.Loop(r, lo, hi)
    if op is C.SUBPATTERN:
        return seq(av[3])
    if op is C.BRANCH:
        return z3.Union(*[seq(p) for p in av[1]])
    raise Unsup('regular expression %s' % (op,))


def seq(items):
    rs = [lang(op, av) for op, av in items]
    if not rs:
        return z3.Re('')
    return z3.Concat(*rs) if len(rs) > 1 else rs[0]


def parse(pattern):
    """-> (items [(group number or None, regex)], ends with $)."""
    items = list(sre.parse(pattern))
    if items and items[0] == (C.AT, C.AT_BEGINNING):
        items = items[1:]
    end = bool(items) and items[-1] == (C.AT, C.AT_END)
    if end:
        items = items[:-1]
    return [(av[0] if op is C.SUBPATTERN else None, lang(op, av)) for op, av in items], end


class Match:
    def __init__(self, whole, groups):
        self.groups = dict(groups)
        self.groups[0] = whole
        self.starts = {}

    def truth(self, ip):
        return True

    def attr(self, ip, name):
        def at(table, a):
            k = a[0] if a else 0
            if k not in table:
                raise Unsup('group %r' % (k,))
            return table[k]
        if name == 'group':
            def group(ip, a, k):
                return at(self.groups, a) if len(a) < 2 else tuple(at(self.groups, [x]) for x in a)
            return Builtin('group', group)
        if name == 'groups':
            return Builtin('groups', lambda ip, a, k: tuple(v for n, v in sorted(self.groups.items()) if n))
        if name == 'start':
            return Builtin('start', lambda ip, a, k: at(self.starts, a))
        raise Unsup('match.%s' % name)


def conjuncts(e):
    if z3.is_and(e):
        return [y for x in e.children() for y in conjuncts(x)]
    return [e]


def atoms(e, out):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out[e.get_id()] = e
    else:
        for x in e.children():
            atoms(x, out)
    return out


def impossible(ip, terms, case):
    """Whether the known facts about the terms alone exclude the case."""
    known = atoms(case, {})
    for t in terms:
        atoms(t, known)
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(case)
    for f in ip.ctx.pc:
        for x in conjuncts(f):
            if all(i in known for i in atoms(x, {})):
                s.add(x)
    return s.check() == z3.unsat


def match(ip, pattern, s, cut=None):
    """Match or None (forks).  cut(): a known division of the text into two, to which that of the match is related."""
    c = ip.ctx
    t = s.t
    items, end = parse(pattern)
    rs = [r for g, r in items] + ([] if end else [z3.Star(ANY)])
    whole = z3.InRe(t, z3.Concat(*rs) if len(rs) > 1 else rs[0])
    if impossible(ip, [t], whole):
        return None
    if not impossible(ip, [t], z3.Not(whole)) and not c.fork(whole):
        if cut:
            x, y = cut()
            if impossible(ip, [x, y], z3.Not(z3.InRe(z3.Concat(x, y), whole.arg(1)))):
                raise Infeasible()
        if impossible(ip, [t], t != z3.StringVal('')):
            c.assume(t == z3.StringVal(''))
        return None
    pieces = [c.fresh('str', 'piece') for r in rs]
    for p, r in zip(pieces, rs):
        c.assume(z3.InRe(p, r))
    if cut and len(pieces) > 1:
        rest = pieces[1]
        if len(pieces) > 2:
            rest = c.fresh('str', 'rest')
            c.assume(z3.InRe(rest, z3.Concat(*rs[1:])))
        x, y = cut()
        pieces[0], rest = align(ip, pieces[0], rest, x, y)
        if len(pieces) == 2:
            pieces[1] = rest
        else:
            c.assume(rest == z3.Concat(*pieces[1:]))
    else:
        c.assume(t == (z3.Concat(*pieces) if len(pieces) > 1 else pieces[0]))
    return Match(Sym('str', t), {g: mk('str', p) for (g, r), p in zip(items, pieces) if g})


def align(ip, a, b, x, y):
    """a+b and x+y are the same text: then they are cut at the same place, or one cut lies inside the other's piece (forks)."""
    c = ip.ctx
    w = c.fresh('str', 'between')
    k = c.choose_any(3)
    inside = w != z3.StringVal('')
    case = [z3.And(a == x, b == y),
            z3.And(inside, a == z3.Concat(x, w), y == z3.Concat(w, b)),
            z3.And(inside, x == z3.Concat(a, w), b == z3.Concat(w, y))][k]
    if impossible(ip, [a, b, x, y], case):
        raise Infeasible()
    c.assume(case)
    return (x, y) if k == 0 else (a, b)
