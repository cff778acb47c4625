from pyv.contract import *
from contracts.model import *

CLASSES = list(MODEL)
MODS14 = sorted({PK + m for m, _ in MODEL.values()})


def construct(env, cls, args=None):
    c = env.fn(path_of(cls))
    if cls in ('MessageFlow', 'SequenceFlow'):
        args = args if args is not None else [sstr(env, 'src0'), sstr(env, 'tgt0')]
        return env.ip.call(c, args), args
    return env.ip.call(c, []), []


def valid(env, rule, tag):
    """A generic accepted value."""
    if isinstance(rule, list):
        return rule[-1]
    if rule in ('str', 'str?'):
        return sstr(env, 'v_' + tag)
    if rule in ('bool', 'bool?'):
        return sbool(env, 'v_' + tag)
    if rule == 'list:str':
        return str_list(env.ctx, 'L.' + tag)(env.ctx, ())
    if rule.startswith('list:'):
        return env.ip.ctx.alloc(ListRec([Lit(construct(env, rule[5:])[0])]))
    return construct(env, rule[:-1])[0]


def any_list(env, rule):
    """List of any length whose elements are any of: string, number, None, an instance of the wanted class, of another class."""
    ctx = env.ctx
    K = ctx.fn('anyk', I, I)
    E_ = ctx.fn('anye', I, S)
    N_ = ctx.fn('anyn', I, I)
    n = z3.Int('any.len')
    ctx.assume(n >= 0)
    want = rule[5:] if isinstance(rule, str) and rule.startswith('list:') and rule != 'list:str' else 'Lane'
    other = 'Participant'
    # instances: one shared representative per class (class membership is all that matters)
    reps = [construct(env, want)[0], construct(env, other)[0]]
    if want == 'FlowElement':
        reps += [construct(env, c)[0] for c in KIND['FlowElement'][1:]]

    def el(c, a, t):
        k = c.choose([K(t) == 0, K(t) == 1, K(t) == 2] + [K(t) == 3 + j for j in range(len(reps) - 1)] +
                     [z3.Or(K(t) < 0, K(t) >= 3 + len(reps) - 1)])
        if k == 0:
            return Sym('str', E_(t))
        if k == 1:
            return Sym('int', N_(t))
        if k == 2:
            return None
        return reps[k - 3] if k - 3 < len(reps) else reps[-1]
    return ctx.alloc(ListRec([BaseGen(n, el, (), 'anylist')])), n, K, want, len(reps)


def setter_goal(cls, field):
    getter, setter, init, rule = MODEL[cls][1][field]

    def fn(env):
        env.boot(MODS14 + ['contracts.base'])
        ip, ctx = env.ip, env.ctx

        def path():
            obj, cargs = construct(env, cls)
            expect = {}
            for f, (g, s, i0, r) in MODEL[cls][1].items():
                v = valid(env, r, f)
                expect[f] = v
                ip.call(ip.getattr(obj, s), [v])
            form = ctx.choose_any(9)
            ok = None       # condition for acceptance, as z3 Bool
            err = 'TypeError'
            T, F = z3.BoolVal(True), z3.BoolVal(False)
            opt = isinstance(rule, str) and rule.endswith('?')
            if form == 0:
                v, ok = None, z3.BoolVal(opt)
            elif form == 1:
                v = sstr(env, 'new')
                if isinstance(rule, list):
                    ok = z3.Or(*[v.t == z3.StringVal(x) for x in rule])
                    err = 'ValueError'
                else:
                    ok = z3.BoolVal(rule in ('str', 'str?'))
            elif form == 2:
                v, ok = sbool(env, 'newb'), z3.BoolVal(rule in ('bool', 'bool?'))
            elif form == 3:
                v, ok = Sym('int', z3.Int('newi')), F
            elif form == 4:
                v, ok = Sym('real', z3.Real('newr')), F
            elif form == 5:
                v, n, K, want, nreps = any_list(env, rule)
                if rule == 'list:str':
                    ok = ('all', n, lambda t: K(t) == 0)
                elif isinstance(rule, str) and rule.startswith('list:'):
                    if want == 'FlowElement':
                        ok = ('all', n, lambda t: z3.And(K(t) != 0, K(t) != 1, K(t) != 2, K(t) != 4))
                    else:
                        ok = ('all', n, lambda t: K(t) == 3)
                else:
                    ok = F
            elif form == 6:
                v, ok = (sstr(env, 'tup'),), F
            elif form == 7:
                want = rule[:-1] if opt and rule[:-1] in MODEL else 'Lane'
                v, ok = construct(env, want)[0], z3.BoolVal(opt and rule[:-1] in MODEL)
            else:
                v, ok = construct(env, 'Participant')[0], F
            r = env.attempt(lambda: ip.call(ip.getattr(obj, setter), [v]))
            if not ctx.feasible(z3.BoolVal(True)):
                raise Infeasible()
            name = '%s.%s' % (cls, setter)
            accepted = r[0] == 'ret'
            if isinstance(ok, tuple):
                t = z3.Int('any_pos')
                if accepted:
                    ctx.index_term(t)
                    ctx.prove(name + ': accepted list has only valid elements',
                              z3.Implies(z3.And(t >= 0, t < ok[1]), ok[2](t)))
                else:
                    tv = z3.Int('all_pos')
                    ctx.add_forall(Forall(tv, z3.IntVal(0), ok[1], ok[2](tv)))
                    if ctx.feasible(z3.BoolVal(True)):
                        ctx.prove(name + ': a list of valid elements is rejected', False)
                    else:
                        ctx.prove(name + ': rejected list has an invalid element', True)
                    r2 = r
            else:
                ctx.prove(name + ': accepts exactly the documented values (case %d)' % form, ok if accepted else z3.Not(ok))
            if not accepted:
                en = ctx.get(r[1]).cls.name
                if not isinstance(ok, tuple) or True:
                    ctx.prove(name + ': error class', z3.BoolVal(en == err) if not isinstance(ok, tuple) else z3.BoolVal(en == 'TypeError'), en)
            else:
                expect[field] = v
            st = State(ctx.heap, ctx.mats, ctx.famupd)
            for f, (g, s, i0, rr) in MODEL[cls][1].items():
                got = ip.call(ip.getattr(obj, g), [])
                same(env, '%s: %s afterwards' % (name, g), got, expect[f])
            env.end_path()
        ctx.explore(path)
    return Goal('C14', '%s.%s' % (cls, setter), fn, [path_of(cls).replace(':', '.') + '.' + setter], timeout=60)


def same(env, name, a, b):
    ip, ctx = env.ip, env.ctx
    a, b = ip.force(a), ip.force(b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            ctx.prove(name, True)
            return
        st = State(ctx.heap, ctx.mats, ctx.famupd)
        c = Cmp(ip, st, st.copy(), name)
        try:
            c.val(a, b, 'value')
        except Mismatch:
            pass
        return
    if kind_of(a) and kind_of(b):
        if kind_of(a) != kind_of(b):
            ctx.prove(name, False, '%r / %r' % (a, b))
            return
        r = ip.eq(a, b)
        ctx.prove(name, r if isinstance(r, bool) else zt(r), '%r / %r' % (a, b))
        return
    ctx.prove(name, a is b if not isinstance(a, tuple) else a == b, '%r / %r' % (a, b))


def ctor_goal(cls):
    def fn(env):
        env.boot(MODS14 + ['contracts.base'])
        ip, ctx = env.ip, env.ctx

        def path():
            if cls in ('MessageFlow', 'SequenceFlow'):
                forms = [ctx.choose_any(4), ctx.choose_any(4)]
                args = [[sstr(env, 'p%d' % i), Sym('int', z3.Int('q%d' % i)), None, sbool(env, 'r%d' % i)][k]
                        for i, k in enumerate(forms)]
                r = env.attempt(lambda: ip.call(env.fn(path_of(cls)), args))
                ctx.prove('%s(): accepts exactly string endpoints' % cls, (r[0] == 'ret') == (forms == [0, 0]), repr(forms))
                if r[0] == 'exc':
                    ctx.prove('%s(): error class' % cls, ctx.get(r[1]).cls.name == 'TypeError')
                    env.end_path()
                    return
                objs = [r[1], ip.call(env.fn(path_of(cls)), args)]
            else:
                args = []
                objs = [construct(env, cls)[0], construct(env, cls)[0]]
            for f, (g, s, init, rule) in MODEL[cls][1].items():
                vs = [ip.call(ip.getattr(o, g), []) for o in objs]
                exp = args[int(init[5:])] if isinstance(init, str) and init.startswith('ctor:') else init
                if isinstance(exp, list):
                    exp = ctx.alloc(ListRec([]))
                same(env, '%s(): initial %s' % (cls, g), vs[0], exp)
                if isinstance(vs[0], Ref):
                    ctx.prove('%s(): %s is not shared between instances' % (cls, g), vs[0] != vs[1])
            env.end_path()
        ctx.explore(path)
    return Goal('C14', '%s()' % cls, fn, [path_of(cls).replace(':', '.') + '.__init__'], timeout=60)


GOALS = [ctor_goal(c) for c in CLASSES] + [setter_goal(c, f) for c in CLASSES for f in MODEL[c][1]]
