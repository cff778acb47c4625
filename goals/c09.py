import time

from pyv.contract import *

LM = 'bpmn_python.diagram_layout_metrics:'
CT = 'contracts.layout_metrics:'


def rec(**kw):
    return DictRec([Pt(k, v) for k, v in kw.items()])


def segment(env, name):
    def pt(k):
        return env.ctx.alloc(rec(x=Sym('real', z3.Real(name + k + '.x')), y=Sym('real', z3.Real(name + k + '.y'))))
    return env.ctx.alloc(rec(source=pt('.s'), target=pt('.t')))


def pure(name, args, tag=''):
    def fn(env):
        env.boot(['contracts.layout_metrics'])
        impl, sp = env.fn(LM + name), env.fn(CT + name)

        def path():
            a = [x(env) for x in args]
            env.compare(name, lambda: env.ip.call(impl, list(a)), lambda: env.ip.call(sp, list(a)), [('arguments', tuple(a))])
        env.ctx.explore(path)
    return Goal('C09', name + tag, fn, [LM + name], timeout=120)


def diag(name):
    def fn(env):
        env.boot(['contracts.layout_metrics'])
        impl, sp = env.fn(LM + name), env.fn(CT + name)

        def path():
            d = Diagram(env, edge={'waypoints': True}, waymin=1)
            env.compare(name, lambda: env.ip.call(impl, [d.ref]), lambda: env.ip.call(sp, [d.ref]), [('diagram', d.ref)])
        env.ctx.explore(path)
    return Goal('C09', name, fn, [LM + name], timeout=120)


def as_formula(env, sp, a):
    """The contract predicate as one formula."""
    ps = env.ctx.subexplore(lambda: env.ip.truth(env.ip.call(sp, list(a))))
    return z3.Or(*[z3.And(*p.facts) for p in ps if p.value is True]), z3.Or(*[z3.And(*p.facts) for p in ps if p.value is False])


def lemma_symmetric(env):
    env.boot(['contracts.layout_metrics'])
    sp = env.fn(CT + 'do_intersect')

    def path():
        a, b = segment(env, 'a'), segment(env, 'b')
        env.compare('do_intersect(a, b) = do_intersect(b, a)', lambda: env.ip.call(sp, [a, b]), lambda: env.ip.call(sp, [b, a]), [])
    env.ctx.explore(path)


def lemma_meet(direction):
    def fn(env):
        env.boot(['contracts.layout_metrics'])
        sp = env.fn(CT + 'do_intersect')

        def path():
            # coordinates relative to the first point: every condition is invariant under translation
            X = z3.Reals('px py dqx dqy drx dry dsx dsy')
            px, py = X[0], X[1]
            qx, qy, rx, ry, sx, sy = [d + (px if i % 2 == 0 else py) for i, d in enumerate(X[2:])]

            def P(x, y):
                return env.ctx.alloc(rec(x=Sym('real', x), y=Sym('real', y)))
            a = env.ctx.alloc(rec(source=P(px, py), target=P(qx, qy)))
            b = env.ctx.alloc(rec(source=P(rx, ry), target=P(sx, sy)))
            yes, no = as_formula(env, sp, [a, b])
            s, t = z3.Reals('s t')
            meet = z3.And(s >= 0, s <= 1, t >= 0, t <= 1, px + s * (qx - px) == rx + t * (sx - rx),
                          py + s * (qy - py) == ry + t * (sy - ry))
            if direction == 'sound':
                def side(ax, ay, bx, by, cx, cy):
                    return (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)
                A = [side(px, py, qx, qy, rx, ry), side(px, py, qx, qy, sx, sy), side(rx, ry, sx, sy, px, py), side(rx, ry, sx, sy, qx, qy)]

                def differ(a, b):
                    return z3.Or(z3.And(a == 0, b != 0), z3.And(a > 0, b <= 0), z3.And(a < 0, b >= 0))
                proper = z3.And(differ(A[0], A[1]), differ(A[2], A[3]))

                def bt(a, b, c):
                    return z3.Or(z3.And(a <= c, c <= b), z3.And(b <= c, c <= a))

                def at(k, ax, ay, bx, by, cx, cy, u, fixed):
                    # c lies on the segment a, b: its parameter there is u; c is the end point `fixed` of the other segment
                    return ('end point %d' % k, z3.And(A[k] == 0, bt(ax, bx, cx), bt(ay, by, cy)),
                            [z3.If(ax != bx, u * (bx - ax) == cx - ax, z3.If(ay != by, u * (by - ay) == cy - ay, u == 0)), fixed])
                cases = [('proper', proper, [t * (A[0] - A[1]) == A[0], s * (A[2] - A[3]) == A[2]]),
                         at(0, px, py, qx, qy, rx, ry, s, t == 0), at(1, px, py, qx, qy, sx, sy, s, t == 1),
                         at(2, rx, ry, sx, sy, px, py, t, s == 0), at(3, rx, ry, sx, sy, qx, qy, t, s == 1)]
                cs = [('cases', [yes, z3.Not(z3.Or(*[c[1] for c in cases]))])] + \
                    [('(%s)' % n, [c] + w + [z3.Not(meet)]) for n, c, w in cases]
            else:
                cs = [('', [z3.Not(yes), meet])]
            for tag, fs in cs:
                S = z3.Then('simplify', 'purify-arith', 'propagate-values', 'nnf', 'qfnra-nlsat').solver()
                S.set('timeout', 60000)
                for f in fs:
                    S.add(z3.simplify(f, som=True))
                t0 = time.time()
                r = S.check()
                env.ctx.obls.append(Obl('do_intersect %s a common point exists %s' % ('only if' if direction == 'sound' else 'if', tag),
                                        'discharged' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown',
                                        S.model() if r == z3.sat else None, '', time.time() - t0))
                env.ctx.stats['queries'] += 1
            env.end_path()
        env.ctx.explore(path)
    return fn


def seg(n):
    return lambda e: segment(e, n)


def flow_segments(env):
    env.boot(['contracts.layout_metrics'])
    impl, sp = env.fn(LM + 'get_flows_segments'), env.fn(CT + 'get_flows_segments')
    gf = env.fn('bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph.get_flows')

    def path():
        d = Diagram(env, edge={'waypoints': True}, waymin=1)
        fl = env.ip.call(gf, [d.ref])
        env.compare('get_flows_segments', lambda: env.ip.call(impl, [fl]), lambda: env.ip.call(sp, [fl]), [('diagram', d.ref)])
    env.ctx.explore(path)


def crossings(env):
    """get_flows_segments is replaced by its contract (any list of segments), do_intersect by a symmetric predicate (its
    contract and the symmetry are goals of their own)."""
    env.boot(['contracts.layout_metrics'])
    impl, sp = env.fn(LM + 'count_crossing_points'), env.fn(CT + 'count_crossing_points')
    env.fn(LM + 'get_flows_segments')
    box = {}

    def segs(ip, f, args, kw):
        v = args[0] if len(args) == 1 and not kw else kw.get('flows') if not args else None
        if not isinstance(v, libs.EdgeView) or not v.data or v.g != box['d'].graph:
            raise Unsup('segments of something other than the flows of the diagram')
        return ip.ctx.alloc(ListRec([box['gen']]))

    def meet(ip, f, args, kw):
        if len(args) != 2 or kw:
            raise Unsup('do_intersect arguments')
        ts = []
        for a in args:
            ts.append([zt(ip.getitem(ip.getitem(a, e), c)) for e in ('source', 'target') for c in ('x', 'y')])
        D = ip.ctx.fn('meets', *([R] * 8 + [B]))
        ip.ctx.assume(D(*(ts[0] + ts[1])) == D(*(ts[1] + ts[0])))
        return Sym('bool', D(*(ts[0] + ts[1])))
    env.ip.overrides = {(LM + 'get_flows_segments'): segs, (CT + 'flow_segments'): segs,
                        (LM + 'do_intersect'): meet, (CT + 'do_intersect'): meet}

    def path():
        d = Diagram(env, edge={'waypoints': True}, waymin=1)
        c = env.ctx

        def point(c, key, e):
            f = [c.fn('seg.' + e + k, I, R)(*key) for k in 'xy']
            return c.alloc(rec(x=Sym('real', f[0]), y=Sym('real', f[1])))
        fam = Fam(c, 'segment', lambda c, key: rec(source=point(c, key, 's'), target=point(c, key, 't')))
        n = z3.Int('segments.n')
        c.assume(n >= 0)
        box['d'], box['gen'] = d, BaseGen(n, lambda c, a, t: fam.at(c, (t,)), (), 'segments')
        env.compare('count_crossing_points', lambda: env.ip.call(impl, [d.ref]), lambda: env.ip.call(sp, [d.ref]), [('diagram', d.ref)])
    env.ctx.explore(path)


GOALS = [diag('count_segments'), Goal('C09', 'get_flows_segments', flow_segments, [LM + 'get_flows_segments']), Goal('C09', 'count_crossing_points', crossings, [LM + 'count_crossing_points'], soft=True),
         pure('segments_common_points', [seg('a'), seg('b')]), pure('do_intersect', [seg('a'), seg('b')]),
         Goal('C09', 'lemma: do_intersect is symmetric', lemma_symmetric, []),
         Goal('C09', 'lemma: segments that intersect share a point', lemma_meet('sound'), [], timeout=250),
         Goal('C09', 'lemma: segments that share a point intersect', lemma_meet('complete'), [], timeout=250)]
META = dict(assumptions=['coordinates are real numbers (floating point rounding is not modelled)', 'every flow has at least one waypoint'],
            trusted=['count_crossing_points is proved against the contract of get_flows_segments (any list of segments) and against a symmetric '
                     'predicate for do_intersect; both contracts and the symmetry are discharged as goals of their own'])
