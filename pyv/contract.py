"""Contracts: run the implementation and its contract function from the same symbolic pre-state and compare."""
import os
import time
import traceback
import z3
from .core import *
from .ops import *
from .interp import *
from .compare import Cmp, State, Mismatch
from . import libs, models, counting

REPO = os.environ.get('VERIF_REPO', '/repo')
MODS = ['bpmn_python.bpmn_diagram_rep', 'bpmn_python.bpmn_diagram_metrics', 'bpmn_python.diagram_layout_metrics',
        'bpmn_python.bpmn_diagram_layouter', 'bpmn_python.bpmn_import_utils', 'bpmn_python.bpmn_diagram_import',
        'bpmn_python.bpmn_diagram_export', 'bpmn_python.bpmn_process_csv_export', 'bpmn_python.grid_cell_class']


class Goal:
    """One verification goal: list of obligations with verdicts."""

    def __init__(self, prop, name, fn, functions=(), timeout=120, note='', soft=False):
        self.soft = soft        # stated against contracts of callees: a failed proof is not a refutation
        self.prop, self.name, self.fn, self.functions, self.timeout, self.note = prop, name, fn, functions, timeout, note


class Result:
    def __init__(self, goal):
        self.prop, self.name = goal.prop, goal.name
        self.obls = []
        self.status = 'undecided'
        self.reason = ''
        self.stats = {}
        self.executed = []
        self.wall = 0.0
        self.feasible_paths = 0

    def as_dict(self):
        return dict(prop=self.prop, name=self.name, status=self.status, reason=self.reason, stats=self.stats,
                    executed=self.executed, wall=round(self.wall, 2), feasible_paths=self.feasible_paths,
                    obls=[dict(name=o.name, status=o.status, detail=o.detail, model=model_text(o.model),
                               t=round(o.t, 3)) for o in self.obls])


def model_text(m):
    if m is None:
        return None
    try:
        return str(m)[:4000]
    except Exception:
        return None


class Env:
    """What a goal function gets: fresh interpreter, helpers to build inputs and state obligations."""

    def __init__(self, goal, timeout_ms=8000, deadline=None, keep_smt=False):
        self.goal = goal
        self.ctx = Ctx(timeout_ms, deadline)
        self.ctx.work = [()]
        if keep_smt:
            self.ctx.keep_smt = []
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        extra = {'contracts.' + f[:-3]: os.path.join(here, 'contracts', f)
                 for f in os.listdir(os.path.join(here, 'contracts')) if f.endswith('.py')}
        extra['contracts'] = ''
        self.ip = Interp(self.ctx, REPO, extra)
        self.feasible = 0
        self.dead = 0

    def boot(self, mods=()):
        self.ip.boot([m for m in MODS if self.ip.find_source(m)] + list(mods))

    def fn(self, dotted, nargs=None):
        v = self.ip.resolve(dotted)
        if v is None:
            raise Missing(dotted)
        if nargs is not None:
            # internal function: its contract is stated for this signature only
            a = getattr(getattr(v, 'node', None), 'args', None)
            if a is not None:
                n = len(a.posonlyargs) + len(a.args)
                if not (n - len(a.defaults) <= nargs <= n) or any(d is None for d in a.kw_defaults):
                    raise Missing('%s with %d parameters' % (dotted, nargs))
        return v

    def attempt(self, f):
        """('ret', v) or ('exc', ref)"""
        try:
            return ('ret', f())
        except PyRaise as e:
            return ('exc', e.val)

    def compare(self, name, impl, spec, roots, exc='class', result=True, roots2=None):
        """impl/spec: thunks.  roots: values whose reachable state must agree afterwards."""
        ctx, ip = self.ctx, self.ip
        st0 = State(dict(ctx.heap), list(ctx.mats), dict(ctx.famupd))
        ip.side = 0
        r1 = self.attempt(impl)
        s1 = State(ctx.heap, ctx.mats, ctx.famupd)
        ctx.heap, ctx.mats, ctx.famupd = dict(st0.heap), list(st0.mats), dict(st0.famupd)
        ip.side = 1
        r2 = self.attempt(spec)
        s2 = State(ctx.heap, ctx.mats, ctx.famupd)
        ip.side = 0
        if r2[0] == 'exc' and s2.heap[r2[1].o].cls.name == 'Outside':
            raise Infeasible()
        if not ctx.feasible(z3.BoolVal(True)):
            raise Infeasible()
        c = Cmp(ip, s1, s2, name)
        try:
            if r1[0] != r2[0]:
                d = ''
                if r1[0] == 'exc':
                    e = s1.heap[r1[1].o]
                    d = 'implementation raises %s%r' % (e.cls.name, e.attrs.get('args'))
                else:
                    d = 'contract requires %s' % s2.heap[r2[1].o].cls.name
                c.ob('outcome (return/raise)', False, d)
            elif r1[0] == 'exc':
                if exc == 'class':
                    n1, n2 = s1.heap[r1[1].o].cls.name, s2.heap[r2[1].o].cls.name
                    c.ob('exception class', n1 == n2, '%s / %s' % (n1, n2))
            elif result:
                c.val(r1[1], r2[1], 'result')
            if roots and untouched(st0, s1) and untouched(st0, s2):
                # no object of the pre-state was written by either side
                c.ob('/'.join(n for n, v in roots) + ' unchanged', True)
            else:
                for n, v in roots:
                    c.val(v, v, n)
        except Mismatch:
            pass
        self.end_path()
        return r1, r2, c

    def end_path(self):
        """Vacuity guard: at least one path must be really feasible."""
        r, m = self.ctx._check(z3.BoolVal(True))
        if r == z3.sat:
            self.feasible += 1
        elif r == z3.unknown:
            self.feasible += 0
        else:
            self.dead += 1


def untouched(s0, s):
    if any(s.heap.get(k) is not r for k, r in s0.heap.items()):
        return False
    if any(s.famupd.get(k) != u for k, u in s0.famupd.items()) or any(k not in s0.famupd for k in s.famupd):
        return False
    return all(s.heap[oid] is rec for _, _, oid, rec in s.mats[len(s0.mats):])


class Missing(Exception):
    pass


def run_goal(goal, timeout_ms=8000, keep_smt=False):
    res = Result(goal)
    t0 = time.time()
    env = None
    try:
        env = Env(goal, timeout_ms, t0 + goal.timeout, keep_smt)
        goal.fn(env)
        sts = [o.status for o in env.ctx.obls]
        if not sts:
            res.status, res.reason = 'undecided', 'no obligation generated'
        elif 'refuted' in sts:
            res.status = 'refuted'
        elif all(s == 'discharged' for s in sts):
            res.status = 'proved' if env.feasible else 'undecided'
            if not env.feasible:
                res.reason = 'no path confirmed feasible'
        else:
            res.status = 'undecided'
            res.reason = '; '.join(sorted({o.name + (': ' + o.detail if o.detail else '') for o in env.ctx.obls
                                           if o.status == 'unknown'}))[:500]
    except Unsup as e:
        res.status, res.reason = 'undecided', 'outside the verifier: %s' % e
    except Missing as e:
        res.status, res.reason = 'missing', 'function not present: %s' % e
    except Budget as e:
        res.status, res.reason = 'undecided', str(e)
    except PoisonRead as e:
        res.status, res.reason = 'undecided', 'loop-carried read %r' % (e.loc,)
    except z3.Z3Exception as e:
        res.status, res.reason = 'undecided', 'z3: %s' % e
    except RecursionError:
        res.status, res.reason = 'undecided', 'recursion'
    except Exception as e:
        res.status, res.reason = 'undecided', 'engine: %s' % ''.join(traceback.format_exc().splitlines(True)[-6:])
    if env is not None:
        res.obls = env.ctx.obls
        if res.status == 'undecided' and any(o.status == 'refuted' for o in env.ctx.obls):
            res.status = 'refuted'
        if res.status == 'refuted' and goal.soft:
            res.status, res.reason = 'undecided', 'not provable from the contracts of the callees: ' + '; '.join(
                o.name for o in env.ctx.obls if o.status == 'refuted')[:300]
        res.stats = dict(env.ctx.stats)
        res.executed = sorted(q for q in env.ip.executed if not q.startswith('contracts'))
        res.feasible_paths = env.feasible
        res.smt = env.ctx.keep_smt
    res.wall = time.time() - t0
    return res


# ---------------------------------------------------------------------------------- symbolic inputs
def str_list(ctx, name):
    """Family of unknown lists of strings, keyed."""
    def maker(c, key):
        ss = [k.sort() for k in key]
        n = c.fn(name + '.len', *(ss + [I]))(*key)
        el = c.fn(name + '.at', *(ss + [I, S]))
        c.assume(n >= 0)
        return ListRec([BaseGen(n, lambda cc, a, t: Sym('str', el(*a, t)), list(key), name)])
    fam = Fam(ctx, name, maker)

    def mk_(c, args):
        return fam.at(c, tuple(args))
    mk_.container = True
    return mk_


def pair_list(ctx, name, k='str', minlen=0):
    def maker(c, key):
        ss = [x.sort() for x in key]
        n = c.fn(name + '.len', *(ss + [I]))(*key)
        ex = c.fn(name + '.x', *(ss + [I, SORT[k]]))
        ey = c.fn(name + '.y', *(ss + [I, SORT[k]]))
        c.assume(n >= minlen)
        return ListRec([BaseGen(n, lambda cc, a, t: (Sym(k, ex(*a, t)), Sym(k, ey(*a, t))), list(key), name)])
    fam = Fam(ctx, name, maker)

    def mk_(c, args):
        return fam.at(c, tuple(args))
    mk_.container = True
    return mk_


def rec_of(ctx, name, schema):
    fam = Fam(ctx, name, lambda c, key: DictRec((), AttrBase(schema, key)))

    def mk_(c, args):
        return fam.at(c, tuple(args))
    mk_.container = True
    return mk_


def map_of(ctx, name, val):
    """Family of unknown maps string -> val(args+key)."""
    fam = Fam(ctx, name, lambda c, key: DictRec((), MapBase(c, name, val, key)))

    def mk_(c, args):
        return fam.at(c, tuple(args))
    mk_.container = True
    return mk_


def rec_list(ctx, name, schema):
    """Family of unknown lists of records."""
    item = rec_of(ctx, name + '.item', schema)

    def maker(c, key):
        ss = [x.sort() for x in key]
        n = c.fn(name + '.len', *(ss + [I]))(*key)
        c.assume(n >= 0)
        return ListRec([BaseGen(n, lambda cc, a, t: item(cc, tuple(a) + (t,)), list(key), name)])
    fam = Fam(ctx, name, maker)

    def mk_(c, args):
        return fam.at(c, tuple(args))
    mk_.container = True
    return mk_


TYPES = ['task', 'userTask', 'serviceTask', 'manualTask', 'subProcess', 'dataObject', 'complexGateway',
         'eventBasedGateway', 'inclusiveGateway', 'exclusiveGateway', 'parallelGateway', 'startEvent',
         'intermediateCatchEvent', 'endEvent', 'intermediateThrowEvent', 'boundaryEvent', 'participant']


class Diagram:
    """Arbitrary diagram object.  Every component is unknown; `node`/`edge` give field presence overrides."""

    def __init__(self, env, name='D', node=None, edge=None, waymin=0, numeric_types=None, empty=False,
                 part=None, lanes=None, complete=False):
        ctx, ip = env.ctx, env.ip
        self.ctx = ctx
        edef = Schema(name + '.evdef', {'id': (True, 'str'), 'definition_type': (True, 'str')}, closed=True)
        cexp = Schema(name + '.cond', {'id': (True, 'str'), 'conditionExpression': (True, 'str')}, closed=True)
        nf = {'id': ('opt', lambda c, a: Sym('str', a[0])), 'type': (True, 'str'), 'node_name': ('opt', 'str'),
              'process': (True, 'str'), 'incoming': ('opt', str_list(ctx, name + '.inc')),
              'outgoing': ('opt', str_list(ctx, name + '.out')), 'width': ('opt', 'str'), 'height': ('opt', 'str'),
              'x': ('opt', 'str'), 'y': ('opt', 'str'),
              'event_definitions': ('opt', rec_list(ctx, name + '.evdefs', edef))}
        for k, p in (node or {}).items():
            if isinstance(p, tuple):
                nf[k] = p
            else:
                nf[k] = (p, nf[k][1] if k in nf else 'str')
        ef = {'id': (True, 'str'), 'name': ('opt', 'str'), 'process': ('opt', 'str'), 'sourceRef': (True, 'str'),
              'targetRef': (True, 'str'), 'waypoints': ('opt', pair_list(ctx, name + '.way', 'str', waymin)),
              'conditionExpression': ('opt', rec_of(ctx, name + '.condx', cexp))}
        for k, p in (edge or {}).items():
            ef[k] = p if isinstance(p, tuple) else (p, ef[k][1] if k in ef else 'str')
        self.nschema = Schema(name + '.node', nf)
        self.eschema = Schema(name + '.edge', ef)
        self.nodefam = Fam(ctx, name + '.nodes', lambda c, key: DictRec((), AttrBase(self.nschema, key)))
        self.edgefam = Fam(ctx, name + '.edges', self._edge)
        self.nodes = MapBase(ctx, name + '.N', lambda c, args: self.nodefam.at(c, args))
        self.edges = libs.EdgeBase(ctx, name + '.E', lambda c, args: self.edgefam.at(c, args), self.nodes)
        sf = Schema(name + '.sf', {'name': (True, 'str'), 'sourceRef': (True, 'str'), 'targetRef': (True, 'str')}, closed=True)
        self.sf = MapBase(ctx, name + '.SF', rec_of(ctx, name + '.sfs', sf))
        pe = Schema(name + '.pe', {'id': ('opt', 'str'), 'name': (True, 'str'), 'isClosed': (True, 'str'),
                                   'isExecutable': (True, 'str'), 'processType': (True, 'str'),
                                   'node_ids': ('opt', str_list(ctx, name + '.nodeids')),
                                   **({'laneSet': ('opt', lanes)} if lanes else {})}, closed=False)
        self.pe = MapBase(ctx, name + '.PE', rec_of(ctx, name + '.pes', pe))
        part = Schema(name + '.part', {'name': (True, 'str'), 'processRef': (True, 'str'), **(part or {})}, closed=False)
        mf = Schema(name + '.mf', {'id': (True, 'str'), 'name': (True, 'str'), 'sourceRef': (True, 'str'),
                                   'targetRef': (True, 'str')}, closed=True)
        col = Schema(name + '.col', {'id': ('opt', 'str'),
                                     'participants': ('opt', map_of(ctx, name + '.parts', rec_of(ctx, name + '.partrec', part))),
                                     'messageFlows': ('opt', map_of(ctx, name + '.mfs', rec_of(ctx, name + '.mfrec', mf)))},
                     closed=True)
        # complete: the collaboration is either absent (empty) or has all its parts
        collaboration = DictRec((), AttrBase(col, ()))
        if complete and ctx.choose_any(2) == 0:
            collaboration = DictRec()
        elif complete:
            collaboration = DictRec([Pt(k, col.value(ctx, k, ())) for k in col.fields])
        cls = env.fn('bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph')
        if empty:
            self.graph = ctx.alloc(InstRec(ip.graphcls, {'_nodes': ctx.alloc(DictRec()),
                                                         '_edges': ctx.alloc(DictRec((), None, 'edge'))}))
        else:
            self.graph = ctx.alloc(InstRec(ip.graphcls, {
                '_nodes': ctx.alloc(DictRec((), self.nodes)), '_edges': ctx.alloc(DictRec((), self.edges, 'edge'))}))
        at = Schema(name + '.diag', {'id': ('opt', 'str'), 'name': ('opt', 'str')}, closed=True)
        pl = Schema(name + '.plane', {'id': ('opt', 'str'), 'bpmnElement': ('opt', 'str')}, closed=True)
        self.ref = ctx.alloc(InstRec(cls, {
            'diagram_graph': self.graph, 'sequence_flows': ctx.alloc(DictRec((), self.sf)),
            'process_elements': ctx.alloc(DictRec((), self.pe)),
            'diagram_attributes': ctx.alloc(DictRec((), AttrBase(at, ()))),
            'plane_attributes': ctx.alloc(DictRec((), AttrBase(pl, ()))),
            'collaboration': ctx.alloc(collaboration)}))

    def _edge(self, c, key):
        (i,) = key
        s = self.eschema
        src, tgt = s.value(c, 'sourceRef', key).t, s.value(c, 'targetRef', key).t
        u, v = self.edges.U(i), self.edges.V(i)
        c.assume(z3.Implies(z3.And(i >= 0, i < self.edges.n),
                            z3.Or(z3.And(src == u, tgt == v), z3.And(src == v, tgt == u))))
        return DictRec((), AttrBase(s, key))


def optional(env, v):
    """None or v."""
    return v if env.ctx.choose_any(2) else None


def sstr(env, name):
    return Sym('str', z3.String(name))


def sbool(env, name):
    return Sym('bool', z3.Bool(name))


# ---------------------------------------------------------------------------------- loops, one iteration at a time
class StepDone(Exception):
    pass


def loop_step(env, name, impl, args, step, elem, count, roots, before=lambda: None):
    """The first loop statement of `impl` against `step`, for an arbitrary iteration in an arbitrary state.

    before(): puts the arbitrary state of an iteration in place of the initial one;  step(t): the contract of iteration t;
    count: number of iterations of the contract.  With skip_loop this shows that impl is that loop and nothing else."""
    ctx, ip = env.ctx, env.ip
    t = z3.Int('iteration')
    ctx.assume(z3.And(t >= 0, t < count))
    ctx.index_term(t)

    def run_impl():
        heap0 = dict(ctx.heap)

        def hook(segs, body):
            if len(segs) != 1 or not isinstance(segs[0], Gen) or not ip.one_each(segs[0]):
                raise Unsup('loop over an unexpected sequence')
            if any(ctx.heap.get(k) is not r for k, r in heap0.items()):
                raise Unsup('state changed before the loop')
            g = segs[0]
            ctx.prove('%s: number of iterations' % name, g.n == count)
            v = ip.gen_pick(g, t)[0].v
            before()
            try:
                body(v)
            except (BreakEx, ReturnEx):
                raise Unsup('loop left early')
            raise StepDone()
        ip.loop_hook = hook
        try:
            ip.call(impl, list(args))
        except StepDone:
            return None
        finally:
            ip.loop_hook = None
        raise Unsup('no loop')

    def run_spec():
        before()
        step(t)
        return None
    return env.compare(name, run_impl, run_spec, roots)


def skip_loop(env, name, impl, args, roots, result=None):
    """With its loop taken out the function does nothing."""
    ip = env.ip
    seen = []

    def run_impl():
        ip.loop_hook = lambda segs, body: seen.append(1)
        try:
            r = ip.call(impl, list(args))
        finally:
            ip.loop_hook = None
        if not seen:
            raise Unsup('no loop')
        return r
    env.compare(name, run_impl, lambda: result, roots)
