from pyv.contract import *

EXP = 'bpmn_python.bpmn_diagram_export:BpmnDiagramGraphExport.'
REP = 'bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph.'
CT = 'contracts.xml_export:'
KINDS = {
    "task": (), "userTask": (), "serviceTask": (), "manualTask": (), "subProcess": ('triggeredByEvent',), "dataObject": ('isCollection',),
    "complexGateway": ('gatewayDirection',), "inclusiveGateway": ('gatewayDirection',), "exclusiveGateway": ('gatewayDirection',),
    "parallelGateway": ('gatewayDirection',), "eventBasedGateway": ('gatewayDirection', 'instantiate', 'eventGatewayType'),
    "startEvent": ('parallelMultiple', 'isInterrupting', 'event_definitions'), "intermediateCatchEvent": ('parallelMultiple', 'event_definitions'),
    "endEvent": ('event_definitions',), "intermediateThrowEvent": ('event_definitions',),
    "boundaryEvent": ('parallelMultiple', 'cancelActivity', 'attachedToRef', 'event_definitions'),
}
GEO = ('width', 'height', 'x', 'y')


def opt_str(ctx, name):
    """A string or None."""
    def mk_(c, args):
        ss = [a.sort() for a in args]
        if c.fork(c.fn(name + '.none', *(ss + [B]))(*args)):
            return None
        return Sym('str', c.fn(name + '.val', *(ss + [S]))(*args))
    return mk_


def node_fields(env, name, kind=None):
    f = {'id': True, 'type': True, 'node_name': True, 'incoming': True, 'outgoing': True, 'process': True,
         'default': ('opt', opt_str(env.ctx, name + '.default'))}
    for k in GEO:
        f[k] = True
    for k in KINDS.get(kind, ()):
        f[k] = True
    return f


EDGE = {'waypoints': True, 'name': True}


def part_fields(env):
    return {k: (True, 'str') for k in ('isHorizontal',) + GEO}


def element(env, tag='parent'):
    return env.ip.call(env.ip.elcls, [tag])


def compare(env, name, impl, sp, args, spec_args=None, result=False, extra=()):
    roots = [('arguments', tuple(x for x in args if isinstance(x, Ref)))] + list(extra)
    env.compare(name, lambda: env.ip.call(impl, list(args)), lambda: env.ip.call(sp, list(spec_args or args)), roots, result=result)


def marker(env, kind, pick):
    """Callee contract: it appends to its parent element what it appends for this record (and nothing else)."""
    def stub(ip, f, args, kw):
        if kw:
            raise Unsup('keyword call of a stub')
        args = [ip.force(x) for x in args]
        parents, key, rec = pick(args)
        for i, p in enumerate(parents):
            e = ip.call(ip.elcls, ['#%s%d' % (kind, i)])
            ip.setattr(e, 'text', key)
            if rec is not None:
                ip.setattr(e, 'tail', rec)
            ip.call(ip.getattr(p, 'append'), [e])
        return None
    return stub


def node_goal(kind, prop='C05'):
    def fn(env):
        env.boot(['contracts.xml_export'])
        impl, sp = env.fn(EXP + 'export_node_data', 4), env.fn(CT + 'node_of_kind')

        def path():
            d = Diagram(env, node=node_fields(env, 'D', kind), edge=EDGE)
            nid = sstr(env, 'nid')
            env.ctx.assume(d.nodes.has(env.ctx, nid))
            rec = d.nodes.value(env.ctx, nid)
            env.ctx.assume(zt(env.ip.getitem(rec, 'type')) == z3.StringVal(kind))
            parent = element(env)
            if kind == 'subProcess':
                env.ip.overrides = nested(env, (EXP + 'export_node_data', CT + 'node_of_kind'))
            compare(env, 'export_node_data', impl, sp, [d.ref, nid, rec, parent], [d.ref, nid, rec, parent, kind], extra=[('diagram', d.ref)])
        env.ctx.explore(path)
    return Goal(prop, 'export_node_data (%s)' % kind, fn, [EXP + 'export_node_data'], soft=kind == 'subProcess')


def nested(env, first=()):
    nd = marker(env, 'node', lambda a: ([a[3]], a[1], a[2]))
    over = {EXP + 'export_node_data': nd, CT + 'node': nd,
            EXP + 'export_flow_process_data': marker(env, 'flow', lambda a: ([a[1]], 'f', a[0])),
            CT + 'flow': marker(env, 'flow', lambda a: ([a[1]], 'f', a[0]))}
    seen = set()
    for q in first:
        def once(ip, f, args, kw, stub=over.get(q)):
            if f.qual not in seen:
                seen.add(f.qual)
                return NotImplemented
            return stub(ip, f, args, kw)
        over[q] = once
    return over


def lanes_over(env):
    ln = marker(env, 'lane', lambda a: ([a[0], a[3]], a[1], a[2]))
    return {EXP + 'export_lane': ln, CT + 'lane': ln}


def child_over(env):
    cl = marker(env, 'childLaneSet', lambda a: ([a[0], a[2]], 'c', a[1]))
    return {EXP + 'export_child_lane_set': cl, CT + 'child_lane_set': cl}


def flow_lookup(env, d):
    """get_flow_by_id by its contract (C03); precondition: every message flow of the collaboration is a flow of the graph."""
    def stub(ip, f, args, kw):
        k = ip.force(args[1])
        i = env.ctx.fn('flow.number', S, I)(zt(k))
        env.ctx.assume(z3.And(i >= 0, i < d.edges.n))
        u, v = d.edges.at(env.ctx, i)
        r = d.edges.val(env.ctx, (i,))
        env.ctx.assume(zt(ip.getitem(r, 'id')) == zt(k))
        return (u, v, r)
    return {REP + 'get_flow_by_id': stub}


def drivers(env):
    o = nested(env)
    ls = marker(env, 'laneSet', lambda a: ([a[0], a[2]], 'l', a[1]))
    for k in (EXP + 'export_flow_process_data', CT + 'flow'):
        del o[k]
    o.update({EXP + 'export_lane_set': ls, CT + 'lane_set': ls, EXP + 'indent': lambda ip, f, a, k: a[0]})
    return o


def lane_record(env, name='L'):
    sch = Schema(name, {'id': (True, 'str'), 'name': (True, 'str'), 'isHorizontal': (True, 'str'),
                        'flowNodeRefs': ('opt', str_list(env.ctx, name + '.refs')),
                        'childLaneSet': ('opt', map_of(env.ctx, name + '.child', lambda c, a: Sym('str', c.fn(name + '.cv', *([x.sort() for x in a] + [S]))(*a)))),
                        'width': (True, 'str'), 'height': (True, 'str'), 'x': (True, 'str'), 'y': (True, 'str')}, closed=True)
    return sch


def set_record(env):
    lane = rec_of(env.ctx, 'LS.lane', lane_record(env))
    sch = Schema('LS', {'id': (True, 'str'), 'lanes': (True, map_of(env.ctx, 'LS.lanes', lane))}, closed=True)
    return env.ctx.alloc(DictRec((), AttrBase(sch, ())))


def simple(name, spec, args, over=None, result=False, prop='C05'):
    def fn(env):
        env.boot(['contracts.xml_export'])

        def path():
            a = args(env)
            impl, sp = env.fn(EXP + name, len(a)), env.fn(CT + spec)
            env.ip.overrides = over(env) if over else {}
            compare(env, name, impl, sp, a, result=result)
        env.ctx.explore(path)
    return Goal(prop, name, fn, [EXP + name], soft=bool(over))


def rec(env, name, fields, closed=False):
    return env.ctx.alloc(DictRec((), AttrBase(Schema(name, fields, closed), ())))


def node_rec(env):
    f = {k: (True, 'str') for k in ('type',) + GEO}
    if env.ip.truth(env.ip.compare('Eq', env.ip.getitem(rec(env, 'N', f), 'type'), 'subProcess')):
        f['isExpanded'] = (True, 'str')         # precondition: a sub-process says whether it is expanded; other nodes need not
    else:
        f['isExpanded'] = ('opt', 'str')
    return rec(env, 'N', f)


def flow_rec(env):
    c = Schema('C', {'id': (True, 'str'), 'conditionExpression': (True, 'str')}, closed=True)
    return rec(env, 'F', {'id': (True, 'str'), 'process': (True, 'str'), 'name': (True, 'str'), 'sourceRef': (True, 'str'), 'targetRef': (True, 'str'),
                          'waypoints': (True, pair_list(env.ctx, 'F.way')), 'conditionExpression': ('opt', rec_of(env.ctx, 'F.cond', c))})


def api(name, spec, prop='C05', di=True):
    def fn(env):
        env.boot(['contracts.xml_export'])
        impl, sp = env.fn(REP + name), env.fn(CT + spec)

        def path():
            d = Diagram(env, node=dict(node_fields(env, 'D'), isExpanded=True), edge=EDGE, part=part_fields(env), lanes=set_record_fam(env), complete=True)
            log = env.ip.mklist()
            env.ip.write_log = log
            env.ip.overrides = drivers(env)
            env.ip.overrides.update(flow_lookup(env, d))
            p, f = sstr(env, 'directory'), sstr(env, 'filename')
            env.compare(name, lambda: env.ip.call(impl, [d.ref, p, f]), lambda: env.ip.call(sp, [d.ref, p, f]),
                        [('diagram', d.ref), ('written file', log)], result=False)
        env.ctx.explore(path)
    return Goal(prop, name, fn, [REP + name], soft=True, timeout=400)


def set_record_fam(env):
    lane = rec_of(env.ctx, 'LS.lane', lane_record(env))
    sch = Schema('LS', {'id': (True, 'str'), 'lanes': (True, map_of(env.ctx, 'LS.lanes', lane))}, closed=True)
    return rec_of(env.ctx, 'LS.rec', sch)


def text_value(env, name):
    c = env.ctx.choose_any(2)
    return None if c == 0 else sstr(env, name)


def indent_goal(prop='C05'):
    """Pretty printing keeps tags, attributes, children and every text that is not white space (an element's own text when it
    has no child element is kept as it is); nested elements are handled by the same contract."""
    def fn(env):
        env.boot(['contracts.xml_export'])
        ip, ctx = env.ip, env.ctx
        impl, kept = env.fn(EXP + 'indent', 2), env.fn(CT + 'kept')
        level = [0]

        def path():
            kid = Fam(ctx, 'kid', lambda c, key: InstRec(ip.elcls, {'tag': Sym('str', c.fn('kid.tag', I, S)(*key)), 'attrib': c.alloc(DictRec()),
                                                                'children': c.alloc(ListRec([])), 'text': None, 'tail': None}))
            n = z3.Int('kids')
            ctx.assume(n >= 0)
            kids = ctx.alloc(ListRec([BaseGen(n, lambda c, a, t: kid.at(c, (t,)), [], 'kids')]))
            text, tail, tag = text_value(env, 'text'), text_value(env, 'tail'), sstr(env, 'tag')
            attrs = rec(env, 'A', {})
            e = ctx.alloc(InstRec(ip.elcls, {'tag': tag, 'attrib': attrs, 'children': kids, 'text': text, 'tail': tail}))
            log = ip.mklist()
            seen = []

            def once(ip_, f, args, kw):
                if not seen:
                    seen.append(1)
                    return NotImplemented
                ip.call(ip.getattr(log, 'append'), [args[0]])
                return args[0]
            ip.overrides = {EXP + 'indent': once}
            before = ctx.heap
            r = env.attempt(lambda: ip.call(impl, [e, level[0]]))
            if r[0] != 'ret':
                ctx.prove('indent: returns', z3.BoolVal(False))
                return env.end_path()
            a = ctx.get(e).attrs
            same = ctx.get(kids) is before[kids.o] and ctx.get(attrs) is before[attrs.o]
            ctx.prove('indent: tag, attributes and children unchanged', z3.BoolVal(
                same and all(a[k] is v for k, v in (('tag', tag), ('attrib', attrs), ('children', kids)))))
            leaf = ctx.fork(n == 0)
            for k, old in (('text', text), ('tail', tail)):
                new = ip.force(a[k])
                if k == 'text' and leaf:
                    ok = ip.identical(old, new) if old is None or new is None else ip.eq(old, new)
                else:
                    ok = ip.call(kept, [old, new])
                ctx.prove('indent: %s keeps what is not white space' % k, zt(ok) if not isinstance(ok, bool) else z3.BoolVal(ok))
            nl = ip.length(log)
            ctx.prove('indent: every child handled once', zt(ip.eq(nl, mk('int', n))))
            env.end_path()
        for level[0] in range(0, 9):
            ctx.explore(path)
    return Goal(prop, 'indent', fn, [EXP + 'indent'], soft=True)


ELEMENTS = [
    ('export_flow_process_data', 'flow', lambda e: [flow_rec(e), element(e)]),
    ('export_process_element', 'process', lambda e: [element(e), sstr(e, 'pid'), rec(e, 'P', {k: (True, 'str') for k in (
        'name', 'isClosed', 'isExecutable', 'processType')})], None, True),
    ('export_definitions_element', 'definitions', lambda e: [], None, True),
]
DI = [
    ('export_node_di_data', 'node_shape', lambda e: [sstr(e, 'nid'), node_rec(e), element(e)]),
    ('export_flow_di_data', 'flow_edge', lambda e: [flow_rec(e), element(e)]),
    ('export_diagram_plane_elements', 'diagram_and_plane', lambda e: [element(e), rec(e, 'DA', {'id': (True, 'str'), 'name': (True, 'str')}),
                                                                    rec(e, 'PA', {'id': (True, 'str'), 'bpmnElement': (True, 'str')})], None, True),
    ('export_lane', 'lane', lambda e: [element(e), sstr(e, 'lid'), e.ctx.alloc(DictRec((), AttrBase(lane_record(e), ()))), element(e, 'plane')], child_over),
    ('export_lane_set', 'lane_set', lambda e: [element(e), set_record(e), element(e, 'plane')], lanes_over),
    ('export_child_lane_set', 'child_lane_set', lambda e: [element(e), set_record(e), element(e, 'plane')], lanes_over),
]
GOALS = [node_goal(k) for k in KINDS] + [simple(*x) for x in ELEMENTS + DI] + [api('export_xml_file', 'export'), indent_goal()]
