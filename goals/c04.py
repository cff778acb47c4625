from pyv.contract import *
from pyv.libs import DomEl, DomDoc, DomFns

IMP = 'bpmn_python.bpmn_diagram_import:BpmnDiagramGraphImport.'
CT = 'contracts.xml_import:'
FAMILY = {
    'import_task_to_graph': ['task', 'userTask', 'serviceTask', 'manualTask'],
    'import_data_object_to_graph': ['dataObject'],
    'import_incl_or_excl_gateway_to_graph': ['inclusiveGateway', 'exclusiveGateway'],
    'import_parallel_gateway_to_graph': ['parallelGateway'],
    'import_event_based_gateway_to_graph': ['eventBasedGateway'],
    'import_complex_gateway_to_graph': ['complexGateway'],
    'import_start_event_to_graph': ['startEvent'],
    'import_end_event_to_graph': ['endEvent'],
    'import_intermediate_catch_event_to_graph': ['intermediateCatchEvent'],
    'import_intermediate_throw_event_to_graph': ['intermediateThrowEvent'],
    'import_boundary_event_to_graph': ['boundaryEvent'],
}


def dom(env, name, element=True):
    return DomEl(env.ip, z3.Int('el.' + name), None, None, element)


def tagged(env, name, tag):
    el = dom(env, name)
    env.ctx.assume(el.F.LOCAL(el.F.TAG(el.t)) == z3.StringVal(tag))
    return el


def proc_attrs(env):
    """Record of a process (or sub-process) that is not reachable from the graph."""
    sch = Schema('owner', {'id': ('opt', 'str'), 'node_ids': (True, str_list(env.ctx, 'owner.ids'))}, closed=False)
    return env.ctx.alloc(DictRec((), AttrBase(sch, ())))


def node_import(name, tag):
    def fn(env):
        env.boot(['contracts.xml_import'])
        impl, sp = env.fn(IMP + name, 4), env.fn(CT + 'typed_node')

        def path():
            d = Diagram(env)
            el, at, pid = dom(env, 'node'), proc_attrs(env), sstr(env, 'pid')
            env.ctx.assume(el.F.LOCAL(el.F.TAG(el.t)) == z3.StringVal(tag))
            env.compare(name, lambda: env.ip.call(impl, [d.graph, pid, at, el]),
                        lambda: env.ip.call(sp, [d.graph, pid, at, el, tag]), [('diagram', d.ref), ('owner', at)], result=False)
        env.ctx.explore(path)
    return Goal('C04', '%s (%s)' % (name, tag), fn, [IMP + name])


def simple(name, spec, args, stubs=None, result=False, ghost=False, **dk):
    """One importer against its contract; `stubs(env, log)` replaces callees by their contracts on both sides."""
    def fn(env):
        env.boot(['contracts.xml_import'])

        def path():
            d = Diagram(env, **dk)
            a = args(env, d)
            impl, sp = env.fn(IMP + name, len(a)), env.fn(CT + spec)
            log = env.ip.mklist()
            env.ip.overrides = stubs(env, log) if stubs else {}
            env.compare(name, lambda: env.ip.call(impl, list(a)), lambda: env.ip.call(sp, list(a)),
                        [('diagram', d.ref), ('arguments', tuple(x for x in a if isinstance(x, Ref))), ('handled elements', log)], result=result)
        env.ctx.explore(path)
    return Goal('C04', name, fn, [IMP + name], soft=bool(stubs))


def field(env, d, n):
    return env.ctx.get(d.ref).attrs[n]


def flat(env, name):
    """A dictionary of its own (collaboration tables: not reachable from the graph)."""
    part = Schema(name, {'name': (True, 'str'), 'processRef': (True, 'str'), 'id': ('opt', 'str'),
                         'sourceRef': (True, 'str'), 'targetRef': (True, 'str')}, closed=False)
    return env.ctx.alloc(DictRec((), MapBase(env.ctx, name + '.map', rec_of(env.ctx, name + '.rec', part))))


def append(ip, log, v):
    ip.call(ip.getattr(log, 'append'), [v])


def records(env, log, kind, pick, result=None):
    """Callee contract as a ghost record of the call: same calls in the same order have the same effect."""
    def stub(ip, f, args, kw):
        if kw:
            raise Unsup('keyword call of a stub')
        args = [ip.force(x) for x in args]
        append(ip, log, (kind,) + tuple(pick(args)))
        return result(ip, args) if result else None
    return stub


def family(env, tags, stub):
    def checked(ip, f, args, kw):
        el = ip.force(args[-1])
        if not isinstance(el, DomEl) or not env.ctx.is_valid(z3.Or([el.F.LOCAL(el.F.TAG(el.t)) == z3.StringVal(t) for t in tags])):
            raise Unsup('importer called for another kind of element')
        return stub(ip, f, args, kw)
    return checked


def handlers(env, log, owner=lambda r: r):
    node = lambda a: (a[3], a[1], owner(a[2]))            # element, owner id, owner record
    over = {}
    for f, tags in FAMILY.items():
        over[IMP + f] = family(env, tags, records(env, log, 'node', node))
    over[CT + 'simple_node'] = records(env, log, 'node', node)
    sub = records(env, log, 'subprocess', lambda a: (a[4], a[2], owner(a[3])))
    over[IMP + 'import_subprocess_to_graph'] = family(env, ['subProcess'], sub)
    over[CT + 'subprocess_node'] = sub
    fl = records(env, log, 'flow', lambda a: (a[3], a[2]))
    over[IMP + 'import_sequence_flow_to_graph'] = family(env, ['sequenceFlow'], fl)
    over[CT + 'sequence_flow'] = fl
    ls = records(env, log, 'laneSet', lambda a: (a[1], owner(a[0]), a[2]))
    over[IMP + 'import_lane_set_element'] = over[CT + 'lane_set'] = ls
    return over


def in_process(env, log):
    return handlers(env, log, lambda r: env.ip.getitem(r, 'id'))


def in_subprocess(env, log):
    """The outermost sub-process runs its body, nested ones are calls."""
    over = handlers(env, log)
    for q in (IMP + 'import_subprocess_to_graph', CT + 'subprocess_node'):
        def once(ip, f, args, kw, stub=over[q], state=[None]):
            if f.qual not in seen:
                seen.add(f.qual)
                return NotImplemented
            return stub(ip, f, args, kw)
        over[q] = once
    seen = set()
    return over


def fresh_for(ip, el):
    r = ip.mkdict()
    ip.dict_set(r, 'of', el)
    return r


def lanes(env, log):
    st = lambda ip, f, args, kw: fresh_for(ip, ip.force(args[0]))
    return {IMP + 'import_lane_element': st, CT + 'lane': st}


def child_sets(env, log):
    st = lambda ip, f, args, kw: fresh_for(ip, ip.force(args[0]))
    return {IMP + 'import_child_lane_set_element': st, CT + 'child_lane_set': st}


def in_collaboration(env, log):
    p = records(env, log, 'participant', lambda a: (a[2], a[1]))
    m = records(env, log, 'messageFlow', lambda a: (a[2], a[1]))
    return {IMP + 'import_participant_element': p, CT + 'participant': p, IMP + 'import_message_flow_to_graph': m, CT + 'message_flow': m}


def in_document(env, log):
    def table(ip, v):
        r = ip.ctx.get(v)
        return None if isinstance(r, (ListRec, DictRec)) and ip.length(v) == 0 else v

    def collaboration(ip, f, args, kw):
        append(ip, log, ('collaboration', ip.force(args[1])))
        for k in ('participants', 'messageFlows'):
            ip.dict_set(args[2], k, fresh_for(ip, ip.force(args[1])))
    pr = lambda ip, f, args, kw: append(ip, log, ('processes', args[4]))
    sh = records(env, log, 'shape', lambda a: (a[2], table(env.ip, a[0])))
    fl = records(env, log, 'edge', lambda a: (a[3], a[1], table(env.ip, a[2])))
    return {IMP + 'import_collaboration_element': collaboration, CT + 'collaboration_element': lambda ip, f, a, kw: collaboration(ip, f, [a[0], a[1], a[2]], kw),
            IMP + 'import_process_elements': pr, CT + 'processes': pr, IMP + 'import_shape_di': sh, CT + 'shape_di': sh,
            IMP + 'import_flow_di': fl, CT + 'flow_di': fl}


def load_goal(env):
    env.boot(['contracts.xml_import'])
    api, sp = env.fn('bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph.load_diagram_from_xml_file'), env.fn(CT + 'load')

    def path():
        d = Diagram(env)
        log, fp = env.ip.mklist(), sstr(env, 'path')
        env.ip.overrides = in_document(env, log)
        env.compare('load_diagram_from_xml_file', lambda: env.ip.call(api, [d.ref, fp]), lambda: env.ip.call(sp, [d.ref, fp]),
                    [('diagram', d.ref), ('handled elements', log)], result=False)
    env.ctx.explore(path)


GOALS = [node_import(f, t) for f, ts in FAMILY.items() for t in ts] + [
    simple('import_sequence_flow_to_graph', 'sequence_flow', lambda e, d: [d.graph, field(e, d, 'sequence_flows'), sstr(e, 'pid'), dom(e, 'flow')]),
    simple('import_message_flow_to_graph', 'message_flow', lambda e, d: [d.graph, flat(e, 'MF'), dom(e, 'flow')]),
    simple('import_participant_element', 'participant', lambda e, d: [d.graph, flat(e, 'PA'), dom(e, 'part')]),
    simple('import_process_element', 'process_element', lambda e, d: [field(e, d, 'process_elements'), dom(e, 'process')]),
    simple('import_diagram_and_plane_attributes', 'diagram_and_plane',
           lambda e, d: [field(e, d, 'diagram_attributes'), field(e, d, 'plane_attributes'), dom(e, 'diagram'), dom(e, 'plane')]),
    simple('import_shape_di', 'shape_di', lambda e, d: [flat(e, 'PA'), d.graph, dom(e, 'shape')]),
    simple('import_flow_di', 'flow_di', lambda e, d: [d.graph, field(e, d, 'sequence_flows'), flat(e, 'MF'), dom(e, 'edge')]),
    simple('import_lane_element', 'lane', lambda e, d: [dom(e, 'lane'), dom(e, 'plane')], child_sets, True),
    simple('import_lane_set_element', 'lane_set', lambda e, d: [proc_attrs(e), dom(e, 'set'), dom(e, 'plane')], lanes),
    simple('import_child_lane_set_element', 'child_lane_set', lambda e, d: [dom(e, 'set'), dom(e, 'plane')], lanes, True),
    simple('import_subprocess_to_graph', 'subprocess_node',
           lambda e, d: [d.graph, field(e, d, 'sequence_flows'), sstr(e, 'pid'), proc_attrs(e), tagged(e, 'sub', 'subProcess')], in_subprocess),
    simple('import_process_elements', 'processes',
           lambda e, d: [DomDoc(e.ip, z3.Int('dom.document')), d.graph, field(e, d, 'sequence_flows'), field(e, d, 'process_elements'), dom(e, 'plane')], in_process),
    simple('import_collaboration_element', 'collaboration_element', lambda e, d: [d.graph, dom(e, 'col'), field(e, d, 'collaboration')], in_collaboration),
    Goal('C04', 'load_diagram_from_xml_file', load_goal, ['bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph.load_diagram_from_xml_file'], soft=True),
]
