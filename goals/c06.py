from pyv.contract import *
from pyv.libs import DomFns
from goals.c04 import IMP, FAMILY
from goals.c05 import EXP, REP, lane_record, set_record, set_record_fam, part_fields, flow_lookup, EDGE, node_fields, element, flow_rec, rec, node_rec, GEO, KINDS

CT = 'contracts.roundtrip:'
UT = 'bpmn_python.bpmn_import_utils:BpmnImportUtils.'
IMPORTER = {t: f for f, ts in FAMILY.items() for t in ts}
MODS_ = ['contracts.xml_import', 'contracts.roundtrip', 'contracts.treedom']


def parsed(env, el):
    return env.ip.call(env.fn('contracts.treedom:TreeDom'), [el])


def stubs(env):
    kids = env.fn('contracts.treedom:children')
    return {UT + 'iterate_elements': lambda ip, f, a, kw: ip.call(kids, [a[0]])}


def plain(env, name):
    """Kinds of elements are plain names: no namespace prefix to remove."""
    env.ctx.assume(DomFns(env.ctx).LOCAL(zt(name)) == zt(name))


def last(env, parent):
    return env.ip.getitem(parent, 0)


def empty_graph(env):
    return env.ip.call(env.ip.graphcls, [])


def owner_rec(env):
    d = env.ip.mkdict()
    env.ip.dict_set(d, 'node_ids', env.ip.mklist())
    return d


def definitions(env, kind):
    """Event definitions of the kinds the event may carry (precondition)."""
    from contracts.xml_import import DEFINITIONS
    F = DomFns(env.ctx)

    def kind_of(c, args):
        t = c.fn('ED.kind', *([a.sort() for a in args] + [S]))(*args)
        c.assume(z3.And(z3.Or([t == z3.StringVal(x) for x in DEFINITIONS[kind]]), F.LOCAL(t) == t))
        return Sym('str', t)
    return (True, rec_list(env.ctx, 'ED', Schema('ED', {'id': (True, 'str'), 'definition_type': (True, kind_of)}, closed=True)))


def node_goal(kind):
    name = IMPORTER[kind]

    def fn(env):
        env.boot(MODS_)
        out, back, sp = env.fn(EXP + 'export_node_data', 4), env.fn(IMP + name, 4), env.fn(CT + 'node_back')

        def path():
            nf = node_fields(env, 'D', kind)
            if 'event_definitions' in nf:
                nf['event_definitions'] = definitions(env, kind)
            d = Diagram(env, node=nf)
            nid = sstr(env, 'nid')
            env.ctx.assume(d.nodes.has(env.ctx, nid))
            r = d.nodes.value(env.ctx, nid)
            env.ctx.assume(zt(env.ip.getitem(r, 'type')) == z3.StringVal(kind))
            plain(env, env.ip.getitem(r, 'type'))
            g, own = empty_graph(env), owner_rec(env)
            env.ip.overrides = stubs(env)

            def impl():
                parent = element(env)
                env.ip.call(out, [d.ref, nid, r, parent])
                env.ip.call(back, [g, env.ip.getitem(r, 'process'), own, parsed(env, last(env, parent))])
            env.compare('export then import', impl, lambda: env.ip.call(sp, [g, own, nid, r, kind]),
                        [('node', g), ('owner', own), ('diagram', d.ref)], result=False)
        env.ctx.explore(path)
    return Goal('C06', '%s survives export_node_data then %s' % (kind, name), fn, [EXP + 'export_node_data', IMP + name])


def lemma(name, functions, setup, soft=False):
    def fn(env):
        env.boot(MODS_)
        fs = [env.fn(q, n) for q, n in functions]

        def path():
            env.ip.overrides = stubs(env)
            impl, spec, roots = setup(env, fs)
            env.compare('export then import', impl, spec, roots, result=False)
        env.ctx.explore(path)
    return Goal('C06', name, fn, [q for q, n in functions], soft=soft)


def spec(env, name, args):
    return lambda: env.ip.call(env.fn(CT + name), args)


def flow_lemma(env, fs):
    ip = env.ip
    r = flow_rec(env)
    g, sf = empty_graph(env), ip.mkdict()
    for k in ('sourceRef', 'targetRef'):
        ip.call(ip.getattr(g, 'add_node'), [ip.getitem(r, k)])

    def impl():
        parent = element(env)
        ip.call(fs[0], [r, parent])
        ip.call(fs[1], [g, sf, ip.getitem(r, 'process'), parsed(env, last(env, parent))])
    return impl, spec(env, 'flow_back', [g, sf, r]), [('graph', g), ('flow table', sf), ('flow', r)]


def process_lemma(env, fs):
    ip = env.ip
    r = rec(env, 'P', {k: (True, 'str') for k in ('name', 'isClosed', 'isExecutable', 'processType')})
    pe, pid = ip.mkdict(), sstr(env, 'pid')

    def impl():
        ip.call(fs[1], [pe, parsed(env, ip.call(fs[0], [element(env), pid, r]))])
    return impl, spec(env, 'process_back', [pe, pid, r]), [('processes', pe), ('process', r)]


def shape_lemma(env, fs):
    ip = env.ip
    r, nid, g = node_rec(env), sstr(env, 'nid'), empty_graph(env)
    node = ip.mkdict()
    ip.call(ip.getattr(g, 'add_node'), [nid], {'type': ip.getitem(r, 'type')})

    def impl():
        plane = element(env)
        ip.call(fs[0], [nid, r, plane])
        ip.call(fs[1], [ip.mkdict(), g, parsed(env, last(env, plane))])
    return impl, spec(env, 'shape_back', [g, nid, r]), [('graph', g), ('node', r)]


def line_lemma(env, fs):
    ip = env.ip
    r, g, sf = flow_rec(env), empty_graph(env), ip.mkdict()
    u, v, i, n = [ip.getitem(r, k) for k in ('sourceRef', 'targetRef', 'id', 'name')]
    ip.call(ip.getattr(g, 'add_edge'), [u, v], {'id': i, 'name': n})
    e = ip.mkdict()
    for k in ('name', 'sourceRef', 'targetRef'):
        ip.dict_set(e, k, ip.getitem(r, k))
    ip.dict_set(sf, i, e)

    def impl():
        plane = element(env)
        ip.call(fs[0], [r, plane])
        ip.call(fs[1], [g, sf, ip.mkdict(), parsed(env, last(env, plane))])
    return impl, spec(env, 'line_back', [g, r]), [('graph', g), ('flow', r), ('flow table', sf)]


def carrier(env, parent, tag, rec_, nid=None):
    """The exported element of a record, by its contract: readable back as that record (lemmas above)."""
    ip = env.ip
    e = ip.call(ip.elcls, [tag])
    if nid is not None:
        ip.call(ip.getattr(e, 'set'), ['id', nid])
    ip.setattr(e, 'tail', rec_)
    ip.call(ip.getattr(parent, 'append'), [e])


def carried(ip, el):
    return ip.getattr(ip.getattr(ip.force(el), 'element'), 'tail')


def of(ip, r):
    d = ip.mkdict()
    ip.dict_set(d, 'of', r)
    return d


def others(env, name, lid):
    """Shapes and lines of other elements on the plane (ids are unique)."""
    ctx, ip = env.ctx, env.ip

    def maker(c, key):
        i = c.fn(name + '.id', I, S)(*key)
        c.assume(i != zt(lid))
        return InstRec(ip.elcls, {'tag': 'bpmndi:BPMNShape', 'attrib': c.alloc(DictRec([Pt('bpmnElement', Sym('str', i))])),
                                  'children': c.alloc(ListRec([])), 'text': None, 'tail': None})
    fam = Fam(ctx, name, maker)
    n = z3.Int(name + '.n')
    ctx.assume(n >= 0)
    return BaseGen(n, lambda c, a, t: fam.at(c, (t,)), [], name)


def lane_lemma(env, fs):
    ip = env.ip
    r, lid = env.ctx.alloc(DictRec((), AttrBase(lane_record(env), ()))), sstr(env, 'lid')
    ip.overrides.update({
        EXP + 'export_child_lane_set': lambda ip, f, a, kw: carrier(env, a[0], 'childLaneSet', a[1]),
        IMP + 'import_child_lane_set_element': lambda ip, f, a, kw: of(ip, carried(ip, a[0])),
        CT + 'lane_set_after': lambda ip, f, a, kw: of(ip, a[0])})
    got, before, after = ip.mkdict(), others(env, 'before', lid), others(env, 'after', lid)

    def impl():
        parent, plane = element(env), element(env, 'plane')
        env.ctx.put(env.ctx.get(plane).attrs['children'], ListRec([before]))
        ip.call(fs[0], [parent, lid, r, plane])
        k = env.ctx.get(plane).attrs['children']
        env.ctx.put(k, ListRec(env.ctx.get(k).segs + (after,)))
        ip.dict_set(got, 'lane', ip.call(fs[1], [parsed(env, last(env, parent)), parsed(env, plane)]))
    return impl, lambda: ip.dict_set(got, 'lane', spec(env, 'lane_back', [lid, r])()), [('lane read back', got), ('lane', r)]


def lane_stubs(env):
    env.ip.overrides.update({
        EXP + 'export_lane': lambda ip, f, a, kw: carrier(env, a[0], 'lane', a[2], a[1]),
        IMP + 'import_lane_element': lambda ip, f, a, kw: of(ip, carried(ip, a[0])),
        CT + 'lane_after': lambda ip, f, a, kw: of(ip, a[1])})


def lane_set_lemma(env, fs):
    ip = env.ip
    r, got = set_record(env), ip.mkdict()
    lane_stubs(env)

    def impl():
        parent, plane = element(env), element(env, 'plane')
        ip.call(fs[0], [parent, r, plane])
        ip.call(fs[1], [got, parsed(env, last(env, parent)), parsed(env, plane)])
    return impl, spec(env, 'lane_set_back', [got, r]), [('process', got), ('lane set', r)]


def child_set_lemma(env, fs):
    ip = env.ip
    r, got = set_record(env), ip.mkdict()
    lane_stubs(env)

    def impl():
        parent, plane = element(env), element(env, 'plane')
        ip.call(fs[0], [parent, r, plane])
        ip.dict_set(got, 'laneSet', ip.call(fs[1], [parsed(env, last(env, parent)), parsed(env, plane)]))
    return impl, spec(env, 'lane_set_back', [got, r]), [('lane', got), ('child lane set', r)]


def record(ip, log, entry):
    ip.call(ip.getattr(log, 'append'), [entry])


def content_stubs(env, log, inner=None):
    """Nodes and flows of a process or sub-process: written as carriers, read back as log entries."""
    ip = env.ip
    depth = {}

    def node_out(ip, f, a, kw):
        if inner and f.qual not in depth:
            depth[f.qual] = 1
            return NotImplemented
        kind = ip.getitem(a[2], 'type')
        plain(env, kind)
        carrier(env, a[3], kind, a[2], a[1])

    def node_in(el, pid, ip):
        el = ip.force(el)
        record(ip, log, ('node', ip.call(ip.getattr(el, 'getAttribute'), ['id']), carried(ip, el), pid))

    def sub_in(ip, f, a, kw):
        if inner and f.qual not in depth:
            depth[f.qual] = 1
            return NotImplemented
        node_in(a[4], a[2], ip)
    ip.overrides.update({EXP + 'export_node_data': node_out, IMP + 'import_subprocess_to_graph': sub_in,
                         EXP + 'export_flow_process_data': lambda ip, f, a, kw: carrier(env, a[1], 'sequenceFlow', a[0], ip.getitem(a[0], 'id')),
                         IMP + 'import_sequence_flow_to_graph': lambda ip, f, a, kw: record(ip, log, (
                             'flow', ip.call(ip.getattr(ip.force(a[3]), 'getAttribute'), ['id']), carried(ip, a[3]), a[2]))})
    for f_ in FAMILY:
        ip.overrides[IMP + f_] = lambda ip, f, a, kw: node_in(a[3], a[1], ip)


def known_kind(env, extra=()):
    """Precondition: nodes are of the kinds the library writes."""
    def mk_(c, args):
        t = c.fn('D.kind', *([a.sort() for a in args] + [S]))(*args)
        c.assume(z3.Or([t == z3.StringVal(x) for x in tuple(KINDS) + extra]))
        return Sym('str', t)
    return (True, mk_)


def subprocess_goal(env):
    env.boot(MODS_)
    out, back = env.fn(EXP + 'export_node_data', 4), env.fn(IMP + 'import_subprocess_to_graph', 5)
    ip = env.ip

    def path():
        nf = node_fields(env, 'D', 'subProcess')
        nf['type'] = known_kind(env)
        d = Diagram(env, node=nf)
        nid = sstr(env, 'nid')
        env.ctx.assume(d.nodes.has(env.ctx, nid))
        r = d.nodes.value(env.ctx, nid)
        env.ctx.assume(zt(ip.getitem(r, 'type')) == z3.StringVal('subProcess'))
        plain(env, ip.getitem(r, 'type'))
        g, own, log = empty_graph(env), owner_rec(env), ip.mklist()
        ip.overrides = stubs(env)
        content_stubs(env, log, True)

        def impl():
            parent = element(env)
            ip.call(out, [d.ref, nid, r, parent])
            ip.call(back, [g, ip.mkdict(), ip.getitem(r, 'process'), own, parsed(env, last(env, parent))])
        env.compare('export then import', impl, spec(env, 'subprocess_back', [d.ref, g, own, nid, r, log]),
                    [('node', g), ('owner', own), ('contents', log), ('diagram', d.ref)], result=False)
    env.ctx.explore(path)


def document_goal(env):
    env.boot(MODS_)
    ip, ctx = env.ip, env.ctx
    out, back = env.fn(REP + 'export_xml_file'), env.fn(REP + 'load_diagram_from_xml_file')
    cls = env.fn('bpmn_python.bpmn_diagram_rep:BpmnDiagramGraph')
    shape, line = env.fn('contracts.treedom:seen_shape'), env.fn('contracts.treedom:seen_line')

    def path():
        nf = node_fields(env, 'D')
        nf['type'], nf['isExpanded'] = known_kind(env, ('participant',)), (True, 'str')
        d = Diagram(env, node=nf, edge=EDGE, part=part_fields(env), lanes=set_record_fam(env), complete=True)
        into, log, files = ip.call(cls, []), ip.mklist(), ip.mklist()
        ip.write_log = files
        ip.overrides = stubs(env)
        content_stubs(env, log)
        ip.overrides.update(flow_lookup(env, d))

        def at(el, *names):
            return tuple(ip.call(ip.getattr(ip.force(el), 'getAttribute'), [n]) for n in names)
        ip.overrides.update({
            EXP + 'indent': lambda ip, f, a, k: a[0],
            EXP + 'export_lane_set': lambda ip, f, a, kw: carrier(env, a[0], 'laneSet', a[1]),
            IMP + 'import_lane_set_element': lambda ip, f, a, kw: record(ip, log, ('laneSet', ip.getitem(a[0], 'id'), carried(ip, a[1]))),
            IMP + 'import_message_flow_to_graph': lambda ip, f, a, kw: record(ip, log, ('messageFlow',) + at(a[2], 'id', 'name', 'sourceRef', 'targetRef')),
            IMP + 'import_participant_element': lambda ip, f, a, kw: record(ip, log, ('participant',) + at(a[2], 'id', 'name', 'processRef')),
            IMP + 'import_shape_di': lambda ip, f, a, kw: record(ip, log, ip.call(shape, [a[2]])),
            IMP + 'import_flow_di': lambda ip, f, a, kw: record(ip, log, ip.call(line, [a[3]]))})
        ip.model_modules['xml.dom.minidom']['parse'] = Builtin('minidom.parse', lambda ip, a, k: parsed(env, ip.getitem(ip.getitem(files, 0), 1)))

        def impl():
            ip.call(out, [d.ref, sstr(env, 'directory'), sstr(env, 'filename')])
            ip.call(back, [into, sstr(env, 'path')])
        env.compare('export then import', impl, spec(env, 'document_back', [d.ref, into, log]),
                    [('read back', log), ('new diagram', into), ('diagram', d.ref)], result=False)
    ctx.explore(path)


GOALS = [Goal('C06', 'the document is read back element by element', document_goal,
              [REP + 'export_xml_file', REP + 'load_diagram_from_xml_file'], soft=True, timeout=400)] + [node_goal(k) for k in KINDS if k != 'subProcess'] + [
    Goal('C06', 'subProcess survives with its contents', subprocess_goal, [EXP + 'export_node_data', IMP + 'import_subprocess_to_graph'], soft=True),
    lemma('a lane survives', [(EXP + 'export_lane', 4), (IMP + 'import_lane_element', 2)], lane_lemma, True),
    lemma('a lane set survives', [(EXP + 'export_lane_set', 3), (IMP + 'import_lane_set_element', 3)], lane_set_lemma, True),
    lemma('a child lane set survives', [(EXP + 'export_child_lane_set', 3), (IMP + 'import_child_lane_set_element', 2)], child_set_lemma, True),
    lemma('a sequence flow survives', [(EXP + 'export_flow_process_data', 2), (IMP + 'import_sequence_flow_to_graph', 4)], flow_lemma),
    lemma('a process survives', [(EXP + 'export_process_element', 3), (IMP + 'import_process_element', 2)], process_lemma),
    lemma('the shape of a node survives', [(EXP + 'export_node_di_data', 3), (IMP + 'import_shape_di', 3)], shape_lemma),
    lemma('the line of a flow survives', [(EXP + 'export_flow_di_data', 2), (IMP + 'import_flow_di', 4)], line_lemma),
]
