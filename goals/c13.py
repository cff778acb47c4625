from pyv.contract import *
from pyv import regex

IM = 'bpmn_python.bpmn_process_csv_import:'
CL = IM + 'BpmnDiagramGraphCSVImport.'
CT = 'contracts.csv_import:'
LINE = ('Activity', 'Condition', 'Who', 'Subprocess', 'Terminated')


def lines(env, name='rows'):
    """Any lines, by order."""
    c = env.ctx
    sc = Schema(name + '.line', {k: (True, 'str') for k in LINE}, closed=True)
    env.rows = MapBase(c, name, rec_of(c, name + '.lines', sc))
    return c.alloc(DictRec((), env.rows))


def world(env, **kw):
    return Diagram(env, node=dict({'incoming': True, 'outgoing': True}, **kw))


def sf(env, d):
    return env.ip.getattr(d.ref, 'sequence_flows')


def simple(name, make, roots, functions=None, soft=False, qual=None, timeout=120, **kw):
    """name: function of the module with a contract of the same name; make(env) -> arguments."""
    def fn(env):
        env.boot(['contracts.csv_import'])

        def path():
            a = make(env)
            impl, sp = env.fn((qual or IM) + name, len(a)), env.fn(CT + name)
            env.compare(name, lambda: env.ip.call(impl, list(a)), lambda: env.ip.call(sp, list(a)), roots(env, a))
        env.ctx.explore(path)
    return Goal('C13', name, fn, functions or [(qual or IM) + name], soft=soft, timeout=timeout)


def node_type_args(env):
    r = lines(env)
    o = sstr(env, 'order')
    return [o, env.ip.getitem(r, o)] if env.ip.truth(env.ip.contains(r, o)) else raise_infeasible()


def raise_infeasible():
    raise Infeasible()


def info_args(env):
    d = Diagram(env)
    return [sstr(env, 'order'), sstr(env, 'node_type'), sstr(env, 'activity'), 'process_1', d.ref]


def conn_args(env):
    d = Diagram(env)
    return [sstr(env, 'a'), sstr(env, 'b'), lines(env), d.ref, sf(env, d)]


def node_args(env):
    d = world(env)
    return [sstr(env, 'n'), lines(env), d.ref, sf(env, d)]


class Loop:
    """State of the import between two iterations: same records, but any nodes, flows and lines present."""

    def __init__(self, env):
        c = env.ctx
        self.env, self.d, self.rows = env, world(env), lines(env)
        self.lines = env.rows
        d = self.d
        self.nodes1 = MapBase(c, 'D1.N', d.nodes.val)
        self.edges1 = libs.EdgeBase(c, 'D1.E', d.edges.val, self.nodes1)
        self.sf1 = MapBase(c, 'D1.SF', d.sf.val)
        self.rows1 = MapBase(c, 'rows1', self.lines.val)
        self.sf = sf(env, d)
        self.args = [self.rows, d.ref, self.sf]

    def later(self):
        c, ip, d = self.env.ctx, self.env.ip, self.d
        rec = c.get(d.graph)
        c.put(rec.attrs['_nodes'], DictRec((), self.nodes1))
        c.put(rec.attrs['_edges'], DictRec((), self.edges1, 'edge'))
        c.put(self.sf, DictRec((), self.sf1))
        c.put(self.rows, DictRec((), self.rows1))


def all_ids(env, w):
    """The orders, as they were when the loop started."""
    return env.ctx.alloc(ListRec([w.d.nodes.keys_gen(env.ctx)]))


def step_goal(name, spec, keys, present, over=None, timeout=300, ids=False):
    """keys: 'rows' or 'nodes', what the loop runs over; present: which maps still have the element."""
    def fn(env):
        env.boot(['contracts.csv_import'])
        impl, sp = env.fn(IM + name, 3), env.fn(CT + spec)

        def path():
            w = Loop(env)
            base = w.lines if keys == 'rows' else w.d.nodes
            roots = [('rows', w.rows), ('diagram', w.d.ref)]
            k = base.key_at(env.ctx, z3.Int('iteration'))
            for m in present:
                env.ctx.assume(getattr(w, m).has(env.ctx, k))
            if over:
                roots += over(env, w)
            if env.ctx.choose_any(2):
                skip_loop(env, name + ' outside its loop', impl, w.args, roots)
            else:
                loop_step(env, name + ' iteration', impl, w.args, lambda t: env.ip.call(sp, [w.d.ref, w.rows, k] + [all_ids(env, w)] * ids), None, base.n, roots, w.later)
        env.ctx.explore(path)
    return Goal('C13', name, fn, [IM + name], soft=True, timeout=timeout)


NUMBER = '^(.*[a-z|A-Z]|[^0-9]?)([0-9]+)$'
FINDER = '(.*?)([0-9]+[a-z|A-Z])(.*?)'
BRANCH = '([a-z|A-Z]1?)$'


class Groups:
    def __init__(self, gs):
        self.gs = gs

    def attr(self, ip, name):
        if name == 'group':
            return Builtin('group', lambda ip, a, k: self.gs[a[0]] if len(a) < 2 else tuple(self.gs[x] for x in a))
        if name == 'groups' and isinstance(self.gs, dict):
            return Builtin('groups', lambda ip, a, k: tuple(v for n, v in sorted(self.gs.items()) if n))
        raise Unsup('match.%s' % name)

    def truth(self, ip):
        return True


def flat(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [y for x in t.children() for y in flat(x)]
    return [t]


class Orders:
    """Orders as abstract strings: prefix and number, the first lines of branches, the lines after enclosing blocks."""

    def __init__(self, env):
        c = env.ctx
        self.numbered = c.fn('order.numbered', S, B)
        self.prefix, self.number = c.fn('order.prefix', S, S), c.fn('order.number', S, S)
        self.starts = c.fn('order.starts', S, S, B)

    def parts(self, ip, f, args, kw):
        t = zt(args[0])
        ip.ctx.assume(z3.Implies(self.numbered(t), self.number(t) != z3.StringVal('')))
        if ip.ctx.fork(self.numbered(t)):
            return (Sym('str', self.prefix(t)), Sym('str', self.number(t)))
        return (args[0], '')

    def regex(self, ip, name, a):
        p, s = a[0], a[1]
        if name == 'match' and p == NUMBER:
            t = zt(s)
            ip.ctx.assume(z3.Implies(self.numbered(t), self.number(t) != z3.StringVal('')))
            if ip.ctx.fork(self.numbered(t)):
                return Groups({1: Sym('str', self.prefix(t)), 2: Sym('str', self.number(t))})
            return None
        if name == 'match' and isinstance(p, Sym):
            fs = flat(p.t)
            ends = [x.as_string() if z3.is_string_value(x) else None for x in (fs[0], fs[-1])]
            if ends == ['^', BRANCH] and len(fs) > 2:
                nxt = z3.Concat(*fs[1:-1]) if len(fs) > 3 else fs[1]
                return Groups({}) if ip.ctx.fork(self.starts(nxt, zt(s))) else None
        raise Unsup('regular expression')

    def starts_branch(self, ip, f, args, kw):
        return mk('bool', self.starts(zt(args[0]), zt(args[1])))

    def after_blocks(self, ip, f, args, kw):
        c = ip.ctx
        t = zt(args[0])
        n = c.fn('order.depth', S, I)(t)
        c.assume(n >= 0)
        return c.alloc(ListRec([BaseGen(n, lambda c, a, i: Sym('str', c.fn('order.after', S, I, S)(a[0], i)), [t], 'after')]))


def connecting(env, w):
    ip = env.ip
    o = Orders(env)
    log = ip.mklist()
    cond = env.fn(CT + 'condition_of')

    def put(*xs):
        ip.call(ip.getattr(log, 'append'), [tuple(xs)])

    def flow(ip, f, a, kw):
        if kw or len(a) != 5 or a[2] != w.rows or a[3] != w.d.ref or a[4] != w.sf:
            raise Unsup('arguments of add_connection')
        put('flow', a[0], a[1], ip.call(cond, [a[2], a[1]]))

    def node(ip, f, a, kw):
        if kw or len(a) != 5 or a[3] != 'process_1' or a[4] != w.d.ref:
            raise Unsup('arguments of add_node_info_to_diagram_graph')
        put('node', a[0], a[1], a[2])

    def kind(ip, f, a, kw):
        if kw or len(a) != 3 or a[2] != w.rows:
            raise Unsup('arguments of get_gateway_type')
        return Sym('str', ip.ctx.fn('gateway.type', S, S)(zt(a[0])))
    ip.re_model = o.regex
    ip.overrides = {
        IM + 'add_connection': flow, CT + 'connect': lambda ip, f, a, kw: put('flow', *a[1:]),
        IM + 'add_node_info_to_diagram_graph': node, CT + 'add_node': lambda ip, f, a, kw: put('node', *a[1:]),
        IM + 'get_gateway_type': kind, CT + 'get_gateway_type': kind,
        IM + 'get_possible_merge_continuation_successors': o.after_blocks, CT + 'after_blocks': o.after_blocks,
        CT + 'parts': o.parts, CT + 'starts_branch': o.starts_branch}
    return [('nodes and flows added', log)]


class Texts:
    """Orders as the strings they are; `parts` and `after_blocks` by what they are of the string."""
    D, L = z3.Range('0', '9'), z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'))
    TOKENS = z3.Star(z3.Concat(z3.Plus(D), L))
    ORDER = z3.Concat(TOKENS, z3.Option(z3.Plus(D)))

    def __init__(self, env):
        self.env = env
        self.prefix, self.number = env.ctx.fn('order.prefix', S, S), env.ctx.fn('order.number', S, S)

    def order(self, name):
        t = z3.String(name)
        self.env.ctx.assume(z3.And(t != z3.StringVal(''), z3.InRe(t, self.ORDER)))
        return Sym('str', t)

    def cut(self, t):
        p, n = self.prefix(t), self.number(t)
        self.env.ctx.assume(z3.And(t == z3.Concat(p, n), z3.InRe(p, self.TOKENS), z3.InRe(n, z3.Star(self.D))))
        if self.env.ctx.fork(n == z3.StringVal('')):
            self.env.ctx.assume(z3.And(p == t, z3.InRe(t, self.TOKENS)))
            return t, z3.StringVal('')
        return p, n

    def parts(self, ip, f, args, kw):
        p, n = self.cut(zt(args[0]))
        return (mk('str', p), mk('str', n))

    def rest(self, start, t):
        """What follows `start` in t, or None (forks); letters and digits, as everywhere in an order."""
        c = self.env.ctx
        if not c.fork(c.fn('order.begins', S, S, B)(start, t)):
            return None
        r = c.fn('order.rest', S, S, S)(start, t)
        c.assume(z3.InRe(r, z3.Star(z3.Union(self.D, self.L))))
        return r

    def depth(self, t):
        """Number of tokens (number, letter) of a text that consists of them."""
        c = self.env.ctx
        n = c.fn('order.depth', S, I)(t)
        if not regex.impossible(self.env.ip, [t], z3.Not(z3.InRe(t, self.TOKENS))):
            raise Unsup('order with a trailing number')
        c.assume(z3.And(n >= 0, (n == 0) == (t == z3.StringVal(''))))
        return n

    def token(self, t, i):
        c = self.env.ctx
        b, n, l, r = [c.fn('token.' + x, S, I, S)(t, i) for x in ('before', 'number', 'letter', 'after')]
        c.assume(z3.And(t == z3.Concat(b, n, l, r), z3.InRe(b, self.TOKENS), z3.InRe(n, z3.Plus(self.D)), z3.InRe(l, self.L)))
        c.assume(z3.And(z3.Length(b) >= 0, z3.Length(b) <= z3.Length(t), z3.SubString(t, 0, z3.Length(b)) == b))
        return b, n, l

    def found(self, t, i):
        b, n, l = self.token(t, i)
        m = regex.Match(None, {2: Sym('str', z3.Concat(n, l))})
        m.starts[2] = Sym('int', z3.Length(b))
        return m

    def after_blocks(self, ip, f, args, kw):
        c = ip.ctx
        p, n = self.cut(zt(args[0]))
        d = self.depth(p)

        def el(c, a, i):
            b, num, l = self.token(a[0], z3.simplify(a[1] - 1 - i))
            return ip.binop('+', Sym('str', b), ip.to_str(ip.binop('+', ip.call(ip.types['int'], [Sym('str', num)]), 1)))
        return c.alloc(ListRec([BaseGen(d, el, [p, d], 'after')]))

    def starts_branch(self, ip, f, args, kw):
        r = self.rest(zt(args[0]), zt(args[1]))
        return r is not None and ip.ctx.fork(z3.InRe(r, z3.Concat(self.L, z3.Option(z3.Re('1')))))

    def regex(self, ip, name, a):
        p, s = a[0], a[1]
        if name == 'match' and isinstance(p, str) and len(a) == 2:
            fs = flat(s.t)
            return regex.match(ip, p, s, lambda: fs if len(fs) == 2 else self.cut(s.t))
        if name == 'finditer' and p == FINDER and len(a) == 2:
            return ip.ctx.alloc(ListRec([BaseGen(self.depth(s.t), lambda c, ar, i: self.found(ar[0], i), [s.t], 'tokens')]))
        if name == 'match' and isinstance(p, Sym):
            fs = flat(p.t)
            if z3.is_string_value(fs[0]) and fs[0].as_string() == '^' and z3.is_string_value(fs[-1]) and len(fs) > 2:
                # the middle is an order, hence stands for itself
                items, end = regex.parse(fs[-1].as_string())
                r = z3.Concat(*([x for g, x in items] + [z3.Re('')])) if end else raise_unsup()
                rest = self.rest(z3.Concat(*fs[1:-1]) if len(fs) > 3 else fs[1], zt(s))
                return regex.Match(s, {}) if rest is not None and ip.ctx.fork(z3.InRe(rest, r)) else None
        raise Unsup('regular expression')


def raise_unsup():
    raise Unsup('regular expression')


def texts(name, spec, n=1):
    def fn(env):
        env.boot(['contracts.csv_import'])

        def path():
            t = Texts(env)
            o = t.order('order')
            a = [o] if n == 1 else [o, env.ip.mklist([sstr(env, 'other')])]
            env.ip.re_model = t.regex
            env.ip.overrides = {CT + 'parts': t.parts, CT + 'starts_branch': t.starts_branch, CT + 'after_blocks': t.after_blocks}
            impl, sp = env.fn(IM + name, len(a)), env.fn(CT + spec)
            env.compare(name, lambda: env.ip.call(impl, list(a)), lambda: env.ip.call(sp, list(a)), [])
        env.ctx.explore(path)
    return Goal('C13', name + ' of an order', fn, [IM + name], soft=True, timeout=200)


def filtering(env):
    """get_all_split_successors over any list of orders."""
    env.boot(['contracts.csv_import'])

    def path():
        o = Orders(env)
        env.ip.re_model = o.regex
        env.ip.overrides = {CT + 'parts': o.parts, CT + 'starts_branch': o.starts_branch}
        lines(env)
        ids = env.ctx.alloc(ListRec([env.rows.keys_gen(env.ctx)]))
        a = [sstr(env, 'order'), ids]
        impl, sp = env.fn(IM + 'get_all_split_successors', 2), env.fn(CT + 'branch_starts')
        env.compare('get_all_split_successors', lambda: env.ip.call(impl, list(a)), lambda: env.ip.call(sp, list(a)), [('orders', ids)])
    env.ctx.explore(path)


def gateway(env):
    """get_gateway_type, for two branches and for any other number of them."""
    env.boot(['contracts.csv_import'])

    def path():
        rows = lines(env)
        c = env.ctx
        if c.choose_any(2):
            ks = [Sym('str', z3.String('first')), Sym('str', z3.String('second'))]
            for k in ks:
                c.assume(env.rows.has(c, k))
            starts = lambda: env.ip.mklist(ks)
        else:
            n = z3.Int('branches')
            c.assume(z3.And(n >= 0, n != 2))
            b = MapBase(c, 'branches', lambda c, a: None)
            c.assume(b.n == n)

            def el(c, a, i):
                k = Sym('str', c.fn('branch', I, S)(i))
                c.assume(env.rows.has(c, k))
                return k
            starts = lambda: c.alloc(ListRec([BaseGen(n, el, [], 'branches')]))
        a = [sstr(env, 'order'), env.ctx.alloc(ListRec([env.rows.keys_gen(c)])), rows]

        def stub(ip, f, args, kw):
            if kw or list(args) != a[:2]:
                raise Unsup('arguments of get_all_split_successors')
            return starts()
        env.ip.overrides = {IM + 'get_all_split_successors': stub, CT + 'branch_starts': stub}
        impl, sp = env.fn(IM + 'get_gateway_type', 3), env.fn(CT + 'get_gateway_type')
        env.compare('get_gateway_type', lambda: env.ip.call(impl, list(a)), lambda: env.ip.call(sp, list(a)), [('rows', rows)])
    env.ctx.explore(path)


def driver(env):
    """load_diagram_from_csv: the headers, and the parts of the import in this order, on the same lines and diagram."""
    env.boot(['contracts.csv_import'])
    parts = ['import_nodes_info', 'fill_graph_connections', 'legacy_adjustment', 'remove_goto_nodes', 'remove_unnecessary_merge_gateways']

    def path():
        ip = env.ip
        d = Diagram(env)
        rows, flows = lines(env), sf(env, d)
        log = ip.mklist()

        def stub(name, full):
            def f(ip, fn, args, kw):
                if kw or list(args) != full:
                    raise Unsup('arguments of ' + name)
                ip.call(ip.getattr(log, 'append'), [name])
            return f
        ov = {CL + 'import_csv_file_as_dict': lambda ip, f, a, kw: rows}
        for x in parts:
            full = {'import_nodes_info': [rows, d.ref], 'legacy_adjustment': [d.ref]}.get(x, [rows, d.ref, flows])
            ov[(CL if x == 'legacy_adjustment' else IM) + x] = ov[CT + x] = stub(x, full)
        ip.overrides = ov
        impl, sp = env.fn(CL + 'load_diagram_from_csv', 2), env.fn(CT + 'load')
        env.compare('load_diagram_from_csv', lambda: ip.call(impl, [sstr(env, 'path'), d.ref]), lambda: ip.call(sp, [d.ref, rows]),
                    [('diagram', d.ref), ('rows', rows), ('parts of the import', log)])
    env.ctx.explore(path)


def stripping(env):
    env.boot(['contracts.csv_import'])
    name = 'remove_white_spaces_in_orders'
    impl, sp = env.fn(IM + name, 1), env.fn(CT + 'strip_step')

    def path():
        rows, base = lines(env), env.rows
        later = MapBase(env.ctx, 'rows1', base.val)
        k = base.key_at(env.ctx, z3.Int('iteration'))
        env.ctx.assume(later.has(env.ctx, k))
        if env.ctx.choose_any(2):
            skip_loop(env, name + ' outside its loop', impl, [rows], [('rows', rows)])
        else:
            loop_step(env, name + ' iteration', impl, [rows], lambda t: env.ip.call(sp, [rows, k]), None, base.n, [('rows', rows)],
                      lambda: env.ctx.put(rows, DictRec((), later)))
    env.ctx.explore(path)


def own(name, fn, functions, timeout=120):
    return Goal('C13', name, fn, functions, soft=True, timeout=timeout)


GOALS = [
    own('remove_white_spaces_in_orders', stripping, [IM + 'remove_white_spaces_in_orders']),
    own('get_all_split_successors of any orders', filtering, [IM + 'get_all_split_successors']),
    own('get_gateway_type', gateway, [IM + x for x in ('get_gateway_type', 'get_node_conditions', 'yes_no_conditions', 'sth_else_conditions', 'no_conditions')]),
    own('load_diagram_from_csv', driver, [CL + x for x in ('load_diagram_from_csv', 'import_nodes', 'representation_adjustment',
        'populate_diagram_elements_dict', 'populate_process_elements_dict', 'populate_plane_elements_dict')]),
    texts('get_possible_sequence_continuation_successor', 'next_in_branch'),
    texts('get_possible_split_continuation_successor', 'first_branch'),
    texts('get_possible_merge_continuation_successors', 'after_blocks'),
    texts('get_all_split_successors', 'branch_starts', 2),
    simple('get_node_type', node_type_args, lambda env, a: [('line', a[1])]),
    simple('add_node_info_to_diagram_graph', info_args, lambda env, a: [('diagram', a[4])]),
    simple('import_nodes_info', lambda env: [lines(env), Diagram(env).ref], lambda env, a: [('rows', a[0]), ('diagram', a[1])], timeout=300),
    simple('add_connection', conn_args, lambda env, a: [('rows', a[2]), ('diagram', a[3]), ('flows', a[4])], soft=True),
    simple('remove_node', node_args, lambda env, a: [('rows', a[1]), ('diagram', a[2])], soft=True),
    step_goal('remove_goto_nodes', 'goto_step', 'rows', ['rows1', 'nodes1']),
    step_goal('remove_unnecessary_merge_gateways', 'gateway_step', 'nodes', ['nodes1']),
    step_goal('fill_graph_connections', 'step_of', 'nodes', ['rows1', 'nodes1'], connecting, ids=True),
    simple('legacy_adjustment', lambda env: [Diagram(env).ref], lambda env, a: [('diagram', a[0])], qual=CL),
]
META = dict(
    assumptions=['orders are numbers with a letter for each branch entered: ([0-9]+[a-zA-Z])*([0-9]+)?; no order ends in _split or _join; each goto line '
                 'is reached by exactly one flow and names a line; no two flows between the same two nodes (see the known finding)',
                 'loops proved one iteration at a time, from any state in which the maps still hold the element of the iteration; that gotos and '
                 'gateways taken out have the flows their step requires is checked on every generated file',
                 'str.strip, str.lower and str.split as uninterpreted functions of the text'],
    trusted=['pandas.read_csv(dtype=str, keep_default_na=False) and to_dict: one dictionary per line, in file order, every cell as text',
             're.match: some division of the text into the groups of the pattern; re.finditer with the pattern for number-letter pairs finds each pair '
             'of a text that consists of such pairs, from left to right',
             'networkx 2.3 Graph: node and edge tables'])
