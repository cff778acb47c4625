from pyv.contract import *
from goals import c02

REP = c02.REP
FULL = {'incoming': True, 'outgoing': True, 'x': True, 'y': True, 'id': ('opt', 'str')}
# conjunct -> (arguments, conjuncts (with arguments) assumed of the pre-state)
INV = {
    'flow_ok': ('f', [('flow_ok', 'f')]),
    'edge_ok': ('uv', [('edge_ok', 'uv')]),
    'node_ok': ('n', [('node_ok', 'n')]),
    'outgoing_ok': ('ni', [('outgoing_ok', 'ni')]),
    'incoming_ok': ('ni', [('incoming_ok', 'ni')]),
    'outgoing_once': ('nij', [('outgoing_ok', 'ni'), ('outgoing_ok', 'nj'), ('outgoing_once', 'nij')]),
    'incoming_once': ('nij', [('incoming_ok', 'ni'), ('incoming_ok', 'nj'), ('incoming_once', 'nij')]),
}


def keeps(name, params, inv):
    def fn(env):
        env.boot(['contracts.bookkeeping', 'contracts.base'])
        impl = env.fn(REP + name)
        vals = {c: sstr(env, 'any_' + c) for c in 'fuvn'}
        vals.update({c: Sym('int', z3.Int('any_' + c)) for c in 'ij'})
        CON = {c: env.fn('contracts.bookkeeping:' + c) for c in INV}

        def path():
            ip, ctx = env.ip, env.ctx
            d = Diagram(env, node=FULL, edge={'name': True})
            kw = {}
            for p, kind, mandatory in params:
                kw[p] = (sbool(env, p) if kind == 'bool' else sstr(env, p) if kind == 'str'
                         else optional(env, sstr(env, p)))
            if name == 'add_sequence_flow_to_diagram':
                ctx.assume(d.nodes.has(ctx, kw['source_ref_id']))
                ctx.assume(d.nodes.has(ctx, kw['target_ref_id']))
                ctx.assume(z3.Not(d.edges.has(ctx, (kw['source_ref_id'], kw['target_ref_id']))))
            elif kw.get('node_id') is not None:
                ctx.assume(z3.Not(d.nodes.has(ctx, kw['node_id'])))
            args, pre = INV[inv]
            if not name.startswith(('__init__', 'create_new')):
                for c, a in pre:
                    r = env.attempt(lambda: ip.call(CON[c], [d.ref] + [vals[x] for x in a]))
                    if r[0] == 'exc' or not ip.truth(r[1]):
                        raise Infeasible()
            try:
                ip.call(impl, [d.ref], kw)
            except PyRaise:
                pass
            for u in ctx.trace:         # identifiers drawn from uuid4 are new to the diagram
                if u[0] == 'uuid':
                    new = Sym('str', z3.Concat(z3.StringVal('id'), u[1]))
                    ctx.assume(z3.Not(d.sf.has(ctx, new)))
                    ctx.assume(z3.Not(d.nodes.has(ctx, new)))
            r = env.attempt(lambda: ip.call(CON[inv], [d.ref] + [vals[x] for x in args]))
            if not ctx.feasible(z3.BoolVal(True)):
                raise Infeasible()
            r = r[1] if r[0] == 'ret' else False
            ctx.prove('%s preserves %s' % (name, inv), r if isinstance(r, bool) else zt(r))
            env.end_path()
        env.ctx.explore(path)
    return Goal('C01', '%s keeps %s' % (name, inv), fn, [REP + name])


GOALS = [keeps(*c02.SIGS[n], inv) for n in c02.SIGS for inv in INV]
