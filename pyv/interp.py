"""AST interpreter over symbolic state: executes the repository's source text as it is on disk."""
import ast
import builtins
import os
import z3
from .core import *
from .ops import *


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class FuncVal:
    def __init__(self, name, qual, node, envs, defaults, kwdefaults, cls, module, gen):
        self.name, self.qual, self.node, self.envs = name, qual, node, envs
        self.defaults, self.kwdefaults, self.cls, self.module, self.gen = defaults, kwdefaults, cls, module, gen

    def __repr__(self):
        return '<fn %s>' % self.qual


class ClassVal:
    def __init__(self, name, bases, attrs, module='', host=None):
        self.name, self.bases, self.attrs, self.module, self.host = name, bases, attrs, module, host

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def __repr__(self):
        return '<class %s>' % self.name


class Static:
    def __init__(self, f):
        self.f = f


class ClsMethod:
    def __init__(self, f):
        self.f = f


class Prop:
    def __init__(self, f, s=None):
        self.f, self.s = f, s


class Bound:
    def __init__(self, f, me):
        self.f, self.me = f, me


class Builtin:
    """Host implemented callable: fn(ip, args, kwargs)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class ModuleVal:
    def __init__(self, name, env):
        self.name, self.env = name, env      # env: Ref (EnvRec) or dict of host values


class SuperVal:
    def __init__(self, cls, me):
        self.cls, self.me = cls, me


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.BitOr: '|', ast.BitAnd: '&', ast.LShift: '<<', ast.RShift: '>>', ast.BitXor: '^', ast.MatMult: '@'}


class Frame:
    __slots__ = ('envs', 'module', 'cls', 'fn', 'globals_decl', 'nonlocal_decl', 'yields', 'depth')

    def __init__(self, envs, module, cls, fn):
        self.envs, self.module, self.cls, self.fn = envs, module, cls, fn
        self.globals_decl = set()
        self.nonlocal_decl = set()
        self.yields = None


class Interp(Ops):
    def __init__(self, ctx, repo='/repo', extra_modules=None):
        self.ctx = ctx
        self.repo = repo
        self.modules = {}
        self.src = {}
        self.excs = {}
        self.overrides = {}
        self.executed = set()
        self.depth = 0
        self.max_depth = 60
        self.model_modules = {}
        self.source_modules = {}
        self.wsteps = 0
        from . import models
        models.install(self)
        if extra_modules:
            self.source_modules.update(extra_modules)

    # ------------------------------------------------------------------ modules
    def find_source(self, name):
        if name in self.source_modules:
            return self.source_modules[name]
        rel = name.replace('.', '/')
        for root in (self.repo, os.path.join(self.repo, 'bpmn_python')):
            for cand in (rel + '.py', rel + '/__init__.py'):
                p = os.path.join(root, cand)
                if os.path.exists(p):
                    return p
            p = os.path.join(root, rel)
            if os.path.isdir(p):
                return ''
        return None

    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.model_modules:
            m = ModuleVal(name, self.model_modules[name])
            self.modules[name] = m
            return m
        path = self.find_source(name)
        if path is None:
            # unknown library: opaque module
            m = ModuleVal(name, {})
            m.opaque = True
            self.modules[name] = m
            return m
        env = self.ctx.alloc(EnvRec({'__name__': name}))
        m = ModuleVal(name, env)
        self.modules[name] = m
        if path:
            with open(path, encoding='utf-8') as f:
                src = f.read()
            tree = ast.parse(src)
            merge_ifs(tree)
            self.src[name] = (path, src, tree)
            fr = Frame([env], m, None, None)
            self.exec_block(tree.body, fr)
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
            p = self.load_module(par)
            if isinstance(p.env, Ref):
                self.env_set(p.env, leaf, m)
        return m

    def boot(self, names):
        """Execute module bodies once (concrete code); later paths start from this heap."""
        for n in names:
            self.load_module(n)
        self.ctx.boot_heap = dict(self.ctx.heap)
        self.ctx.boot_nid = self.ctx.nid

    def resolve(self, dotted):
        """module:Qual.name -> value"""
        mod, q = dotted.split(':')
        m = self.load_module(mod)
        v = m
        for part in q.split('.'):
            if isinstance(v, ModuleVal):
                v = self.module_get(v, part)
            elif isinstance(v, ClassVal):
                a = self.find_attr(v, part)
                if a is None:
                    return None
                v = a.f if isinstance(a, (Static, ClsMethod)) else a
            if v is None:
                return None
        return v

    def module_get(self, m, name):
        if isinstance(m.env, Ref):
            vs = self.ctx.get(m.env).vars
            if name in vs:
                return vs[name]
            sub = m.name + '.' + name
            if self.find_source(sub) is not None:
                return self.load_module(sub)
            return None
        if name in m.env:
            return m.env[name]
        sub = m.name + '.' + name
        if sub in self.model_modules:
            return self.load_module(sub)
        return None

    # ------------------------------------------------------------------ environments
    def env_set(self, env, name, v):
        r = self.ctx.get(env)
        d = dict(r.vars)
        d[name] = v
        self.ctx.put(env, EnvRec(d))

    def force(self, v):
        if isinstance(v, Poison):
            raise PoisonRead(v.loc)
        if isinstance(v, Lazy):
            return self.force(v.fn())
        return v

    def lookup(self, name, fr):
        if name in fr.globals_decl:
            order = [fr.module.env]
        else:
            order = fr.envs
        for env in order:
            vs = self.ctx.get(env).vars
            if name in vs:
                v = vs[name]
                if isinstance(v, Poison):
                    raise PoisonRead(('env', env.o, name))
                if isinstance(v, Lazy):
                    v = self.force(v)
                    self.env_set(env, name, v)
                return v
        if name in self.builtins:
            return self.builtins[name]
        if hasattr(builtins, name):
            raise Unsup('built-in ' + name)
        self.throw('NameError', "name '%s' is not defined" % name)

    def store(self, name, v, fr):
        if name in fr.globals_decl:
            self.env_set(fr.module.env, name, v)
            return
        if name in fr.nonlocal_decl:
            for env in fr.envs[1:]:
                if name in self.ctx.get(env).vars:
                    self.env_set(env, name, v)
                    return
        self.env_set(fr.envs[0], name, v)

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__') and fr.cls:
            return '_' + fr.cls.lstrip('_') + name
        return name

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsup('statement %s' % type(st).__name__)
        m(st, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def x_Return(self, st, fr):
        raise ReturnEx(self.ev(st.value, fr) if st.value is not None else None)

    def x_Break(self, st, fr):
        raise BreakEx()

    def x_Continue(self, st, fr):
        raise ContinueEx()

    def x_Global(self, st, fr):
        fr.globals_decl.update(st.names)

    def x_Nonlocal(self, st, fr):
        fr.nonlocal_decl.update(st.names)

    def x_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)):
            self.throw('AssertionError')

    def x_Import(self, st, fr):
        for a in st.names:
            m = self.load_module(a.name)
            if a.asname:
                self.store(a.asname, m, fr)
            else:
                self.store(a.name.split('.')[0], self.load_module(a.name.split('.')[0]), fr)

    def x_ImportFrom(self, st, fr):
        if st.module == '__future__':
            return
        if st.level:
            base = fr.module.name.split('.')
            base = base[:len(base) - st.level]
            mn = '.'.join(base + ([st.module] if st.module else []))
        else:
            mn = st.module
        m = self.load_module(mn)
        for a in st.names:
            if a.name == '*':
                raise Unsup('import *')
            v = self.module_get(m, a.name)
            if v is None:
                if getattr(m, 'opaque', False):
                    v = Builtin(mn + '.' + a.name, opaque_call)
                else:
                    raise Unsup('cannot import %s from %s' % (a.name, mn))
            self.store(a.asname or a.name, v, fr)

    def x_FunctionDef(self, st, fr, qualprefix=None):
        f = self.mkfunc(st, fr)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.ev(d, fr) if not (isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter')) else None
            if dv is None:
                old = self.lookup(d.value.id, fr)
                v = Prop(old.f, v)
                continue
            if isinstance(dv, Builtin) and dv.name == 'staticmethod':
                v = Static(v)
            elif isinstance(dv, Builtin) and dv.name == 'classmethod':
                v = ClsMethod(v)
            elif isinstance(dv, Builtin) and dv.name == 'property':
                v = Prop(v)
            else:
                v = self.call(dv, [v])
        self.store(self.mangle(st.name, fr), v, fr)

    def mkfunc(self, st, fr):
        a = st.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        envs = list(fr.envs)
        if getattr(fr, 'fn', None) == '<class>':
            envs = envs[1:]
        name = getattr(st, 'name', '<lambda>')
        qual = fr.module.name + ':' + ((fr.cls + '.') if fr.fn == '<class>' else '') + name
        body = st.body if isinstance(st.body, list) else [st.body]
        gen = not isinstance(st, ast.Lambda) and has_yield(body)
        return FuncVal(name, qual, st, envs, defaults, kwd, fr.cls, fr.module, gen)

    def x_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        bases = [b for b in bases if isinstance(b, ClassVal)]
        env = self.ctx.alloc(EnvRec({}))
        cfr = Frame([env] + list(fr.envs), fr.module, st.name, '<class>')
        self.exec_block(st.body, cfr)
        attrs = {('_' + st.name.lstrip('_') + k if k.startswith('__') and not k.endswith('__') else k): v
                 for k, v in self.ctx.get(env).vars.items()}
        c = ClassVal(st.name, bases or [self.builtins['object']], attrs, fr.module.name)
        self.store(st.name, c, fr)

    def x_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def x_AugAssign(self, st, fr):
        op = BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            new = self.inplace(op, cur, self.ev(st.value, fr))
            self.store(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, self.mangle(t.attr, fr))
            self.setattr(o, self.mangle(t.attr, fr), self.inplace(op, cur, self.ev(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, cur, self.ev(st.value, fr)))
        else:
            raise Unsup('augmented target')

    def inplace(self, op, cur, v):
        cur = self.force(cur)
        if op == '+' and isinstance(cur, Ref) and isinstance(self.ctx.get(cur), ListRec):
            self.list_extend(cur, v)
            return cur
        if op == '|' and isinstance(cur, Ref) and isinstance(self.ctx.get(cur), DictRec):
            self.call(self.getattr(cur, 'update'), [v])
            return cur
        return self.binop(op, cur, v)

    def list_extend(self, ref, v):
        segs = self.freeze_segs(self.iter_segs(v))
        rec = self.ctx.get(ref)
        self.ctx.put(ref, ListRec(rec.segs + tuple(segs), rec.kind))

    def freeze_segs(self, segs):
        """Turn reader-evaluated generators into captured ones."""
        out = []
        for s in segs:
            if isinstance(s, MapGen):
                acc = self.mklist()

                def body(v):
                    r = self.ctx.get(acc)
                    self.ctx.put(acc, ListRec(r.segs + (Lit(v),)))
                from .loops import summarise
                summarise(self, s, body)
                out.extend(self.ctx.get(acc).segs)
            else:
                out.append(s)
        return out

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))
            elif isinstance(t, ast.Name):
                env = fr.envs[0]
                d = dict(self.ctx.get(env).vars)
                d.pop(t.id, None)
                self.ctx.put(env, EnvRec(d))
            else:
                raise Unsup('del target')

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                raise Unsup('slice assignment')
            self.setitem(o, self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            si = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            if si is None:
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, fr)
            else:
                k = len(t.elts) - si - 1
                if len(vals) < len(t.elts) - 1:
                    self.throw('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:si], vals[:si]):
                    self.assign(e, x, fr)
                self.assign(t.elts[si].value, self.mklist(vals[si:len(vals) - k]), fr)
                for e, x in zip(t.elts[si + 1:], vals[len(vals) - k:]):
                    self.assign(e, x, fr)
        else:
            raise Unsup('assignment target')

    def unpack(self, v, n, star):
        v = self.force(v)
        segs = self.iter_segs(v)
        if not all(isinstance(s, Lit) for s in segs):
            if len(segs) == 1 and isinstance(segs[0], BaseGen) and not star:
                g = segs[0]
                if not self.ctx.fork(g.n == n):
                    self.throw('ValueError', 'unpack')
                return [g.elem(self.ctx, z3.IntVal(i)) for i in range(n)]
            raise Unsup('unpacking a symbolic sequence')
        vals = [s.v for s in segs]
        if not star and len(vals) != n:
            self.throw('ValueError', 'wrong number of values to unpack')
        return vals

    def x_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def x_With(self, st, fr):
        exits = []
        for it in st.items:
            cm = self.ev(it.context_expr, fr)
            f = self.getattr(cm, '__enter__')
            v = self.call(f, [])
            exits.append(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        try:
            self.exec_block(st.body, fr)
        except (ReturnEx, BreakEx, ContinueEx, PyRaise):
            for cm in reversed(exits):
                self.call(self.getattr(cm, '__exit__'), [None, None, None])
            raise
        for cm in reversed(exits):
            self.call(self.getattr(cm, '__exit__'), [None, None, None])

    def x_Raise(self, st, fr):
        if st.exc is None:
            if self.curexc:
                raise PyRaise(self.curexc[-1])
            raise Unsup('bare raise')
        v = self.ev(st.exc, fr)
        if isinstance(v, ClassVal):
            v = self.call(v, [])
        raise PyRaise(v)

    curexc = []

    def exc_matches(self, exc, cls):
        if isinstance(cls, tuple):
            return any(self.exc_matches(exc, c) for c in cls)
        return cls in self.ctx.get(exc).cls.mro()

    def x_Try(self, st, fr):
        try:
            try:
                self.exec_block(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e.val, self.ev(h.type, fr)):
                        if h.name:
                            self.store(h.name, e.val, fr)
                        self.curexc = self.curexc + [e.val]
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.curexc = self.curexc[:-1]
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, fr)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            if st.finalbody:
                self.exec_block(st.finalbody, fr)
            raise
        if st.finalbody:
            self.exec_block(st.finalbody, fr)

    # ------------------------------------------------------------------ loops
    def x_For(self, st, fr):
        it = self.ev(st.iter, fr)
        segs = self.iter_segs(it)
        live = it if isinstance(it, Ref) and isinstance(self.ctx.get(it), ListRec) else None

        def body(v):
            self.assign(st.target, v, fr)
            try:
                self.exec_block(st.body, fr)
            except ContinueEx:
                pass
        try:
            if self.loop_hook is not None:
                h, self.loop_hook = self.loop_hook, None
                h(segs, body)
            elif self.loop_rule is None or not self.by_rule('for_loop', segs, body):
                self.run_loop(segs, body, live)
        except BreakEx:
            return
        self.exec_block(st.orelse, fr)

    loop_rule = None        # invariants.Rule: loops by invariant where possible

    def by_rule(self, kind, *args):
        from . import invariants
        try:
            getattr(invariants, kind)(self, *args, self.loop_rule)
            return True
        except invariants.NotForThis:
            return False

    loop_hook = None        # stands in for the next loop statement

    def run_loop(self, segs, body, live=None):
        from .loops import summarise
        if live is not None and all(isinstance(s, Lit) for s in segs):
            # concrete list: honour in-loop mutation
            i = 0
            while True:
                cur = self.ctx.get(live).segs
                if i >= len(cur):
                    return
                if not isinstance(cur[i], Lit):
                    raise Unsup('list mutated symbolically while iterated')
                body(cur[i].v)
                i += 1
                if i > 5000:
                    raise Unsup('loop too long')
        for s in segs:
            if isinstance(s, Lit):
                body(s.v)
            elif isinstance(s, Gen):
                rec0 = self.ctx.get(live) if live is not None else None
                summarise(self, s, body)
                if live is not None and self.ctx.get(live) is not rec0:
                    raise Unsup('list mutated while iterated')
            else:
                raise PoisonRead(('list', s.oid))

    def x_While(self, st, fr):
        from .loops import while_loop
        while_loop(self, st, fr)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsup('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        if isinstance(e.value, (bytes, complex)) or e.value is Ellipsis:
            raise Unsup('constant')
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), self.mangle(e.attr, fr))

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            return self.getslice(o, *[self.ev(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.getitem(o, self.ev(e.slice, fr))

    def e_Tuple(self, e, fr):
        return tuple(self.seq_elts(e.elts, fr))

    empty_list = None       # stands in for []

    def e_List(self, e, fr):
        if not e.elts and self.empty_list is not None:
            return self.empty_list()
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = self.mklist()
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.list_extend(r, self.ev(x.value, fr))
                else:
                    self.list_extend(r, (self.ev(x, fr),))
            return r
        return self.mklist(self.seq_elts(e.elts, fr))

    def e_Set(self, e, fr):
        return self.mklist(self.seq_elts(e.elts, fr), 'set')

    def seq_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs = self.iter_segs(self.ev(x.value, fr))
                if not all(isinstance(s, Lit) for s in segs):
                    raise Unsup('starred symbolic')
                out.extend(s.v for s in segs)
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        r = self.mkdict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.call(self.getattr(r, 'update'), [self.ev(v, fr)])
            else:
                kk = self.ev(k, fr)
                self.dict_set(r, kk, self.ev(v, fr))
        return r

    def e_IfExp(self, e, fr):
        c = self.truth_term(self.ev(e.test, fr))
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse, fr)
        s = z3.simplify(c)
        if z3.is_true(s) or z3.is_false(s):
            return self.ev(e.body if z3.is_true(s) else e.orelse, fr)
        # try to merge effect-free scalar branches
        if pure(e.body) and pure(e.orelse):
            m = self.merge_branches(c, e, fr)
            if m is not None:
                return m
        if self.ctx.fork(c):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def merge_branches(self, c, e, fr):
        ctx = self.ctx
        vals = []
        for cond, ex in ((c, e.body), (z3.Not(c), e.orelse)):
            def run():
                ctx.assume(cond)
                h0 = dict(ctx.heap)
                n0 = len(ctx.pc)
                v = self.ev(ex, fr)
                if any(ctx.heap.get(k) is not r for k, r in h0.items()):
                    return None
                if len(ctx.dec):
                    return None
                return (v, list(ctx.pc[1:]))
            try:
                res = ctx.subexplore(run)
            except (PyRaise, PoisonRead):
                return None
            if len(res) != 1 or res[0].value is None or res[0].foralls:
                return None
            v, facts = res[0].value
            if kind_of(v) is None:
                return None
            for f in facts:
                ctx.assume(z3.Implies(cond, f))
            vals.append(v)
        k1, k2 = kind_of(vals[0]), kind_of(vals[1])
        if k1 != k2:
            return None
        return mk(k1, z3.If(c, zt(vals[0]), zt(vals[1])))

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        acc = []
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                break
            c = self.truth_term(v)
            if isinstance(c, bool):
                if c != is_and:
                    return self.join_bool(acc, v, is_and)
                continue
            # merge pure boolean tails into one formula instead of forking
            if kind_of(v) == 'bool' and all(pure(y) and boolish(y) for y in e.values[i + 1:]):
                r = self.bool_tail(c, e.values[i + 1:], is_and, fr)
                if r is not None:
                    return r
            if self.ctx.fork(c):
                if not is_and:
                    return v
            else:
                if is_and:
                    return v
        return v

    def join_bool(self, acc, v, is_and):
        return v

    def bool_tail(self, c, rest, is_and, fr):
        ctx = self.ctx
        terms = [c]
        for x in rest:
            guard = z3.And(*terms) if is_and else z3.Not(z3.Or(*terms))

            def run():
                ctx.assume(guard)
                h0 = dict(ctx.heap)
                v = self.ev(x, fr)
                if any(ctx.heap.get(k) is not r for k, r in h0.items()) or ctx.dec:
                    return None
                return (v, list(ctx.pc[1:]))
            try:
                res = ctx.subexplore(run)
            except (PyRaise, PoisonRead, Unsup):
                return None
            if not res:
                # guard infeasible
                break
            if len(res) != 1 or res[0].value is None or res[0].foralls:
                return None
            v, facts = res[0].value
            if kind_of(v) != 'bool':
                return None
            for f in facts:
                ctx.assume(z3.Implies(guard, f))
            terms.append(zt(v))
        return mk('bool', z3.And(*terms) if is_and else z3.Or(*terms))

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            c = self.truth_term(v)
            return (not c) if isinstance(c, bool) else mk('bool', z3.Not(c))
        v = self.force(v)
        if isinstance(e.op, ast.USub):
            if not isinstance(v, Sym):
                return -v
            return mk(v.k, -v.t)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsup('unary')

    def e_BinOp(self, e, fr):
        return self.binop(BINOPS[type(e.op)], self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        ka, kb = kind_of(a), kind_of(b)
        if ka and kb and not isinstance(a, Sym) and not isinstance(b, Sym):
            try:
                if op == '+': return a + b
                if op == '-': return a - b
                if op == '*': return a * b
                if op == '/': return a / b
                if op == '//': return a // b
                if op == '%': return a % b
                if op == '**': return a ** b
                if op == '|': return a | b
                if op == '&': return a & b
                if op == '<<': return a << b
                if op == '>>': return a >> b
                if op == '^': return a ^ b
            except TypeError as ex:
                self.throw('TypeError', str(ex))
            except ZeroDivisionError as ex:
                self.throw('ZeroDivisionError', str(ex))
        if op == '%' and ka == 'str':
            return self.percent(a, b)
        if ka == 'str' or kb == 'str':
            if op == '+' and ka == kb:
                return mk('str', z3.Concat(zt(a), zt(b)))
            if op == '*' and isinstance(a, str) and isinstance(b, Sym):
                if a == '':
                    return ''
                f = self.ctx.fn('str.repeat', S, I, S)
                return Sym('str', f(zt(a), zt(b)))
            if op == '*' and 'int' in (ka, kb) or op == '*' and 'bool' in (ka, kb):
                raise Unsup('repetition of a symbolic string')
            if (ka and kb) or a is None or b is None:
                self.throw('TypeError', 'unsupported operand types')
        if ka and kb:
            k, ta, tb = num_pair(a, b)
            if op == '+': return mk(k, ta + tb)
            if op == '-': return mk(k, ta - tb)
            if op == '*': return mk(k, ta * tb)
            if op == '/':
                if self.truth(self.eq(b, 0)):
                    self.throw('ZeroDivisionError', 'division by zero')
                ta = z3.ToReal(ta) if k == 'int' else ta
                tb = z3.ToReal(tb) if k == 'int' else tb
                return mk('real', ta / tb)
            if op in ('//', '%'):
                if self.truth(self.eq(b, 0)):
                    self.throw('ZeroDivisionError', 'division by zero')
                if k == 'int':
                    # z3 div/mod are Euclidean; Python's floor for positive divisors
                    q, r = ta / tb, ta % tb
                    if isinstance(b, int) and b > 0:
                        return mk('int', q if op == '//' else r)
                    q2 = z3.If(z3.And(tb < 0, r != 0), q - 1, q)
                    return mk('int', q2 if op == '//' else ta - tb * q2)
                if op == '//':
                    return mk('real', z3.ToReal(z3.ToInt(ta / tb)))
            if op == '**' and isinstance(b, int) and 0 <= b <= 4:
                r = z3.IntVal(1) if k == 'int' else z3.RealVal(1)
                for _ in range(b):
                    r = r * ta
                return mk(k, r)
            raise Unsup('numeric operator ' + op)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and op == '*':
            return a * b
        if isinstance(a, Ref) and isinstance(self.ctx.get(a), InstRec):
            nm = {'+': '__add__', '-': '__sub__', '*': '__mul__'}.get(op)
            f = self.find_attr(self.ctx.get(a).cls, nm) if nm else None
            if f is not None:
                return self.call(self.bind(f, a), [b])
        for x in (a, b):
            if isinstance(x, Ref):
                rec = self.ctx.get(x)
                if isinstance(rec, ListRec):
                    return self.list_binop(op, a, b)
        if all(x is None or kind_of(x) for x in (a, b)):
            self.throw('TypeError', 'unsupported operand types')
        raise Unsup('operator %s' % op)

    def list_binop(self, op, a, b):
        ra = self.ctx.get(a) if isinstance(a, Ref) else None
        rb = self.ctx.get(b) if isinstance(b, Ref) else None
        if isinstance(ra, ListRec) and isinstance(rb, ListRec):
            if ra.kind == 'list' and rb.kind == 'list' and op == '+':
                return self.ctx.alloc(ListRec(ra.segs + rb.segs))
            if ra.kind == 'set' and rb.kind == 'set':
                nm = {'|': 'union', '&': 'intersection', '-': 'difference'}.get(op)
                if nm:
                    return self.call(self.getattr(a, nm), [b])
        if op == '*':
            if isinstance(ra, ListRec) and kind_of(b) == 'int':
                lst, n = ra, b
            elif isinstance(rb, ListRec) and kind_of(a) == 'int':
                lst, n = rb, a
            else:
                self.throw('TypeError', 'bad operand')
            if isinstance(n, int):
                return self.ctx.alloc(ListRec(lst.segs * max(n, 0)))
            lits = self.all_lits(lst)
            if lits is not None and len(lits) == 1 and not isinstance(lits[0], Ref):
                v = lits[0]
                nn = z3.If(n.t > 0, n.t, z3.IntVal(0))
                if isinstance(v, Sym):
                    return self.ctx.alloc(ListRec([BaseGen(nn, lambda c, ar, t, k=v.k: Sym(k, ar[0]), [v.t])]))
                return self.ctx.alloc(ListRec([BaseGen(nn, lambda c, ar, t: v)]))
        if op == '+' and (isinstance(ra, ListRec) or ra is None and (a is None or kind_of(a) or isinstance(a, tuple))) and \
                (isinstance(rb, ListRec) or rb is None and (b is None or kind_of(b) or isinstance(b, tuple))):
            self.throw('TypeError', 'can only concatenate list')
        raise Unsup('list operator')

    def percent(self, a, b):
        if not isinstance(a, str):
            raise Unsup('symbolic format')
        args = list(b) if isinstance(b, tuple) else [b]
        import re
        parts = re.split(r'(%[sd%])', a)
        out = ''
        for p in parts:
            if p == '%%':
                out = self.binop('+', out, '%')
            elif p in ('%s', '%d'):
                if not args:
                    self.throw('TypeError', 'not enough arguments for format string')
                out = self.binop('+', out, self.to_str(args.pop(0)))
            elif '%' in p:
                raise Unsup('format spec')
            elif p:
                out = self.binop('+', out, p)
        return out

    def e_JoinedStr(self, e, fr):
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                out = self.binop('+', out, v.value)
            else:
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    raise Unsup('f-string spec')
                out = self.binop('+', out, self.to_str(self.ev(v.value, fr)))
        return out

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = []
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            v = self.compare(type(op).__name__, left, right)
            if i < len(e.ops) - 1:
                if v is False:
                    return self.conj(res + [False])
            res.append(v)
            left = right
        if len(res) == 1:
            return res[0]
        return self.conj(res)

    def compare(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            return self.neg(self.eq(a, b))
        if op == 'Is':
            return self.identical(a, b)
        if op == 'IsNot':
            return self.neg(self.identical(a, b))
        if op == 'In':
            return self.contains(b, a)
        if op == 'NotIn':
            return self.neg(self.contains(b, a))
        ka, kb = kind_of(a), kind_of(b)
        if ka and kb:
            if (ka == 'str') != (kb == 'str'):
                self.throw('TypeError', 'unorderable types')
            if ka == 'str':
                if isinstance(a, str) and isinstance(b, str):
                    return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
                x, y = zt(a), zt(b)
                return mk('bool', {'Lt': x < y, 'LtE': x <= y, 'Gt': y < x, 'GtE': y <= x}[op])
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
            _, x, y = num_pair(a, b)
            return mk('bool', {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
        if isinstance(a, tuple) and isinstance(b, tuple):
            n = min(len(a), len(b))
            # lexicographic
            for i in range(n):
                if not self.truth(self.eq(a[i], b[i])):
                    return self.compare(op, a[i], b[i])
            return {'Lt': len(a) < len(b), 'LtE': len(a) <= len(b), 'Gt': len(a) > len(b),
                    'GtE': len(a) >= len(b)}[op]
        if all(x is None or kind_of(x) or isinstance(x, tuple) for x in (a, b)):
            self.throw('TypeError', 'unorderable types')
        raise Unsup('comparison')

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr)

    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                segs = self.iter_segs(self.ev(a.value, fr))
                if not all(isinstance(s, Lit) for s in segs):
                    raise Unsup('starred call argument')
                args.extend(s.v for s in segs)
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value, fr))
                rec = self.ctx.get(d)
                if rec.base is not None or not all(isinstance(l, Pt) and isinstance(l.k, str) for l in rec.layers):
                    raise Unsup('** of symbolic dict')
                for l in rec.layers:
                    if l.v is not ABSENT:
                        kw[l.k] = l.v
            else:
                kw[k.arg] = self.ev(k.value, fr)
        if isinstance(f, Builtin) and f.name == 'super' and not args:
            me = self.ctx.get(fr.envs[0]).vars
            first = fr.fn.node.args.args[0].arg
            cls = None
            for c in self.class_of(me[first]).mro():
                if c.name == fr.cls:
                    cls = c
            return SuperVal(cls, me[first])
        return self.call(f, args, kw)

    def class_of(self, v):
        return self.ctx.get(v).cls

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Bound):
            return self.call(f.f, [f.me] + list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), kw)
        if isinstance(f, FuncVal):
            return self.call_func(f, list(args), kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, list(args), kw)
        if isinstance(f, (Static, ClsMethod)):
            return self.call(f.f, args, kw)
        if isinstance(f, Ref):
            rec = self.ctx.get(f)
            if isinstance(rec, InstRec):
                m = self.find_attr(rec.cls, '__call__')
                if m is not None:
                    return self.call(self.bind(m, f), args, kw)
        if f is None or kind_of(f):
            self.throw('TypeError', 'object is not callable')
        raise Unsup('call of %r' % (f,))

    def instantiate(self, cls, args, kw):
        for c in cls.mro():
            if c.host is not None:
                return c.host(self, cls, args, kw)
        r = self.ctx.alloc(InstRec(cls, {}))
        init = self.find_attr(cls, '__init__')
        if init is not None:
            self.call(self.bind(init, r), args, kw)
        return r

    def call_func(self, f, args, kw):
        ov = self.overrides.get(f.qual)
        if ov is not None:
            r = ov(self, f, args, kw)
            if r is not NotImplemented:
                return r
        return self.run_func(f, args, kw)

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        if len(args) > len(names) and a.vararg is None:
            self.throw('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, len(names), len(args)))
        for n, v in zip(names, args):
            vars_[n] = v
        if a.vararg is not None:
            vars_[a.vararg.arg] = tuple(args[len(names):])
        kw = dict(kw)
        kwonly = [x.arg for x in a.kwonlyargs]
        for n in names + kwonly:
            if n in kw:
                if n in vars_:
                    self.throw('TypeError', 'multiple values for argument')
                vars_[n] = kw.pop(n)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vars_:
                j = i - (len(names) - nd)
                if j < 0:
                    self.throw('TypeError', 'missing argument %s' % n)
                vars_[n] = f.defaults[j]
        for n in kwonly:
            if n not in vars_:
                if n not in f.kwdefaults:
                    self.throw('TypeError', 'missing argument %s' % n)
                vars_[n] = f.kwdefaults[n]
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = self.mkdict(kw.items())
        elif kw:
            self.throw('TypeError', 'unexpected keyword argument %s' % sorted(kw)[0])
        return vars_

    def run_func(self, f, args, kw):
        vars_ = self.bind_args(f, args, kw)
        self.executed.add(f.qual)
        env = self.ctx.alloc(EnvRec(vars_))
        fr = Frame([env] + f.envs, f.module, f.cls, f)
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            raise Unsup('recursion too deep (no contract cuts it)')
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if f.gen:
                fr.yields = self.mklist(kind='iter')
                try:
                    self.exec_block(f.node.body, fr)
                except ReturnEx:
                    pass
                return fr.yields
            try:
                self.exec_block(f.node.body, fr)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        if fr.yields is None:
            raise Unsup('yield outside generator')
        r = self.ctx.get(fr.yields)
        self.ctx.put(fr.yields, ListRec(r.segs + (Lit(v),), 'iter'))
        return None

    def e_YieldFrom(self, e, fr):
        self.list_extend(fr.yields, self.ev(e.value, fr))
        return None

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    # comprehensions
    def comp(self, e, fr, emit):
        env = self.ctx.alloc(EnvRec({}))
        cfr = Frame([env] + fr.envs, fr.module, fr.cls, fr.fn)

        def level(i):
            if i == len(e.generators):
                emit(cfr)
                return
            g = e.generators[i]
            it = self.ev(g.iter, cfr if i else fr)

            def body(v):
                self.assign(g.target, v, cfr)
                for c in g.ifs:
                    if not self.truth(self.ev(c, cfr)):
                        return
                level(i + 1)
            self.run_loop(self.iter_segs(it), body)
        level(0)

    def e_ListComp(self, e, fr, kind='list'):
        acc = self.mklist(kind=kind)

        def emit(cfr):
            v = self.ev(e.elt, cfr)
            r = self.ctx.get(acc)
            self.ctx.put(acc, ListRec(r.segs + (Lit(v),), kind))
        self.comp(e, fr, emit)
        return acc

    def e_SetComp(self, e, fr):
        return self.e_ListComp(e, fr, 'set')

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr, 'iter')

    def e_DictComp(self, e, fr):
        acc = self.mkdict()

        def emit(cfr):
            k = self.ev(e.key, cfr)
            self.dict_set(acc, k, self.ev(e.value, cfr))
        self.comp(e, fr, emit)
        return acc

    # ------------------------------------------------------------------ attributes
    def find_attr(self, cls, name):
        for c in cls.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def bind(self, f, me):
        if isinstance(f, Static):
            return f.f
        if isinstance(f, ClsMethod):
            return Bound(f.f, self.class_of(me) if isinstance(me, Ref) else me)
        if isinstance(f, (FuncVal, Builtin)):
            return Bound(f, me)
        return f

    def getattr(self, o, name):
        o = self.force(o)
        if isinstance(o, ModuleVal):
            v = self.module_get(o, name)
            if v is None:
                if getattr(o, 'opaque', False):
                    return Builtin(o.name + '.' + name, opaque_call)
                if o.name not in self.src:
                    raise Unsup('%s.%s' % (o.name, name))
                self.throw('AttributeError', 'module %s has no attribute %s' % (o.name, name))
            return v
        if isinstance(o, ClassVal):
            a = self.find_attr(o, name)
            if a is None:
                if name == '__name__':
                    return o.name
                if o.module == 'builtins' and o.name in ('dict', 'list', 'set', 'str', 'tuple') and hasattr(getattr(builtins, o.name), name):
                    if name == 'fromkeys' and o.name == 'dict':
                        return Builtin('dict.fromkeys', dict_fromkeys)
                    if name in ('fromkeys', 'maketrans') or name.startswith('__'):
                        raise Unsup('%s.%s' % (o.name, name))
                    return Builtin('%s.%s' % (o.name, name), lambda ip, a, k: ip.call(ip.getattr(a[0], name), list(a[1:]), k))
                self.library_class(o, name)
                self.throw('AttributeError', 'type object %s has no attribute %s' % (o.name, name))
            if isinstance(a, Static):
                return a.f
            if isinstance(a, ClsMethod):
                return Bound(a.f, o)
            return a
        if isinstance(o, SuperVal):
            for c in o.cls.mro()[1:]:
                if name in c.attrs:
                    return self.bind(c.attrs[name], o.me)
            if name == '__init__':
                return Builtin('object.__init__', lambda ip, a, k: None)
            self.throw('AttributeError', name)
        if isinstance(o, Ref):
            rec = self.ctx.get(o)
            if isinstance(rec, InstRec):
                if name in rec.attrs:
                    v = rec.attrs[name]
                    if isinstance(v, Poison):
                        raise PoisonRead(('attr', o.o, name))
                    if isinstance(v, Lazy):
                        v = self.force(v)
                        self.setattr_raw(o, name, v)
                    return v
                a = self.find_attr(rec.cls, name)
                if a is not None:
                    if isinstance(a, Prop):
                        return self.call(a.f, [o])
                    return self.bind(a, o)
                if name == '__class__':
                    return rec.cls
                if name == '__dict__':
                    raise Unsup('__dict__')
                for c in rec.cls.mro():
                    if c.attrs.get('__getattr_host__'):
                        r = c.attrs['__getattr_host__'](self, o, name)
                        if r is not NotImplemented:
                            return r
                self.library_class(rec.cls, name)
                self.throw('AttributeError', "'%s' object has no attribute '%s'" % (rec.cls.name, name))
        return self.builtin_attr(o, name)

    def library_class(self, c, name):
        """A class of a library is modelled in part: what the model lacks is outside the verifier, not an AttributeError."""
        if any(k.module not in self.src and k.name != 'object' for k in c.mro()):
            raise Unsup('%s.%s' % (c.name, name))

    def setattr_raw(self, o, name, v):
        rec = self.ctx.get(o)
        d = dict(rec.attrs)
        d[name] = v
        self.ctx.put(o, InstRec(rec.cls, d))

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, Ref):
            rec = self.ctx.get(o)
            if isinstance(rec, InstRec):
                a = self.find_attr(rec.cls, name)
                if isinstance(a, Prop):
                    if a.s is None:
                        self.throw('AttributeError', 'cannot set')
                    self.call(a.s, [o, v])
                    return
                self.setattr_raw(o, name, v)
                return
            self.throw('AttributeError', name)
        if isinstance(o, ClassVal):
            raise Unsup('assignment to a class attribute')
        if isinstance(o, ModuleVal):
            raise Unsup('assignment to a module attribute')
        if o is None or kind_of(o):
            self.throw('AttributeError', name)
        raise Unsup('setattr')

    # ------------------------------------------------------------------ items
    def getitem(self, o, k):
        o = self.force(o)
        k = self.force(k)
        if isinstance(k, Sym) and k.k == 'bool' and (isinstance(o, (tuple, str)) or kind_of(o) == 'str' or
                                                     (isinstance(o, Ref) and isinstance(self.ctx.get(o), ListRec))):
            k = 1 if self.truth(k) else 0
        if isinstance(o, tuple):
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                if -len(o) <= k < len(o):
                    return o[k]
                self.throw('IndexError', 'tuple index out of range')
            if isinstance(k, Sym) and k.k == 'int':
                return self.seq_index([Lit(x) for x in o], k)
            self.throw('TypeError', 'tuple indices must be integers')
        if isinstance(o, str):
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    self.throw('IndexError', 'string index out of range')
            if isinstance(k, Sym) and k.k == 'int':
                n = len(o)
                if self.truth(self.conj([self.compare('GtE', k, 0), self.compare('Lt', k, n)])):
                    return mk('str', z3.SubString(z3.StringVal(o), k.t, 1))
                if self.truth(self.compare('GtE', k, n)):
                    self.throw('IndexError', 'string index out of range')
                if self.truth(self.compare('GtE', k, -n)):
                    return mk('str', z3.SubString(z3.StringVal(o), k.t + n, 1))
                self.throw('IndexError', 'string index out of range')
            self.throw('TypeError', 'string indices must be integers')
        if isinstance(o, Sym) and o.k == 'str':
            if isinstance(k, int):
                n = z3.Length(o.t)
                if not self.ctx.fork(n > k if k >= 0 else n >= -k):
                    self.throw('IndexError', 'string index out of range')
                return mk('str', z3.SubString(o.t, z3.IntVal(k) if k >= 0 else n + k, 1))
            raise Unsup('symbolic string index')
        if isinstance(o, Ref):
            rec = self.ctx.get(o)
            if isinstance(rec, DictRec):
                r = self.dict_find(o, k)
                if r[0] == 'absent':
                    if rec.kind == 'counter':
                        return 0
                    if rec.kind.startswith('default:'):
                        v = self.call(self.default_factories[rec.kind], [])
                        self.dict_set(o, k, v)
                        return v
                    self.throw('KeyError', k)
                return r[1]
            if isinstance(rec, ListRec):
                if rec.kind in ('set', 'iter'):
                    self.throw('TypeError', 'object is not subscriptable')
                return self.seq_index(rec.segs, k)
            if isinstance(rec, InstRec):
                f = self.find_attr(rec.cls, '__getitem__')
                if f is not None:
                    return self.call(self.bind(f, o), [k])
        if hasattr(o, 'getitem'):
            return o.getitem(self, k)
        if o is None or kind_of(o):
            self.throw('TypeError', 'object is not subscriptable')
        raise Unsup('subscript of %r' % (o,))

    def setitem(self, o, k, v):
        o = self.force(o)
        k = self.force(k)
        if isinstance(o, Ref):
            rec = self.ctx.get(o)
            if isinstance(rec, DictRec):
                self.dict_set(o, k, v)
                return
            if isinstance(rec, ListRec):
                self.list_set(o, k, v)
                return
            if isinstance(rec, InstRec):
                f = self.find_attr(rec.cls, '__setitem__')
                if f is not None:
                    self.call(self.bind(f, o), [k, v])
                    return
        if hasattr(o, 'setitem'):
            return o.setitem(self, k, v)
        if o is None or kind_of(o) or isinstance(o, tuple):
            self.throw('TypeError', 'object does not support item assignment')
        raise Unsup('item assignment')

    def list_set(self, o, k, v):
        rec = self.ctx.get(o)
        if isinstance(k, int):
            n = len(rec.segs)
            if all(isinstance(s, Lit) for s in rec.segs):
                if not -n <= k < n:
                    self.throw('IndexError', 'list assignment index out of range')
                ls = list(rec.segs)
                ls[k] = Lit(v)
                self.ctx.put(o, ListRec(ls, rec.kind))
                return
        if isinstance(k, Sym) and all(isinstance(s, Lit) for s in rec.segs):
            n = len(rec.segs)
            c = self.ctx.choose([k.t == j for j in range(n)] + [k.t == -j - 1 for j in range(n)] +
                                [z3.Or(k.t >= n, k.t < -n)])
            if c == 2 * n:
                self.throw('IndexError', 'list assignment index out of range')
            ls = list(rec.segs)
            ls[c if c < n else n - 1 - (c - n)] = Lit(v)
            self.ctx.put(o, ListRec(ls, rec.kind))
            return
        # point write into an indexed list: keep as an overlay
        if len(rec.segs) == 1 and isinstance(rec.segs[0], Gen) and self.one_each(rec.segs[0]):
            g = rec.segs[0]
            t = zt(k)
            if not self.ctx.fork(z3.And(t >= 0, t < g.n)):
                if self.ctx.fork(z3.Or(t >= g.n, t < -g.n)):
                    self.throw('IndexError', 'list assignment index out of range')
                raise Unsup('negative index write')
            self.ctx.put(o, ListRec([PointGen(g, t, v)], rec.kind))
            return
        if len(rec.segs) == 1 and isinstance(rec.segs[0], AccSeg):
            self.ctx.put(o, ListRec([rec.segs[0], PointW(zt(k), v)], rec.kind))
            return
        raise Unsup('list item assignment')

    def delitem(self, o, k):
        o = self.force(o)
        if isinstance(o, Ref):
            rec = self.ctx.get(o)
            if isinstance(rec, DictRec):
                if self.dict_find(o, k)[0] == 'absent':
                    self.throw('KeyError', k)
                self.dict_del(o, k)
                return
            if isinstance(rec, ListRec) and isinstance(k, int) and all(isinstance(s, Lit) for s in rec.segs):
                ls = list(rec.segs)
                if not -len(ls) <= k < len(ls):
                    self.throw('IndexError', 'list assignment index out of range')
                del ls[k]
                self.ctx.put(o, ListRec(ls, rec.kind))
                return
        raise Unsup('del item')

    def getslice(self, o, lo, hi, step):
        o = self.force(o)
        if any(isinstance(x, Sym) for x in (lo, hi, step)):
            if isinstance(o, Ref) and step is None and all(x is None or kind_of(x) == 'int' for x in (lo, hi)):
                lits = self.all_lits(self.ctx.get(o))
                if lits is not None:
                    n = len(lits)
                    b = []
                    for x, dflt in ((lo, 0), (hi, n)):
                        if x is None:
                            b.append(dflt)
                        elif isinstance(x, Sym):
                            c = self.ctx.choose([x.t == j for j in range(-n, n)] + [x.t >= n, x.t < -n])
                            b.append(c - n if c <= 2 * n else -n - 1)
                        else:
                            b.append(x)
                    return self.mklist(lits[b[0]:b[1]])
            if kind_of(o) == 'str' and step is None and all(x is None or kind_of(x) == 'int' for x in (lo, hi)):
                return self.str_slice(o, lo, hi)
            raise Unsup('symbolic slice')
        if isinstance(o, (tuple, str)):
            return o[lo:hi:step]
        if isinstance(o, Ref) and isinstance(self.ctx.get(o), ListRec):
            rec = self.ctx.get(o)
            lits = self.all_lits(rec)
            if lits is not None:
                return self.mklist(lits[lo:hi:step])
            if (lo, hi, step) in ((None, None, None), (0, None, None)):
                return self.ctx.alloc(ListRec(self.freeze_segs(rec.segs)))
            if step is None and hi is None and isinstance(lo, int) and lo >= 0:
                segs = list(rec.segs)
                while lo and segs and isinstance(segs[0], Lit):
                    segs.pop(0)
                    lo -= 1
                if lo == 0:
                    return self.ctx.alloc(ListRec(segs))
                if len(segs) == 1 and self.one_each(segs[0]):
                    g = segs[0]
                    nn = z3.If(g.n > lo, g.n - lo, z3.IntVal(0))
                    return self.ctx.alloc(ListRec([OffGen(g, z3.IntVal(lo), nn)]))
            if step is None and hi == -1 and lo in (None, 0) and len(rec.segs) == 1 and self.one_each(rec.segs[0]):
                g = rec.segs[0]
                return self.ctx.alloc(ListRec([OffGen(g, z3.IntVal(0), z3.If(g.n > 0, g.n - 1, z3.IntVal(0)))]))
        if isinstance(o, Sym) and o.k == 'str' and step is None:
            return self.str_slice(o, lo, hi)
        if o is None or kind_of(o) in ('int', 'real', 'bool'):
            self.throw('TypeError', 'not subscriptable')
        raise Unsup('slice')

    def str_slice(self, o, lo, hi):
        t = zt(o)
        n = z3.Length(t)

        def norm(x, d):
            if x is None:
                return d
            if isinstance(x, Sym):
                if not self.ctx.feasible(z3.Or(x.t < 0, x.t > n)):
                    return x.t
                return z3.If(x.t >= 0, z3.If(x.t < n, x.t, n), z3.If(n + x.t > 0, n + x.t, z3.IntVal(0)))
            if x >= 0:
                return z3.If(z3.IntVal(x) < n, z3.IntVal(x), n)
            return z3.If(n + x > 0, n + x, z3.IntVal(0))
        a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
        if lo is None or lo == 0:
            return mk('str', z3.SubString(t, 0, b))
        return mk('str', z3.If(b > a, z3.SubString(t, a, b - a), z3.StringVal('')))


class PointW:
    """One in-loop write L[k] = v on the list under summary."""

    def __init__(self, k, v):
        self.k, self.v = k, v


class PointGen(Gen):
    """g with one position overwritten."""

    def __init__(self, g, t, v):
        self.g, self.t, self.v = g, t, v
        self.n = g.n

    def alts(self):
        me = self

        class A(Alt):
            def __init__(s, a, hit):
                s.a, s.hit = a, hit
                s.simple = True if hit else a.simple

            def cond(s, t):
                return (t == me.t) if s.hit else z3.And(t != me.t, s.a.cond(t))

            def assume(s, ctx, t):
                ctx.assume(t == me.t if s.hit else t != me.t)
                if not s.hit:
                    s.a.assume(ctx, t)

            def segs(s, ctx, t):
                return [Lit(me.v)] if s.hit else s.a.segs(ctx, t)
        return [A(None, True)] + [A(a, False) for a in self.g.alts()]

    def sub(self, pairs):
        if isinstance(self.v, Sym):
            v = Sym(self.v.k, z3.substitute(self.v.t, *pairs))
        elif isinstance(self.v, (Ref, tuple)):
            raise Unsup('substitution in overwritten list')
        else:
            v = self.v
        return PointGen(self.g.sub(pairs), z3.substitute(self.t, *pairs), v)


def has_yield(body):
    for st in body:
        for n in walk_no_nested(st):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
    return False


def walk_no_nested(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        return
    for c in ast.iter_child_nodes(n):
        yield from walk_no_nested(c)


def dict_fromkeys(ip, a, k):
    r = ip.ctx.alloc(DictRec())
    lits = [x.v if isinstance(x, Lit) else None for x in ip.iter_segs(a[0])]
    if not all(isinstance(x, Lit) for x in ip.iter_segs(a[0])):
        raise Unsup('dict.fromkeys of a symbolic sequence')
    for x in lits:
        ip.dict_set(r, x, a[1] if len(a) > 1 else None)
    return r


def merge_ifs(tree):
    """Rewrite, in place, to the equivalent conditional expression (whose branches the interpreter can merge into one term):
    `if c: return a` followed by `return b` or with `else: return b`; `if c: x = a` with `else: x = b` or directly after `x = b`."""
    def ret(b):
        return b[0] if len(b) == 1 and isinstance(b[0], ast.Return) and b[0].value is not None else None

    def asg(b):
        return b[0] if len(b) == 1 and isinstance(b[0], ast.Assign) and len(b[0].targets) == 1 and isinstance(b[0].targets[0], ast.Name) else None

    def block(b):
        for st in b:
            walk(st)
        i = len(b) - 1
        while i >= 0:
            st = b[i]
            if isinstance(st, ast.If):
                r = ret(st.body)
                if r is not None:
                    o = ret(st.orelse) if st.orelse else (ret(b[i + 1:i + 2]))
                    if o is not None:
                        n = ast.Return(ast.IfExp(st.test, r.value, o.value))
                        b[i:i + (1 if st.orelse else 2)] = [ast.copy_location(n, st)]
                else:
                    a = asg(st.body)
                    if a is not None:
                        x = a.targets[0].id
                        o = asg(st.orelse)
                        if o is not None and o.targets[0].id == x:
                            n = ast.Assign([a.targets[0]], ast.IfExp(st.test, a.value, o.value))
                            b[i] = ast.copy_location(n, st)
                        elif not st.orelse and i and asg(b[i - 1:i]) is not None and b[i - 1].targets[0].id == x:
                            n = ast.Assign([a.targets[0]], ast.IfExp(st.test, a.value, ast.Name(x, ast.Load())))
                            b[i] = ast.copy_location(n, st)
            i -= 1

    def walk(st):
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(st, f, None)
            if isinstance(v, list):
                block(v)
        for h in getattr(st, 'handlers', ()):
            block(h.body)
    block(tree.body)
    ast.fix_missing_locations(tree)


def pure(e):
    """Syntactically cheap, effect-free expression (reads, comparisons, attribute reads, getters)."""
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'getAttribute', 'hasAttribute', 'get', 'strip', 'startswith', 'endswith', 'lower', 'has_node'):
                continue
            if isinstance(n.func, ast.Name) and n.func.id in ('len', 'isinstance', 'str', 'float', 'int', 'min', 'max',
                                                              'abs', 'bool'):
                continue
            if isinstance(n.func, ast.Name) or isinstance(n.func, ast.Attribute):
                # may be a repo function: side effects are detected dynamically by the caller
                continue
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await, ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            return False
    return True


def boolish(e):
    return isinstance(e, (ast.Compare, ast.Call)) or (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)) or \
        (isinstance(e, ast.BoolOp) and all(boolish(x) for x in e.values))


def opaque_call(ip, args, kw):
    raise Unsup('call into an unmodelled library')
