"""Gated value-flow summaries of functions (abstract interpretation over the
syntax tree; nothing of the analysed program is executed)."""
import ast

from .prog import Class, Func, dotted, BrokenAnalysis, PKG
from .terms import *

BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict)
               else __builtins__)
MAXDEPTH = 6
MAXEVENTS = 6000


class Ev:
    __slots__ = ('kind', 'func', 'args', 'kwargs', 'term', 'base', 'attr',
                 'value', 'guard', 'loops', 'seq', 'frames', 'scopes', 'tries',
                 'node', 'path', 'fname', 'callee')

    def __init__(self, kind, **kw):
        for s in self.__slots__:
            setattr(self, s, None)
        self.kind = kind
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def line(self):
        return getattr(self.node, 'lineno', 0)

    @property
    def where(self):
        return '%s:%d (%s)' % (self.path, self.line, self.fname)

    def text(self):
        k = self.kind
        if k == 'call':
            return show(self.term)
        if k in ('setattr', 'setitem'):
            a = self.attr if isinstance(self.attr, str) else show(self.attr)
            return '%s%s = %s' % (show(self.base), ('.%s' if k == 'setattr'
                                  else '[%s]') % a, show(self.value))
        if self.term is not None:
            return '%s %s' % (k, show(self.term))
        if self.value is not None:
            return '%s %s' % (k, show(self.value))
        return k

    def __repr__(self):
        return '#%d %s%s | guard %s%s%s%s @%s:%d' % (
            self.seq, '  ' * (len(self.frames) - 1), self.text(),
            fshow(self.guard),
            ' | loops %s' % (self.loops,) if self.loops else '',
            ' | scopes %s' % [show(s) for s in self.scopes]
            if self.scopes else '',
            ' | try %s' % (self.tries,) if self.tries else '',
            self.fname.split('.')[-1], self.line)


class Frame:
    def __init__(self, func, selfcls, defcls, module, name, path):
        self.func, self.selfcls, self.defcls = func, selfcls, defcls
        self.module, self.name, self.path = module, name, path
        self.rets = []
        self.yields = []
        self.entry = ()
        self.local_defs = set()
        body = getattr(getattr(func, 'node', None), 'body', None)
        body = [x for x in body if not (isinstance(x, ast.Expr) and isinstance(
            x.value, ast.Constant))] if isinstance(body, list) else ()
        # a one-expression helper does not use up expansion depth
        self.weight = 0 if len(body) == 1 and isinstance(
            body[0], ast.Return) else 1


class State:
    __slots__ = ('env', 'heap', 'guard', 'dead')

    def __init__(self, env, heap, guard, dead=None):
        self.env, self.heap, self.guard, self.dead = env, heap, guard, dead

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.guard, self.dead)


def assigned_names(stmts):
    r = set()

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            r.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ClassDef, ast.ListComp,
                          ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            r.add(n.id)
        for c in ast.iter_child_nodes(n):
            go(c)
    for s in stmts:
        go(s)
    return r


def assigned_attrs(stmts):
    r = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                r.add(n.attr)
    return r


def always_raises(body):
    if not body:
        return False
    x = body[-1]
    if isinstance(x, ast.If):
        r = always_raises(x.body) and always_raises(x.orelse)
    else:
        r = isinstance(x, ast.Raise)
    return r and not any(isinstance(y, (ast.Return, ast.Break, ast.Continue))
                         for b in body for y in ast.walk(b))


class Evaluator:
    """Evaluates one root function (of class cls, if a method)."""

    def __init__(self, prog, cls=None, subst=None, opaque=(), alt_classes=(),
                 inline=True, types=None, maxdepth=MAXDEPTH):
        self.prog = prog
        self.cls = cls
        self.subst = subst or {}
        self.opaque = set(opaque)
        self.alt_classes = list(alt_classes)
        self.inline = inline
        self.types = types or {}
        self.maxdepth = maxdepth
        self.events = []
        self.uid = 0
        self.value = {}       # call uid -> term
        self.callee = {}      # call uid -> Func
        self.ver = {}         # version id -> term
        self.closures = {}
        self.loops = {}
        self.steps = {}       # (loopid, name) -> step value
        self.loopstack = []
        self.scopes = []
        self.tries = []
        self.frames = []
        self.root_rets = []
        self.birth = {}

    # -------------------------------------------------------------- utils
    def new(self):
        self.uid += 1
        self.birth[self.uid] = tuple(self.loopstack)
        return self.uid

    def emit(self, kind, st, node, **kw):
        if len(self.events) > MAXEVENTS:
            return None
        fr = self.frames[-1]
        e = Ev(kind, guard=st.guard, loops=tuple(self.loopstack),
               seq=len(self.events), frames=tuple(f.name for f in self.frames),
               scopes=tuple(self.scopes), tries=tuple(self.tries), node=node,
               path=fr.path, fname=fr.name, **kw)
        self.events.append(e)
        return e

    # ---------------------------------------------------------------- run
    def run(self, func, selfcls=None):
        """func: Func"""
        st = State({}, {}, True)
        a = func.node.args
        static = func.has_deco('staticmethod')
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for i, n in enumerate(names):
            st.env[n] = ('param', n)
        if func.cls is not None and not static and names:
            st.env[names[0]] = SELF if not func.has_deco('classmethod') \
                else ('param', 'cls')
        if a.vararg:
            st.env[a.vararg.arg] = ('param', a.vararg.arg)
        if a.kwarg:
            st.env[a.kwarg.arg] = ('param', a.kwarg.arg)
        fr = Frame(func, selfcls or self.cls or func.cls, func.cls,
                   func.module, func.qual, func.path)
        self.frames.append(fr)
        nsc = self._push_decos(func.node, st)
        self.block(func.node.body, st)
        if nsc:
            del self.scopes[-nsc:]
        self.root_rets = fr.rets
        self.root_yields = fr.yields
        self.final = st
        return self

    def run_closure(self, cl, parent_env=None):
        node, env, fr0, _ = self.closures[cl[1]]
        st = State(dict(env), {}, True)
        if parent_env:
            for k, v in parent_env.items():
                st.env.setdefault(k, v)
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            st.env[x.arg] = ('param', x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                st.env[x.arg] = ('param', x.arg)
        sub = Evaluator(self.prog, self.cls, self.subst, self.opaque,
                        self.alt_classes, self.inline, self.types,
                        self.maxdepth)
        sub.value, sub.callee, sub.ver = self.value, self.callee, self.ver
        sub.closures, sub.loops, sub.steps = (self.closures, self.loops,
                                              self.steps)
        sub.uid = self.uid + 100000
        fr = Frame(None, fr0.selfcls, fr0.defcls, fr0.module,
                   fr0.name + '.' + getattr(node, 'name', '<lambda>'),
                   fr0.path)
        sub.frames.append(fr)
        if isinstance(node, ast.Lambda):
            v = sub.ex(node.body, st)
            e = sub.emit('return', st, node, value=v)
            fr.rets.append((True, v, e))
        else:
            n = sub._push_decos(node, st)
            sub.block(node.body, st)
        sub.root_rets = fr.rets
        sub.root_yields = fr.yields
        sub.final = st
        self.uid = sub.uid + 1
        return sub

    def _push_decos(self, node, st):
        n = 0
        for d in getattr(node, 'decorator_list', ()):
            c = d.func if isinstance(d, ast.Call) else d
            nm = dotted(c)
            if not nm or nm.split('.')[-1] in (
                    'property', 'staticmethod', 'classmethod',
                    'abstractmethod', 'setter', 'contextmanager', 'wraps',
                    'register_module'):
                continue
            q = self.prog.resolve(self.frames[-1].module, nm)
            t = ('global', q)
            if isinstance(d, ast.Call):
                t = ('call', t, (), (), 0)
            self.scopes.append(t)
            n += 1
        return n

    # -------------------------------------------------------------- block
    def block(self, stmts, st):
        for s in stmts:
            if st.dead:
                return
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise BrokenAnalysis('unsupported statement %s at %s:%d' % (
                    type(s).__name__, self.frames[-1].path, s.lineno))
            m(s, st)

    def s_Pass(self, s, st):
        pass

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.ex(s.value, st)

    def s_Global(self, s, st):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split('.')[0]] = (
                'global', a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s, st):
        base = self.prog._abs(self.frames[-1].module, s)
        for a in s.names:
            st.env[a.asname or a.name] = (
                'global', self.prog.canon(base + '.' + a.name))

    def s_FunctionDef(self, s, st):
        cid = self.new()
        self.closures[cid] = (s, st.env, self.frames[-1], s.name)
        st.env[s.name] = ('closure', cid, s.name)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        st.env[s.name] = ('unk', 'class ' + s.name)

    def s_Assign(self, s, st):
        v = self.ex(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ex(s.value, st), st, s)

    def s_AugAssign(self, s, st):
        op = BIN.get(type(s.op).__name__) and type(s.op).__name__
        if isinstance(s.target, ast.Name):
            old = self.ex(ast.copy_location(
                ast.Name(s.target.id, ast.Load()), s), st)
            v = self.binop(op, old, self.ex(s.value, st))
            # in-place on a list allocation behaves like extend
            if old[0] == 'alloc' and old[1] == 'list' and op == 'Add':
                self.emit('call', st, s, func=('attr', old, 'extend', 0),
                          args=(v[3],), kwargs=(), term=(
                              'call', ('attr', old, 'extend', 0), (v[3],), (),
                              self.new()))
                v = old
            elif old[0] in ('elem', 'param', 'attr', 'sub', 'call'):
                # may change the object itself (tensors, sets, ...)
                self.emit('aug', st, s, base=old, value=v, attr=op, term=v)
            st.env[s.target.id] = v
        elif isinstance(s.target, ast.Attribute):
            b = self.ex(s.target.value, st)
            old = self.attr(b, s.target.attr, st, s)
            v = self.binop(op, old, self.ex(s.value, st))
            self.set_attr(b, s.target.attr, v, st, s)
        else:
            b = self.ex(s.target.value, st)
            i = self.ex(s.target.slice, st)
            old = self.subscript(b, i, st)
            v = self.binop(op, old, self.ex(s.value, st))
            self.set_item(b, i, v, st, s)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.ex(t.value, st)
                self.emit('del', st, s, base=b, attr=t.attr,
                          term=('attr', b, t.attr, 0))
                st.heap.pop((strip(b), t.attr), None)
            elif isinstance(t, ast.Subscript):
                b = self.ex(t.value, st)
                i = self.ex(t.slice, st)
                self.emit('del', st, s, base=b, attr=i,
                          term=('sub', b, i, 0))

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        self.emit('assert', st, s, value=('form', c), term=('form', c))

    def s_Raise(self, s, st):
        t = self.ex(s.exc, st) if s.exc is not None else NONE
        self.emit('raise', st, s, term=t)
        st.dead = 'raise'

    def s_Return(self, s, st):
        v = self.ex(s.value, st) if s.value is not None else NONE
        fr = self.frames[-1]
        e = self.emit('return' if len(self.frames) == 1 else 'ret', st, s,
                      value=v)
        fr.rets.append((f_strip(st.guard, fr.entry), v, e))
        st.dead = 'return'

    def s_Break(self, s, st):
        self.emit('break', st, s)
        if self.loopstack:
            L = self.loops[self.loopstack[-1]]
            L['breaks'].append(st.guard)
            L['exits'].append(('break', st.guard, dict(st.env),
                               dict(st.heap)))
        st.dead = 'break'

    def s_Continue(self, s, st):
        self.emit('continue', st, s)
        if self.loopstack:
            L = self.loops[self.loopstack[-1]]
            L['continues'].append(st.guard)
            L['exits'].append(('continue', st.guard, dict(st.env),
                               dict(st.heap)))
        st.dead = 'continue'

    # ----------------------------------------------------------- branching
    def merge_env(self, c, a, b):
        if a is b:
            return a
        env = {}
        for k in list(a) + [k for k in b if k not in a]:
            x, y = a.get(k, UNDEF), b.get(k, UNDEF)
            env[k] = x if x == y else (
                y if x == UNDEF else x if y == UNDEF else self.ite(c, x, y))
        return env

    def ite(self, c, x, y):
        if c is True:
            return x
        if c is False:
            return y
        if x == y:
            return x
        if c[0] == 'not':
            return ('ite', c[1], y, x)
        return ('ite', c, x, y)

    def merge_heap(self, c, a, b, pre):
        h = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x == y:
                h[k] = x
                continue
            base = ('attr', k[0], k[1], 0) if isinstance(k[1], str) else (
                'sub', k[0], k[1][1], 0)
            xt = self.ver[x] if x else base
            yt = self.ver[y] if y else base
            v = self.new()
            self.ver[v] = self.ite(c, xt, yt)
            h[k] = v
        return h

    def join(self, st, c, a, b):
        """join branch states a (under c) and b (under not c) into st"""
        if a.dead and b.dead:
            st.env, st.heap = a.env, a.heap
            st.guard = False
            order = ['raise', 'continue', 'break', 'return']
            st.dead = max(a.dead, b.dead, key=order.index)
            return
        if a.dead:
            st.env, st.heap = b.env, b.heap
            st.guard = f_strip(b.guard, conj(f_not(c))) if a.dead == 'raise' \
                else b.guard
            return
        if b.dead:
            st.env, st.heap = a.env, a.heap
            st.guard = f_strip(a.guard, conj(c)) if b.dead == 'raise' \
                else a.guard
            return
        pre = st.guard
        st.env = self.merge_env(c, a.env, b.env)
        st.heap = self.merge_heap(c, a.heap, b.heap, st.heap)
        if a.guard == f_and(pre, c) and b.guard == f_and(pre, f_not(c)):
            st.guard = pre
        else:
            st.guard = f_or(a.guard, b.guard)

    def depth(self):
        return sum(f.weight for f in self.frames) if len(
            self.frames) < 24 else len(self.frames)

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        if c is True:
            return self.block(s.body, st)
        if c is False:
            return self.block(s.orelse, st)
        a, b = st.copy(), st.copy()
        a.guard = f_and(st.guard, c)
        b.guard = f_and(st.guard, f_not(c))
        if a.guard is False:
            return self.block(s.orelse, st)
        if b.guard is False:
            return self.block(s.body, st)
        # `if c: raise` guards what follows it, in an else branch or not
        if always_raises(s.body):
            self.block(s.body, a)
            return self.block(s.orelse, st)
        if always_raises(s.orelse):
            self.block(s.orelse, b)
            return self.block(s.body, st)
        self.block(s.body, a)
        self.block(s.orelse, b)
        self.join(st, c, a, b)

    def s_Match(self, s, st):
        raise BrokenAnalysis('match statement unsupported')

    # --------------------------------------------------------------- loops
    def canon_iter(self, it):
        """strip order preserving copies"""
        while it[0] == 'call' and it[1][0] == 'global' and it[1][1] in (
                'list', 'tuple', 'iter') and len(it[2]) == 1 and not it[3]:
            it = it[2][0]
        return it

    def bind_iter(self, it, lid):
        """(canonical iterable, element term) for iterating `it`"""
        it = self.canon_iter(it)
        if it[0] == 'call':
            f, args = it[1], it[2]
            if f[0] == 'global':
                if f[1] == 'enumerate' and args:
                    base, el = self.bind_iter(args[0], lid)
                    start = args[1] if len(args) > 1 else None
                    for n, v in it[3]:
                        if n == 'start':
                            start = v
                    ix = ('idx', lid, base)
                    if start is not None and start != const(0):
                        ix = ('bin', 'Add', ix, start)
                    return base, ('tuple', (ix, el))
                if f[1] == 'zip' and args:
                    bs = [self.bind_iter(a, lid) for a in args]
                    return ('tuple', tuple(b for b, _ in bs)), (
                        'tuple', tuple(e for _, e in bs))
                if f[1] == 'range':
                    a = args
                    hi = a[0] if len(a) == 1 else (
                        a[1] if len(a) == 2 and a[0] == const(0) else None)
                    if hi is not None and hi[0] == 'call' and \
                            hi[1] == ('global', 'len') and len(hi[2]) == 1:
                        base = self.canon_iter(hi[2][0])
                        return base, ('idx', lid, base)
                if f[1] in ('map', 'filter') and len(args) >= 2:
                    pass
            if f[0] == 'attr' and not args and not it[3]:
                b = f[1]
                if f[2] == 'items':
                    k = ('elem', b, lid)
                    return b, ('tuple', (k, ('sub', b, k, 0)))
                if f[2] == 'keys':
                    return b, ('elem', b, lid)
                if f[2] == 'values':
                    return b, ('sub', b, ('elem', b, lid), 0)
        if it[0] == 'call' and it[4] in self.value:
            v = self.value[it[4]]
            if v[0] == 'comp' and v[1] == 'gen' and len(v[3]) == 1:
                return self.bind_iter(v, lid)
        if it[0] == 'comp' and len(it[3]) == 1 and it[1] != 'dict':
            l0 = it[3][0]
            sub = lambda x: tmap(x, lambda y: (
                ('elem', y[1], lid) if y[0] == 'elem' and y[2] == l0 else
                ('idx', lid, y[2]) if y[0] == 'idx' and y[1] == l0 else y))
            self._fuse_guard = f_map(it[4], sub)
            return self.loops[l0]['iter'], sub(it[2])
        return it, ('elem', it, lid)

    def open_loop(self, kind, it_term, cond=None, node=None, target=None):
        lid = self.new()
        self._fuse_guard = True
        L = dict(kind=kind, iter=None, cond=cond, breaks=[], continues=[],
                 exits=[],
                 node=node, raw=it_term, parent=self.loopstack[-1]
                 if self.loopstack else None)
        self.loops[lid] = L
        el = None
        if it_term is not None:
            base, el = self.bind_iter(it_term, lid)
            L['iter'] = base
            L['fuse'] = self._fuse_guard
            self._fuse_guard = True
        return lid, el

    def loop_body(self, lid, body, st, names, attrs, bind=None, node=None):
        pre = st.guard
        init = {}
        for n in names:
            if n in st.env and not (bind and n in bind):
                init[n] = st.env[n]
                st.env[n] = ('loopvar', n, lid, init[n])
        for k in [k for k in st.heap if k[1] in attrs]:
            # unknown at loop head
            st.heap.pop(k)
        body_st = st.copy()
        if self.loops[lid].get('fuse', True) is not True:
            body_st.guard = f_and(pre, self.loops[lid]['fuse'])
        self.loopstack.append(lid)
        try:
            body(body_st)
        finally:
            self.loopstack.pop()
        ret = [r for r in self.frames[-1].rets
               if r[2] is not None and lid in r[2].loops]
        for n, iv in init.items():
            lv = ('loopvar', n, lid, iv)
            step = self.exit_values(lid, n, body_st.env.get(n, UNDEF), pre,
                                    lv)
            self.steps[(lid, n)] = step
            if step == lv:
                st.env[n] = iv
            else:
                acc = self.as_acc(step, lv, lid)
                st.env[n] = acc if acc is not None else (
                    'loopvar', n, lid, iv)
                self.steps[(lid, n)] = step
        for k, v in body_st.env.items():
            if k not in init and k not in st.env:
                st.env[k] = v
            elif k not in init and bind and k in bind:
                st.env[k] = v
        for kind, g, env, heap in self.loops[lid]['exits']:
            for k, v in env.items():
                if k not in st.env:
                    st.env[k] = v
            for k, v in heap.items():
                if k not in st.heap and k not in body_st.heap:
                    st.heap[k] = v
        # heap after loop: body's writes may or may not have happened
        for k, v in body_st.heap.items():
            if st.heap.get(k) != v:
                st.heap[k] = v
        st.guard = pre
        if ret:
            st.guard = f_and(pre, ('not', ('atom', ('loopret', lid))))

    def exit_values(self, lid, n, step, pre, lv):
        """value of a variable after one pass, left by whatever exit; a
        break that left it alone adds nothing"""
        for kind, g, env, heap in reversed(self.loops[lid]['exits']):
            v = env.get(n, UNDEF)
            if v == step or kind == 'break' and v == lv:
                continue
            c = f_strip(g, conj(pre))
            step = v if c is True else self.ite(c, v, step)
        return step

    def as_acc(self, step, lv, lid):
        if step[0] == 'bin' and step[2] == lv:
            return ('acc', step[1], lv[3], step[3], lid)
        if step[0] == 'bin' and step[3] == lv and step[1] in ('Add', 'Mult'):
            return ('acc', step[1], lv[3], step[2], lid)
        return None

    def s_For(self, s, st):
        it = self.ex(s.iter, st)
        self.emit('iter', st, s, term=it)
        lid, el = self.open_loop('for', it, node=s)
        names = assigned_names(s.body)
        tn = assigned_names([s.target])
        attrs = assigned_attrs(s.body)

        def body(bst):
            self.assign(s.target, el, bst, s)
            self.block(s.body, bst)
        self.loop_body(lid, body, st, names | tn, attrs, tn, s)
        if s.orelse:
            self.block(s.orelse, st)

    s_AsyncFor = s_For

    def s_While(self, s, st):
        names = assigned_names(s.body)
        attrs = assigned_attrs(s.body)
        # recognise index loops: i = 0; while i < len(xs): ...; i += 1
        idxname, base = None, None
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(
                t.left, ast.Name) and st.env.get(t.left.id) == const(0):
            n = t.left.id
            hi = t.comparators[0]
            hv = self.ex(hi, st.copy()) if not any(
                isinstance(x, ast.Call) and not (
                    isinstance(x.func, ast.Name) and x.func.id == 'len')
                for x in ast.walk(hi)) else None
            incs = [x for y in s.body for x in ast.walk(y) if isinstance(
                x, (ast.AugAssign, ast.Assign)) and any(
                isinstance(z, ast.Name) and z.id == n and isinstance(
                    z.ctx, ast.Store) for z in ast.walk(x))]
            if hv is not None and hv[0] == 'call' and \
                    hv[1] == ('global', 'len') and len(incs) == 1 and \
                    incs[0] in s.body:
                idxname, base = n, self.canon_iter(hv[2][0])
                self.events = [e for e in self.events]
        lid, _ = self.open_loop('while', None, node=s)
        L = self.loops[lid]
        if idxname:
            L['iter'] = base
            L['kind'] = 'for'

            def body(bst):
                bst.env[idxname] = ('idx', lid, base)
                self.block(s.body, bst)
            self.loop_body(lid, body, st, names - {idxname}, attrs, None, s)
            st.env[idxname] = ('call', ('global', 'len'), (base,), (), 0)
        else:
            def body(bst):
                c = self.cond(s.test, bst)
                L['cond'] = c
                if c is not True:
                    self.emit('while', bst, s, term=('form', c))
                self.block(s.body, bst)
            self.loop_body(lid, body, st, names, attrs, None, s)
        if s.orelse:
            self.block(s.orelse, st)

    # ------------------------------------------------------------ try/with
    def s_Try(self, s, st):
        tid = self.new()
        pre = st.copy()
        self.tries.append((tid, 'body' + ('+f' if s.finalbody else '') + (
            '+h' if s.handlers else '')))
        body = st.copy()
        self.block(s.body, body)
        self.tries.pop()
        if not body.dead and s.orelse:
            self.tries.append((tid, 'else'))
            self.block(s.orelse, body)
            self.tries.pop()
        res = [(None, body)]
        for i, h in enumerate(s.handlers):
            hst = State(self.merge_env(('atom', ('exc', tid, i)), pre.env,
                                       body.env), dict(pre.heap), pre.guard)
            ty = self.ex(h.type, hst) if h.type is not None else (
                'global', 'BaseException')
            atom = ('atom', ('exc', tid, show(ty)))
            hst.guard = f_and(pre.guard, atom)
            if h.name:
                hst.env[h.name] = ('unk', 'exc')
            self.tries.append((tid, 'handler'))
            self.emit('except', hst, h, term=ty)
            self.block(h.body, hst)
            self.tries.pop()
            res.append((atom, hst))
        live = [(a, r) for a, r in res if not r.dead]
        if not live:
            out = res[0][1]
            order = ['raise', 'continue', 'break', 'return']
            dead = max((r.dead for _, r in res), key=order.index)
        else:
            out = live[0][1]
            dead = None
            for a, r in live[1:]:
                n = State({}, {}, pre.guard)
                n.env = self.merge_env(a, r.env, out.env)
                n.heap = self.merge_heap(a, r.heap, out.heap, pre.heap)
                n.guard = pre.guard if (not body.dead) else f_or(
                    out.guard, r.guard)
                out = n
            if len(live) == 1 and live[0][0] is None:
                pass
        st.env, st.heap = out.env, out.heap
        st.guard = out.guard if live else pre.guard
        st.dead = None
        if s.finalbody:
            self.tries.append((tid, 'final'))
            self.block(s.finalbody, st)
            self.tries.pop()
        if dead and not st.dead:
            st.dead = dead

    s_TryStar = s_Try

    def s_With(self, s, st, i=0):
        if i == len(s.items):
            return self.block(s.body, st)
        item = s.items[i]
        ctx = self.ex(item.context_expr, st)
        # project @contextmanager generator: expand around the body
        cal = self.callee.get(ctx[4]) if ctx[0] == 'call' else None
        node = None
        if ctx[0] == 'call':
            f = ctx[1]
            if f[0] == 'closure':
                node = self.closures[f[1]][0]
            elif cal is not None:
                node = cal.node
            if node is not None and not any(
                    (dotted(d.func if isinstance(d, ast.Call) else d) or ''
                     ).endswith('contextmanager')
                    for d in getattr(node, 'decorator_list', ())):
                node = None
        if node is not None and self.depth() < self.maxdepth and \
                not self._on_stack(node):
            def cont(yv, yst_env_owner):
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, yv, st, s)
                self.s_With(s, st, i + 1)
            self.expand_cm(node, ctx, st, s, cont)
            return
        self.emit('enter', st, s, term=ctx)
        if item.optional_vars is not None:
            self.assign(item.optional_vars, ('entered', ctx), st, s)
        self.scopes.append(ctx)
        try:
            self.s_With(s, st, i + 1)
        finally:
            self.scopes.pop()
        d, st.dead = st.dead, None
        self.emit('exit', st, s, term=ctx)
        st.dead = d

    s_AsyncWith = s_With

    def expand_cm(self, node, ctx, st, s, cont):
        """run generator body; at its (first) yield run the with body"""
        if ctx[1][0] == 'closure':
            _, cenv, fr0, nm = self.closures[ctx[1][1]]
            fr = Frame(None, fr0.selfcls, fr0.defcls, fr0.module,
                       fr0.name + '.' + nm, fr0.path)
            env = dict(cenv)
        else:
            cal = self.callee[ctx[4]]
            fr = Frame(cal, self._selfcls_for(cal), cal.cls, cal.module,
                       cal.qual, cal.path)
            env = {}
        self.bind_params(node, env, ctx, fr, st)
        outer = st.env
        caller_frame = self.frames[-1]
        done = []

        def on_yield(v, gst):
            if done:
                return
            done.append(1)
            genenv = gst.env
            gst.env = outer
            popped = self.frames.pop()
            saved = (st.heap, st.guard, st.dead)
            st.env, st.heap, st.guard = gst.env, gst.heap, gst.guard
            self.scopes.append(ctx)
            cont(v, gst)
            self.scopes.pop()
            self.frames.append(popped)
            on_yield.out_env = st.env
            on_yield.dead = st.dead
            gst.heap = st.heap
            gst.env = genenv
            st.dead = None
        on_yield.out_env = outer
        on_yield.dead = None
        gst = State(env, st.heap, st.guard)
        fr.entry = conj(st.guard)
        fr.on_yield = on_yield
        self.emit('enter', st, s, term=ctx)
        self.frames.append(fr)
        self.block(node.body, gst)
        self.frames.pop()
        st.env = on_yield.out_env
        st.heap = gst.heap
        self.emit('exit', st, s, term=ctx)
        st.dead = on_yield.dead

    # -------------------------------------------------------------- assign
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = None
            vv = v
            if vv[0] == 'call' and vv[4] in self.value:
                vv = self.value[vv[4]]
            if vv[0] == 'tuple' or (vv[0] == 'alloc' and vv[1] == 'list'):
                its = vv[1] if vv[0] == 'tuple' else vv[2]
                if len(its) == len(t.elts) and not any(
                        x[0] == 'star' for x in its) and not any(
                        isinstance(x, ast.Starred) for x in t.elts):
                    items = list(its)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, ('unk', 'rest', v), st, node)
                else:
                    x = items[i] if items is not None else self.subscript(
                        v, const(i), st)
                    self.assign(e, x, st, node)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ex(t.value, st), t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            self.set_item(self.ex(t.value, st), self.ex(t.slice, st), v, st,
                          node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def set_attr(self, b, attr, v, st, node):
        self.emit('setattr', st, node, base=b, attr=attr, value=v)
        if isinstance(attr, str):
            if b == SELF and self.inline and self.frames[-1].selfcls:
                f = self.lookup_setter(attr)
                if f is not None and not self._on_stack(f.node) and \
                        self.depth() < self.maxdepth and \
                        attr not in self.opaque:
                    self.inline_call(f.node, f, ('call', ('attr', b, attr, 0),
                                                 (v,), (), self.new()),
                                     st, node, bound=b)
                    return
            ver = self.new()
            self.ver[ver] = v
            st.heap[(strip(b), attr)] = ver

    def set_item(self, b, i, v, st, node):
        self.emit('setitem', st, node, base=b, attr=i, value=v)
        if i[0] == 'const':
            ver = self.new()
            self.ver[ver] = v
            st.heap[(strip(b), ('[]', i))] = ver

    def lookup_setter(self, name):
        for c in self._self_classes():
            f = self.prog.lookup_setter(c, name)
            if f is not None:
                return f
        return None

    def _self_classes(self):
        fr = self.frames[-1]
        r = [fr.selfcls] if fr.selfcls else []
        return r + [c for c in self.alt_classes if c is not None]

    def _selfcls_for(self, func):
        return self.frames[-1].selfcls if func.cls is None or (
            self.frames[-1].selfcls is not None and any(
                k is func.cls for c in self._self_classes()
                for k in self.prog.mro(c))) else func.cls

    # --------------------------------------------------------- expressions
    def ex(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return ('unk', type(n).__name__)
        return m(n, st)

    def e_Constant(self, n, st):
        return const(n.value)

    def e_Name(self, n, st):
        if n.id in st.env:
            return st.env[n.id]
        fr = self.frames[-1]
        q = self.prog.resolve(fr.module, n.id)
        if q == n.id and n.id not in BUILTINS:
            # maybe a variable of an enclosing function defined later
            pass
        # module level constant
        if q == fr.module.name + '.' + n.id:
            v = fr.module.assigns.get(n.id)
            if isinstance(v, ast.Constant):
                return const(v.value)
        return ('global', q)

    def e_Attribute(self, n, st):
        b = self.ex(n.value, st)
        return self.attr(b, n.attr, st, n)

    def attr(self, b, name, st, node=None):
        if b[0] == 'global':
            return ('global', self.prog.canon(b[1] + '.' + name))
        key = (strip(b), name)
        ver = st.heap.get(key, 0)
        if name == 'training' and ver and self.ver[ver][0] == 'const':
            return self.ver[ver]
        t = ('attr', b, name, ver)
        s = self.subst.get(show(t))
        if s is not None:
            return s
        sup = b[0] == 'call' and b[1] == ('global', 'super')
        if not ver and self.inline and (b == SELF or sup) and \
                self.frames[-1].selfcls is not None and \
                name not in self.opaque:
            f = None
            dc = self.frames[-1].defcls
            for c in self._self_classes():
                if not sup:
                    f = self.prog.lookup(c, name)
                elif dc is not None and dc in self.prog.mro(c):
                    f = self.prog.lookup(c, name, after=dc)
                if f is not None:
                    break
            if sup:
                b = st.env.get('self') or SELF
            if f is not None and f.has_deco('property') and \
                    not f.has_deco('abstractmethod') and \
                    not self._on_stack(f.node) and \
                    self.depth() < self.maxdepth:
                call = ('call', t, (), (), self.new())
                v = self.inline_call(f.node, f, call, st, node, bound=b)
                if v is not None:
                    nv = self.new()
                    self.ver[nv] = v
                    return ('attr', b, name, nv)
        return t

    def e_Subscript(self, n, st):
        return self.subscript(self.ex(n.value, st), self.ex(n.slice, st), st)

    def subscript(self, b, i, st):
        if i[0] == 'idx':
            return ('elem', b, i[1])
        if b[0] == 'tuple' and i[0] == 'const' and isinstance(i[1], int) and \
                not any(x[0] == 'star' for x in b[1]) and \
                -len(b[1]) <= i[1] < len(b[1]):
            return b[1][i[1]]
        if b[0] == 'call' and i[0] == 'const' and b[4] in self.value:
            v = self.value[b[4]]
            while v[0] == 'call' and v[4] in self.value:
                v = self.value[v[4]]
            if v[0] == 'tuple' and isinstance(i[1], int) and \
                    -len(v[1]) <= i[1] < len(v[1]):
                return v[1][i[1]]
        if i[0] == 'const':
            ver = st.heap.get((strip(b), ('[]', i)), 0)
            if not ver and b[0] == 'alloc' and b[1] == 'dict':
                for k, v in b[2]:
                    if k == i:
                        return v
            return ('sub', b, i, ver)
        return ('sub', b, i, 0)

    def e_Slice(self, n, st):
        return ('slice',) + tuple(
            self.ex(x, st) if x is not None else NONE
            for x in (n.lower, n.upper, n.step))

    def e_Index(self, n, st):
        return self.ex(n.value, st)

    def e_Tuple(self, n, st):
        return ('tuple', tuple(self.ex(x, st) for x in n.elts))

    def e_List(self, n, st):
        return ('alloc', 'list', tuple(self.ex(x, st) for x in n.elts),
                self.new())

    def e_Set(self, n, st):
        return ('alloc', 'set', tuple(self.ex(x, st) for x in n.elts),
                self.new())

    def e_Dict(self, n, st):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                items.append((('star', NONE), self.ex(v, st)))
            else:
                items.append((self.ex(k, st), self.ex(v, st)))
        return ('alloc', 'dict', tuple(items), self.new())

    def e_Starred(self, n, st):
        return ('star', self.ex(n.value, st))

    def e_JoinedStr(self, n, st):
        ps = []
        for v in n.values:
            x = self.ex(v, st)
            if x[0] == 'fstr':
                ps.extend(x[1])
            else:
                ps.append(x)
        return ('fstr', tuple(ps))

    def e_FormattedValue(self, n, st):
        return self.ex(n.value, st)

    def e_BinOp(self, n, st):
        a = self.ex(n.left, st)
        b = self.ex(n.right, st)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        # string formatting / concatenation -> fstr
        def isstr(x):
            return x[0] == 'fstr' or (x[0] == 'const' and
                                      isinstance(x[1], str))
        if op == 'Add' and (isstr(a) or isstr(b)):
            pa = a[1] if a[0] == 'fstr' else (a,)
            pb = b[1] if b[0] == 'fstr' else (b,)
            if len(pa) == 1 and len(pb) == 1 and pa[0][0] == pb[0][0] == \
                    'const':
                return const(pa[0][1] + pb[0][1])
            return ('fstr', pa + pb)
        if a[0] == 'const' and b[0] == 'const' and all(
                type(x[1]) in (int, float) for x in (a, b)):
            try:
                r = {'Add': lambda: a[1] + b[1], 'Sub': lambda: a[1] - b[1],
                     'Mult': lambda: a[1] * b[1]}[op]()
                return const(r)
            except Exception:
                pass
        return ('bin', op, a, b)

    def e_UnaryOp(self, n, st):
        x = self.ex(n.operand, st)
        o = type(n.op).__name__
        if o == 'Not':
            return ('form', f_not(self.formula(x)))
        if o == 'USub' and x[0] == 'const' and isinstance(x[1], (int, float)):
            return const(-x[1])
        return ('un', o, x)

    def e_BoolOp(self, n, st):
        op = 'and' if isinstance(n.op, ast.And) else 'or'
        items = []
        cur = st.guard
        for v in n.values:
            x = self.ex(v, st)
            items.append(x)
            c = self.formula(x)
            st.guard = f_and(st.guard, c if op == 'and' else f_not(c))
            if st.guard is False:
                break
        st.guard = cur
        return ('boolop', op, tuple(items))

    def e_Compare(self, n, st):
        l = self.ex(n.left, st)
        fs = []
        for o, r in zip(n.ops, n.comparators):
            rt = self.ex(r, st)
            fs.append(self.cmp(type(o).__name__, l, rt))
            l = rt
        return ('form', f_and(*fs)) if fs else l

    def cmp(self, o, a, b):
        A = lambda op, x, y: ('atom', ('cmp', op, x, y))
        if a[0] == 'const' and b[0] == 'const' and o in (
                'Eq', 'NotEq', 'Is', 'IsNot'):
            r = a[1] == b[1]
            return r if o in ('Eq', 'Is') else not r
        if o == 'Lt':
            return A('<', a, b)
        if o == 'Gt':
            return A('<', b, a)
        if o == 'LtE':
            return f_not(A('<', b, a))
        if o == 'GtE':
            return f_not(A('<', a, b))
        if o == 'Eq':
            return A('==', a, b)
        if o == 'NotEq':
            return f_not(A('==', a, b))
        if o == 'Is':
            return A('is', a, b)
        if o == 'IsNot':
            return f_not(A('is', a, b))
        if o == 'In':
            return A('in', a, b)
        return f_not(A('in', a, b))

    def formula(self, t):
        if t[0] == 'form':
            return t[1]
        if t[0] == 'const':
            return bool(t[1])
        if t[0] == 'boolop':
            fs = [self.formula(x) for x in t[2]]
            return f_and(*fs) if t[1] == 'and' else f_or(*fs)
        if t[0] == 'call' and t[1] == ('global', 'bool') and len(t[2]) == 1:
            return self.formula(t[2][0])
        if t[0] == 'call' and t[4] in self.value:
            v = self.value[t[4]]
            if v[0] in ('form', 'boolop') or (
                    v[0] == 'const' and isinstance(v[1], bool)):
                return self.formula(v)
            if v[0] == 'ite' and all(
                    x[0] in ('form', 'boolop', 'ite', 'const')
                    for x in v[2:]):
                return self.formula(v)
        if t[0] == 'ite' and t[1][0] == 'atom' and t[3][0] == 'const' and \
                not t[3][1] and t[2][0] == 'attr':
            # getattr(x, 'a', falsy): truthy iff x.a is truthy
            c = t[1][1]
            if c[0] == 'call' and c[1] == ('global', 'hasattr') and \
                    len(c[2]) == 2 and c[2][1] == ('const', t[2][2]) and \
                    strip(c[2][0]) == strip(t[2][1]):
                return ('atom', t[2])
        if t[0] == 'ite' and (t[2][0] in ('form', 'const', 'boolop') or
                              t[3][0] in ('form', 'const', 'boolop')):
            a, b = self.formula(t[2]), self.formula(t[3])
            return f_or(f_and(t[1], a), f_and(f_not(t[1]), b))
        return ('atom', t)

    def cond(self, n, st):
        return self.formula(self.ex(n, st))

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        cur = st.guard
        st.guard = f_and(cur, c)
        a = self.ex(n.body, st) if st.guard is not False else UNDEF
        st.guard = f_and(cur, f_not(c))
        b = self.ex(n.orelse, st) if st.guard is not False else UNDEF
        st.guard = cur
        return self.ite(c, a, b)

    def e_NamedExpr(self, n, st):
        v = self.ex(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Lambda(self, n, st):
        cid = self.new()
        self.closures[cid] = (n, st.env, self.frames[-1], '<lambda>')
        return ('closure', cid, '<lambda>')

    def e_Await(self, n, st):
        return self.ex(n.value, st)

    def e_Yield(self, n, st):
        v = self.ex(n.value, st) if n.value is not None else NONE
        fr = self.frames[-1]
        e = self.emit('yield', st, n, value=v)
        fr.yields.append((f_strip(st.guard, fr.entry), v, e))
        cb = getattr(fr, 'on_yield', None)
        if cb:
            cb(v, st)
        return ('unk', 'sent')

    def e_YieldFrom(self, n, st):
        v = self.ex(n.value, st)
        fr = self.frames[-1]
        e = self.emit('yield', st, n, value=('star', v))
        fr.yields.append((f_strip(st.guard, fr.entry), ('star', v), e))
        return ('unk', 'yieldfrom')

    def comp(self, n, st, kind):
        saved = dict(st.env)
        lids = []
        conds = []
        cur = st.guard

        def go(i):
            if i == len(n.generators):
                if kind == 'dict':
                    return (self.ex(n.key, st), self.ex(n.value, st))
                return self.ex(n.elt, st)
            g = n.generators[i]
            it = self.ex(g.iter, st)
            lid, el = self.open_loop('comp', it, node=n)
            lids.append(lid)
            self.loopstack.append(lid)
            fg = self.loops[lid].get('fuse', True)
            if fg is not True:
                conds.append(fg)
                st.guard = f_and(st.guard, fg)
            self.assign(g.target, el, st, n)
            for c in g.ifs:
                f = self.cond(c, st)
                conds.append(f)
                st.guard = f_and(st.guard, f)
            r = go(i + 1)
            self.loopstack.pop()
            return r
        e = go(0)
        st.guard = cur
        st.env.clear()
        st.env.update(saved)
        return ('comp', kind, e, tuple(lids), f_and(*conds), self.new())

    def e_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    def e_SetComp(self, n, st):
        return self.comp(n, st, 'set')

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, 'gen')

    def e_DictComp(self, n, st):
        return self.comp(n, st, 'dict')

    # --------------------------------------------------------------- calls
    def e_Call(self, n, st):
        f = self.ex(n.func, st) if not (
            isinstance(n.func, ast.Attribute)) else None
        if f is None:
            b = self.ex(n.func.value, st)
            if b[0] == 'global':
                f = self.attr(b, n.func.attr, st, n)
            else:
                ver = st.heap.get((strip(b), n.func.attr), 0)
                f = ('attr', b, n.func.attr, ver)
                s = self.subst.get(show(f))
                if s is not None:
                    f = s
        args = []
        for a in n.args:
            x = self.ex(a, st)
            if x[0] == 'star' and x[1][0] == 'tuple':
                args.extend(x[1][1])
            elif x[0] == 'star' and x[1][0] == 'alloc' and \
                    x[1][1] == 'list' and x[1][2] and not any(
                        y[0] == 'star' for y in x[1][2]):
                args.extend(x[1][2])
            else:
                args.append(x)
        kwargs = []
        for k in n.keywords:
            v = self.ex(k.value, st)
            if k.arg is None and v[0] == 'alloc' and v[1] == 'dict' and all(
                    kk[0] == 'const' and isinstance(kk[1], str)
                    for kk, _ in v[2]) and v[2]:
                kwargs.extend((kk[1], vv) for kk, vv in v[2])
                # later d['k'] = v writes
            else:
                kwargs.append((k.arg, v))
        return self.call(f, tuple(args), tuple(kwargs), st, n)

    def call(self, f, args, kwargs, st, node):
        # unwrap partial
        if f[0] == 'partial':
            return self.call(f[1], f[2] + args, f[3] + kwargs, st, node)
        if f[0] == 'global':
            g = f[1]
            if g in ('functools.partial', 'partial') and args:
                return ('partial', args[0], args[1:], kwargs)
            if g == 'setattr' and len(args) == 3:
                at = args[1]
                self.set_attr(args[0], at[1] if at[0] == 'const' and
                              isinstance(at[1], str) else at, args[2], st,
                              node)
                return NONE
            if g == 'getattr' and len(args) in (2, 3) and \
                    args[1][0] == 'const' and isinstance(args[1][1], str):
                t = self.attr(args[0], args[1][1], st, node)
                if len(args) == 2:
                    return t
                return ('ite', ('atom', ('call', ('global', 'hasattr'),
                                         (args[0], args[1]), (), 0)),
                        t, args[2])
            if g == 'getattr' and len(args) >= 2:
                return ('attr', args[0], args[1], 0)
            if g == 'delattr' and len(args) == 2:
                at = args[1]
                nm = at[1] if at[0] == 'const' else at
                self.emit('del', st, node, base=args[0], attr=nm,
                          term=('attr', args[0], nm, 0))
                st.heap.pop((strip(args[0]), nm), None)
                return NONE
            if g == 'dict' and not args and kwargs and all(
                    k for k, _ in kwargs):
                return ('alloc', 'dict', tuple((const(k), v)
                                               for k, v in kwargs),
                        self.new())
            if g in ('list', 'dict', 'set', 'collections.OrderedDict',
                     'collections.deque') and not args and not kwargs:
                k = {'collections.OrderedDict': 'dict',
                     'collections.deque': 'list'}.get(g, g)
                return ('alloc', k, (), self.new())
            if g == 'map' and len(args) == 2 and not kwargs:
                lid, el = self.open_loop('comp', args[1], node=node)
                self.loopstack.append(lid)
                v = self.call(args[0], (el,), (), st, node)
                self.loopstack.pop()
                return ('comp', 'gen', v, (lid,),
                        self.loops[lid].get('fuse', True), self.new())
            if g == 'filter' and len(args) == 2:
                lid, el = self.open_loop('comp', args[1], node=node)
                self.loopstack.append(lid)
                c = self.formula(el if args[0] == NONE else self.call(
                    args[0], (el,), (), st, node))
                self.loopstack.pop()
                return ('comp', 'gen', el, (lid,), f_and(
                    self.loops[lid].get('fuse', True), c), self.new())
        # string join/format
        if f[0] == 'attr' and f[2] == 'format' and (
                f[1][0] == 'const' and isinstance(f[1][1], str)):
            t = ('fstr', (f[1],) + args + tuple(v for _, v in kwargs))
            return t
        uid = self.new()
        t = ('call', f, args, kwargs, uid)
        node_, func, bound = self.target(f, st)
        self.emit('call', st, node, func=f, args=args, kwargs=kwargs, term=t,
                  callee=func)
        if func is not None:
            self.callee[uid] = func
        if node_ is not None and self.inline and \
                not self._on_stack(node_) and \
                self.depth() < self.maxdepth and \
                len(self.events) < MAXEVENTS:
            nm = getattr(node_, 'name', '<lambda>')
            if nm not in self.opaque and not (
                    func is not None and func.has_deco('abstractmethod')):
                isgen = not isinstance(node_, ast.Lambda) and Func(
                    nm, nm, node_, self.frames[-1].module, None).is_generator \
                    if True else False
                if isgen and any((dotted(d) or '').endswith('contextmanager')
                                 for d in node_.decorator_list):
                    return t
                v = self.inline_call(node_, func, t, st, node, bound, isgen,
                                     closure=f if f[0] == 'closure' else None)
                if v is not None:
                    self.value[uid] = v
        # nn.Module.train / eval write the mode
        if f[0] == 'attr' and f[2] in ('eval', 'train') and func is None \
                and len(args) + len(kwargs) <= (f[2] == 'train'):
            ver = self.new()
            self.ver[ver] = const(False) if f[2] == 'eval' else (
                args[0] if args else kwargs[0][1] if kwargs else const(True))
            st.heap[(strip(f[1]), 'training')] = ver
        # known attribute-invalidating container methods
        if f[0] == 'attr' and f[2] in ('update', 'pop', 'clear',
                                       'setdefault'):
            sb = strip(f[1])
            for k in [k for k in st.heap if k[0] == sb and
                      isinstance(k[1], tuple)]:
                if f[2] in ('clear', 'update') or (
                        args and k[1][1] == args[0]):
                    st.heap.pop(k)
        return t

    def _on_stack(self, node):
        return any(f.func is not None and f.func.node is node or
                   getattr(f, 'node', None) is node for f in self.frames)

    def target(self, f, st):
        """-> (ast node to inline, Func or None, bound self term or None)"""
        fr = self.frames[-1]
        if f[0] == 'closure':
            return self.closures[f[1]][0], None, None
        if f[0] == 'global':
            q = f[1]
            if not q.startswith(PKG + '.'):
                return None, None, None
            fn = self.prog.get_func(q)
            if fn is None:
                return None, None, None
            bound = None
            if fn.cls is not None:
                if fn.has_deco('classmethod'):
                    bound = ('global', q.rpartition('.')[0])
            return fn.node, fn, bound
        if f[0] == 'attr' and isinstance(f[2], str):
            b, name = f[1], f[2]
            if f[3] and self.ver.get(f[3], NONE)[0] == 'closure':
                return self.target(self.ver[f[3]], st)
            for _ in range(8):  # methods which return self
                v = self.value.get(b[4]) if b[0] == 'call' else None
                if v is None or v[0] != 'call' and v != SELF:
                    break
                b = v
            if b == SELF or b == ('param', 'cls'):
                for c in self._self_classes():
                    fn = self.prog.lookup(c, name)
                    if fn is not None:
                        return fn.node, fn, b
                return None, None, None
            if b[0] == 'call' and b[1] == ('global', 'super'):
                sc, dc = fr.selfcls, fr.defcls
                if sc is None or dc is None:
                    return None, None, None
                fn = None
                for c in self._self_classes():
                    if dc in self.prog.mro(c):
                        fn = self.prog.lookup(c, name, after=dc)
                        break
                if fn is None:
                    return None, None, None
                return fn.node, fn, SELF if st.env.get('self') is None else \
                    st.env['self']
            if b[0] == 'call' and b[1][0] == 'global' and \
                    b[1][1].startswith(PKG + '.'):
                c = self.prog.get_class(b[1][1])
                if c is not None:
                    fn = self.prog.lookup(c, name)
                    if fn is not None:
                        return fn.node, fn, b
            tq = self.types.get(show(b))
            if tq is not None:
                c = tq if isinstance(tq, Class) else self.prog.get_class(tq)
                if c is not None:
                    fn = self.prog.lookup(c, name)
                    if fn is not None:
                        return fn.node, fn, b
        return None, None, None

    def bind_params(self, node, env, call, fr, st, bound=None):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(call[2])
        kw = dict((k, v) for k, v in call[3] if k is not None)
        dstar = [v for k, v in call[3] if k is None]
        if bound is not None and pos:
            args = [bound] + args
        star = [x for x in args if x[0] == 'star']
        used = 0
        for i, p in enumerate(pos):
            if i < len(args) and args[i][0] != 'star' and not any(
                    x[0] == 'star' for x in args[:i]):
                env[p] = args[i]
                used = i + 1
            elif p in kw:
                env[p] = kw.pop(p)
            else:
                d = i - (len(pos) - len(a.defaults))
                if star and len(args) - len(star) <= i:
                    env[p] = ('sub', star[0][1], const(i - used), 0)
                elif dstar:
                    env[p] = ('sub', dstar[0], const(p), 0)
                elif d >= 0:
                    self.frames.append(fr)
                    env[p] = self.ex(a.defaults[d], State({}, {}, True))
                    self.frames.pop()
                else:
                    env[p] = ('unk', 'missing arg ' + p)
        for p, dflt in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif dstar:
                env[p.arg] = ('sub', dstar[0], const(p.arg), 0)
            elif dflt is not None:
                self.frames.append(fr)
                env[p.arg] = self.ex(dflt, State({}, {}, True))
                self.frames.pop()
            else:
                env[p.arg] = ('unk', 'missing arg ' + p.arg)
        if a.vararg:
            rest = args[used:] if used <= len(args) else []
            if len(rest) == 1 and rest[0][0] == 'star':
                env[a.vararg.arg] = rest[0][1]
            else:
                env[a.vararg.arg] = ('tuple', tuple(rest))
        if a.kwarg:
            if not kw and len(dstar) == 1:
                env[a.kwarg.arg] = dstar[0]
            else:
                env[a.kwarg.arg] = ('alloc', 'dict', tuple(
                    (const(k), v) for k, v in kw.items()) + tuple(
                    (('star', NONE), v) for v in dstar), self.new())

    def inline_call(self, node, func, call, st, cnode, bound=None,
                    isgen=False, closure=None):
        cur = self.frames[-1]
        if closure is not None:
            _, cenv, fr0, nm = self.closures[closure[1]]
            fr = Frame(None, fr0.selfcls, fr0.defcls, fr0.module,
                       fr0.name + '.' + nm, fr0.path)
            env = dict(cenv)
            if cenv is not st.env and fr0 is cur:
                env = dict(st.env)      # late binding in the same frame
        else:
            scls = func.cls
            if bound == SELF or bound == ('param', 'cls'):
                for c in self._self_classes():
                    if func.cls in self.prog.mro(c):
                        scls = c
                        break
            elif bound is not None and bound[0] == 'call':
                scls = self.prog.get_class(bound[1][1]) or func.cls
            elif bound is not None and bound[0] == 'global':
                scls = self.prog.get_class(bound[1]) or func.cls
            elif bound is None and func.cls is not None and cur.selfcls and \
                    func.cls in self.prog.mro(cur.selfcls):
                scls = cur.selfcls      # Class.method(self, ...)
            fr = Frame(func, scls, func.cls, func.module, func.qual,
                       func.path)
            env = {}
            if func.has_deco('staticmethod'):
                bound = None
        fr.node = node
        self.bind_params(node, env, call, fr, st, bound)
        # bound self of a foreign object: `self` inside is that object
        fr.entry = conj(st.guard)
        ist = State(env, st.heap, st.guard)
        self.frames.append(fr)
        nsc = self._push_decos(node, ist)
        if isinstance(node, ast.Lambda):
            v = self.ex(node.body, ist)
            fr.rets.append((True, v, None))
        else:
            self.block(node.body, ist)
        if nsc:
            del self.scopes[-nsc:]
        self.frames.pop()
        st.heap = ist.heap
        if ist.dead == 'raise' and not fr.rets:
            st.dead = st.dead      # callers continue: abnormal path
        if isgen:
            if len(fr.yields) == 1:
                g, v, e = fr.yields[0]
                own = tuple(l for l in e.loops if l not in self.loopstack)
                return ('comp', 'gen', v, own, g, self.new())
            return ('unk', 'gen')
        return self.ret_value(fr, ist)

    def ret_value(self, fr, ist):
        rets = [(g, v) for g, v, e in fr.rets]
        if not rets:
            return NONE if not ist.dead else None
        if not ist.dead:
            rets.append((True, NONE))
        v = rets[-1][1]
        for g, x in reversed(rets[:-1]):
            v = self.ite(g, x, v)
        return v
