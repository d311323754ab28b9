"""C19 distributed wrappers train like the single-process algorithm."""
import copy
import itertools

from .common import *
from ..evalr import Evaluator

PURE = {'parse_losses', 'data_preprocessor', 'add_prefix', 'get', 'values',
        'keys', 'items', 'format', 'info', 'warning', 'debug', 'warn',
        'get_current_instance', 'get_info', 'optim_context', 'named_modules',
        'parameters', 'named_parameters', 'modules', 'len', 'isinstance',
        'str', 'int', 'float', 'dict', 'list', 'tuple', 'zip', 'enumerate',
        'range', 'print', 'sorted', 'join', 'getattr', 'hasattr', 'type',
        'no_grad', 'max_choices', 'min_choices', 'view', 'cat', 'norm',
        'item', 'super', 'set_grad_enabled', 'is_available',
        'is_initialized', 'abs', 'min', 'max', 'sum', 'all', 'any'}
FILL = {'append', 'extend', 'update', 'insert', 'add', 'setdefault',
        'appendleft'}
ORDER = {'<self>', 'update_params', 'backward', 'step', 'zero_grad',
         'compute_distill_losses', 'deepcopy', 'copy_', 'broadcast',
         'compute_mutator_loss', '_update_arch_params', 'handle_grads'}
SCOPED = {'<self>', 'compute_distill_losses'}
ALIAS = {'set_max_choices': 'max_choices', 'set_min_choices': 'min_choices'}


class NotDistributed(Exception):
    pass


def unwrap_node(node):
    """self.module -> self"""
    node = copy.deepcopy(node)
    selfname = node.args.args[0].arg if node.args.args else 'self'

    class T(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if n.attr == 'module' and isinstance(n.value, ast.Name) and \
                    n.value.id == selfname and isinstance(n.ctx, ast.Load):
                return ast.copy_location(ast.Name(selfname, ast.Load()), n)
            return n
    return ast.fix_missing_locations(T().visit(node))


def forwarding(f):
    """a property of the wrapper standing for the same of the algorithm"""
    return f.has_deco('property') or f.has_deco('setter')


def unwrapped(ck, ddp, alg):
    """the wrapper's methods acting on the algorithm itself"""
    c = Class(ddp.name, ddp.qual + '@module', ddp.node, ddp.module)
    c.bases = [alg.qual]
    for n, f in ddp.methods.items():
        if n == '__init__' or forwarding(f):
            continue
        c.methods[n] = Func(f.name, f.qual, unwrap_node(f.node), f.module, c)
    ck.prog._mro.pop(c.qual, None)
    m = [c] + list(ck.prog.mro(alg))
    ck.prog._mro[c.qual] = m
    return c


class Trace:
    """effects of a training step in canonical form"""

    def __init__(self, s):
        self.s = s
        self.memo = {}
        self.events = []
        for e in s.ev:
            self.add(e)

    # terms ---------------------------------------------------------------
    def term(self, t, depth=0):
        key = (t, depth)
        if key not in self.memo:
            self.memo[key] = None
            self.memo[key] = show(self._canon(t, depth))
        return self.memo[key] or '<cycle>'

    def _canon(self, t, depth):
        s = self.s
        if depth > 20:
            return t

        def fn(x):
            if x[0] == 'call':
                v = s.E.value.get(x[-1])
                if v is not None:
                    return self._canon(v, depth + 1)
                if x[3]:
                    x = x[:3] + (tuple(sorted(x[3], key=lambda kv: str(
                        kv[0]))),) + x[4:]
            elif x[0] in ('attr', 'sub') and x[-1]:
                v = s.E.ver.get(x[-1])
                if v is not None:
                    return self._canon(v, depth + 1)
            elif x[0] == 'alloc':
                ev = s.m.contents_events(x)
                if ev:
                    return ('param', '%s+{%s}' % (show(x), '; '.join(sorted(
                        self.fill(e, depth + 1) for e in ev))))
            elif x[0] == 'ite':
                return ('param', 'IF(%s, %s, %s)' % (
                    self.guard(x[1], depth + 1), show(x[2]), show(x[3])))
            elif x[0] == 'form':
                return ('param', self.guard(x[1], depth + 1))
            elif x[0] == 'loopvar':
                st = s.E.steps.get((x[2], x[1]))
                if st is not None and depth < 3:
                    return ('param', 'LOOP(%s by %s)' % (show(x[3]), show(
                        self._canon(st, depth + 12))))
            return x
        return tmap(t, fn)

    def fill(self, e, depth):
        if e.kind == 'setitem':
            v = '[%s]=%s' % (self.term(e.attr, depth), self.term(
                e.value, depth))
        else:
            v = '%s(%s)' % (e.func[2], ', '.join(
                [self.term(a, depth) for a in e.args] +
                ['%s=%s' % (k, self.term(a, depth)) for k, a in e.kwargs]))
        return v + ' when ' + self.guard(e.guard, depth)

    def formula(self, f, depth=0):
        from . import c16

        def fn(a):
            if self.s.m.match(c16.MULTI, a) is not None or a[0] == 'cmp' \
                    and a[1] == '<' and a[2] == const(1) and \
                    'world_size' in show(a[3]):
                return True
            return ('atom', self.term(a, depth))
        return f_map(self.s.m.norm(f), fn)

    def guard(self, f, depth=0):
        """canonical text of a condition (as a function of its atoms)"""
        f = self.formula(f, depth)
        atoms = sorted(f_atoms(f))
        if len(atoms) > 10:
            return fshow2(f)
        rel = []
        for a in atoms:
            def fix(v):
                return f_map(f, lambda x: v if x == a else ('atom', x))
            if not f_equiv(fix(True), fix(False)):
                rel.append(a)
        bits = ''
        for vs in itertools.product((False, True), repeat=len(rel)):
            d = dict.fromkeys(atoms, False)
            d.update(zip(rel, vs))
            bits += '01'[bool(f_eval(f, d))]
        return '%s/%s' % (' & '.join(rel), bits)

    # events --------------------------------------------------------------
    def add(self, e):
        s = self.s
        if e.kind == 'call':
            f = e.func
            if f == SELF:
                name = '<self>'
            elif f[0] == 'attr' and isinstance(f[2], str):
                name = f[2]
            elif f[0] == 'global':
                name = f[1].split('.')[-1]
            else:
                name = show(f)
            nxt = s.ev[e.seq + 1] if e.seq + 1 < len(s.ev) else None
            inl = s.E.value.get(e.term[-1]) is not None or (
                nxt is not None and nxt.seq == e.seq + 1 and len(
                    nxt.frames) > len(e.frames))
            if inl or name in PURE:
                return
            if name in FILL and f[0] == 'attr' and any(
                    x[0] == 'alloc' for x in s.m.bases(f[1])):
                return
            if name in ALIAS and not e.args and f[0] == 'attr':
                base = self.term(f[1])
                text = '%s.set_choices(%s.%s)' % (base, base, ALIAS[name])
                name = 'set_choices'
            else:
                text = '%s(%s)' % (self.term(f), ', '.join(
                    [self.term(a) for a in e.args] + sorted(
                        '%s=%s' % (k or '**', self.term(v))
                        for k, v in e.kwargs)))
        elif e.kind == 'setattr':
            name = '=' + (e.attr if isinstance(e.attr, str) else '*')
            text = '%s.%s = %s' % (self.term(e.base), e.attr if isinstance(
                e.attr, str) else self.term(e.attr), self.term(e.value))
        elif e.kind == 'setitem':
            if any(x[0] == 'alloc' for x in s.m.bases(e.base)):
                return
            name = '[]='
            text = '%s[%s] = %s' % (self.term(e.base), self.term(e.attr),
                                    self.term(e.value))
        elif e.kind == 'raise':
            name, text = 'raise', 'raise'
        else:
            return
        scopes = [self.term(x) for x in e.scopes]
        if name not in SCOPED:
            scopes = [x for x in scopes if 'grad' in x]
        loops = []
        for l in e.loops:
            L = s.E.loops[l]
            it = L['raw'] if L['raw'] is not None else L['iter']
            loops.append(self.term(it) if it is not None else L['kind'])
        self.events.append(dict(
            name=name, text=text, guard=self.guard(e.guard),
            f=self.formula(e.guard), scopes=tuple(scopes),
            loops=tuple(loops), ev=e))


def fshow2(f):
    return str(f)


def keyof(x):
    return (x['text'], x['guard'], x['loops'], x['scopes'])


def compare(ck, what, sa, sb, where):
    a, b = Trace(sa), Trace(sb)
    ck.ntrace = getattr(ck, 'ntrace', 0) + len(a.events)
    from collections import Counter
    ca, cb = Counter(map(keyof, a.events)), Counter(map(keyof, b.events))
    ok = True
    for x in a.events:
        if cb[keyof(x)] < ca[keyof(x)]:
            ok = False
            ck.ob('same-step', False, where, '%s: only the unwrapped '
                  'algorithm does `%s` [%s:%d, when %s]' % (
                      what, x['text'][:160], x['ev'].path, x['ev'].line,
                      fshow(x['ev'].guard)[:160]), construct=where.qual)
    for x in b.events:
        if ca[keyof(x)] < cb[keyof(x)]:
            ok = False
            ck.ob('same-step', False, Hit(sb, x['ev'], {}), '%s: only the '
                  'wrapper does `%s` [when %s]' % (
                      what, x['text'][:160], fshow(x['ev'].guard)[:160]),
                  construct=where.qual)
    if not ok:
        return
    for x in a.events:
        ck.ob('same-step', True, Hit(sa, x['ev'], {}), '%s: both do `%s`' % (
            what, x['text'][:100]), construct=where.qual)
    # order of the steps that depend on each other
    pos = {}
    for i, x in enumerate(b.events):
        pos.setdefault(keyof(x), []).append(i)
    seen = Counter()
    idx = []
    for x in a.events:
        idx.append(pos[keyof(x)][seen[keyof(x)]])
        seen[keyof(x)] += 1
    for i, x in enumerate(a.events):
        for j in range(i + 1, len(a.events)):
            y = a.events[j]
            if not ({x['name'], y['name']} & ORDER or
                    x['name'] == y['name']):
                continue
            if idx[i] < idx[j]:
                continue
            if not f_sat(f_and(x['f'], y['f'])):
                continue
            ck.ob('same-order', False, Hit(sb, y['ev'], {}), '%s: the wrapper '
                  'does `%s` before `%s`' % (what, y['text'][:100],
                                             x['text'][:100]),
                  construct=where.qual)
            return
    ck.ob('same-order', True, where, what + ': steps follow each other alike')
    ra, rb = a.term(sa.ret()), b.term(sb.ret())
    ck.ob('same-result', ra == rb, where, what + ': the same is returned')


def pairs(ck):
    out = []
    for c in ck.prog.all_classes():
        if not any(isinstance(b, str) and b.split('.')[-1] ==
                   'MMDistributedDataParallel' for b in c.bases):
            continue
        n = c.name[:-3] if c.name.endswith('DDP') else c.name
        alg = [k for k in c.module.classes.values() if k.name == n]
        if alg:
            out.append((c, alg[0]))
    ck.floor('distributed wrappers', len(out), 5)
    return out


def check_steps(ck):
    for ddp, alg in pairs(ck):
        own = [n for n, f in ddp.methods.items() if n != '__init__' and
               not forwarding(f)]
        if 'train_step' in alg.methods:
            ck.ob('wraps-step', 'train_step' in own, ddp, 'the wrapper '
                  'brings the training step of the algorithm')
        if 'train_step' not in own:
            continue
        u = unwrapped(ck, ddp, alg)
        f = ck.prog.lookup(u, 'train_step')
        g = ck.prog.lookup(alg, 'train_step')
        if g is None:
            continue
        sb = Summary(ck, Evaluator(ck.prog, u, maxdepth=8).run(f, u), f, u,
                     ddp.qual + '.train_step')
        sa = Summary(ck, Evaluator(ck.prog, alg, maxdepth=8).run(g, alg), g,
                     alg, alg.qual + '.train_step')
        compare(ck, ddp.name, sa, sb, f)


def check_wrapped(ck):
    """the step acts on the wrapped module, through the wrapper where
    gradients are synchronised"""
    n = 0
    for ddp, alg in pairs(ck):
        for nm, f in sorted(ddp.methods.items()):
            if nm == '__init__' or forwarding(f):
                continue
            s = ck.fn(ddp.qual + '.' + nm)
            for h in s.calls('self.module(...)') + s.calls(
                    'self.module.forward(...)') + s.calls(
                    'self.module.architecture(...)'):
                ck.ob('sync-forward', False, h, 'the forward pass that is '
                      'trained goes through the wrapper')
            fw = s.calls('self(...)')
            n += len(fw)
            for h in fw:
                ck.ob('sync-forward', True, h, 'the forward pass that is '
                      'trained goes through the wrapper')
            for h in s.calls('_.optim_context(_m)'):
                ck.ob('sync-context', h.b['_m'] == SELF, h, 'accumulation '
                      'is controlled on the wrapper')
            # attributes of the algorithm are only read from the module
            for h in s.kind('call'):
                b = h.e.func
                if b[0] == 'attr' and b[1] == SELF and isinstance(
                        b[2], str) and ck.prog.lookup(alg, b[2]) is not \
                        None and ck.prog.lookup(ddp, b[2]) is None and \
                        b[2] not in ('train', 'eval', 'parameters',
                                     'modules', 'state_dict'):
                    ck.ob('on-module', False, h, 'methods of the algorithm '
                          'are called on the wrapped module')
    ck.floor('wrapped forward passes', n, 5)


def check_props(ck):
    for ddp, alg in pairs(ck):
        for nm, f in sorted(ddp.methods.items()):
            if not f.has_deco('property'):
                continue
            s = ck.fn(ddp.qual + '.' + nm)
            ck.ob('forwarded-property', s.m.match(
                'self.module.%s' % nm, s.ret()) is not None, f,
                'it is the one of the wrapped module')
        for nm, f in sorted(ddp.setters.items()):
            s = ck.fn(ddp.qual + '.' + nm + '=')
            v = f.params()[1]
            st = s.sets('self.module', nm, v)
            ck.always('forwarded-setter', st, s, 'it sets the one of the '
                      'wrapped module')


def check_ctor(ck):
    for ddp, alg in pairs(ck):
        f = ddp.methods.get('__init__')
        if f is None:
            ck.ob('ctor', True, ddp, 'the constructor is inherited')
            continue
        s = ck.fn(ddp.qual + '.__init__')
        sup = s.calls('super().__init__(...)') + s.calls(
            'MMDistributedDataParallel.__init__(...)')
        if not ck.need('ctor', sup, s, 'the wrapper is initialised', n=1):
            continue
        h = sup[0]
        ck.ob('ctor-always', h.unconditional(), h, 'in every case')
        kw = f.node.args.kwarg
        va = f.node.args.vararg
        if kw:
            ck.ob('ctor-kwargs', any(k is None and s.m.match(
                kw.arg, v) is not None for k, v in h.e.kwargs), h, 'every '
                'keyword argument is passed on')
        if va:
            ck.ob('ctor-args', any(x[0] == 'star' for x in h.e.args), h,
                  'every positional argument is passed on')
        d = h.arg(None, 'device_ids')
        for p in f.all_params()[1:]:
            if p == 'device_ids':
                continue
            v = h.arg(None, p)
            ck.ob('ctor-param', v is not None and same(s, v, ('param', p)) or
                  any(same(s, x, ('param', p)) for x in h.e.args), h,
                  'parameter %s is passed on' % p)
        if 'device_ids' not in f.all_params():
            continue
        if d is None:
            ck.ob('ctor-device', False, h, 'the devices are passed on')
            continue
        ENV = "OR(os.environ.get('LOCAL_RANK'), os.getenv('LOCAL_RANK'))"
        RK = "OR(os.environ['LOCAL_RANK'], os.environ.get('LOCAL_RANK'), " \
            "os.getenv('LOCAL_RANK'))"
        local = given_ = False
        bad = []
        for g, v in leaves(s, d):
            g1 = s.m.norm(g)

            def dec(none, env):
                def fn(a):
                    if s.m.match('device_ids is None', a) is not None:
                        return none
                    if s.m.match(ENV + ' is None', a) is not None:
                        return not env
                    if s.m.match("'LOCAL_RANK' in os.environ", a) is not \
                            None or s.m.match(ENV, a) is not None:
                        return env
                    if s.m.match('device_ids', a) is not None and none:
                        return False
                    return ('atom', a)
                return f_map(g1, fn)
            if s.m.match('device_ids', v) is not None:
                if dec(True, True) is not False:
                    bad.append(v)
                if dec(False, True) is True or dec(False, False) is True:
                    given_ = True
            elif s.m.match('[int(%s)]' % RK, v) is not None:
                local = local or dec(True, True) is True
                if dec(False, True) is not False or dec(
                        True, False) is not False:
                    bad.append(v)
            else:
                if dec(True, True) is not False or dec(
                        False, True) is not False:
                    bad.append(v)
        ck.ob('ctor-device', local and given_ and not bad, h, 'devices given '
              'are used; otherwise the device of the local rank')


def check_quant(ck):
    """wrapper of the quantised architecture"""
    c = ck.cls('MMArchitectureQuantDDP')
    alg = ck.cls('MMArchitectureQuant')
    for nm, f in sorted(c.methods.items()):
        if nm == '__init__' or forwarding(f):
            continue
        if ck.prog.lookup(alg, nm) is None:
            continue
        s = ck.fn(c.qual + '.' + nm)
        h = s.calls('self.module.%s(...)' % nm)
        if not ck.need('delegates', h, s, 'the wrapper passes on', n=1):
            continue
        ck.ob('delegates-always', h[0].unconditional(), h[0], 'in every case')
        for i, p in enumerate(f.params()[1:]):
            v = h[0].arg(i, p)
            ck.ob('delegates-args', v is not None and same(
                s, v, ('param', p)), h[0], 'with its arguments')
        g = ck.prog.lookup(alg, nm)
        if any(isinstance(n, ast.Return) and n.value is not None
               for n in walk_own(g.node)):
            ck.ob('delegates-result', same(s, s.ret(), h[0].e.term), h[0],
                  'and returns the result')
    s = ck.fn(c.qual + '.__init__')
    q = s.sets('self.module', 'qmodels')
    b = [h for h in q if s.derives(h.e.value, 'self.module._build_qmodels('
                                   'self.module.architecture)')]
    ck.need('rebuilt', b, s, 'the quantised graphs are rebuilt on the wrapped '
            'module')
    sy = s.calls('OR(self.module.sync_qparams, self.sync_qparams)(_)')
    ck.need('resynced', sy, s, 'their parameters are shared again')
    rs = s.calls('_.reset_observer_and_fakequant_statistics(...)')
    ck.need('reset', rs, s, 'their statistics start fresh')
    sup = s.calls('super().__init__(...)')
    ck.order('rebuilt-late', sup, b, s, 'after the parameters moved to the '
             'device')
    ck.order('resync-late', b, sy, s, 'sharing follows the rebuild')
    ck.order('reset-late', b, rs, s, 'the reset follows the rebuild')


def check(ck):
    ck.sections(check_steps, check_wrapped, check_props, check_ctor,
                check_quant)
