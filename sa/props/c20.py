"""C20 differentiable search: weights and architecture train separately."""
from .common import *
from .c19 import unwrapped

KEYS = {'architecture': 'W', 'mutator': 'A'}
OWN = {'W': 'train', 'A': 'val'}
NAMES = {'W': 'network weights', 'A': 'architecture parameters'}
INPLACE = {'add_', 'sub_', 'mul_', 'div_', 'copy_', 'zero_', 'fill_',
           'addcmul_', 'addcdiv_', 'lerp_', 'set_', 'normal_', 'uniform_'}


def mapped(s, g, d):
    return case(s, g, d)


class Sim:
    """typestate of gradients and weights along one training step"""

    def __init__(self, ck, s, events, name):
        self.ck, self.s, self.name = ck, s, name
        self.events = events
        self.grads = {'W': {'acc'}, 'A': {'acc'}}
        self.caps = []          # [call id, 'W'/'A', sources, live]
        self.w = 'orig'
        self.ok = {}
        self.forwards = []
        self.copies = {}        # deepcopy call id -> weights when taken
        self.steps = []
        self.captured = self.find_captures()

    # terms ---------------------------------------------------------------
    def find_captures(self):
        out = {}
        for e in self.s.ev:
            for t in (e.term, e.value):
                if t is None or not isinstance(t, tuple):
                    continue
                for x in walk(full(self.s, t)):
                    if isinstance(x, tuple) and x and x[0] == 'comp':
                        for y in walk(x[2]):
                            if y[0] == 'attr' and y[2] == 'grad' and y[1][
                                    0] == 'elem':
                                c = self.params_call(y[1][1])
                                if c is not None:
                                    out[c[-1]] = (x, y)
        return out

    def params_call(self, t):
        """the call X.parameters() a term enumerates"""
        t = full(self.s, t)
        for _ in range(6):
            if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in (
                    'parameters', 'values'):
                return t
            if t[0] == 'call' and t[1][0] == 'global' and t[1][1] in (
                    'list', 'tuple', 'iter') and len(t[2]) == 1:
                t = t[2][0]
                continue
            return None

    def owners(self, b):
        for f in self.s.m.forms(b):
            if f[0] == 'elem' and f[1][0] in ('tuple', 'alloc'):
                its = f[1][1] if f[1][0] == 'tuple' else f[1][2]
                return set().union(*[self.owners(x) for x in its] or [set()])
            if f[0] == 'ite':
                return self.owners(f[2]) | self.owners(f[3])
            if f == SELF:
                return {'W', 'A'}
            if f[0] == 'attr':
                if f[2] == 'architecture':
                    return {'W'}
                if f[2] in ('mutator', 'arch_params'):
                    return {'A'}
        return set()

    def of(self, t):
        """which parameters an element term stands for"""
        t = full(self.s, t)
        if t[0] == 'attr' and t[2] == 'data':
            t = t[1]
        if t[0] != 'elem':
            return set(), None
        c = self.params_call(t[1])
        if c is None:
            return set(), None
        return self.owners(c[1][1]), t

    def sources(self, loss):
        out = set()
        for x in self.s.m.deep(loss):
            if x[0] == 'sub' and x[1] == ('param', 'data') and x[2][
                    0] == 'const':
                out.add({0: 'train', 1: 'val'}.get(x[2][1], 'other'))
        return out or {'other'}

    def key(self, t):
        for f in self.s.m.forms(t):
            if f[0] == 'sub' and f[2][0] == 'const' and f[2][1] in KEYS:
                return f[2][1]
        return None

    # transitions -----------------------------------------------------------
    def check(self, rule, ok, e, msg):
        k = (rule, id(e))
        h = Hit(self.s, e, {})
        if k not in self.ok or (self.ok[k][0] and not ok):
            self.ok[k] = (ok, h, msg)

    def backward(self, src):
        for p in self.grads:
            self.grads[p] |= src
            for c in self.caps:
                if c[1] == p and c[3]:
                    c[2] |= src

    def clear(self, p):
        self.grads[p] = set()
        for c in self.caps:
            if c[1] == p:
                c[3] = False

    def step(self, key, e):
        p = KEYS[key]
        bad = self.grads[p] - {'acc', OWN[p]} - (
            {'form'} if p == 'A' else set())
        self.check('gradients-of-own-loss', not bad, e,
                   'the %s are stepped on gradients of %s' % (
                       NAMES[p], ', '.join(sorted(bad))))
        self.check('weights-restored', self.w == 'orig', e,
                   'an optimiser steps on weights still displaced by the '
                   'look-ahead')
        self.steps.append((key, e))

    def value(self, t):
        """sources of the gradient a term stands for"""
        if t == NONE:
            return None
        t = full(self.s, t)
        keys, now = [], set()
        if t[0] == 'attr' and t[2] == 'grad':
            ps, el = self.of(t[1])
            if not ps:
                return {'unknown'}
            c = self.params_call(el[1])
            if c[-1] not in self.captured:
                return set().union(*[self.grads[p] for p in ps])
            keys.append(c[-1])
        elif t[0] == 'elem':
            for it in listed(self.s, t[1]):
                if it.value[0] == 'attr' and it.value[2] == 'grad':
                    c = self.params_call(it.value[1][1]) if it.value[1][
                        0] == 'elem' else None
                    if it.hit is not None:
                        keys.append(id(it.hit.e))
                    elif c is not None:
                        keys.append(c[-1])
        if not keys:
            return {'form'} if any(
                x[0] == 'attr' and x[2] == 'grad'
                for x in self.s.m.deep(t)) else {'unknown'}
        return set().union(*[c[2] for c in self.caps if c[0] in keys])

    def capture(self, key, ps):
        self.caps = [c for c in self.caps if c[0] != key or c[2]]
        for p in ps:
            self.caps.append([key, p, set(self.grads[p]),
                              bool(self.grads[p])])

    def run(self):
        # loops holding a backward go round twice
        evs = [e for e in self.events]
        twice = []
        for lid in self.s.E.loops:
            if any(lid in e.loops and self.is_backward(e) for e in evs):
                idx = [i for i, e in enumerate(evs) if lid in e.loops]
                twice.append((idx[0], idx[-1] + 1))
        seq_ = list(evs)
        for a, b in sorted(twice, reverse=True):
            seq_ = seq_[:b] + evs[a:b] + seq_[b:]
        for e in seq_:
            self.event(e)
        last = evs[-1]
        for p, other in (('W', 'val'), ('A', 'train')):
            self.check('gradients-kept-apart', not self.grads[p] & {
                other, 'unknown'} and (p == 'A' or 'form' not in
                                       self.grads[p]),
                       last, 'gradients of the other loss stay on the %s and '
                       'join their next update' % NAMES[p])
        self.check('weights-restored', self.w == 'orig', last,
                   'the weights stay displaced after the look-ahead')
        return self

    @staticmethod
    def is_backward(e):
        return e.kind == 'call' and e.func[0] == 'attr' and e.func[2] in (
            'backward', 'update_params')

    def event(self, e):
        s = self.s
        h = Hit(s, e, {})
        if e.kind == 'setattr' and e.attr == 'grad':
            ps, _ = self.of(e.base)
            full = all(whole(s, l) for l in e.loops)
            v = self.value(e.value)
            for p in ps:
                if v is None:
                    if full:
                        self.clear(p)
                else:
                    if not full:
                        v = v | self.grads[p]
                    self.clear(p)
                    self.grads[p] = set(v)
            return
        if e.kind in ('setattr', 'aug'):
            ps, t = self.of(e.base)
            if 'W' in ps and (e.kind == 'aug' or e.attr == 'data'):
                self.write(e, e.value)
            return
        if e.kind != 'call':
            return
        f = e.func
        if f == SELF or f == ('attr', SELF, 'forward', 0):
            src = set()
            for a in list(e.args) + [v for _, v in e.kwargs]:
                src |= self.sources(a) - {'other'}
            self.forwards.append((e, src, self.w))
            return
        if f[0] == 'global':
            if f[1].split('.')[-1] == 'deepcopy':
                self.copies.setdefault(e.term[-1], self.w)
            return
        if f[0] != 'attr':
            return
        name = f[2]
        if name == 'parameters' or name == 'values':
            if e.term[-1] in self.captured:
                self.capture(e.term[-1], self.owners(f[1]))
            return
        if name in ADDERS and e.args and e.args[-1][0] == 'attr' and \
                e.args[-1][2] == 'grad':
            self.capture(id(e), self.of(e.args[-1][1])[0])
            return
        if name == 'clone' or name == 'deepcopy':
            self.copies.setdefault(e.term[-1], self.w)
        key = self.key(f[1])
        if name in ('backward', 'update_params'):
            loss = h.arg(0, 'loss')
            if loss is None:
                loss = f[1]
            src = self.sources(loss)
            if name == 'update_params' and key is None:
                return
            if key is not None and not e.loops and len(e.frames) == 1:
                self.check('own-batch', src == {OWN[KEYS[key]]}, e,
                           'the %s are updated from the loss on %s' % (
                               NAMES[KEYS[key]], ' and '.join(sorted(src))))
            self.backward(src)
            if name == 'update_params':
                self.step(key, e)
                self.clear(KEYS[key])
            return
        if name == 'step' and key is not None:
            self.step(key, e)
        elif name == 'zero_grad':
            if key is not None:
                self.clear(KEYS[key])
            else:
                for p in self.owners(f[1]):
                    self.clear(p)
        elif name in INPLACE:
            ps, t = self.of(f[1])
            if 'W' in ps:
                self.write(e, e.args[0] if name == 'copy_' and e.args
                           else e.term, name)

    def write(self, e, v, name=None):
        s = self.s
        plain = e.kind == 'setattr' or name == 'copy_'
        if plain:
            src = v
            for x in s.m.deep(src):
                if x[0] == 'call' and x[-1] in self.copies and (
                        x[1][-1] == 'copy.deepcopy' or x[1][2:3] in (
                            ('clone',), ('deepcopy',))):
                    full = all(whole(s, l) for l in e.loops) and \
                        src[0] in ('elem', 'call', 'attr')
                    if full:
                        self.w = self.copies[x[-1]]
                        return
        if self.w == 'orig' and self.look_ahead(e, v, name):
            self.w = 'ahead'
        else:
            self.w = 'displaced' if self.w in ('orig', 'displaced') and \
                e.loops else 'moved'

    def look_ahead(self, e, v, name):
        """w - lr * (momentum * buffer + gradient + decay * w)"""
        s = self.s
        v = full(s, v)
        G = "optim_wrapper['architecture'].param_groups[0]"
        lr = G + "['lr']"
        x = None
        for q in ('ELEM(_) - %s * _x' % lr, 'ELEM(_).sub_(%s * _x)' % lr,
                  'ELEM(_).add_(-%s * _x)' % lr,
                  'ELEM(_).sub_(_x, alpha=%s)' % lr,
                  'ELEM(_).add_(_x, alpha=-%s)' % lr):
            b = s.match(v, q)
            if b is not None:
                x = b['_x']
                break
        if x is None:
            return False
        terms = self.summands(x)
        m = [t for t in terms if s.match(
            t, "%s['momentum'] * _.get('momentum_buffer', _)" % G)
            is not None]
        d = [t for t in terms if s.match(
            t, "%s['weight_decay'] * ELEM(_)" % G) is not None]
        g = [t for t in terms if t not in m and t not in d]
        return len(m) == len(d) == len(g) == 1 and self.value(g[0]) == {
            'train'} and all(whole(s, l) for l in e.loops) and no_grad(
                Hit(s, e, {}))

    def summands(self, t):
        for f in self.s.m.forms(t):
            if f[0] == 'bin' and f[1] == 'Add':
                return self.summands(f[2]) + self.summands(f[3])
        return [t]


def darts(ck, cls, label):
    f = ck.prog.lookup(cls, 'train_step')
    s = ck.func_summary(f, cls, opaque=('add_prefix',))
    multi = {'isinstance(data, _)': True,
             'isinstance(optim_wrapper, OptimWrapperDict)': True}
    for unroll in (False, True):
        d = dict(multi)
        d['_.unroll'] = unroll
        evs = [e for e in s.ev if case(s, e.guard, d) is not False]
        if not any(Sim.is_backward(e) for e in evs):
            raise BrokenAnalysis('C20: no backward in %s.train_step' % label)
        sim = Sim(ck, s, evs, label).run()
        tag = '%s (%s)' % (label, 'unrolled' if unroll else 'first order')
        for (rule, _), (ok, h, msg) in sim.ok.items():
            ck.ob(rule, ok, h, '%s: %s' % (tag, msg))
        for key in KEYS:
            st = [e for k, e in sim.steps if k == key]
            ck.ob('each-optimiser-steps', len(st) == 1 and not st[0].loops and
                  case(s, st[0].guard, d) is True, Hit(s, st[0], {}) if st
                  else s, '%s: the optimiser of the %s does not step exactly '
                  'once per iteration' % (tag, NAMES[KEYS[key]]))
        for e, src, w in sim.forwards:
            if src == {'val'}:
                ck.ob('validation-forward-weights',
                      w == ('ahead' if unroll else 'orig'), Hit(s, e, {}),
                      '%s: the validation loss is computed on weights that '
                      'are %s' % (tag, {'orig': 'not moved ahead'}.get(
                          w, 'displaced')))
            batch_forward(ck, s, Hit(s, e, {}), tag, {
                'train': 0, 'val': 1}.get(''.join(sorted(src))))
            ck.ob('loss-forward', Hit(s, e, {}).arg(2, 'mode') == const(
                'loss'), Hit(s, e, {}), '%s: forward not in loss mode' % tag)
        if not unroll:
            ck.ob('one-forward-each', sorted(map(str, (
                x[1] for x in sim.forwards))) == ["{'train'}", "{'val'}"],
                s, '%s: not one forward per batch' % tag)
            for e, src, w in sim.forwards:
                key = 'architecture' if src == {'train'} else 'mutator'
                ck.ob('own-context', Hit(s, e, {}).in_scope(
                    "optim_wrapper['%s'].optim_context(_)" % key),
                    Hit(s, e, {}), '%s: forward outside the context of its '
                    'own optimiser' % tag)
        else:
            hessian(ck, s, sim, evs, tag)
    # a single optimiser falls back to the ordinary step
    one = {'isinstance(optim_wrapper, OptimWrapperDict)': False}
    up = [h for h in s.calls('optim_wrapper.update_params(_l)')
          if case(s, h.e.guard, one) is True]
    ck.need('plain-step', up, s, '%s: with a single optimiser nothing is '
            'updated' % label, 1)
    plain_forward(ck, s, label)


def plain_forward(ck, s, label):
    one = {'isinstance(optim_wrapper, OptimWrapperDict)': False}
    fw = [h for h in s.calls('self(...)') if case(s, h.e.guard, one) is True]
    ck.need('plain-step', fw, s, '%s: with a single optimiser nothing is '
            'forwarded' % label, 1)
    for h in fw:
        batch_forward(ck, s, h, label, None)
        ck.ob('loss-forward', h.arg(2, 'mode') == const('loss'), h,
              '%s: forward not in loss mode' % label)
    for g, t in leaves(s, s.ret()):
        ck.ob('logged', t != NONE, s, '%s: no losses are reported' % label)


def batch_forward(ck, s, h, tag, i):
    d = 'data' if i is None else 'data[%d]' % i
    a, b = h.arg(0, 'batch_inputs'), h.arg(1, 'data_samples')
    for x, k in ((a, 'inputs'), (b, 'data_samples')):
        if x is not None and s.find(x, 'data'):
            ck.ob('preprocessed', s.match(
                x, "self.data_preprocessor(%s, True)['%s']" % (d, k)) is not
                None or s.match(x, "self.data_preprocessor(%s, training=True)"
                                "['%s']" % (d, k)) is not None, h,
                  '%s: %s are not those of the batch, preprocessed for '
                  'training' % (tag, k))
        else:
            ck.ob('preprocessed', False, h, '%s: forward without %s' % (
                tag, k))


def hessian(ck, s, sim, evs, tag):
    """arch gradient = own - lr * (d+ - d-) / (2 eps)"""
    sets = [Hit(s, e, {}) for e in evs if e.kind == 'setattr' and e.attr ==
            'grad' and full(s, e.value)[0] == 'bin' and 'A' in sim.of(
                e.base)[0]]
    ck.need('second-order-gradient', sets, s, '%s: the architecture gradient '
            'is not corrected by the second order term' % tag, 1)
    for h in sets:
        b = s.match(full(s, h.e.value), "_d - optim_wrapper['architecture']."
                    "param_groups[0]['lr'] * _h")
        ck.ob('second-order-gradient', b is not None, h, '%s: gradient is '
              'not d - lr * hessian' % tag)
        ck.ob('second-order-gradient', all(whole(s, l) for l in h.e.loops), h,
              '%s: not for every architecture parameter' % tag)
        if b is None:
            continue
        ck.ob('own-gradient-is-of-validation', sim.value(b['_d']) == {'val'},
              h, '%s: the gradient corrected is of %s' % (
                  tag, sorted(sim.value(b['_d']) or ())))
    # finite differences
    diff = None
    for r in s.kind('ret', 'return'):
        for it in listed(s, r.e.value):
            b = s.match(it.value, '(ELEM(_a) - ELEM(_b)) / (2.0 * _e)')
            if b is not None:
                diff = (r, b)
    ck.need('finite-difference', [diff] if diff else [], s, '%s: the second '
            'order term is not (d+ - d-) / (2 eps)' % tag, 1)
    if diff:
        r, b = diff
        eps = show(b['_e'])
        ck.ob('finite-difference', s.match(b['_e'], '_c / _n') is not None,
              r, '%s: the step is not scaled down by the norm of the '
              'direction' % tag)
        ck.ob('finite-difference', s.match(b['_a'], '_[0]') is not None and
              s.match(b['_b'], '_[1]') is not None, r, '%s: the two '
              'displaced gradients are swapped' % tag)
        for e in evs:
            if e.kind == 'aug' and 'W' in sim.of(e.base)[0] and len(
                    e.loops) > 1:
                h = Hit(s, e, {})
                m = s.match(e.value, 'ELEM(_p) + _q')
                fs = [x for x in s.m.forms(m['_q']) if x[0] == 'bin' and x[
                    1] == 'Mult'] if m else []
                m = [(x, y) for f in fs for x, y in ((f[2], f[3]), (
                    f[3], f[2])) if x[0] == 'elem' and sim.value(y) == {
                        'val'} and x[1][0] in ('alloc', 'tuple')]
                ck.ob('displacement', bool(m), h, '%s: weights are not '
                      'displaced along the validation gradient' % tag)
                if not m:
                    continue
                m = {'_s': m[0][0][1]}
                its = m['_s'][2] if m['_s'][0] == 'alloc' else m['_s'][
                    1] if m['_s'][0] == 'tuple' else ()
                ok = len(its) == 2 and show(its[0]) == eps and (
                    s.match(its[1], '-2.0 * _e') or s.match(
                        its[1], '-(2.0 * _e)') or {}).get('_e') is not None \
                    and eps in show(its[1])
                ck.ob('displacement', ok, h, '%s: weights are not displaced '
                      'to +eps then -eps' % tag)
                ck.ob('displacement', no_grad(h), h,
                      '%s: displaced with gradients tracked' % tag)
        # direction and eps come from the unrolled validation gradient
        for n, caps in (('direction', [c for c in sim.caps if c[1] == 'W'
                                       and 'val' in c[2]]),):
            ck.need('direction-is-of-validation', caps, s, '%s: the weights '
                    'are not displaced along the validation gradient' % tag)
            for c in caps:
                ck.ob('direction-is-of-validation', c[2] == {'val'}, s,
                      '%s: the direction holds gradients of %s' % (
                          tag, sorted(c[2])))
    tr = [c for c in sim.caps if c[1] == 'A' and 'train' in c[2]]
    ck.ob('displaced-gradients-apart', len(tr) == 2 and all(
        c[2] == {'train'} for c in tr), s, '%s: a displaced architecture '
        'gradient accumulates gradients of %s' % (tag, sorted(
            set().union(*[c[2] for c in tr] or [set()]))))
    fw = [(e, src, w) for e, src, w in sim.forwards if e.loops]
    ck.need('displaced-forward', fw, s, '%s: no forward on displaced weights'
            % tag)
    for e, src, w in fw:
        ck.ob('displaced-forward', src == {'train'} and w == 'displaced', Hit(
            s, e, {}), '%s: the displaced loss is not of the training batch '
            'on displaced weights' % tag)


def check(ck):
    ck.sections(steps, loops, loaders, dsnas, constructor, ownership)


def steps(ck):
    alg, ddp = ck.cls('Darts'), ck.cls('DartsDDP')
    prepared(ck, ck.fn('Darts.__init__', opaque=(
        'prepare_from_supernet', 'prepare_arch_params')), 'Darts')
    darts(ck, alg, 'Darts')
    darts(ck, unwrapped(ck, ddp, alg), 'DartsDDP')


def loops(ck):
    for name in ('DartsEpochBasedTrainLoop', 'DartsIterBasedTrainLoop'):
        s = ck.fn('%s.__init__' % name)
        ck.always('loader-order', s.sets('self', 'mutator_dataloader'), s,
                  '%s: the mutator loader is not set' % name)
        sets = s.sets('self', 'multi_loaders')
        ck.need('loader-order', sets, s, '%s: the loaders are not combined'
                % name)
        for h in sets:
            ok = any(x[0] == 'alloc' and x[1] == 'list' and len(x[2]) == 2 and
                     s.match(x[2][0], 'self.dataloader') is not None and
                     own_loader(s, x[2][1]) and all(
                         own_built(s, y) for y in s.sets(
                             'self', 'mutator_dataloader'))
                     for x in s.m.deep(h.e.value))
            ck.ob('loader-order', ok and h.unconditional(), h, '%s: batches '
                  'are not (training, mutator)' % name)
        for p in ('dataloader',):
            sup = super_first(ck, s)
            ck.need('training-loader', sup, s, '%s: base loop not initialised'
                    % name)
            for h in sup:
                ck.ob('training-loader', h.arg(1, 'dataloader') == ('param',
                      'dataloader'), h, '%s: the base loop does not get the '
                      'training loader' % name)
                n = 'max_epochs' if 'Epoch' in name else 'max_iters'
                for i, q in enumerate((n, 'val_begin', 'val_interval')):
                    ck.ob('schedule-passed', h.arg(2 + i, q) == ('param', q),
                          h, '%s: %s not passed on' % (name, q))
    s = ck.fn('DartsEpochBasedTrainLoop.run_epoch')
    it = s.calls('self.run_iter(_i, _b)')
    ck.need('every-batch', it, s, 'batches are not trained on', 1)
    for h in it:
        ck.ob('every-batch', h.guard_is('True') and len(h.e.loops) == 1 and
              whole(s, h.e.loops[0]) and s.derives(
                  h.b['_b'], 'EpochMultiLoader(self.multi_loaders)') and
              h.b['_b'][0] == 'elem' and h.b['_i'][0] == 'idx', h,
              'not every combined batch is trained on')
    for h in it:
        trained(ck, s, h)
    bump = s.sets('self', '_epoch', 'self._epoch + 1')
    ck.need('epoch-counted', bump, s, 'epoch is not counted', 1)
    ck.always('epoch-counted', bump, s, 'epoch is not counted')
    ck.not_after('epoch-counted', it, bump, s, 'epoch counted before it ran')
    hooks(ck, s, it, ('before_train_epoch',), ('after_train_epoch',))

    s = ck.fn('DartsIterBasedTrainLoop.run')
    it = s.calls('self.run_iter(_b)')
    ck.need('every-batch', it, s, 'batches are not trained on', 1)
    for h in it:
        ck.ob('every-batch', h.guard_is('True') and len(h.e.loops) == 1, h,
              'not every combined batch is trained on')
        ck.ob('every-batch', s.match(h.b['_b'], 'next(self.multi_loaders)') is
              not None, h, 'not trained on the combined batch')
        for l in h.e.loops:
            L = s.E.loops[l]
            ck.ob('budget', L['kind'] == 'while' and not L['breaks'] and
                  s.m.equiv(L.get('cond'), 'self._iter < self._max_iters'), h,
                  'the loop does not run for max_iters iterations')
        trained(ck, s, h)
    hooks(ck, s, it, ('before_train', 'before_train_epoch'),
          ('after_train_epoch', 'after_train'))
    v = s.calls('self.runner.val_loop.run()')
    ck.need('validation', v, s, 'no validation', 1)
    for h in v:
        ck.ob('validation', h.guard_is(
            'self.runner.val_loop is not None and '
            'self._iter >= self.val_begin and '
            'self._iter % self.val_interval == 0'), h,
            'validation off its schedule')
        ck.order('validation', it, [h], s, 'validated before the iteration')


def own_built(s, h):
    b = s.match(h.e.value, 'runner.build_dataloader(_c, seed=runner.seed)')
    if b is not None:
        return show(b['_c']) == 'mutator_dataloader' and h.guard_implies(
            'isinstance(mutator_dataloader, dict)')
    return all((s.match(
        x, 'runner.build_dataloader(mutator_dataloader, seed=runner.seed)')
        is not None) == s.m.implies(f_and(g, h.e.guard),
                                    'isinstance(mutator_dataloader, dict)')
        and 'mutator_dataloader' in show(x)
        for g, x in leaves(s, h.e.value))


def own_loader(s, t):
    ts = [x for _, x in leaves(s, t)]
    return s.match(t, 'self.mutator_dataloader') is not None or all(
        'mutator_dataloader' in show(x) for x in ts)


def trained(ck, s, h):
    t = s.calls('self.runner.model.train(...)')
    t = [x for x in t if not x.e.args or x.e.args[0] == ('const', True)]
    ck.need('training-mode', t, s, 'the model is not put in training mode')
    ck.ob('training-mode', any(
        x.e.seq < h.e.seq and x.guard_is('True') and set(x.e.loops) <= set(
            h.e.loops) for x in t), h, 'trained without training mode')
    val = s.calls('self.runner.val_loop.run()')
    for v in val:
        common_ = [l for l in v.e.loops if l in h.e.loops]
        ck.ob('training-mode', not common_ or any(
            set(common_) <= set(x.e.loops) and x.e.seq < h.e.seq for x in t),
            h, 'after validation training goes on in evaluation mode')


def hooks(ck, s, it, before, after):
    prev = None
    for n in before:
        hs = s.calls("self.runner.call_hook('%s', ...)" % n)
        ck.need('hooks', hs, s, 'hook %s not called' % n, 1)
        ck.always('hooks', hs, s, 'hook %s conditional' % n)
        ck.order('hooks', hs, it, s, 'hook %s after training' % n)
        if prev:
            ck.order('hooks', prev, hs, s, 'hook %s out of order' % n)
        prev = hs
    prev = None
    for n in after:
        hs = s.calls("self.runner.call_hook('%s', ...)" % n)
        ck.need('hooks', hs, s, 'hook %s not called' % n, 1)
        ck.always('hooks', hs, s, 'hook %s conditional' % n)
        ck.not_after('hooks', it, hs, s, 'hook %s before training' % n)
        if prev:
            ck.order('hooks', prev, hs, s, 'hook %s out of order' % n)
        prev = hs


def loaders(ck):
    for name in ('EpochMultiLoader', 'IterMultiLoader'):
        s = ck.fn('%s.__init__' % name)
        st = s.sets('self', 'iter_loaders')
        ck.need('one-iterator-per-loader', st, s, '%s: no iterators' % name)
        for h in st:
            ck.ob('one-iterator-per-loader', iterators(s, h.e.value, h.e.guard), h,
                  '%s: not one iterator per loader, in order' % name)
        n = ck.fn('%s.__len__' % name)
        ck.ob('shortest', n.m.match('min(_x)', n.ret()) is not None or
              'min(' in show(n.ret()), n, '%s: length is not that of the '
              'shortest loader' % name)
    s = ck.fn('EpochMultiLoader.__next__')
    ck.ob('one-batch-each', batches(s, s.ret()), s, 'not one batch from each '
          'loader, in order')
    ck.ob('epoch-ends', not s.kind('except'), s, 'the end of the shortest '
          'loader does not end the epoch')
    it = ck.fn('EpochMultiLoader.__iter__')
    ck.ob('one-batch-each', it.m.match('self', it.ret()) is not None, it,
          'does not iterate itself')
    s = ck.fn('IterMultiLoader.__next__')
    ok = all(batches(s, t, g) for g, t in leaves(s, s.ret()))
    ck.ob('one-batch-each', ok, s, 'not one batch from each loader, in order')
    exc = s.kind('except')
    ck.need('restarts', exc, s, 'the end of a loader ends training')
    for x in exc:
        ck.ob('restarts', x.e.term is None or 'StopIteration' in show(
            x.e.term), x, 'the end of a loader is not handled')
    again = [h for h in s.sets('self', 'iter_loaders')]
    ck.need('restarts', again, s, 'exhausted iterators are not renewed')
    in_h = [h for h in s.calls('next(...)') if any(
        'handler' in t[1] for t in h.e.tries)]
    for h in again:
        ck.ob('restarts', iterators(s, h.e.value, h.e.guard), h,
              'not one new iterator per loader')
        ck.ob('restarts', any(t[1].startswith('handler') for t in h.e.tries)
              and not h.e.loops, h, 'iterators renewed at the wrong point')
        for n in in_h:
            ck.ob('restarts', h.e.seq < n.e.seq, n,
                  'drawn from an exhausted iterator')
    ep = s.sets('self', '_epoch', 'self._epoch + 1')
    ck.need('epoch-advances', ep, s, 'epoch of the sampler not advanced', 1)
    st = s.calls('_l.sampler.set_epoch(_e)')
    ck.need('reshuffled', st, s, 'loaders are not reshuffled', 1)
    for h in st:
        ck.ob('reshuffled', len(h.e.loops) == 1 and whole(s, h.e.loops[0]) and
              s.derives(h.b['_l'], 'self._dataloaders') and
              show(h.b['_e']) in ('self._epoch', '(self._epoch + 1)') and
              s.find(('form', s.m.norm(h.e.guard)),
                     "hasattr(_, 'set_epoch')") and
              case(s, h.e.guard, {"hasattr(_, 'set_epoch')": False}) is False,
              h,
              'not every sampler gets the new epoch')
        for e in ep:
            if show(h.b['_e']) == 'self._epoch':
                ck.ob('reshuffled', e.e.seq < h.e.seq, h,
                      'samplers get the old epoch')
        for a in again:
            ck.ob('reshuffled', h.e.seq < a.e.seq, h,
                  'reshuffled after the iterators were made')


def per_loader(s, t, pat, coll, given):
    its = [(i, s.match(i.value, pat)) for i in listed(s, t)]
    its = [(i, b) for i, b in its if b is not None]
    return len(its) == 1 and all(
        i.every(given) and len(i.loops) == 1 and any(
            s.find(b['_d'], c) for c in coll) for i, b in its)


def iterators(s, t, given=True):
    return per_loader(s, t, 'iter(ELEM(_d))', ('self._dataloaders',
                                               'dataloaders'), given)


def batches(s, t, given=True):
    return per_loader(s, t, 'next(ELEM(_d))', ('self.iter_loaders',), given)


# ------------------------------------------------------------------- DSNAS
def dsnas(ck):
    alg, ddp = ck.cls('DSNAS'), ck.cls('DSNASDDP')
    for cls, label in ((alg, 'DSNAS'), (unwrapped(ck, ddp, alg), 'DSNASDDP')):
        f = ck.prog.lookup(cls, 'train_step')
        s = ck.func_summary(f, cls, opaque=(
            'add_prefix', 'need_update_mutator', '_fix_archtecture',
            'compute_mutator_loss', 'handle_grads'))
        staged(ck, s, label)
    s = ck.fn('DSNAS.need_update_mutator')
    truth = f_or(*[f_and(g, value_form(s, t)) for g, t in leaves(
        s, s.ret())])
    ck.ob('search-stage', s.m.equiv(
        truth, 'cur_epoch >= self.pretrain_epochs and '
        'cur_epoch < self.finetune_epochs'), s, 'the architecture is not '
        'updated exactly from pretrain_epochs to finetune_epochs')
    s = ck.fn('DSNAS.__init__', opaque=('prepare_from_supernet',
                                        'prepare_arch_params'))
    ck.ob('stages-ordered', refuses(
        s, 'pretrain_epochs >= finetune_epochs'), s,
        'a pretraining longer than the search is accepted')
    for a, v in (('is_supernet', 'True'),
                 ('pretrain_epochs', 'pretrain_epochs'),
                 ('finetune_epochs', 'finetune_epochs')):
        h = s.sets('self', a, v)
        ck.need('stages-set', h, s, '%s is not set' % a, 1)
        ck.always('stages-set', h, s, '%s set conditionally' % a)
        ck.ob('stages-set', len(s.sets('self', a)) == 1, s,
              '%s changed after it is set' % a)
    prepared(ck, s, 'DSNAS')
    s = ck.fn('DSNAS._fix_archtecture', opaque=('sample_choices',
                                                'set_choices', 'fix_chosen'))
    fx = s.calls('_m.fix_chosen(_c)')
    ck.need('all-fixed', fx, s, 'the architecture is not fixed', 1)
    for h in fx:
        ck.ob('all-fixed', len(h.e.loops) == 1 and whole(s, h.e.loops[0]) and
              over(s, h.e.loops[0], 'self.architecture.modules()') and
              h.guard_is('isinstance(_m, BaseMutable) and not _m.is_fixed'),
              h, 'not every unfixed mutable is fixed')
        ck.ob('all-fixed', s.match(h.b['_c'], '_.current_choice') is not None,
              h, 'not fixed to the current choice')
    st = s.calls('self.mutator.set_choices(self.mutator.sample_choices(...))')
    ck.need('fixed-to-sampled', st, s, 'no architecture is derived', 1)
    ck.always('fixed-to-sampled', st, s, 'derived conditionally')
    ck.order('fixed-to-sampled', st, fx, s, 'fixed before it is derived')
    s = ck.fn('DSNAS.handle_grads')
    m = s.calls('_a.grad.data.mul_(_w.arch_weights.grad.data.sum())') + \
        s.calls('_a.grad.mul_(_w.arch_weights.grad.sum())')
    ck.need('scaled', m, s, 'architecture gradients are not scaled', 1)
    z = s.calls('_w.arch_weights.grad.zero_()') + s.sets(
        '_w.arch_weights', 'grad', 'None')
    ck.need('scale-reset', z, s, 'the gradient of the sampled weights '
            'accumulates', 1)
    for h in m + z:
        ck.ob('scaled', len(h.e.loops) == 1 and whole(s, h.e.loops[0]) and
              over(s, h.e.loops[0], 'self.architecture.named_modules()',
                   'self.architecture.modules()') and
              h.guard_is('isinstance(_, BaseMutable)'), h,
              'not for every mutable')
    for h in m:
        ck.ob('scaled', s.find(h.b['_a'], 'self.mutator.arch_params'), h,
              'not the architecture parameters')
        ck.order('scaled', [h], z, s, 'reset before it is used')
    q = ck.fn('DSNAS.compute_mutator_loss')
    ks = {show(full(s, h.b['_k'])) for h in [Hit(s, x.e, b) for x in m for b in [
        s.match(x.b['_a'], 'self.mutator.arch_params[_k]')] if b]}
    probs = [q.match(h.e.args[0], 'self.mutator.arch_params[_k]')
             for h in q.calls('softmax(...)') if h.e.args]
    kq = {show(full(q, b['_k'])) for b in probs if b}
    ck.ob('same-parameter', len(ks) == 1 and ks == kq, s, 'the gradient '
          'scaled is not that of the parameter in the loss')


def prepared(ck, s, label):
    a = s.calls('self.mutator.prepare_from_supernet(self.architecture)')
    b = s.calls('self.mutator.prepare_arch_params()')
    ck.always('prepared', a, s, '%s: the search space is not prepared' %
              label)
    ck.always('prepared', b, s, '%s: there are no architecture parameters' %
              label)
    ck.order('prepared', a, b, s, '%s: parameters before the search space' %
             label)


def value_form(s, t):
    if t[0] == 'const':
        return bool(t[1])
    if t[0] == 'form':
        return t[1]
    return ('atom', t)


def staged(ck, s, label):
    W, A = "optim_wrapper['architecture']", "optim_wrapper['mutator']"
    D = 'isinstance(optim_wrapper, OptimWrapperDict)'
    need = [h for h in s.calls('self.need_update_mutator(_e)')]
    ck.need('stage-asked', need, s, '%s: the stage is not looked at' % label)
    for h in need:
        ck.ob('stage-asked', s.find(h.b['_e'], "_.get_info('epoch')"), h,
              '%s: not the current epoch' % label)
    N = 'self.need_update_mutator(_)'
    seqs = {}
    for k, key, cond in ((W, 'architecture', D),
                         (A, 'mutator', '%s and %s' % (D, N))):
        for m in ('backward(_l, ...)', 'step(...)', 'zero_grad(...)'):
            hs = s.calls('%s.%s' % (k, m))
            if m[0] == 'b':
                hs += s.calls('%s.backward(_l)' % k)
                hs = list({id(h.e): h for h in hs}.values())
            up = s.calls('%s.update_params(_l)' % k)
            n = m.split('(')[0]
            if not hs and up:
                hs = up
            ck.need('optimiser-turn', hs, s, '%s: no %s of the %s' % (
                label, n, NAMES[KEYS[key]]), 1)
            ck.iff('optimiser-turn', hs, s, cond, '%s: %s of the %s not '
                   'exactly in its stage' % (label, n, NAMES[KEYS[key]]))
            seqs[key, n] = hs
        ck.order('optimiser-turn', seqs[key, 'backward'], seqs[key, 'step'],
                 s, '%s: stepped before backward' % label)
        for b in seqs[key, 'step']:
            for z in seqs[key, 'zero_grad']:
                ck.ob('optimiser-turn', b.e is z.e or z.e.seq > b.e.seq, z,
                      '%s: gradients dropped before the step' % label)
    for h in seqs['architecture', 'backward']:
        ck.ob('own-loss', s.find(h.b['_l'], 'self(...)') and not s.find(
            h.b['_l'], 'self.compute_mutator_loss(...)'), h,
            '%s: the weights are not trained on the task loss' % label)
        rg = h.arg(1, 'retain_graph')
        ck.ob('graph-kept', rg is not None and (
            s.match(rg, 'True') is not None or s.match(rg, N) is not None),
            h, '%s: the graph of the sampled weights is freed before the '
            'architecture step' % label)
    for h in seqs['mutator', 'backward']:
        ck.ob('own-loss', s.find(h.b['_l'], 'self.compute_mutator_loss(...)'),
              h, '%s: the architecture is not trained on its own loss' %
              label)
    for z in seqs['architecture', 'zero_grad']:
        ck.ob('gradients-kept-apart', all(
            z.e.seq < b.e.seq for b in seqs['mutator', 'backward']), z,
            '%s: weight gradients linger into the architecture step' % label)
    hg = s.calls('self.handle_grads()')
    ck.need('scaled-before-step', hg, s, '%s: architecture gradients are not '
            'scaled' % label, 1)
    ck.iff('scaled-before-step', hg, s, '%s and %s' % (D, N), '%s: scaled in '
           'the wrong stage' % label)
    ck.order('scaled-before-step', seqs['mutator', 'backward'], hg, s,
             '%s: scaled before they exist' % label)
    ck.order('scaled-before-step', hg, seqs['mutator', 'step'], s,
             '%s: scaled after they are used' % label)
    fx = s.calls('self._fix_archtecture()')
    ck.need('fixed-once', fx, s, '%s: never fixed' % label, 1)
    for h in fx:
        ok = s.m.equiv(h.e.guard, '%s and _.get_info("epoch") == '
                       'self.finetune_epochs and self.is_supernet' % D) or \
            s.m.equiv(h.e.guard, '%s and _.get_info("epoch") >= '
                      'self.finetune_epochs and self.is_supernet' % D)
        ck.ob('fixed-once', ok, h, '%s: not fixed exactly once, at '
              'finetune_epochs' % label)
        fl = s.sets('self', 'is_supernet', 'False')
        ck.need('fixed-once', fl, s, '%s: fixed again in every iteration' %
                label, 1)
        for x in fl:
            ck.ob('fixed-once', x.e.guard == h.e.guard or s.m.equiv_mod(
                x.e.guard, '%s' % D, 'True') or show(x.e.guard) == show(
                    h.e.guard), x, '%s: marked fixed at another point' %
                label)
        fw = s.calls('self(...)')
        for w in fw:
            ck.ob('fixed-first', h.e.seq < w.e.seq or jointly_false(
                s, h, w), w, '%s: trained before it is fixed' % label)
        br = s.calls('_.broadcast(ELEM(_v), src=0)') or s.calls(
            '_.broadcast(_v, src=0)') or s.calls('broadcast(_v, src=0)')
        ck.need('agreed-before-fixing', br, s, '%s: processes fix their own '
                'architecture' % label)
        for b in br:
            ck.ob('agreed-before-fixing', b.e.seq < h.e.seq and b.e.loops and
                  all(whole(s, l) for l in b.e.loops) and over(
                      s, b.e.loops[0], 'self.mutator.arch_params'), b,
                  '%s: not every architecture parameter is agreed on before '
                  'fixing' % label)
            if label == 'DSNAS':
                ck.ob('agreed-before-fixing', b.guard_implies(
                    'is_initialized()'), b, '%s: communicates without a '
                    'process group' % label)
    up = [h for h in s.calls('optim_wrapper.update_params(_l)')]
    ck.need('plain-step', up, s, '%s: with a single optimiser nothing is '
            'updated' % label, 1)
    ck.iff('plain-step', up, s, 'not %s' % D, '%s: plain step' % label)
    plain_forward(ck, s, label)
    for h in s.calls('self(...)'):
        if case(s, h.e.guard, {D: True}) is not False:
            batch_forward(ck, s, h, label, None)
            ck.ob('loss-forward', h.arg(2, 'mode') == const('loss'), h,
                  '%s: forward not in loss mode' % label)
            ck.ob('own-context', h.in_scope(W + '.optim_context(_)') or
                  case(s, h.e.guard, {D: False}) is not False, h,
                  '%s: forward outside the context of its optimiser' % label)


def jointly_false(s, a, b):
    return f_and(a.e.guard, b.e.guard) is False


# ------------------------------------------------------------- constructor
def constructor(ck):
    C = 'SeparateOptimWrapperConstructor'
    i = ck.fn('%s.__init__' % C)
    s = ck.fn('%s.__call__' % C)
    st = [h for h in i.items('self.constructors')]
    if not st:
        st = [h for h in i.sets('self', 'constructors')
              if h.e.value[0] == 'comp']
    ck.need('constructor-per-key', st, i, 'no constructor per key')
    for h in i.calls('DefaultOptimWrapperConstructor(...)'):
        ck.ob('constructor-per-key', len(h.e.loops) == 1 and whole(
            i, h.e.loops[0]) and h.guard_is('True') and over(
                i, h.e.loops[0], 'self.optim_cfg', 'optim_wrapper_cfg'), h,
              'not one constructor per key')
        c = h.arg(0, 'optim_wrapper_cfg')
        ck.ob('config-not-consumed', c is not None and copied(i, c), h,
              'the configuration of the caller is consumed')
        p = h.arg(1, 'paramwise_cfg')
        ck.ob('own-paramwise', p is not None and any(
            i.find(p, q) for q in ("_.pop('paramwise_cfg', ...)",
                                   "_.get('paramwise_cfg', ...)")), h, 'the paramwise settings are dropped')
    made = [h for h in s.kind('call') if any(
        s.match(h.e.func, q) is not None for q in (
            'self.constructors[_k]', 'ELEM(self.constructors.values())'))]
    ck.need('own-submodule', made, s, 'no optimiser is constructed', 1)
    for h in made:
        m = h.arg(0, 'module')
        k = s.match(h.e.func, 'self.constructors[_k]')
        ok = False
        for _, x in leaves(s, m):
            b = s.match(x, '_m._modules[_k]') or s.match(
                x, 'getattr(_m, _k)') or s.match(x, '_m.get_submodule(_k)')
            ok = b is not None and k is not None and same(
                s, b['_k'], k['_k'])
            if not ok:
                break
            for g, y in leaves(s, b['_m']):
                ck.ob('unwrapped', s.m.implies(
                    g, "hasattr(module, 'module')") == (
                        s.match(y, 'module.module') is not None) or
                    s.match(y, 'module.module') is not None and s.m.implies(
                        g, 'is_model_wrapper(module)'), h,
                    'the submodules are looked up on the wrapper')
        ck.ob('own-submodule', ok, h, 'an optimiser is not built from the '
              'submodule of its own key')
        ck.ob('own-submodule', len(h.e.loops) == 1 and whole(
            s, h.e.loops[0]) and h.guard_is('True'), h,
            'not an optimiser for every key')
    r = s.match(s.ret(), 'OptimWrapperDict(...)')
    ck.ob('returned', r is not None, s, 'not a dictionary of optimisers')
    stores = [h for h in s.kind('setitem')]
    comps = [x for x in s.m.deep(s.ret()) if x[0] == 'comp']
    ck.ob('returned', bool(comps) or any(
        x[0] == 'alloc' and x == h.e.base for h in stores
        for x in s.m.deep(s.ret())), s, 'optimisers are dropped')
    for h in stores:
        k = [s.match(x, 'self.constructors[_k](_m)')
             for x in [h.e.value]]
        ck.ob('returned', k[0] is not None and same(
            s, h.e.attr, k[0]['_k']) and len(h.e.loops) == 1, h,
            'an optimiser is stored under the wrong key')


def copied(i, c):
    return any(x[0] == 'call' and (
        x[1][0] == 'attr' and x[1][2] == 'copy' or x[1] in (
            ('global', 'copy.deepcopy'), ('global', 'copy.copy'),
            ('global', 'dict')))
        for x in [full(i, c)])


# --------------------------------------------------------------- ownership
def ownership(ck):
    s = ck.fn('NasMutator.prepare_arch_params')
    st = s.sets('self', '_arch_params') + s.sets('self', 'arch_params')
    ck.need('arch-params-of-mutator', st, s,
            'architecture parameters are not held by the mutator')
    ck.ob('arch-params-of-mutator', any(
        s.find(h.e.value, 'build_arch_param(...)') or 'ParameterDict' in
        show(full(s, h.e.value)) for h in st), s, 'architecture parameters are not '
        'registered as parameters of the mutator')
    # mutables get them as call arguments, never as their own attribute
    n = 0
    for c in [c for m in ck.prog.modules.values()
              for c in m.classes.values()]:
        f = c.methods.get('set_forward_args')
        if f is None or 'arch_param' not in [a.arg for a in f.node.args.args]:
            continue
        q = ck.func_summary(f, c)
        n += 1
        for h in q.kind('setattr'):
            ck.ob('arch-params-not-of-network', strip(h.e.value) !=
                  ('param', 'arch_param'), h, 'an architecture parameter '
                  'is registered on the network, whose optimiser would '
                  'own it too')
        q.closures()
    ck.floor('set_forward_args', n, 1)
