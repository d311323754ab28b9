"""C26 quantisation loops: observers and fake quantisers are switched at the
right moments; learned-step quantisers are initialised once."""
from .common import *
from .arith import *

TRUE = 'OR(int(True), 1, True)'
FALSE = 'OR(int(False), 0, False)'


def check(ck):
    ck.sections(training, learned, calibration, calibrate, switches, forward,
                reported, observers, flags, due)


# ------------------------------------------------------------- the switches
def toggles(s):
    """switches applied to the whole model, in order"""
    out = []
    for h in s.calls('_.apply(_f)'):
        b = s.match(h.e.func[1], 'OR(self.runner.model, self.runner.model.'
                    'module)')
        f = h.b['_f']
        for g, v in leaves(s, f, h.e.guard):
            if v[0] == 'global' and b is not None:
                out.append((h, v[1].rpartition('.')[2], g))
    return sorted(out, key=lambda x: x[0].e.seq)


def state(s, ts, on, off, start=False):
    """formula under which a switch is on after the toggles"""
    cur = start
    for h, n, g in ts:
        if n in on:
            cur = OR(cur, g)
        elif n in off:
            cur = AND(cur, NOT(g))
    return cur


def AND(a, b):
    return f_and(a, b)


def OR(a, b):
    return f_or(a, b)


def NOT(a):
    return f_not(a)


def inside(h, l):
    return l in h.e.loops


def is_(s, f, pats):
    return any(s.m.equiv(f, p) for p in pats)


def batches(s, name='dataloader'):
    return [(h, l) for h in s.calls('self.run_iter(...)') for l in h.e.loops
            if over(s, l, 'self.' + name)]


POINT = ['self.%(a)s > 0 and self._epoch + 1 >= self.%(a)s',
         'self.%(a)s >= 1 and self._epoch + 1 >= self.%(a)s',
         'self.%(a)s > 0 and self._epoch >= self.%(a)s - 1']


def point(a):
    return [p % {'a': a} for p in POINT]


def epoch(ck, s, fn='training'):
    """the loop over epochs, its batches and what follows them"""
    bs = batches(s)
    ck.need('batches', bs, s, 'the model is trained on batches')
    for h, l in bs:
        outer = [x for x in h.e.loops if x != l]
        ck.ob('batches', len(outer) == 1, h, 'in every epoch')
        ck.ob('batches', whole(s, l) and not s.E.loops[l]['continues'] and
              h.e.guard is True, h, 'on every batch')
        ck.ob('batches', s.match(h.arg(0, 'idx') or NONE, 'IDX(self.'
                                 'dataloader)') is not None and s.match(
            h.arg(1, 'data_batch') or NONE, 'ELEM(self.dataloader)')
            is not None, h, 'with its number')
        ms = [m for m in s.calls('_._()') if m.e.func[2] in (
            'train', 'eval') and m.e.seq < h.e.seq and s.match(
            m.e.func[1], 'self.runner.model') is not None and set(
            m.e.loops) == set(outer)]
        ck.ob('training-mode', bool(ms) and ms[-1].e.func[2] == 'train' and
              ms[-1].e.guard is True and not ms[-1].e.args, h, 'in '
              'training mode')
        after = [x for x in s.ev if x.seq > h.e.seq and l not in x.loops and
                 set(outer) <= set(x.loops)]
        sy = [x for x in s.calls('self.runner.model.sync_qparams(...)')
              if x.e.seq > h.e.seq and l not in x.e.loops]
        ck.ob('synchronised', bool(sy), h, 'the quantisation parameters '
              'are shared with the other model variants')
        for x in sy:
            ck.ob('synchronised', s.match(x.arg(0, 'src_mode') or NONE,
                                          "'loss'") is not None, x, 'those '
                  'of the trained variant')
            ck.ob('synchronised', x.e.guard is True and x.e.loops == tuple(
                outer), x, 'after every epoch')
        ends = [x for x in s.calls('self.runner.call_hook("after_train_'
                                   'epoch", ...)') + s.calls(
            'self.runner.val_loop.run()') if x.e.seq > h.e.seq]
        ck.ob('epoch-end', len(ends) >= 2, h, 'hooks and validation follow')
        for x in ends:
            ck.ob('synchronised', any(y.e.seq < x.e.seq for y in sy), x,
                  'before anyone looks at the model')
        adv = [x for x in s.sets('self', '_epoch')]
        ck.ob('epoch-number', len(adv) == 1 and adv[0].e.guard is True and
              adv[0].e.loops == tuple(outer) and adv[0].e.seq > h.e.seq and
              Arith(s, {'E': 'self._epoch'}).same(adv[0].e.value, 'E + 1'),
              s, 'each epoch is counted once, after its batches')
    return bs


def training(ck):
    s = ck.fn('QATEpochBasedLoop.run')
    ts = toggles(s)
    ck.floor('switches', len(ts), 4)
    for h, l in epoch(ck, s):
        ep = [x for x in h.e.loops if x != l]
        pre = [t for t in ts if t[0].e.seq < h.e.seq]
        for t in pre:
            ck.ob('in-epoch', set(ep) <= set(t[0].e.loops) and l not in
                  t[0].e.loops, t[0], 'the switches are set in every epoch')
        fq = state(s, pre, ('enable_fake_quant',), ('disable_fake_quant',))
        ck.ob('simulated', fq is True, h, 'training simulates '
              'quantisation')
        ob = state(s, pre, ('disable_observer',), ('enable_observer',),
                   False)
        ck.ob('statistics', is_(s, ob, point('disable_observer_begin')), h,
              'statistics are collected until the configured epoch')
        known = state(s, pre, ('disable_observer', 'enable_observer'), ())
        ck.ob('statistics', known is True, h, 'and switched on before')
        fr = [t for t in pre if t[1] == 'freeze_bn_stats']
        f = False
        for t in fr:
            f = OR(f, t[2])
        ck.ob('frozen', is_(s, f, point(
            'freeze_bn_begin')), h, 'batch norm is frozen from the '
            'configured epoch on')
        ck.ob('frozen', not [t for t in ts if t[1] == 'update_bn_stats'], h,
              'for good')
        later(ck, s, h, l, ts, 'enable_fake_quant', 'disable_observer',
              ('disable_fake_quant',), ('enable_observer',))


def later(ck, s, h, l, ts, fq, ob, nofq, noob):
    """what is validated or saved simulates and collects nothing"""
    ends = [x for x in s.calls('self.runner.call_hook("after_train_epoch", '
                               '...)') + s.calls(
        'self.runner.val_loop.run()') if x.e.seq > h.e.seq]
    for x in ends:
        mid = [t for t in ts if h.e.seq < t[0].e.seq < x.e.seq]
        ok = [t for t in mid if l not in t[0].e.loops]
        ck.ob('validated', state(s, ok, (fq,), nofq) is True, x,
              'what is validated and saved simulates quantisation')
        ck.ob('validated', state(s, ok, (ob,), noob) is True, x,
              'and collects no statistics')
    sy = [x.e.seq for x in s.calls('self.runner.model.sync_qparams(...)')]
    for t in ts:
        if t[1] in (fq, ob) and t[0].e.seq > h.e.seq and l not in t[
                0].e.loops and sy:
            ck.ob('after-sync', t[0].e.seq > max(sy), t[0], 'switches set '
                  'for validation are not overwritten by the '
                  'synchronisation')


def learned(ck):
    s = ck.fn('LSQEpochBasedLoop.run')
    ts = toggles(s)
    on = ('enable_param_learning',)
    st = ('enable_static_estimate',)
    for h, l in epoch(ck, s):
        pre = [t for t in ts if t[0].e.seq < h.e.seq]
        ep = [x for x in h.e.loops if x != l]
        base = [t for t in pre if l not in t[0].e.loops]
        ck.ob('learning', state(s, base, on, st + ('enable_val',)) is True,
              h, 'scales are learned in every epoch')
        own = [t for t in pre if l in t[0].e.loops]
        first = state(s, own, st, on + ('enable_val',))
        ck.ob('first-batch', is_(s, first, [
            'self.is_first_batch']), h, 'the first batch, and no other, '
            'initialises the scales from data')
        post = [t for t in ts if l in t[0].e.loops and t[0].e.seq > h.e.seq]
        back = state(s, post, on, st + ('enable_val',))
        ck.ob('first-batch', s.m.implied_by(back, 'self.is_first_batch'), h,
              'afterwards they are learned')
        fr = [t for t in pre if t[1] == 'freeze_bn_stats']
        f = False
        for t in fr:
            f = OR(f, t[2])
        ck.ob('frozen', is_(s, f, point(
            'freeze_bn_begin')), h, 'batch norm is frozen from the '
            'configured epoch on')
        # the flag
        inl = [x for x in s.sets('self', 'is_first_batch') if l in
               x.e.loops]
        ck.ob('once', bool(inl) and all(x.e.seq > h.e.seq for x in inl), h,
              'the flag is cleared after the first batch')
        for x in inl:
            ck.ob('once', s.match(x.e.value, FALSE) is not None and
                  s.m.implied_by(x.e.guard, 'self.is_first_batch'), x,
                  'for good')
        for x in s.sets('self', 'is_first_batch'):
            if x in inl or l in x.e.loops:
                continue
            ck.ob('once', resets(s, x), x, 'and never set again')
        ck.ob('resumed', any(resumes(s, x, h) for x in s.sets(
            'self', 'is_first_batch')) or s.m.implies(
                first, 'self._iter == 0'), h, 'a resumed run does not '
            'initialise them again')
        # agreement between processes
        ar = [x for x in s.calls('all_reduce_params(...)') if l in
              x.e.loops]
        ck.need('agreed', ar, s, 'processes agree on the initial scales')
        for x in ar:
            ck.ob('agreed', is_(s, x.e.guard, [
                'self.is_first_batch and self.distributed']), x,
                'when there are several')
            ck.ob('agreed', x.e.seq > h.e.seq, x, 'after the first batch')
            ck.ob('agreed', s.match(x.arg(1, 'op') or NONE, "'mean'")
                  is not None or s.match(x.arg(2, 'op') or NONE, "'mean'")
                  is not None, x, 'on their mean')
            ck.ob('agreed', s.match(x.arg(0, 'params') or NONE,
                                    'self.runner.model.parameters()')
                  is not None, x, 'for all parameters')
        later(ck, s, h, l, ts, 'enable_val', 'enable_val', on + st, on + st)
    i = ck.fn('LSQEpochBasedLoop.__init__')
    hs = i.sets('self', 'is_first_batch')
    ck.always('once', hs, i, 'a new run starts with the first batch')
    for x in hs:
        ck.ob('once', i.match(x.e.value, TRUE) is not None, x, 'pending')
    hs = i.sets('self', 'distributed')
    ck.need('agreed', hs, i, 'the loop knows whether it is distributed')
    for x in hs:
        ck.ob('agreed', i.match(x.e.value, 'is_distributed()') is not None,
              x, 'by asking')
    for c in ck.prog.subclasses(ck.cls('LSQEpochBasedLoop')):
        for f in c.methods.values():
            if f.qual.endswith('__init__'):
                continue
            t = ck.func_summary(f, c)
            for x in t.sets('self', 'is_first_batch'):
                ck.ob('once', t.match(x.e.value, TRUE) is None, x, 'the '
                      'flag is not set again')


def resets(s, x):
    """a store to the flag can only clear it"""
    return s.match(x.e.value, FALSE) is not None or s.match(
        x.e.value, 'self.is_first_batch and _a') is not None


def resumes(s, x, h):
    return x.e.seq < h.e.seq and x.e.guard is True and any(s.match(
        x.e.value, 'self.is_first_batch and self.%s == 0' % n)
        is not None for n in ('_iter', 'iter', '_epoch', 'epoch'))


# -------------------------------------------------------------- calibration
def calibration(ck):
    s = ck.fn('PTQLoop.run', opaque=('run_iter',))
    ts = toggles(s)
    bs = batches(s, 'calibrate_dataloader')
    ck.need('calibration', bs, s, 'the model is calibrated')
    ck.never('calibration', s.calls('self.runner.model.train(...)') +
             s.calls('_.backward()') + s.calls('_.update_params(...)') +
             s.calls('_.train_step(...)'), s, 'nothing is trained')
    vs = s.calls('self.runner.val_loop.run()')
    for h, l in bs:
        pre = [t for t in ts if t[0].e.seq < h.e.seq]
        g = case(s, h.e.guard, {'self.only_val': False})
        ck.ob('only-val', s.m.implies(h.e.guard, 'not self.only_val'), h,
              'calibration can be left out')
        f = case(s, state(s, pre, ('enable_observer',), (
            'disable_observer',)), {'self.only_val': False})
        ck.ob('collects', f is True, h, 'calibration collects statistics')
        ms = [m for m in s.calls('_._(...)') if m.e.func[2] in (
            'train', 'eval') and m.e.seq < h.e.seq]
        ck.ob('not-training', bool(ms) and ms[-1].e.func[2] == 'eval' and
              s.match(ms[-1].e.func[1], 'self.runner.model') is not None and
              ms[-1].e.guard is True, h, 'in evaluation mode')
        L = s.E.loops[l]
        run = [p for p in ('IDX(self.calibrate_dataloader) == '
                           'self.calibrate_steps',
                           'IDX(self.calibrate_dataloader) >= '
                           'self.calibrate_steps')
               if s.m.equiv(g, 'not (%s)' % p)]
        ck.ob('bounded', bool(run) and len(L['breaks']) >= 1, h, 'at most '
              'the configured number of batches is used')
        brk = [e for e in s.ev if e.kind == 'break' and e.loops and
               e.loops[-1] == l]
        for e in brk:
            ck.ob('bounded', e.seq < h.e.seq, h, 'counted before they are '
                  'used')
        ck.ob('bounded', not L['continues'], h, 'without leaving any out')
        ck.ob('own-batch', s.match(h.arg(1, 'data_batch') or NONE,
                                   'ELEM(self.calibrate_dataloader)')
              is not None, h, 'batches of the calibration data')
        for x in vs + s.calls('self.runner.save_checkpoint(...)'):
            if x.e.seq < h.e.seq:
                ck.ob('quantised', False, x, 'the calibrated model is used')
                continue
            mid = [t for t in ts if h.e.seq < t[0].e.seq < x.e.seq and l
                   not in t[0].e.loops]
            for on, off in (('enable_fake_quant', 'disable_fake_quant'),
                            ('disable_observer', 'enable_observer')):
                f = state(s, mid, (on,), (off,))
                ck.ob('quantised', f is True or f_implies(s.m.skey(
                    s.m.norm(x.e.guard)), s.m.skey(s.m.norm(f))), x, 'what is saved and '
                    'validated simulates quantisation and collects no '
                    'statistics')
    ck.always('validated', vs, s, 'the quantised model is validated')
    sv = s.calls('self.runner.save_checkpoint(...)')
    ck.need('saved', sv, s, 'the calibrated model is saved')
    for h in sv:
        ck.ob('saved', h.guard_is('not self.only_val'), h, 'whenever it was '
              'calibrated')
    r = ck.fn('PTQLoop.run_iter')
    cs = r.calls('self.runner.model.calibrate_step(...)')
    ck.always('calibration', cs, r, 'a step calibrates')
    for h in cs:
        ck.ob('own-batch', r.match(h.arg(0, 'data') or NONE, 'data_batch')
              is not None, h, 'with its batch')
        ck.ob('not-training', no_grad(h), h, 'without gradients')
    i = ck.fn('PTQLoop.__init__')
    for n in ('calibrate_steps', 'only_val'):
        hs = i.sets('self', n)
        ck.always('configured', hs, i, '%s is kept' % n)
        for h in hs:
            ck.ob('configured', i.match(h.e.value, n) is not None, h,
                  'as given')
    hs = i.sets('self', 'calibrate_dataloader')
    ck.need('configured', hs, i, 'calibration data are kept')
    for h in hs:
        for g, v in leaves(i, h.e.value, h.e.guard):
            ck.ob('configured', i.match(v, 'OR(calibrate_dataloader, runner.'
                                        'build_dataloader(calibrate_'
                                        'dataloader, ...))') is not None, h,
                  'the given ones')


def calibrate(ck):
    s = ck.fn('MMArchitectureQuant.calibrate_step', opaque=('_run_forward',))
    rs = s.returns()
    fw = [h for h in s.calls('self._run_forward(...)')]
    ck.always('calibrate-step', fw, s, 'a calibration step runs the model')
    for h in fw:
        ck.ob('calibrate-step', s.match(h.arg(0, 'data') or NONE,
              'OR(self.data_preprocessor(data, False), self.data_'
              'preprocessor(data, training=False))') is not None, h,
              'on data preprocessed for evaluation')
        ck.ob('calibrate-step', s.match(h.arg(1, 'mode') or NONE,
                                        "OR('predict', 'tensor')")
              is not None, h, 'without computing a loss')
    d = ck.fn('MMArchitectureQuantDDP.calibrate_step')
    ck.ob('calibrate-step', d.match(d.ret(), 'self.module.calibrate_step('
                                    'data)') is not None, d, 'the wrapper '
          'forwards the step')
    d = ck.fn('MMArchitectureQuantDDP.sync_qparams')
    ck.always('synchronised', d.calls('self.module.sync_qparams(src_mode)'),
              d, 'the wrapper forwards the synchronisation')


# ------------------------------------------------------- learnable quantiser
MODES = {'enable_param_learning': (1, 1, 0),
         'enable_static_estimate': (0, 1, 1),
         'enable_val': (0, 1, 0),
         'enable_static_observation': (0, 0, 1)}
BUF = ('learning_enabled', 'fake_quant_enabled', 'static_enabled')


def switches(ck):
    for m, want in MODES.items():
        s = ck.fn('LearnableFakeQuantize.' + m)
        for b, w in zip(BUF, want):
            final(ck, s, b, w, m)
        learns(ck, s, want[0], m)
    for m, b in (('toggle_observer_update', 'static_enabled'),
                 ('enable_observer', 'static_enabled'),
                 ('toggle_fake_quant', 'fake_quant_enabled'),
                 ('toggle_qparam_learning', 'learning_enabled')):
        s = ck.fn('LearnableFakeQuantize.' + m)
        hs = stores(s, b)
        ck.always('switch', hs, s, '%s switches' % m)
        for h in hs:
            ck.ob('switch', s.match(h.e.value, 'OR(int(enabled), enabled, '
                                    'int(bool(enabled)))') is not None, h,
                  'as told')
        for o in BUF:
            if o != b:
                ck.never('switch', stores(s, o), s, 'and nothing else')
    s = ck.fn('LearnableFakeQuantize.toggle_qparam_learning')
    for a, g in (('scale', True), ('zero_point',
                                   'self.zero_point_trainable')):
        hs = [h for h in s.sets('self.' + a, 'requires_grad')]
        ck.need('trainable', hs, s, 'the %s is learned or not' % a)
        for h in hs:
            ck.ob('trainable', s.match(h.e.value, 'OR(enabled, bool('
                                       'enabled))') is not None and (
                h.e.guard is True if g is True else h.guard_is(g)), h,
                'as told')
    p = 'mmrazor.models.fake_quants.lsq.'
    for m in ('enable_param_learning', 'enable_static_estimate',
              'enable_val'):
        s = ck.fn(p + m)
        hs = [h for h in s.calls('_._()') if h.e.func[2] == m]
        ck.need('applied', hs, s, 'the switch reaches the quantisers')
        ck.iff('applied', hs, s, 'isinstance(mod, LearnableFakeQuantize)',
               'every learnable one')
        for h in hs:
            ck.ob('applied', s.match(h.e.func[1], 'mod') is not None, h,
                  'of the model')


def stores(s, b):
    return [h for h in s.items('self.' + b)]


def final(ck, s, b, w, m):
    hs = sorted(stores(s, b), key=lambda h: h.e.seq)
    ck.ob('mode', bool(hs), s, '%s sets %s' % (m, b))
    if hs:
        h = hs[-1]
        ck.ob('mode', h.e.guard is True and s.match(
            h.e.value, TRUE if w else FALSE) is not None, h, '%s leaves %s '
            '%s' % (m, b, 'on' if w else 'off'))


def learns(ck, s, w, m):
    for a, g in (('scale', True), ('zero_point',
                                   'self.zero_point_trainable')):
        hs = s.sets('self.' + a, 'requires_grad')
        ck.ob('mode', bool(hs) and s.match(
            hs[-1].e.value, 'OR(True, 1)' if w else 'OR(False, 0)')
            is not None and (hs[-1].e.guard is True if g is True else
                             hs[-1].when(g)), s, '%s %s the %s' % (
                m, 'learns' if w else 'keeps', a))




def forward(ck):
    s = ck.fn('LearnableFakeQuantize.forward')
    S = 'self.static_enabled[0] == 1'
    obs = s.calls('self.activation_post_process(...)')
    ck.need('observes', obs, s, 'statistics are collected')
    ck.iff('observes', obs, s, S, 'exactly while estimating')
    for h in obs:
        ck.ob('observes', s.match(h.arg(0) or NONE, 'OR(X.detach(), X.data)')
              is not None, h, 'from the input, without its gradient')
    cq = s.calls('self.activation_post_process.calculate_qparams()')
    ck.need('estimates', cq, s, 'parameters are estimated')
    for h in cq:
        ck.ob('estimates', any(o.e.seq < h.e.seq for o in obs), h, 'from '
              'what has been observed')
    for n, i in (('scale', 0), ('zero_point', 1)):
        cs = s.calls('self.%s.data.copy_(_v)' % n) + s.calls(
            'self.%s.copy_(_v)' % n)
        ck.need('estimates', cs, s, 'the %s takes its estimate' % n)
        ck.iff('estimates', cs, s, S, 'exactly while estimating')
        for h in cs:
            src = [x for x in s.m.deep(h.b['_v']) if x[0] == 'sub' and
                   s.match(x[1], 'self.activation_post_process.calculate_'
                           'qparams()') is not None]
            ck.ob('estimates', bool(src) and all(x[2] == ('const', i)
                                                 for x in src), h,
                  'its own')
        rs = s.sets('self.' + n, 'data')
        for h in rs:
            ck.ob('estimates', h.guard_implies(S) and all(
                h.e.seq < c.e.seq for c in cs), h, 'the %s is shaped before '
                'it is estimated' % n)
        ck.ob('shaped', any(h.when('%s and %s' % (S, C)) for h in rs
                            for C in CHS), s, 'with one %s per channel' % n)
    cl = s.calls('self.scale.data.clamp_(...)')
    ck.need('positive', cl, s, 'a learned scale stays positive')
    for h in cl:
        ck.ob('positive', s.match(h.arg(0, 'min') or NONE,
                                  'self.eps.item()') is not None, h,
              'by clamping it from below')
        ck.ob('positive', h.when('not (%s)' % S), h, 'whenever it is not '
              'estimated')
    fq = s.calls('torch._fake_quantize_learnable_per_channel_affine(...)')
    ft = s.calls('torch._fake_quantize_learnable_per_tensor_affine(...)')
    F = 'self.fake_quant_enabled[0] == 1'
    for hs, ch in ((fq, True), (ft, False)):
        ck.need('simulates', hs, s, 'quantisation is simulated')
        for h in hs:
            ck.ob('simulates', any(is_(s, h.e.guard, [
                '%s and %s%s' % (F, '' if ch else 'not ', C)])
                for C in CHS), h, 'exactly when switched on, per channel '
                'for a per-channel scheme')
            want = ['X', 'self.scale', 'self.zero_point'] + (
                ['self.ch_axis'] if ch else []) + [
                    'self.quant_min', 'self.quant_max']
            got = list(h.e.args)
            ck.ob('simulates', len(got) == len(want) + 1 and all(
                s.match(a, w) is not None for a, w in zip(got, want)), h,
                'with the own parameters and range')
            ck.ob('simulates', all(o.e.seq < h.e.seq for o in obs + cl), h,
                  'after they are up to date')
            if len(got) > len(want):
                for on in (True, False):
                    for g, v in cases(s, got[-1], h.e.guard):
                        if not possible_(s, case(s, g, {
                                'self.use_grad_scaling': on})):
                            continue
                        ck.ob('gradient-scale', root(s, v, on), h, 'gradients of the '
                            'parameters are scaled as configured')
    for g, v in leaves(s, s.ret()):
        q = s.match(v, 'OR(torch._fake_quantize_learnable_per_channel_affine('
                    '...), torch._fake_quantize_learnable_per_tensor_affine('
                    '...))') is not None
        on = s.m.skey(s.m.norm(case(s, g, {F: False})))
        off = s.m.skey(s.m.norm(case(s, g, {F: True})))
        if q:
            ck.ob('passes', on is False, s, 'without simulation the input '
                  'is returned')
        else:
            ck.ob('passes', s.match(v, 'X') is not None and off is False, s,
                  'unchanged')
    i = ck.fn('LearnableFakeQuantize.calculate_qparams')
    for k, n in ((0, 'scale'), (1, 'zero_point')):
        ck.ob('exported', any(s2 for s2 in [i.find(i.ret(), 'self.' + n)]),
              i, 'the learned %s is what deployment gets' % n)


CHS = ['(self.qscheme in (torch.per_channel_symmetric, torch.per_channel_'
       'affine))',
       '(self.qscheme in [torch.per_channel_symmetric, torch.per_channel_'
       'affine])']


def possible_(s, g):
    return s.m.skey(s.m.norm(g)) is not False


def root(s, v, on):
    if not on:
        return s.match(v, 'OR(1.0, 1)') is not None
    return s.match(v, 'OR(1.0 / (X.numel() * self.quant_max) ** 0.5, '
                          '1.0 / (self.quant_max * X.numel()) ** 0.5, '
                          '(X.numel() * self.quant_max) ** -0.5, 1.0 / math.'
                          'sqrt(X.numel() * self.quant_max))') is not None


def reported(ck):
    """parameters handed to deployment"""
    s = ck.fn('LearnableFakeQuantize.calculate_qparams')
    for g, v in leaves(s, s.ret()):
        it = list(s.m.forms(v))[-1]
        el = it[2] if it[0] == 'alloc' else it[1:] if it[0] in (
            'tuple',) else ()
        el = el[0] if len(el) == 1 and isinstance(el[0], tuple) and el[
            0] and isinstance(el[0][0], tuple) else el
        ck.ob('exported', len(el) == 2, s, 'scale and zero point')
        if len(el) == 2:
            ck.ob('exported', s.match(el[0], 'self.scale.detach()')
                  is not None or bool(s.find(el[0], 'self.scale')), s, 'the '
                  'scale first')
            ck.ob('exported', bool(s.find(el[1], 'self.zero_point')) and
                  not s.find(el[1], 'self.scale'), s, 'then the zero point')
            ck.ob('exported', bool(s.find(el[1], '_.clamp(self.quant_min, '
                                          'self.quant_max)') or s.find(
                el[1], 'torch.clamp(_, self.quant_min, self.quant_max)')),
                s, 'within the range')
            ck.ob('exported', bool(s.find(el[1], '_.round()') or s.find(
                el[1], 'torch.round(_)')), s, 'as an integer')
    cl = s.calls('self.scale.data.clamp_(min=self.eps.item())')
    ck.always('exported', cl, s, 'a positive scale')


# ---------------------------------------------------------------- observers
def observers(ck):
    for c in ('LSQObserver', 'LSQPerChannelObserver'):
        s = ck.fn(c + '.forward')
        ch = c != 'LSQObserver'
        E = 'x_orig.numel() == 0'
        ns = s.sets('self', 'tensor_norm')
        ck.need('norm', ns, s, 'the magnitude of the data is measured')
        for h in ns:
            ck.ob('norm', s.m.implied_by(h.e.guard, 'not (%s)' % E), h,
                  'of every batch')
            ck.ob('norm', s.match(h.e.value, 'OR(_x.abs().mean(1), '
                                  '_x.abs().mean(dim=1), torch.mean(torch.'
                                  'abs(_x), 1), torch.mean(torch.abs(_x), '
                                  'dim=1))' if ch else 'OR(_x.abs().mean(), '
                                  'torch.mean(torch.abs(_x)), torch.abs(_x)'
                                  '.mean())') is not None and bool(s.find(
                                      h.e.value, 'x_orig')), h,
                  'the mean absolute value%s' % (' of each channel' if ch
                                                 else ''))
            if ch:
                ck.ob('norm', bool(s.find(h.e.value, 'OR(torch.flatten(_, '
                      'start_dim=1), torch.flatten(_, 1), _.flatten(1), '
                      '_.flatten(start_dim=1), _.reshape(_, -1), _.view('
                      '_, -1))')), h, 'over everything in the channel')
        if ch:
            pm = s.calls('_.permute(_a)')
            ck.need('channels', pm, s, 'the channel axis comes first')
            for h in pm:
                own = list(s.m.forms(h.b['_a']))
                st = [e for e in s.ev if e.kind == 'setitem' and e.seq <
                      h.e.seq and any(b in own for b in
                                      s.m.forms(e.base))]
                ks = {show(e.attr): show(e.value) for e in st}
                ck.ob('channels', ks == {'self.ch_axis': '0',
                                         '0': 'self.ch_axis'}, h, 'it is '
                      'swapped with the first axis %s' % (ks,))
        mm = {}
        for n, fn in (('min_val', 'min'), ('max_val', 'max')):
            cs = s.calls('self.%s.copy_(_v)' % n)
            ck.need('range', cs, s, 'the %s is recorded' % n)
            for h in cs:
                ck.ob('range', s.m.implied_by(h.e.guard, 'not (%s)' % E), h,
                      'for every batch')
                if ch:
                    ck.ob('range', any(r.e.seq < h.e.seq and s.m.implied_by(
                        r.e.guard, 'not (%s)' % E) for r in s.calls(
                            'self.%s.resize_(...)' % n)), h, 'with room for '
                        'every channel')
                    old = f_or(*[g for g, v in leaves(
                        s, h.b['_v'], h.e.guard) if s.match(
                            v, 'torch.%s(...)' % fn) is not None])
                    ck.ob('range', s.m.implies(
                        old, 'not (self.min_val.numel() == 0 or self.max_val'
                        '.numel() == 0)'), h, 'earlier ones only if there '
                        'are any')
                for g, v in leaves(s, h.b['_v'], h.e.guard):
                    k = 0 if fn == 'min' else 1
                    cur = [x for x in s.m.deep(v) if x[0] == 'sub' and
                           s.match(x[1], 'torch.aminmax(...)') is not None]
                    ck.ob('range', bool(cur) and all(x[2] == ('const', k)
                                                     for x in cur), h,
                          'its own')
                    if not ch or s.match(
                            v, 'torch.%s(...)' % fn) is not None:
                        ck.ob('range', s.match(v, 'OR(torch.%s(_a, self.%s),'
                              ' torch.%s(self.%s, _a), torch.%simum(_a, '
                              'self.%s), torch.%simum(self.%s, _a))' % (
                                  (fn, n) * 4)) is not None, h, 'together '
                              'with all earlier batches')
                    elif ch:
                        ck.ob('range', s.m.implies(
                            g, 'self.min_val.numel() == 0 or self.max_val.'
                            'numel() == 0'), h, 'alone only when it is the '
                            'first')
        for g, v in leaves(s, s.ret()):
            ck.ob('passes', s.match(v, 'x_orig') is not None, s, 'the data '
                  'pass unchanged')
        q = ck.fn(c + '.calculate_qparams', opaque=('_calculate_scale',))
        base = 'PerChannelMinMaxObserver' if ch else 'MinMaxObserver'
        for g, v in leaves(q, q.ret()):
            ck.ob('lsq-scale', q.match(v, '(_a, _b)') is not None, q, 'scale '
                  'and zero point')
            b = q.match(v, '(_a, _b)')
            if b:
                ck.ob('lsq-scale', scale_(q, b['_a']), q, 'the scale comes '
                      'from the magnitude')
                ck.ob('lsq-scale', q.match(b['_b'], 'OR(%s.calculate_qparams'
                      '(self)[1], super().calculate_qparams()[1])' % base)
                      is not None, q, 'the zero point from the range')
    s = ck.fn('LSQObserverMixIn._calculate_scale', opaque=('sync_tensor',))
    A = Arith(s, {'n': 'self.tensor_norm', 'r': 'OR(math.sqrt(self.quant_'
                                                'max), self.quant_max ** '
                                                '0.5)'})
    sc = s.calls('sync_tensor(_x)')
    ck.always('agreed', sc, s, 'processes agree on the scale')
    vals = [h.b['_x'] for h in sc]
    for g, v in leaves(s, s.ret()):
        w = v
        if s.match(v, 'sync_tensor(_x)') is not None:
            w = s.match(v, 'sync_tensor(_x)')['_x']
        else:
            ck.ob('agreed', any(same(s, v, x) for x in vals), s, 'the '
                  'agreed one is returned')
        ck.ob('lsq-scale', A.same(w, '2 * n / r'), s, 'twice the magnitude '
              'over the root of the largest level')
    s = ck.fn('mmrazor.models.observers.lsq.sync_tensor')
    ar = s.calls('all_reduce(...)')
    ck.need('agreed', ar, s, 'by reducing')
    dv = s.sets('tensor', 'data')
    ck.need('agreed', dv, s, 'the mean')
    G = 'torch.distributed.is_initialized() and tensor.is_cuda'
    ck.iff('agreed', ar, s, G, 'when there are several processes')
    ck.iff('agreed', dv, s, G, 'when there are several processes')
    for h in dv:
        ck.ob('agreed', s.match(h.e.value, 'tensor.data / get_world_size()') is not None, h, 'divided by their '
              'number')
        ck.ob('agreed', all(h.e.seq < a.e.seq for a in ar), h, 'first')


def scale_(q, t):
    return q.match(t, 'OR(LSQObserverMixIn._calculate_scale(self), self.'
                   '_calculate_scale())') is not None


# -------------------------------------------------------------- constructor
def const_of(n):
    import ast
    try:
        return ast.literal_eval(n)
    except (ValueError, TypeError):
        return None


def due(ck):
    """training ends with the configured epoch; validation is not missed"""
    for c in ('QATEpochBasedLoop', 'LSQEpochBasedLoop'):
        s = ck.fn(c + '.run')
        wh = [e for e in s.ev if e.kind == 'while']
        bs = batches(s)
        for e in wh:
            ck.ob('epochs', any(s.m.equiv(while_test(e), p) for p in (
                'self._epoch < self._max_epochs', 'self._epoch < self.'
                'max_epochs')) or s.m.implies(
                    while_test(e), 'self._epoch < self._max_epochs'), s,
                'training ends after the configured epochs')
        vs = s.calls('self.runner.val_loop.run()')
        ck.need('validated', vs, s, 'the model is validated')
        ck.iff('validated', vs, s, 'self.runner.val_loop is not None and '
               'self._epoch >= self.val_begin and self._epoch % self.val_'
               'interval == 0', 'whenever it is due')
        dv = s.calls('self._decide_current_val_interval()')
        ck.need('validated', dv, s, 'the interval is updated')
        for h in vs:
            ck.ob('validated', any(d.e.seq < h.e.seq and d.e.guard is True
                                   and d.e.loops == h.e.loops for d in dv),
                  h, 'before it is used')
    names = ('runner', 'dataloader', 'max_epochs', 'val_begin',
             'val_interval', 'dynamic_intervals')
    for c in ('QATEpochBasedLoop', 'LSQEpochBasedLoop'):
        s = ck.fn(c + '.__init__')
        hs = s.calls('super().__init__(...)')
        ck.need('configured', hs, s, 'the schedule is handed on')
        h = max(hs, key=lambda h: len(h.e.frames)) if hs else None
        for k, n in enumerate(names):
            if h is not None:
                ck.ob('configured', s.match(dict(h.e.kwargs).get(n) or (
                    h.e.args[k] if k < len(h.e.args) else NONE), n)
                    is not None, h, '%s is handed on' % n)


def while_test(e):
    return e.term[1] if e.term[0] == 'form' else e.term


def flags(ck):
    s = ck.fn('QATEpochBasedLoop.__init__')
    for n in ('disable_observer_begin', 'freeze_bn_begin'):
        hs = s.sets('self', n)
        ck.always('configured', hs, s, '%s is kept' % n)
        for h in hs:
            ck.ob('configured', s.match(h.e.value, n) is not None, h,
                  'as given')
    s = ck.fn('LSQEpochBasedLoop.__init__')
    hs = s.sets('self', 'freeze_bn_begin')
    ck.need('configured', hs, s, 'freeze_bn_begin is kept')
    for h in hs:
        ck.ob('configured', s.match(h.e.value, 'freeze_bn_begin')
              is not None, h, 'as given')
    for c, ns in (('QATEpochBasedLoop', ('disable_observer_begin',
                                         'freeze_bn_begin')),
                  ('LSQEpochBasedLoop', ('freeze_bn_begin',))):
        d = init_defaults(ck.cls(c).methods['__init__'])
        for n in ns:
            v = const_of(d.get(n))
            ck.ob('configured', v is not None and v <= 0, s, '%s: %s is '
                  'off unless configured' % (c, n))
    d = init_defaults(ck.cls('PTQLoop').methods['__init__'])
    ck.ob('configured', const_of(d.get('only_val')) == 0, s, 'PTQLoop '
          'calibrates unless told not to')
    s = ck.fn('LearnableFakeQuantize.__init__')
    for n in ('quant_min', 'quant_max', 'use_grad_scaling',
              'zero_point_trainable'):
        hs = s.sets('self', n)
        ck.always('configured', hs, s, '%s is kept' % n)
        for h in hs:
            ck.ob('configured', s.match(h.e.value, n) is not None, h,
                  'as given')
    for n in ('dtype', 'qscheme'):
        hs = s.sets('self', n)
        ck.always('configured', hs, s, '%s is kept' % n)
        for h in hs:
            ck.ob('configured', s.match(h.e.value, 'OR(self.activation_post'
                  '_process.%s, observer(...).%s)' % (n, n)) is not None, h,
                  'as the observer has it')
    hs = s.sets('self', 'ch_axis')
    ck.always('configured', hs, s, 'ch_axis is kept')
    for h in hs:
        for g, v in leaves(s, h.e.value, h.e.guard):
            ck.ob('configured', s.match(v, 'OR(self.activation_post_process.'
                  'ch_axis, observer(...).ch_axis)') is not None or (
                      s.match(v, '-1') is not None and s.m.implies(
                          g, "not hasattr(self.activation_post_process, "
                          "'ch_axis')")) or bool(s.find(v, 'getattr(_, '
                                                 "'ch_axis', -1)")), h,
                  'as the observer has it')
    hs = s.sets('self', 'scale')
    ck.always('trainable', hs, s, 'the scale is a parameter')
    for h in hs:
        ck.ob('trainable', s.match(h.e.value, 'Parameter(...)') is not None
              and bool(s.find(h.e.value, 'scale')), h, 'which starts as '
              'given')
    hs = s.sets('self', 'zero_point')
    ck.iff('trainable', hs, s, 'zero_point_trainable', 'the zero point is a '
           'parameter when it is learned')
    hs = s.calls("self.register_buffer('zero_point', _v)")
    ck.iff('trainable', hs, s, 'not zero_point_trainable', 'and saved with '
           'the model otherwise')
    ck.always('configured', s.sets('self', 'activation_post_process',
                                   'observer(...)'), s, 'the observer is '
              'built')
    for b, w in (('fake_quant_enabled', 1), ('static_enabled', 1),
                 ('learning_enabled', 0)):
        hs = s.calls("self.register_buffer('%s', _v)" % b)
        ck.always('saved-state', hs, s, '%s is part of the saved state' % b)
