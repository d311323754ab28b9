"""C21 progressive pruning: gating, schedule arithmetic, DMCP phases."""
from .arith import *

MGR = 'self.prune_config_manager'
NOW = 'OR(self._iter, _.runtime_info["iter"], _.get_info("iter", ...))'
TGT = 'OR(self.target[_], ELEM(self.target.items())[1], ' \
    'ELEM(self.target.values()), self.target.get(...))'
SUP = 'OR(self.supernet[_], self.supernet.get(...))'


def check(ck):
    ck.sections(manager, gate, config, fusion, phases, arch_update, flops,
                groups, sampling, marginal)


# ------------------------------------------------------------ schedule
def manager(ck):
    f = ck.fn('ItePruneConfigManager.__init__')
    for a in ('supernet', 'target', 'step_freq', 'prune_times',
              'linear_schedule'):
        h = f.sets('self', a)
        ck.ob('manager-keeps', len(h) == 1 and same(
            f, h[0].e.value, ('param', a)) and h[0].unconditional(),
            h[0] if h else f, 'the schedule keeps its %s' % a)
    t = ck.fn('ItePruneConfigManager.is_prune_time')
    F = condition(t)
    ck.ob('prune-time', any(t.m.equiv(F, p) for p in (
        'iteration % self.step_freq == 0 and '
        'iteration // self.step_freq < self.prune_times',
        'iteration % self.step_freq == 0 and '
        'iteration // self.step_freq + 1 <= self.prune_times')), t,
        'pruning happens at every step_freq-th iteration and not more than '
        'prune_times times [%s]' % fshow(F))
    s = ck.fn('ItePruneConfigManager.prune_at')
    names = {'T': TGT, 'S': SUP, 'N': 'self.prune_times',
             't': 'iteration // self.step_freq'}
    A = Arith(s, names)
    L = Arith(s, names, {'t': padd(atom('N'), number(1), -1)})
    vals = stored(s, s.ret())
    if not vals:
        ck.ob('prune-at', False, s, 'prune_at returns no structure')
    for g, k, v, e in vals:
        ck.ob('every-unit', key_of_target(s, k) and all(
            whole(s, l) for l in e.loops), e, 'every target unit gets a '
            'choice at every pruning step')
        cl = canon(L.of(v))
        if feasible(s, L.decide(g)) and possible(s, L.decide(g)):
            ck.ob('last-is-target', canon(A.of(v)) in (
                '1*T', '1*int(1*T)'), e, 'at the last pruning step the '
                'choice of a unit is its target, unchanged [%s when %s]' % (
                    show(v), fshow(g)))
        gl = case(s, g, {'self.linear_schedule': True})
        gn = case(s, g, {'self.linear_schedule': False})
        want = expr('S + (T - S) * (t + 1) / N')
        if possible(s, gl) and not implies_last(s, A, L, gl):
            c = canon(A.of(v))
            ck.ob('linear', c in (canon(want), canon(A.fn('int', [want])),
                                  canon(A.fn('round', [want]))), e,
                  'on a linear schedule the choice moves from the start to '
                  'the target in equal parts [%s]' % c)
        if possible(s, gn):
            ck.ob('direct', canon(A.of(v)) in ('1*T', '1*int(1*T)'), e,
                  'without a linear schedule the choice is the target')
        if possible(s, g) and 'int(' in canon(A.of(v)):
            ck.ob('int-kept', s.m.implies(g, 'isinstance(%s, int)' % SUP) or
                  s.m.implies(g, 'isinstance(%s, int)' % TGT), e,
                  'ratios are not truncated to integers')
        gi = case(s, f_and(g, gl), {
            'isinstance(%s, int)' % SUP: True})
        if possible(s, gi) and not implies_last(s, A, L, gi):
            ck.ob('numbers-stay-int', 'int(' in canon(A.of(v)) or 'round('
                  in canon(A.of(v)), e, 'a number of channels stays a whole '
                  'number')
    G = f_or(*[A.decide(g) for g, k, v, e in vals])
    ck.ob('every-case', f_implies(True, s.m.skey(G)), s, 'a choice is '
          'planned in every case [%s]' % fshow(G))
    R = f_map(s.m.norm(refused(s)), lambda a: ('atom', 'past') if A.diff(
        a) and canon(A.diff(a)[1]) == canon(expr('N - t - 1')) else (
            'atom', a))
    ck.ob('not-past-the-end', R == ('atom', 'past'), s, 'exactly the steps '
          'beyond the last one are refused [%s]' % fshow(refused(s)))


def possible(s, g):
    return g is not False and not f_implies(s.m.skey(g), False)


def implies_last(s, A, L, g):
    """the guard can only hold at the last step: it does not hold at any
    step before (comparisons against the last step decided by sign)"""
    def fn(a):
        d = A.diff(a)
        if d is None:
            return ('atom', a)
        # lhs - rhs as a multiple of (t + 1 - N), which is < 0 before
        for k, neg in ((1, True), (-1, False)):
            if canon(pmul(d[1], number(k))) == canon(expr('t + 1 - N')):
                return neg if d[0] == '<' else False
            if canon(pmul(d[1], number(k))) == canon(
                    expr('(t + 1) / N - 1')):
                return neg if d[0] == '<' else False
        return ('atom', a)
    return not possible(s, f_map(s.m.norm(g), fn))


def key_of_target(s, k):
    return k is not None and s.derives(k, 'self.target')


def condition(s):
    """formula under which a predicate returns true"""
    r = s.ret()
    if r is None:
        return False
    return f_or(*[f_and(g, s.E.formula(v)) for g, v in leaves(s, r)])


# ------------------------------------------------------------ gating
OPQ = ('_init_prune_config_manager', 'is_prune_time', 'prune_at',
       'set_choices', '_iter', '_max_iters', '_calc_temperature',
       'calc_information', 'by_epoch', '_epoch', 'loss', '_predict',
       '_forward')
CHANGES = ('_.set_choices(...)', '_.set_max_choices()',
           '_.set_min_choices()', '_.sample_subnet(...)',
           '_.fix_chosen(...)', '_.sample_choices(...)')
DUE = 'self.training and %s.is_prune_time(%s)' % (MGR, NOW)
NEW = "not hasattr(self, 'prune_config_manager')"
NEWS = (NEW, 'self.prune_config_manager is None',
        "getattr(self, 'prune_config_manager', None) is None")


def gate(ck):
    for cls in ('ItePruneAlgorithm', 'DCFF'):
        s = ck.fn(cls + '.forward', opaque=OPQ)
        plan = '%s.prune_at(%s)' % (MGR, NOW)
        own = s.calls('_.set_choices(...)')
        fw = s.calls('super().forward(...)')
        for p in CHANGES:
            for h in s.calls(p):
                ck.ob('only-when-due', h.guard_implies(DUE), h, '%s changes '
                      'choices only when training and due' % cls)
                ck.ob('the-plan', s.m.match(
                    'self.mutator.set_choices(%s)' % plan, h.e.term)
                    is not None, h, '%s sets the choices planned for this '
                    'iteration' % cls)
        ck.always('when-due', [h for h in own if not h.e.loops], s,
                  '%s changes the choices whenever it is due' % cls, DUE)
        ck.ob('prunes-first', bool(own) and bool(fw) and own[0].e.seq <
              max(h.e.seq for h in fw), fw[0] if fw else s, '%s prunes '
              'before it runs the network' % cls)
        ck.ob('forwards', s.ret() is not None and s.m.match(
            'super().forward(inputs, data_samples, mode)', s.ret())
            is not None, s, '%s runs the network on what it was given and '
            'returns its result' % cls)
        made = s.sets('self', 'prune_config_manager')
        ck.ob('one-plan', bool(made) and all(any(
            h.guard_implies(n) for n in NEWS) for h in made), made[0]
            if made else s, '%s makes its plan once' % cls)
        ck.ob('plan-made', any(s.m.implied_by(jointly(made), DUE.split(
            ' and ')[0] + ' and ' + n) for n in NEWS), made[0] if made
            else s, '%s makes its plan when it has none' % cls)
        asked = s.calls(MGR + '.is_prune_time(...)')
        ck.ob('plan-first', bool(made) and all(
            made[0].e.seq < h.e.seq for h in asked), made[0] if made else s,
            '%s has its plan before it asks' % cls)
        for h in made:
            ck.ob('plan-from-config', s.m.match(
                'self._init_prune_config_manager()', h.e.value) is not None,
                h, '%s plans with its own configuration' % cls)
    s = ck.fn('DCFF.forward', opaque=OPQ)
    own = s.calls('self.mutator.set_choices(...)')
    ci = s.calls('self.mutator.calc_information(...)')
    ck.iff('fusion-when-due', ci, s, DUE, 'DCFF renews the fusion '
           'coefficients exactly when it prunes')
    for h in ci:
        ck.ob('temperature', s.m.match('self._calc_temperature(%s, OR('
              'self._max_iters, _.runtime_info["max_iters"]))' % NOW,
              h.arg(0, 'tau')) is not None, h, 'the fusion temperature '
              'follows the training progress')
    ck.ob('choices-then-fusion', bool(own) and bool(ci) and
          own[0].e.seq < ci[0].e.seq, ci[0] if ci else s, 'the fusion '
          'coefficients are computed for the new choices')


# ------------------------------------------------------------ configuration
TARGET = ('self.mutator.current_choices',
          'self.set_target_pruning_ratio(self.target_pruning_ratio, '
          'self.mutator.mutable_units)')


def config(ck):
    for cls in ('ItePruneAlgorithm', 'DCFF'):
        s = ck.fn(cls + '._init_prune_config_manager', opaque=(
            '_max_iters', 'by_epoch', '_iters_per_epoch', '_max_epochs',
            'set_target_pruning_ratio'))
        hs = s.calls('ItePruneConfigManager(...)')
        ck.ob('plan', len(hs) == 1 and s.ret() is not None and same(
            s, s.ret(), hs[0].e.term), hs[0] if hs else s, '%s returns its '
            'plan' % cls)
        ep = s.sets('self', 'step_freq')
        scaled = [h for h in ep if s.m.match(
            'self.step_freq * self._iters_per_epoch', h.e.value)
            is not None]
        ck.iff('epoch-scaled', scaled, s, 'self.by_epoch', '%s: the step '
               'of an epoch-based run counts epochs' % cls)
        for h in hs:
            for g, v in leaves(s, h.arg(0, 'target')):
                none = s.m.implies(g, 'self.target_pruning_ratio is None')
                some = s.m.implies(g, 'self.target_pruning_ratio is not '
                                      'None')
                ck.ob('target', (none and s.m.match(TARGET[0], v)
                                 is not None) or (some and s.m.match(
                                     TARGET[1], v) is not None), h,
                      '%s prunes towards the configured target [%s]' % (
                          cls, show(v)))
            v = h.arg(1, 'supernet')
            ck.ob('start', v is not None and s.m.match(
                'self.mutator.current_choices', v) is not None, h, '%s starts from the '
                  'current structure' % cls)
            for i, a in ((2, 'step_freq'), (3, 'prune_times'),
                         (4, 'linear_schedule')):
                v = h.arg(i, a)
                ck.ob('plan-argument', v is not None and s.m.match(
                    'self.' + a, v) is not None, h, '%s plans with its %s' % (cls, a))
                for x in s.sets('self', a):
                    ck.ob('plan-argument', x.e.seq < h.e.seq, x, '%s: %s is '
                          'settled before the plan is made' % (cls, a))
        if cls == 'DCFF':
            legal(ck, s)
        f = ck.fn(cls + '.__init__', opaque=('prepare_from_supernet',))
        for a in ('target_pruning_ratio', 'step_freq', 'prune_times',
                  'linear_schedule'):
            h = f.sets('self', a)
            ck.ob('keeps', len(h) == 1 and same(f, h[0].e.value, (
                'param', a)) and h[0].unconditional(), h[0] if h else f,
                '%s keeps its %s' % (cls, a))
    s = ck.fn('ItePruneAlgorithm._iters_per_epoch', opaque=(
        '_max_iters', '_max_epochs'))
    ck.ob('iters-per-epoch', s.ret() is not None and any(s.m.match(
        p, s.ret()) is not None for p in (
            'self._max_iters / self._max_epochs',
            'self._max_iters // self._max_epochs')), s, 'iterations per '
        'epoch')
    s = ck.fn('ItePruneAlgorithm.by_epoch', opaque=('_max_epochs',))
    ck.ob('by-epoch', s.m.equiv(condition(s), 'self._max_epochs != 1'), s,
          'a run of several epochs is epoch based')
    for n, k in (('_iter', 'iter'), ('_max_iters', 'max_iters'),
                 ('_max_epochs', 'max_epochs')):
        s = ck.fn('ItePruneAlgorithm.' + n)
        ck.ob('progress', s.ret() is not None and all(s.m.match(
            "OR(_.runtime_info['%s'], _.get_info('%s', ...))" % (k, k), v)
            is not None for _, v in leaves(s, s.ret())), s, 'progress is '
            "read from the message hub's %s" % k)
    s = ck.fn('ItePruneAlgorithm.set_target_pruning_ratio')
    es = stored(s, s.ret()) if s.ret() else []
    ck.ob('targets-by-name', bool(es) and all(s.m.match(
        'OR(target[ELEM(units).name], target.get(ELEM(units).name, ...))', v)
        is not None and s.m.match('ELEM(units).name', k) is not None
        for _, k, v, _ in es), es[0][3] if es else s, 'a unit gets the '
        'target configured under its name')
    for g, k, v, e in es:
        ck.ob('targets-complete', s.m.implied_by(
            g, 'ELEM(units).name in target') and all(
                whole(s, l) for l in e.loops), e, 'no configured target is '
            'dropped')


def legal(ck, s):
    F, N = 'self.step_freq', 'self.prune_times'
    ok = '(0 < %s and %s < self._max_iters)'
    lf, ln = ok % (F, F), ok % (N, N)
    R = unfold(s, refused(s))

    def fn(a):
        if a[0] == 'bin' and a[1] == 'BitXor':
            x, y = s.E.formula(a[2]), s.E.formula(a[3])
            return f_or(f_and(x, f_not(y)), f_and(y, f_not(x)))
        if a[0] == 'cmp' and a[1] == '==' and all(
                isinstance(s.E.formula(v), tuple) and
                s.E.formula(v)[0] != 'atom' for v in a[2:]):
            x, y = s.E.formula(a[2]), s.E.formula(a[3])
            return f_or(f_and(x, y), f_and(f_not(x), f_not(y)))
        return ('atom', a)
    R = unfold(s, f_map(s.m.norm(R), fn))

    def whenf(h):
        return unfold(s, f_map(s.m.norm(unfold(s, h.e.guard)), fn))
    ck.ob('one-of-two', s.m.equiv(R, '(%s and %s) or (not %s and not %s)' % (
        lf, ln, lf, ln)), s, 'exactly one of step_freq and prune_times must '
        'be usable [%s]' % fshow(R))
    for a, own, o in (('prune_times', lf, F), ('step_freq', ln, N)):
        hs = [h for h in s.sets('self', a) if s.m.match(
            'self._max_iters // ' + o, h.e.value) is not None]
        oth = [h for h in s.sets('self', a) if h.e not in [
            x.e for x in hs] and s.m.match(
                'self.step_freq * self._iters_per_epoch', h.e.value) is None]
        ck.ob('derived', bool(hs) and not oth and s.m.implied_by(
            f_or(R, *[whenf(h) for h in hs]), own),
            hs[0] if hs else s, '%s is derived from the other and the length '
            'of training' % a)
        for h in hs:
            ck.ob('derived-only', s.m.implies(f_and(
                f_not(R), whenf(h)), own), h, '%s is only derived when '
                'the other is usable' % a)


# ------------------------------------------------------------ fusion
def fusion(ck):
    s = ck.fn('DCFFChannelMutator.calc_information')
    hs = s.calls('_m.set_forward_args(...)')
    CH = 'ELEM(_.output_related)'
    for h in hs:
        v = h.arg(0, 'choice')
        ck.ob('fusion-own', v is not None and any(s.m.match(
            p, v, h.b) is not None for p in (
                '_m.get_pooled_channel(tau)',
                '_m.get_pooled_channel(tau=tau)')), h,
            'a fused layer gets the coefficients of its own channels at the '
            'given temperature')
        ck.ob('fusion-all', len(h.e.loops) == 2 and all(
            whole(s, l) for l in h.e.loops) and any(over(
                s, l, 'self.units', 'self._units') for l in h.e.loops) and
            any(over(s, l, '_.output_related') for l in h.e.loops) and
            s.m.implied_by(h.e.guard, 'isinstance(%s.module, FuseConv2d)' %
                           CH), h, 'every fused layer of every unit is '
              'renewed')
    ck.need('fusion', hs, s, 'fusion coefficients are renewed')
    t = ck.fn('DCFF._calc_temperature')
    A = Arith(t, {'c': 'cur_num', 'M': 'max_num'})
    r = t.ret()
    ck.ob('temperature-form', r is not None and A.same(
        r, '1 / (2 * 9999 * (1 + exp(-M)) / (1 - exp(-M)) / '
           '(1 + exp(-c)) + 1 - 9999 * (1 + exp(-M)) / (1 - exp(-M)))'), t,
        'the fusion temperature falls from 1 to 1/10000 over training [%s]'
        % (canon(A.of(r)) if r else None))


# ------------------------------------------------------------ DMCP phases
ARCH_ON = 'self.arch_start_train < self._iter'
PEN = "_['mutator']"


def phases(ck):
    f = ck.fn('DMCP.__init__', opaque=('_build_distiller',))
    h = f.sets('self', 'arch_train')
    ck.ob('starts-off', len(h) == 1 and h[0].e.value == FALSE, h[0] if h
          else f, 'architecture training is off at first')
    for a in ('arch_start_train', 'arch_train_freq', 'distillation_times',
              'target_flops', 'flops_loss_type', 'flop_loss_weight'):
        h = f.sets('self', a)
        ck.ob('dmcp-keeps', len(h) == 1 and same(
            f, h[0].e.value, ('param', a)), h[0] if h else f,
            'DMCP keeps its %s' % a)
    s = ck.fn('DMCP.train_step', opaque=(
        'add_prefix', '_update_arch_params', 'set_subnet', '_iter',
        'parse_losses', 'compute_distill_losses', 'data_preprocessor'))
    on = s.sets('self', 'arch_train')
    for h in on:
        ok = h.e.value == TRUE and h.guard_implies(ARCH_ON)
        v = s.E.formula(h.e.value)
        ok = ok or (h.e.value != TRUE and s.m.implies(v, ARCH_ON + ' or '
                                                      'self.arch_train') and
                    s.m.implied_by(v, ARCH_ON))
        ck.ob('search-start', ok, h, 'architecture training starts only '
              'after arch_start_train iterations')
    ck.ob('search-starts', bool(on) and any(h.when(
        'not self.arch_train and ' + ARCH_ON) for h in on) and
        not on[0].e.loops, on[0] if on else s, 'architecture training starts '
        'once arch_start_train iterations have passed')
    subs = s.calls('self.set_subnet(...)')
    use = subs + s.calls('self._update_arch_params(...)')
    ck.ob('search-start-first', bool(on) and all(
        on[0].e.seq < h.e.seq for h in use), on[0] if on else s,
        'the phase is settled before a subnet is chosen')
    for h in subs:
        v = h.arg(0, 'mode')
        ck.ob('known-mode', v is not None, h, 'a kind of subnet is asked for')
        for g, m in leaves(s, v, h.e.guard) if v is not None else []:
            if m == const('direct'):
                ck.ob('direct-after-start', s.m.implies(
                    g, 'self.arch_train'), h, 'subnets are sampled by the '
                    'architecture parameters only once those are trained')
            if m[0] == 'const' and m[1] not in (
                    'max', 'min', 'random', 'direct'):
                ck.ob('known-mode', False, h, 'unknown kind of subnet')
    up = s.calls('self._update_arch_params(...)')
    ck.iff('arch-when-due', up, s, 'self.arch_train and '
           'self._iter % self.arch_train_freq == 0', 'architecture '
           'parameters are trained every arch_train_freq iterations once '
           'the search has started')
    zg = s.calls("optim_wrapper['mutator'].zero_grad()")
    for h in up:
        ck.ob('arch-once', not h.e.loops, h, 'architecture parameters are '
              'trained once per step')
        ck.ob('arch-last', all(x.e.seq < h.e.seq for x in subs), h, 'the '
              'architecture update follows the weight updates')
        ck.ob('arch-fresh', any(
            z.e.seq < h.e.seq and not any(z.e.seq < x.e.seq < h.e.seq
                                          for x in subs) and f_implies(
                s.m.skey(h.e.guard), s.m.skey(z.e.guard)) for z in zg), h,
            'gradients the weight updates left on the architecture '
            'parameters are dropped before they are trained')
        ck.ob('arch-reported', any(s.m.match(
            'self._update_arch_params(...)', x) is not None
            for hh in s.calls('_.update(...)') for a in hh.e.args
            for x in s.m.forms(a) if x[0] == 'call') or s.derives(
                s.ret(), 'self._update_arch_params(...)'), h,
            'the architecture losses are reported')
    for h in s.calls('self.distiller.compute_distill_losses()'):
        ck.ob('distil-later', h.guard_implies(
            'self.distillation_times < self._iter'), h, 'distillation '
            'starts after distillation_times iterations')
    s = ck.fn('DMCP.set_subnet', opaque=('sample_subnet',))
    hs = s.calls('self.mutator.sample_subnet(...)')
    ck.ob('mode-passed', len(hs) == 1 and hs[0].unconditional() and
          hs[0].arg(0, 'mode') == ('param', 'mode'), hs[0] if hs else s,
          'the kind of subnet asked for is sampled')
    for h in hs:
        v = h.arg(1, 'arch_train')
        ls = leaves(s, v) if v is not None else []
        ck.ob('phase-passed', bool(ls) and all(
            s.m.match('self.arch_train', x) is not None and s.m.implies(
                g, 'arch_train is None') or x == ('param', 'arch_train') and
            s.m.implies(g, 'arch_train is not None') for g, x in ls), h,
            'the layers are scaled by the architecture parameters exactly '
            'when asked, by default once those are trained')


def arch_update(ck):
    s = ck.fn('DMCP._update_arch_params', opaque=(
        'set_subnet', 'parse_losses', 'calc_current_flops',
        '_compute_flops_loss', 'add_prefix', 'forward'))
    ev = hits_(s, 'self.eval()', 'self.train(False)')
    tr = hits_(s, 'self.train()', 'self.train(True)')
    mx = [h for h in s.calls('self.set_subnet(...)')
          if h.arg(0, 'mode') == const('max')]
    ex = [h for h in s.calls('self.set_subnet(...)')
          if h.arg(0, 'mode') == const('expected')]
    fw = hits_(s, 'self(inputs, data_samples, ...)')
    cf = s.calls('self.calc_current_flops()')
    up = s.calls('_.update_params(...)')
    ck.ob('on-mutator', len(up) >= 1 and all(s.m.match(
        "optim_wrapper['mutator'].update_params(...)", h.e.term) is not None
        for h in up), up[0] if up else s, 'only the architecture parameters '
        'are updated')
    for h in mx:
        ck.ob('max-with-arch', h.arg(1, 'arch_train') == TRUE, h, 'the task '
              'loss sees the architecture parameters')
    for h in ex:
        ck.ob('expected-plain', h.arg(1, 'arch_train') == FALSE, h, 'the '
              'expected structure is measured on the plain layers')
    task = [h for h in up if s.derives(h.e.args[0], 'self(inputs, '
                                       'data_samples, ...)')] if up else []
    res = [h for h in up if s.derives(
        h.e.args[0], 'self._compute_flops_loss(...)')] if up else []
    chain = [('evaluation mode', ev), ('largest subnet', mx),
             ('task loss', fw), ('task update', task),
             ('expected structure', ex), ('expected cost', cf),
             ('resource update', res), ('training mode', tr)]
    both = bool(task) and bool(res)
    ck.ob('both-losses', both, s, 'architecture parameters learn from the '
          'task loss and the resource loss')
    if both and task[0].e is res[0].e:
        chain.pop(3)
    # the order of the first six is what the losses depend on
    for (na, a), (nb, b) in zip(chain, chain[1:]):
        if (na, nb) in (('task update', 'expected structure'),):
            continue
        ck.ob('order', bool(a) and bool(b) and a[0].unconditional() and
              b[-1].unconditional() and a[0].e.seq < b[-1].e.seq,
              b[-1] if b else s, '%s comes before %s' % (na, nb))
    if fw and ex:
        ck.ob('order', fw[0].e.seq < ex[0].e.seq, ex[0], 'the task loss is '
              'taken before the structure changes')
    for h in res:
        ck.ob('resource-loss', s.derives(
            h.e.args[0], 'self.calc_current_flops()'), h, 'the resource '
            'loss is that of the expected structure')
    c = ck.fn('DMCP.calc_current_flops')
    es = c.calls('_.estimate(...)')
    ck.ob('current-flops', c.ret() is not None and c.m.match(
        "_.estimate(...)['flops']", c.ret()) is not None, c, 'the expected '
        'cost is the estimated FLOPs')
    for h in es:
        v, u = h.arg(0, 'model'), h.arg(1, 'flops_params_cfg')
        ck.ob('own-network', v is not None and c.m.match(
            'OR(self, getattr(self, "module", self), _).'
            'architecture.backbone', v) is not None, h, 'the cost of the '
            'searched network is measured')
        ck.ob('plain-units', u is not None and any(
            k.key == const('units') and k.value == NONE
            for k in entries(c, u)), h, 'the cost is not rescaled')


def hits_(s, *pats):
    out = []
    for p in pats:
        out += [h for h in s.calls(p) if all(x.e is not h.e for x in out)]
    return sorted(out, key=lambda h: h.e.seq)


def flops(ck):
    s = ck.fn('DMCP._compute_flops_loss')
    A = Arith(s, {'E': 'expected_flops', 'F': 'self.target_flops',
                  'W': 'self.flop_loss_weight'})
    KIND = 'self.flops_loss_type'
    seen = {}
    R = refused(s)
    for g, v in cases(s, s.ret()) if s.ret() else []:
        g = f_and(s.m.norm(g), f_not(s.m.norm(R)))
        c = A.of(v)
        ck.ob('weighted', all(('W', 1) in m for m in c), s, 'the resource '
              'loss is scaled by its weight, once [%s]' % canon(c)[:80])
        p = pmul(c, {(('W', -1),): Fraction(1)})
        kinds = [k for k in ('l1', 'l2', 'log_l1', 'inverted_log_l1')
                 if s.m.implies(g, "%s == '%s'" % (KIND, k))]
        ck.ob('one-kind', len(kinds) == 1, s, 'each resource loss has its '
              'own name')
        for k in kinds[:1]:
            seen.setdefault(k, []).append((g, p))
    err = expr('E - F * 1000000')
    for k, want in (('l1', A.fn('abs', [err])),
                    ('l2', A.fn('pow', [err, number(2)])),):
        ck.ob('flops-' + k, all(canon(p) in (canon(want), canon(ppow(
            err, 2)) if k == 'l2' else '') for _, p in seen.get(k, [])) and
            k in seen, s, 'the %s resource loss measures the distance to the '
            'target' % k)
    bands = 0
    for g, p in seen.get('log_l1', []):
        for a in f_atoms(g):
            d = A.diff(a)
            if d is None:
                continue
            e = d[1].get((('E', 1),), 0)
            t = d[1].get((('F', 1),), 0)
            if e and set(d[1]) <= {(('E', 1),), (('F', 1),)}:
                ck.ob('same-unit', Fraction(9, 10) * 10 ** 6 <= abs(t / e)
                      <= 10 ** 6 and t * e < 0, s, 'the expected cost is '
                      'compared with the target in the same unit [%s]'
                      % canon(d[1]))
        if not p:
            bands += 1
            ck.ob('band-inside', s.m.implies(g, 'expected_flops < _') and any(
                f_not(('atom', a)) in conj(s.m.norm(g)) and a[0] == 'cmp' and
                same(s, a[2], ('param', 'expected_flops'))
                for a in f_atoms(g)), s, 'the resource loss only vanishes '
                'between two bounds')
        else:
            ck.ob('log-distance', all(
                any(a.startswith('log(') and 'abs(' in a for a, _ in m)
                for m in p), s, 'outside the band the resource loss grows '
                'with the distance to the target')
    ck.ob('band', bands >= 1 and len(seen.get('log_l1', [])) > bands, s,
          'the resource loss vanishes at the target, not away from it')
    ck.ob('unknown-kind', f_implies(f_and(*[f_not(
        s.m.skey(('atom', a))) for a in f_atoms(R)]), s.m.skey(R))
        if R is not False else False, s, 'an unknown resource loss is '
        'refused')


# ------------------------------------------------------------ groups
def groups(ck):
    s = ck.fn('DMCPChannelMutator._generate_arch_message')
    A = Arith(s)
    r = s.ret()
    parts = r[1] if r is not None and r[0] == 'tuple' else None
    ok = parts is not None and len(parts) == 3
    if ok:
        gs, ng, mc = [A.of(x) for x in parts]
        tot = padd(pmul(gs, ng), mc)
        ok = canon(tot) == canon(A.of(('param', 'out_channels')))
    ck.ob('groups-exhaust', ok, s, 'the groups and the channels always kept '
          'make up the unit')
    s = ck.fn('DMCPChannelMutator.prepare_arch_params', opaque=(
        '_generate_arch_message', '_build_arch_param'))
    MSG = 'self._generate_arch_message(' \
        'ELEM(self.units).mutable_channel.num_channels)'
    KEY = 'str(IDX(self.units))'
    for a, val in (('_arch_params_attr', MSG), (
            'arch_params', 'self._build_arch_param(%s[1])' % MSG)):
        hs = s.items('self.' + a)
        ck.ob('group-entry', len(hs) == 1 and s.m.match(
            KEY, hs[0].e.attr) is not None and s.m.match(
                val, hs[0].e.value) is not None and hs[0].e.guard is True and
            all(whole(s, l) for l in hs[0].e.loops), hs[0] if hs else s,
            'every unit has its own %s' % a)
    hs = s.items('self._op_arch_align')
    ck.ob('layer-entry', len(hs) == 1 and s.m.match(
        'OR(str(_.name), _.name)', hs[0].e.attr) is not None and s.derives(
            hs[0].e.attr, 'ELEM(self.units).output_related') and s.m.match(
            KEY, hs[0].e.value) is not None and hs[0].e.guard is True and
        all(whole(s, l) for l in hs[0].e.loops), hs[0] if hs else s,
        'every layer of a unit is aligned with the unit')
    hs = s.items('self._bn_arch_align')
    ck.ob('norm-entry', len(hs) == 1 and s.m.match(
        'ELEM(_.named_modules())[1]', hs[0].e.attr) is not None and s.m.match(
        'OR(self._op_arch_align[str(ELEM(_.named_modules())[0])], '
        'self._op_arch_align[ELEM(_.named_modules())[0]])', hs[0].e.value)
        is not None and s.m.implied_by(
            hs[0].e.guard, 'isinstance(_, DMCPBatchNorm2d)') and all(
            whole(s, l) for l in hs[0].e.loops), hs[0] if hs else s,
        'every norm layer is aligned with its unit')
    b = ck.fn('DMCPChannelMutator._build_arch_param')
    ck.ob('arch-size', b.ret() is not None and b.derives(
        b.ret(), 'torch.zeros(num_choices)') or b.derives(
            b.ret(), 'torch.randn(num_choices)'), b,
        'one architecture parameter per group')
    p = ck.fn('DMCPChannelMutator.prepare_from_supernet', opaque=(
        'prepare_arch_params',))
    ck.order('arch-prepared', p.calls('super().prepare_from_supernet(_)'),
             p.calls('self.prepare_arch_params(supernet)'), p, 'architecture '
             'parameters are built for the units found')


ATTR = 'self._arch_params_attr[str(group_id)]'
CP = 'torch.exp(-torch.clamp(OR(self.arch_params[str(group_id)], ' \
    'arch_param), min=0))'


def sampling(ck):
    s = ck.fn('DMCPChannelMutator._prune_by_arch')
    A = Arith(s, {'gs': ATTR + '[0]', 'ng': ATTR + '[1]', 'mc': ATTR + '[2]',
                  'rnd': 'random.randint(0, %s[1])' % ATTR})
    got = {}
    for h in s.returns():
        for g, v in cases(s, h.e.value, h.e.guard):
            for k in ('max', 'min', 'random', 'direct', 'expected'):
                if possible(s, given(s, g, 'mode', k)):
                    got.setdefault(k, []).append((given(
                        s, g, 'mode', k), v, h))
    for k, want in (('max', 'mc + gs * ng'), ('min', 'mc'),
                    ('random', 'mc + gs * rnd')):
        ck.ob('sample-' + k, bool(got.get(k)) and all(
            A.same(v, want) for _, v, _ in got.get(k, [])), s, 'the %s '
            'choice' % k)
    for g, v, h in got.get('direct', []):
        empty = s.m.implies(g, '%s[1] == 0' % ATTR)
        if empty:
            ck.ob('sample-direct', A.same(v, 'mc'), h, 'without groups the '
                  'channels always kept remain')
            continue
        f = list(s.m.forms(v))[-1]
        ok = f[0] == 'acc' and f[1] == 'Add' and A.same(f[2], 'mc') and \
            A.same(f[3], 'gs')
        L = s.E.loops.get(f[4]) if ok else None
        ck.ob('sample-direct', ok and L is not None and s.m.match(
            'range(%s[1])' % ATTR, L['raw'] if L['raw'] is not None else
            L['iter']) is not None or ok and over(
                s, f[4], 'range(%s[1])' % ATTR), h, 'sampled '
            'structures grow from the channels always kept by whole groups')
    br = [e for e in s.ev if e.kind == 'break']
    stops = [e for e in br if any(s.derives(a, 'torch.exp(...)')
                                  for a in f_atoms(unfold(s, e.guard)))]
    for e in stops:
        G = unfold(s, e.guard)
        ok = any(a[0] == 'cmp' and a[1] == '<' and any(s.m.match(
            CP, y) is not None for y in s.m.deep(a[2])) and s.m.match(
                'OR(random.uniform(0, 1), random.random())', a[3])
            is not None and f_not(('atom', a)) not in conj(G)
            for a in f_atoms(G))
        neg = any(a[0] == 'cmp' and a[1] == '<' and any(s.m.match(
            CP, y) is not None for y in s.m.deep(a[3])) and
            f_not(('atom', a)) in conj(G) for a in f_atoms(G))
        ck.ob('direct-stop', ok or neg, Hit(s, e, {}), 'sampling stops '
              'after a group with the probability of its parameter')
    ck.ob('direct-stops', bool(stops), s, 'sampling stops by the '
          'architecture parameters')
    for g, v, h in got.get('expected', []):
        if s.m.implies(g, '%s[1] == 0' % ATTR):
            ck.ob('sample-expected', A.same(v, 'mc'), h, 'without groups')
            continue
        B = Arith(s, dict(A.names + [('marg', 'OR(torch.sum(torch.cumprod('
                  '%s, dim=0)), torch.cumprod(%s, dim=0).sum())' % (
                      CP, CP))]))
        ck.ob('sample-expected', B.same(v, 'mc + gs * marg'), h, 'the '
              'expected width follows the probabilities the sampling uses')
    s = ck.fn('DMCPChannelMutator.sample_subnet', opaque=(
        '_prune_by_arch', 'set_choices', 'modify_supernet_forward'))
    sc = s.calls('self.set_choices(...)')
    mf = s.calls('self.modify_supernet_forward(...)')
    for h in sc:
        es = stored(s, h.arg(0, 'choices'))
        ck.ob('all-units', bool(es) and all(s.m.match(
            'str(IDX(self.units))', k) is not None and s.m.match(
                'self._prune_by_arch(mode, IDX(self.units))', v) is not None
            and g is True and all(whole(s, l) for l in e.loops)
            for g, k, v, e in es), h, 'every unit gets a choice of the kind '
            'asked for')
    ck.always('choices-applied', sc, s, 'the sampled choices are applied')
    ck.ob('forward-adapted', len(mf) == 1 and mf[0].unconditional() and
          mf[0].arg(0, 'arch_train') == ('param', 'arch_train'), mf[0] if mf
          else s, 'the layers follow the phase asked for')
    s = ck.fn('DMCPChannelMutator.set_choices')
    CH = 'choices[str(IDX(self.units))]'
    for base, a in (('ELEM(self.units)', 'current_choice'),
                    ('ELEM(self.units).mutable_channel',
                     'activated_tensor_channels')):
        hs = s.sets(base, a)
        ck.ob('applied-' + a, len(hs) == 1 and s.m.match(
            CH, hs[0].e.value) is not None and all(
                whole(s, l) for l in hs[0].e.loops) and s.m.implied_by(
                    hs[0].e.guard, 'str(IDX(self.units)) in '
                    'OR(choices, choices.keys())'), hs[0] if hs else s,
            'every unit takes its own choice')
    s = ck.fn('DMCPChannelMutator.modify_supernet_forward')
    hs = s.calls('_m.set_forward_args(...)')
    G = 'self._bn_arch_align[ELEM(self._bn_arch_align)]'
    G = 'OR(%s, str(%s), ELEM(self._bn_arch_align.items())[1])' % (G, G)
    ck.ob('norms-adapted', len(hs) == 1 and len(hs[0].e.loops) == 1 and
          over(s, hs[0].e.loops[0], 'self._bn_arch_align') and
          hs[0].e.guard is True and whole(s, hs[0].e.loops[0]), hs[0] if hs
          else s, 'every norm layer is adapted')
    for h in hs:
        for n, col in (('arch_param', 'self.arch_params[%s]' % G),
                       ('arch_attr', 'self._arch_params_attr[%s]' % G)):
            v = h.arg(None, n) if n in dict(h.e.kwargs) else h.arg(
                0 if n == 'arch_param' else 1)
            ls = leaves(s, v) if v is not None else []
            ck.ob('norm-args', bool(ls) and all(
                (x == NONE and s.m.implies(g, 'not arch_train')) or (
                    s.m.match(col, x) is not None and s.m.implies(
                        g, 'arch_train')) for g, x in ls), h,
                'a norm layer is scaled by the parameters of its own unit, '
                'only while the architecture is trained')


def marginal(ck):
    s = ck.fn('DMCPBatchNorm2d.forward', opaque=('forward_batchnorm',
                                                 'forward_arch_param'))
    for g, v in leaves(s, s.ret()) if s.ret() else []:
        plain = s.m.match('self.forward_batchnorm(input)', v) is not None
        scaled = s.m.match('self.forward_arch_param('
                           'self.forward_batchnorm(input), arch_param, '
                           'arch_attr)', v) is not None
        ck.ob('scaled-when-given', plain and s.m.implies(
            g, 'arch_param is None') or scaled and s.m.implies(
                g, 'arch_param is not None'), s, 'a norm layer is scaled by '
            'the architecture parameters exactly when it is given them')
    s = ck.fn('DMCPBatchNorm2d.forward_arch_param')
    GS, NG, MC = 'arch_attr[0]', 'arch_attr[1]', 'arch_attr[2]'
    T = 'OR(input.transpose(0, 1).contiguous(), input.transpose(0, 1))'
    PR = 'torch.cumprod(%s, dim=0)' % CP
    n = 0
    for g, v in leaves(s, s.ret()) if s.ret() else []:
        if v == ('param', 'input'):
            ck.ob('scale-skip', s.m.implies(
                g, '%s == 0 or input.size()[1] == %s' % (NG, MC)) or
                s.m.implies(g, '%s == 0 or input.shape[1] == %s' % (
                    NG, MC)) or s.m.implies(
                    g, '%s == 0 or input.size(1) == %s' % (NG, MC)), s,
                'outputs are left alone only without groups to scale')
            continue
        n += 1
        b = None
        for x in s.m.deep(v):
            b = b or s.m.match('torch.cat([_a, _b], ...)', x) or s.m.match(
                'torch.cat((_a, _b), ...)', x)
        ok = b is not None and s.m.match('%s[:%s]' % (T, MC), b['_a']) \
            is not None
        ck.ob('kept-unscaled', ok, s, 'the channels always kept are not '
              'scaled')
        ok = b is not None and s.derives(b['_b'], '%s[%s:]' % (T, MC)) and \
            s.derives(b['_b'], PR) and any(
                x[0] == 'bin' and x[1] == 'Mult' and (
                    (s.derives(x[2], PR) and s.derives(
                        x[3], '%s[%s:]' % (T, MC))) or
                    (s.derives(x[3], PR) and s.derives(
                        x[2], '%s[%s:]' % (T, MC))))
                for x in s.m.deep(b['_b']))
        ck.ob('groups-scaled', ok, s, 'the groups are scaled by the '
              'probability that they are kept')
        ck.ob('scaled-back', s.m.match('OR(_c.transpose(0, 1).contiguous(), '
              '_c.transpose(0, 1))', v) is not None, s, 'the channel order '
              'is restored')
    ck.ob('scaled', n == 1, s, 'outputs are scaled')
