"""C22 fisher pruning: complete records, folded once, the least important
channel removed."""
from .arith import *
from .c21 import possible, condition

OPQ = ('print_log', 'iter', 'info', 'get_rank')
MUT = 'OR(self.mutator, self.module.mutator)'
UNITS = ('self.mutable_units',)
OPS = {'in': ('self.input_related_dynamic_ops', 'self.input_related'),
       'out': ('self.output_related_dynamic_ops', 'self.output_related')}
OPS['all'] = ('self.dynamic_ops',) + OPS['in'] + OPS['out']


def check(ck):
    ck.sections(cycle, ddp, fan_out, op_sets, record, hooks, update, fisher,
                normalise, costs, importance, prune, choose, target_hook)


STEPS = ('start_record_info', 'train', 'end_record_info', 'update_imp',
         'reset_recorded_info', 'try_prune', 'reset_imp')


def train_calls(s, names=('train_step',)):
    """calls of the wrapped training step, also through a variable"""
    out = []
    for e in s.kind('call'):
        if any(x[0] == 'attr' and x[2] in names or x == ('param',
               'train_step') for x in walk(full(s, e.func))) and \
                e.callee is None and len(e.args) == 2:
            out.append(Hit(s, e, {}))
    return out


def phases(s):
    d = {'train': train_calls(s)}
    for n in STEPS:
        if n != 'train':
            d[n] = s.calls('%s.%s()' % (MUT, n))
    return d


def cycle(ck):
    opq = OPQ + tuple(x for x in STEPS if x != 'train') + ('train_step',)
    s = ck.fn('GroupFisherAlgorithm._train_step', opaque=opq)
    d = phases(s)
    for a in ('start_record_info', 'train', 'end_record_info', 'update_imp',
              'reset_recorded_info'):
        ck.always('every-step', d[a], s, 'every step: %s' % a)
        ck.ob('once-per-step', len([h for h in d[a] if not h.e.loops]) == 1
              and len(d[a]) == 1, s, '%s happens once per step' % a)
    for a, b in (('start_record_info', 'train'), ('train',
                 'end_record_info'), ('train', 'update_imp'),
                 ('update_imp', 'reset_recorded_info'),
                 ('update_imp', 'try_prune'), ('try_prune', 'reset_imp')):
        ck.order('phase-order', d[a], d[b], s, '%s comes before %s' % (a, b))
    due = 'OR(self, self.module).interval'
    for n in ('try_prune', 'reset_imp'):
        ck.need('prunes', d[n], s, '%s happens in the training step' % n)
        F = f_or(*[h.e.guard for h in d[n]])
        ck.ob('when-due', any(s.m.equiv(F, p) for p in (
            'OR(iter(), _.iter()) %% %s == 0' % due,
            'not OR(iter(), _.iter()) %% %s' % due)), d[n][
                0] if d[n] else s, '%s exactly when the interval elapses '
              '[%s]' % (n, fshow(F)))
        ck.ob('once-per-step', len(d[n]) == 1 and not d[n][0].e.loops, s,
              '%s happens once' % n)
    for h in d['train']:
        ck.ob('given-data', h.e.args == (('param', 'data'),
                                         ('param', 'optim_wrapper')), h,
              'the step trains on the given batch')
        f = full(s, h.e.func)
        P = ('param', 'train_step')
        if any(x == P for x in walk(f)):
            for b in (True, False):
                vs = picked(s, f, P, b)
                ck.ob('step-of-wrapper', bool(vs) and all(
                    (v == P) == b for v in vs), h, 'a step handed in is the '
                    'one that is run, else the own one [%s]' % show(f))
        ck.ob('returns-losses', any(same(s, x, h.e.term) for g, x in leaves(
            s, s.ret())), h, 'the losses of the step are returned')
    t = ck.fn('GroupFisherAlgorithm.train_step', opaque=OPQ + tuple(
        x for x in STEPS if x != 'train') + ('_train_step',))
    ck.always('delegates', t.calls('self._train_step(data, optim_wrapper, '
                                   '...)'), t, 'a training step is a '
              'recorded one')


def picked(s, f, P, given):
    """values a term can have when the parameter is (not) given"""
    if f[0] == 'boolop' and len(f[2]) == 2:
        a, b = f[2]
        if a == P:
            return [P if given == (f[1] == 'or') else b] if given or \
                f[1] == 'or' else [P]
        return [a, b]
    out = []
    for g, v in leaves(s, f):
        gg = case(s, g, {'train_step': given, 'train_step is None':
                         not given})
        if possible(s, gg):
            out += [v] if v[0] != 'boolop' else picked(s, v, P, given)
    return out


def ddp(ck):
    s = ck.fn('GroupFisherDDP.train_step', opaque=OPQ + tuple(
        x for x in STEPS if x != 'train') + ('_train_step',))
    hs = s.calls('OR(_train_step, _._train_step)(...)')
    ck.always('delegates', hs, s, 'a distributed step is a recorded one')
    for h in hs:
        vals = [x for x in h.e.args] + [v for k, v in h.e.kwargs]
        ck.ob('on-module', any(s.match(x, 'self.module') is not None
                               for x in vals) or into(
            s, h.e.func, 'self.module'), h, 'it records the wrapped '
            'algorithm')
        ck.ob('own-step', any(y[0] == 'attr' and y[2] == 'train_step' and
                              'super' in show(y) for x in vals
                              for y in walk(full(s, x))), h, 'and trains '
              'through the wrapper, which synchronises the gradients')
        for n in ('data', 'optim_wrapper'):
            ck.ob('given-data', ('param', n) in vals, h, 'on the given %s'
                  % n)


def fan_out(ck):
    for m, u in (('start_record_info', 'start_record_fisher_info'),
                 ('end_record_info', 'end_record_fisher_info'),
                 ('reset_recorded_info', 'reset_recorded'),
                 ('update_imp', 'update_fisher_info'),
                 ('reset_imp', 'reset_fisher_info')):
        s = ck.fn('GroupFisherChannelMutator.' + m, opaque=(u,))
        visits(ck, s, s.calls('ELEM(_).%s()' % u), UNITS,
               '%s reaches every mutable unit' % m)
    for m, u in (('start_record_fisher_info', 'start_record'),
                 ('end_record_fisher_info', 'end_record'),
                 ('reset_recorded', 'reset_recorded')):
        for part in ('in', 'out'):
            s = ck.fn('GroupFisherChannelUnit.' + m, opaque=(u,))
            visits(ck, s, s.calls('_.%s()' % u), OPS[part] + OPS['all'][:1],
                   '%s reaches the %sput related layers' % (m, part))


def visits(ck, s, hs, pats, msg, given=()):
    hs = [h for h in hs if any(over(s, l, *pats) for l in h.e.loops)]
    ck.need('every-one', hs, s, msg)
    for h in hs[:1]:
        ck.ob('every-one', all(whole(s, l) for l in h.e.loops) and
              covers(s, h.e.guard), h, msg)


KIND = 'isinstance(_, _)'


def covers(s, g):
    """nothing but the kind of the layer decides"""
    return s.m.implied_by(g, KIND) or g is True or \
        case(s, g, {KIND: True}) is True


def op_sets(ck):
    for part, src in (('input', 'in'), ('output', 'out')):
        s = ck.fn('GroupFisherChannelUnit.%s_related_dynamic_ops' % part)
        own = [(h.e.guard, h.e.value, h.e.loops) for h in s.yields()]
        if not own:
            own = [(i.guard, i.value, i.loops) for i in listed(s, s.ret())]
        ok = False
        for g, v, loops in own:
            if s.match(v, 'ELEM(self.%s_related).module' % part) is None:
                ck.ob('op-set', False, s, 'only layers of the %s related '
                      'channels' % part)
                continue
            c = case(s, g, {'isinstance(ELEM(self.%s_related).module, '
                            'GroupFisherMixin)' % part: True})
            ok = ok or c is True and all(whole(s, l) for l in loops)
            ck.ob('only-recording', s.m.implies(
                g, 'isinstance(ELEM(self.%s_related).module, '
                   'GroupFisherMixin)' % part), s, 'and only recording '
                'ones')
        ck.ob('op-set', ok, s, 'every recording layer of the %s related '
              'channels is one of the unit' % part)
    s = ck.fn('GroupFisherChannelUnit.dynamic_ops',
              opaque=('input_related_dynamic_ops',
                      'output_related_dynamic_ops'))
    t = [(h.e.value, h.e.guard, h.e.loops) for h in s.yields()] or \
        [(i.value, i.guard, i.loops) for i in listed(s, s.ret())]
    m = ck.fn('GroupFisherChannelUnit.is_mutable')
    F = condition(m)
    own = ('self.is_mutable', 'super().is_mutable')
    ck.ob('linear-groups', any(m.m.implies(F, p) for p in own), m, 'what is '
          'not mutable in other pruning algorithms is not mutable here')
    yes = case(m, F, {p: True for p in own})
    ck.ob('linear-groups', case(m, yes, {'self.mutate_linear': True}) is
          True, m, 'units with linear layers are pruned if told so [%s]'
          % fshow(yes))
    no = case(m, yes, {'self.mutate_linear': False})
    ck.ob('linear-groups', no[0] == 'not' if isinstance(no, tuple) else
          False, m, 'and otherwise left alone [%s]' % fshow(no))
    ck.ob('linear-groups', isinstance(no, tuple) and len(f_atoms(no)) == 1
          and all(about(m, x, 'self.input_related', 'isinstance(ELEM(_)'
                        '.module, Linear)') for x in f_atoms(no)), m,
          'a layer after the channels decides')
    for part in ('in', 'out'):
        ck.ob('both-sides', any(
            s.match(v, 'OR(ELEM(%s), %s)' % (OPS[part][0], OPS[part][0]))
            is not None and g is True and all(whole(s, l) for l in ls)
            for v, g, ls in t) or s.ret() is not None and any(
                s.derives(s.ret(), p) for p in OPS[part]), s,
            'the layers of a unit include the %sput related ones' % part)


def about(s, atom, src, pat):
    """the atom says that an element of src is as the pattern tells"""
    if s.find(atom, pat) and s.derives(atom, src):
        return True
    for x in walk(atom):
        if x[0] == 'loopvar':
            st = s.E.steps.get((x[2], x[1]))
            if st is None or x[3] != ('const', False) or not over(
                    s, x[2], src):
                continue
            up = f_or(*[g for g, v in leaves(s, st) if v == ('const', True)])
            return s.m.equiv(up, pat)
    return False


def record(ck):
    s = ck.fn('GroupFisherMixin._init')
    for a in ('handlers', 'recorded_input', 'recorded_grad',
              'recorded_out_shape'):
        hs = s.sets('self', a)
        ck.need('starts-empty', [h for h in hs if empty(s, h.e.value)], s,
                'layers start without %s' % a)
    for c in sorted(x for x in ck.prog.classes('GroupFisherMixin')) if 0 \
            else ('GroupFisherConv2d', 'GroupFisherLinear'):
        i = ck.fn(c + '.__init__', opaque=('_init',))
        ck.always('initialised', i.calls('self._init()'), i,
                  '%s starts with empty records' % c)
    s = ck.fn('GroupFisherMixin.start_record', opaque=('end_record',))
    ends = s.calls('self.end_record()')
    ck.always('ends-first', ends, s, 'recording anew drops the hooks of '
              'the last recording')
    for kind, regs, maker in (
            ('forward', ('register_forward_hook',), 'forward_hook_wrapper'),
            ('backward', ('register_backward_hook',
                          'register_full_backward_hook'),
             'backward_hook_wrapper')):
        hs = [h for n in regs for h in s.calls('self.%s(...)' % n)]
        ck.always('registered', hs, s, 'a %s hook is registered' % kind)
        ck.ob('one-hook', len(hs) == 1 and not hs[0].e.loops, s, 'one %s '
              'hook' % kind)
        for h in hs:
            rec = 'recorded_input' if kind == 'forward' else 'recorded_grad'
            subs = [c for x in h.e.args for c in [s.closure(x)] if c]
            ck.ob('own-hook', any(c.calls('_.%s._(...)' % rec)
                                  for c in subs), h, 'it is the recording '
                  '%s hook' % kind)
            if ends:
                ck.ob('ends-first', ends[0].e.seq < h.e.seq, h, 'hooks are '
                      'registered after the old ones are gone')
            kept = [k for k in s.calls('self.handlers._(...)') if any(
                y == h.e.term for x in k.e.args for y in walk(x))
                and k.unconditional()] + [
                k for k in s.sets('self', 'handlers') if any(
                    y == h.e.term for y in walk(full(s, k.e.value)))]
            ck.ob('handle-kept', bool(kept), h, 'its handle is kept, so '
                  'that the recording ends')
    s = ck.fn('GroupFisherMixin.end_record')
    rm = s.calls('ELEM(self.handlers).remove()')
    ck.need('removed', rm, s, 'the end of a recording removes the hooks')
    for h in rm:
        ck.ob('removed', h.e.guard is True and all(
            whole(s, l) for l in h.e.loops), h, 'every hook is removed')
    cleared(ck, s, 'handlers')
    s = ck.fn('GroupFisherMixin.reset_recorded')
    for a in ('recorded_input', 'recorded_grad', 'recorded_out_shape'):
        cleared(ck, s, a)


def empty(s, v):
    return any(f[0] == 'alloc' and f[1] in ('list', 'dict') and not f[2] or
               f == ('tuple', ()) or f[0] == 'call' and
               f[1] in (('global', 'list'),) and not f[2]
               for f in s.m.forms(v))


def cleared(ck, s, a):
    hs = [h for h in s.sets('self', a) if empty(s, h.e.value)] + s.calls(
        'self.%s.clear()' % a)
    ck.need('cleared', [h for h in hs if h.unconditional()], s,
            '%s is emptied' % a)


def hooks(ck):
    s = ck.fn('GroupFisherMixin.forward_hook_wrapper')
    for f in [s.closure(s.ret())]:
        h = f.calls('module.recorded_input.append(input[0])')
        ck.always('records-input', h, f, 'every call of a layer records its '
                  'input')
        h = f.calls('module.recorded_out_shape.append(output.shape)') + \
            f.calls('module.recorded_out_shape.append(output.size())')
        ck.always('records-shape', h, f, 'and the shape of its output')
        for a in ('input', 'out_shape'):
            ck.ob('records-once', len([
                1 for h in f.calls('module.recorded_%s._(...)' % a)]) == 1,
                f, 'once')
    s = ck.fn('GroupFisherMixin.backward_hook_wrapper',
              opaque=('grad_in_index',))
    f = s.closure(s.ret())
    hs = f.calls('module.recorded_grad.insert(0, '
                 'grad_in[module.grad_in_index])')
    ck.always('records-grad', hs, f, 'every backward call records the '
              'gradient of the input, the last call of the layer first')
    ck.ob('records-once', len(f.calls('module.recorded_grad._(...)')) == 1,
          f, 'once')
    # positions among the gradients of a layer's inputs
    for cls, cond in (('GroupFisherConv2d', None), ('GroupFisherLinear',
                                                     'self.bias is None')):
        s = ck.fn(cls + '.grad_in_index')
        for g, v in leaves(s, s.ret()):
            if cond is None:
                ck.ob('input-gradient', v == ('const', 0), s, 'the gradient '
                      'of the input of a convolution comes first')
            else:
                for b, want in ((True, 0), (False, 1)):
                    gg = case(s, g, {cond: b})
                    if possible(s, gg):
                        ck.ob('input-gradient', v in (('const', want),), s,
                              'a linear layer %s bias: the gradient of the '
                              'input is number %d [%s]' % (
                                  'without' if b else 'with', want, show(v)))


# ------------------------------------------------------- fisher arithmetic
def update(ck):
    s = ck.fn('GroupFisherChannelUnit.update_fisher_info', opaque=(
        'current_batch_fisher', '_get_normalized_fisher_info'))
    ck.ob('no-grad', all(no_grad(Hit(s, e, {})) for e in s.kind('setattr')),
          s, 'the importance is no part of the graph')
    sets = s.sets('self', 'normalized_fisher_info')
    N = 'self._get_normalized_fisher_info(_b, self.delta_type)'
    A = [h for h in sets if s.match(
        h.e.value, 'self.normalized_fisher_info + ' + N) is not None]
    A += s.calls('self.normalized_fisher_info.add_(%s)' % N)
    ck.always('accumulated', A, s, 'the importance of a batch is normalised '
              'and added to the importance')
    ck.ob('accumulated-once', len(sets) + len(s.calls(
        'self.normalized_fisher_info._(...)')) == 1 and len(A) == 1, s,
        'once')
    batch = 'OR(self.current_batch_fisher, self.current_batch_fisher())'
    norm = s.calls('self._get_normalized_fisher_info(%s, self.delta_type)'
                   % batch)
    ck.need('batch', norm, s, 'it is the importance of the batch')
    red = [h for h in s.calls('all_reduce(...)') if any(
        s.match(x, batch) is not None for x in h.e.args)]
    ck.need('reduced', red, s, 'the importance is shared among processes, '
            'so that all prune the same channel')
    for h in red:
        ck.ob('reduced', s.m.implied_by(
            h.e.guard, 'OR(is_initialized(), is_distributed())'), h,
            'in every distributed run')
        for n in norm:
            ck.ob('reduced-first', h.e.seq < n.e.seq, h, 'before it is '
                  'normalised and added')
    s = ck.fn('GroupFisherChannelUnit.reset_fisher_info')
    z = s.calls('self.normalized_fisher_info.zero_()') + s.calls(
        'self.normalized_fisher_info.fill_(0)') + [
        h for h in s.sets('self', 'normalized_fisher_info')
        if 'zeros' in show(full(s, h.e.value))]
    ck.always('reset', z, s, 'after a pruning the importance starts from '
              'zero')


def fisher(ck):
    s = ck.fn('GroupFisherChannelUnit.current_batch_fisher',
              opaque=('_fisher_of_a_module',))
    ops = [h for h in s.calls('self._fisher_of_a_module(ELEM(_o))')]
    visits(ck, s, [h for h in ops], OPS['in'], 'every input related layer '
           'adds to the importance')
    for h in ops:
        ck.ob('input-side', not any(over(s, l, 'self.output_related',
              'self.dynamic_ops', 'self.output_related_dynamic_ops')
              for l in h.e.loops), h, 'and no other')
    X = 'self._fisher_of_a_module(ELEM(_))'
    ok = False
    for g, r in leaves(s, s.ret()):
        for sq in ('(_x ** 2).sum(_d)', '(_x * _x).sum(_d)',
                   '_x.pow(2).sum(_d)', '_x.square().sum(_d)',
                   '(_x ** 2).sum(dim=_d)', 'sum(_x ** 2, _d)',
                   '_x.pow(2).sum(dim=_d)', '(_x * _x).sum(dim=_d)'):
            b = s.match(full(s, r), sq)
            if b is not None and b.get('_d') == ('const', 0) and acc_of(
                    s, b['_x'], X):
                ok = True
    ck.ob('square-of-sum', ok, s, 'the contributions of the layers are '
          'summed for each sample, squared and summed over the samples '
          '[%s]' % show(s.ret()))
    # one layer
    s = ck.fn('GroupFisherChannelUnit._fisher_of_a_module')
    pair = 'ELEM(module.recorded_input) * ELEM(module.recorded_grad)'
    accs = [x for e in s.ev for t in (e.term, e.value)
            if isinstance(t, tuple) for x in walk(t) if x[0] == 'acc']
    accs = [a for i, a in enumerate(accs) if a not in accs[:i]]
    good = [a for a in accs if s.find(a[3], pair)]
    ck.need('product', good, s, 'input and gradient of every call are '
            'multiplied')
    for a in good:
        lid = a[4]
        ck.ob('every-call', a[1] == 'Add' and whole(s, lid) and over(
            s, lid, 'module.recorded_input') and a[2] == ('const', 0), s,
            'and all calls of the layer are added up')
        four = 'len(_.shape) == 4'
        for b, m in ((True, '(_p).sum(dim=[2, 3])'), (False, '_p')):
            for g, v in leaves(s, a[3]):
                g4 = case(s, g, {four: b, '_.dim() == 4': b,
                                 '_.ndim == 4': b})
                if not possible(s, g4):
                    continue
                alts = (m,) if not b else (
                    '_p.sum(dim=[2, 3])', '_p.sum([2, 3])', '_p.sum((2, 3))',
                    '_p.sum(dim=(2, 3))', '_p.sum(dim=(-2, -1))',
                    '_p.sum(dim=[-2, -1])', '_p.flatten(2).sum(2)',
                    '_p.flatten(2).sum(-1)')
                ck.ob('spatial-sum', any(
                    (s.match(v, p) or {}).get('_p') is not None and
                    s.match(s.match(v, p)['_p'], pair) is not None
                    for p in alts), s, 'a feature map is summed over its '
                    'positions' if b else 'other inputs are used as they '
                    'are')
    asserts = [h for h in s.kind('assert')]
    R = refused(s)
    ck.ob('complete', s.m.implied_by(
        R, 'len(module.recorded_input) != len(module.recorded_grad)'), s,
        'a layer with incomplete records is refused')
    ck.ob('complete', s.m.implied_by(
        R, 'len(module.recorded_input) == 0') or s.m.implied_by(
        R, 'not module.recorded_input') or s.m.implied_by(
        R, 'not 0 < len(module.recorded_input)'), s,
        'a layer without records is refused')
    sc = s.calls('_z.masked_scatter_(_k, _f)') + s.calls(
        '_z.masked_scatter(_k, _f)')
    ck.always('placed', sc, s, 'the values of the remaining channels are put '
              'at their places')
    for h in sc:
        ck.ob('placed', s.derives(h.b['_k'], 'self.mutable_channel.'
              'current_mask') and not any(
                  x[0] == 'un' for x in walk(full(s, h.b['_k']))), h,
              'as the mask of the unit tells')
        ck.ob('placed', any(a in list(walk(full(s, h.b['_f'])))
                            for a in good), h, 'the sum of all calls')
        ck.ob('from-zero', 'zeros' in show(full(s, h.b['_z'])), h,
              'removed channels count zero')
        ck.ob('returned', any(same(s, v, h.e.term) or same(
            s, v, h.b['_z']) for g, v in leaves(s, s.ret())), h,
            'and this is the result')


def acc_of(s, t, pat):
    """t adds up pat over a loop (or comprehension), from zero"""
    t = full(s, t)
    if t[0] == 'acc':
        return t[2] == ('const', 0) and t[1] in ('Add', '+') and s.match(
            t[3], pat) is not None
    b = s.match(t, 'sum(_c)')
    if b is not None:
        its = listed(s, b['_c'])
        return bool(its) and all(i.guard is True and s.match(
            i.value, pat) is not None for i in its)
    return False


def normalise(ck):
    s = ck.fn('GroupFisherChannelUnit._get_normalized_fisher_info', opaque=(
        '_delta_flop_of_a_channel', '_delta_memory_of_a_channel'))
    A = Arith(s, {'F': 'OR(fisher_info.double(), fisher_info)',
                  'C': 'OR(float(self._delta_flop_of_a_channel), '
                       'self._delta_flop_of_a_channel)',
                  'M': 'OR(float(self._delta_memory_of_a_channel), '
                       'self._delta_memory_of_a_channel)'})
    want = {'flops': 'F / C * 1000000000', 'act': 'F / M * 1000000',
            'none': 'F'}
    for k, w in want.items():
        n = 0
        for g, v in leaves(s, s.ret()):
            gg = given(s, g, 'delta_type', k)
            if not possible(s, gg):
                continue
            n += 1
            c = canon(A.of(v))
            num = w.split(' *')[0]
            ok = scaled(c, num)
            ck.ob('per-cost', ok, s, "importance with '%s' is %s up to a "
                  'constant factor [%s]' % (k, num, c))
        ck.ob('per-cost', n > 0, s, "'%s' is supported" % k)
        ck.ob('accepted', not possible(s, given(s, own_raises(s),
              'delta_type', k)), s, "'%s' is accepted" % k)
    s2 = ck.fn('GroupFisherChannelUnit.__init__')
    st = s2.sets('self', 'delta_type')
    ck.ob('unit-cost', any(h.e.value == ('param', 'normalization_type')
                           and h.unconditional() for h in st), s2,
          'the unit keeps the configured cost')
    ck.ob('refused', possible(s2, own_raises(s2)) or possible(s, f_and(
        own_raises(s))), s2, 'an unknown cost is refused')
    for k in want:
        ck.ob('accepted', not possible(s2, given(
            s2, own_raises(s2), 'normalization_type', k)), s2,
            "'%s' is accepted" % k)


def own_raises(s):
    """the function refuses its configuration (raise statements and
    assertions about the parameters alone)"""
    out = []
    for h in s.kind('raise', 'assert'):
        if len(h.e.frames) > 1:
            continue
        c = h.e.guard
        if h.e.kind == 'assert':
            if any(x[0] == 'attr' for a in f_atoms(h.e.value[1])
                   for x in walk(a)):
                continue
            c = f_and(c, f_not(h.e.value[1]))
        out.append(c)
    return f_or(*out)


def scaled(c, base):
    """same polynomial up to one positive constant factor"""
    import re
    c2 = canon(expr(base))
    a = re.match(r'^([0-9./]+)\*(.*)$', c)
    b = re.match(r'^([0-9./]+)\*(.*)$', c2)
    return bool(a and b) and a.group(2) == b.group(2) and '+' not in c


def costs(ck):
    s = ck.fn('GroupFisherChannelUnit._delta_flop_of_a_channel', opaque=(
        'delta_flop_of_a_out_channel', 'delta_flop_of_a_in_channel'))
    sums(ck, s, {'out': 'delta_flop_of_a_out_channel',
                 'in': 'delta_flop_of_a_in_channel'})
    s = ck.fn('GroupFisherChannelUnit._delta_memory_of_a_channel',
              opaque=('delta_memory_of_a_out_channel',))
    sums(ck, s, {'out': 'delta_memory_of_a_out_channel'})
    SH = 'ELEM(self.recorded_out_shape)'
    IN = 'OR(self.mutable_attrs["in_channels"].current_mask.float().sum(), ' \
        'self.mutable_attrs["in_channels"].current_mask.float().sum().' \
        'item(), int(self.mutable_attrs["in_channels"].current_mask.float' \
        '().sum().item()), self.mutable_attrs["in_channels"].' \
        'activated_channels, self.mutable_attrs["in_channels"].' \
        'current_mask.sum().item(), self.mutable_attrs["in_channels"].' \
        'current_mask.sum())'
    names = {'h': SH + '[2]', 'w': SH + '[3]', 'o': SH + '[1]',
             'k': 'self.kernel_size[0]', 'l': 'self.kernel_size[1]',
             'i': IN, 'z': SH + '[-1]', 'n': 'len(self.recorded_out_shape)'}
    names['h'] = 'OR(%s[2], %s[-2])' % (SH, SH)
    names['w'] = 'OR(%s[3], %s[-1])' % (SH, SH)
    one = 'self.groups == 1'
    for cls, m, dense, depth in (
            ('Conv2d', 'flop_of_a_out', 'h*w*k*l*i', 'h*w*k*l'),
            ('Conv2d', 'flop_of_a_in', 'h*w*k*l*o', 'h*w*k*l'),
            ('Conv2d', 'memory_of_a_out', 'h*w', None),
            ('Linear', 'flop_of_a_out', 'i', None),
            ('Linear', 'flop_of_a_in', 'z', None),
            ('Linear', 'memory_of_a_out', '1', None)):
        s = ck.fn('GroupFisher%s.delta_%s_channel' % (cls, m),
                  opaque=('activated_channels', 'current_mask'))
        nm = dict(names)
        if cls == 'Linear':
            for x in 'hwo':
                nm.pop(x)
        A = Arith(s, nm)
        terms = []
        for g, r in leaves(s, s.ret()):
            r = full(s, r)
            if r[0] == 'acc':
                ok = r[1] == 'Add' and r[2] == ('const', 0) and whole(s, r[4]) and over(
                    s, r[4], 'self.recorded_out_shape')
                ck.ob('every-call', ok, s, 'the cost adds up over all calls '
                      'of the layer')
                terms += cases(s, r[3], g)
            elif s.match(r, 'sum(_c)') is not None:
                for i in listed(s, s.match(r, 'sum(_c)')['_c']):
                    ck.ob('every-call', i.over('self.recorded_out_shape')
                          and all(whole(s, l) for l in i.loops) and
                          i.guard is True, s, 'the cost adds up over all '
                          'calls of the layer')
                    terms += [(f_and(g, gg), v) for gg, v in cases(
                        s, i.value, True)]
            else:
                c = canon(A.of(r))
                ck.ob('cost', c == canon(expr('n*(%s)' % dense)), s, 'the '
                      'cost is that of a channel, for each call [%s]' % c)
                terms = None
                break
        if terms is None:
            continue
        seen = set()
        for g, v in terms:
            c = canon(A.of(v))
            if depth is None:
                ck.ob('cost', c == canon(expr(dense)), s, 'the cost of a '
                      'channel is %s [%s]' % (dense, c))
                seen = {True, False}
                continue
            for b, w in ((True, dense), (False, depth)):
                gg = case(s, g, {one: b})
                if possible(s, gg):
                    seen.add(b)
                    ck.ob('cost', c == canon(expr(w)) or not b and c ==
                          canon(expr(depth + '*1')), s, 'the cost of a '
                          'channel of a %s convolution is %s [%s]' % (
                              'dense' if b else 'depthwise', w, c))
        ck.ob('cost', True in seen, s, 'there is a cost')
        if depth is not None:
            R = f_or(*[h.e.guard for h in s.kind('raise')])
            I, O = 'self.groups == self.in_channels', \
                'self.in_channels == self.out_channels'
            for i, o in ((True, True), (True, False), (False, True)):
                ck.ob('other-groups', possible(s, case(s, R, {
                    one: False, I: i, O: o,
                    'self.groups == self.out_channels': i == o})) != (
                        i and o), s, 'grouped convolutions other than '
                    'depthwise ones are refused')


def sums(ck, s, parts):
    """the result adds up an attribute of the layers on each side"""
    found = {}

    def rec(t):
        t = full(s, t)
        if t == ('const', 0):
            return
        if t[0] == 'acc' and t[1] == 'Add':
            rec(t[2])
            item(t[3], [t[4]], True)
        elif t[0] == 'bin' and t[1] in ('Add', '+'):
            rec(t[2])
            rec(t[3])
        elif s.match(t, 'sum(_c)') is not None:
            for i in listed(s, s.match(t, 'sum(_c)')['_c']):
                item(i.value, i.loops, i.guard)
        else:
            ck.ob('sum', False, s, 'an unexpected summand [%s]' % show(t))

    def item(v, loops, g):
        for side, a in parts.items():
            if s.match(v, 'ELEM(_).' + a) is not None and any(
                    over(s, l, *OPS[side]) for l in loops):
                found[side] = found.get(side, 0) + 1
                ck.ob('sum', covers(s, g) and all(
                    whole(s, l) for l in loops), s, 'every layer is counted')
                return
        ck.ob('sum', False, s, 'an unexpected summand [%s]' % show(v))

    for g, r in leaves(s, s.ret()):
        rec(r)
    for side, a in parts.items():
        ck.ob('sum', found.get(side) == 1, s, 'the layers on the %sput side '
              'are counted once' % side)


# ------------------------------------------------------- importance, prune
def importance(ck):
    s = ck.fn('GroupFisherChannelUnit.importance', opaque=('current_mask',))
    src = 'self.normalized_fisher_info'
    ck.ob('own-importance', all(s.derives(v, src) for g, v in leaves(
        s, s.ret())), s, 'the importance is what was accumulated')
    mk = 'self.mutable_channel.current_mask'
    fills = s.calls('_f.masked_fill_(_k, _v)') + s.calls(
        '_f.masked_fill(_k, _v)') + s.calls('where(_m2, _f2, _v)')
    ok = False
    for h in fills:
        if '_k' in h.b:
            gone = s.match(h.b['_k'], 'OR((1 - %s.float()).bool(), '
                           '(1 - %s.int()).bool(), '
                           '%s.logical_not(), logical_not(%s), '
                           '%s == 0)' % ((mk,) * 5)) is not None or (
                full(s, h.b['_k'])[0] == 'un' or s.E.formula(
                    full(s, h.b['_k'])) == f_not(s.E.formula(
                        h.b['_k']))) and s.derives(h.b['_k'], mk)
        else:
            gone = s.match(h.b['_m2'], 'OR(%s, %s.bool())' % (
                mk, mk)) is not None
        high = s.match(h.b['_v'], 'OR(_x.max() + _c, float("inf"), '
                       'inf)')
        if h.e.func[0] == 'attr' and h.e.func[2] == 'masked_fill_':
            ck.ob('reading-is-pure', s.match(h.b['_f'], 'OR(_.clone(), '
                  'clone(...))') is not None, h, 'asking for the importance '
                  'leaves it as it was')
        ck.ob('removed-are-last', gone and high is not None and (
            '_c' not in high or high['_c'][0] == 'const' and
            high['_c'][1] > 0) and h.unconditional(), h, 'removed channels '
            'get an importance above all others')
        ok = True
    ck.ob('removed-are-last', ok, s, 'removed channels cannot be chosen')


def prune(ck):
    s = ck.fn('GroupFisherChannelUnit.try_to_prune_min_channel', opaque=(
        'importance', 'activated_channels'))
    many = '1 < self.mutable_channel.activated_channels'
    IDX_ = 'OR(self.importance().argmin(), argmin(self.importance()))'
    z = s.calls('self.mutable_channel.mask.scatter_(0, %s, OR(0, 0.0, False))' % IDX_) + \
        s.items('self.mutable_channel.mask', IDX_, 'OR(0, 0.0, False)')
    ck.need('removes', z, s, 'the least important channel is removed')
    for h in z:
        ck.ob('removes-when', s.m.equiv(h.e.guard, many) and not h.e.loops,
              h, 'exactly when more than one channel remains')
    ck.ob('removes-one', len(z) == 1 and not [
        e for e in s.kind('setattr', 'setitem') if e is not z[0].e] and len(
            s.calls('_.scatter_(...)') + s.items('self.mutable_channel.mask')
        ) == 1, s, 'only one channel is removed')
    for b in (True, False):
        for g, v in leaves(s, s.ret()):
            if possible(s, case(s, g, {many: b})):
                ck.ob('tells', v == ('const', b), s, 'it tells whether a '
                      'channel was removed')


def choose(ck):
    s = ck.fn('GroupFisherChannelMutator.try_prune', opaque=OPQ + (
        'importance', 'try_to_prune_min_channel', 'activated_channels'))
    U = 'ELEM(self.mutable_units)'
    many = '1 < %s.mutable_channel.activated_channels' % U
    nan = ('%s.importance().isnan().any()' % U,
           'isnan(%s.importance()).any()' % U)
    pr = s.calls('_u.try_to_prune_min_channel()')
    ck.ob('prunes-one', len(pr) == 1 and not pr[0].e.loops, s, 'one unit is '
          'pruned')
    for h in pr:
        u = h.b['_u']
        b = s.match(full(s, u), 'min(_c, key=_)')
        if b is not None:
            ok = comp_min(s, full(s, u))
            ck.ob('least', ok, h, 'the unit with the least importance')
            continue
        step = None
        for (lid, n), t in s.E.steps.items():
            if any(x[0] == 'loopvar' and x[1:3] == (n, lid)
                   for x in s.m.forms(u)) and over(s, lid, *UNITS):
                step = (lid, n, t)
        if step is None:
            ck.ob('least', False, h, 'the pruned unit is chosen among the '
                  'mutable ones')
            continue
        lid = step[0]
        ck.ob('every-unit', whole(s, lid), h, 'all mutable units take part')
        # the guard under which the choice changes, and the running minimum
        news = [(g, v) for g, v in leaves(s, step[2])
                if s.match(v, U) is not None]
        G = f_or(*[g for g, v in news])
        ck.ob('least', bool(news), h, 'a unit of less importance is chosen')
        low = None
        for (l2, n2), t2 in s.E.steps.items():
            if l2 != lid or n2 == step[1]:
                continue
            ch = [(g, v) for g, v in leaves(s, t2) if s.match(
                v, 'OR(%s.importance().min().item(), %s.importance().min())'
                % (U, U)) is not None]
            if ch:
                low = (n2, f_or(*[g for g, v in ch]))
        ck.ob('running-minimum', low is not None and f_equiv(
            s.m.skey(low[1]), s.m.skey(G)), h, 'the least importance so far '
            'is kept along with its unit')
        g = case(s, G, dict([(many, True)] + [(n, False) for n in nan]))
        atoms = [a for a in f_atoms(g)]
        less = [a for a in atoms if a[0] == 'cmp' and a[1] == '<' and
                s.match(a[2], 'OR(%s.importance().min(), %s.importance()'
                        '.min().item())' % (U, U)) is not None and
                a[3][0] == 'loopvar'
                or a[0] == 'cmp' and a[1] == '<' and s.match(
                    a[3], 'OR(%s.importance().min(), %s.importance().min()'
                          '.item())' % (U, U)) is not None]
        ck.ob('least', len(atoms) == 1 and len(less) == 1 and (
            (less[0][2][0] == 'loopvar') ==
            (g[0] == 'not')), h, 'a unit is chosen '
            'exactly when its least importance is below that so far '
            '[%s]' % fshow(g))
        ck.ob('keeps-one', s.m.implies(G, many), h, 'only units with more '
              'than one channel are chosen')
        inits = initial(s, lid, low[0]) if low else []
        ck.ob('starts-high', bool(inits) and all(s.match(
            i, 'OR(float("inf"), inf, None)') is not None
            for i in inits), h, 'the search starts above every importance '
            '[%s]' % ', '.join(show(i) for i in inits))
        ck.ob('nan', any(x[0] == 'atom' or True for x in [g]) and nan_skips(
            s, h, nan), h, 'with an undefined importance nothing is pruned')


def nan_skips(s, h, nan):
    """a return in the search under the nan test, or a guard"""
    for e in s.kind('return'):
        if e.loops and any(s.m.implies(e.guard, n) for n in nan) and \
                e.seq < h.e.seq:
            return True
    return any(not s.m.implied_by(h.e.guard, n) for n in nan) and \
        'isnan' in fshow(h.e.guard)


def initial(s, lid, name):
    return list({x[3] for t in s.E.steps.values() for x in walk(t)
                 if x[0] == 'loopvar' and x[1:3] == (name, lid)})


def comp_min(s, t):
    return all(s.derives(x, 'self.mutable_units') for x in t[2][:1])


# ------------------------------------------------------- resource target
def target_hook(ck):
    s = ck.fn('ResourceInfoHook.__init__')
    ck.ob('largest-first', any(s.match(h.e.value, OR_SORT) is not None
                               for h in s.sets('self', 'save_ckpt_thr')), s,
          'the targets are met from the largest to the smallest')
    s = ck.fn('ResourceInfoHook.before_run', opaque=(
        '_evaluate', 'get_model_from_runner', 'print_log'))
    h = s.sets('self', 'origin_delta')
    ck.always('baseline', [x for x in h if s.match(
        x.e.value, 'self._evaluate(_)[self.resource_type]') is not None], s,
        'the resource before pruning is the baseline')
    s = ck.fn('ResourceInfoHook.after_train_iter', opaque=(
        '_evaluate', '_save_checkpoint', 'iter', 'get_model_from_runner'))
    due = 'OR(iter(), _.iter()) % self.interval == 0'
    left = 'self.save_ckpt_thr'
    CUR = 'self._evaluate(_)[self.resource_type]'
    met = '%s / self.origin_delta < self.save_ckpt_thr[0]' % CUR
    met2 = '%s < self.save_ckpt_thr[0] * self.origin_delta' % CUR
    pops = s.calls('self.save_ckpt_thr.pop(0)')
    saves = s.calls('self._save_checkpoint(...)')
    for what, hs in (('saved', saves), ('done', pops)):
        ck.need(what, hs, s, 'a met target is %s' % what)
        F = unfold(s, f_or(*[h.e.guard for h in hs]))
        ck.ob(what, any(s.m.equiv(case(s, F, {left: True}),
              '%s and %s' % (due, m)) for m in (met, met2)) and not
              possible(s, case(s, F, {left: False})), hs[0] if hs else s,
              'a target is %s when a check finds the resource below it '
              '[%s]' % (what, fshow(F)))
    ck.ob('done', len(pops) == 1 and not any(h.e.loops for h in pops), s,
          'one target at a time')
    ex = [h for p in ('exit(...)', 'exit(...)', 'quit(...)')
          for h in s.calls(p)]
    ex = list({h.e.seq: h for h in ex}.values())
    ck.need('stops', ex, s, 'pruning stops when all targets are met')
    for h in ex:
        ck.ob('stops', any(s.m.equiv(h.e.guard, p) for p in (
            'self.early_stop and len(self.save_ckpt_thr) == 0',
            'self.early_stop and not self.save_ckpt_thr',
            'self.early_stop and not 0 < len(self.save_ckpt_thr)')), h,
            'pruning stops exactly then, and if told so [%s]' % fshow(
                h.e.guard))
        for p in pops:
            ck.ob('stops', p.e.seq < h.e.seq, h, 'the last target counts in '
                  'the same step')
    s = ck.fn('ResourceInfoHook._evaluate', opaque=(
        'estimate', 'input_generator_wrapper'))
    es = s.calls('self.estimator.estimate(model, ...)')
    ck.always('evaluated', es, s, 'the resource is that of the model')
    ev = s.calls('model.eval()') + s.calls('model.train(False)')
    ck.order('eval-mode', ev, es, s, 'in evaluation mode')
    back = s.calls('model.train()') + s.calls('model.train(_t)')
    back = [h for h in back if h not in ev and (
        h.e.args == () or s.match(h.e.args[0], 'OR(True, model.training)')
        is not None)]
    ck.need('mode-restored', [h for h in back if h.e.seq > es[0].e.seq and
            s.m.implied_by(h.e.guard, 'model.training')] if es else [], s,
            'and training goes on in training mode')
    for h in es:
        ck.ob('no-grad', no_grad(h), h, 'without gradients')
    s = ck.fn('ResourceInfoHook._save_checkpoint', opaque=(
        '_evaluate', 'print_log'))
    sv = s.calls('save_checkpoint(_c, _p, ...)')
    ck.always('writes', sv, s, 'a checkpoint is written')
    for h in sv:
        ck.ob('writes', s.derives(h.b['_c'], 'model.state_dict()'), h,
              'with the weights of the model')
        ck.ob('named-by-target', any(s.derives(
            h.b['_p'], x) for x in ('delta_percent',)) and s.derives(
                h.b['_p'], 'path'), h, 'under a name of its own')


OR_SORT = 'sorted(save_ckpt_thr, reverse=True)'
