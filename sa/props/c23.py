"""C23 temporary instrumentation and mode changes are undone."""
import ast
from .common import *
from ..terms import f_and, f_not, f_or, f_implies, f_equiv, show

HOOKS = ('register_forward_hook', 'register_forward_pre_hook',
         'register_backward_hook', 'register_full_backward_hook',
         'register_full_backward_pre_hook', 'register_hook',
         'register_module_forward_hook',
         'register_module_forward_pre_hook')
GLOBAL = ('set_default_dtype', 'set_default_tensor_type',
          'set_default_device', 'set_grad_enabled', 'manual_seed',
          'manual_seed_all', 'set_rng_state', 'set_num_threads',
          'use_deterministic_algorithms', 'set_anomaly_enabled',
          'set_printoptions')


def check(ck):
    ck.sections(calibrate, counting, printing, estimator, fisher_mode,
                recording, tracing, efficient, dtype, hooks_kept, patched,
                analyse_copy, outputs_hook)


def recv(h):
    f = h.e.func
    return f[1] if f is not None and f[0] == 'attr' else None


def removed_all(ck, rule, s, coll, msg, after=()):
    """a loop over the collection removes every handle, on every path"""
    good = []
    for h in s.calls('_h.remove()'):
        if not h.e.loops:
            continue
        lid = h.e.loops[-1]
        it = s.E.loops[lid]['iter']
        if it is None or not coll(it) or not whole(s, lid):
            continue
        if not h.unconditional or len(h.e.loops) != 1:
            continue
        if any(a.e.seq > h.e.seq for a in after):
            continue
        good.append(h)
    ck.need(rule, good, s, msg)


# ------------------------------------------------------------ BN calibration
def calibrate(ck):
    s = ck.fn('CalibrateBNMixin.calibrate_bn_statistics')
    regs = [h for n in HOOKS for h in s.calls('_m.%s(...)' % n)]
    ck.need('calibrate-hook', regs, s, 'inputs of the norm layers are '
            'recorded by hooks')
    runs = s.calls('self.runner.model._(...)', None)
    runs = [h for h in runs if h.e.func[2].endswith('_step') or
            h.e.func[2] == 'forward'] + s.calls('self.runner.model(...)')
    ck.need('calibrate-run', runs, s, 'the model runs on the data')
    for r in regs:
        kept = [c for c in s.ev if c.kind == 'call' and c.func and
                c.func[0] == 'attr' and c.func[2] in ('append', 'add') and
                len(c.args) == 1 and full(s, c.args[0]) == full(s, r.e.term)
                and f_implies(s.m.skey(r.e.guard), s.m.skey(c.guard))
                and c.loops == r.e.loops]
        colls = [c.func[1] for c in kept]
        for t in {h.e.loops[-1] for h in s.calls('_h.remove()')
                  if h.e.loops}:
            it = s.E.loops[t]['iter']
            for i in listed(s, it) if it is not None else ():
                v = i.value if hasattr(i, 'value') else None
                if v is not None and full(s, v) == full(s, r.e.term) and \
                        f_implies(s.m.skey(r.e.guard),
                                  s.m.skey(getattr(i, 'guard', True))):
                    colls.append(it)
        ck.ob('calibrate-kept', bool(colls), r, 'the handle of every hook '
              'is kept')
        removed_all(ck, 'calibrate-removed', s, lambda t: any(
            same(s, t, c) for c in colls), 'every hook is removed when '
            'calibration is over', runs)
    for h in regs:
        for q in runs:
            ck.ob('calibrate-order', h.e.seq < q.e.seq, q, 'hooks are in '
                  'place before the data runs')
    # attributes the calibration puts on the layers
    for a in sorted({e.attr for e in s.ev if e.kind == 'setattr' and
                     e.loops and isinstance(e.attr, str)}):
        sets = [h for h in s.sets('_m', a) if h.e.loops]
        dels = [h for h in s.kind('del') if h.e.attr == a] + \
            s.calls("delattr(_m, '%s')" % a)
        ck.need('calibrate-meters', dels, s, 'the meters put on the layers '
                'are dropped')
        for w in sets:
            gs = []
            for d in dels:
                if d.e.seq > w.e.seq and d.e.loops and \
                        not s.E.loops[d.e.loops[-1]]['breaks'] and \
                        show(s.E.loops[d.e.loops[-1]]['iter']) == \
                        show(s.E.loops[w.e.loops[-1]]['iter']):
                    gs.append(s.m.skey(d.e.guard))
            ok = bool(gs) and f_implies(s.m.skey(w.e.guard), f_or(*gs))
            ck.ob('calibrate-meters', ok, w, 'every layer loses its meter '
                  '%s again' % a)
    # mode: the callers decide the mode again before they evaluate
    for f in ('SubnetValLoop.run', 'EvolutionSearchLoop._val_candidate'):
        c = ck.fn(f, opaque=('calibrate_bn_statistics', 'eval'),
                  optional=True)
        if c is None:
            continue
        cal = c.calls('self.calibrate_bn_statistics(...)')
        ev = c.calls('self.runner.model.eval()')
        for h in cal:
            ck.ob('calibrate-mode', any(
                x.e.seq > h.e.seq and x.e.loops == h.e.loops[:len(x.e.loops)]
                or x.e.seq > h.e.seq and f_implies(
                    c.m.skey(h.e.guard), c.m.skey(x.e.guard))
                for x in ev), h, 'the training mode calibration switches on '
                'is left before the evaluation')


# ------------------------------------------------------------- FLOPs counter
def counting(ck):
    s = ck.fn('get_model_flops_params', opaque=(
        'print_model_with_flops_params', 'accumulate_sub_module_flops_params',
        'params_units_convert'))
    start = s.calls('_m.start_flops_params_count(...)')
    stop = s.calls('_m.stop_flops_params_count()')
    ck.always('count-start', start, s, 'counting starts')
    ck.always('count-stop', stop, s, 'counting is stopped on every path')
    for h in stop:
        ck.ob('count-stop', bool(start) and same(s, h.b['_m'],
              start[0].b['_m']), h, 'on the model it was started on')
        for n in ('compute_average_flops_params_cost',):
            for u in s.calls('_m.%s()' % n):
                ck.ob('count-order', u.e.seq < h.e.seq, u, 'sums are read '
                      'before the counts are dropped')
        for u in s.calls('print_model_with_flops_params(...)') + \
                s.calls('accumulate_sub_module_flops_params(...)'):
            ck.ob('count-order', u.e.seq < h.e.seq, u, 'counts are read '
                  'before they are dropped')
    for r in s.returns():
        ck.ob('count-stop', any(h.e.seq < r.e.seq for h in stop), r,
              'nothing is returned while counting goes on')
    s = ck.fn('stop_flops_params_count')
    one = s.calls('self.apply(_f)')
    ck.always('stop-modules', [h for h in one if show(
        h.b['_f']).split('.')[-1] == 'remove_flops_params_counter_hook_'
        'function' or s.closure(h.b['_f']) is not None], s,
        'all modules lose their counters')
    s = ck.fn('stop_flops_params_count')
    b = s.calls('self.__batch_counter_handle__.remove()') + \
        s.calls("getattr(self, '__batch_counter_handle__').remove()")
    ck.always('stop-batch', b, s, 'the batch counting hook is removed',
              guard="hasattr(self, '__batch_counter_handle__')")
    d = [h for h in s.kind('del') if h.e.attr == '__batch_counter_handle__']
    ck.always('stop-batch', d + s.calls(
        "delattr(self, '__batch_counter_handle__')"), s, 'its handle is '
        'dropped, so that counting can start again',
        guard="hasattr(self, '__batch_counter_handle__')")
    for h in d:
        for r in b:
            ck.ob('stop-batch', r.e.seq < h.e.seq, h, 'the hook is removed '
                  'before its handle is dropped')
    s = ck.fn('add_batch_counter_hook_function')
    regs = [h for n in HOOKS for h in s.calls('module.%s(...)' % n)]
    ck.iff('batch-hook', regs, s,
           "not hasattr(module, '__batch_counter_handle__')",
           'one batch counting hook at a time')
    for r in regs:
        ck.ob('batch-hook', any(
            same(s, w.e.value, r.e.term) and w.e.guard == r.e.guard or
            same(s, w.e.value, r.e.term) and f_implies(r.e.guard, w.e.guard)
            for w in s.sets('module', '__batch_counter_handle__')), r,
            'its handle is kept on the module')
    # counters of the layers
    s = ck.fn('remove_flops_params_counter_hook_function')
    g = "hasattr(module, '__flops_params_handle__')"
    rm = s.calls('module.__flops_params_handle__.remove()')
    ck.always('layer-hook-removed', rm, s, 'the counting hook of a layer is '
              'removed', guard=g)
    for a in ('__flops_params_handle__', '__flops__', '__params__'):
        d = [h for h in s.kind('del') if h.e.attr == a] + \
            s.calls("delattr(module, '%s')" % a)
        ck.always('layer-clean', d, s, '%s is dropped' % a,
                  guard="hasattr(module, '%s')" % a)
        if a == '__flops_params_handle__':
            for h in d:
                for r in rm:
                    ck.ob('layer-clean', r.e.seq < h.e.seq, h, 'the hook is '
                          'removed first')
    s = ck.fn('start_flops_params_count')
    n = 0
    for t in s.closures():
        c = s.closure(t)
        for r in [h for n_ in HOOKS for h in c.calls('_m.%s(...)' % n_)]:
            n += 1
            m = recv(r)
            ck.ob('layer-hook', any(
                same(c, w.e.value, r.e.term) and same(c, w.e.base, m) and
                f_implies(r.e.guard, w.e.guard)
                for w in c.sets('_m', '__flops_params_handle__')), r,
                'the handle of the counting hook is kept on the layer')
            ck.ob('layer-hook', any(
                'hasattr' in show(q) and '__flops_params_handle__' in show(q)
                for q in atoms(c.m.norm(r.e.guard))), r, 'a layer has one '
                'counting hook at a time')
    ck.floor('counting hooks of layers', n, 1)
    s = ck.fn('add_flops_params_counter_variable_or_reset',
              opaque=('is_supported_instance',))
    for a in ('__flops__', '__params__'):
        w = s.sets('module', a, '0')
        ck.always('layer-reset', w, s, 'counting starts from zero (%s)' % a,
                  guard='is_supported_instance(module)')
    s = ck.fn('add_batch_counter_variables_or_reset')
    ck.always('layer-reset', s.sets('module', '__batch_counter__', '0'), s,
              'the batch count starts from zero')


def atoms(f):
    if not isinstance(f, tuple):
        return []
    if f[0] == 'atom':
        return [f[1]]
    return [a for x in f[1:] for y in (x if isinstance(x, tuple) and x and
                                       isinstance(x[0], tuple) else (x,))
            for a in atoms(y)]


def printing(ck):
    s = ck.fn('print_model_with_flops_params')
    ap = s.calls('model.apply(_f)')
    pr = s.calls('print(...)')
    adds, dels = [], []
    for h in ap:
        c = s.closure(h.b['_f'])
        if c is None:
            continue
        if [x for x in c.sets('_m', 'original_extra_repr')]:
            adds.append((h, c))
        elif [x for x in c.kind('del')] or c.calls('delattr(...)'):
            dels.append((h, c))
    ck.ob('print-add', bool(adds), s, 'the description of the modules is '
          'replaced')
    ck.ob('print-restore', bool(dels) and all(
        h.unconditional and all(h.e.seq > p.e.seq for p in pr)
        for h, _ in dels), s, 'it is restored after printing')
    for _, c in dels[:1]:
        back = [w for w in c.sets('_m', 'extra_repr')
                if c.find(w.e.value, '_m.original_extra_repr')]
        ck.ob('print-restore', own(c, back, 'original_extra_repr'), c,
              'the module describes itself as before')
        put = {w.e.attr for _, a in adds for w in a.kind('setattr')
               if isinstance(w.e.attr, str)} - {'extra_repr'}
        for a in sorted(put):
            d = [h for h in c.kind('del') if h.e.attr == a] + \
                c.calls("delattr(_m, '%s')" % a)
            ck.ob('print-clean', own(c, d, a), c,
                  '%s is taken off the module' % a)
    for _, c in adds:
        sv = [w for w in c.sets('_m', 'original_extra_repr')
              if c.find(w.e.value, '_m.extra_repr')]
        st = c.sets('_m', 'extra_repr')
        ck.ob('print-saved', bool(sv) and all(
            a.e.seq < b.e.seq and f_implies(b.e.guard, a.e.guard)
            for a in sv for b in st), c, 'the own description is saved '
            'before it is replaced')


def own(c, hits, attr):
    """some hit happens whenever the object it changes has the attribute"""
    for h in hits:
        g = f_and(*[x for x in (c.m.skey(h.e.guard),)])
        if g is True or all(
                "'%s'" % attr in show(a) or attr in str(a)
                for a in atoms(c.m.norm(h.e.guard))) and positive(
                    c.m.norm(h.e.guard)):
            return True
    return False


def positive(f):
    if f is True or f[0] == 'atom':
        return True
    return f[0] == 'and' and all(positive(x) for x in (
        f[1] if isinstance(f[1], tuple) and f[1] and
        isinstance(f[1][0], tuple) else f[1:]))


# ------------------------------------------------------- modes of the model
def mode_saved(ck, rule, s):
    """the mode is read before it is changed"""
    node = getattr(s.func, 'node', s.func)
    ev = [(n.lineno, n.col_offset) for n in ast.walk(node)
          if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
          and n.func.attr == 'eval']
    rd = [(n.lineno, n.col_offset) for n in ast.walk(node)
          if isinstance(n, ast.Attribute) and n.attr == 'training' and
          isinstance(n.ctx, ast.Load)]
    if ev and rd:
        ck.ob(rule, max(rd) < min(ev), s, 'the mode is noted before it is '
              'changed')


def restored(ck, rule, s, model, works, what):
    ev = s.calls('%s.eval()' % model) + s.calls('%s.train(False)' % model)
    back = s.calls('%s.train(%s.training)' % (model, model)) + \
        s.calls('%s.train(mode=%s.training)' % (model, model))
    ck.always(rule, ev, s, '%s in evaluation mode' % what)
    if not back:
        tr = s.calls('%s.train()' % model) + s.calls('%s.train(True)' % model)
        ok = ck.iff(rule, tr, s, '%s.training' % model, 'the model trains '
                    'on exactly if it did')
        back = tr
    else:
        ck.always(rule, back, s, 'the model is left in the mode it had')
    mode_saved(ck, rule, s)
    last = max([b.e.seq for b in back], default=-1)
    for e in ev:
        ck.ob(rule, e.e.seq < last, e, 'the mode is restored after it was '
              'changed')
    for w in works:
        ck.ob(rule, any(e.e.seq < w.e.seq for e in ev) and w.e.seq < min(
            [b.e.seq for b in back], default=-1), w, '%s happens before the '
            'mode is restored' % what)


def estimator(ck):
    op = ('_check_flops_params_cfg', '_set_default_resource_params',
          '_check_latency_cfg', 'get_model_flops_params',
          'get_model_latency')
    s = ck.fn('ResourceEstimator.estimate', opaque=op)
    restored(ck, 'estimate-mode', s, 'model', s.calls(
        'get_model_flops_params(...)') + s.calls('get_model_latency(...)'),
        'measuring')
    s = ck.fn('ResourceEstimator.estimate_separation_modules', opaque=op)
    restored(ck, 'estimate-mode', s, 'model', s.calls(
        'get_model_flops_params(...)'), 'measuring')


def fisher_mode(ck):
    for name in ('ResourceInfoHook._evaluate',):
        s = ck.fn(name, opaque=('estimate', 'input_generator_wrapper'))
        restored(ck, 'fisher-mode', s, 'model',
                 s.calls('self.estimator.estimate(...)'), 'measuring')
    s = ck.fn('DMCP._update_arch_params', opaque=(
        'set_subnet', 'calc_current_flops', '_compute_flops_loss',
        'add_prefix'), optional=True)
    if s is not None:
        ev = s.calls('self.eval()')
        tr = s.calls('self.train()') + s.calls('self.train(True)')
        for h in ev:
            ck.ob('dmcp-mode', any(t.unconditional and t.e.seq > h.e.seq
                                   for t in tr), h, 'training goes on in '
                  'training mode')


# ---------------------------------------------------- group fisher recording
def recording(ck):
    s = ck.fn('GroupFisherMixin.end_record')
    removed_all(ck, 'record-removed', s, lambda t: s.m.match(
        'self.handlers', t) is not None or s.find(t, 'self.handlers'),
        'all recording hooks are removed')
    fin = s.final_attr('handlers')
    ck.ob('record-cleared', fin is not None and (
        s.m.match('[]', fin) is not None or s.m.match('list()', fin)
        is not None) or bool(s.calls('self.handlers.clear()')), s,
        'no handle is removed twice')
    s = ck.fn('GroupFisherMixin.start_record', opaque=('end_record',))
    regs = [h for n in HOOKS for h in s.calls('self.%s(...)' % n)]
    ck.need('record-hooks', regs, s, 'recording uses hooks')
    put = [c for c in s.calls('self.handlers._(...)')
           if c.e.func[2] in ('append', 'extend', 'insert')] + \
        s.sets('self', 'handlers')
    for r in regs:
        ck.ob('record-kept', any(
            full(s, r.e.term) in subs(s, x) for c in put
            for x in (list(c.e.args) if c.e.kind == 'call'
                      else [c.e.value])), r, 'the handle of every hook is '
              'kept')
    s = ck.fn('GroupFisherAlgorithm._train_step', opaque=(
        'start_record_info', 'end_record_info', 'update_imp',
        'reset_recorded_info', 'try_prune', 'reset_imp', 'train_step'))
    a = s.calls('self.mutator.start_record_info()')
    b = s.calls('self.mutator.end_record_info()')
    ck.always('record-step', a, s, 'every step is recorded')
    ck.always('record-step', b, s, 'recording ends with the step')
    for x in a:
        for y in b:
            ck.ob('record-step', x.e.seq < y.e.seq, y, 'recording ends '
                  'after it started')
    s = ck.fn('GroupFisherChannelMutator.end_record_info',
              opaque=('end_record_fisher_info',))
    ck.need('record-units', [h for h in s.calls(
        '_u.end_record_fisher_info()') if h.e.loops and h.unconditional and
        whole(s, h.e.loops[-1])], s, 'in all groups')
    s = ck.fn('GroupFisherChannelUnit.end_record_fisher_info',
              opaque=('end_record', 'dynamic_ops'))
    ck.need('record-ops', [h for h in s.calls('_m.end_record()')
                           if h.e.loops and h.unconditional and
                           whole(s, h.e.loops[-1])], s, 'for all operators')


def subs(s, t):
    out = set()
    stack = [full(s, t)]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            out.add(x)
            stack.extend(x)
    return out


# ------------------------------------------------------------ backward tracer
def tracing(ck):
    s = ck.fn('BackwardTracer.trace', opaque=(
        'backward_trace', '_build_mappings', '_set_all_requires_grad',
        '_register_share_module_hook', '_find_share_modules',
        '_remove_share_module_hook', '_restore_requires_grad',
        '_reset_norm_running_stats', 'loss_calculator'))
    run = s.calls('self.loss_calculator(...)')
    for on, off in (('_set_all_requires_grad', '_restore_requires_grad'),
                    ('_register_share_module_hook',
                     '_remove_share_module_hook')):
        a = s.calls('self.%s(model)' % on)
        b = s.calls('self.%s(model)' % off)
        ck.always('trace-on', a, s, 'prepared for tracing (%s)' % on)
        ck.always('trace-off', b, s, 'undone after tracing (%s)' % off)
        for h in run:
            ck.ob('trace-order', any(x.e.seq < h.e.seq for x in a) and any(
                y.e.seq > h.e.seq for y in b), h, 'around the run')
    s = ck.fn('BackwardTracer._remove_share_module_hook')
    d = [h for h in s.kind('del') if h.e.attr == '_cnt'] + \
        s.calls("delattr(_m, '_cnt')")
    ck.need('trace-counts', [h for h in d if h.e.loops and
                             whole(s, h.e.loops[-1]) and len(h.e.loops) == 1
                             and s.m.equiv(h.e.guard, "hasattr(_m, 'weight')")
                             or h.unconditional], s, 'the counts put on the '
            'modules are dropped')
    removed_all(ck, 'trace-removed', s, lambda t: s.find(
        t, 'self._shared_module_hook_handles') or s.m.match(
        'self._shared_module_hook_handles', t) is not None,
        'every hook is removed')
    s = ck.fn('BackwardTracer._register_share_module_hook')
    w = s.sets('self', '_shared_module_hook_handles')
    regs = [h for n in HOOKS for h in s.calls('_m.%s(...)' % n)]
    ck.need('trace-hooks', regs, s, 'calls of shared modules are counted')
    for c in regs:
        cnt = s.sets('_m', '_cnt', '0')
        ck.ob('trace-zero', any(f_implies(s.m.skey(c.e.guard), s.m.skey(
            x.e.guard)) and same(s, x.e.base, recv(c)) for x in cnt), c,
            'counting starts from zero')
    s = ck.fn('BackwardTracer._restore_requires_grad')
    back = [h for h in s.sets('_p', 'requires_grad') if h.e.loops and
            whole(s, h.e.loops[-1]) and h.unconditional]
    ck.need('trace-grad', back, s, 'gradient flags are restored')
    for h in back:
        k = s.find(h.e.value, 'self._param_requires_grad[id(_q)]')
        ck.ob('trace-grad', bool(k), h, 'each parameter gets its own flag')
    s2 = ck.fn('BackwardTracer._set_all_requires_grad')
    sv = [h for h in s2.items('self._param_requires_grad', 'id(_p)')
          if h.unconditional and s2.m.match('_p.requires_grad', h.e.value)
          is not None]
    ck.need('trace-grad', sv, s2, 'flags are noted')
    it = lambda z, h: z.E.loops[h.e.loops[-1]]['iter']
    for h in sv:
        ck.ob('trace-grad', any(
            show(it(s, b)) == show(it(s2, h)) for b in back), h,
            'for the same parameters')


# ----------------------------------------------------- memory efficient runs
def efficient(ck):
    s = ck.fn('register_efficient_forward_hook')
    regs = [h for n in HOOKS for h in s.calls('module.%s(...)' % n)]
    ck.need('efficient-hooks', regs, s, 'weights are moved by hooks')
    for r in regs:
        ck.ob('efficient-kept', all(r.e.term in subs(s, q.e.value)
                                    for q in s.returns()) and
              bool(s.returns()), r, 'the handle of every hook is returned')
    s = ck.fn('enable_efficient_forward', opaque=(
        'register_efficient_forward_hook', 'enable_efficient_forward'))
    src = s.calls('register_efficient_forward_hook(...)')
    rec = s.calls('enable_efficient_forward(...)')
    items = []
    for r in s.returns():
        v = r.e.value
        if v[0] == 'tuple' and len(v) > 1:
            v = v[1][0] if isinstance(v[1], tuple) and v[1] and \
                isinstance(v[1][0], tuple) else v[1]
        items.append(v)
    seen = set()
    for v in items:
        seen |= subs(s, v)
    for k, st in s.E.steps.items():
        seen |= subs(s, st)
    for e in s.ev:
        if e.kind == 'call' and e.func and e.func[0] == 'attr' and \
                e.func[2] in ('extend', 'append'):
            for x in e.args:
                seen |= subs(s, x)
        if e.kind == 'aug':
            seen |= subs(s, e.value)
    for h in src + rec:
        want = full(s, h.e.term)
        ck.ob('efficient-collected', any(
            x[:1] == ('sub',) and x[1] == want and x[2] == ('const', 0)
            for x in seen if len(x) > 2) if h in rec
            else want in seen, h, 'handles '
              'of all parts of the model are collected')
    ck.need('efficient-collected', src, s, 'parts with weights get the '
            'hooks')
    ck.need('efficient-collected', rec, s, 'other parts are searched '
            'themselves')
    s = ck.fn('memory_efficient_forward.__enter__', opaque=(
        'enable_efficient_forward', 'print_log'))
    on = s.calls('enable_efficient_forward(...)')
    kept = s.sets('self', 'handlers')
    ck.only_when('efficient-enabled', on, s, 'self.enabled', 'only when '
                 'enabled')
    for h in on:
        ck.ob('efficient-kept', any(
            s.m.match('_x[0]', w.e.value) is not None and
            same(s, s.m.match('_x[0]', w.e.value)['_x'], h.e.term) and
            f_implies(h.e.guard, w.e.guard) for w in kept) or any(
            h.e.term in subs(s, w.e.value) for w in kept), h, 'the handles '
            'are kept until the context is left')
    s = ck.fn('memory_efficient_forward.__exit__')
    removed_all(ck, 'efficient-removed', s, lambda t: s.m.match(
        'self.handlers', t) is not None or s.find(t, 'self.handlers'),
        'leaving the context removes them all')


def dtype(ck):
    i = ck.fn('torch_setting.__init__')
    o = i.final_attr('original_dtype')
    ck.ob('dtype-saved', o is not None and i.m.match(
        'torch.get_default_dtype()', o) is not None, i, 'the default type '
        'in force is noted')
    e = ck.fn('torch_setting.__enter__')
    st = e.calls('torch.set_default_dtype(_d)')
    for h in st:
        ck.ob('dtype-set', e.m.match('self.dtype', h.b['_d']) is not None,
              h, 'the requested type is used')
        ck.ob('dtype-set', h.guard_implies('self.dtype is not None'), h,
              'only if one is requested')
    x = ck.fn('torch_setting.__exit__')
    ck.always('dtype-restored', x.calls(
        'torch.set_default_dtype(self.original_dtype)'), x, 'leaving the '
        'context restores the default type')
    n = 0
    for name, m in sorted(ck.prog.modules.items()):
        for c in ast.walk(m.tree):
            if isinstance(c, ast.Call) and call_name(c) == 'torch_setting':
                n += 1
                ok = any(isinstance(w, ast.With) and any(
                    i.context_expr is c for i in w.items)
                    for w in ast.walk(m.tree))
                ck.ob('dtype-context', ok, at(m, c), 'the default type '
                      'changes only inside a with block')
    ck.ob('dtype-context', n >= 1, x, 'uses analysed: %d' % n)


class at:
    """place in a module"""

    def __init__(self, m, node):
        self.m, self.node = m, node
        self.where = '%s:%d' % (getattr(m, 'path', m), node.lineno)
        self.line = node.lineno


def call_name(c):
    f = c.func
    return f.attr if isinstance(f, ast.Attribute) else \
        f.id if isinstance(f, ast.Name) else ''


# ----------------------------------------------------------------- all hooks
def owner(tree, node):
    best = '<module>'
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and \
                n.lineno <= node.lineno <= n.end_lineno:
            best = n.name if best == '<module>' else best + '.' + n.name
    return best


def hooks_kept(ck):
    """no registration discards its handle; process-wide settings change
    only inside the context managers that restore them"""
    n = 0
    for name, m in sorted(ck.prog.modules.items()):
        lost = {id(x.value) for x in ast.walk(m.tree)
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call)}
        for c in ast.walk(m.tree):
            if not isinstance(c, ast.Call):
                continue
            k = call_name(c)
            if k in HOOKS and isinstance(c.func, ast.Attribute):
                n += 1
                w = owner(m.tree, c)
                if w.startswith('ModuleOutputsRecorder'):
                    continue
                ck.ob('handle-kept', id(c) not in lost, at(m, c),
                      'the handle of the hook registered in %s is kept' % w)
            elif k in GLOBAL:
                w = owner(m.tree, c)
                ck.ob('global-setting', w.startswith('torch_setting.'),
                      at(m, c), '%s in %s is undone by the context manager '
                      'that made it' % (k, w))
    ck.floor('hook registrations', n, 6)


def outputs_hook(ck):
    """the hook that stays records only inside the recording context"""
    s = ck.fn('ModuleOutputsRecorder.forward_hook')
    w = [h for h in s.calls('self.data_buffer._(...)')]
    ck.need('output-hook', w, s, 'outputs are recorded')
    ck.only_when('output-hook', w, s, 'self._recording', 'only while '
                 'recording is on')
    for r in s.returns():
        v = r.e.value
        ck.ob('output-hook', v is None or v == ('const', None), r,
              'the hook leaves the output of the module alone')
    x = ck.fn('ModuleOutputsRecorder.__exit__')
    v = x.final_attr('_recording')
    ck.ob('output-hook', v == ('const', False), x, 'leaving the context '
          'stops recording')
    i = ck.fn('ModuleOutputsRecorder.__init__')
    ck.ob('output-hook', i.final_attr('_recording') == ('const', False), i,
          'nothing is recorded before')


# ------------------------------------------------------------------- patches
def patched(ck):
    """methods of torch are patched only while a patcher is open"""
    n = 0
    for cls in ('MMFxTracer', 'CustomTracer'):
        s = ck.fn(cls + '.trace')
        for h in s.calls('_p.patch_method(...)') + s.calls(
                '_patch_wrapped_functions(_p)'):
            n += 1
            ck.ob('patch-scope', h.in_scope('_Patcher()'), h,
                  'patched only while tracing')
        for h in s.calls('self.create_node(...)'):
            ck.ob('patch-scope', h.in_scope('_Patcher()'), h,
                  'tracing happens while patched')
    ck.floor('patches', n, 4)


def analyse_copy(ck):
    """analysis instruments and runs a copy of the model"""
    s = ck.fn('ChannelAnalyzer._find_mutable_units', opaque=(
        'init_from_cfg', 'prepare_for_pruning', 'find_mutable',
        'config_template', 'get_data', 'print_log'))
    n = 0
    for e in s.ev:
        if e.kind == 'call' and e.func is not None:
            if s.m.match('copy.deepcopy(model)', e.term) is not None or \
                    s.m.match('deepcopy(model)', e.term) is not None:
                n += 1
                continue
            ts = list(e.args or ()) + [v for _, v in (e.kwargs or ())]
            if e.func[0] == 'attr':
                ts.append(e.func[1])
            else:
                ts.append(e.func)
            raw = [t for t in ts if bare_model(t)]
            if full(s, e.term) != e.term:
                continue        # analysed helper
            if raw:
                ck.ob('analyse-copy', False, e, 'the model itself is not '
                      'touched')
    ck.ob('analyse-copy', n >= 1, s, 'a copy is tried out')


def bare_model(t):
    """reaches the parameter without passing through a copy"""
    if t[0] == 'param':
        return t[1] == 'model'
    if t[0] in ('attr', 'sub', 'elem'):
        return bare_model(t[1])
    return False
