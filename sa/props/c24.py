"""C24 resource estimation: every operator counted, on every path, by one
formula; totals, units and options."""
import ast
from .arith import *
from .c21 import possible, condition

PKG = 'mmrazor.models.task_modules.estimators.counters'
NUM = ('get_model_parameters_number', 'activated_channels',
       'activated_tensor_channels', 'get_current_choice',
       'get_dynamic_params')


def check(ck):
    ck.sections(coverage, both, convs, others, dynamic_params, totals,
                batches, hooks, pipeline, units, submodules, choice,
                settings, latency)


# ---------------------------------------------------------------- coverage
def counters(ck):
    """registered counter classes by name"""
    out = {}
    for name, m in ck.prog.modules.items():
        for c in m.classes.values():
            if c.name.endswith('Counter') and any(
                    'TASK_UTILS' in ast.dump(d)
                    for d in c.node.decorator_list):
                out.setdefault(c.name, c)
    return out


def coverage(ck):
    cs = counters(ck)
    ck.floor('registered counters', len(cs), 20)
    s = ck.fn('get_modules_list')
    names = set()
    for g, r in leaves(s, s.ret()):
        for x in walk(full(s, r)):
            if x[0] == 'global' and x[1].rpartition('.')[2][:1].isupper():
                names.add(x[1].rpartition('.')[2])
    ck.floor('listed operators', len(names), 20)
    for n in sorted(names):
        ck.ob('has-counter', n + 'Counter' in cs, s, 'the listed operator %s '
              'has a counter' % n)
    # widths can be chosen: such an operator needs a counter of its own,
    # otherwise it is counted like the full static one
    mix = ck.prog.subclasses(ck.cls('DynamicMixin'))
    for c in sorted(mix, key=lambda c: c.name):
        b = base_names(ck, c)
        if not (b & names) or 'dynamic_ops' not in c.module.name:
            continue
        own = [k for k in mro_names(ck, c) if k + 'Counter' in cs]
        ok = c.name + 'Counter' in cs
        ck.ob('dynamic-counter', ok, c, 'the dynamic operator %s has a '
              'counter of its own' % c.name)


def base_names(ck, c):
    out = set()
    for k in [c] + list(ck.prog.mro(c)):
        if isinstance(k, str):
            out.add(k.rpartition('.')[2])
            continue
        for b in k.node.bases:
            t = b.attr if isinstance(b, ast.Attribute) else getattr(
                b, 'id', None)
            if t:
                out.add(t)
    return out


def mro_names(ck, c):
    return [k if isinstance(k, str) else k.name for k in ck.prog.mro(c)]


# ---------------------------------------------------------------- counting
def adds(s, attr):
    """[(guard, increment, event)] of module.<attr>"""
    out = []
    for h in s.sets('module', attr):
        b = s.match(h.e.value, 'module.%s + _x' % attr)
        out.append((h, b['_x'] if b else None))
    return out


def both(ck):
    seen = set()
    for n, c in sorted(counters(ck).items()):
        f = ck.prog.lookup(c, 'add_count_hook')
        if f is None:
            ck.ob('counts', False, c, '%s counts nothing' % n)
            continue
        if f.qual in seen:
            continue
        seen.add(f.qual)
        s = ck.func_summary(f, c, opaque=NUM)
        for a in ('__flops__', '__params__'):
            hs = adds(s, a)
            ck.need('both-counted', hs, s, '%s adds to %s' % (n, a))
            for h, x in hs:
                ck.ob('added', x is not None, h, 'the count of an execution '
                      'is added to the former ones')
            g = f_or(*[h.e.guard for h, x in hs if not h.e.loops])
            ck.ob('every-path', f_implies(True, s.m.skey(g)) or bool(hs) and
                  all(h.e.loops for h, x in hs), s, '%s adds to %s on every '
                  'path' % (n, a))
        ck.ob('returns-nothing', not [h for h in s.returns() if s.m.norm(
            True) and h.e.value not in (None, NONE) and not s.m.match(
                'None', h.e.value) is not None], s, 'the hook leaves the '
            'output alone')


def total(s, attr, A):
    """[(guard, polynomial)] of what one execution adds"""
    out = [(True, {}, True)]
    for h, x in adds(s, attr):
        if h.e.loops or x is None:
            return None
        new = []
        for g, p, o in out:
            for gg, v in cases(s, x, h.e.guard):
                new.append((f_and(g, gg), padd(p, A.of(v)), o))
            rest = f_not(h.e.guard)
            if rest is not False and possible(s, f_and(g, rest)):
                new.append((f_and(g, rest), p, o))
        out = new
    return [(g, p) for g, p, o in out if possible(s, g)]


BIAS = {True: {'module.bias is None': True, 'module.bias': False},
        False: {'module.bias is None': False, 'module.bias': True}}
PROD = 'OR(int(prod(list(_q))), prod(list(_q)), prod(_q), int(prod(_q)))'


def prod_of(x):
    return 'OR(int(prod(list({0}))), prod(list({0})), prod({0}), ' \
        'int(prod({0})))'.format(x)


def conv_names(ins, outs, kernel):
    return {'B': 'OR(input[0].shape[0], output.shape[0], len(input[0]), '
                 'input[0].size(0), output.size(0))',
            'P': prod_of('output.shape[2:]'), 'K': kernel,
            'i': ins, 'o': outs, 'g': 'module.groups'}


def formula(ck, s, attr, names, wants, msg):
    """wants: [(assumptions, expression)]"""
    A = Arith(s, names)
    t = total(s, attr, A)
    if t is None:
        ck.ob('formula', False, s, '%s: the count is not a sum of products'
              % msg)
        return
    for d, w in wants:
        n = 0
        for g, p in t:
            gg = case(s, g, d)
            if not possible(s, gg):
                continue
            n += 1
            ok = unint(canon(p)) == unint(canon(expr(w)))
            ck.ob('formula', ok, s, '%s is %s [%s]' % (msg, w, canon(p)))
        ck.ob('formula', n > 0, s, '%s: no count when %s' % (msg, d))


def unint(c):
    """counts are whole numbers: int() around the whole count"""
    import re
    m = re.match(r'^1\*int\((.*)\)$', c)
    return unint(m.group(1)) if m and balanced(m.group(1)) else c


def balanced(t):
    d = 0
    for c in t:
        d += (c == '(') - (c == ')')
        if d < 0:
            return False
    return d == 0


def convs(ck):
    s = ck.fn('ConvCounter.add_count_hook', opaque=NUM)
    nm = conv_names('module.in_channels', 'module.out_channels',
                    prod_of('module.kernel_size'))
    for a, w, b in (('__flops__', 'B*P*K*i*o/g', 'B*P*K*i*o/g + B*P*o'),
                    ('__params__', 'K*i*o/g', 'K*i*o/g + o')):
        formula(ck, s, a, nm, [(BIAS[True], w), (BIAS[False], b)],
                '%s of a convolution' % a)
    # the dynamic one on its active slice
    MI = 'module.mutable_attrs["in_channels"]'
    MO = 'module.mutable_attrs["out_channels"]'
    MK = 'module.mutable_attrs["kernel_size"]'
    s = ck.fn('DynamicConv2dCounter.add_count_hook', opaque=NUM)
    tens = 'list(%s.mutable_channels.values())[0]' % MO
    SOFT = {tens[:-3]: True,
            'hasattr(%s, "activated_tensor_channels")' % tens: True}
    acts = ((SOFT, tens + '.activated_tensor_channels'),
            ({'hasattr(%s, "activated_tensor_channels")' % tens: False},
             MO + '.activated_channels'),
            ({tens[:-3]: False}, MO + '.activated_channels'))
    for mi in (True, False):
        for mo in (True, False):
            for mk in (True, False):
                for dw in (True, False):
                    for sd, act in acts if mo else (({}, None),):
                        active(ck, s, mi, mo, mk, dw, MI, MO, MK, act, sd)


def active(ck, s, mi, mo, mk, dw, MI, MO, MK, act, soft):
    ins = MI + '.activated_channels' if mi else 'module.in_channels'
    outs = act if mo else 'module.out_channels'
    k = prod_of('module.kernel_size')
    if mk:
        c = 'OR(module.get_current_choice(%s), %s.current_choice)' % (MK, MK)
        k = 'OR({0}, {0})'.format(prod_of(
            '[%s] * len(list(module.kernel_size))' % c))
        k = 'OR(%s, %s, %s ** 2)' % (k, prod_of(
            '[%s] * len(module.kernel_size)' % c), c)
    nm = conv_names(ins, outs, k)
    if dw:
        # a depthwise convolution with active channels has as many groups
        # as active inputs
        nm['g2'] = nm['g']
    d = {'"in_channels" in module.mutable_attrs': mi,
         '"out_channels" in module.mutable_attrs': mo,
         '"kernel_size" in module.mutable_attrs': mk,
         'module.groups == module.in_channels': dw,
         'module.in_channels == module.out_channels': dw,
         'module.groups == module.out_channels': dw}
    what = 'of a dynamic %sconvolution (%s)' % (
        'depthwise ' if dw else '', ', '.join(
            n for n, b in (('in_channels', mi), ('out_channels', mo),
                           ('kernel_size', mk)) if b) or 'nothing mutable')
    x = 'K*o' if dw else 'K*i*o/g'
    for a, w, b in (('__flops__', 'B*P*' + x, 'B*P*%s + B*P*o' % x),
                    ('__params__', x, x + ' + o')):
        formula(ck, s, a, nm, [(dict(d, **BIAS[True], **soft), w),
                               (dict(d, **BIAS[False], **soft), b)],
                '%s %s' % (a, what))


def others(ck):
    N = 'get_model_parameters_number(module)'
    IN = prod_of('input[0].shape')
    IN = 'OR(%s, input[0].numel())' % IN
    OUT = 'OR(%s, output.numel())' % prod_of('output.shape')
    params = {'n': N}
    for cls in ('ReLUCounter', 'PoolCounter', 'LinearCounter', 'BNCounter',
                'UpsampleCounter', 'ConvTranspose2dCounter'):
        s = ck.fn(cls + '.add_count_hook', opaque=NUM)
        formula(ck, s, '__params__', params, [({}, 'n')], 'parameters (%s)'
                % cls)
    one = (('ReLUCounter', {'x': OUT}, [({}, 'x')]),
           ('PoolCounter', {'x': IN}, [({}, 'x')]),
           ('LinearCounter', {'x': IN, 'o': 'OR(output.shape[-1], '
                              'module.out_features)'}, [({}, 'x*o')]),
           ('BNCounter', {'x': IN}, [({'module.affine': True,
                                       'hasattr(module, "affine")': True},
                                      '2*x'),
                                     ({'module.affine': False}, 'x')]))
    for cls, nm, wants in one:
        s = ck.fn(cls + '.add_count_hook', opaque=NUM)
        formula(ck, s, '__flops__', nm, wants, 'operations (%s)' % cls)
    # all output elements of the batch
    s = ck.fn('UpsampleCounter.add_count_hook', opaque=NUM)
    for h, x in adds(s, '__flops__'):
        t = full(s, x)
        b = s.match(t, 'int(_v)')
        t = full(s, b['_v']) if b else t
        ok = s.match(t, OUT) is not None
        if t[0] == 'acc' and t[1] == 'Mult':
            ok = s.match(t[3], 'ELEM(output.shape[1:])') is not None and \
                s.match(t[2], 'output.shape[0]') is not None or \
                s.match(t[3], 'ELEM(output.shape)') is not None and \
                t[2] == ('const', 1)
            ok = ok and s.E.loops[t[4]]['breaks'] in (0, [], ()) if not \
                s.E.loops[t[4]]['breaks'] else False
        ck.ob('formula', ok, h, 'upsampling counts every output element of '
              'the batch [%s]' % show(t))
    s = ck.fn('ConvTranspose2dCounter.add_count_hook', opaque=NUM)
    nm = {'B': 'OR(input[0].shape[0], output.shape[0])',
          'h': 'OR(input[0].shape[2], input[0].shape[2:][0], '
               'input[0].shape[-2])',
          'w': 'OR(input[0].shape[3], input[0].shape[2:][1], '
               'input[0].shape[-1])',
          'y': 'OR(output.shape[2], output.shape[2:][0], output.shape[-2])',
          'x': 'OR(output.shape[3], output.shape[2:][1], output.shape[-1])',
          'k': 'module.kernel_size[0]', 'l': 'module.kernel_size[1]',
          'i': 'module.in_channels', 'f': 'OR(module.out_channels // '
          'module.groups, module.out_channels / module.groups)',
          'o': 'module.out_channels'}
    formula(ck, s, '__flops__', nm, [
        (BIAS[True], 'B*h*w*k*l*i*f'),
        (BIAS[False], 'B*h*w*k*l*i*f + B*y*x*o')],
        'operations of a transposed convolution')


def dynamic_params(ck):
    s = ck.fn('DynamicLinearCounter.add_count_hook', opaque=NUM)
    nm = {'i': 'OR(input[0].shape[-1], module.mutable_attrs["in_features"]'
               '.activated_channels)',
          'o': 'OR(output.shape[-1], module.mutable_attrs["out_features"]'
               '.activated_channels)',
          'x': 'OR(%s, input[0].numel())' % prod_of('input[0].shape'),
          'w': 'module.get_dynamic_params()[0].numel()',
          'b': 'module.get_dynamic_params()[1].numel()'}
    A = Arith(s, nm)
    for d, alts in ((BIAS[True], ('i*o', 'w')),
                    (BIAS[False], ('i*o + o', 'w + b'))):
        for g, p in total(s, '__params__', A) or [(True, {})]:
            if possible(s, case(s, g, d)):
                ck.ob('active-slice', unint(canon(p)) in [
                    canon(expr(a)) for a in alts], s, 'a dynamic linear '
                    'layer counts the parameters in use [%s]' % canon(p))
    formula(ck, s, '__flops__', nm, [({}, 'x*o')], 'operations of a dynamic '
            'linear layer')
    s = ck.fn('DynamicLayerNormCounter.add_count_hook', opaque=NUM)
    formula(ck, s, '__flops__', nm, [({}, 'x')], 'operations of a dynamic '
            'layer norm')
    E = 'ELEM(module.get_dynamic_params())'
    hs = adds(s, '__params__')
    ck.ob('active-slice', bool(hs) and all(
        x is not None and (s.match(x, E + '.numel()') is not None and
                           s.m.equiv(h.e.guard, '%s is not None' % E) and
                           all(whole(s, l) for l in h.e.loops) or
                           s.derives(x, 'module.get_dynamic_params()'))
        for h, x in hs), s, 'a dynamic layer norm counts the parameters in '
        'use')
    s = ck.fn('DMCPBatchNorm2dCounter.add_count_hook', opaque=NUM)
    c = 'module.mutable_attrs["num_features"].activated_channels'
    nm = {'n': c, 'b': 'input[0].shape[0]', 'h': 'input[0].shape[2]',
          'w': 'input[0].shape[3]', 'c': 'OR(input[0].shape[1], list(module'
          '.mutable_attrs["num_features"].mutable_channels.values())[0]'
          '.activated_tensor_channels)'}
    formula(ck, s, '__params__', nm, [({'module.affine': True}, '2*n')],
            'parameters of a batch norm under differentiable pruning')
    formula(ck, s, '__flops__', nm, [({'module.affine': True}, '2*b*h*w*c'),
                                     ({'module.affine': False}, 'b*h*w*c')],
            'operations of a batch norm under differentiable pruning')
    s = ck.fn('get_model_parameters_number')
    its = [i for g, r in leaves(s, s.ret()) for i in listed(s, r)]
    ok = any(i.over('model.parameters()') and s.match(
        i.value, 'OR(ELEM(_).numel(), ELEM(_).nelement())') is not None
        for i in its) or s.find(s.ret(), 'ELEM(model.parameters()).numel()')
    ck.ob('all-parameters', bool(ok), s, 'the size of every parameter of an '
          'operator is counted')


# ------------------------------------------------------------------ totals
SUP = 'is_supported_instance(_m1)'


def totals(ck):
    s = ck.fn('compute_average_flops_params_cost',
              opaque=('is_supported_instance',))
    r = full(s, s.ret())
    if r[0] not in ('tuple', 'alloc') or len(r[1] if r[0] == 'tuple'
                                             else r[2]) != 2:
        ck.ob('totals', False, s, 'operations and parameters are returned')
        return
    f, p = r[1] if r[0] == 'tuple' else r[2]
    b = s.match(f, '_x / self.__batch_counter__')
    ck.ob('per-sample', b is not None, s, 'the operations are those of one '
          'sample [%s]' % show(f))
    for a, t in (('__flops__', b and b['_x']), ('__params__', p)):
        ck.ob('totals', t and summed(s, t, a, 'self.modules()'), s, 'the '
              'total sums %s of every counted module [%s]' % (
                  a, show(t) if t else ''))


def summed(s, t, attr, src):
    """t = sum of attr over the supported modules of src, from zero"""
    want = 'ELEM(%s).%s' % (src, attr)
    f = full(s, t)
    b = s.match(f, 'sum(_c)')
    if b is not None:
        its = listed(s, b['_c'])
        return len(its) == 1 and s.match(its[0].value, want) is not None \
            and all(whole(s, l) for l in its[0].loops) and \
            s.m.equiv(its[0].guard, 'is_supported_instance(ELEM(%s))' % src)
    for x in s.m.forms(t):
        if x[0] == 'loopvar':
            st = s.E.steps.get((x[2], x[1]))
            if st is None or x[3] not in (('const', 0), ('const', 0.0)) or \
                    not whole(s, x[2]):
                continue
            ok = False
            for g, v in leaves(s, st):
                if v[0] == 'loopvar' and v[1:3] == x[1:3]:
                    continue
                bb = s.match(v, '_l + %s' % want)
                ok = bb is not None and bb['_l'][0] == 'loopvar' and \
                    s.m.equiv(g, 'is_supported_instance(ELEM(%s))' % src)
                if not ok:
                    return False
            return ok
    return False


def batches(ck):
    s = ck.fn('batch_counter_hook')
    hs = s.sets('module', '__batch_counter__')
    ck.need('batch', hs, s, 'samples are counted')
    g = f_or(*[h.e.guard for h in hs])
    ck.ob('batch', f_implies(True, s.m.skey(g)), s, 'in every execution')
    for h in hs:
        b = s.match(h.e.value, 'module.__batch_counter__ + _x')
        ck.ob('batch', b is not None, h, 'samples of all executions add up')
        for gg, v in leaves(s, b['_x']) if b else ():
            for has in (True, False):
                if possible(s, case(s, f_and(gg, h.e.guard), {
                        'input': has, '0 < len(input)': has})):
                    ok = s.match(v, 'OR(len(input[0]), input[0].shape[0], '
                                 'input[0].size(0))') is not None if has \
                        else v == ('const', 1)
                    ck.ob('batch', ok, h, 'a batch has as many samples as '
                          'the input' if has else 'without positional '
                          'inputs it is one sample')
    s = ck.fn('add_batch_counter_variables_or_reset')
    ck.always('batch-reset', s.sets('module', '__batch_counter__', '0'), s,
              'counting starts from zero')
    s = ck.fn('add_flops_params_counter_variable_or_reset',
              opaque=('is_supported_instance',))
    for a in ('__flops__', '__params__'):
        hs = s.sets('module', a, '0')
        ck.need('reset', hs, s, '%s starts from zero' % a)
        ck.ob('reset', s.m.implied_by(f_or(*[h.e.guard for h in hs]),
              'is_supported_instance(module)'), s, '%s of every counted '
              'module starts from zero' % a)


def hooks(ck):
    s = ck.fn('start_flops_params_count', opaque=(
        'is_supported_instance', 'get_counter_type',
        'add_batch_counter_hook_function'))
    ck.always('counts-samples', s.calls(
        'add_batch_counter_hook_function(self)'), s, 'samples are counted')
    ap = s.calls('self.apply(_f)')
    fs = []
    for h in ap:
        f = full(s, h.b['_f'])
        if f[0] == 'partial':
            f = f[1]
        c = s.closure(f)
        if c is not None:
            fs.append((c, c.func and 'module'))
    ck.ob('every-module', bool(fs) and all(h.unconditional() for h in ap) or
          bool(s.calls('ELEM(self.modules()).register_forward_hook(_)')), s,
          'all modules of the network are considered')
    for c, _ in fs:
        reg = c.calls('module.register_forward_hook(_h)')
        ck.need('counted', reg, c, 'a counter is attached')
        G = f_or(*[h.e.guard for h in reg])
        d = {'is_supported_instance(module)': True,
             'hasattr(module, "__flops_params_handle__")': False,
             'disabled_counters is None': True}
        ck.ob('counted', case(c, G, d) is True, c, 'every supported module '
              'without a counter gets one [%s]' % fshow(G))
        ck.ob('counted-once', not possible(c, case(c, G, {
            'hasattr(module, "__flops_params_handle__")': True})), c,
            'and never two')
        ck.ob('only-supported', not possible(c, case(c, G, {
            'is_supported_instance(module)': False})), c, 'other modules '
            'are left alone')
        dis = [a for a in f_atoms(G) if a[0] == 'cmp' and a[1] == 'in' and
               c.derives(a[3], 'disabled_counters')]
        ck.ob('disabled', len(dis) == 1 and not possible(c, f_map(
            case(c, G, {'disabled_counters is None': False}), lambda a:
            True if a in dis else ('atom', a))), c, 'disabled counters are '
            'not attached')
        ck.ob('disabled', bool(dis) and case(c, f_map(c.m.norm(G), lambda a:
              False if a in dis else ('atom', a)), d) is True, c, 'and all '
              'others are')
        for h in reg:
            ck.ob('own-counter', c.derives(h.b['_h'],
                  'get_counter_type(module)') and into(
                      c, h.b['_h'], '_.add_count_hook') or any(
                  x[0] == 'attr' and x[2] == 'add_count_hook'
                  for x in walk(full(c, h.b['_h']))), h, 'it is the '
                  'counter of the type of the module')
            kept = [k for k in c.sets('module', '__flops_params_handle__')
                    if same(c, k.e.value, h.e.term)]
            ck.ob('handle-kept', bool(kept) and all(f_implies(
                c.m.skey(h.e.guard), c.m.skey(k.e.guard)) for k in kept), h,
                'its handle is kept')


FM = 'OR(model, add_flops_params_counting_methods(model))'


def pipeline(ck):
    s = ck.fn('get_model_flops_params', opaque=(
        'add_flops_params_counting_methods', 'print_model_with_flops_params',
        'params_units_convert', 'accumulate_sub_module_flops_params'))
    add = s.calls('add_flops_params_counting_methods(model)')
    start = s.calls('%s.start_flops_params_count(disabled_counters)' % FM)
    fw = s.calls('%s(...)' % FM)
    fw = [h for h in fw if h.e.func[0] != 'global']
    comp = s.calls('%s.compute_average_flops_params_cost()' % FM)
    stop = s.calls('%s.stop_flops_params_count()' % FM)
    ev = s.calls('%s.eval()' % FM)
    ck.always('reset-first', add, s, 'counting starts from zero')
    ck.always('starts', start, s, 'counters are attached')
    ck.always('totals-taken', comp, s, 'the totals are taken')
    ck.always('stops', stop, s, 'counters are removed')
    ck.order('order', add, start, s, 'reset before counting')
    for h in fw:
        for o in start:
            ck.ob('order', o.e.seq < h.e.seq, h, 'the network runs with '
                  'counters')
        for o in comp:
            ck.ob('order', h.e.seq < o.e.seq, o, 'totals are taken after the '
                  'run')
        ck.ob('order', any(o.e.seq < h.e.seq for o in ev), h, 'the network '
              'runs in evaluation mode')
    for b in (True, False):
        n = [h for h in fw if possible(s, case(s, h.e.guard, {
            'input_constructor': b}))]
        ck.ob('one-run', len(n) == 1 and not n[0].e.loops, s, 'the network '
              'runs once')
        for h in n:
            if b:
                ck.ob('given-input', any('input_constructor(input_shape)' in
                      show(full(s, x)) for x in h.e.args + tuple(
                          v for k, v in h.e.kwargs)), h, 'on the given '
                      'input')
            else:
                ck.ob('given-input', any(s.derives(x, 'input_shape')
                      for x in h.e.args), h, 'on an input of the given '
                      'shape')
    for o in comp + s.calls('accumulate_sub_module_flops_params(...)'):
        for p in stop:
            ck.ob('order', o.e.seq < p.e.seq, o, 'counts are read before the '
                  'counters are removed')
    # what is returned
    T = {'flops': '%s.compute_average_flops_params_cost()[0]' % FM,
         'params': '%s.compute_average_flops_params_cost()[1]' % FM}
    rets = [(g, v) for g, v in leaves(s, s.ret())]
    for i, k in enumerate(('flops', 'params')):
        seen = 0
        for g, v in rets:
            gg = case(s, g, {'seperate_return': False, 'spec_modules': False,
                             'as_strings': False,
                             'len(spec_modules)': False})
            if not possible(s, gg):
                continue
            its = v[1] if v[0] == 'tuple' else ()
            if len(its) != 2:
                ck.ob('returned', False, s, 'two numbers are returned')
                continue
            for g2, x in leaves(s, its[i]):
                for u in (True, False):
                    g3 = case(s, f_and(gg, g2), {
                        'units is None': u, 'units': not u,
                        'len(spec_modules)': False, 'spec_modules': False})
                    if not possible(s, g3):
                        continue
                    seen += 1
                    w = T[k] if u else 'params_units_convert(%s, units[' \
                        '"%s"])' % (T[k], k)
                    ck.ob('returned', s.match(x, w) is not None, s,
                          'the total %s %s returned [%s]' % (
                              k, 'is' if u else 'in the given unit is',
                              show(x)))
        ck.ob('returned', seen > 0, s, 'the total %s is returned' % k)
        texts = [v for g, v in rets if possible(s, case(s, g, {
            'as_strings': True, 'seperate_return': False}))]
        ck.ob('text', bool(texts) and any(
            v[0] == 'tuple' and len(v[1]) == 2 and s.find(
                v[1][i], 'units["%s"]' % k) and any(
                y == x for x in walk(full(s, v[1][i]))
                for y in ('const', ' ') if 0) or v[0] == 'tuple' and
            s.derives(v[1][i], 'units["%s"]' % k) for v in texts), s,
            'as text, the %s carry their own unit' % k)
    # spec modules
    for i, k in enumerate(('flops', 'params')):
        seen = 0
        for g, v in rets:
            gg = case(s, g, {'as_strings': False, 'seperate_return': False,
                             'units is None': True, 'units': False,
                             'len(spec_modules)': True,
                             'spec_modules': True})
            if not possible(s, gg) or v[0] != 'tuple' or len(v[1]) != 2:
                continue
            for g2, x in leaves(s, v[1][i]):
                if possible(s, case(s, f_and(gg, g2), {
                        'len(spec_modules)': True, 'spec_modules': True})):
                    seen += 1
                    ck.ob('separate-total', requested_sum(s, x, k), s, 'the total '
                          '%s of the requested modules is their sum [%s]' % (
                              k, show(x)))
        ck.ob('separate-total', seen > 0, s, 'requested modules have a total')
    for k in ('flops', 'params'):
        hs = s.items('_', '"%s"' % k)
        hs = [h for h in hs if s.match(h.e.value, 'ELEM(_)[1].__%s__' % k)
              is not None]
        ck.need('separate', hs, s, 'each requested module gets its %s' % k)
        for h in hs:
            ck.ob('separate', s.match(h.e.base, '_[ELEM(_)[0]]') is not None
                  and s.m.implies(h.e.guard, 'ELEM(%s.named_modules())[0] '
                                  'in spec_modules' % FM), h, 'under its own '
                  'name')
        txt = [h for h in s.items('_', '"%s"' % k)
               if h.e.seq not in [x.e.seq for x in hs]]
        for h in txt:
            ck.ob('separate', s.derives(h.e.value, 'ELEM(_)[1].__%s__' % k)
                  and bool(s.find(full(s, h.e.value), 'units["%s"]' % k)), h,
                  'also as text')
    acc = s.calls('accumulate_sub_module_flops_params(...)')
    for h in acc:
        u = h.arg(1, 'units')
        ck.ob('separate', u == ('param', 'units'), h, 'in the given units')


def requested_sum(s, x, k):
    """0 plus the counts of all modules with a requested name"""
    e = 'ELEM(%s.named_modules())' % FM
    ok = "%s[0] in spec_modules" % e
    zero = lambda v: v[0] == 'const' and v[1] == 0
    if x[0] == 'loopvar' and zero(x[3]) and whole(s, x[2]) and over(
            s, x[2], FM + '.named_modules()'):
        lv = x[:3]
        for g, v in leaves(s, s.E.steps[(x[2], x[1])]):
            b = s.match(v, '_a + %s[1].__%s__' % (e, k))
            if v[:3] == lv:
                if possible(s, case(s, g, {ok: True})):
                    return False
            elif not (b and b['_a'][:3] == lv and not possible(
                    s, case(s, g, {ok: False}))):
                return False
        return True
    b = s.match(x, 'sum(_c)')
    if b:
        its = listed(s, b['_c'])
        return len(its) == 1 and s.match(its[0].value, '%s[1].__%s__' % (
            e, k)) is not None and s.m.equiv(its[0].guard, ok)
    return False


def units(ck):
    s = ck.fn('params_units_convert')
    for u, e in (('G', 9), ('M', 6), ('K', 3)):
        n = 0
        for g, v in leaves(s, s.ret()):
            if not possible(s, given(s, g, 'units', u)):
                continue
            n += 1
            b = s.match(v, 'round(_x, precision)')
            A = Arith(s, {'n': 'num_params', 'p': '10.0 ** %d' % e,
                          'q': '10 ** %d' % e})
            x = canon(A.of(b['_x'])) if b else ''
            ck.ob('unit', x in (canon(expr('n/p')), canon(expr('n/q')),
                                canon(expr('n/%d' % 10 ** e))), s,
                  "a number in '%s' is the number divided by 10^%d [%s]" % (
                      u, e, x))
        ck.ob('unit', n == 1, s, "unit '%s' is supported" % u)
    R = refused(s)
    ck.ob('unit', not possible(s, f_or(*[given(s, R, 'units', u)
                                         for u in 'GMK'])) and possible(
        s, R), s, 'other units are refused')


def submodules(ck):
    s = ck.fn('accumulate_sub_module_flops_params', opaque=(
        'params_units_convert', 'is_supported_instance', 'accumulate_flops',
        'accumulate_params'))
    sets = [h for a in ('__flops__', '__params__')
            for h in s.sets('_', a)]
    ck.need('accumulated', sets, s, 'every module gets the resources of its '
            'parts')
    clos = {}
    for k in s.closures():
        clos[k[2]] = s.closure(k)
    for a in ('flops', 'params'):
        c = clos.get('accumulate_' + a)
        if c is None:
            continue
        P = 'module'
        for g, v in leaves(c, c.ret()):
            for sup in (True, False):
                if not possible(c, case(c, g, {
                        'is_supported_instance(module)': sup})):
                    continue
                if sup:
                    w = 'module.__params__' if a == 'params' else \
                        'module.__flops__ / model.__batch_counter__'
                    ck.ob('leaf', c.match(v, w) is not None, c, 'a counted '
                          'module has its own %s%s [%s]' % (
                              a, ' per sample' if a == 'flops' else '',
                              show(v)))
                else:
                    t = full(c, v)
                    ok = t[0] == 'acc' and t[1] == 'Add' and t[2] == (
                        'const', 0) and over(c, t[4], 'module.children()') \
                        and whole(c, t[4]) and c.match(
                            t[3], 'accumulate_%s(ELEM(_))' % a) is not None
                    b = c.match(t, 'sum(_c)')
                    if b is not None:
                        its = listed(c, b['_c'])
                        ok = len(its) == 1 and its[0].guard is True and \
                            its[0].over('module.children()')
                    ck.ob('children', ok or c.derives(
                        v, 'module.children()') and 'accumulate_' + a in
                        show(t), c, 'other modules have the sum of their '
                        'children')
    # all sums are taken before any count is overwritten
    for h in sets:
        a = h.e.attr.strip('_')
        for x in s.calls('accumulate_%s(_)' % a):
            ck.ob('read-before-write', not (set(h.e.loops) & set(x.e.loops)),
                  h, 'the counts of all modules are read before the first '
                  'is overwritten, so that shared modules count the same '
                  'everywhere')
    for h in sets:
        a = h.e.attr.strip('_')
        conv = s.match(h.e.value, 'params_units_convert(_v, units["%s"])' % a)
        if 'params_units_convert' in show(h.e.value):
            ck.ob('accumulated', conv is not None, h, 'in its own unit')
            ck.ob('accumulated', s.m.equiv(h.e.guard, 'units is not None') or
                  s.m.equiv(h.e.guard, 'units'), h, 'if a unit is given')
        ck.ob('accumulated', all(whole(s, l) for l in h.e.loops) and bool(
            h.e.loops), h, 'every module')
    for a in ('flops', 'params'):
        hs = [h for h in sets if h.e.attr == '__%s__' % a]
        ck.ob('accumulated', f_equiv(s.m.skey(s.m.norm(jointly(hs))), True),
              s, 'with or without a unit')
        for x in s.calls('accumulate_%s(_m1)' % a):
            ck.ob('accumulated', any(over(s, l, 'model.modules()')
                  for l in x.e.loops), x, 'of the network')


def choice(ck):
    s = ck.fn('get_counter_type')
    CLS = 'OR(module.__class__, type(module))'
    OWN = "STR(%s.__name__, 'Counter')" % CLS
    REG = 'TASK_UTILS._module_dict'
    n = 0
    for g, v in leaves(s, s.ret()):
        has = case(s, g, {'%s in %s.keys()' % (OWN, REG): True,
                          '%s in %s' % (OWN, REG): True})
        if possible(s, has):
            n += 1
            ck.ob('own-type', s.match(v, OWN) is not None, s, 'an operator '
                  'is counted by the counter of its own type if there is '
                  'one [%s]' % show(v))
        elif v[0] == 'loopvar':
            bases(ck, s, v, CLS, g)
        else:
            ck.ob('base-type', s.derives(v, '%s.mro()' % CLS) or s.match(
                v, OWN) is not None, s, 'otherwise by that of a base class')
    ck.ob('own-type', n > 0, s, 'an operator is counted by its own counter')
    s = ck.fn('is_supported_instance', opaque=('get_counter_type',))
    F = condition(s)
    ck.ob('supported', any(s.m.equiv(F, 'get_counter_type(module) in %s' % x)
                           for x in (REG + '.keys()', REG)), s,
          'a module is supported exactly when its counter exists [%s]' %
          fshow(F))


def bases(ck, s, v, CLS, outer):
    """the nearest base class decides"""
    lid = v[2]
    L = s.E.loops[lid]
    MRO = '%s.mro()' % CLS
    ck.ob('base-type', over(s, lid, MRO, '%s.__mro__' % CLS), s,
          'otherwise the bases are searched, the nearest first')
    e = 'ELEM(OR(%s, %s.__mro__))' % (MRO, CLS)
    for g, x in leaves(s, s.E.steps[(lid, v[1])]):
        if x[:3] == v[:3]:
            continue
        ck.ob('base-type', s.match(x, "STR(%s.__name__, 'Counter')" % e)
              is not None, s, 'by the counter of the base class')
        ck.ob('base-type', s.m.equiv(g, '%s in get_modules_list()' % e) or
              s.m.implies(g, "STR(%s.__name__, 'Counter') in %s" % (
                  e, 'TASK_UTILS._module_dict')), s, 'which is listed')
        ck.ob('nearest', any(f_implies(s.m.skey(s.m.norm(
            f_and(outer, g))), s.m.skey(s.m.norm(b))) for b in
                             L['breaks']), s, 'the nearest such base decides')


# ---------------------------------------------------------------- settings
def settings(ck):
    s = ck.fn('ResourceEstimator._set_default_resource_params')
    keys = ('input_shape', 'units', 'as_strings')
    hs = s.items('cfg')
    ck.need('defaults', hs, s, 'missing options come from the estimator')
    txt = ' '.join(show(full(s, h.e.base)) + show(full(s, h.e.attr)) +
                   ' '.join(show(s.E.loops[l]['iter'] or NONE)
                            for l in h.e.loops) for h in hs)
    for k in keys:
        ck.ob('defaults', "'%s'" % k in txt, s, 'the estimator provides %s'
              % k)
    for h in hs:
        ck.ob('given-wins', s.m.implies(h.e.guard, '_k not in cfg') or
              not possible(s, f_map(s.m.norm(h.e.guard), lambda a: True
                           if a[0] == 'cmp' and a[1] == 'in' else (
                               'atom', a))), h, 'an option given for the '
              'estimate is kept')
        ck.ob('own-value', any(
            v[0] == 'attr' and v[1] == SELF and matches_key(h.e.attr, v)
            for v in s.m.deep(h.e.value)), h, 'by the value of the same name')
    ck.ob('defaults', all(v == ('param', 'cfg') for g, v in leaves(
        s, s.ret())), s, 'in the returned options')
    O = ('_check_flops_params_cfg', '_check_latency_cfg',
         'get_model_flops_params', 'get_model_latency',
         '_set_default_resource_params')
    for name, extra in (('estimate', ()), ('estimate_separation_modules',
                                           ())):
        s = ck.fn('ResourceEstimator.' + name, opaque=O)
        hs = s.calls('get_model_flops_params(model, ...)')
        ck.always('measured', hs, s, 'the given model is measured')
        for h in hs:
            opts = [v for k, v in h.e.kwargs if k is None or k == '**']
            for given_ in (True, False):
                for o in opts:
                    for g, v in leaves(s, o):
                        if not possible(s, case(s, g, {
                                'flops_params_cfg': given_})):
                            continue
                        merged(ck, s, h, v, 'flops_params_cfg', given_)
            ck.ob('options', bool(opts), h, 'with the options')
            ev = s.calls('model.eval()')
            ck.ob('eval', any(x.e.seq < h.e.seq and x.unconditional()
                              for x in ev), h, 'in evaluation mode')
        if name == 'estimate':
            lat = s.calls('get_model_latency(model, ...)')
            ck.need('latency', lat, s, 'latency is measured')
            for h in lat:
                ck.ob('latency', s.m.equiv(h.e.guard, 'latency_cfg'), h,
                      'if asked for')
                for o in [v for k, v in h.e.kwargs if k is None or k == '**']:
                    for g, v in leaves(s, o):
                        if possible(s, case(s, f_and(g, h.e.guard), {
                                'latency_cfg': True})):
                            merged(ck, s, h, v, 'latency_cfg', True)
                pops = s.calls('_.pop("units", ...)')
                ck.ob('latency', accepts(ck, 'units') or any(
                    x.e.seq < h.e.seq for x in pops), h, 'with the options '
                    'it accepts')
            res = final_dict(s)
            for k, w in (('flops', 'get_model_flops_params(model, ...)[0]'),
                         ('params', 'get_model_flops_params(model, ...)[1]')):
                ck.ob('reported', bool(res.get(k)) and all(
                    s.match(v, w) is not None for v in res[k]), s,
                    'the result names the %s' % k)
            ck.ob('reported', any(s.match(x, 'get_model_latency(model, ...)')
                  is not None for v in res.get('latency', ())
                  for g, x in leaves(s, v)), s, 'and the latency')
        else:
            ck.ob('separate', any(h.e.value == ('const', True)
                  for h in s.items('_', '"seperate_return"')) or any(
                  k == 'seperate_return' for h in hs
                  for k, v in h.e.kwargs), s, 'per module')
            ck.ob('separate', all(same(s, v, hs[0].e.term) for g, v in
                  leaves(s, s.ret())) if hs else False, s, 'and returned')
            own = [h for h in s.items('_', '"seperate_return"')
                   if any(s.match(v, 'self.flops_params_cfg') is not None
                          for g, v in leaves(s, h.e.base))]
            ck.ob('own-options', not own, s, 'the options of the estimator '
                  'stay as they are')


def strip_of(t):
    return t


def matches_key(k, v):
    """self.<key> stored under the same key"""
    v = v[2]
    return (k[1] if k[0] == 'const' else k) == v or k == v


def accepts(ck, name):
    f = ck.fn('get_model_latency').func
    a = f.node.args
    return name in [x.arg for x in a.args + a.kwonlyargs] or \
        a.kwarg is not None


def merged(ck, s, h, v, param, is_given):
    """options: those of the estimator, overridden by the given ones, with
    the defaults of the estimator"""
    b = s.match(v, 'self._set_default_resource_params(_d)')
    ck.ob('estimator-settings', b is not None, h, 'the settings of the '
          'estimator apply where the estimate gives none [%s]' % show(v))
    d = b['_d'] if b else v
    f = full(s, d)
    parts = []
    if f[0] == 'alloc' and f[1] == 'dict':
        parts = [p[1] for p in f[2]]
    own = [i for i, p in enumerate(parts)
           if s.match(p, 'self.%s' % param) is not None]
    giv = [i for i, p in enumerate(parts) if p == ('param', param)]
    upd = [x for x in s.calls('_.update(%s)' % param)]
    ck.ob('own-options', bool(parts) and bool(own) or s.match(
        f, 'OR(copy(self.%s), deepcopy(self.%s), dict(self.%s), '
        'self.%s.copy())' % ((param,) * 4)) is not None, h,
        'the options of the estimator apply, from a copy')
    if is_given:
        ck.ob('given-options', bool(giv) and (not own or max(own) < min(
            giv)) or bool(upd), h, 'given options take precedence')


def final_dict(s):
    out = {}
    for g, v, k, e in [(g, v, k, e) for g, k, v, e in stored(s, s.ret())]:
        if k is not None and k[0] == 'const':
            out.setdefault(k[1], []).append(v)
    for h in s.calls('_.update(_d)'):
        d = full(s, h.b['_d'])
        if d[0] == 'alloc' and d[1] == 'dict':
            for k, v in d[2]:
                if k and k[0] == 'const':
                    out.setdefault(k[1], []).append(v)
    return out


# ----------------------------------------------------------------- latency
def latency(ck):
    s = ck.fn('_get_model_latency', opaque=('print_log',))
    runs = [h for h in s.calls('model(_x)')]
    ck.need('runs', runs, s, 'the network runs')
    sy = s.calls('synchronize()')
    tm = s.calls('perf_counter()') + s.calls('time()')
    tm = sorted({h.e.seq: h for h in tm}.values(), key=lambda h: h.e.seq)
    for r in runs:
        before = [t for t in tm if t.e.seq < r.e.seq]
        after = [t for t in tm if t.e.seq > r.e.seq]
        ck.ob('timed', bool(before) and bool(after), r, 'a run is timed')
        ck.ob('no-grad', no_grad(r), r, 'without gradients')
        if before and after:
            ck.ob('finished', any(x.e.seq < before[-1].e.seq for x in sy), r,
                  'earlier work is finished before the clock starts')
            ck.ob('finished', any(r.e.seq < x.e.seq < after[0].e.seq
                                  for x in sy), r, 'and the run before it '
                  'stops')
    gets = s.ret()
    ok = False
    for e in s.ev:
        for t in (e.value, e.term):
            if isinstance(t, tuple):
                for x in walk(t):
                    if x[0] == 'bin' and x[1] == 'Div' and s.match(
                            x, '(_i + 1 - num_warmup) / _t') is not None:
                        ok = True
    ck.ob('rate', ok, s, 'the rate is the number of timed runs by their '
          'time')
    steps = [(k, t) for k, t in s.E.steps.items()]
    good = False
    for (lid, n), t in steps:
        for g, v in leaves(s, t):
            b = s.match(v, '_l + (_b - _a)')
            if b is not None and b['_l'][0] == 'loopvar' and b['_l'][1:3] \
                    == (n, lid):
                good = True
                ats = f_atoms(g)
                ck.ob('warm-up', len(ats) == 1 and s.derives(
                    ats[0][3] if len(ats[0]) > 3 else NONE, 'num_warmup') or
                    len(ats) == 1 and s.derives(ats[0][2], 'ELEM(_)'), s,
                    'only runs after the warm-up are counted [%s]' %
                    fshow(g))
                ck.ob('warm-up', isinstance(g, tuple) and (
                    g[0] == 'not') == s.derives(ats[0][3], 'num_warmup'), s,
                    'from number num_warmup on [%s]' % fshow(g))
    ck.ob('timed', good, s, 'the times add up')
    s = ck.fn('get_model_latency', opaque=('_get_model_latency',
                                           'print_log'))
    hs = s.calls('_get_model_latency(model, ...)')
    ck.need('measured', hs, s, 'latency is measured')
    for h in hs:
        for i, n in enumerate(('input_shape', 'max_iter', 'num_warmup')):
            ck.ob('options', h.arg(i + 1, n) == ('param', n), h, '%s is '
                  'passed on' % n)
        ck.ob('repeated', any(over(s, l, 'range(repeat_num)')
                              for l in h.e.loops), h, 'as often as told')
    conv = [x for e in s.ev for t in (e.value, e.term)
            if isinstance(t, tuple) for x in walk(t)
            if x[0] == 'bin' and x[1] == 'Div' and x[2] == ('const', 1000)]
    ck.ob('milliseconds', bool(conv), s, 'a rate of n per second is 1000/n '
          'milliseconds each')
    for g, v in leaves(s, s.ret()):
        if possible(s, case(s, g, {'as_strings': True})) and g is not True:
            ck.ob('text', s.derives(v, 'unit'), s, 'as text, latency carries '
                  'its unit')
