"""C34 growing the width of an operator keeps what its channels compute."""
from .common import *
from ..terms import f_and, f_not, f_or, f_implies, f_equiv, show

SIG = {
    'Conv2d': ('in_channels', 'out_channels', 'kernel_size', 'stride',
               'padding', 'dilation', 'groups', 'bias', 'padding_mode'),
    'Linear': ('in_features', 'out_features', 'bias'),
    'BatchNorm2d': ('num_features', 'eps', 'momentum', 'affine',
                    'track_running_stats'),
}
OPQ = ('expand_matrix', 'expand_vector', 'expand_bias', 'get_module_device',
       'zero_weight_', 'mutable_in_mask', 'mutable_out_mask')


def check(ck):
    ck.sections(widths, masks, scatter, conv, linear, norm, zeroing, unit,
                conversion, walk_model, grow, divisible)


def widths(ck):
    for side in ('in', 'out'):
        s = ck.fn('ExpandableMixin.expanded_%s_channel' % side, opaque=(
            'in_mutable', 'out_mutable', '_original_in_channel',
            '_original_out_channel'))
        m = 'self.%s_mutable' % side
        for g, t in leaves(s, s.ret()):
            if s.m.match('self._original_%s_channel' % side, t) is not None:
                ck.ob('width', s.m.implies(g, '%s is None' % m), s,
                      'the own width only without a mask')
            else:
                ck.ob('width', any(s.m.match(p % m, t) is not None for p in (
                    '%s.current_mask.numel()', '%s.current_mask.size(0)',
                    'len(%s.current_mask)', '%s.current_mask.shape[0]',
                    '%s.current_mask.nelement()')), s, 'the new %sput width '
                    'is that of the whole mask' % side)
        a = ck.fn('ExpandableMixin.%s_mutable' % side)
        ck.ob('width', a.m.match("self.get_mutable_attr('%s_channels')" %
                                 side, a.ret()) is not None, a,
              'the mask of the %sput channels' % side)
    s = ck.fn('ExpandableMixin.expand', opaque=(
        'get_expand_op', 'expanded_in_channel', 'expanded_out_channel'))
    c = s.calls('self.get_expand_op(...)')
    ck.always('expand', c, s, 'the larger operator is made')
    for h in c:
        a = dict(zip(('in_c', 'out_c', 'zero'), h.e.args))
        a.update(dict(h.e.kwargs))
        for k, v in (('in_c', 'self.expanded_in_channel'),
                     ('out_c', 'self.expanded_out_channel'),
                     ('zero', 'zero')):
            ck.ob('expand', k in a and s.m.match(v, a[k]) is not None, h,
                  '%s is handed on' % k)
    ck.ob('expand', bool(c) and same(s, s.ret(), c[0].e.term), s,
          'the larger operator is returned')
    for cls, i, o in (('ExpandableConv2d', 'in_channels', 'out_channels'),
                      ('ExpandLinear', 'in_features', 'out_features'),
                      ('ExpandableBatchNorm2d', 'num_features',
                       'num_features')):
        for n, v in (('in', i), ('out', o)):
            p = ck.fn('%s._original_%s_channel' % (cls, n))
            ck.ob('original', p.m.match('self.' + v, p.ret()) is not None, p,
                  'own %sput width' % n)


def masks(ck):
    for side in ('in', 'out'):
        s = ck.fn('ExpandableMixin.mutable_%s_mask' % side, opaque=(
            'in_mutable', 'out_mutable', 'expanded_in_channel',
            'expanded_out_channel', 'get_module_device'))
        for g, t in leaves(s, s.ret()):
            t = uncast(s, t)
            if s.m.match('self.%s_mutable.current_mask' % side, t) \
                    is not None:
                ck.ob('mask', True, s, 'own mask')
                continue
            b = s.m.match('torch.ones(_n, ...)', t)
            ok = b is not None and any(
                s.m.match(p % side, b['_n']) is not None for p in (
                    '[self.expanded_%s_channel]',
                    '(self.expanded_%s_channel,)',
                    'self.expanded_%s_channel'))
            ck.ob('mask', ok, s, 'all %sput channels without a mask' % side)
        n = [t for g, t in leaves(s, s.ret())
             if s.m.match('self.%s_mutable.current_mask' % side,
                          uncast(s, t)) is not None]
        ck.ob('mask', bool(n), s, 'the mask of the %sput channels is used'
              % side)


def uncast(s, t):
    """without conversions of type and device"""
    while True:
        for f in s.m.forms(t):
            for p in ('_x.to(...)', '_x.float()', '_x.bool()', '_x.int()',
                      '_x.long()', '_x.type_as(_)', '_x.contiguous()',
                      '_x.detach()', '_x.clone()'):
                b = s.m.match(p, f)
                if b is not None:
                    t = b['_x']
                    break
            else:
                continue
            break
        else:
            return t


COL = ('_x.unsqueeze(-1)', '_x.unsqueeze(dim=-1)', '_x.unsqueeze(1)',
       '_x[:, None]', '_x.view(-1, 1)', '_x.reshape(-1, 1)',
       'torch.unsqueeze(_x, -1)', 'torch.unsqueeze(_x, 1)')
ROW = ('_x.unsqueeze(0)', '_x.unsqueeze(dim=0)', '_x[None]', '_x[None, :]',
       '_x.view(1, -1)', '_x.reshape(1, -1)', 'torch.unsqueeze(_x, 0)')


def through(s, t, pats):
    for f in s.m.forms(uncast(s, t)):
        for p in pats:
            b = s.m.match(p, f)
            if b is not None:
                return uncast(s, b['_x'])
    return None


def scatter(ck):
    for name, rank in (('expand_matrix', 3), ('expand_vector', 2)):
        s = ck.fn('ExpandableMixin.' + name, opaque=(
            'mutable_in_mask', 'mutable_out_mask'))
        sc = s.calls('_w.masked_scatter_(_m, _o)')
        ck.always('scatter', sc, s, 'old values are put in place')
        for h in sc:
            ck.ob('scatter', s.m.match('weight', strip_data(s, h.b['_w']))
                  is not None, h, 'into the new weight')
            ck.ob('scatter', s.m.match('old_weight', strip_data(
                s, h.b['_o'])) is not None, h, 'the old weight')
            t = uncast(s, h.b['_m'])
            e = through(s, t, ('_x.expand(*weight.shape)',
                               '_x.expand(weight.shape)',
                               '_x.expand_as(weight)',
                               '_x.expand(weight.size())',
                               '_x.expand(*weight.size())',
                               'torch.broadcast_to(_x, weight.shape)'))
            ck.ob('scatter', e is not None, h, 'the mask has the shape of '
                  'the new weight')
            if e is None:
                continue
            if rank == 2:
                v = through(s, e, COL)
                ck.ob('scatter', v is not None and s.m.match(
                    'self.mutable_out_mask', v) is not None, h,
                    'rows of the channels in use')
                continue
            v = through(s, e, ('_x.unsqueeze(-1)', '_x.unsqueeze(2)',
                               '_x[..., None]', '_x[:, :, None]'))
            ck.ob('scatter', v is not None, h, 'for all elements of the '
                  'kernel')
            if v is None:
                continue
            ok = False
            for f in s.m.forms(uncast(s, v)):
                for p in ('_a * _b', '_a & _b', 'torch.logical_and(_a, _b)',
                          'torch.mul(_a, _b)', '_a.mul(_b)'):
                    b = s.m.match(p, f)
                    if b is None:
                        continue
                    for x, y in ((b['_a'], b['_b']), (b['_b'], b['_a'])):
                        r, c = through(s, x, COL), through(s, y, ROW)
                        if r is not None and c is not None and s.m.match(
                                'self.mutable_out_mask', r) is not None and \
                                s.m.match('self.mutable_in_mask', c) \
                                is not None:
                            ok = True
            ck.ob('scatter', ok, h, 'weights between channels in use')
        ck.ob('scatter', s.m.match('weight', strip_data(s, s.ret()))
              is not None, s, 'the filled weight is returned')
        for h in s.kind('setattr', 'setitem', 'aug'):
            ck.ob('scatter', False, h, 'nothing else is written')
        for a in ('zero_', 'fill_', 'copy_', 'mul_', 'normal_', 'add_',
                  'masked_fill_', 'uniform_'):
            for h in s.calls('_w.%s(...)' % a):
                ck.ob('scatter', False, h, 'nothing else is written')
    s = ck.fn('ExpandableMixin.expand_bias', opaque=('expand_vector',))
    c = s.calls('self.expand_vector(_b, _o)')
    ck.always('bias', c, s, 'biases are columns')
    for h in c:
        ck.ob('bias', isp(s, through(s, h.b['_b'], COL), 'bias'), h,
              'the new bias')
        ck.ob('bias', isp(s, through(s, h.b['_o'], COL), 'old_bias'), h,
              'the old bias')
    if c:
        r = [s.m.match(p, f) for f in s.m.forms(s.ret()) for p in (
            '_x.squeeze(1)', '_x.squeeze(-1)', '_x.flatten()',
            '_x[:, 0]', '_x.view(-1)', '_x.reshape(-1)')]
        ck.ob('bias', any(b is not None and same(s, b['_x'], c[0].e.term)
                          for b in r), s, 'as a vector again')


def isp(s, t, name):
    return t is not None and s.m.match(name, t) is not None


def strip_data(s, t):
    while True:
        b = s.m.match('_x.data', t)
        if b is None:
            return t
        t = b['_x']


# ------------------------------------------------------------ the operators
def base_of(s, t):
    """the module a term is a moved version of"""
    while True:
        b = s.m.match('_x.to(...)', t)
        if b is None:
            for p in ('_x.train(...)', '_x.eval()', '_x.cuda()',
                      '_x.requires_grad_(...)'):
                b = s.m.match(p, t)
                if b is not None:
                    break
        if b is None:
            return t
        t = b['_x']


def made(ck, s, cls, want, rule):
    """the constructor call, with its arguments checked"""
    mk = [h for h in s.calls('nn.%s(...)' % cls) +
          s.calls('torch.nn.%s(...)' % cls)]
    seen, out = set(), []
    for h in mk:
        if h.e.seq not in seen:
            seen.add(h.e.seq)
            out.append(h)
    ck.ob(rule, len(out) >= 1, s, 'a plain operator is made')
    for h in out:
        a = dict(zip(SIG[cls], h.e.args))
        a.update(dict(h.e.kwargs))
        for k, pats in want.items():
            v = a.get(k)
            ck.ob(rule, v is not None and any(
                s.m.match(p, v) is not None or vf(v) is not None and
                ' is ' in p and s.m.equiv(vf(v), p) for p in pats), h,
                '%s is kept' % k)
        ck.ob(rule, any(same(s, base_of(s, t), h.e.term)
                        for g, t in leaves(s, s.ret())), h,
              'it is the one returned')
    return out


def vf(v):
    return v[1] if v[0] == 'form' else None


def copied(ck, s, mk, attr, fns, wrap, rule, when):
    """attr of the old operator is put into its place of the new one"""
    hits = []
    for fn in fns:
        for h in s.calls('self.%s(_n, _o)' % fn):
            w = WRAP['none'] if fn == 'expand_bias' else wrap
            n, o = unwrap(s, h.b['_n'], w), unwrap(s, h.b['_o'], w)
            if n is None or o is None:
                continue
            bn = s.m.match('_m.' + attr, strip_data(s, n))
            if bn is None or not any(same(s, base_of(s, bn['_m']), k.e.term)
                                     for k in mk):
                continue
            if s.m.match('self.' + attr, strip_data(s, o)) is None:
                ck.ob(rule, False, h, '%s comes from the %s of the old '
                      'operator' % (attr, attr))
                continue
            hits.append(h)
    ok = bool(hits) and s.m.implied_by(
        f_or(*[present(s, h.e.guard, attr) for h in hits]), 'True')
    ck.ob(rule, ok, hits[0] if hits else s, 'the old %s is put in its place '
          '(%s)' % (attr, when))
    # where the result goes
    for e in s.ev:
        if e.kind != 'setattr':
            continue
        b, k = e.base, e.attr
        if k == 'data':
            q = s.m.match('_m.' + attr, b)
            if q is None or not any(same(s, base_of(s, q['_m']), m.e.term)
                                    for m in mk):
                continue
        elif k == attr:
            if not any(same(s, base_of(s, b), m.e.term) for m in mk):
                continue
        else:
            continue
        v = e.value
        ok = any(s.find(v, show_pat(fn)) and h.e.term in allsub(v) or
                 h.e.term in allsub(full(s, v)) or
                 full(s, h.e.term) in allsub(full(s, v))
                 for fn in fns for h in hits)
        shaped = wrap is WRAP['none'] or any(
            s.m.match(p, v) is not None for p in (
                '_x.reshape(_m.%s.shape)' % attr,
                '_x.view(_m.%s.shape)' % attr,
                '_x.view_as(_m.%s)' % attr,
                '_x.reshape_as(_m.%s)' % attr,
                '_x.reshape(*_m.%s.shape)' % attr,
                '_x.squeeze(-1)', '_x.squeeze(1)'))
        ck.ob(rule, ok, e, 'nothing else is stored as %s' % attr)
        if fns != ('expand_bias',) and not any(
                s.calls('self.expand_bias(...)')):
            ck.ob(rule, shaped, e, '%s keeps its shape' % attr)
    return hits


def show_pat(fn):
    return 'self.%s(...)' % fn


def allsub(t):
    out, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            out.add(x)
            st.extend(x)
    return out


def present(s, g, attr):
    """guard given that the operator has the attribute"""
    from ..terms import f_map

    def fn(a):
        t = show(a) if a[0] != 'T' else a[1]
        if a[0] == 'is' or ' is None' in t or 'isnone' in str(a[0]).lower():
            if '.' + attr in t:
                return False
        return ('atom', a)
    return f_map(s.m.norm(g), fn)


WRAP = {
    'mat4': ('_x.flatten(2)', '_x.flatten(start_dim=2)', '_x.flatten(2, -1)'),
    'mat2': ('_x.unsqueeze(-1)', '_x.unsqueeze(2)', '_x[..., None]',
             '_x[:, :, None]'),
    'vec4': ('_x.flatten(1)', '_x.flatten(start_dim=1)'),
    'col': COL,
    'none': (),
}


def unwrap(s, t, pats):
    if not pats:
        return t
    for f in s.m.forms(t):
        for p in pats:
            b = s.m.match(p, f)
            if b is not None:
                return b['_x']
    return None


def zeros(ck, s, mk, rule):
    z = [h for h in s.kind('call')
         if show(h.e.func).endswith('zero_weight_') and
         any(same(s, base_of(s, x), k.e.term) for k in mk
             for x in list(h.e.args) + [h.e.func[1]]
             if isinstance(x, tuple))]
    ck.iff(rule, z, s, 'zero', 'the new channels start from zero exactly if '
           'that is asked for')
    for c in [h for n in ('expand_matrix', 'expand_vector', 'expand_bias')
              for h in s.calls('self.%s(...)' % n)]:
        for h in z:
            ck.ob(rule, h.e.seq < c.e.seq, c, 'before the old values are '
                  'put in')


CONV = dict(kernel_size=('self.kernel_size',), stride=('self.stride',),
            padding=('self.padding',), dilation=('self.dilation',),
            padding_mode=('self.padding_mode',),
            bias=('self.bias is not None', 'bool(self.bias is not None)'))


def conv(ck):
    s = ck.fn('ExpandableConv2d.get_expand_op', opaque=(
        '_get_expand_op_normal_conv', '_get_expand_op_dw_conv'))
    n = s.calls('self._get_expand_op_normal_conv(...)')
    d = s.calls('self._get_expand_op_dw_conv(...)')
    ck.iff('conv-kind', n, s, 'self.groups == 1', 'ungrouped convolutions')
    eq = ('self.in_channels == self.out_channels',
          'self.out_channels == self.groups',
          'self.in_channels == self.groups')
    for h in d:
        g = f_and(h.e.guard, f_not(refused(s)))
        ck.ob('conv-kind', any(
            s.m.implies(g, '%s and %s' % (x, y))
            for x in eq for y in eq if x != y), h, 'depth-wise convolutions')
    ck.need('conv-kind', d, s, 'depth-wise convolutions grow')
    for h in n + d:
        a = dict(zip(('in_c', 'out_c', 'zero'), h.e.args))
        a.update(dict(h.e.kwargs))
        for k in ('in_c', 'out_c', 'zero'):
            ck.ob('conv-args', k in a and s.m.match(k, a[k]) is not None, h,
                  '%s is handed on' % k)
    ck.ob('conv-return', all(any(same(s, t, h.e.term) for h in n + d)
                             for g, t in leaves(s, s.ret())
                             if t != ('const', None)), s,
          'the grown operator is returned')
    ck.ob('conv-refused', bool(s.raises()) or all(
        t != ('const', None) for g, t in leaves(s, s.ret())), s,
        'other groupings are refused')
    s = ck.fn('ExpandableConv2d._get_expand_op_normal_conv', opaque=OPQ)
    mk = made(ck, s, 'Conv2d', dict(
        CONV, in_channels=('in_c',), out_channels=('out_c',),
        groups=('self.groups', '1')), 'conv')
    copied(ck, s, mk, 'weight', ('expand_matrix',), WRAP['mat4'], 'conv',
           'matrix')
    copied(ck, s, mk, 'bias', ('expand_vector', 'expand_bias'), WRAP['col'],
           'conv', 'when there is one')
    zeros(ck, s, mk, 'conv-zero')
    s = ck.fn('ExpandableConv2d._get_expand_op_dw_conv', opaque=OPQ)
    mk = made(ck, s, 'Conv2d', dict(
        CONV, in_channels=('in_c', 'out_c'), out_channels=('out_c', 'in_c'),
        groups=('in_c', 'out_c')), 'dwconv')
    copied(ck, s, mk, 'weight', ('expand_vector',), WRAP['vec4'], 'dwconv',
           'one kernel per channel')
    copied(ck, s, mk, 'bias', ('expand_vector', 'expand_bias'), WRAP['col'],
           'dwconv', 'when there is one')
    zeros(ck, s, mk, 'dwconv-zero')
    r = refused(s)
    ck.ob('dwconv', s.m.implied_by(r, 'in_c != out_c'), s,
          'both widths of a depth-wise convolution are equal')


def linear(ck):
    s = ck.fn('ExpandLinear.get_expand_op', opaque=OPQ)
    mk = made(ck, s, 'Linear', dict(
        in_features=('in_c',), out_features=('out_c',),
        bias=('self.bias is not None',)), 'linear')
    copied(ck, s, mk, 'weight', ('expand_matrix',), WRAP['mat2'], 'linear',
           'matrix')
    copied(ck, s, mk, 'bias', ('expand_vector', 'expand_bias'), WRAP['col'],
           'linear', 'when there is one')
    zeros(ck, s, mk, 'linear-zero')


def norm(ck):
    s = ck.fn('ExpandableBatchNorm2d.get_expand_op', opaque=OPQ)
    mk = made(ck, s, 'BatchNorm2d', dict(
        num_features=('in_c', 'out_c'), eps=('self.eps',),
        momentum=('self.momentum',), affine=('self.affine',),
        track_running_stats=('self.track_running_stats',)), 'norm')
    for a in ('running_mean', 'running_var', 'weight', 'bias'):
        hits = copied(ck, s, mk, a, ('expand_bias',), WRAP['none'], 'norm',
                      'when there is one')
        for h in hits:
            ck.ob('norm-absent', not s.m.implied_by(h.e.guard, 'True'), h,
                  '%s may be missing' % a)
    zeros(ck, s, mk, 'norm-zero')
    r = refused(s)
    ck.ob('norm', s.m.implied_by(r, 'in_c != out_c'), s,
          'norm layers keep the number of channels')


def zeroing(ck):
    s = ck.fn('ExpandableMixin.zero_weight_')
    z = [h for p in ('_p.data.zero_()', '_p.zero_()', '_p.data.fill_(0)')
         for h in s.calls(p) if h.e.loops and whole(s, h.e.loops[-1]) and
         h.unconditional]
    ck.need('zero', [h for h in z if over(s, h.e.loops[-1],
                                          'self.parameters()')], s,
            'all weights start from zero')


# ------------------------------------------------------------------ the unit
def unit(ck):
    s = ck.fn('ExpandableUnit.expand')
    st = s.sets('_c', 'mask')
    ck.always('unit-mask', st, s, 'the mask grows')
    for h in st:
        ck.ob('unit-mask', s.m.match('self.mutable_channel', h.e.base)
              is not None, h, 'of this group')
        b = None
        for p in ('torch.cat([_a, _b])', 'torch.cat([_a, _b], 0)',
                  'torch.cat([_a, _b], dim=0)', 'torch.cat((_a, _b))',
                  'torch.concat([_a, _b])', 'torch.hstack([_a, _b])',
                  'torch.cat((_a, _b), dim=0)', 'torch.cat((_a, _b), 0)'):
            b = b or s.m.match(p, h.e.value)
        ck.ob('unit-mask', b is not None and s.m.match(
            'self.mutable_channel.mask', b['_a']) is not None, h,
            'existing channels keep their places and their mask')
        if b is None:
            continue
        z = None
        for p in ('self.mutable_channel.mask.new_zeros(_n)',
                  'self.mutable_channel.mask.new_zeros(_n, ...)',
                  'torch.zeros(_n, ...)'):
            z = z or s.m.match(p, b['_b'])
        ck.ob('unit-mask', z is not None and any(
            s.m.match(p, z['_n']) is not None
            for p in ('[num]', '(num,)', 'num')), h,
            'new channels do not replace any')
    s = ck.fn('ExpandableUnit.expand_to', opaque=('expand',))
    c = s.calls('self.expand(_n)')
    ck.always('unit-to', c, s, 'the group grows')
    for h in c:
        ck.ob('unit-to', any(s.m.match(p, h.b['_n']) is not None for p in (
            'num - self.num_channels',
            'num - self.mutable_channel.num_channels')), h,
            'by what is missing')
    s = ck.fn('ExpandableUnit.prepare_for_pruning', opaque=(
        '_replace_with_dynamic_ops', '_register_channel_container',
        '_register_mutable_channel'))
    r = s.calls('self._replace_with_dynamic_ops(model, _d)')
    ck.always('unit-ops', r, s, 'operators become growable')
    for h in r:
        want = {'Conv2d': 'ExpandableConv2d',
                'BatchNorm2d': 'ExpandableBatchNorm2d',
                'Linear': 'ExpandLinear'}
        got = {}
        for x in entries(s, h.b['_d']):
            k = show(x.key if hasattr(x, 'key') else x[1]).split('.')[-1]
            v = show(x.value if hasattr(x, 'value') else x[2]).split('.')[-1]
            got[k] = v
        for k, v in want.items():
            ck.ob('unit-ops', got.get(k) == v, h, '%s becomes %s' % (k, v))
    c = s.calls('self._register_channel_container(model, _c)')
    ck.always('unit-ops', c, s, 'layers get channel containers')
    m = s.calls('self._register_mutable_channel(self.mutable_channel)')
    ck.always('unit-ops', m, s, 'all layers of the group share its mask')
    for h in m:
        ck.ob('unit-ops', all(x.e.seq < h.e.seq for x in r + c), h,
              'after the layers are ready for it')


def conversion(ck):
    s = ck.fn('to_expandable_model', opaque=('prepare_from_supernet',))
    sd = s.calls('model.state_dict()')
    pr = s.calls('_m.prepare_from_supernet(model)')
    ld = s.calls('model.load_state_dict(_d, ...)') or s.calls(
        'model.load_state_dict(_d)')
    ck.always('convert', pr, s, 'the model becomes growable')
    ck.always('convert', ld, s, 'and gets its weights back')
    for h in ld:
        ck.ob('convert', any(same(s, h.b['_d'], x.e.term) and
                             x.e.seq < p.e.seq and p.e.seq < h.e.seq
                             for x in sd for p in pr), h,
              'the weights it had before')
    ck.ob('convert', bool(pr) and same(s, s.ret(), pr[0].b['_m']), s,
          'the mutator of that model is returned')
    for h in s.calls('ChannelMutator(...)'):
        kw = dict(h.e.kwargs)
        ck.ob('convert', 'channel_unit_cfg' in kw and show(
            kw['channel_unit_cfg']).endswith('ExpandableUnit'), h,
            'with growable groups')


def walk_model(ck):
    s = ck.fn('expand_expandable_dynamic_model', opaque=('expand',))
    st = [h for h in s.kind('setitem')]
    ex = s.calls('_x.expand(...)')
    ck.need('walk', ex, s, 'growable operators are replaced')
    for h in ex:
        a = list(h.e.args) + [v for _, v in h.e.kwargs]
        ck.ob('walk', len(a) == 1 and s.m.match('zero', a[0]) is not None, h,
              'the choice of zero weights is handed on')
        put = [w for w in st if same(s, w.e.value, h.e.term)] + [
            w for w in s.kind('setattr') if same(s, w.e.value, h.e.term)]
        ck.ob('walk', bool(put) and all(f_equiv(
            s.m.skey(h.e.guard), s.m.skey(w.e.guard)) for w in put), h,
            'the larger operator takes its place')
        ck.ob('walk', h.e.loops and whole(s, h.e.loops[-1]), h,
              'for all operators')
    ck.ob('walk', s.m.match('model', s.ret()) is not None, s,
          'the model is returned')
    n = [h for h in s.ev if h.kind == 'call' and h.loops and
         h.func and h.func[0] == 'closure']
    ck.ob('walk', bool(n), s, 'nested modules are reached')


def grow(ck):
    s = ck.fn('expand_static_model', opaque=(
        'to_expandable_model', 'expand_to',
        'expand_expandable_dynamic_model'))
    e = s.calls('_u.expand_to(_v)')
    ck.need('grow', e, s, 'groups grow')
    x = s.calls('expand_expandable_dynamic_model(model, ...)')
    ck.always('grow', x, s, 'operators are replaced')
    for h in e:
        b = s.m.match('_m._name2unit[_k]', h.b['_u'])
        ck.ob('grow', b is not None and same(
            s, h.b['_v'], ('sub', ('param', 'structure'), b['_k'], 0)) or
            b is not None and show(h.b['_v']) == 'structure[%s]' % show(
                b['_k']), h, 'each group to its own width')
        ck.ob('grow', h.e.loops and whole(s, h.e.loops[-1]) and
              h.unconditional, h, 'all groups')
        for y in x:
            ck.ob('grow', h.e.seq < y.e.seq, y, 'before operators are '
                  'replaced')
    for y in x:
        a = dict(zip(('model', 'zero'), y.e.args))
        a.update(dict(y.e.kwargs))
        ck.ob('grow', 'zero' in a and s.m.match('zero_weight', a['zero'])
              is not None, y, 'the choice of zero weights is handed on')


def divisible(ck):
    s = ck.fn('make_channel_divisible', opaque=(
        'to_expandable_model', 'expand_to',
        'expand_expandable_dynamic_model'))
    e = s.calls('_u.expand_to(_v)')
    x = s.calls('expand_expandable_dynamic_model(model, ...)')
    ck.need('divisible', e, s, 'groups grow')
    ck.always('divisible', x, s, 'operators are replaced')
    for h in e:
        b = s.m.match('_m._name2unit[_k]', h.b['_u'])
        ck.ob('divisible', b is not None, h, 'groups are found by name')
        if b is None:
            continue
        num = '_m.choice_template[_k]'
        ok = ge = False
        for f in s.m.forms(h.b['_v']):
            for p in ('max(_n, _c)', 'max(_c, _n)', 'max([_n, _c])'):
                q = s.m.match(p, f)
                if q is None:
                    continue
                for n, c in ((q['_n'], q['_c']), (q['_c'], q['_n'])):
                    if s.m.match('_w.num_channels', c) is not None and \
                            same(s, s.m.match('_w.num_channels', c)['_w'],
                                 h.b['_u']):
                        ge = True
                        ok = ok or up(s, n, b['_k'])
            if up(s, f, b['_k']):
                ok = ge = True
        ck.ob('divisible', ok, h, 'the next multiple of the divisor')
        ck.ob('divisible', ge, h, 'groups never shrink')
        ck.ob('divisible', f_equiv(s.m.skey(h.e.guard), True) or all(
            '%' in show(a) and 'divisor' in show(a)
            for a in atoms(s.m.norm(h.e.guard))), h,
            'only widths that are divisible stay')
        for y in x:
            ck.ob('divisible', h.e.seq < y.e.seq, y, 'before operators are '
                  'replaced')
    for y in x:
        a = dict(zip(('model', 'zero'), y.e.args))
        a.update(dict(y.e.kwargs))
        ck.ob('divisible', 'zero' in a and s.m.match(
            'zero_weight', a['zero']) is not None, y, 'the choice of zero '
            'weights is handed on')
    skip(ck, s, e)


def skip(ck, s, e):
    from ..terms import f_map
    for h in e:
        g = s.m.norm(h.e.guard)

        def fn(v):
            def f(a):
                if '%' in show(a) and 'divisor' in show(a):
                    t = show(a)
                    return v if '== 0' in t else not v
                return ('atom', a)
            return f
        ck.ob('divisible', f_equiv(f_map(g, fn(False)), True), h,
              'widths that are not divisible grow')


def up(s, t, k):
    """the next multiple of divisor above the current width"""
    for p in ('(_n // divisor + 1) * divisor',
              'divisor * (_n // divisor + 1)',
              '(1 + _n // divisor) * divisor',
              '_n // divisor * divisor + divisor',
              '(_n + divisor - 1) // divisor * divisor',
              'math.ceil(_n / divisor) * divisor',
              '-(-_n // divisor) * divisor'):
        b = s.m.match(p, t)
        if b is not None and 'choice_template' in show(b['_n']):
            return show(b['_n']).endswith('[%s]' % show(k))
    return False


def atoms(f):
    if not isinstance(f, tuple):
        return []
    if f[0] == 'atom':
        return [f[1]]
    return [a for x in f[1:] for y in (x if isinstance(x, tuple) and x and
                                       isinstance(x[0], tuple) else (x,))
            for a in atoms(y)]
