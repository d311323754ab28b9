"""C08 a dynamic operator and the static operator it exports compute the same
function."""
from .common import *

FN = 'torch.nn.functional.'
WRAP = ('clone', 'detach', 'contiguous', 'to', 'cpu', 'cuda', 'float')


# ---------------------------------------------------------------- terms
def peel(t):
    """the tensor inside Parameter(...)/clone()/... wrappers"""
    while t[0] == 'call':
        f = t[1]
        if f[0] == 'attr' and f[2] in WRAP:
            t = f[1]
        elif f[0] == 'global' and f[1].endswith('.Parameter') and t[2]:
            t = t[2][0]
        else:
            break
    return t


def push(t):
    """component selection pushed into conditional and tuple terms"""
    if t[0] == 'sub' and t[2][0] == 'const' and isinstance(t[2][1], int):
        b = t[1]
        if b[0] == 'ite':
            return ite(b[1], push(('sub', b[2], t[2], 0)),
                       push(('sub', b[3], t[2], 0)))
        if b[0] == 'tuple' and len(b[1]) > t[2][1]:
            return b[1][t[2][1]]
    return t


def table(ck, s, t, skip=None):
    """{leaf text: guard} of the fully expanded value"""
    r = tmap(resolver(ck, s)(t, s), push)
    out = {}

    def walk(x, g):
        x = peel(push(x))
        if x[0] == 'ite':
            walk(x[2], f_and(g, x[1]))
            walk(x[3], f_and(g, f_not(x[1])))
            return
        g = f_map(g, lambda a: ('atom', ('txt', show(a))))
        k = show(x)
        out[k] = f_or(out.get(k, False), g)
    walk(r, True)
    out = {k: g for k, g in out.items() if g is not False and
           not f_implies(g, False)}
    if skip:
        out = {k: g for k, g in out.items() if k not in skip}
    return out


def agree(ck, s, a, z, b, skip=None):
    A, B = table(ck, s, a, skip), table(ck, z, b, skip)
    if set(A) != set(B):
        return False
    return all(f_equiv(A[k], B[k]) for k in A)


# ---------------------------------------------------------------- fixed
def check_fixed(ck):
    b = ck.fn('DynamicMixin.check_if_mutables_fixed')
    rs = [h for h in b.raises() if h.e.loops]
    ok = False
    for h in rs:
        l = whole_loop(b, h, 'self.mutable_attrs')
        if l is None:
            continue
        g = b.m.skey(h.e.guard)
        miss = [a for a in f_atoms(h.e.guard)]
        want = 'not isinstance(_m, _) and _m is not None and ' \
               'not _m.is_fixed'
        ok = ok or h.when(want)
    ck.ob('refuse-unfixed', ok, b, 'a dynamic operator whose own mutables are'
          ' not all fixed refuses to be exported')
    excl = []
    for h in rs:
        for a in f_atoms(h.e.guard):
            if a[0] == 'call' and a[1] == ('global', 'isinstance'):
                t = a[2][1]
                excl += [x[1].rsplit('.', 1)[-1] for x in
                         (t[1] if t[0] == 'tuple' else (t,))
                         if x[0] == 'global']
    ck.ob('refuse-kinds', set(excl) <= {'MutableChannelContainer',
                                        'DerivedMutable'}, b,
          'only mutables that cannot be fixed by themselves are exempt')
    n = 0
    for c in concrete(ck, ck.cls('DynamicMixin')):
        f = ck.prog.lookup(c, 'to_static_op')
        s = ck.func_summary(f, c)
        n += 1
        call = s.calls('self.check_if_mutables_fixed()')
        made = [h for h in s.sets('_', '_') if h.e.base != SELF] + [
            h for h in s.returns() if len(h.e.frames) == 1]
        ok = any(h.unconditional() and not h.e.loops for h in call)
        ck.ob('check-first', ok and not any(
            m.e.seq < min(h.e.seq for h in call) for m in made), s,
            'exporting checks first that the choice is fixed',
            construct=c.qual + '.to_static_op')
    ck.floor('dynamic operators', n, 18)


# ------------------------------------------------------------- agreement
# class, forward anchor, call in forward, ((static attribute, argument), ...)
LINEAR = (('weight', 1, 'weight'), ('bias', 2, 'bias'))
BN = (('running_mean', 1, 'running_mean'), ('running_var', 2, 'running_var'),
      ('weight', 3, 'weight'), ('bias', 4, 'bias'))
LN = (('weight', 2, 'weight'), ('bias', 3, 'bias'))
CONV = 'OR(self.conv_func(...), %sconv2d(...))' % FN


def op_calls(s, pat):
    return [h for h in s.calls(pat) if len(h.e.args) + len(h.e.kwargs) > 1]


FAMILIES = (
    ('DynamicLinear', 'forward', FN + 'linear(...)', LINEAR),
    ('DynamicConv2d', 'forward', CONV, LINEAR),
    ('BigNasConv2d', 'forward', CONV, LINEAR),
    ('OFAConv2d', 'forward', 'OR(self.conv_func(...), %sconv2d(...))' % FN,
     LINEAR),
    ('FuseConv2d', 'forward', 'OR(self.conv_func(...), %sconv2d(...))' % FN,
     LINEAR),
    ('DynamicConv2dAdaptivePadding', 'forward',
     CONV, LINEAR),
    ('DynamicBatchNorm1d', 'forward', FN + 'batch_norm(...)', BN),
    ('DynamicBatchNorm2d', 'forward', FN + 'batch_norm(...)', BN),
    ('DynamicBatchNorm3d', 'forward', FN + 'batch_norm(...)', BN),
    ('DynamicBatchNormXd', 'forward', FN + 'batch_norm(...)', BN),
    ('DMCPBatchNorm2d', 'forward', FN + 'batch_norm(...)', BN),
    ('DynamicSyncBatchNorm', 'forward', FN + 'batch_norm(...)', BN),
    ('DynamicLayerNorm', 'forward', FN + 'layer_norm(...)', LN),
    ('DynamicPatchEmbed', 'forward', FN + 'conv2d(...)', LINEAR),
)


def static_values(s, attr):
    """values stored as `attr` of the operator that is returned"""
    out = []
    for e in s.ev:
        if e.kind == 'setattr' and e.attr == attr and e.base != SELF:
            v = peel(e.value)
            # x.attr = x.attr.to(...) keeps the value
            if v[0] == 'attr' and v[2] == attr and v[1] != SELF and \
                    v[1][0] not in ('attr', 'param'):
                continue
            out.append((e, e.value))
        elif e.kind == 'call' and e.func[0] == 'attr' and e.func[2] in (
                'copy_',) and e.args:
            b = e.func[1]
            while b[0] == 'attr' and b[2] == 'data':
                b = b[1]
            if b[0] == 'attr' and b[2] == attr and root_self(b) is False:
                out.append((e, e.args[0]))
    return out


def root_self(t):
    while t[0] in ('attr', 'sub'):
        t = t[1]
    return t == SELF


def check_agree(ck):
    for c, m, pat, params in FAMILIES:
        s = ck.fn('%s.%s' % (c, m), optional=True)
        z = ck.fn(c + '.to_static_op', optional=True)
        if s is None or z is None:
            continue
        calls = op_calls(s, pat)
        ck.need('same-operation', calls, s, 'the operator applies the '
                'functional form of its static operator')
        for attr, i, nm in params:
            vals = static_values(z, attr)
            ck.ob('static-' + attr.replace('_', '-'), bool(vals), z,
                  'the static operator receives the %s' % attr)
            for h in calls:
                a = h.arg(i, nm)
                if a is None:
                    ck.ob('same-param', False, h, 'forward passes %s' % attr)
                    continue
                for e, v in vals:
                    ck.ob('same-param', agree(ck, s, a, z, v, ('None',)),
                          Hit(z, e, {}), 'the exported %s is exactly the one '
                          'forward computes with' % attr,
                          construct=c + '.' + attr)
                if vals:
                    # a parameter that exists is exported
                    A = table(ck, s, a)
                    none = A.get('None', False)
                    g = f_or(*[e.guard for e, v in vals])
                    fa = [x for x in f_atoms(g)]
                    okk = all(x[0] == 'is' or 'None' in show(x) or
                              x == ('txt', '') for x in fa)
                    ck.ob('export-when-present', g is not False and (
                        g is True or okk), z, 'every %s in use is exported'
                        % attr, construct=c + '.' + attr)


# ---------------------------------------------------------------- masks
def mask_sources(ck, s, t):
    """(registered attr names read, ones() dims) of a mask term"""
    r = resolver(ck, s)(t, s)
    attrs, ones = set(), set()
    for x in all_subterms(r):
        if x[0] == 'attr' and x[2] in ('current_mask', 'activated_channels'):
            attrs.add(key_of(x[1]))
        if x[0] == 'call' and x[1][0] == 'global' and x[1][1] in (
                'torch.ones', 'torch.ones_like'):
            ones.add(show(x[2][0]) if x[2] else '')
    return attrs, ones


def all_subterms(t):
    yield t
    for x in subterms(t):
        yield from all_subterms(x)


def key_of(t):
    """registered attribute a mutable term is read from"""
    if t[0] == 'sub' and t[1][0] == 'attr' and t[1][2] == 'mutable_attrs' \
            and t[2][0] == 'const':
        return t[2][1]
    if t[0] == 'attr' and t[1][0] == 'attr' and t[1][2] == 'mutable_attrs':
        return t[2]
    if t[0] == 'attr' and t[1] == SELF and str(t[2]).startswith('mutable_'):
        return t[2][len('mutable_'):]
    return show(t)


def index_parts(t):
    """base[m] / base[:, m] chains -> (base, {dim: index})"""
    d = {}
    while t[0] == 'sub':
        ix = t[2]
        if ix[0] == 'tuple':
            for i, x in enumerate(ix[1]):
                if not (x[0] == 'slice' and x[1] == NONE and x[2] == NONE):
                    d.setdefault(i, x)
        elif not (ix[0] == 'slice' and ix[1] == NONE and ix[2] == NONE):
            d.setdefault(0, ix)
        t = t[1]
    return t, d


def value_leaves(ck, s, t):
    r = tmap(resolver(ck, s)(t, s), push)
    out = []

    def walk(x, g):
        x = peel(push(x))
        if x[0] == 'ite':
            walk(x[2], f_and(g, x[1]))
            walk(x[3], f_and(g, f_not(x[1])))
        elif feasible(s, g):
            out.append((g, x))
    walk(r, True)
    return out


def has_attr(g, s, name):
    """guard says whether attribute mutable `name` is registered"""
    p = "'%s' in self.mutable_attrs" % name
    if s.m.implies(g, p):
        return True
    if s.m.implies(g, 'not (%s)' % p):
        return False
    return None


# class, anchor, operand pattern, index, {dim: registered name}, base
MASKS = (
    ('DynamicLinear', FN + 'linear(...)', 1, 'self.weight',
     {0: 'out_features', 1: 'in_features'}),
    ('DynamicLinear', FN + 'linear(...)', 2, 'self.bias',
     {0: 'out_features'}),
    ('DynamicBatchNorm2d', FN + 'batch_norm(...)', 1, 'self.running_mean',
     {0: 'num_features'}),
    ('DynamicBatchNorm2d', FN + 'batch_norm(...)', 2, 'self.running_var',
     {0: 'num_features'}),
    ('DynamicBatchNorm2d', FN + 'batch_norm(...)', 3, 'self.weight',
     {0: 'num_features'}),
    ('DynamicBatchNorm2d', FN + 'batch_norm(...)', 4, 'self.bias',
     {0: 'num_features'}),
    ('DynamicLayerNorm', FN + 'layer_norm(...)', 2, 'self.weight',
     {0: 'num_features'}),
    ('DynamicLayerNorm', FN + 'layer_norm(...)', 3, 'self.bias',
     {0: 'num_features'}),
    ('DynamicPatchEmbed', FN + 'conv2d(...)', 1, 'self.projection.weight',
     {0: 'embed_dims'}),
    ('DynamicPatchEmbed', FN + 'conv2d(...)', 2, 'self.projection.bias',
     {0: 'embed_dims'}),
)
NAMES = {1: 'weight', 2: 'bias'}


def check_masks(ck):
    for c, pat, i, base, dims in MASKS:
        s = ck.fn(c + '.forward')
        for h in s.calls(pat):
            t = h.arg(i)
            if t is None:
                t = h.arg(None, base.rsplit('.', 1)[-1])
            if t is None:
                ck.ob('sliced', False, h, 'operand %s' % base)
                continue
            for g, x in value_leaves(ck, s, t):
                if x == NONE:
                    ck.ob('absent', s.m.implies(g, base + ' is None') or
                          'running' in base, h, '%s is only left out when '
                          'there is none' % base)
                    continue
                b, d = index_parts(x)
                ck.ob('right-tensor', show(b) == base, h,
                      '%s is what is sliced' % base, construct='%s.%s' % (
                          c, base))
                for k, nm in dims.items():
                    if k not in d:
                        reg = has_attr(g, s, nm)
                        aff = s.m.implies(g, 'not self.affine') or s.m.\
                            implies(g, 'not self.elementwise_affine') or \
                            s.m.implies(g, 'not self.track_running_stats')
                        ck.ob('sliced', reg is False or aff, h,
                              '%s is sliced by %s whenever it is registered'
                              % (base, nm), construct='%s.%s.%s' % (
                                  c, base, nm))
                        continue
                    for g2, m in value_leaves(ck, s, d[k]):
                        gg = f_and(g, g2)
                        if not feasible(s, gg) or m == NONE:
                            continue
                        at, on = mask_sources(ck, s, m)
                        reg = has_attr(gg, s, nm)
                        ok = at == {nm} if reg else not at and bool(on)
                        if ok and not at:
                            ok = all(o.replace('.shape[%d]' % k, '.size(%d)'
                                               % k) in (
                                base, '%s.size(%d)' % (base, k),
                                'ITE(self.affine, self.weight, '
                                'self.running_mean)',
                                'self.weight', 'self.running_mean',
                                'self.weight.size(%d)' % k) for o in on)
                        ck.ob('mask', ok, h, 'dimension %d of %s follows the'
                              ' mask of %s, and is whole when none is '
                              'registered' % (k, base, nm),
                              construct='%s.%s.%s' % (c, base, nm))
                for k in d:
                    ck.ob('no-other-slice', k in dims, h, 'no other dimension'
                          ' of %s is sliced' % base)
    for c in ('DynamicConv2d', 'BigNasConv2d', 'OFAConv2d'):
        check_conv(ck, c)


def check_conv(ck, c):
    s = ck.fn(c + '._get_dynamic_params_by_mutable_channels')
    lv = value_leaves(ck, s, ('sub', s.ret(), const(0), 0))
    groups1 = 'self.groups == 1'
    dw = 'self.groups == self.in_channels and self.in_channels == ' \
         'self.out_channels'
    seen = set()
    for g, x in lv:
        b, d = index_parts(x)
        ins, outs = (has_attr(g, s, n) for n in ('in_channels',
                                                 'out_channels'))
        if show(b) == 'weight' and not d:
            ck.ob('conv-whole', ins is False and outs is False, s,
                  'the kernel is only used whole when no channel mutable is '
                  'registered', construct=c)
            seen.add('whole')
            continue
        if s.m.implies(g, groups1) and show(b) == 'weight':
            at0, _ = mask_sources(ck, s, d.get(0, NONE))
            at1, _ = mask_sources(ck, s, d.get(1, NONE))
            ck.ob('conv-dense', set(d) == {0, 1} and at0 == {
                'out_channels'} and at1 == {'in_channels'}, s,
                'a dense kernel keeps the rows of the output mask and the '
                'columns of the input mask', construct=c)
            seen.add('dense')
        elif s.m.implies(g, dw) and show(b) == 'weight':
            at0, _ = mask_sources(ck, s, d.get(0, NONE))
            ck.ob('conv-depthwise', set(d) == {0} and at0 == {
                'out_channels'}, s, 'a depthwise kernel keeps the rows of '
                'the output mask', construct=c)
            seen.add('dw')
        else:
            at, _ = mask_sources(ck, s, x)
            txt = show(x)
            ck.ob('conv-group', at == {'out_channels', 'in_channels'} and
                  'self.groups' in txt, s, 'a grouped kernel is selected by '
                  'both masks group by group', construct=c)
            seen.add('group')
    ck.ob('conv-cases', {'dense', 'dw', 'group'} <= seen, s,
          'dense, depthwise and grouped convolutions are told apart [found '
          '%s]' % sorted(seen), construct=c)
    # order of the general product: output outer, input inner
    asr = [h for h in s.raises() if h.e.kind in ('assert', 'raise')]
    for nm in ('in_channels', 'out_channels'):
        hit = False
        for h in asr:
            ts = [h.e.value] if h.e.value is not None else []
            ts += [a for a in f_atoms(h.e.guard)]
            for t in ts:
                if t is None:
                    continue
                at, _ = mask_sources(ck, s, t)
                if nm in at and 'self.groups' in deep_show(ck, s, t):
                    hit = True
        ck.ob('conv-uniform', hit, s, 'groups keeping different numbers of '
              '%s are refused' % nm, construct=c + '.' + nm)
    lv = value_leaves(ck, s, ('sub', s.ret(), const(1), 0))
    for g, x in lv:
        if x == NONE:
            ck.ob('conv-bias-none', s.m.implies(g, 'self.bias is None') or
                  s.m.implies(g, 'bias is None'), s, 'the bias is only '
                  'dropped when there is none', construct=c)
            continue
        b, d = index_parts(x)
        if not d:
            ck.ob('conv-bias', has_attr(g, s, 'out_channels') is False, s,
                  'the bias follows the output mask', construct=c)
            continue
        at, _ = mask_sources(ck, s, d[0])
        ck.ob('conv-bias', show(b) in ('self.bias', 'bias') and at == {
            'out_channels'}, s, 'the bias follows the output mask',
            construct=c)
    # depthwise: the number of groups follows the channels
    f = ck.fn(c + '.forward')
    z = ck.fn(c + '.to_static_op')
    for h in op_calls(f, CONV):
        g = h.arg(6, 'groups')
        ok = g is not None
        if ok:
            for gd, x in value_leaves(ck, f, g):
                isdw = f.m.implies(gd, dw)
                ok = ok and (show(x) in ('x.size(1)', 'x.shape[1]') if isdw
                             else show(x) == 'self.groups' and
                             f.m.implies(gd, 'not (%s)' % dw))
        ck.ob('groups-forward', ok, h, 'a depthwise convolution has as many '
              'groups as it is given channels', construct=c)
        for i, nm in ((3, 'stride'), (5, 'dilation')):
            a = h.arg(i, nm)
            ck.ob('forward-' + nm, a is not None and show(a) == 'self.' + nm,
                  h, 'forward uses its own ' + nm, construct=c)
    for h in z.calls('self.static_op_factory(...)'):
        g = h.arg(None, 'groups')
        ok = g is not None
        if ok:
            for gd, x in value_leaves(ck, z, g):
                at, _ = mask_sources(ck, z, x)
                if at:
                    ok = ok and at <= {'in_channels', 'out_channels'} and \
                        z.m.implies(gd, dw)
                else:
                    ok = ok and show(x) == 'self.groups' and \
                        'self.groups' in deep_guard(ck, z, gd)
        ck.ob('groups-static', ok, h, 'the static depthwise convolution has '
              'as many groups as channels kept', construct=c)
        kw = dict(h.e.kwargs)
        ci = kw.get('in_channels')
        ck.ob('static-in', ci is not None and any(
            z.m.match('_w * _g', x) is not None for x in [ci]) and
            '.size(1)' in show(ci).replace('.shape[1]', '.size(1)'), h,
            'the static input width counts every group', construct=c)
        p = kw.get('padding')
        ck.ob('static-padding', p is not None and agree(
            ck, z, p, f, op_calls(f, CONV)[0].arg(4, "padding")), h,
            "the padding forward uses is exported",
            construct=c)


# ---------------------------------------------------------- constructors
TORCH = {
    'torch.nn.Conv2d': ('in_channels', 'out_channels', 'kernel_size',
                        'stride', 'padding', 'dilation', 'groups', 'bias',
                        'padding_mode'),
    'torch.nn.Linear': ('in_features', 'out_features', 'bias'),
    'torch.nn.BatchNorm': ('num_features', 'eps', 'momentum', 'affine',
                           'track_running_stats'),
    'torch.nn.SyncBatchNorm': ('num_features', 'eps', 'momentum', 'affine',
                               'track_running_stats', 'process_group'),
    'torch.nn.LayerNorm': ('normalized_shape', 'eps', 'elementwise_affine'),
}
# class -> (operator, names that must be carried over unchanged)
CTOR = {
    'DynamicLinear': 'torch.nn.Linear',
    'DynamicConv2d': 'torch.nn.Conv2d',
    'BigNasConv2d': 'torch.nn.Conv2d',
    'OFAConv2d': 'torch.nn.Conv2d',
    'FuseConv2d': 'torch.nn.Conv2d',
    'DynamicConv2dAdaptivePadding': 'torch.nn.Conv2d',
    'SparseGptConv2d': 'torch.nn.Conv2d',
    'SparseGptLinear': 'torch.nn.Linear',
    'GPTQConv2d': 'torch.nn.Conv2d',
    'GPTQLinear': 'torch.nn.Linear',
    'DynamicBatchNorm1d': 'torch.nn.BatchNorm',
    'DynamicBatchNorm2d': 'torch.nn.BatchNorm',
    'DynamicBatchNorm3d': 'torch.nn.BatchNorm',
    'SwitchableBatchNorm2d': 'torch.nn.BatchNorm',
    'DMCPBatchNorm2d': 'torch.nn.BatchNorm',
    'DynamicSyncBatchNorm': 'torch.nn.SyncBatchNorm',
    'DynamicLayerNorm': 'torch.nn.LayerNorm',
}
# kept by the choice, not by the attribute
CHOSEN = {'in_channels', 'out_channels', 'kernel_size', 'padding', 'groups',
          'in_features', 'out_features', 'num_features', 'normalized_shape',
          'bias', 'embed_dims', 'num_heads', 'head_dims'}
ALIAS = {'attn_drop_rate': ('attn_drop.p', 'attn_drop_rate'),
         'proj_drop_rate': ('proj_drop.p', 'proj_drop_rate'),
         'out_drop_rate': ('out_drop.p', 'out_drop_rate'),
         'qkv_bias': ('w_qs.bias', 'qkv_bias'),
         'proj_bias': ('proj.bias', 'proj_bias'),
         'qk_scale': ('scale', 'qk_scale'),
         'interpolation_type': ('_interpolation_type',),
         'align_corners': ('_align_corners',),
         'scale_factor': ('_scale_factor',),
         'in_channels': ('projection.in_channels', 'in_channels')}


def carried(ck, s, h, names, src, rule, c, chosen=()):
    """every constructor argument carries the attribute of the source"""
    pos = dict(zip(names, h.e.args))
    kw = dict(h.e.kwargs)
    for n in names:
        v = pos.get(n, kw.get(n))
        if n in chosen:
            if n != 'bias':
                ck.ob(rule, v is not None, h, '%s is given' % n,
                      construct='%s.%s' % (c, n))
            continue
        txt = deep_show(ck, s, v) if v is not None else ''
        al = ALIAS.get(n, ()) + (n,)
        ok = any(txt == '%s.%s' % (src, a) for a in al)
        if not ok and n.endswith('bias') and v is not None:
            ok = bias_flag(s, v, ['%s.%s' % (src, a) for a in al])
        ck.ob(rule, ok, h, '%s is carried over' % n, construct='%s.%s' % (
            c, n))


def bias_flag(s, v, srcs):
    """v is true exactly when the source has the bias"""
    for g, x in leaves(s, v):
        x = peel(x)
        for b in srcs:
            if x == TRUE and s.m.implies(g, b + ' is not None'):
                break
            if x == FALSE and s.m.implies(g, b + ' is None'):
                break
            if s.m.match('BOOL(%s is not None)' % b, x) is not None and \
                    g is True:
                break
            if show(x) in ('not (%s is None)' % b, '(not (%s is None))' % b,
                           '(%s is not None)' % b):
                break
        else:
            return False
    return True


def own_params(ck, name, skip=('init_cfg', 'self')):
    c = ck.cls(name)
    f = ck.prog.lookup(c, '__init__')
    return [p for p in f.params() if p not in skip]


def check_ctor(ck):
    n = 0
    for c, op in CTOR.items():
        s = ck.fn(c + '.convert_from', optional=True)
        if s is None:
            continue
        hs = s.calls('cls(...)')
        if not hs:
            continue
        for h in hs:
            n += 1
            carried(ck, s, h, TORCH[op], 'module', 'convert', c)
    ck.floor('convert_from constructors', n, 10)
    for c, op in CTOR.items():
        z = ck.fn(c + '.to_static_op', optional=True)
        if z is None:
            continue
        for h in z.calls('self.static_op_factory(...)'):
            names = TORCH[op]
            if c == 'DynamicSyncBatchNorm':
                names = names[:-1]
                pg = z.sets('_', 'process_group', 'self.process_group')
                pg += [1] if any(k == 'process_group' for k, _ in
                                 h.e.kwargs) else []
                ck.ob('static', bool(pg), z, 'the process group is kept',
                      construct=c + '.process_group')
            if c == 'DynamicConv2dAdaptivePadding':
                names = names[:-1]
            carried(ck, z, h, names, 'self', 'static', c, CHOSEN)
            b = dict(h.e.kwargs).get('bias')
            if 'bias' in names:
                ok = b is not None and b not in (TRUE, FALSE)
                if ok:
                    for g, x in leaves(z, b):
                        txt = show(f_show_atoms(g)) if False else fshow(g)
                        ok = ok and (x not in (TRUE, FALSE) or 'None' in txt)
                        if x == TRUE:
                            ok = ok and not pos_none(g)
                        if x == FALSE:
                            ok = ok and pos_none(g)
                ck.ob('static', ok, h, 'the static operator has a bias '
                      'exactly when there is one', construct=c + '.bias')
    # in-project and third-party operators
    for c, nm, op, extra in (
            ('DynamicMultiheadAttention', 'cls(...)', 'MultiheadAttention',
             ()),
            ('DynamicRelativePosition2D', 'cls(...)', 'RelativePosition2D',
             ()),
            ('DynamicInputResizer', 'cls(...)', 'InputResizer', ('size',))):
        s = ck.fn(c + '.convert_from')
        for h in s.calls(nm):
            carried(ck, s, h, [p for p in own_params(ck, op)
                               if p not in extra], 'module', 'convert', c)
        ck.need('convert-made', s.calls(nm), s, 'converting builds the '
                'dynamic operator')
        z = ck.fn(c + '.to_static_op')
        hs = z.calls('self.static_op_factory(...)') or z.calls(op + '(...)')
        ck.need('static-made', hs, z, 'exporting builds the static operator')
        for h in hs:
            names = [p for p in own_params(ck, op) if p not in extra]
            if c == 'DynamicMultiheadAttention':
                names = [p for p in names if p != 'input_dims']
            ch = CHOSEN | {'qkv_bias', 'proj_bias'}
            carried(ck, z, h, names, 'self', 'static', c, ch)


def pos_none(g):
    """the guard says a value is None"""
    if g is True or g is False:
        return False
    cs = conj(g)
    return any(x[0] == 'atom' and 'None' in show(x[1]) for x in cs)


# ---------------------------------------------------------- registration
SIZES = (
    ('DynamicLinear', 'in_features', 'self.in_features'),
    ('DynamicLinear', 'out_features', 'self.out_features'),
    ('DynamicConv2d', 'in_channels', 'self.in_channels'),
    ('DynamicConv2d', 'out_channels', 'self.out_channels'),
    ('BigNasConv2d', 'in_channels', 'self.in_channels'),
    ('BigNasConv2d', 'out_channels', 'self.out_channels'),
    ('OFAConv2d', 'in_channels', 'self.in_channels'),
    ('FuseConv2d', 'out_channels', 'self.out_channels'),
    ('DynamicBatchNorm2d', 'num_features', 'self.num_features'),
    ('DynamicSyncBatchNorm', 'num_features', 'self.num_features'),
    ('DynamicLayerNorm', 'num_features', 'self.normalized_shape[0]'),
    ('DynamicPatchEmbed', 'embed_dims', 'self.embed_dims'),
    ('DynamicMultiheadAttention', 'embed_dims', 'self.embed_dims'),
)


def lit(g, key):
    """guard with attr == <key> decided"""
    def fn(a):
        if a[0] == 'cmp' and a[1] in ('==',) and a[2] == ('param', 'attr') \
                and a[3][0] == 'const':
            return a[3][1] == key
        if a[0] == 'cmp' and a[1] == '==' and a[3] == ('param', 'attr') \
                and a[2][0] == 'const':
            return a[2][1] == key
        return a
    return f_map(g, fn)


def check_register(ck):
    for c, key, size in SIZES:
        s = ck.fn(c + '.register_mutable_attr')
        st = [h for h in s.items('self.mutable_attrs') if const(key) in
              list(s.m.forms(h.e.attr)) or h.e.attr == const(key)]
        ck.need('registers', st, s, '%s can be registered' % key)
        for h in st:
            ck.ob('registers-given', s.m.match('mutable', h.e.value)
                  is not None, h, 'the mutable given is the one used',
                  construct='%s.%s' % (c, key))
            ok = False
            for r in s.raises():
                if r.e.seq > h.e.seq:
                    continue
                txt = fshow(r.e.guard)
                if 'current_mask' in deep_guard(ck, s, r.e.guard) and \
                        size in deep_guard(ck, s, r.e.guard):
                    # nothing but the mismatch and reaching this place
                    ok = ok or mismatch(ck, s, r, h, size)
            ck.ob('registers-size', ok, h, 'a mutable whose mask does not '
                  'have the size of %s is refused' % size,
                  construct='%s.%s' % (c, key))
    for c in ('DynamicLinear', 'DynamicConv2d', 'BigNasConv2d', 'OFAConv2d',
              'DynamicBatchNorm2d', 'DynamicLayerNorm', 'DynamicPatchEmbed',
              'DynamicRelativePosition2D', 'DynamicMultiheadAttention',
              'DynamicSequential', 'DynamicInputResizer'):
        s = ck.fn(c + '.register_mutable_attr')
        st = s.items('self.mutable_attrs')
        cls = ck.cls(c)
        acc = accepted(ck, cls)
        keys = set()
        for h in st:
            for f in s.m.forms(h.e.attr):
                if f[0] == 'const':
                    keys.add(f[1])
        if acc is not None:
            ck.ob('registers-all', keys == acc, s, 'exactly the accepted '
                  'attributes can be registered [%s vs %s]' % (
                      sorted(keys), sorted(acc)))
        rs = [h for h in s.raises()]
        ck.ob('registers-unknown', bool(rs), s,
              'other attributes are refused')


def accepted(ck, cls):
    for k in ck.prog.mro(cls):
        if isinstance(k, Class):
            for n in k.node.body:
                t = n.targets[0] if isinstance(n, ast.Assign) else \
                    n.target if isinstance(n, ast.AnnAssign) else None
                if isinstance(t, ast.Name) and t.id == \
                        'accepted_mutable_attrs' and n.value is not None:
                    try:
                        return set(ast.literal_eval(n.value))
                    except Exception:
                        return None
    return None


def deep_guard(ck, s, g):
    return ' '.join(deep_show(ck, s, a) for a in f_atoms(g))


def mismatch(ck, s, r, h, size):
    """r fires whenever h is reached with a mask of another size"""
    g = s.m.skey(r.e.guard)
    hg = s.m.skey(h.e.guard)
    # atoms of the raise that compare the mask with the size
    for a in f_atoms(r.e.guard):
        t = deep_show(ck, s, a)
        if a[0] == 'cmp' and a[1] == '==' and 'current_mask' in t and \
                size in t:
            for k in f_atoms(g):
                pass
            want = f_and(hg, f_not(s.m.skey(('atom', a))))
            return f_implies(want, g)
    return False


# ------------------------------------------------------------ write back
def check_writeback(ck):
    for c in ('DynamicBatchNorm2d', 'DMCPBatchNorm2d',
              'DynamicSyncBatchNorm'):
        s = ck.fn(c + '.forward')
        for i, nm in ((1, 'running_mean'), (2, 'running_var')):
            w = s.calls('self.%s.masked_scatter_(_m, _v)' % nm)
            alt = s.items('self.' + nm)
            ck.iff('write-back', w + alt, s,
                   'self.training and self.track_running_stats',
                   'the updated running statistics are written back exactly '
                   'when they are tracked during training')
            for h in w:
                at, _ = mask_sources(ck, s, h.b['_m'])
                ck.ob('write-back-mask', at == {'num_features'}, h,
                      'to the channels that were used')
                for b in s.calls(FN + 'batch_norm(...)'):
                    ck.ob('write-back-value', agree(
                        ck, s, h.b['_v'], s, b.arg(i, nm)), h,
                        'and they are those the batch norm updated')
                    ck.ob('write-back-after', b.e.seq < h.e.seq, h,
                          'after the update')
        for b in s.calls(FN + 'batch_norm(...)'):
            tr = b.arg(5, 'training')
            ok = tr is not None
            if ok:
                for g, x in leaves(s, tr):
                    if s.m.implies(g, 'self.training'):
                        ok = ok and x in (TRUE,) or show(x) == 'self.training'
                    else:
                        ok = ok and x != TRUE
            ck.ob('bn-mode', ok, b, 'batch statistics are used when training')
            ck.ob('bn-eps', show(b.arg(7, 'eps') or NONE) == 'self.eps', b,
                  'forward uses its own eps')


# ---------------------------------------------------------------- kernel
def check_kernel(ck):
    s = ck.fn('dynamic_conv_mixins._get_current_kernel_pos')
    r = show(s.ret()).replace(' ', '')
    lv = [t for _, t in leaves(s, s.ret())]
    for t in lv:
        ok = t[0] == 'tuple' and len(t[1]) == 2
        ck.ob('kernel-pos', ok, s, 'the window has a start and an end')
        if ok:
            a = t[1][0]
            st = s.m.match('OR(_c - _o, _c // 2 - _o // 2)', a)
            ctr = ('(source_kernel_size >> 1)', '(source_kernel_size // 2)')
            off = ('(target_kernel_size >> 1)', '(target_kernel_size // 2)')
            x, y = show(a), show(t[1][1])
            good = x in ['(%s - %s)' % (p, q) for p in ctr for q in off] or \
                x in ('((source_kernel_size - target_kernel_size) // 2)',
                      '((source_kernel_size - target_kernel_size) >> 1)')
            ck.ob('kernel-centre', good, s, 'the window starts so that it is '
                  'centred')
            gy = y in ['((%s + %s) + 1)' % (p, q) for p in ctr for q in off]
            gy = gy or y in ('(%s + target_kernel_size)' % x,)
            gy = gy or y in ['(1 + (%s + %s))' % (p, q) for p in ctr
                             for q in off] + ['(%s + (%s + 1))' % (p, q)
                                              for p in ctr for q in off]
            ck.ob('kernel-width', gy, s, 'and has the target width')
    for c in ('BigNasConv2d', 'OFAConv2d'):
        s = ck.fn(c + '._get_dynamic_params_by_mutable_kernel_size')
        n = 0
        for x in list(s.m.deep(s.ret())):
            if x[0] != 'sub' or x[2][0] != 'tuple' or len(x[2][1]) != 4:
                continue
            a, b = x[2][1][2], x[2][1][3]
            if a[0] != 'slice' or (a[1] == NONE and a[2] == NONE):
                continue
            n += 1
            d2, d3 = deep_show(ck, s, a), deep_show(ck, s, b)
            ck.ob('kernel-square', d2 == d3, s, 'both kernel dimensions are '
                  'cut to the same window', construct=c)
            ck.ob('kernel-window', s.derives(a[1], '_get_current_kernel_pos('
                                             '...)') or '>>' in d2 or '//'
                  in d2, s, 'at the centre', construct=c)
        ck.need('kernel-cut', [1] * n, s, 'a smaller kernel is cut out of the'
                ' larger one')
        # the padding is that of the current kernel
        for g, p in value_leaves(ck, s, ('sub', s.ret(), const(1), 0)):
            reg = has_attr(g, s, 'kernel_size')
            txt = show(p)
            if reg is False or txt == 'self.padding':
                ck.ob('kernel-padding-own', txt == 'self.padding' and
                      not s.m.implies(g, "'kernel_size' in self.mutable_attrs "
                                      "and self.kernel_size_list is not None"),
                      s, 'without a kernel mutable the own padding is used',
                      construct=c)
                continue
            ck.ob('kernel-padding', 'kernel_size' in txt and (
                '>> 1' in txt or '// 2' in txt or '_get_same_padding' in
                txt), s, 'the padding keeps the output size of the current '
                'kernel', construct=c)
        # current choice is what decides
        cc = s.calls('self.get_current_choice(_m)') or \
            s.find(s.ret(), '_.current_choice')
        ck.need('kernel-choice', cc, s, 'the current choice of kernel size '
                'decides')
        g = ck.fn(c + '.get_dynamic_params')
        h = g.calls('self._get_dynamic_params_by_mutable_channels(_w, _b)')
        for x in h:
            ck.ob('kernel-then-channels', g.derives(
                x.b['_w'], 'self._get_dynamic_params_by_mutable_kernel_size('
                'self.weight)'), x, 'the channels are selected from the cut '
                'kernel', construct=c)
        r = ck.fn(c + '.register_mutable_attr')
        st = [x for x in r.items('self.mutable_attrs') if const(
            'kernel_size') in list(r.m.forms(x.e.attr))]
        ck.need('kernel-register', st, r, 'a kernel size can be registered')
        for x in st:
            ok = any(q.e.seq < x.e.seq and 'self.kernel_size' in deep_guard(
                ck, r, q.e.guard) for q in r.raises())
            ck.ob('kernel-register-max', ok, x, 'its largest choice must be '
                  'the kernel size of the operator', construct=c)
    # OFA: transformation chain
    s = ck.fn('OFAConv2d._get_dynamic_params_by_mutable_kernel_size')
    pos = s.calls('_get_current_kernel_pos(...)')
    mats = s.calls('self._get_trans_matrix_name(...)')
    lin = s.calls(FN + 'linear(_w, _m)')
    ck.need('ofa-linear', lin, s, 'the kernel is transformed')
    for h in lin:
        m = h.b['_m']
        ck.ob('ofa-matrix', any(
            x[0] == 'attr' and x[1] == SELF and isinstance(x[2], tuple)
            for x in s.m.forms(m)) or s.derives(m, 'getattr(self, _)'), h,
              'by the registered matrix')
    for p in pos:
        for m in mats:
            if p.e.loops != m.e.loops:
                continue
            a, b = p.arg(0, 'source_kernel_size'), m.arg(0, 'src')
            c, d = p.arg(1, 'target_kernel_size'), m.arg(1, 'tar')
            ck.ob('ofa-pair', a is not None and b is not None and seq(a, b)
                  and c is not None and d is not None and seq(c, d), p,
                  'the matrix between two sizes is used for the cut between '
                  'the same two sizes')
    r = ck.fn('OFAConv2d._register_trans_matrix')
    a = r.calls('self._get_trans_matrix_name(...)')
    ck.need('ofa-register', a, r, 'every step has a matrix')
    for x in a:
        for y in mats:
            for i, nm in ((0, 'src'), (1, 'tar')):
                p, q = x.arg(i, nm), y.arg(i, nm)
                ck.ob('ofa-names', p is not None and q is not None and
                      shape(p) == shape(q), x, 'the steps registered are the '
                      'steps taken')


def shape(t):
    import re
    return re.sub(r'<[^>]*>|#\d+|L\d+', '', show(t))


# ------------------------------------------------------------- sequential
def check_sequential(ck):
    s = ck.fn('DynamicSequential.forward')
    z = ck.fn('DynamicSequential.to_static_op')
    ign = 'isinstance(_m, self.forward_ignored_module)'
    run = [h for h in s.kind('call') if h.e.func[0] in ('elem', 'loopvar') or
           (h.e.loops and h.e.args and h.e.func[0] != 'global' and any(
               x[0] in ('loopvar',) or x == ('param', 'x')
               for x in h.e.args[:1]))]
    app = [h for h in z.kind('call') if h.e.func[0] == 'attr' and h.e.func[2]
           in ('append', 'add_module') and h.e.loops]
    ck.need('seq-run', run, s, 'the modules kept are applied')
    ck.need('seq-keep', app, z, 'the modules kept are exported')
    # stop condition: counter > depth
    for q, hs, nm in ((s, run, 'forward'), (z, app, 'export')):
        for h in hs:
            txt = deep_guard(ck, q, h.e.guard)
            stop = [c for c in conj(h.e.guard)] if h.e.guard is not True \
                else []
            brk = [b for l in h.e.loops for b in q.E.loops[l]['breaks']]
            alltxt = txt + ' '.join(show_any(b) for b in brk)
            ck.ob('seq-depth', 'current_choice' in deep_all(ck, q, h) or
                  'mutable_depth' in deep_all(ck, q, h), h,
                  '%s stops at the current depth' % nm)
    a = sorted(stop_form(ck, s, run[0])) if run else []
    b = sorted(stop_form(ck, z, app[0])) if app else []
    ck.ob('seq-same-stop', bool(a) and a == b, z, 'both stop after the same '
          'number of modules [%s | %s]' % (a, b))
    for q in (s, z):
        ok = any('forward_ignored_module' in show(x) for e in q.ev
                 for x in f_atoms(e.guard)) or any(
            'forward_ignored_module' in show(x) for e in q.ev
            if e.kind == 'call' for x in [e.term])
        ok = ok or 'pure_modules' in ' '.join(
            show(q.E.loops[l]['raw'] or q.E.loops[l]['iter'])
            for l in q.E.loops if q.E.loops[l]['iter'] is not None)
        ck.ob('seq-ignored', ok, q, 'mutables held by the container are not '
              'counted as modules')
    p = ck.fn('DynamicSequential.pure_modules')
    ys = p.yields()
    ck.ob('seq-pure', bool(ys) and all(h.guard_is('not isinstance(_m, self.'
                                                  'forward_ignored_module)')
                                       for h in ys), p,
          'exactly the modules that are not mutables are run')


def show_any(b):
    try:
        return fshow(b[0]) if isinstance(b, tuple) else str(b)
    except Exception:
        return str(b)


def deep_all(ck, q, h):
    out = deep_guard(ck, q, h.e.guard)
    for l in h.e.loops:
        for b in q.E.loops[l]['breaks']:
            out += ' ' + (deep_guard(ck, q, b) if isinstance(b, tuple) and b
                          and b[0] in ('atom', 'not', 'and', 'or')
                          else show_any(b))
    return out


def offset(q, t):
    """constant added to a counter that starts at zero"""
    k = 0
    while True:
        if t[0] == 'bin' and t[1] in ('Add', 'Sub') and t[3][0] == 'const' \
                and isinstance(t[3][1], int):
            k += t[3][1] if t[1] == 'Add' else -t[3][1]
            t = t[2]
        elif t[0] == 'bin' and t[1] == 'Add' and t[2][0] == 'const' and \
                isinstance(t[2][1], int):
            k += t[2][1]
            t = t[3]
        elif t[0] == 'loopvar' and t[3][0] == 'const' and \
                isinstance(t[3][1], int):
            return k + t[3][1]
        else:
            return k


def stop_form(ck, q, h):
    """comparisons between a counter and the depth in the stop condition"""
    out = set()
    gs = [h.e.guard]
    for l in h.e.loops:
        gs += [b for b in q.E.loops[l]['breaks'] if isinstance(b, tuple)]
    for g in gs:
        for a in f_atoms(g):
            if a[0] != 'cmp' or a[1] not in ('<', '<=', '>', '>='):
                continue
            l, r = a[2], a[3]
            dl, dr = deep_show(ck, q, l), deep_show(ck, q, r)
            ld = 'depth' in dl or 'current_choice' in dl
            rd = 'depth' in dr or 'current_choice' in dr
            if ld == rd:
                continue
            op = a[1]
            if ld:
                op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
            # runs while base + k <= depth, i.e. base < depth - k + 1
            ctr, dep = (r, l) if ld else (l, r)
            k = offset(q, ctr) - offset(q, dep)
            out.add((1 if op in ('>', '<=') else 0) - k)
    return out


# -------------------------------------------------------------- attention
def check_attention(ck):
    s = ck.fn('DynamicMultiheadAttention.forward')
    z = ck.fn('DynamicMultiheadAttention.to_static_op')
    fw = {}
    for h in s.calls(FN + 'linear(_x, _w, _b)'):
        for k in ('weight', 'bias'):
            t = table(ck, s, h.b['_w' if k == 'weight' else '_b'])
            for w in ('w_qs', 'w_ks', 'w_vs', 'proj'):
                if any('self.%s.' % w in x for x in t):
                    fw.setdefault((w, k), []).append(
                        (h, h.b['_w' if k == 'weight' else '_b']))
    for w in ('w_qs', 'w_ks', 'w_vs', 'proj'):
        for k in ('weight', 'bias'):
            f = fw.get((w, k), [])
            st = [Hit(z, e, {}) for e in z.ev if e.kind == 'setattr' and
                  e.attr == k and e.base[0] == 'attr' and e.base[2] == w and
                  e.base[1] != SELF]
            ck.ob('mha-used', bool(f), s, '%s.%s is used by forward' % (w, k))
            ck.ob('mha-export', bool(st), z, '%s.%s is exported' % (w, k))
            for a in st:
                for h, t in f:
                    ck.ob('mha-same', agree(ck, s, t, z, a.e.value,
                                            ('None',)), a,
                          'the exported %s.%s is what forward computes with' %
                          (w, k))
    # slices
    for m, out, inn in (('_get_dynamic_qkv_params', 'q_embed_dims',
                         'embed_dims'),
                        ('_get_dynamic_proj_params', 'embed_dims',
                         'q_embed_dims')):
        q = ck.fn('DynamicMultiheadAttention.' + m)
        for i, nm in ((0, 'weight'), (1, 'bias')):
            for g, x in value_leaves(ck, q, ('sub', q.ret(), const(i), 0)):
                if x == NONE:
                    continue
                b, d = index_parts(x)
                ck.ob('mha-tensor', show(b) == 'w.' + nm, q,
                      'the %s asked for is sliced' % nm)
                for k, want in ((0, out), (1, inn)):
                    if k not in d:
                        continue
                    at, _ = mask_sources(ck, q, d[k])
                    ck.ob('mha-slice', at <= {want} and d[k][0] == 'slice'
                          and d[k][1] in (NONE, const(0)), q,
                          'dimension %d follows %s' % (k, want),
                          construct='%s.%s.%d' % (m, nm, k))
                if d and nm == 'weight':
                    ck.ob('mha-both', set(d) == {0, 1}, q,
                          'both dimensions are sliced')
    heads = z.calls('OR(MultiheadAttention(...), self.static_op_factory(...))'
                    )
    for h in heads:
        for nm, key, at in (('embed_dims', 'embed_dims',
                             'activated_channels'),
                            ('num_heads', 'num_heads', 'current_choice')):
            v = h.arg(None, nm)
            ck.ob('mha-heads', v is not None and z.m.match(
                "OR(self.mutable_%s.%s, self.mutable_attrs['%s'].%s)" % (
                    key, at, key, at), v) is not None, h,
                'the static attention has the current %s' % nm)
    for n in ('rel_pos_embed_k', 'rel_pos_embed_v'):
        st = z.sets('_', n, 'self.%s.to_static_op()' % n)
        ck.iff('mha-relative', [h for h in st if h.e.base != SELF], z,
               'self.relative_position', 'the relative positions are '
               'exported')
    # relative position
    s = ck.fn('DynamicRelativePosition2D.forward')
    z = ck.fn('DynamicRelativePosition2D.to_static_op')
    r = s.ret()
    for ax in 'vh':
        nm = 'embeddings_table_' + ax
        st = [h for h in z.sets('_', nm) if h.e.base != SELF]
        ck.need('rel-export', st, z, 'both tables are exported')
        for h in st:
            t = peel(resolver(ck, z)(h.e.value, z))
            b, d = index_parts(t)
            at, _ = mask_sources(ck, z, d.get(1, NONE))
            ck.ob('rel-table', show(b) == 'self.' + nm and set(d) == {1} and
                  at == {'head_dims'}, h, 'each table is cut to the current '
                  'head dimension')
        f = [x for x in s.m.deep(r) if x[0] == 'sub' and 'embeddings_table_'
             + ax in deep_show(ck, s, x[1]) and x[1][0] != 'param']
        f = [x for x in f if index_parts(x[1])[0] != x[1] or
             'sample' in show(x[1])]
        ok = False
        for x in f:
            base = deep_show(ck, s, x[1])
            ix = deep_show(ck, s, x[2])
            if ('distance' in ix or '//' in ix or '%' in ix):
                v = '//' in ix.split('clamp')[1] if 'clamp' in ix else '//' \
                    in ix
                hz = ' % ' in ix
                if ('embeddings_table_%s[' % ax) in base:
                    ok = ok or (hz if ax == 'h' else not hz)
                    at, _ = mask_sources(ck, s, x[1])
                    ck.ob('rel-forward', at == {'head_dims'}, s, 'forward '
                          'cuts each table to the current head dimension')
        ck.ob('rel-axis', ok, s, 'each table is indexed by the distance '
              'along its own axis', construct='axis.' + ax)


# --------------------------------------------------------------- others
def check_others(ck):
    s = ck.fn('SwitchableBatchNorm2d.forward')
    z = ck.fn('SwitchableBatchNorm2d.to_static_op')
    full = '_n == self.num_features'
    a = [h for h in s.kind('call') if s.m.match(
        'self.candidate_bn[str(_n)]', h.e.func) is not None]
    ck.need('switch-run', a, s, 'the batch norm of the current width is run')
    b = [h for h in z.returns() if len(h.e.frames) == 1]
    cand = []
    for h in b:
        for g, t in leaves(z, h.e.value, h.e.guard):
            if z.m.match('self.candidate_bn[str(_n)]', t) is not None:
                cand.append((g, t))
                ck.ob('switch-guard', not z.m.implies(g, full.replace(
                    '_n', '_')) and 'num_features' in deep_guard(ck, z, g),
                    h, 'the full width keeps the own statistics')
    ck.ob('switch-export', bool(cand), z, 'the batch norm of the current '
          'width is exported')
    for h in a:
        for g, t in cand:
            ck.ob('switch-same', deep_show(ck, s, h.e.func) == deep_show(
                ck, z, t), h, 'and it is the one forward runs')
        ck.ob('switch-guard', 'num_features' in deep_guard(ck, s, h.e.guard),
              h, 'the full width uses the own statistics')
    i = ck.fn('SwitchableBatchNorm2d.init_candidates')
    mk = i.calls('torch.nn.BatchNorm2d(...)')
    st = i.items('self.candidate_bn')
    ck.need('switch-make', mk, i, 'candidates are made')
    for h in mk:
        names = ('num_features', 'eps', 'momentum', 'affine',
                 'track_running_stats')
        pos = dict(zip(names, h.e.args))
        pos.update(dict(h.e.kwargs))
        for n in names[1:]:
            ck.ob('switch-settings', show(pos.get(n, NONE)) == 'self.' + n, h,
                  'candidates share the settings of the operator',
                  construct='candidate.' + n)
        for e in st:
            ck.ob('switch-key', i.m.match('str(_n)', e.e.attr, ) is not None
                  and show(i.m.match('str(_n)', e.e.attr)['_n']) == show(
                      pos.get('num_features', NONE)), e,
                  'a candidate is stored under its width')
    ac = ck.fn('SwitchableBatchNorm2d.activated_channel_num')
    at, _ = mask_sources(ck, ac, ac.ret())
    ck.ob('switch-width', at == {'num_features'}, ac,
          'the width is that of the current mask')
    # resizer
    s = ck.fn('DynamicInputResizer.forward')
    z = ck.fn('DynamicInputResizer.to_static_op')
    f = s.find(s.ret(), '_')
    ok = 'mutable_attrs' in deep_show(ck, s, s.ret()) or any(
        "mutable_attrs['shape'].current_choice" in deep_show(ck, s, a)
        for h in s.calls('super().forward(...)') for a in h.e.args) or any(
        "mutable_attrs['shape'].current_choice" in deep_show(
            ck, s, e.value) for e in s.ev if e.kind == 'setattr' and
        e.attr == '_size')
    ck.ob('resize-forward', ok, s, 'inputs are resized to the current shape')
    st = [h for h in z.sets('_', '_size') if h.e.base != SELF]
    ck.ob('resize-export', bool(st) and all(
        "mutable_attrs['shape'].current_choice" in deep_show(
            ck, z, h.e.value) for h in st), z,
        'and so does the exported operator')
    # get_current_choice
    s = ck.fn('DynamicMixin.get_current_choice')
    ck.ob('choice-none', any(h.when('mutable.current_choice is None')
                             for h in s.raises()), s,
          'an operator cannot run without a choice')
    ck.ob('choice-value', s.m.match('mutable.current_choice', s.ret())
          is not None, s, 'the current choice is what is used')
    # patch embedding
    z = ck.fn('DynamicPatchEmbed.to_static_op')
    s = ck.fn('DynamicPatchEmbed.forward')
    ck.ob('embed-norm', bool(z.sets('_', 'norm', 'self.norm')), z,
          'the norm of the patch embedding is exported')
    n = [h for h in s.calls('self.norm(_)')]
    ck.iff('embed-norm-run', n, s, 'self.norm is not None',
           'and applied when present')
    for h in s.calls(FN + 'conv2d(...)'):
        for i, nm in ((3, 'stride'), (4, 'padding'), (5, 'dilation')):
            v = h.arg(i, nm)
            ck.ob('embed-' + nm, v is not None and show(v) ==
                  'self.projection.' + nm, h, 'forward projects with its own '
                  + nm)
    for h in z.calls('self.static_op_factory(...)'):
        cfg = h.arg(None, 'conv_cfg')
        txt = deep_show(ck, z, cfg) if cfg is not None else ''
        for nm in ('kernel_size', 'stride', 'padding', 'dilation'):
            ck.ob('embed-static', 'self.projection.' + nm in txt or
                  'projection.' + nm in txt, h, 'the %s of the projection is '
                  'exported' % nm, construct='projection.' + nm)
    # fuse conv
    s = ck.fn('FuseConv2d.set_forward_args')
    put = [Hit(s, e, {}) for e in s.ev if e.kind == 'setattr' or (
        e.kind == 'call' and e.func == ('global', 'setattr'))]
    ok = False
    for h in put:
        v = h.e.value if h.e.kind == 'setattr' else h.e.args[2]
        nm = h.e.attr if h.e.kind == 'setattr' else h.e.args[1]
        nm = nm[1] if isinstance(nm, tuple) and nm[0] == 'const' else nm
        ok = ok or (nm == '_get_dynamic_params_by_mutable_channels' and
                    'choice=choice' in show(v))
    ck.ob('fuse-choice', ok, s, 'the fused kernel uses the choice it is given'
          )
    q = ck.fn('FuseConv2d._get_dynamic_params_by_mutable_channels_choice')
    for i, nm in ((0, 'weight'), (1, 'bias')):
        for g, x in value_leaves(ck, q, ('sub', q.ret(), const(i), 0)):
            txt = show(x)
            if txt in ('weight', 'bias'):
                continue
            if x == NONE or txt == 'self.bias':
                ck.ob('fuse-bias-none', q.m.implies(g, 'self.bias is None'),
                      q, 'the bias is only dropped when there is none')
                continue
            ck.ob('fuse-' + nm, 'choice' in txt and 'self.' + nm in txt, q,
                  'the %s is fused by the choice' % nm)


def check(ck):
    ck.sections(check_fixed, check_agree, check_masks, check_ctor,
                check_register, check_writeback, check_kernel,
                check_sequential, check_attention, check_others)
