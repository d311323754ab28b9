"""C12 channel units keep connected layers at one common width."""
import itertools

from .common import *
from .c11 import all_sub
from .c10 import flat

DYN = 'isinstance(_x.module, DynamicChannelMixin)'


def units(ck):
    return concrete(ck, ck.cls('MutableChannelUnit'))


def both_sides(s, lid):
    """the loop visits all producers and consumers"""
    L = s.E.loops[lid]
    return whole(s, lid) and over(s, lid, 'self.input_related') and over(
        s, lid, 'self.output_related')


def sides_of(s, hits):
    got = set()
    for h in hits:
        for l in h.e.loops:
            if not whole(s, l):
                continue
            for k in ('input_related', 'output_related'):
                if over(s, l, 'self.' + k):
                    got.add(k)
    return got


def check_register(ck):
    s = ck.fn('MutableChannelUnit._register_mutable_channel')
    hits = s.calls('_c.register_mutable(...)')
    ck.need('registered', hits, s, 'the searchable channel of a unit is '
            'registered')
    ck.ob('register-both', sides_of(s, hits) == {
        'input_related', 'output_related'}, s, 'producers and consumers '
        'receive the searchable channel of their unit')
    kinds = set()
    fs = []
    for h in hits:
        ch = None
        g = s.m.norm(h.e.guard)
        for x in [y for l in h.e.loops for y in [s.E.loops[l]]]:
            pass
        for lf, c in leaves(s, h.b['_c'], h.e.guard):
            b = s.m.match('_x.module.get_mutable_attr(_k)', c)
            if b is None or b['_k'][0] != 'const':
                ck.ob('register-container', False, h, 'the channel goes '
                      'into the container of the layer')
                continue
            ch = b['_x']
            k = b['_k'][1]
            out = [a for a in f_atoms(s.m.norm(lf)) if s.m.match(
                '_x.is_output_channel', a) is not None and same(
                    s, a[1], ch)]
            want = k == 'out_channels'
            for r in s.kind('raise'):
                if r.e.seq < h.e.seq and r.e.loops == h.e.loops:
                    lf = f_and(lf, f_not(r.e.guard))
            ok = bool(out) and k in ('in_channels', 'out_channels') and \
                f_equiv(case(s, lf, {
                    '_x.is_output_channel': not want,
                    '_x.is_output_channel is False': want,
                    '_x.is_output_channel is True': not want,
                    '_x.is_output_channel == False': want,
                    '_x.is_output_channel == True': not want}), False)
            ck.ob('register-side', ok, h, 'producers are narrowed at their '
                  'output, consumers at their input [%s]' % k)
            kinds.add(k)
        if ch is None:
            continue
        C = show(strip(ch))
        m = h.arg(0, 'mutable_channel')
        st, en = h.arg(1, 'start'), h.arg(2, 'end')
        for what, t, f in (('start', st, 'start'), ('end', en, 'end')):
            ck.ob('register-range', t is not None and (
                at(s, t, ch, f) or at(s, t, ch, ('index', f == 'end'))), h,
                'a layer is given the channel for exactly its own range '
                '[%s]' % what)
        for lf, x in leaves(s, m, h.e.guard):
            eq = [a for a in f_atoms(s.m.norm(lf)) if a[0] == 'cmp' and
                  any(y[0] == 'attr' and y[2] == 'num_channels'
                      for y in all_sub(a))]
            P = {'_x.num_channels == self.num_channels': True}
            if s.m.match('mutable_channel', x) is not None:
                ck.ob('same-width', case(s, lf, {
                    '_x.num_channels == self.num_channels': False}) is False,
                    h, 'the channel itself is shared by layers of the '
                    'width of the unit')
                continue
            b = s.m.match('mutable_channel.expand_mutable_channel(_r)', x)
            ck.ob('expanded', b is not None, h, 'a wider layer follows the '
                  'channel of its unit')
            if b is None:
                continue
            for rg, r in leaves(s, b['_r'], lf):
                ok = any(b is not None and at(
                    s, b['_n'], ch, 'num_channels') for b in (
                        s.m.match(p, r) for p in (
                            '_n // self.num_channels',
                            '_n / self.num_channels',
                            'int(_n / self.num_channels)')))
                ck.ob('expand-ratio', ok, h, 'a wider layer has a whole '
                      'number of channels per channel of the unit')
        fs.append(h)
    ck.ob('register-sides', kinds == {'in_channels', 'out_channels'}, s,
          'both inputs and outputs are covered')
    # reached for every dynamic layer unless an equal one exists
    D = {DYN: True, '_x.is_output_channel': True,
         '_x.module.get_mutable_attr(_) is None': False}
    for eq in (True, False):
        for isout in (True, False):
            d = dict(D)
            d['_x.is_output_channel'] = isout
            d['_x.num_channels == self.num_channels'] = eq
            d['self.num_channels < _x.num_channels'] = True
            d['(_a, _b) in _c.mutable_channels'] = False
            d['_i in _c.mutable_channels'] = False
            f = f_or(*[case(s, h.e.guard, d) for h in hits])
            ck.ob('register-when', f is True, s, 'a layer without the '
                  'channel receives it [output=%s, same width=%s: %s]' % (
                      isout, eq, fshow(f)))
    d = {DYN: False}
    ck.ob('register-dynamic', all(case(s, h.e.guard, d) is False
                                  for h in hits), s,
          'only dynamic layers hold searchable channels')
    # a narrower layer is refused
    r = f_or(*[h.e.guard if h.e.kind == 'raise' else f_not(h.e.value[1])
               for h in s.raises()])
    d = {DYN: True, '_x.num_channels == self.num_channels': False,
         'self.num_channels < _x.num_channels': False,
         '_x.module.get_mutable_attr(_) is None': False}
    ck.ob('narrow-refused', case(s, r, d) is True, s, 'a layer narrower than '
          'its unit is refused')


def at(s, t, ch, f):
    for x in s.m.forms(t):
        if isinstance(f, tuple):
            b = s.m.match('_x.index[%d]' % (1 if f[1] else 0), x)
        else:
            b = s.m.match('_x.' + f, x)
        if b is not None and same(s, b['_x'], ch):
            return True
    return False


def check_containers(ck):
    s = ck.fn('MutableChannelUnit._register_channel_container')
    hits = s.calls('_m.register_mutable_attr(...)')
    for k in ('in_channels', 'out_channels'):
        mine = [h for h in hits if h.arg(0, 'attr') == const(k) or (
            h.e.args and h.e.args[0] == const(k))]
        good = [h for h in mine if h.e.loops and all(
            whole(s, l) for l in h.e.loops) and over(
                s, h.e.loops[0], 'model.modules()', 'model.named_modules()')]
        D = {'isinstance(_m, DynamicChannelMixin)': True,
             "_m.get_mutable_attr('%s') is None" % k: True,
             "_m.get_mutable_attr(_) is None": True,
             "_m.get_mutable_attr(_)": False}
        ck.ob('container-all', case(s, jointly(good) if good else False, D)
              is True, s, 'every dynamic layer gets a container for its %s'
              % k)
        for h in mine:
            v = h.e.args[1] if len(h.e.args) > 1 else NONE
            src = s.find(v, "_m.attr_mappings['%s']" % k) or s.find(
                v, '_m.' + k)
            other = 'out_channels' if k == 'in_channels' else 'in_channels'
            bad = s.find(v, "_m.attr_mappings['%s']" % other) or s.find(
                v, '_m.' + other)
            ck.ob('container-size', bool(src) and not bad and s.derives(
                v, 'container_class(...)'), h, 'the container of %s is '
                'sized for the %s of the layer' % (k, k))


def check_prepare(ck):
    n = 0
    for c in units(ck):
        f = ck.prog.lookup(c, 'prepare_for_pruning')
        if f is None:
            continue
        s = ck.fn(c.qual + '.prepare_for_pruning', opaque=(
            '_replace_with_dynamic_ops', '_register_channel_container',
            '_register_mutable_channel', '_get_valid_int_choice'))
        n += 1
        D = {'self.unit_predefined': False}

        def when(hits):
            return [h for h in hits if case(s, h.e.guard, D) is True]
        rp = when(s.calls('self._replace_with_dynamic_ops(model, _m)'))
        rc = when(s.calls('self._register_channel_container(model, _k)'))
        rm = when(s.calls('self._register_mutable_channel('
                          'self.mutable_channel)'))
        ck.need('prepare-replace', rp, s, 'preparing makes the layers of the '
                'unit dynamic')
        ck.need('prepare-containers', rc, s, 'preparing gives the layers '
                'channel containers')
        ck.need('prepare-register', rm, s, 'preparing registers the '
                'searchable channel of the unit with its layers')
        ck.order('prepare-order', rp, rc, s, 'containers are added once the '
                 'layers are dynamic')
        ck.order('prepare-order', rc, rm, s, 'the searchable channel is '
                 'registered once containers exist')
        for h in rp:
            for k, v in map_pairs(s, h.b['_m']):
                ck.ob('dynamic-kind', twin(ck, k, v), h, 'a layer is '
                      'replaced by its own dynamic kind [%s -> %s]' % (
                          show(k), show(v)))
    ck.floor('prepare_for_pruning', n, 5)


def map_pairs(s, t):
    out = []
    for f in s.m.forms(t):
        if f[0] == 'alloc' and f[1] == 'dict':
            out += [(k, v) for k, v in f[2] if k is not None]
    return out


TWINS = {'EngineSyncBatchNorm': 'SyncBatchNorm'}


def same_kind(a, b):
    a, b = a.strip('_').lower(), b.strip('_').lower()
    if a.endswith('xd') or b.endswith('xd'):
        a, b = [x[:-2] if x.endswith(('xd', '1d', '2d', '3d')) else x
                for x in (a, b)]
    return a == b


def twin(ck, k, v):
    if k[0] != 'global' or v[0] != 'global':
        return False
    want = k[1].split('.')[-1]
    want = TWINS.get(want, want)
    r = ck.prog.find_class(v[1].split('.')[-1])
    if not r:
        return True
    for x in ck.prog.mro(r[0]):
        nm = x.name if isinstance(x, Class) else str(x).split('.')[-1]
        if same_kind(nm, want):
            return True
    # the static counterpart it converts from
    f = ck.prog.lookup(r[0], 'static_op_factory')
    if f is not None:
        names = {dotted(x).split('.')[-1] for x in ast.walk(f.node)
                 if isinstance(x, (ast.Name, ast.Attribute)) and dotted(x)}
        if want in names:
            return True
    return False


def check_replace(ck):
    s = ck.fn('MutableChannelUnit._replace_with_dynamic_ops')
    cv = s.calls('dynamicop_map[type(_m)].convert_from(_m)')
    ck.need('converted', cv, s, 'a layer is converted into its dynamic kind')
    ck.ob('convert-both', sides_of(s, cv) == {'input_related',
                                              'output_related'}, s,
          'producers and consumers become dynamic')
    for h in cv:
        b = s.m.match('dynamicop_map[type(_a)].convert_from(_b)', h.e.term)
        ck.ob('convert-own', b is not None and same(s, b['_a'], b['_b']), h,
              'a layer is converted from itself')
        f = case(s, h.e.guard, {'isinstance(_x.module, nn.Module)': True,
                                'type(_m) in dynamicop_map': True})
        ck.ob('convert-when', f is True, h, 'every supported layer is '
              'converted')
    put = [h for h in s.calls('setattr(_o, _n, _v)') if s.derives(
        h.b['_v'], 'dynamicop_map[_].convert_from(_)')]
    for h in s.kind('setattr'):
        if isinstance(h.e.attr, tuple) and s.derives(
                h.e.value, 'dynamicop_map[_].convert_from(_)'):
            h.b['_n'] = h.e.attr
            put.append(h)
    if not put:
        put = [h for h in s.calls('_.replace_op(...)') + s.calls(
            'set_nested_module(...)')]
    ck.need('replaced', put, s, 'the dynamic layer takes the place of the '
            'layer in the model')
    for h in put:
        ck.ob('replace-name', s.derives(h.b['_n'], "_x.name") if '_n' in
              h.b else True, h, 'the dynamic layer takes the place of the '
              'layer under its own name')
        ck.ob('replace-when', f_equiv(case(s, h.e.guard, {
            'isinstance(_x.module, nn.Module)': True,
            'type(_m) in dynamicop_map': True}), True), h,
            'every converted layer is put into the model')
    upd = s.sets('_x', 'module')
    conv = [h for h in upd if any(s.derives(v, 'dynamicop_map[_].'
                                            'convert_from(_)')
                                  for _, v in leaves(s, h.e.value))]
    ck.ob('channel-module', bool(conv) and case(s, jointly(upd), {
        'isinstance(_x.module, nn.Module)': True}) is True, s,
        'the unit refers to the layers that are in the model')


def check_width(ck):
    """ratio / number to legal width"""
    s = ck.fn('make_divisible')
    # result derives value rounded to divisor and at least min_value
    r = s.ret()
    ck.ob('divisible', s.derives(r, '(_v // divisor) * divisor') or s.derives(
        r, 'divisor * (_v // divisor)') or s.derives(r, '_a - _a % divisor'),
        s, 'a width is a multiple of the divisor')
    mx = [x for x in s.m.deep(r) if x[0] == 'call' and x[1] ==
          ('global', 'max')]
    ck.ob('at-least-minimum', any(any(s.derives(a, 'min_value') for a in x[2])
                                  for x in mx), s, 'a width is at least the '
          'configured minimum')
    st = [x for x in s.m.deep(r) if x[0] == 'bin' and x[1] == 'Add' and
          s.m.match('divisor', x[3]) is not None or x[0] == 'bin' and
          x[1] == 'Add' and s.m.match('divisor', x[2]) is not None]
    ck.ob('round-up', bool(st) and any(
        s.derives(a, 'min_ratio') for x in s.m.deep(r) if x[0] == 'ite'
        for a in f_atoms(x[1])), s, 'a width is rounded up when rounding '
        'down loses too much')
    n = 0
    for c in units(ck):
        f = ck.prog.lookup(c, '_make_divisible')
        if f is None:
            continue
        s = ck.fn(c.qual + '._make_divisible', opaque=('make_divisible',))
        n += 1
        p = [x for x in f.params() if x != 'self'][0]
        hs = [h for h in s.calls('make_divisible(...)') if
              h.e.callee is None or h.e.callee.cls is None]
        for h in hs:
            for i, k, want in ((0, 'value', p), (1, 'divisor',
                                                 'self.divisor'),
                               (2, 'min_value', 'self.min_value'),
                               (3, 'min_ratio', 'self.min_ratio')):
                a = h.arg(i, k)
                if a is None:
                    a = h.arg(i)
                ck.ob('width-settings', a is not None and (s.m.match(
                    want, a) is not None or (i == 0 and s.derives(a, p))),
                    h, 'the configured %s decides the width' % k)
        ck.need('width', hs, s, 'widths respect the divisor')
        ck.ob('width-at-most', s.derives(s.ret(), 'min(...)') and s.derives(
            s.ret(), 'self.num_channels') and s.m.match(
            'min(_a, _b)', s.ret()) is not None, s,
            'a width is at most the number of channels')
        g = ck.fn(c.qual + '._ratio2num')
        q = [x for x in g.func.params() if x != 'self'][0]
        INT = 'isinstance(%s, int)' % q
        FLT = 'isinstance(%s, float)' % q
        for lf, x in leaves(g, g.ret()):
            if case(g, lf, {INT: True, FLT: False}) is True:
                ck.ob('number-kept', g.m.match(q, x) is not None, g,
                      'a requested number is taken as it is')
            elif case(g, lf, {INT: False, FLT: True}) is True:
                ok = g.m.match('max(1, int(self.num_channels * %s))' % q, x
                               ) is not None or (g.m.match(
                                   'max(_a, _b)', x) is not None and any(
                                   g.derives(y, 'self.num_channels') and
                                   g.derives(y, q) for y in x[2]) and any(
                                   y == const(1) for y in x[2]))
                ck.ob('ratio-width', ok, g, 'a requested ratio gives that '
                      'part of the channels, at least one')
        t = ck.fn(c.qual + '._num2ratio')
        q = [x for x in t.func.params() if x != 'self'][0]
        INT = 'isinstance(%s, int)' % q
        FLT = 'isinstance(%s, float)' % q
        for lf, x in leaves(t, t.ret()):
            if case(t, lf, {FLT: True, INT: False}) is True:
                ck.ob('ratio-kept', t.m.match(q, x) is not None, t,
                      'a ratio is taken as it is')
            elif case(t, lf, {FLT: False, INT: True}) is True:
                ck.ob('number-ratio', t.m.match(
                    '%s / self.num_channels' % q, x) is not None, t,
                    'a number is the ratio of the channels of the unit')
        v = ck.fn(c.qual + '._get_valid_int_choice', opaque=(
            '_make_divisible', '_ratio2num', '_make_divisible_info'))
        q = [x for x in v.func.params() if x != 'self'][0]
        ck.ob('valid-width', all(v.m.match(
            'self._make_divisible(self._ratio2num(%s))' % q, x) is not None
            for _, x in leaves(v, v.ret())), v,
            'a requested choice becomes a legal width')
    ck.floor('units', n, 5)


def check_choice(ck):
    """unit choice <-> searchable channel"""
    for c in units(ck):
        s = ck.fn(c.qual + '.current_choice=', opaque=(
            '_get_valid_int_choice', '_generate_mask', '_num2ratio'))
        p = [x for x in s.func.params() if x != 'self'][0]
        hs = s.sets('self.mutable_channel', 'current_choice')
        ck.always('choice-applied', hs, s, 'the choice of a unit is applied '
                  'to its searchable channel')
        for h in hs:
            for g, x in leaves(s, h.e.value):
                ok = s.derives(x, 'self._get_valid_int_choice(%s)' % p)
                ck.ob('choice-legal', ok, h, 'the channel receives the legal '
                      'width of the requested choice')
        r = ck.fn(c.qual + '.current_choice', opaque=('_num2ratio',))
        rd = r.ret()
        ck.ob('choice-read', all(r.derives(x, 'self.mutable_channel.'
                                           'current_choice') or r.derives(
            x, 'self.mutable_channel.activated_channels')
            for _, x in leaves(r, rd)), r, 'the choice of a unit is that of '
            'its searchable channel')
        f = ck.fn(c.qual + '.fix_chosen')
        q = [x for x in f.func.params() if x != 'self'][0]
        fx = f.calls('self.mutable_channel.fix_chosen(...)')
        ck.always('fixed', fx, f, 'fixing a unit fixes its channel')
        st = f.sets('self', 'current_choice') + f.sets(
            'self.mutable_channel', 'current_choice')
        d = {q + ' is None': False}
        ck.ob('fix-choice', bool(st) and f_or(*[case(
            f, h.e.guard, d) for h in st]) is True or any(f.derives(
                a, q) for h in fx for a in h.e.args), f,
            'a unit is fixed at the given choice')
        ck.not_after('fix-after-choice', st, fx, f, 'the choice is set '
                     'before the channel is fixed')
    for name in ('OneShotMutableChannelUnit', 'SlimmableChannelUnit'):
        s = ck.fn(name + '.current_choice=', opaque=(
            '_get_valid_int_choice', '_num2ratio'))
        p = [x for x in s.func.params() if x != 'self'][0]
        ck.ob('candidates-only', refuses(s, '%s not in self.candidate_choices'
                                         % p), s, 'only candidate choices '
              'are accepted')
        for g, x in [y for h in s.sets('self.mutable_channel',
                                       'current_choice') for y in leaves(
                s, h.e.value)]:
            ratio = s.derives(x, 'self._num2ratio(_)')
            D = {'self.is_num_mode': not ratio,
                 "self.choice_mode == 'number'": not ratio}
            ck.ob('choice-mode', case(s, g, {k: not v for k, v in D.items()})
                  is False, s, 'the channel receives a number or a ratio '
                  'as configured')
        pc = ck.fn(name + '._prepare_candidate_choices', opaque=(
            '_make_divisible', '_ratio2num', '_num2ratio',
            '_make_divisible_info'))
        r = pc.ret()
        q = [x for x in pc.func.params() if x != 'self'][0]
        ck.ob('candidates-sorted', pc.m.match('sorted(_)', r) is not None,
              pc, 'candidates are in ascending order')
        for g, x in leaves(pc, r[2][0] if r[0] == 'call' and r[2] else r):
            cs = listed(pc, x)
            num = case(pc, g, {'self.is_num_mode': True}) is not False
            el = 'ELEM(%s)' % q
            want = 'self._make_divisible(%s)' % el if num else \
                'self._num2ratio(self._make_divisible(self._ratio2num(%s)))' \
                % el
            ck.ob('candidates-legal', any(
                pc.m.match(want, y.value) is not None and y.every(g)
                for y in cs), pc,
                  'every candidate is made a legal width')
        i = ck.fn(name + '.__init__', opaque=('_prepare_candidate_choices',))
        cc = i.sets('self', 'candidate_choices')
        ck.always('candidates-kept', [h for h in cc if i.derives(
            h.e.value, 'self._prepare_candidate_choices(...)')], i,
            'the candidates of a unit are the legal ones')
        for end, ix in (('min', 0), ('max', -1)):
            e = ck.fn('%s.%s_choice' % (name, end))
            ck.ob('candidate-ends', e.m.match(
                'self.candidate_choices[%d]' % ix, e.ret()) is not None or
                e.m.match('%s(self.candidate_choices)' % end, e.ret())
                is not None, e, 'the %simum choice is the %simum candidate'
                % (end, end))
        sm = ck.fn(name + '.sample_choice')
        ck.ob('sample-candidate', all(in_candidates(sm, x)
                                      for _, x in leaves(sm, sm.ret())), sm,
              'a sampled choice is one of the candidates')
    s = ck.fn('SequentialMutableChannelUnit.sample_choice', opaque=(
        '_make_divisible', '_num2ratio'))
    for g, x in leaves(s, s.ret()):
        ok = s.derives(x, 'self._make_divisible(random.randint('
                       '1, self.num_channels))')
        ck.ob('sample-width', ok, s, 'a sampled width is legal')
        ratio = s.derives(x, 'self._num2ratio(_)')
        ck.ob('sample-mode', case(s, g, {'self.is_num_mode': ratio})
              is False or g is True, s, 'a sampled choice is a number or a '
              'ratio as configured')
    # L1: the strongest channels are kept
    m = ck.fn('L1MutableChannelUnit._generate_mask', opaque=(
        '_get_unit_norm',))
    q = [x for x in m.func.params() if x != 'self'][0]
    tk = m.calls('_n.topk(...)') + m.calls('torch.topk(...)')
    ok = False
    for h in tk:
        a = h.e.args[-1] if h.e.args else h.arg(name='k')
        lg = [v for k, v in h.e.kwargs if k == 'largest']
        ok = ok or (a is not None and m.derives(a, q) and lg in (
            [], [TRUE]) and m.derives(h.e.func[1] if h.e.func[1][0] !=
                                      'global' else h.e.args[0],
                                      'self._get_unit_norm()'))
    ck.ob('l1-strongest', ok, m, 'the channels with the largest norm stay')
    nrm = ck.fn('L1MutableChannelUnit._get_unit_norm')
    ls = [l for l in nrm.E.loops if over(nrm, l, 'self.output_related')]
    ck.ob('l1-all', bool(ls) and all(whole(nrm, l) for l in ls), nrm,
          'the norm takes all producers of the unit into account')


def in_candidates(s, x):
    for f in s.m.forms(x):
        if s.m.match('random.choice(self.candidate_choices)', f) is not None:
            return True
        b = s.m.match('self.candidate_choices[_i]', f)
        if b is not None:
            for k in ('random.randint(0, len(self.candidate_choices) - 1)',
                      'random.randrange(len(self.candidate_choices))',
                      'random.randrange(0, len(self.candidate_choices))'):
                if s.m.match(k, b['_i']) is not None:
                    return True
    return False


def check_predefined(ck):
    s = ck.fn('SequentialMutableChannelUnit.init_from_predefined_model')
    add = {}
    for side, k in (('output', 'out_channels'), ('input', 'in_channels')):
        hs = s.calls('_u.add_%s_related(_c)' % side)
        good = []
        for h in hs:
            cont = "_m.get_mutable_attr('%s')" % k
            ls = [l for l in h.e.loops if over(s, l, cont)]
            if not ls:
                # guarded duplicates of an inlined helper
                if case(s, h.e.guard, {}) is False:
                    continue
                ck.ob('predefined-side', False, h, 'a channel found at the '
                      '%s of a layer is a %s of its unit' % (side, side))
                continue
            ok = all(whole(s, l) for l in h.e.loops) and over(
                s, h.e.loops[0], 'model.named_modules()')
            ck.ob('predefined-all', ok, h, 'every channel of every dynamic '
                  'layer belongs to a unit')
            ch = [x for x in s.m.deep(h.b['_c']) if x[0] == 'call' and
                  x[1][0] == 'global' and x[1][1].endswith('.Channel')]
            ok = False
            for x in ch:
                nm = x[2][0] if x[2] else NONE
                md = x[2][1] if len(x[2]) > 1 else NONE
                ix = x[2][2] if len(x[2]) > 2 else NONE
                io = dict(x[3]).get('is_output_channel', x[2][4] if len(
                    x[2]) > 4 else TRUE)
                ok = s.m.match('ELEM(model.named_modules())[0]', nm) \
                    is not None and s.m.match(
                        'ELEM(model.named_modules())[1]', md) is not None \
                    and s.derives(ix, cont) and io == const(
                        side == 'output')
            ck.ob('predefined-channel', ok, h, 'the member records layer, '
                  'range and side')
            # the unit belongs to the mutable of that range (or its source)
            u = h.b['_u']
            ck.ob('predefined-unit', any(s.derives(x, cont)
                                         for x in [u]) and not s.derives(
                u, "_m.get_mutable_attr('%s')" % (
                    'in_channels' if side == 'output' else
                    'out_channels')) or s.derives(u, cont), h,
                'the member joins the unit of its searchable channel')
            D = {'isinstance(_m, DynamicChannelMixin)': True}
            if case(s, h.e.guard, D) is True:
                good.append(h)
        add[side] = good
        ck.need('predefined-' + side, good, s, 'every dynamic layer takes '
                'part with its %s' % side)
    for h in s.calls('cls.init_from_mutable_channel(_m)'):
        d = [x for g, x in leaves(s, h.b['_m'])]
        ck.ob('derived-source', any(s.derives(
            x, '_._trace_source_mutables()') for x in d) and len(d) > 1, h,
            'a derived channel belongs to the unit of its source')
        for g, x in leaves(s, h.b['_m']):
            if s.derives(x, '_._trace_source_mutables()'):
                ck.ob('derived-only', case(s, g, {
                    'isinstance(_c.mutable_channels[_], DerivedMutable)':
                    False, 'isinstance(_, DerivedMutable)': False})
                    is False, h, 'only derived channels are traced')
    for c in units(ck):
        f = ck.prog.lookup(c, 'init_from_mutable_channel')
        if f is None or f.cls is ck.cls('MutableChannelUnit'):
            continue
        i = ck.fn(c.qual + '.init_from_mutable_channel')
        ck.always('unit-channel', i.sets('_', 'mutable_channel',
                                         'mutable_channel'), i,
                  'a unit made for a searchable channel controls that '
                  'channel')
        ck.ob('unit-channel-size', i.derives(
            i.ret(), 'mutable_channel.num_channels') or any(i.derives(
                a, 'mutable_channel.num_channels') for h in i.calls(
                'cls(...)') for a in list(h.e.args) + [
                    v for _, v in h.e.kwargs]), i,
            'the unit has the size of its channel')


def check_members(ck):
    for side in ('output', 'input'):
        s = ck.fn('ChannelUnit.add_%s_related' % side)
        p = [x for x in s.func.params() if x != 'self'][0]
        ap = s.calls('self.%s_related.append(%s)' % (side, p))
        d = {p + '.is_output_channel': side == 'output',
             '%s in self.%s_related' % (p, side): False}
        d['%s.is_output_channel is False' % p] = side != 'output'
        d['%s.is_output_channel is True' % p] = side == 'output'
        ck.ob('member-added', bool(ap) and case(s, jointly(ap), d) is True,
              s, 'a new member joins the %s side of its unit' % side)
        other = 'input' if side == 'output' else 'output'
        ck.never('member-side', s.calls('self.%s_related.append(_)' % other),
                 s, 'a member joins one side only')
        R = refused(s)
        d2 = dict(d)
        for k in list(d2):
            if 'is_output_channel' in k:
                d2[k] = not d2[k]
        ck.ob('member-side-checked', case(s, R, d2) is True and case(
            s, R, d) is False, s, 'members of the wrong side are refused')
    s = ck.fn('ChannelUnit.init_from_channel_unit')
    for k in ('input_related', 'output_related'):
        ck.always('unit-members', s.sets('_', k, 'unit.' + k), s,
                  'a unit made from another one has the same members')
    ck.ob('unit-size', any(s.m.match('unit.num_channels', h.e.value)
                           is not None for h in s.items('args')) or any(
        (k == 'num_channels' and s.m.match('unit.num_channels', v)
         is not None or k is None and num_entry(s, v))
        for h in s.calls('cls(...)') for k, v in h.e.kwargs) or
        any(s.derives(a, 'unit.num_channels') for h in s.calls('cls(...)')
            for a in h.e.args), s, 'and the same size')


def num_entry(s, v):
    for f in s.m.forms(v):
        if f[0] == 'call' and any(
                k == 'num_channels' and s.m.match('unit.num_channels', x)
                is not None for k, x in f[3]):
            return True
        if f[0] == 'alloc' and f[1] == 'dict' and any(
                k == const('num_channels') and s.m.match(
                    'unit.num_channels', x) is not None for k, x in f[2]):
            return True
    return False


def template_entries(ck, name, kind):
    s = ck.fn(name + '.config_template')
    return s, entries(s, s.ret())


def const_key(e):
    return e.key[1] if e.key is not None and e.key[0] == 'const' else None


def check_config(ck):
    """written configuration <-> rebuilt unit"""
    s = ck.fn('Channel.config_template')
    wr = {const_key(e): e.value for e in entries(s, s.ret())}
    r = ck.fn('Channel.init_from_cfg')
    cs = [x for x in r.m.deep(r.ret()) if x[0] == 'call' and
          x[1][0] == 'global' and x[1][1].split('.')[-1] == 'Channel' or
          x[0] == 'call' and x[1] == ('param', 'cls')]
    for k, a in (('name', 'name'), ('start', 'start'), ('end', 'end'),
                 ('is_output_channel', 'is_output_channel')):
        v = wr.get(k)
        ck.ob('channel-written', v is not None and (
            s.m.match('self.' + a, v) is not None or s.m.match(
                'str(self.%s)' % a, v) is not None or (
                k in ('start', 'end') and s.m.match(
                    'self.index[%d]' % (k == 'end'), v) is not None)), s,
            'the %s of a member is written' % k)
        ck.ob('channel-read', any(r.derives(x, "config['%s']" % k)
                                  for x in cs), r,
              'the %s of a member is restored' % k)
    for x in cs:
        ix = x[2][2] if len(x[2]) > 2 else dict(x[3]).get('index', NONE)
        b = r.m.match("(config['start'], config['end'])", ix)
        ck.ob('channel-range', b is not None, r, 'the range of a member is '
              'restored in order')
    i = ck.fn('Channel.__init__')
    for k, n in (('start', 0), ('end', 1)):
        ck.always('channel-index', i.sets('self', k, 'index[%d]' % n), i,
                  'a member covers its range [%s]' % k)
    nc = ck.fn('Channel.num_channels')
    ck.ob('channel-size', nc.m.match('self.index[1] - self.index[0]',
                                     nc.ret()) is not None or nc.m.match(
        'self.end - self.start', nc.ret()) is not None, nc,
        'the width of a member is that of its range')
    # unit members
    d = ck.fn('ChannelUnit._channel_dict')
    w = {const_key(e): e for e in entries(d, d.ret())}
    u = ck.fn('MutableChannelUnit.init_from_cfg', opaque=(
        'Channel.init_from_cfg',)) if False else ck.fn(
        'SequentialMutableChannelUnit.init_from_cfg')
    for side in ('input', 'output'):
        k = side + '_related'
        e = w.get(k)
        ck.ob('members-written', e is not None and d.derives(
            e.value, 'ELEM(self.%s).config_template()' % k) and not any(
            x[0] == 'comp' and x[4] is not True for x in d.m.deep(
                e.value)), d, 'the %s members are written' % side)
        add = u.calls('_.add_%s_related(_)' % side)
        good = [h for h in add if h.e.loops and all(
            whole(u, l) for l in h.e.loops) and any(
                u.derives(u.E.loops[l]['iter'], "_['%s']" % k)
                for l in h.e.loops)]
        ck.need('members-restored', good, u, 'the %s members are restored'
                % side)
    ch = u.sets('_', 'current_choice', "config['choice']")
    ck.ob('choice-restored', bool(ch) and case(u, jointly(ch), {
        "'choice' in config": True}) is True, u, 'the written choice is '
        'restored')
    n = 0
    for c in units(ck):
        init = ck.prog.lookup(c, '__init__')
        t = ck.fn(c.qual + '.config_template')
        es = entries(t, t.ret())
        mine = [e for e in es if const_key(e) == 'choice']
        ck.ob('choice-written', any(f_equiv(t.m.skey(e.guard), True) and
                                    (t.derives(e.value, 'self.current_choice')
                                     ) for e in mine), t,
              'the choice of a unit is written', construct=c.qual)
        chs = [e for e in es if const_key(e) == 'channels']
        ck.ob('members-asked', any(case(t, e.guard, {
            'with_channels': True}) is True and t.derives(
            e.value, 'self._channel_dict()') for e in chs), t,
            'the members are written on request', construct=c.qual)
        ia = [e for e in es if const_key(e) == 'init_args']
        keys = {}
        for e in ia:
            if case(t, e.guard, {'with_init_args': True}) is not True:
                continue
            for x in entries(t, e.value):
                keys[const_key(x)] = x
        for x in t.ev:
            if x.kind == 'call' and x.func[0] == 'attr' and x.func[2] in (
                    'update', 'pop') and any(
                    y[0] == 'sub' and y[2] == const('init_args')
                    for y in t.m.forms(x.func[1])):
                if x.func[2] == 'pop':
                    keys.pop(x.args[0][1], None)
                else:
                    for y in [z for a in x.args for z in entries(t, a)]:
                        keys[const_key(y)] = y
                    for k, v in x.kwargs:
                        keys[k] = Entry(t, x.guard, const(k), v, (), None)
            if x.kind == 'setitem' and any(
                    y[0] == 'sub' and y[2] == const('init_args')
                    for y in t.m.forms(x.base)):
                keys[x.attr[1]] = Entry(t, x.guard, x.attr, x.value, (),
                                        None)
        n += 1
        params = [p for p in init.params() if p != 'self']
        star = init.node.args.kwarg is not None
        va = init.node.args.vararg
        for k in sorted(map(str, keys)):
            ck.ob('args-accepted', star or k in params, t, 'a written '
                  'argument is accepted when rebuilding [%s]' % k,
                  construct=c.qual)
        s0 = ck.func_summary(init, c)
        for p in params:
            if va is not None and p == va.arg or init.node.args.kwarg \
                    is not None and p == init.node.args.kwarg.arg:
                continue
            kept = [h for h in s0.sets('self', '_') if s0.m.match(
                p, h.e.value) is not None or s0.derives(h.e.value, p)]
            if not kept:
                continue
            e = keys.get(p)
            names = {h.e.attr for h in kept}
            ck.ob('args-written', e is not None and (any(t.m.match(
                'self.' + a, e.value) is not None for a in names)), t,
                'an argument that shapes the unit is written [%s]' % p,
                construct=c.qual)
    ck.floor('unit classes', n, 5)


def weak_orders(n):
    seen = set()
    for ranks in itertools.product(range(n), repeat=n):
        m = sorted(set(ranks))
        k = tuple(m.index(r) for r in ranks)
        if k not in seen:
            seen.add(k)
            yield k


def holds(f, val):
    """truth of a comparison formula under an ordering of terms"""
    if f is True or f is False:
        return f
    if f[0] == 'not':
        return not holds(f[1], val)
    if f[0] == 'and':
        return all(holds(x, val) for x in f[1])
    if f[0] == 'or':
        return any(holds(x, val) for x in f[1])
    a = f[1]
    if a[0] == 'cmp' and a[1] in ('<', '==', '<='):
        x, y = val.get(show(strip(a[2]))), val.get(show(strip(a[3])))
        if x is None or y is None:
            raise BrokenAnalysis('comparison of %s' % show(a))
        return x < y if a[1] == '<' else x == y if a[1] == '==' else x <= y
    raise BrokenAnalysis('not a comparison: %s' % show(a))


def check_ranges(ck):
    """containers hold disjoint ranges in order"""
    s = ck.fn('IndexDict.__contains__')
    lid = [l for l in s.E.loops if over(s, l, 'self.keys()', 'self')]
    F = None
    for l in lid:
        ck.ob('overlap-all', whole(s, l) or any(
            h.e.value == TRUE for h in s.returns()), s,
            'a range is compared with every range')
        for (k, nm), st in s.E.steps.items():
            if k == l:
                F = tform(s, st)
    for x in s.m.deep(s.ret()):
        if x[0] == 'call' and x[1] == ('global', 'any') and x[2]:
            for y in s.m.forms(x[2][0]):
                if y[0] == 'comp':
                    F = f_and(y[4], tform(s, y[2]))
    if F is None:
        F = f_or(*[h.e.guard for h in s.returns() if h.e.value == TRUE and
                   h.e.loops])
    names = {}
    for a in f_atoms(F):
        for x in all_sub(a):
            t = show(strip(x))
            if x[0] in ('sub',):
                names.setdefault(t, x)
    own = {0: None, 1: None}
    oth = {0: None, 1: None}
    for t, x in names.items():
        if x[2][0] == 'const' and x[2][1] in (0, 1):
            if any(y[0] == 'elem' for y in all_sub(x)):
                oth[x[2][1]] = t
            else:
                own[x[2][1]] = t
    if None in list(own.values()) + list(oth.values()):
        raise BrokenAnalysis('range comparison not recognised: %s' %
                             fshow(F))
    order = [own[0], own[1], oth[0], oth[1]]
    F = f_map(F, lambda a: False if a[0] == 'loopvar' else ('atom', a))
    F = strip_f(s, F)
    bad = None
    for k in weak_orders(4):
        val = dict(zip(order, k))
        a, b, c, d = k
        if not (a < b and c < d) or (a == c and b == d):
            continue
        if holds(F, val) != (a < d and c < b):
            bad = val
            break
    ck.ob('overlap-exact', bad is None, s, 'two ranges overlap exactly when '
          'each starts before the other ends%s' % (
              ' [wrong for %s]' % bad if bad else ''))
    w = ck.fn('IndexDict.__setitem__', opaque=('__contains__',))
    st = [h for h in w.kind('setitem') + w.calls('super().__setitem__(...)')]
    ck.need('range-stored', st, w, 'a range is stored')
    R = refused(w)
    inside = [a for a in f_atoms(R) if a[0] == 'cmp' and a[1] == 'in' and
              f_implies(('atom', a), w.m.norm(R) if False else R)]
    ck.ob('overlap-refused', bool(inside), w, 'an overlapping range is '
          'refused')
    o = ck.fn('IndexDict._sort', optional=True)
    if o is not None:
        ck.ob('ranges-sorted', bool(o.calls('sorted(self.items())')) and any(
            all(whole(o, l) for l in h.e.loops) and over(
                o, h.e.loops[0], 'sorted(_)') for h in o.calls(
                'super().__setitem__(...)') if h.e.loops), o,
            'ranges are kept in order')
        ck.ob('sorted-on-store', any(h.unconditional() for h in ck.fn(
            'IndexDict.__setitem__', opaque=('_sort',)).calls(
                'self._sort()')), w, 'storing a range keeps the order')


def strip_f(s, f):
    return f


def tform(s, t):
    for x in s.m.forms(t):
        pass
    try:
        return s.m.norm(s.E.formula(t))
    except Exception:
        return s.m.norm(('atom', t))


def check_container(ck):
    s = ck.fn('MutableChannelContainer.current_choice', opaque=(
        '_fill_unregistered_range', '_assert_mutables_valid'))
    n = 0
    for h in s.returns():
        cat = [x for x in s.m.deep(h.e.value) if x[0] == 'call' and
               x[1][0] == 'global' and x[1][1].split('.')[-1] in (
                   'cat', 'concat', 'hstack')]
        if not cat:
            ck.ob('empty-full', s.derives(
                h.e.value, 'torch.ones(...)') and s.derives(
                h.e.value, 'self.num_channels') and case(
                s, h.e.guard, {'self.mutable_channels': True})
                is False, h, 'without searchable channels all channels are '
                'active')
            continue
        n += 1
        for x in cat:
            ok = False
            for y in s.m.deep(x[2][0]):
                if y[0] == 'comp' and y[4] is True and s.m.match(
                        '_m.current_mask', y[2]) is not None and any(
                        over(s, l, 'self.mutable_channels') for l in y[3]):
                    ok = True
            for c in s.calls('_.append(_m.current_mask)'):
                if over(s, c.e.loops[0], 'self.mutable_channels') and whole(
                        s, c.e.loops[0]) and c.e.loops:
                    ok = True
            bad = [y for y in s.m.deep(x[2][0]) if y[0] == 'call' and
                   y[1][0] == 'global' and y[1][1] in ('reversed', 'sorted',
                                                       'set')]
            ck.ob('mask-concat', ok and not bad and not partial_slice(
                s, x[2][0]), h, 'the mask of a layer is made of the masks '
                'of its ranges in order')
        fl = s.calls('self._fill_unregistered_range()')
        va = s.calls('self._assert_mutables_valid()')
        ck.order('mask-filled', fl, [h], s, 'ranges without searchable '
                 'channel are filled first')
        ck.order('mask-valid', va, [h], s, 'the ranges are validated first')
        rd = [c for c in s.kind('call') if s.m.match(
            'self.mutable_channels.values()', c.e.term) is not None]
        if rd:
            ck.not_after('filled-before-read', fl, rd, s, 'the ranges are '
                         'read after filling')
    ck.need('mask', [1] * n, s, 'the mask joins the ranges') if not n \
        else None
    v = ck.fn('MutableChannelContainer._assert_mutables_valid')
    R = [h for h in v.raises()]
    gap = end = False
    for h in R:
        f = f_not(h.e.value[1]) if h.e.kind == 'assert' else h.e.guard
        for a in f_atoms(v.m.norm(f)):
            if a[0] != 'cmp' or a[1] != '==':
                continue
            if not f_implies(f_not(('atom', a)), v.m.norm(f)):
                continue
            sides = [a[2], a[3]]
            lv = [x for x in sides if x[0] == 'loopvar']
            if not lv:
                continue
            o = [x for x in sides if x[0] != 'loopvar'][0] if len(
                lv) == 1 else None
            st = v.E.steps.get((lv[0][2], lv[0][1]))
            isend = st is not None and v.m.match('_e[1]', st) is not None
            if not isend or lv[0][3] != const(0) or not whole(v, lv[0][2]):
                continue
            if h.e.loops and o is not None and v.m.match(
                    '_e[0]', o) is not None:
                gap = True
            if not h.e.loops and o is not None and v.m.match(
                    'self.num_channels', o) is not None:
                end = True
    ck.ob('ranges-contiguous', gap, v, 'the ranges of a layer leave no gap '
          'and do not overlap')
    ck.ob('ranges-complete', end, v, 'the ranges of a layer cover all its '
          'channels')
    f = ck.fn('MutableChannelContainer._fill_unregistered_range')
    rg = f.calls('self.register_mutable(_m, _a, _b)')
    inner = [h for h in rg if h.e.loops]
    tail = [h for h in rg if not h.e.loops]
    for h in rg:
        sz = f.find(h.b['_m'], 'SimpleMutableChannel(_n)')
        ok = bool(sz) and all(b['_n'][0] == 'bin' and b['_n'][1] == 'Sub' and
                              same(f, b['_n'][2], h.b['_b']) and same(
                                  f, b['_n'][3], h.b['_a'])
                              for _, b in sz)
        ck.ob('fill-size', ok, h, 'a filled range has its own size')
        ck.ob('fill-when', f_equiv(f.m.norm(h.e.guard), f.m.norm(
            ('atom', ('cmp', '<', h.b['_a'], h.b['_b'])))), h,
            'exactly the uncovered ranges are filled')
        st = f.E.steps.get((h.b['_a'][2], h.b['_a'][1])) if h.b['_a'][
            0] == 'loopvar' else None
        ck.ob('fill-from', st is not None and f.m.match('_e[1]', st)
              is not None and h.b['_a'][3] == const(0) and whole(
                  f, h.b['_a'][2]), h, 'a filled range starts where the '
              'previous one ends')
        if h in inner:
            ck.ob('fill-to', f.m.match('_e[0]', h.b['_b']) is not None, h,
                  'a filled range ends where the next one starts')
        else:
            ck.ob('fill-to', f.m.match('self.num_channels', h.b['_b'])
                  is not None, h, 'the last filled range ends with the '
                  'layer')
    ck.need('fill-inner', inner, f, 'gaps between ranges are filled')
    ck.need('fill-tail', tail, f, 'channels after the last range are filled')
    m = ck.fn('MutableChannelContainer.register_mutable')
    it = m.items('self.mutable_channels', '(start, end)', 'mutable_channel')
    ck.always('range-own', it, m, 'a channel is registered for its range')


def check_mutable(ck):
    s = ck.fn('SequentialMutableChannelUnit.is_mutable')
    r = s.ret()
    for k in ('input_related', 'output_related'):
        ck.ob('mutable-both', s.derives(r, 'self.' + k) or any(
            s.derives(a, 'self.' + k) for _, x in leaves(s, r)
            for a in [x]), s, 'a unit is searchable only with %s' % k)
    t = ck.fn('Channel.is_mutable')
    hs = t.returns()
    ck.ob('placeholder', any('input_placeholder' in show(h.e.value) and
                             'output_placeholder' in show(h.e.value)
                             for h in hs) or (
        'input_placeholder' in show(t.ret()) and 'output_placeholder' in
        show(t.ret())), t, 'inputs and outputs of the network are not '
        'narrowed')
    ck.ob('parameters', any(t.derives(h.e.value, 'self.module.parameters()')
                            for h in hs) or t.derives(
        t.ret(), 'self.module.parameters()'), t, 'layers with parameters are '
        'narrowed only when dynamic')


def check_slimmable(ck):
    s = ck.fn('SlimmableChannelUnit.alter_candidates_of_switchbn')
    p = [x for x in s.func.params() if x != 'self'][0]
    ic = s.calls('_x.init_candidates(%s)' % p)
    ck.need('switch-bn', ic, s, 'switchable norms get one branch per '
            'candidate width')
    ck.ob('switch-both', 'output_related' in sides_of(s, ic) and
          'input_related' in sides_of(s, ic), s, 'every switchable norm of '
          'the unit gets its branches')
    f = ck.fn('SlimmableChannelUnit.prepare_for_pruning', opaque=(
        '_replace_with_dynamic_ops', '_register_channel_container',
        '_register_mutable_channel', 'alter_candidates_of_switchbn'))
    al = f.calls('self.alter_candidates_of_switchbn(self.candidate_choices)')
    ck.always('switch-prepared', al, f, 'preparing builds the branches of '
              'the switchable norms')
    ck.order('switch-after', f.calls('self._replace_with_dynamic_ops(...)'),
             al, f, 'the branches are built once the norms are switchable')


def check(ck):
    ck.sections(check_register, check_containers, check_prepare,
                check_replace, check_width, check_choice, check_predefined,
                check_members, check_config, check_ranges, check_container,
                check_mutable, check_slimmable)
