"""C31 predictors encode and decode architectures consistently; they score
only once trained or loaded, and learn each candidate's own score."""
from .common import *
from ..terms import f_and, f_not, f_or, f_implies, f_equiv, f_map, show

PRED = 'MetricPredictor'
FULL = 'self.search_groups'


def check(ck):
    ck.sections(encode, decode, vectors, scoring, training, base_handler,
                mlp, mlp_training, carts, gauss, rbf, search)


def txt(s, t):
    return show(full(s, t))


def atoms(f):
    if not isinstance(f, tuple) or not f:
        return []
    if f[0] == 'atom':
        return [f[1]]
    return [a for x in f[1:] for y in (
        x if isinstance(x, tuple) and x and isinstance(x[0], tuple) else (x,))
        for a in atoms(y)]


def decide(s, f, d):
    """formula with atoms decided whose text contains a key of d"""
    def fn(a):
        t = show(a)
        for k, v in d.items():
            if k in t:
                return v
        return ('atom', a)
    return f_map(s.m.norm(f), fn)


def choice_list(s, t, key):
    """cases (is channel unit?, pattern) of the list of choices of the group
    with this key"""
    out = []
    for g, x in leaves(s, t):
        b = s.m.match('self.search_groups[_k][0].candidate_choices', x)
        c = s.m.match('self.search_groups[_k][0].choices', x)
        for kind, m in (('unit', b), ('plain', c)):
            if m is not None:
                out.append((g, kind, m['_k']))
        if b is None and c is None:
            out.append((g, None, x))
    return out


def unit_test(a):
    t = show(a)
    return a[0] == 'call' and t.startswith('isinstance(self.search_groups[') \
        and t.endswith('ChannelUnit)') and '][0], ' in t


# ------------------------------------------------------------------ encoding
def encode(ck):
    s = ck.fn(PRED + '.model2vector')
    out = {x.key[1]: x.value for x in entries(s, s.ret())
           if x.key[0] == 'const'}
    nv, ov = out.get('normal_vector'), out.get('onehot_vector')
    ck.ob('encode', nv is not None and ov is not None and nv is not ov, s,
          'both encodings are returned')
    if nv is None or ov is None:
        return
    ext = s.calls('_l.extend(_v)') + s.calls('_l.append(_v)')
    N = [h for h in ext if strip(h.e.func[1]) == strip(nv) or
         "['normal_vector']" in show(h.e.func[1])]
    O = [h for h in ext if strip(h.e.func[1]) == strip(ov) or
         "['onehot_vector']" in show(h.e.func[1])]
    if strip(nv) == strip(ov):      # two empty lists: tell them by identity
        N = [h for h in ext if any(x == nv for x in s.m.forms(h.e.func[1]))]
        O = [h for h in ext if any(x == ov for x in s.m.forms(h.e.func[1]))]
        if not N or not O:
            N = [h for h in ext if h.b['_v'][0] == 'alloc' or
                 h.e.func[2] == 'append']
            O = [h for h in ext if h not in N]
    ck.need('encode', N, s, 'indices are collected')
    ck.need('encode', O, s, 'one-hot vectors are collected')
    r = refused(s)
    for h in N + O:
        lid = h.e.loops[-1] if h.e.loops else None
        ck.ob('encode', len(h.e.loops) == 1 and whole(s, lid) and over(
            s, lid, 'model', FULL), h, 'every component is encoded')
        ck.ob('encode', not atoms(s.m.norm(f_or(h.e.guard, r))) or
              f_implies(f_not(r), h.e.guard), h, 'none is left out')
    zs = s.calls('numpy.zeros(...)')
    sets = [h for h in s.items('_', None) if h.e.loops]
    for h in N:
        v = h.b['_v']
        if h.e.func[2] == 'extend':
            m = s.m.match('[_i]', v)
            ck.ob('encode', m is not None, h, 'one index per component')
            if m is None:
                continue
            v = m['_i']
        for g, x in leaves(s, v):
            b = s.m.match('_c.index(_x)', x)
            ck.ob('encode', b is not None, h, 'the index of the choice in '
                  'its list')
            if b is None:
                continue
            ds = s.m.match("_m.meta['all_choices']", b['_c'])
            if ds is not None:
                c = s.m.match('_m.chosen', b['_x'])
                ck.ob('encode', c is not None and same(s, c['_m'], ds['_m'])
                      and element(s, ds['_m']), h,
                      'a dumped choice is looked up in its own choices')
                ck.ob('encode', decide(s, g, {'DumpChosen': False})
                      is False, h, 'dumped choices only')
                continue
            ck.ob('encode', decide(s, g, {'DumpChosen': True}) is False, h,
                  'plain choices only')
            ck.ob('encode', element(s, b['_x']), h, 'the choice of the '
                  'component is looked up')
            for g2, kind, k in choice_list(s, b['_c'], None):
                g2 = f_and(g, g2)
                ck.ob('encode', kind is not None, h, 'in the choices of its '
                      'group')
                if kind is None:
                    continue
                unit = f_map(s.m.norm(g2), lambda a: False if unit_test(a)
                             else ('atom', a))
                plain = f_map(s.m.norm(g2), lambda a: True if unit_test(a)
                              else ('atom', a))
                none = decide(s, g2, {'is None': False})
                if kind == 'unit':
                    ck.ob('encode', unit is False, h, 'candidate choices '
                          'are those of channel units')
                elif none is not False:
                    ck.ob('encode', plain is False or decide(
                        s, plain, {'is None': False}) is False, h,
                        'channel units have candidate choices')
                ck.ob('encode', own_key(s, k, b['_x']) or decide(
                    s, g2, {'is None': False}) is False, h,
                    'the group of the same component')
    for h in O:
        vs = leaves(s, h.b['_v'])
        for g, x in vs:
            b = s.m.match('numpy.zeros(len(_c), ...)', x) or s.m.match(
                'numpy.zeros(len(_c))', x) or s.m.match('[0] * len(_c)', x)
            ck.ob('onehot', b is not None, h, 'one place per choice')
            if b is None:
                continue
            ok = False
            for n in N:
                m = s.m.match('[_i]', n.b['_v']) or {'_i': n.b['_v']}
                for g2, y in leaves(s, m['_i']):
                    if s.m.norm(f_and(g, g2)) is False or f_and(
                            s.m.norm(g), s.m.norm(g2)) is False:
                        continue
                    c = s.m.match('_c.index(_x)', y)
                    if c is not None and agree(s, b['_c'], c['_c'], f_and(
                            g, g2)):
                        ok = True
            ck.ob('onehot', ok, h, 'as many places as the list of choices '
                  'the index refers to')
        one = [x for x in s.kind('setitem') if x.e.base is not None and
               same(s, x.e.base, h.b['_v'])]
        ck.ob('onehot', len(one) == 1 and one[0].e.value == ('const', 1) and
              one[0].e.loops == h.e.loops and one[0].e.seq < h.e.seq and
              f_equiv(s.m.norm(one[0].e.guard), s.m.norm(h.e.guard)), h,
              'exactly the place of the choice is one, before it is '
              'collected')
        for x in one:
            ck.ob('onehot', any(same(s, x.e.attr, (s.m.match(
                '[_i]', n.b['_v']) or {'_i': n.b['_v']})['_i'])
                for n in N), x, 'the place of the same index')
    ck.ob('encode', any('len' in show(a) and 'search_groups' in show(a)
                        for a in atoms(s.m.norm(r))), s,
          'an architecture of another search space is refused')


def agree(s, a, b, g):
    if same(s, a, b):
        return True
    la, lb = leaves(s, a), leaves(s, b)
    for ga, x in la:
        for gb, y in lb:
            if f_and(s.m.norm(g), s.m.norm(ga), s.m.norm(gb)) is False:
                continue
            if f_implies(f_and(s.m.norm(g), s.m.norm(ga), s.m.norm(gb)),
                         False):
                continue
            if not same(s, x, y):
                return False
    return True


def element(s, t):
    """value of the component in the architecture"""
    return any(s.m.match(p, t) is not None for p in (
        'model[_k]', 'ELEM(model)[1]')) or show(t).startswith('model[') or \
        show(t) == 'ELEM(model.items())[1]' or show(t) == \
        'ELEM(model.values())'


def own_key(s, k, x):
    b = s.m.match('model[_k]', x)
    if b is not None:
        return same(s, b['_k'], k)
    m, n = s.m.match('_e[0]', k), s.m.match('_e[1]', x)
    return m is not None and n is not None and same(s, m['_e'], n['_e'])


# ------------------------------------------------------------------ decoding
def decode(ck):
    s = ck.fn(PRED + '.vector2model')
    st = [x for x in entries(s, s.ret())]
    ck.ob('decode', bool(st), s, 'components are decoded')
    its = s.kind('setitem')
    for h in its:
        if not h.e.loops:
            continue
        lid = h.e.loops[-1]
        ck.ob('decode', len(h.e.loops) == 1 and whole(s, lid) and over(
            s, lid, FULL), h, 'every component is decoded')
        ck.ob('decode', s.m.norm(h.e.guard) is True, h, 'none is left out')
        key = h.e.attr
        n = 0
        for g, x in leaves(s, h.e.value):
            b = s.m.match('_c[_i]', x)
            ck.ob('decode', b is not None, h, 'a choice of the group')
            if b is None:
                continue
            C = choice_list(s, b['_c'], key)
            for g2, kind, k in C:
                gg = f_and(g, g2)
                if f_implies(s.m.norm(gg), False):
                    continue
                ck.ob('decode', kind is not None and (
                    same(s, k, key) or show(k) == show(key)), h,
                    'of the group decoded')
                if kind == 'unit':
                    ck.ob('decode', f_map(s.m.norm(g2), lambda a: False
                          if unit_test(a) else ('atom', a)) is False, h,
                          'candidate choices are those of channel units')
                elif kind == 'plain':
                    ck.ob('decode', f_map(s.m.norm(g2), lambda a: True
                          if unit_test(a) else ('atom', a)) is False, h,
                          'channel units have candidate choices')
            if b['_i'] == ('const', 0):
                few = any(s.m.implies(g, p) for p in (
                    'len(_c) <= 1', 'len(_c) == 1', 'len(_c) < 2'))
                ck.ob('decode', few, h, 'the first choice only if it is '
                      'the only one')
                continue
            n += 1
            i = b['_i']
            m = s.m.match('int(_i)', i)
            i = m['_i'] if m else i
            for g3, y in leaves(s, i):
                gg = s.m.norm(f_and(g, g3))
                one = hot(s, y)
                if one is not None:
                    ck.ob('decode', s.m.implies(
                        gg, "self.encoding_type == 'onehot'") or s.m.implies(
                        gg, "self.encoding_type != 'normal'"), h,
                        'one-hot places are read in one-hot encoding')
                    e = None
                    for p in ('_s + len(_c)', 'len(_c) + _s'):
                        e = e or s.m.match(p, one['_e'])
                    ck.ob('decode', e is not None and same(
                        s, e['_s'], one['_s']) and agree(
                        s, e['_c'], b['_c'], g), h, 'as many places as the '
                        'group has choices')
                    flat(ck, s, h, one['_v'])
                    ck.ob('decode', is_start(s, lid, one['_s'], b['_c'], g),
                          h, 'from where the previous component ended')
                    continue
                nm = s.m.match('_v[_s]', y)
                ck.ob('decode', nm is not None, h, 'the index is read')
                if nm is None:
                    continue
                ck.ob('decode', s.m.implies(
                    gg, "self.encoding_type != 'onehot'") or s.m.implies(
                    gg, "self.encoding_type == 'normal'"), h,
                    'indices are read in normal encoding')
                flat(ck, s, h, nm['_v'])
                ck.ob('decode', is_start(s, lid, nm['_s'], b['_c'], g), h,
                      'one place per component')
        ck.ob('decode', n >= 1, h, 'the index is used')


def hot(s, y):
    """reading the place of the one in part of a vector"""
    for p in ('numpy.nonzero(_v[_s:_e])[0][0]',
              'numpy.argmax(_v[_s:_e])', '_v[_s:_e].argmax()',
              'numpy.flatnonzero(_v[_s:_e])[0]'):
        b = s.m.match(p, y)
        if b is not None:
            return b
    for p in ('numpy.where(_q)[0][0]', 'numpy.nonzero(_q)[0][0]',
              'numpy.flatnonzero(_q)[0]', 'numpy.argmax(_q)'):
        b = s.m.match(p, y)
        if b is None:
            continue
        q = b['_q']
        if q[0] == 'form' and isinstance(q[1], tuple) and q[1][0] == 'atom':
            q = q[1][1]
        if q[0] == 'cmp' and q[1] == '==':
            for v, c in ((q[2], q[3]), (q[3], q[2])):
                if c == ('const', 1):
                    return s.m.match('_v[_s:_e]', v)
    return None


def flat(ck, s, h, v):
    ok = any(s.m.match(p, v) is not None for p in (
        'numpy.ravel(vector)', 'vector.ravel()', 'vector.flatten()',
        'vector.reshape(-1)', 'numpy.reshape(vector, -1)',
        'numpy.atleast_1d(numpy.squeeze(vector))'))
    ck.ob('decode', ok, h, 'vectors of any number of components can be read')


def is_start(s, lid, t, c, g):
    """a running position advanced by what each component takes"""
    names = [n for (l, n) in s.E.steps if l == lid]
    for n in names:
        st = s.E.steps[(lid, n)]
        txt = show(st)
        if show(t) not in txt:
            continue
        for f in s.m.forms(st):
            break
        ok = True
        kinds = set()
        for gd, x in leaves(s, st):
            a = None
            for p in ('_s + len(_c)', 'len(_c) + _s'):
                a = a or s.m.match(p, x)
            if a is not None and same(s, a['_s'], t):
                kinds.add('onehot')
                ok = ok and agree(s, a['_c'], c, True) and s.m.implies(
                    gd, "self.encoding_type == 'onehot'")
                continue
            b = s.m.match('_s + 1', x) or s.m.match('1 + _s', x)
            if b is not None and same(s, b['_s'], t):
                kinds.add('normal')
                ok = ok and s.m.implies(
                    gd, "self.encoding_type != 'onehot'")
                continue
            return False
        return ok and kinds == {'onehot', 'normal'} and show(t) == 'LOOP(0)'
    return False


# ----------------------------------------------------------- which encoding
def vectors(ck):
    s = ck.fn(PRED + '.preprocess')
    n = 0
    for g, x in leaves(s, s.ret()):
        b = s.m.match('numpy.array(_l)', x) or s.m.match(
            'numpy.asarray(_l)', x)
        ck.ob('vectors', b is not None, s, 'vectors are stacked')
        if b is None:
            continue
        its = listed(s, b['_l'])
        ck.ob('vectors', len(its) == 1, s, 'of all samples')
        for it in its:
            ck.ob('vectors', len(it.loops) == 1 and it.every() and
                  over(s, it.loops[0], 'data'), s, 'each sample in its '
                  'place')
            v = show(it.value)
            for k, e in (('normal_vector', 'normal'),
                         ('onehot_vector', 'onehot')):
                if v.endswith("['%s']" % k):
                    n += 1
                    ck.ob('vectors', s.m.implies(
                        g, "self.encoding_type == '%s'" % e) or s.m.implies(
                        g, "self.encoding_type != '%s'" % (
                            'onehot' if e == 'normal' else 'normal')), s,
                        'the encoding configured')
    ck.ob('vectors', n == 2, s, 'both encodings')
    i = ck.fn(PRED + '.__init__')
    w = i.sets('self', 'encoding_type')
    ck.always('vectors', w, i, 'the encoding is kept')
    for h in w:
        for g, x in leaves(i, h.e.value):
            rb = [a for a in atoms(i.m.norm(g)) if 'RBFHandler' in show(a)]
            if x == ('const', 'normal'):
                ck.ob('vectors', bool(rb) and decide(
                    i, g, {'RBFHandler': False}) is False, h, 'indices for '
                    'interpolating handlers')
            else:
                ck.ob('vectors', i.m.match('encoding_type', x) is not None
                      and decide(i, g, {'RBFHandler': True}) is False, h,
                      'else as configured')
    r = refused(i)
    for v, bad in (('normal', False), ('onehot', False), ('other', True)):
        ck.ob('vectors', f_equiv(given(i, i.m.norm(r), 'encoding_type', v),
                                 bad), i, 'encoding %s is %s' % (
            v, 'refused' if bad else 'known'))
    for a in ('search_groups', 'handler_ckpt', 'train_samples'):
        w = i.sets('self', a)
        ck.always('vectors', w, i, '%s is kept' % a)
        for h in w:
            ck.ob('vectors', i.m.match(a, h.e.value) is not None, h,
                  'as given')
    for h in i.sets('self', 'handler'):
        ck.ob('vectors', 'TASK_UTILS.build(handler_cfg)' in txt(
            i, h.e.value), h, 'the handler configured')


# ------------------------------------------------------------------- scoring
def scoring(ck):
    s = ck.fn(PRED + '.predict', opaque=('model2vector', 'preprocess'))
    r = s.m.norm(refused(s))
    ck.ob('trained', f_implies(case(s, r, {
        'self.initialize': False, 'self.initialize is True': False}), True)
        and f_equiv(case(s, r, {'self.initialize': False,
                                'self.initialize is True': False,
                                'self.initialize == True': False}), True), s,
          'a predictor neither trained nor loaded does not score')
    ck.ob('trained', f_equiv(case(s, r, {
        'self.initialize': True, 'self.initialize is True': True,
        'self.initialize == True': True}), False), s, 'any other does')
    for a in s.raises():
        for p in s.calls('self.handler.predict(_d)'):
            ck.ob('trained', a.e.seq < p.e.seq, p, 'that is checked before')
    mv = s.calls('self.model2vector(_m)')
    ck.need('score', mv, s, 'the architecture is encoded')
    for h in mv:
        es = entries(s, h.b['_m'])
        ok = len(es) == 1
        for x in es:
            b = s.m.match('self.search_groups[_k][0].current_choice',
                          x.value)
            ok = ok and b is not None and (same(s, b['_k'], x.key) or
                                           show(b['_k']) == show(x.key)) \
                and x.guard is True
        cs = [l for l, L in s.E.loops.items() if over(s, l, FULL)]
        ck.ob('score', ok and any(whole(s, l) for l in cs), h, 'all '
              'components, in the order and under the names of the training '
              'samples')
    pp = s.calls('self.preprocess(_v)')
    pr = s.calls('self.handler.predict(_d)')
    ck.need('score', pr, s, 'the handler predicts')
    for h in pr:
        ck.ob('score', any(same(s, h.b['_d'], p.e.term) for p in pp), h,
              'from the encoded architecture')
    for h in pp:
        b = s.m.match('numpy.array([_v])', h.b['_v']) or s.m.match(
            '[_v]', h.b['_v'])
        ck.ob('score', b is not None and any(
            same(s, b['_v'], m.e.term) for m in mv), h, 'of this model')
    up = s.calls('_m.update(_d)') + s.kind('setitem')
    got = {}
    for x in entries(s, s.ret()):
        got.setdefault(show(x.key), []).append(x)
    m = got.get('self.score_key_list[0]', []) or got.get(
        'self.score_key_list[1]', [])
    ck.ob('score', 'self.score_key_list[0]' in got, s, 'the score is '
          'reported under the key asked for')
    for k, xs in got.items():
        for x in xs:
            ok = any(s.find(x.value, 'self.handler.predict(...)')
                     for _ in (1,))
            ck.ob('score', bool(ok), s, 'the predicted value')
            if k == 'self.score_key_list[0]':
                g = case(s, s.m.norm(x.guard), {
                    'self.initialize': True,
                    'self.initialize is True': True})
                g = f_map(g, lambda a: False if '.get(' in show(a) or
                          ' in ' in show(a) else ('atom', a))
                ck.ob('score', g is True, s, 'whenever it has none yet')
    i = ck.fn(PRED + '.__init__')
    for h in i.sets('self', 'score_key_list'):
        its = listed(i, h.e.value)
        first = i.m.match('[score_key] + _r', h.e.value) or i.m.match(
            '[score_key, *_r]', h.e.value) or i.m.match(
            '[score_key, _r]', h.e.value)
        ck.ob('score', first is not None, h, 'the key configured comes '
              'first')
    for h in i.sets('self', 'initialize'):
        ck.ob('trained', h.e.value == ('const', False), h,
              'a new predictor is not trained')
    ck.always('trained', i.sets('self', 'initialize'), i,
              'a new predictor is not trained')
    for m in ('predict', 'model2vector', 'vector2model', 'preprocess',
              'save_checkpoint'):
        t = ck.fn(PRED + '.' + m)
        ck.never('trained', t.sets('self', 'initialize'), t,
                 'only training and loading make a predictor ready')


def training(ck):
    s = ck.fn(PRED + '.fit', opaque=('preprocess',))
    f = s.calls('self.handler.fit(_d, _l)')
    ck.always('fit', f, s, 'the handler is trained')
    for h in f:
        ck.ob('fit', s.m.match('self.preprocess(data)', h.b['_d'])
              is not None, h, 'on the encoded samples')
        ck.ob('fit', s.m.match('label', h.b['_l']) is not None, h,
              'with their scores')
    t = s.sets('self', 'initialize', 'True')
    ck.always('fit', t, s, 'then it is ready')
    ck.order('fit', f, t, s, 'only then')
    s = ck.fn(PRED + '.load_checkpoint')
    f = s.calls('self.handler.load(self.handler_ckpt)')
    ck.always('load', f, s, 'the configured checkpoint is loaded')
    t = s.sets('self', 'initialize', 'True')
    ck.always('load', t, s, 'then it is ready')
    ck.order('load', f, t, s, 'only then')
    s = ck.fn(PRED + '.save_checkpoint')
    f = s.calls('self.handler.save(path)')
    ck.always('save', f, s, 'the handler is saved')
    ck.ob('save', any(same(s, s.ret(), h.e.term) for h in f), s,
          'where it was saved is told')


# ------------------------------------------------------------------ handlers
def base_handler(ck):
    s = ck.fn('BaseHandler.save')
    d = s.calls('dump(self.model, _p)') + s.calls(
        'joblib.dump(self.model, _p)')
    ck.always('store', d, s, 'the model is saved')
    for h in d[:1]:
        ck.ob('store', same(s, s.ret(), h.b['_p']), h, 'the path told is '
              'the one written')
        ck.ob('store', 'path' in show(h.b['_p']), h, 'where asked')
    s = ck.fn('BaseHandler.load')
    w = s.sets('self', 'model')
    ck.always('store', w, s, 'the model is restored')
    for h in w:
        ck.ob('store', s.m.match('joblib.load(path)', h.e.value) is not None
              or s.m.match('load(path)', h.e.value) is not None, h,
              'from the file')


def mlp(ck):
    s = ck.fn('MLPHandler.save')
    sv = s.calls('torch.save(_d, _p)')
    ck.always('store', sv, s, 'the model is saved')
    for h in sv:
        ck.ob('store', same(s, s.ret(), h.b['_p']) and 'path' in show(
            h.b['_p']), h, 'the path told is the one written')
        es = {show(x.key): x for x in entries(s, h.b['_d'])}
        x = es.get("'state_dict'")
        ck.ob('store', x is not None and s.m.match(
            'self.model.state_dict()', x.value) is not None, h,
            'with all weights')
    s = ck.fn('MLPHandler.load')
    ld = s.calls('self.model.load_state_dict(_d, ...)')
    ck.always('store', ld, s, 'the weights are restored')
    for h in ld:
        b = s.m.match("_f['state_dict']", h.b['_d'])
        ck.ob('store', b is not None and s.m.match(
            'torch.load(path, ...)', b['_f']) is not None, h,
            'from the file')
        ck.ob('store', h.arg(1, 'strict') in (None, ('const', True)), h,
              'all of them')
    fc = s.sets('self.model', 'fc1')
    ck.need('store', fc, s, 'the input layer fits the saved one')
    for h in fc:
        b = s.m.match('torch.nn.Linear(_i, self.model.fc1.out_features)',
                      h.e.value)
        ck.ob('store', b is not None and any(s.m.match(p, b['_i'])
              is not None for p in (
                  "_f['state_dict']['fc1.weight'].shape[1]",
                  "_f['state_dict']['fc1.weight'].size(1)")), h,
              'as many inputs as saved')
        ck.ob('store', implied_if_differs(s, h.e.guard), h,
              'whenever they differ')
        ck.ob('store', all(h.e.seq < l.e.seq for l in ld), h,
              'before the weights are restored')
    s = ck.fn('MLPHandler.fit', opaque=('train_mlp',))
    fc = s.sets('self.model', 'fc1')
    t = s.calls('self.train_mlp(train_data, train_label)')
    ck.always('mlp', t, s, 'the network is trained')
    ck.need('mlp', fc, s, 'the input layer fits the encoding')
    for h in fc:
        ck.ob('mlp', s.m.match('torch.nn.Linear(train_data.shape[1], '
                               'self.model.fc1.out_features)', h.e.value)
              is not None, h, 'as many inputs as the encoding has places')
        ck.ob('mlp', implied_if_differs(s, h.e.guard), h,
              'whenever they differ')
        ck.ob('mlp', all(h.e.seq < l.e.seq for l in t), h, 'before training')
    w = s.sets('self', 'model')
    ck.always('mlp', w, s, 'the trained network is kept')
    for h in w:
        ck.ob('mlp', any(same(s, h.e.value, l.e.term) for l in t), h,
              'the trained one')
    s = ck.fn('MLPHandler.predict')
    ev = s.calls('self.model.eval()')
    md = s.calls('self.model(_d)')
    ck.always('mlp', ev, s, 'the network predicts in evaluation mode')
    ck.order('mlp', ev, md, s, 'set before')
    ck.always('mlp', md, s, 'the network predicts')
    for h in md:
        ck.ob('mlp', no_grad(h), h, 'without gradients')
        for g, x in leaves(s, h.b['_d']):
            few = [p for p in ('test_data.ndim < 2', 'test_data.ndim == 1',
                               'len(test_data.shape) < 2')
                   if s.m.implies(g, p)]
            raw = 'from_numpy(test_data)' in txt(s, x)
            ck.ob('mlp', raw or bool(few), h, 'from the data')
            if raw and s.kind('setitem'):
                ck.ob('mlp', not few, h, 'a batch as it is')
        ck.ob('mlp', s.find(s.ret(), 'self.model(...)'), s,
              'its prediction is returned')
    for h in s.kind('setitem'):
        ck.ob('mlp', s.find(h.e.value, 'torch.from_numpy(test_data)'), h,
              'a single vector becomes a batch of one')


def implied_if_differs(s, g):
    g = s.m.norm(g)
    at = atoms(g)
    return len(at) == 1 and at[0][0] == 'cmp' and \
        'self.model.fc1.in_features' in (show(at[0][2]), show(at[0][3])) and \
        at[0][1] == '==' and f_equiv(g, f_not(('atom', at[0])))


def mlp_training(ck):
    s = ck.fn('MLPHandler.train_mlp')
    lb = [h for h in s.kind('setitem') if 'train_label' in show(h.e.value)]
    ck.always('labels', lb, s, 'each sample has its score as target')
    for h in lb:
        ck.ob('labels', txt(s, h.e.value) in (
            'torch.from_numpy(train_label).float()',
            'torch.from_numpy(train_label)') and show(h.e.attr) == '(::, 0)',
            h, 'in the order of the samples')
    md = s.calls('self.model(_x)')
    cr = s.calls('self.criterion(_p, _t)')
    ck.ob('labels', len(cr) >= 2, s, 'training and validation losses')
    sl = set()
    for h in cr:
        p = [m for m in md if same(s, m.e.term, h.b['_p'])]
        ck.ob('labels', len(p) >= 1, h, 'the loss of the prediction')
        for m in p[:1]:
            ix = index_of(s, m.b['_x'], 'train_data')
            it = index_of(s, h.b['_t'], None)
            ck.ob('labels', ix is not None and it is not None and
                  show(ix) == show(it), h, 'predictions are compared with '
                  'the scores of the same samples')
            if ix is not None:
                sl.add((no_grad(h), show(ix)))
                ck.ob('split', no_repeat(s, ix), h, 'every sample at most '
                      'once')
    tr = {x for v, x in sl if not v}
    va = {x for v, x in sl if v}
    ck.ob('split', len(tr) == 1 and len(va) == 1 and not tr & va and
          disjoint(list(tr)[0], list(va)[0]), s, 'the network is validated '
          'on samples it is not trained on')
    z = s.calls('self.optimizer.zero_grad(...)')
    b = s.calls('_l.backward()')
    o = s.calls('self.optimizer.step()')
    ck.need('steps', z, s, 'gradients are cleared')
    ck.need('steps', o, s, 'the network is updated')
    ck.order('steps', z, b, s, 'gradients are cleared first')
    ck.order('steps', b, o, s, 'then computed')
    for h in z + b + o:
        ck.ob('steps', len(h.e.loops) == 1 and h.e.guard is True and over(
            s, h.e.loops[0], 'range(self.epochs)') and whole(
            s, h.e.loops[0]), h, 'in every epoch')
    for h in b:
        ck.ob('steps', any(same(s, h.b['_l'], c.e.term) and not no_grad(c)
                           for c in cr), h, 'of the training loss')
    t, e = s.calls('self.model.train()'), s.calls('self.model.eval()')
    for h in md:
        before = [x for x in t + e if x.e.seq < h.e.seq]
        last = max(before, key=lambda x: x.e.seq) if before else None
        ck.ob('steps', last is not None and (last in e) == no_grad(h), h,
              'training and validation run in their own mode')
    op = s.sets('self', 'optimizer')
    ck.always('steps', op, s, 'an optimizer is made')
    for h in op:
        ck.ob('steps', s.find(h.e.value, 'self.model.parameters()'), h,
              'for the network')
    mv = [h for h in s.sets('self', 'model')]
    for h in mv:
        ck.ob('steps', s.m.match('self.model.to(...)', h.e.value)
              is not None, h, 'the same network')
    dc = s.calls('copy.deepcopy(self.model)')
    ck.need('best', dc, s, 'the best network is remembered')
    for h in dc:
        g = s.m.norm(h.e.guard)
        at = atoms(g)
        ok = False
        for a in at:
            if a[0] == 'cmp' and a[1] == '<':
                vl = any(txt(s, a[2]).startswith(txt(s, c.e.term))
                         for c in cr if no_grad(c))
                st = [(l, n) for (l, n), v in s.E.steps.items() if any(
                    show(x) == show(a[2]) and f_equiv(s.m.norm(gd), g)
                    for gd, x in leaves(s, v))]
                ok = ok or (vl and 'LOOP(' in show(a[3]) and bool(st) and
                            f_equiv(g, ('atom', a)))
        ck.ob('best', ok, h, 'whenever it beats the best so far on the '
              'validation samples, which is updated')
        ups = [x for x in o if x.e.seq > h.e.seq]
        ck.ob('best', not ups and h.e.loops == o[0].e.loops, h,
              'as it was validated')
    ck.ob('best', any(s.find(s.ret(), 'copy.deepcopy(self.model)')
                      for _ in (1,)) or 'deepcopy(self.model)' in show(
        s.ret()) or 'best' in show(s.ret()), s, 'the best network is '
          'returned')


def index_of(s, t, data):
    b = s.m.match('_x.to(...)', t)
    t = b['_x'] if b else t
    b = s.m.match('_d[_i]', t)
    if b is None:
        return None
    if data is not None and data not in show(b['_d']):
        return None
    return b['_i']


def no_repeat(s, i):
    b = s.m.match('_p[_a:_b]', i) or s.m.match('_p[:_b]', i) or s.m.match(
        '_p[_a:]', i)
    return b is not None and txt(s, b['_p']).startswith('torch.randperm(')


def disjoint(a, b):
    """P[:n:] and P[n::]"""
    import re
    for x, y in ((a, b), (b, a)):
        m, n = re.fullmatch(r'(.*)\[:(.*):\]', x), re.fullmatch(
            r'(.*)\[(int.*)::\]', y)
        if m and n and m.group(1) == n.group(1) and \
                m.group(2) == n.group(2):
            return True
        if m and y == '%s[%s::]' % (m.group(1), m.group(2)):
            return True
    return False


def carts(ck):
    s = ck.fn('CartsHandler.fit', opaque=('_make_decision_trees',))
    w = s.sets('self', 'model')
    ck.always('carts', w, s, 'the trees are kept')
    for h in w:
        ck.ob('carts', s.m.match('self._make_decision_trees(train_data, '
                                 'train_label, self.num_trees)', h.e.value)
              is not None, h, 'grown from the samples and their scores')
    s = ck.fn('CartsHandler._make_decision_trees')
    ft = s.calls('_t.fit(_x, _y)')
    ck.need('carts', ft, s, 'trees are grown')
    ap = s.calls('_l.append(_v)')
    for h in ft:
        y = show(h.b['_y'])
        x = s.m.match('_d[:, _f]', h.b['_x'])
        ck.ob('carts', x is not None, h, 'on a subset of the features')
        if x is None:
            continue
        d = s.m.match('_d[_i, :]', x['_d']) or s.m.match('_d[_i]', x['_d'])
        l = s.m.match('_l[_i]', h.b['_y'])
        rows = (show(d['_i']) if d else None, show(l['_i']) if l else None)
        ck.ob('carts', rows[0] == rows[1] and (
            (show(d['_d']) if d else show(x['_d'])).replace(
                'train_data', 'train_label') == (
                show(l['_l']) if l else y)), h,
            'samples and scores are shuffled alike')
        f = [a for a in ap if same(s, a.b['_v'], x['_f'])]
        t = [a for a in ap if same(s, a.b['_v'], h.b['_t'])]
        ck.ob('carts', len(f) == 1 and len(t) == 1 and
              f[0].e.loops == t[0].e.loops == h.e.loops and
              f[0].e.guard == t[0].e.guard, h, 'each tree is recorded with '
              'its features')
    for (lid, n), v in s.E.steps.items():
        if n in ('train_data', 'train_label'):
            pass
    r = s.ret()
    b = s.m.match('[_t, _f]', r) or s.m.match('(_t, _f)', r)
    ck.ob('carts', b is not None, s, 'trees and features are returned')
    if b is not None:
        for h in ft:
            x = s.m.match('_d[:, _f]', h.b['_x'])
            for a in ap:
                base = s.m.forms(a.e.func[1])
                if x and same(s, a.b['_v'], x['_f']):
                    ck.ob('carts', b['_f'] in base or b['_t'] not in base, a,
                          'the features come second')
                if same(s, a.b['_v'], h.b['_t']):
                    ck.ob('carts', b['_t'] in base or b['_f'] not in base, a,
                          'the trees come first')
    s = ck.fn('CartsHandler.predict')
    pr = s.calls('_t.predict(_x)')
    ck.need('carts', pr, s, 'the trees predict')
    for h in pr:
        b = s.m.match('[_r[_f]]', h.b['_x'])
        ck.ob('carts', b is not None and show(h.b['_t']) ==
              'ELEM(self.model[0])' and show(b['_f']) ==
              'ELEM(self.model[1])' and 'test_data[' in show(b['_r']), h,
              'each tree is given its own features of the sample')
        ck.ob('carts', len(h.e.loops) == 2 and all(
            whole(s, l) for l in h.e.loops), h, 'all trees, all samples')
    ret = s.ret()
    wr = [h for h in s.kind('setitem') if same(s, h.e.base, ret)]
    ck.need('carts', wr, s, 'predictions are returned')
    for h in wr:
        ck.ob('carts', txt(s, h.e.value).startswith('numpy.mean(') and
              'test_data' in show(h.e.attr) and len(h.e.loops) == 1, h,
              'the mean over the trees, for each sample')


def gauss(ck):
    s = ck.fn('GaussProcessHandler.fit')
    ck.always('gauss', s.calls('self.model.fit(train_data, train_label)'), s,
              'the process is fitted to the samples')
    s = ck.fn('GaussProcessHandler.predict')
    ck.ob('gauss', s.m.match('self.model.predict(test_data)', s.ret())
          is not None, s, 'its prediction is returned')
    s = ck.fn('DACE_with_smooth.fit')
    fin = s.sets('self', 'model')
    last = [h for h in fin if "'mX'" in show(h.e.value)]
    ck.always('gauss', last, s, 'the scaling is kept with the model')
    for h in last:
        es = {x.key[1]: x.value for x in entries(s, h.e.value)
              if x.key[0] == 'const'}
        for k, d in (('X', 'X'), ('Y', 'Y')):
            m, sd, n = es.get('m' + k), es.get('s' + k), es.get('n' + k)
            ck.ob('gauss', None not in (m, sd, n), h, 'all of it')
            if None in (m, sd, n):
                continue
            b = s.m.match('(_a - _m) / _s', n)
            ck.ob('gauss', b is not None and show(b['_m']) == show(m) and
                  show(b['_s']) == show(sd), h, 'the scaling is the one the '
                  'samples were scaled with')
            ck.ob('gauss', 'numpy.mean(' in show(m) and 'numpy.std(' in
                  show(sd) and show(m) == 'numpy.mean(%s, axis=0)' % show(
                      b['_a'] if b else m), h, 'mean and deviation of the '
                  'samples')
            ck.ob('gauss', 'axis=0' in show(sd), h, 'of every component')
            ck.ob('gauss', positive(s, sd), h, 'constant components do not '
                  'divide by zero')
        st = s.sets('self', 'model')
        its = [x for x in st if x.e.seq < h.e.seq]
        ck.ob('gauss', bool(its), h, 'a fit comes before')
    fit = s.calls('pydacefit.fit.fit(_x, _y, ...)')
    for h in fit:
        ck.ob('gauss', s.m.match('(_a - _m) / _s', h.b['_x']) is not None
              and 'X' in show(h.b['_x']) and 'Y' in show(h.b['_y']), h,
              'scaled samples are fitted to scaled scores')
    rr = s.m.norm(refused(s))
    at = [a for a in atoms(rr) if a[0] == 'cmp' and a[1] == '==' and
          'X.shape[0]' in (show(a[2]), show(a[3]))]
    ck.ob('gauss', bool(at) and f_implies(f_not(('atom', at[0])), rr) and
          f_implies(('atom', at[0]), f_not(rr)) if len(set(at)) == 1 else
          bool(at), s, 'samples without score, and only they, are refused')


def positive(s, t):
    b = s.m.match('_x + _e', t)
    return b is not None and any(
        b[k][0] == 'const' and isinstance(b[k][1], float) and b[k][1] > 0
        for k in ('_x', '_e'))


def rbf(ck):
    s = ck.fn('RBFHandler.fit')
    w = s.sets('self', 'model')
    ck.always('rbf', w, s, 'a new interpolant', guard='train_data.shape[0] > train_data.shape[1]')
    for h in w:
        v = txt(s, h.e.value)
        ck.ob('rbf', 'train_data.shape[1]' in v and 'self.kernel()' in v and
              'self.tail(train_data.shape[1])' in v, h, 'of the configured '
              'kernel and tail, over the components of the encoding')
    ad = s.calls('self.model.add_points(_x, _y)') + s.calls(
        '_m.add_points(_x, _y)')
    ck.need('rbf', ad, s, 'samples are added')
    for h in ad:
        if not h.e.loops:
            continue
        lid = h.e.loops[-1]
        x, y = show(h.b['_x']), show(h.b['_y'])
        idx = [v % d for d in ('train_data', 'train_label') for v in (
            'IDX(%s)', 'ELEM(range(len(%s)))', 'ELEM(range(%s.shape[0]))')]
        ok = x in ['train_data[(%s, ::)]' % i for i in idx] + [
            'train_data[%s]' % i for i in idx] + ['ELEM(train_data)'] and \
            y in ['train_label[%s]' % i for i in idx] + ['ELEM(train_label)']
        ck.ob('rbf', ok and whole(s, lid), h, 'each sample with its own '
              'score')
        ck.ob('rbf', f_implies(f_not(refused(s)), h.e.guard), h, 'all of '
              'them')
    r = s.m.norm(refused(s))
    ck.ob('rbf', s.m.equiv(r, 'train_data.shape[0] <= train_data.shape[1]'),
          s, 'too few samples are refused')
    s = ck.fn('RBFHandler.predict')
    ck.ob('rbf', s.m.match('self.model.predict(test_data)', s.ret())
          is not None, s, 'its prediction is returned')


# ----------------------------------------------------------------- in search
def search(ck):
    L = 'EvolutionSearchLoop'
    i = ck.fn(L + '.__init__')
    for h in i.sets('self', 'predictor'):
        v = h.e.value
        ck.ob('search', 'predictor_cfg' in txt(i, v), h, 'as configured')
        ck.ob('search', i.m.implies(h.e.guard, 'predictor_cfg is not None'),
              h, 'if configured')
    for k, p in (("'search_groups'", 'self.model.mutator.search_groups'),
                 ("'score_key'", 'score_key')):
        ws = [h for h in i.kind('setitem') if show(h.e.attr) == k]
        ck.need('search', ws, i, k)
        for h in ws:
            ck.ob('search', show(h.e.value).endswith(p.split('.', 1)[-1]),
                  h, 'the predictor encodes the search space searched')
    w = i.sets('self', 'use_predictor')
    for h in w:
        ck.ob('search', h.e.value == ('const', False), h, 'real scores '
              'until it is ready')
    s = ck.fn(L + '._init_predictor', opaque=(
        'sample_candidates', 'update_candidates_scores', 'model2vector',
        'fit', 'load_checkpoint', 'save_checkpoint'))
    ld = s.calls('self.predictor.load_checkpoint()')
    ck.iff('search', ld, s, 'self.predictor.handler_ckpt',
           'a given checkpoint is loaded')
    ft = s.calls('self.predictor.fit(_x, _y)')
    ck.iff('search', ft, s, 'not self.predictor.handler_ckpt',
           'else the predictor is trained')
    up = s.sets('self', 'use_predictor', 'True')
    ck.always('search', up, s, 'then it is used, however it became ready')
    for u in up:
        for h in ld + ft:
            ck.ob('search', h.e.seq < u.e.seq, u, 'only then')
    for h in ft:
        x = s.m.match('numpy.array(_l)', h.b['_x']) or {'_l': h.b['_x']}
        y = s.m.match('numpy.array(_l)', h.b['_y']) or {'_l': h.b['_y']}
        its = listed(s, x['_l'])
        ck.ob('pairs', len(its) == 1 and len(its[0].loops) == 1 and whole(
            s, its[0].loops[0]) and over(
            s, its[0].loops[0], 'self.candidates.subnets') and f_implies(
            h.e.guard, its[0].guard), h, 'every candidate is a sample')
        for it in its:
            b = s.m.match('self.predictor.model2vector(_c)', it.value)
            ck.ob('pairs', b is not None and show(b['_c']) ==
                  'ELEM(self.candidates.subnets)', h, 'encoded')
        ck.ob('pairs', s.m.match('self.candidates.scores', y['_l'])
              is not None, h, 'with the scores of the same candidates in '
              'the same order')
    sc = s.calls('self.sample_candidates()')
    us = s.calls('self.update_candidates_scores()')
    for hs in (sc, us):
        ck.iff('pairs', hs, s, 'not self.predictor.handler_ckpt and not '
               'isinstance(self.predictor.train_samples, str)',
               'without samples given, they are drawn and scored')
    ck.order('pairs', sc, us, s, 'scored once drawn')
    for u in us:
        ck.ob('pairs', all(u.e.seq < f.e.seq for f in ft), u,
              'before training')
    nc = s.sets('self', 'num_candidates')
    for h in nc:
        bf = [x for x in sc if x.e.seq > h.e.seq]
        want = 'self.predictor.train_samples' if bf else \
            'self.num_candidates'
        ck.ob('pairs', show(h.e.value) == want, h, 'as many as asked for'
              if bf else 'the population size is restored')
    ck.ob('pairs', len(nc) >= 2 and any(all(
        x.e.seq > u.e.seq for u in us) for x in nc), s,
        'the population size is restored')
    cs = s.sets('self', 'candidates')
    for h in cs:
        if all(h.e.seq > f.e.seq for f in ft):
            ck.ob('pairs', txt(s, h.e.value).endswith('Candidates()'), h,
                  'the search starts with its own candidates')
        else:
            ck.ob('pairs', txt(s, h.e.value).endswith(
                "load(self.predictor.train_samples)['subnets']"), h,
                'samples given are used')
    ck.ob('pairs', any(all(h.e.seq > f.e.seq for f in ft) and
                       h.e.guard is True for h in cs), s,
          'training samples do not join the search')
    r = ck.fn(L + '.run', opaque=('_init_predictor', 'run_epoch', '_resume',
                                  '_save_best_fix_subnet'))
    ip = r.calls('self._init_predictor()')
    ck.iff('search', ip, r, 'self.predictor_cfg is not None',
           'a configured predictor is prepared')
    for h in ip:
        ck.ob('search', all(h.e.seq < e.e.seq for e in r.calls(
            'self.run_epoch()')), h, 'before searching')
