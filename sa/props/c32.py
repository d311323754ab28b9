"""C32 contrastive samples pair each image with valid positives and
negatives; packing keeps what a sample carries."""
from .common import *
from ..terms import f_and, f_not, f_or, f_implies, f_equiv, f_map, show


def check(ck):
    ck.sections(positives, negatives, converted, drawn, delivered, lifecycle,
                packed)


def parse(ck):
    return ck.fn('CRDDataset._parse_fullset_contrast_info')


def loop_range(s, lid):
    it = s.E.loops[lid]['iter']
    b = s.m.match('range(_n)', it) if it is not None else None
    return b['_n'] if b is not None else None


def is_classes(s, t):
    """the number of classes"""
    ok = False
    for g, x in leaves(s, full(s, t)):
        own = s.m.match('self.num_classes', x) is not None
        if own and not s.m.implies(g, 'self.num_classes is not None') or \
                not own and s.m.implies(g, 'self.num_classes is not None'):
            return False
        if s.m.match('self.num_classes', x) is not None:
            ok = True
        elif 'get_gt_labels()' in show(x) or 'self.gt_labels' in show(x):
            if not any(s.m.match(p, x) is not None for p in (
                    'max(_l) + 1', '1 + max(_l)', '_l.max() + 1',
                    'int(max(_l)) + 1', 'numpy.max(_l) + 1')):
                return False
            ok = True
        else:
            b = s.m.match('len(_l)', x)
            if b is None or not any(k in show(b['_l']) for k in (
                    'cls_positive', 'cls_negative')):
                return False
            ok = True
    return ok


def is_samples(s, t):
    return any(s.m.match(p, t) is not None for p in (
        'self.num_samples', 'len(self.dataset)', 'self.dataset.__len__()',
        'len(self.gt_labels)', 'len(self)', 'len(self.dataset.'
        'get_gt_labels())'))


def positives(ck):
    s = parse(ck)
    lab = s.sets('self', 'gt_labels')
    ck.always('labels', lab, s, 'labels are known for training',
              guard='not self.dataset.test_mode')
    for h in lab:
        ck.ob('labels', s.m.match('self.dataset.get_gt_labels()', h.e.value)
              is not None, h, 'labels of the wrapped dataset')
    for h in s.sets('self', 'num_samples'):
        ck.ob('labels', is_samples(s, h.e.value), h, 'all samples count')
    ap = s.calls('self.cls_positive[_k].append(_i)') + \
        s.calls('self.cls_positive[_k].extend([_i])') + \
        s.calls('_p[_k].append(_i)')
    ap = uniq(ap)
    ck.need('positive', ap, s, 'samples are sorted by class')
    for h in ap:
        i, k = h.b['_i'], h.b['_k']
        own = any(s.m.match(p, k, {'_i': i}) is not None for p in (
            'self.gt_labels[_i]', 'self.dataset.get_gt_labels()[_i]'))
        en = s.m.match('_e[1]', k)
        ei = s.m.match('_e[0]', i)
        if not own and en is not None and ei is not None:
            own = same(s, en['_e'], ei['_e'])
        ck.ob('positive', own, h, 'each sample is listed under its own '
              'class')
        lid = h.e.loops[-1] if h.e.loops else None
        n = loop_range(s, lid) if lid is not None else None
        ok = lid is not None and whole(s, lid) and len(h.e.loops) == 1 and (
            n is not None and is_samples(s, n) or over(
                s, lid, 'enumerate(self.gt_labels)',
                'enumerate(self.dataset.get_gt_labels())'))
        ck.ob('positive', ok, h, 'for all samples')
        ck.ob('positive', all(t == h.e.guard or 'dataset.test_mode' in show(a)
                              for t in (None,) for a in atoms(
                                  s.m.norm(h.e.guard))), h, 'no sample is '
              'left out')


def uniq(hs):
    seen, out = set(), []
    for h in hs:
        if h.e.seq not in seen and 'positive' in show(h.e.func) or \
                h.e.seq not in seen and 'negative' in show(h.e.func):
            seen.add(h.e.seq)
            out.append(h)
    return out


def atoms(f):
    if not isinstance(f, tuple):
        return []
    if f[0] == 'atom':
        return [f[1]]
    return [a for x in f[1:] for y in (x if isinstance(x, tuple) and x and
                                       isinstance(x[0], tuple) else (x,))
            for a in atoms(y)]


def negatives(ck):
    s = parse(ck)
    ex = s.calls('self.cls_negative[_i].extend(_v)') + [
        h for h in s.kind('aug') if 'cls_negative' in show(h.e.base or ())]
    ck.need('negative', ex, s, 'negatives are listed per class')
    for h in ex:
        if h.e.kind != 'call':
            continue
        b = s.m.match('self.cls_positive[_j]', h.b['_v'])
        ck.ob('negative', b is not None, h, 'the negatives are the samples '
              'of another class')
        if b is None:
            continue
        i, j = h.b['_i'], b['_j']
        ck.ob('negative', i != j, h,
              'not of the class itself')

        def fn(v):
            def f(a):
                if a[0] == 'cmp' and a[1] in ('==', 'is') and \
                        {a[2], a[3]} == {i, j}:
                    return v
                if 'test_mode' in show(a):
                    return False
                return ('atom', a)
            return f
        g = s.m.norm(h.e.guard)
        ck.ob('negative', f_implies(f_map(g, fn(True)), False), h,
              'samples of the own class are never negatives')
        ck.ob('negative', f_equiv(f_map(g, fn(False)), True), h,
              'samples of all other classes are')
        ls = h.e.loops
        ck.ob('negative', len(ls) == 2 and all(
            whole(s, x) and loop_range(s, x) is not None and
            is_classes(s, loop_range(s, x)) for x in ls) and
            {i, j} <= {('elem', s.E.loops[x]['iter'], x) if 0 else y
                       for x in ls for y in elems(s, x, (i, j))}, h,
            'for all pairs of classes')
        for p in s.calls('self.cls_positive[_k].append(_i)'):
            ck.ob('negative', p.e.seq < h.e.seq, h, 'after the samples are '
                  'sorted')


def elems(s, lid, cands):
    it = show(s.E.loops[lid]['iter'])
    return [c for c in cands if show(c) == 'ELEM(%s)' % it]


def converted(ck):
    """later versions of the lists keep each class its own samples"""
    s = parse(ck)
    for a, o in (('cls_positive', 'cls_negative'),
                 ('cls_negative', 'cls_positive')):
        w = s.sets('self', a)
        ck.need('lists', w, s, a)
        if a == 'cls_negative':
            dr = [h for h in w if any('random' in show(x.value) for x in (
                top(s, h.e.value) or top(s, full(s, h.e.value)) or ()))]
            ck.iff('percent', dr, s, 'not self.dataset.test_mode and '
                   '0 < self.percent and self.percent < 1',
                   'a share of the negatives is drawn')
        for h in w:
            its = top(s, h.e.value) or top(s, full(s, h.e.value))
            ck.ob('lists', its is not None and len(its) == 1 and all(
                len(x.loops) == 1 and whole(s, x.loops[0]) and rows(
                    s, x.loops[0], a) for x in its), h,
                'there is a list for every class')
            if not its or len(its) != 1 or len(its[0].loops) != 1:
                continue
            v, lid = its[0].value, its[0].loops[0]
            t = show(v)
            L = s.E.loops[lid]
            if 'self.' + a not in t and 'self.' + o not in t:
                ck.ob('lists', t in ('[]', 'list()'), h, 'the list of a '
                      'class is empty before it is filled')
                continue
            ck.ob('lists', 'self.' + o not in t.replace(
                'len(self.%s' % o, ''), h, 'positives and negatives stay '
                'apart')
            row = None
            for p in ('numpy.random.permutation(_r)[0:_n]',
                      'numpy.random.permutation(_r)[:_n]',
                      'numpy.random.choice(_r, _n, replace=False)',
                      'numpy.random.choice(_r, size=_n, replace=False)'):
                b = s.m.match(p, v)
                if b is not None:
                    row = b['_r']
                    ck.ob('percent', share(s, b['_n'], a), h,
                          'the share asked for is kept')
            if row is None:
                for p in ('numpy.asarray(_r)', 'numpy.array(_r)'):
                    b = s.m.match(p, v)
                    row = row or b and b['_r']
                ck.ob('percent', row is not None and 'percent' not in ' '
                      .join(map(show, atoms(s.m.norm(h.e.guard)))), h,
                      'nothing is left out unless a share is drawn')
            else:
                ck.ob('percent', s.m.equiv(
                    f_map(s.m.norm(h.e.guard), lambda x: False
                          if 'test_mode' in show(x) else ('atom', x)),
                    '0 < self.percent and self.percent < 1'), h,
                    'only a share between none and all is drawn')
            ok = False
            if row is not None:
                b = s.m.match('self.%s[_i]' % a, row)
                ok = b is not None and show(b['_i']) in (
                    'ELEM(%s)' % show(L['iter'])) or show(row) == \
                    'ELEM(self.%s)' % a
            ck.ob('lists', ok, h, 'the list of every class is made from its '
                  'own list')


def rows(s, lid, a):
    """the loop runs over the classes"""
    n = loop_range(s, lid)
    return n is not None and is_classes(s, n) or show(
        s.E.loops[lid]['iter']) == 'self.' + a


def share(s, n, a):
    """the share of the negatives of a class"""
    n = full(s, n)
    b = s.m.match('int(_x * self.percent)', n) or \
        s.m.match('int(self.percent * _x)', n)
    if b is None:
        return False
    t = s.m.match('len(self.%s[_i])' % a, b['_x'])
    return t is not None


def subs(t):
    out, st = [], [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                out.append(x)
            st.extend(x)
    return out


def top(s, v):
    """what a list is made of, one level deep"""
    for f in s.m.forms(v):
        if f[0] == 'comp' and f[1] not in ('set', 'dict'):
            return [Item(s, f[4], f[2], tuple(f[3]))]
    for f in s.m.forms(v):
        if f[0] == 'alloc' and f[1] == 'list':
            out = [Item(s, True, x, ()) for x in f[2]]
            w = strip(f)
            for e in s.ev:
                if e.kind == 'call' and e.func[0] == 'attr' and \
                        e.func[2] == 'append' and e.args and w in {
                            strip(x) for x in s.m.bases(e.func[1])}:
                    out.append(Item(s, e.guard, e.args[0], tuple(e.loops),
                                    Hit(s, e, {})))
            return out
    return None


# -------------------------------------------------------------- the drawing
def drawn(ck):
    s = ck.fn('CRDDataset._get_contrast_info')
    ch = s.calls('numpy.random.choice(...)')
    st = s.items('data', "'contrast_sample_idxs'")
    ck.always('sample', st, s, 'the sample gets its contrast indices')
    neg = [h for h in ch if h.e.args and 'cls_negative' in show(h.e.args[0])]
    pos = [h for h in ch if h.e.args and 'cls_positive' in show(h.e.args[0])]
    for h in neg:
        a = dict(zip(('a', 'size', 'replace', 'p'), h.e.args))
        a.update(dict(h.e.kwargs))
        ck.ob('draw-negative', s.m.match(
            'self.cls_negative[self.gt_labels[idx]]', a['a']) is not None, h,
            'negatives of the class of the sample')
        ck.ob('draw-negative', 'size' in a and s.m.match(
            'self.neg_num', a['size']) is not None, h,
            'as many as requested')
        r = a.get('replace')
        few = ('len(self.cls_negative[self.gt_labels[idx]]) < self.neg_num',
               'self.cls_negative[self.gt_labels[idx]].shape[0] < '
               'self.neg_num',
               'self.cls_negative[self.gt_labels[idx]].size < self.neg_num')
        ok = r is not None and any(truth(s, r, p) for p in few)
        ck.ob('draw-negative', ok, h, 'repeated only if there are too few')
        ck.ob('draw-negative', 'p' not in a, h, 'all with equal chance')
    ck.need('draw-negative', neg, s, 'negatives are drawn')
    for h in pos:
        ck.ob('draw-positive', s.m.match(
            'self.cls_positive[self.gt_labels[idx]]', h.e.args[0])
            is not None, h, 'positives of the class of the sample')
    for h in st:
        v = h.e.value
        b = None
        for p in ('numpy.hstack((_p, _n))', 'numpy.hstack([_p, _n])',
                  'numpy.concatenate((_p, _n))', 'numpy.concatenate([_p, _n])',
                  'numpy.append(_p, _n)', 'numpy.r_[_p, _n]'):
            b = b or s.m.match(p, v)
        ck.ob('sample', b is not None, h, 'the positive comes first, then '
              'the negatives')
        if b is None:
            continue
        ck.ob('sample', any(same(s, b['_n'], x.e.term) for x in neg) or
              all(any(same(s, t, x.e.term) for x in neg)
                  for g, t in leaves(s, b['_n'])), h, 'the drawn negatives')
        p = b['_p']
        for q in ('numpy.asarray([_x])', 'numpy.array([_x])', '[_x]', '(_x,)',
                  'numpy.asarray((_x,))', 'numpy.array((_x,))'):
            m = s.m.match(q, p)
            if m is not None:
                p = m['_x']
                break
        n = 0
        for g, t in leaves(s, p):
            if s.m.match('idx', t) is not None:
                ck.ob('sample', s.m.implies(g, "self.sample_mode == 'exact'")
                      or s.m.implies(g, "self.sample_mode != 'random'"), h,
                      'the sample itself in exact mode')
                n += 1
                continue
            ok = any(same(s, (s.m.match(w, t) or {}).get('_x', t), x.e.term)
                     for w in ('_x[0]', '_x.item()', 'int(_x)') for x in pos)
            if not ok and t == ('undef',) or 'UNDEF' in show(t):
                continue
            for x in pos:
                if same(s, t, x.e.term):
                    ck.ob('sample', len(x.e.args) < 2 and not dict(
                        x.e.kwargs).get('size'), h, 'one positive, not a '
                        'list of them')
                elif len(x.e.args) > 1:
                    ck.ob('sample', x.e.args[1] == ('const', 1) and
                          s.m.match('_x[0]', t) is not None or
                          s.m.match('_x[_i]', t) is None, h,
                          'one positive is drawn')
            ck.ob('sample', ok, h, 'a sample of the own class')
            ck.ob('sample', s.m.implies(
                g, "self.sample_mode != 'exact'") or s.m.implies(
                g, "self.sample_mode == 'random'"), h,
                'a random one only in random mode')
        ck.ob('sample', n >= 1, h, 'exact mode uses the sample itself')
    ck.ob('sample', s.m.match('data', s.ret()) is not None, s,
          'the sample is returned')


def truth(s, v, p):
    """value is true exactly if p"""
    from ..terms import f_or as o
    t = f = False
    for g, x in leaves(s, v):
        if x == ('const', True):
            t = o(t, g)
        elif x == ('const', False):
            f = o(f, g)
        elif x[0] == 'form':
            t = o(t, f_and(g, x[1]))
            f = o(f, f_and(g, f_not(x[1])))
        else:
            b = s.m.match('bool(_x)', x)
            if b is not None and b['_x'][0] == 'form':
                t = o(t, f_and(g, b['_x'][1]))
                continue
            return False
    return s.m.equiv(t, p)


# ---------------------------------------------------------------- delivering
def delivered(ck):
    s = ck.fn('CRDDataset.get_data_info', opaque=('_get_contrast_info',))
    g = s.calls('self.dataset.get_data_info(idx)')
    ck.always('deliver', g, s, 'the sample of the wrapped dataset')
    c = s.calls('self._get_contrast_info(_d, idx)')
    ck.iff('deliver', c, s, 'not self.dataset.test_mode',
           'training samples get their contrast indices')
    for h in c:
        ck.ob('deliver', any(same(s, h.b['_d'], x.e.term) for x in g), h,
              'of that sample')
    for gd, t in leaves(s, s.ret()):
        ck.ob('deliver', any(same(s, t, x.e.term) for x in g + c), s,
              'that sample is returned')
        if any(same(s, t, x.e.term) for x in g) and not any(
                same(s, t, x.e.term) for x in c):
            pass
    s = ck.fn('CRDDataset.prepare_data', opaque=('get_data_info',))
    g = s.calls('self.get_data_info(idx)')
    p = s.calls('self.dataset.pipeline(_d)')
    ck.always('deliver', p, s, 'samples go through the pipeline')
    for h in p:
        ck.ob('deliver', any(same(s, h.b['_d'], x.e.term) for x in g), h,
              'the sample asked for')
        ck.ob('deliver', same(s, s.ret(), h.e.term), s, 'its result is '
              'returned')
    s = ck.fn('CRDDataset.__getitem__', opaque=('prepare_data', 'full_init'))
    p = s.calls('self.prepare_data(_i)')
    ck.need('getitem', p, s, 'samples are prepared')
    for h in p:
        if not h.e.loops:
            ck.ob('getitem', s.m.match('idx', h.b['_i']) is not None, h,
                  'the sample asked for')
        else:
            t = show(h.b['_i'])
            ck.ob('getitem', t in ('idx', 'LOOP(idx)'), h,
                  'the sample asked for first')
    for (lid, name), st in s.E.steps.items():
        for g, t in leaves(s, st):
            if 'LOOP' in show(t) and '_rand_another' not in show(t):
                continue
            if '_rand_another' in show(t):
                ck.ob('getitem', g is not True and 'is None' in fs(g), s,
                      'another sample only if this one cannot be read')
    for r in s.returns():
        ck.ob('getitem', any(same(s, r.e.value, h.e.term) for h in p) or any(
            same(s, t, h.e.term) for g, t in leaves(s, r.e.value)
            for h in p), r, 'the prepared sample is returned')
        if r.e.loops:
            ck.ob('getitem', any(s.m.implies(
                r.e.guard, '_d is not None') for _ in (1,)) or
                'is None' in fs(r.e.guard), r, 'only if it could be read')
    s = ck.fn('CRDDataset.__len__')
    ck.ob('length', s.m.match('len(self.dataset)', s.ret()) is not None, s,
          'as many samples as the wrapped dataset')


def fs(g):
    from ..terms import fshow
    return fshow(g)


def lifecycle(ck):
    s = ck.fn('CRDDataset.full_init', opaque=(
        '_parse_fullset_contrast_info',))
    d = s.calls('self.dataset.full_init()')
    p = s.calls('self._parse_fullset_contrast_info()')
    for h in (d, p):
        ck.iff('init', h, s, 'not self._fully_initialized',
               'initialised once')
    ck.order('init', d, p, s, 'the wrapped dataset is complete before its '
             'samples are sorted')
    f = s.sets('self', '_fully_initialized', 'True')
    ck.always('init', f, s, 'that is remembered',
              guard='not self._fully_initialized')
    i = ck.fn('CRDDataset.__init__', opaque=('full_init',))
    seen = f_and(f_not(refused(i)))
    for w in i.sets('self', 'dataset'):
        for g, x in leaves(i, w.e.value):
            g = f_and(g, w.e.guard, seen)
            made = i.m.match('mmrazor.registry.DATASETS.build(dataset)', x) \
                or i.m.match('DATASETS.build(dataset)', x)
            if made is None:
                ck.ob('init', i.m.match('dataset', x) is not None and
                      i.m.implies(g, 'not isinstance(dataset, dict)'), w,
                      'a dataset given is wrapped')
            else:
                ck.ob('init', i.m.implies(g, 'isinstance(dataset, dict)'),
                      w, 'a config is built')
    ck.always('init', i.sets('self', 'dataset'), i, 'a dataset is wrapped')
    f = i.sets('self', '_fully_initialized')
    ck.always('init', f, i, 'nothing is initialised yet')
    for w in f:
        ck.ob('init', w.e.value == ('const', False), w, 'not yet')
        for h in i.calls('self.full_init()'):
            ck.ob('init', w.e.seq < h.e.seq, w, 'before it is')
    for a in ('num_classes', 'neg_num', 'sample_mode', 'percent'):
        v = i.final_attr(a)
        ws = i.sets('self', a)
        ck.ob('init', bool(ws) and all(i.m.match(a, w.e.value) is not None
                                       for w in ws), i, '%s is kept' % a)
        for w in ws:
            for h in i.calls('self.full_init()'):
                ck.ob('init', w.e.seq < h.e.seq, w, 'before it is used')
    ck.iff('init', i.calls('self.full_init()'), i, 'not lazy_init',
           'unless put off')
    # both modes work, no other does
    s = ck.fn('CRDDataset._get_contrast_info')
    p = parse(ck)

    def mode(f, v):
        def fn(a):
            for m in ('exact', 'random'):
                if a[0] == 'cmp' and a[1] in ('==', 'is') and \
                        ('const', m) in (a[2], a[3]) and \
                        'self.sample_mode' in (show(a[2]), show(a[3])):
                    return m == v
            if a[0] == 'cmp' and a[1] == 'in' and show(a[2]) == \
                    'self.sample_mode':
                return "'%s'" % v in show(a[3])
            return ('atom', a)
        return f_map(f, fn)
    r = f_or(refused(s), refused(p))
    for v in ('exact', 'random'):
        ck.ob('mode', f_equiv(mode(r, v), False), s, 'mode %s works' % v)
    ck.ob('mode', f_equiv(mode(r, 'other'), True), s,
          'other modes are refused')


# ------------------------------------------------------------------- packing
def packed(ck):
    s = ck.fn('PackCRDClsInputs.transform')
    # the keys survive every sample
    for h in s.sets('self', 'meta_keys'):
        v = full(s, h.e.value)
        gen = any(x and x[0] in ('gen', 'genexp') for x in (v,)) or \
            show(v).startswith('gen[') or show(v).startswith(
                ('filter(', 'map(', 'iter('))
        ck.ob('meta', not gen, h, 'the keys can be read for every sample, '
              'not only for one')
        t = show(v)
        ck.ob('meta', 'ELEM(self.meta_keys)' in t and "'sample_idx'" in t,
              h, 'only the index is taken from the keys')
    ds = [h for h in s.calls('ClsDataSample()')]
    ck.always('pack', ds, s, 'a data sample is made')
    me = s.calls('_d.set_metainfo(_m)')
    ck.always('meta', me, s, 'every sample keeps its meta information')
    for h in me:
        t = show(h.b['_m'])
        ck.ob('meta', 'self.meta_keys' in t and 'results[' in t, h,
              'all wanted keys of the sample')
        cs = [L for L in s.E.loops if s.E.loops[L]['kind'] == 'comp' and
              show(s.E.loops[L]['iter']) == 'self.meta_keys']
        es = entries(s, h.b['_m'])
        for x in es:
            k, v, g = x.key, x.value, x.guard
            ck.ob('meta', s.m.match('results[_k]', v) is not None and same(
                s, s.m.match('results[_k]', v)['_k'], k), h,
                'each key with its own value')
            ck.ob('meta', g is True or s.m.equiv(
                g, '_k in results') or all('results' in show(a)
                                           for a in atoms(s.m.norm(g))) and
                  positive(s.m.norm(g)), h, 'whenever the sample has it')
        ck.ob('meta', bool(es), h, 'entries are kept')
    for key, conv in (('sample_idx', 'torch.tensor(results[%r])'),
                      ('contrast_sample_idxs',
                       'torch.from_numpy(results[%r])')):
        q = [h for h in s.calls('_d.set_data(_v)')
             if "'%s'" % key in show(h.b['_v'])]
        ck.iff('pack', q, s, "'%s' in results" % key,
               '%s is packed whenever the sample has it' % key)
        for h in q:
            for x in entries(s, h.b['_v']):
                kind = 'int' if key == 'sample_idx' else 'numpy.ndarray'
                raw = [g for g, y in leaves(s, x.value) if s.m.match(
                    'results[%r]' % key, y) is not None]
                ck.ob('pack', all(s.m.implies(
                    g, 'not isinstance(results[%r], %s)' % (key, kind))
                    for g in raw), h, 'as a tensor')
                ck.ob('pack', x.key == ('const', key), h, 'under its name')
                for g, t in leaves(s, x.value):
                    b = s.m.match('_x.to(torch.long)', t) or \
                        s.m.match('_x.to(dtype=torch.long)', t) or \
                        s.m.match('_x.long()', t)
                    t = b['_x'] if b else t
                    ok = s.m.match('results[%r]' % key, t) is not None or \
                        any(s.m.match(p % repr(key), t) is not None
                            for p in ('torch.tensor(results[%s])',
                                      'torch.from_numpy(results[%s])',
                                      'torch.tensor(results[%s], '
                                      'dtype=torch.long)',
                                      'torch.as_tensor(results[%s])'))
                    ck.ob('pack', ok, h, 'its own value')
    gt = s.calls('_d.set_gt_label(_l)')
    ck.iff('pack', gt, s, "'gt_label' in results", 'the label is packed '
           'whenever the sample has it')
    for h in gt:
        ck.ob('pack', s.m.match("results['gt_label']", h.b['_l'])
              is not None, h, 'its own label')
    out = {}
    for x in entries(s, s.ret()):
        out.setdefault(x.key, []).append(x)
    a = out.get(('const', 'data_samples'), [])
    ck.ob('pack', len(a) >= 1 and all(
        any(same(s, x.value, h.e.term) for h in ds) and x.guard is True
        for x in a), s, 'the data sample is returned')
    b = out.get(('const', 'inputs'), [])
    ck.ob('pack', len(b) >= 1 and s.m.equiv(
        f_or(*[x.guard for x in b]), "'img' in results"), s,
        'the image is returned whenever there is one')
    for x in b:
        t = show(full(s, x.value))
        ck.ob('pack', "results['img']" in t, s, 'it is the image of the '
              'sample')
        sh = [h for h in s.calls('numpy.expand_dims(_x, -1)')
              if "results['img']" in show(h.b['_x'])] + [
            h for h in s.calls('_x.reshape(...)') + s.calls(
                '_x.unsqueeze(-1)') if "results['img']" in show(
                h.b['_x'])]
        ck.ob('pack', bool(sh) or 'newaxis' in t, s, 'gray images get a '
              'channel')
        for h in sh:
            g = f_map(s.m.norm(h.e.guard), lambda a: True
                      if a[0] == 'cmp' and a[1] == 'in' else ('atom', a))
            ck.ob('pack', any(s.m.equiv(g, q) for q in (
                "len(results['img'].shape) < 3", "results['img'].ndim < 3",
                "len(results['img'].shape) == 2",
                "results['img'].ndim == 2")), h, 'only they do')
        ck.ob('pack', '.transpose(2, 0, 1)' in t or '.permute(2, 0, 1)' in t
              or 'moveaxis' in t, s, 'channels first')
    for h in s.calls('_x.set_data(_v)') + me + gt:
        w = h.b.get('_d') or h.b.get('_x')
        ck.ob('pack', any(same(s, w, d.e.term) for d in ds), h,
              'of that data sample')


def positive(f):
    if f is True or f[0] == 'atom':
        return True
    return f[0] == 'and' and all(positive(x) for x in (
        f[1] if isinstance(f[1], tuple) and f[1] and
        isinstance(f[1][0], tuple) else f[1:]))
