"""C18 one-shot supernet training: sampling, distillation, accumulation."""
from .common import *

# algorithm: collection of subnets, kinds it may hold, hard loss distilled
SAND = {
    'AutoSlim': dict(coll='self.sample_kinds', kinds=(
        'max', 'min', 'random0', 'random1'), hard=True),
    'BigNAS': dict(coll='self.sample_kinds', kinds=(
        'max', 'min', 'random0', 'random1'), hard=False),
    'DMCP': dict(coll='self.strategy', kinds=(
        'max', 'min', 'scheduled_random', 'arch_random'), hard=True),
}
OPAQUE = ('add_prefix', '_update_arch_params', 'sample_subnet', 'set_subnet',
          'reinitialize_optim_wrapper_count_status', 'set_dropout')
SETS = {
    'max': ('_.set_max_choices()', '_.set_choices(_.max_choices)',
            "_.set_subnet('max', ...)",
            "_.sample_subnet('max', ...)"),
    'min': ('_.set_min_choices()', '_.set_choices(_.min_choices)',
            "_.set_subnet('min', ...)",
            "_.sample_subnet('min', ...)"),
    'random': ('_.set_choices(_.sample_choices(...))',
               "_.set_subnet('random', ...)",
               "_.sample_subnet('random', ...)"),
    'direct': ("_.set_subnet('direct', ...)",
               "_.sample_subnet('direct', ...)"),
}
ANYSET = ('_.set_choices(...)', '_.set_max_choices(...)',
          '_.set_min_choices(...)', '_.set_subnet(...)',
          '_.sample_subnet(...)')


def hits(s, pats):
    out = []
    for p in pats:
        for h in s.calls(p):
            if all(x.e is not h.e for x in out):
                out.append(h)
    return sorted(out, key=lambda h: h.e.seq)


def decide(s, f, elem, k):
    """a condition with the kind of subnet known"""
    def value(t):
        if t == elem:
            return k
        if t[0] == 'const' and isinstance(t[1], str):
            return t[1]
        return None

    def fn(a):
        if k is not None:
            if a[0] == 'cmp' and a[1] in ('==', 'is', 'in'):
                x, y = value(a[2]), value(a[3])
                if x is not None and y is not None and elem in (a[2], a[3]):
                    return (x in y) if a[1] == 'in' else x == y
                ys = a[3]
                if a[1] == 'in' and a[2] == elem:
                    it = ys[2] if ys[0] == 'alloc' else ys[1] if ys[
                        0] == 'tuple' else None
                    if it is not None and all(v[0] == 'const' for v in it):
                        return any(v[1] == k for v in it)
            if a[0] == 'call' and a[1][0] == 'attr' and a[1][1] == elem:
                if a[1][2] in ('startswith', 'endswith') and len(
                        a[2]) == 1 and a[2][0][0] == 'const':
                    return getattr(k, a[1][2])(a[2][0][1])
                if a[1][2] == '__contains__' and a[2] and a[2][0][
                        0] == 'const':
                    return a[2][0][1] in k
        return ('atom', a)
    return f_map(s.m.norm(f), fn)


class Step:
    """the events of one subnet's turn, with the kind of subnet known"""

    def __init__(self, s, elem, k, lid):
        self.s, self.elem, self.k, self.lid = s, elem, k, lid

    def g(self, h):
        return skeyed(self.s, decide(self.s, h.e.guard, self.elem, self.k))

    def pick(self, hs):
        return [h for h in hs if f_sat(self.g(h))]


def skeyed(s, f):
    return f_map(f, lambda a: ('atom', show(a)))


def fits(s, h, kind):
    for p in SETS[kind]:
        if any(x.e is h.e for x in s.calls(p)):
            return True
    return False


def scoped(st, h, pats):
    """some enclosing with-block matches, for this kind of subnet"""
    s = st.s
    for x in h.e.scopes:
        for g, v in leaves(s, x, h.e.guard):
            if f_sat(skeyed(s, decide(s, g, st.elem, st.k))) and any(
                    s.m.match(p, v) is not None for p in pats):
                return True
    return False


def is_part(s, t, key, pos):
    DP = 'self.data_preprocessor(data, True)'
    pats = ("%s['%s']" % (DP, key), '%s.values()[%d]' % (DP, pos),
            'list(%s.values())[%d]' % (DP, pos), "%s.get('%s')" % (DP, key),
            "%s.pop('%s')" % (DP, key))
    return t is not None and any(
        s.m.match(p, x) is not None for x in s.m.forms(t) for p in pats)


def check_batch(ck, s, h):
    a, b = h.arg(0, 'inputs'), h.arg(1, 'data_samples')
    ck.ob('batch', is_part(s, a, 'inputs', 0) and is_part(
        s, b, 'data_samples', 1), h, 'it runs on inputs and samples of the '
        'preprocessed batch')


def check_turn(ck, s, st, what, cls, hard, fw, up, sets):
    """one subnet's turn: choice, forward, losses, update"""
    k = st.k
    F, U, S = st.pick(fw), st.pick(up), st.pick(sets)
    anchor = s.where
    once = bool(F) and f_implies(True, f_or(*[st.g(h) for h in F]))
    for i, a in enumerate(F):
        for b in F[i + 1:]:
            once = once and not f_sat(f_and(st.g(a), st.g(b)))
    ck.ob('runs-once', once, F[0] if F else anchor, '%s: a %s subnet runs '
          'exactly once per batch' % (cls, what))
    for f in F:
        ck.ob('in-turn', tuple(f.e.loops)[-1:] == ((st.lid,) if st.lid
              is not None else ()), f, '%s: each subnet in its own turn' %
              cls)
        before = [h for h in S if h.e.seq < f.e.seq and f_sat(f_and(
            st.g(h), st.g(f)))]
        ok = bool(before)
        if ok:
            last = before[-1]
            ok = f_implies(st.g(f), st.g(last)) and tuple(
                last.e.loops) == tuple(f.e.loops)
            # no forward pass between them used up the choice
            ok = ok and not any(last.e.seq < x.e.seq < f.e.seq and f_sat(
                f_and(st.g(x), st.g(f))) for x in F)
        ck.ob('choice-set', ok, f, '%s: the %s subnet is chosen right before '
              'its forward pass' % (cls, what))
        if ok and k is not None:
            kinds = ('max',) if k == 'max' else ('min',) if k == 'min' else (
                'random', 'direct')
            good = [x for x in kinds if fits(s, last, x)]
            ck.ob('choice-kind', bool(good), last, '%s: the choice set is the '
                  '%s one' % (cls, what))
            if good == ['direct']:
                ck.ob('direct-stage', f_implies(st.g(last), skeyed(
                    s, s.m.norm(s.parse('self.arch_train')))) if hasattr(
                    s, 'parse') else 'self.arch_train' in f_atoms(
                    st.g(last)), last, '%s: sampling by the architecture '
                    'parameters only once they are trained' % cls)
            if 'random' in good:
                c = s.calls('_.sample_choices(...)')
                for h in c:
                    if any(h.e.term == x for x in last.e.args):
                        ck.ob('fresh', tuple(h.e.loops) == tuple(
                            last.e.loops), h, '%s: a fresh sample for each '
                            'random subnet' % cls)
        # exactly one update per forward
        own = [u for u in U if tuple(u.e.loops) == tuple(f.e.loops) and
               u.e.seq > f.e.seq and f_sat(f_and(st.g(u), st.g(f)))]
        ok = len(own) == 1 and f_equiv(st.g(own[0]), st.g(f))
        ck.ob('one-update', ok, own[0] if own else f, '%s: exactly one '
              'optimiser accumulation follows the %s subnet' % (cls, what))
        if not ok:
            continue
        u = own[0]
        ow = u.e.func[1]
        ctx = [x for x in f.e.scopes if x[0] == 'call' and x[1][0] == 'attr'
               and x[1][2] == 'optim_context' and same(s, x[1][1], ow)]
        ck.ob('context', bool(ctx), f, '%s: the forward pass runs in the '
              'context of the optimiser that is stepped' % cls)
        # what is accumulated
        d = s.m.match('self.parse_losses(_d)[0]', u.e.args[0]) if u.e.args \
            else None
        if d is None and u.e.args:
            for x in s.m.forms(u.e.args[0]):
                d = d or s.m.match('self.parse_losses(_d)[0]', x)
        if d is None:
            ck.ob('parsed', False, u, '%s: the loss accumulated is the '
                  'parsed loss of the subnet' % cls)
            continue
        D = d['_d']
        direct = any(x[:4] == f.e.term[:4] and x[-1] == f.e.term[-1]
                     for x in s.m.forms(D))
        ups = parts(s, D, u)
        hd = direct or any(same_call(s, v, f.e.term) and f_implies(
            st.g(f), skeyed(s, decide(s, g, st.elem, k))) for g, v in ups)
        dl = s.calls('_.compute_distill_losses(...)')
        soft = [(g, v) for g, v in ups if any(same_call(s, v, h.e.term)
                                              for h in dl)]
        if k == 'max' or k is None:
            ck.ob('hard-loss', hd, u, '%s: the loss of the subnet that ran is '
                  'accumulated' % cls)
            ck.ob('no-soft', not soft, u, '%s: the %s subnet is not distilled'
                  % (cls, what))
        else:
            if hard:
                ck.ob('hard-loss', hd, u, '%s: the loss of the subnet that '
                      'ran is accumulated' % cls)
            own_soft = [(g, v, h) for g, v in soft for h in dl
                        if same_call(s, v, h.e.term) and f_sat(f_and(
                            skeyed(s, decide(s, g, st.elem, k)), st.g(f)))]
            ok = bool(own_soft)
            for g, v, h in own_soft:
                ok = ok and f.e.seq < h.e.seq < u.e.seq and tuple(
                    h.e.loops) == tuple(f.e.loops)
                gg = skeyed(s, decide(s, g, st.elem, k))
                rest = f_implies(st.g(f), gg)
                if cls == 'DMCP' and not rest:
                    late = {'(self.distillation_times < self._iter)'}
                    rest = f_implies(f_and(st.g(f), *[('atom', x) for x in
                                                      late]), gg)
                ok = ok and rest
            ck.ob('soft-loss', ok, u, '%s: the %s subnet learns from the '
                  'largest one by the distillation loss' % (cls, what))
        if k is not None:
            rec = ('_.teacher_recorders',) if k == 'max' else (
                '_.student_recorders',)
            bad = ('_.student_recorders',) if k == 'max' else (
                '_.teacher_recorders',)
            ck.ob('recorded', scoped(st, f, rec) and not scoped(st, f, bad),
                  f, '%s: the %s subnet runs as %s' % (
                      cls, what, 'teacher' if k == 'max' else 'student'))


def check_drop_path(ck, s, steps, fw):
    dr = s.calls('set_dropout(...)')
    ck.need('drop-path', dr, s, 'drop path is set by subnet')
    for st in steps:
        for f in st.pick(fw):
            b = [h for h in st.pick(dr) if h.e.seq < f.e.seq and tuple(
                h.e.loops) == tuple(f.e.loops)]
            v = b[-1].arg(3, 'drop_path_rate') if b else None
            ok = v is not None and f_implies(st.g(f), st.g(b[-1]))
            for g, x in leaves(s, v, b[-1].e.guard) if ok else ():
                if f_sat(f_and(skeyed(s, decide(s, g, st.elem, st.k)),
                               st.g(f))):
                    ok = ok and (s.m.match('self.drop_path_rate', x)
                                 is not None if st.k == 'max' else
                                 x[0] == 'const' and x[1] == 0)
            ck.ob('drop-path-largest', ok, b[-1] if b else f, 'only the '
                  'largest subnet trains with drop path')
    for h in dr:
        for i, nm, pat in ((2, 'dropout_stages',
                            'self.backbone_dropout_stages'),
                           (1, 'module', 'MBBlock')):
            v = h.arg(i, nm)
            ck.ob('drop-path-' + nm, v is not None and s.m.match(
                pat, v) is not None, h, 'in the configured stages')
        v = h.arg(0, 'layers')
        ck.ob('drop-path-layers', v is not None and s.derives(
            v, 'self.architecture.backbone.layers'), h, 'of the backbone')


def same_call(s, v, t):
    if v == t:
        return True
    return any(x[0] == 'call' and x[-1] == t[-1] for x in s.m.forms(v))


def parts(s, D, u):
    """[(guard, mapping merged into the dict)] before the update"""
    out = []
    tops = {strip(x) for x in s.m.deep(D) if x[0] in ('alloc', 'call')}
    for e in s.ev:
        if e.kind == 'call' and e.func[0] == 'attr' and e.func[
                2] == 'update' and e.seq < u.e.seq and e.args and tuple(
                e.loops) == tuple(u.e.loops):
            if {strip(x) for x in s.m.bases(e.func[1])} & tops and any(
                    x[-1] == y[-1] for x in s.m.bases(e.func[1])
                    for y in s.m.deep(D) if x[0] == y[0] == 'alloc'):
                out.append((e.guard, e.args[0]))
    for x in s.m.deep(D):
        if x[0] == 'alloc' and x[1] == 'dict':
            for k, v in x[2]:
                if k is None or k == NONE:
                    out.append((True, v))
    return out


def counters(s, p):
    return [x for x in walk(p) if x[0] == 'loopvar']


def check_reported(ck, s, cls, steps, lid):
    """losses of different subnets are reported under different names"""
    rep = into(s, s.ret(), 'add_prefix(_l, _p)')
    ck.need('reported', rep, s, '%s: losses are reported by subnet' % cls)
    seen = {}
    losses = s.calls('self.parse_losses(_d)')
    for st in steps:
        own = [h for h in rep if f_sat(st.g(h)) and tuple(
            h.e.loops)[-1:] == ((lid,) if lid is not None else ())]
        ck.ob('reported-all', bool(own) and f_implies(True, f_or(*[
            st.g(h) for h in own])), own[0] if own else s.where, '%s: losses '
            'of a %s subnet are reported' % (cls, st.k or 'configured'))
        for h in own:
            p = None
            for a in h.e.args[:1]:
                for x in s.m.forms(a):
                    b = s.m.match('add_prefix(_l, _p)', x)
                    if b:
                        p = b['_p']
            if p is not None:
                L = [x for x in s.m.deep(b['_l'])]
                mine = [u for u in losses if f_sat(f_and(st.g(u), st.g(h)))
                        and u.e.seq < h.e.seq and any(
                            x[0] == y[0] and x[-1] == y[-1]
                            for x in s.m.forms(u.b['_d']) if x[0] in (
                                'alloc', 'call') for y in L)]
                ck.ob('reported-own', bool(mine), h, '%s: the losses reported '
                      'are those of the subnet' % cls)
            if p is None or not any(x[0] == 'const' and isinstance(
                    x[1], str) for x in walk(p)):
                ck.ob('prefix', False, h, 'the name tells the subnet')
                continue
            for x in s.m.forms(p):
                p = x
            per = [x for x in walk(p) if x[0] in (
                'ELEM', 'IDX', 'elem', 'idx') or x == st.elem]
            cnt = counters(s, p)
            unique = bool(per)
            for c in cnt:
                step = s.E.steps.get((c[2], c[1]))
                if step is None or c[2] != lid:
                    continue
                moved = True
                for g, v in leaves(s, step, h.e.guard):
                    if not f_sat(f_and(skeyed(s, decide(
                            s, g, st.elem, st.k)), st.g(h))):
                        continue
                    moved = moved and s.m.match('_a + _b', v) is not None \
                        and any(x[0] == 'loopvar' and x[1] == c[1]
                                for x in walk(v))
                unique = unique or moved
            consts = ''.join(str(x[1]) for x in walk(p) if x[
                0] == 'const')
            if not per and not cnt and st.k in ('max', 'min'):
                # a kind that occurs once
                unique = True
            ck.ob('prefix-unique', unique, h, '%s: names of different %s '
                  'subnets differ' % (cls, st.k or ''))
            sig = (consts, tuple(sorted(str(c[1]) for c in cnt)), bool(per))
            for (k2, sig2) in list(seen.items()):
                if k2[0] != st.k and not (
                        st.k.startswith('random') and k2[0].startswith(
                            'random')):
                    if sig2[0] == sig[0] and not per and (
                            not cnt or sig2[1] != sig[1]):
                        ck.ob('prefix-distinct', False, h, '%s: %s and %s '
                              'subnets have the same name' % (
                                  cls, k2[0], st.k))
            seen[(st.k, h.e.seq)] = sig


def check_sandwich(ck):
    for cls, sp in SAND.items():
        s = ck.fn(cls + '.train_step', opaque=OPAQUE)
        fw = s.calls("self(...)")
        up = s.calls('_.update_params(...)')
        sets = hits(s, ANYSET)
        ls = [l for l in s.E.loops if over(s, l, sp['coll']) and any(
            l in h.e.loops for h in fw)]
        if not ck.need('turns', ls, s, '%s: every configured subnet has its '
                       'turn' % cls, n=1):
            continue
        lid = ls[0]
        ck.ob('turns-all', whole(s, lid) and not s.E.loops[lid]['breaks'],
              s.where, '%s: the loop covers every configured subnet' % cls)
        elem = None
        for e in s.ev:
            if elem is None and lid in e.loops:
                for a in f_atoms(s.m.norm(e.guard)):
                    for x in walk(a):
                        if x[0] == 'elem' and s.m.match(
                                'ELEM(%s)' % sp['coll'], x) is not None:
                            elem = x
        ck.ob('kinds', elem is not None, s.where, '%s: kinds are told apart' %
              cls)
        if elem is None:
            continue
        steps = [Step(s, elem, k, lid) for k in sp['kinds']]
        if cls == 'BigNAS':
            check_drop_path(ck, s, steps, fw)
        fw = [h for h in fw if lid in h.e.loops]
        up = [h for h in up if lid in h.e.loops]
        for h in fw:
            ck.ob('loss-mode', h.arg(2, 'mode') is not None and s.m.match(
                "'loss'", h.arg(2, 'mode')) is not None, h, 'training runs '
                'the loss')
            check_batch(ck, s, h)
        for st in steps:
            check_turn(ck, s, st, st.k, cls, sp['hard'], fw, up, sets)
        # nothing outside the turns touches weights
        stray = [h for h in s.calls('_.update_params(...)') if lid not in
                 h.e.loops and s.m.match("_['mutator']", h.e.func[1]) is None]
        ck.ob('only-turns', not stray, stray[0] if stray else s.where,
              '%s: no accumulation outside the turns' % cls)
        check_reported(ck, s, cls, steps, lid)


def check_kinds(ck):
    for cls in ('AutoSlim', 'BigNAS'):
        s = ck.fn(cls + '.__init__', opaque=('_build_mutator',
                                             '_build_distiller'))
        st = s.sets('self', 'sample_kinds')
        if not ck.need('kinds-built', st, s, 'the kinds are configured'):
            continue
        items = listed(s, st[-1].e.value)
        first = [i for i in items if not i.loops]
        ck.ob('max-first', bool(first) and first[0].value == const('max'),
              st[-1], '%s: the largest subnet comes first' % cls)
        ck.ob('has-min', any(i.value == const('min') for i in first), st[-1],
              '%s: the smallest subnet is trained' % cls)
        ck.ob('one-max', sum(i.value == const('max') for i in items) == 1,
              st[-1], 'one largest subnet')
        rnd = [i for i in items if i.loops]
        ok = len(rnd) == 1 and rnd[0].every() and rnd[0].over(
            'range(num_random_samples)') and any(
            isinstance(x[1], str) and x[1].startswith('random')
            for x in walk(rnd[0].value) if x[0] == 'const')
        ck.ob('random-number', ok, rnd[0].hit if rnd and rnd[0].hit else
              st[-1], '%s: one random subnet for each configured' % cls)
        if rnd:
            ck.ob('random-names', any(x[0] in ('elem', 'idx') for x in
                  walk(rnd[0].value)), rnd[0].hit or st[-1], '%s: random '
                  'subnets have different names' % cls)
        fl = s.sets('self', '_optim_wrapper_count_status_reinitialized')
        ck.ob('flag-init', bool(fl) and all(
            h.e.value == FALSE for h in fl), fl[0] if fl else s.where,
            'counting is set up with the first step')
    f = ck.fn('DMCP.__init__', opaque=('_build_distiller',))
    st = f.sets('self', 'strategy')
    ck.need('kinds-built', st, f, 'the strategy is configured')
    for h in st:
        ck.ob('strategy-kept', same(f, h.e.value, ('param', 'strategy')), h,
              'the configured strategy is used')
    for nm, d in init_defaults(f.func).items():
        if nm == 'strategy':
            v = ast.literal_eval(d) if isinstance(d, ast.AST) else d
            ck.ob('max-first', bool(v) and v[0] == 'max', f.where, 'DMCP: '
                  'the largest subnet comes first')


def check_prepared(ck):
    for cls in SAND:
        s = ck.fn(cls + '.__init__', opaque=('_build_distiller',
                                             '_build_mutator'))
        mu = s.sets('self', 'mutator')
        ds = s.sets('self', 'distiller')
        for nm, hs in (('prepare_from_supernet', mu),
                       ('prepare_from_teacher', ds),
                       ('prepare_from_student', ds)):
            c = s.calls('_.%s(self.architecture)' % nm)
            ck.always('prepared', c, s, '%s: %s on the architecture' % (
                cls, nm))
            ck.order('prepared-after', hs, c, s, '%s: built before %s' % (
                cls, nm))


def check_counts(ck):
    """accumulation is over all subnets of a batch"""
    for cls, meth, coll in (
            ('AutoSlim', 'train_step', 'self.sample_kinds'),
            ('BigNAS', 'train_step', 'self.sample_kinds'),
            ('SlimmableNetwork', '_slimmable_train_step',
             'self.mutator.subnets')):
        s = ck.fn(cls + '.' + meth, opaque=OPAQUE)
        re = s.calls('reinitialize_optim_wrapper_count_status(...)')
        if not ck.need('counted', re, s, '%s: iterations are counted by '
                       'subnet' % cls, n=1):
            continue
        h = re[0]
        flag = 'self._optim_wrapper_count_status_reinitialized'
        ck.iff('counted-once', re, s, 'not ' + flag, '%s: set up exactly '
               'once' % cls)
        st = s.sets('self', flag[5:])
        ck.ob('flag-set', bool(st) and all(x.e.value == TRUE for x in st) and
              f_implies(s.m.skey(h.e.guard), s.m.skey(jointly(st))), st[
                  0] if st else h, '%s: and remembered' % cls)
        fw = s.calls('self(...)')
        ck.not_after('counted-before', re, fw, s, '%s: before the first subnet '
                 'runs' % cls)
        n = h.arg(2, 'accumulative_counts')
        ok = n is not None and (s.m.match('len(%s)' % coll, n) is not None)
        if not ok and n is not None and n[0] == 'attr' and n[1] == SELF:
            i = ck.fn(cls + '.__init__', opaque=('_deploy',))
            v = i.sets('self', n[2])
            ok = bool(v) and all(i.m.match('len(%s)' % coll, x.e.value)
                                 is not None for x in v)
        ck.ob('count-value', ok, h, '%s: one accumulation per subnet' % cls)
        m = h.arg(0, 'model')
        ck.ob('count-model', m == SELF, h, 'of the algorithm trained')
        o = h.arg(1, 'optim_wrapper')
        ck.ob('count-wrapper', o is not None and same(s, o, (
            'param', 'optim_wrapper')), h, 'of its optimiser')
    s = ck.fn('reinitialize_optim_wrapper_count_status')
    c = s.calls('_o.initialize_count_status(...)')
    ck.always('reinit', c, s, 'the status is initialised anew')
    for h in c:
        ck.ob('reinit-of', h.e.func[1] == ('param', 'optim_wrapper'), h,
              'on the optimiser given')
        for i, nm, key in ((1, 'init_counts', 'iter'), (2, 'max_counts',
                                                        'max_iters')):
            v = h.arg(i, nm)
            ck.ob('reinit-' + nm, v is not None and s.m.match(
                "_.message_hub.runtime_info['%s'] * accumulative_counts" %
                key, v) is not None, h, '%s scaled by the number of subnets' %
                key)
        v = h.arg(0, 'model')
        ck.ob('reinit-model', v == ('param', 'model'), h, 'for the model')


def check_slimmable(ck):
    s = ck.fn('SlimmableNetwork._slimmable_train_step', opaque=OPAQUE)
    fw, up = s.calls('self(...)'), s.calls('_.update_params(...)')
    ls = [l for l in s.E.loops if over(s, l, 'self.mutator.subnets') and
          any(l in h.e.loops for h in fw)]
    if ck.need('turns', ls, s, 'every configured subnet has its turn', n=1):
        lid = ls[0]
        ck.ob('turns-all', whole(s, lid), s.where, 'the loop covers every '
              'configured subnet')
        st = Step(s, None, None, lid)
        check_turn(ck, s, st, 'configured', 'SlimmableNetwork', True, fw, up,
                   hits(s, ANYSET))
        for h in hits(s, ANYSET):
            ck.ob('choice-kind', bool(h.e.args) and s.m.match(
                'ELEM(self.mutator.subnets)', h.e.args[0]) is not None, h,
                'the choice set is the subnet in turn')
        check_reported(ck, s, 'SlimmableNetwork', [st], lid)
    s = ck.fn('SlimmableNetwork._fixed_train_step', opaque=OPAQUE)
    st = Step(s, None, None, None)
    fw, up = s.calls('self(...)'), s.calls('_.update_params(...)')
    for nm, hs in (('fixed-forward', fw), ('fixed-update', up)):
        if ck.need(nm, hs, s, 'a deployed subnet trains once per batch', n=1):
            ck.ob(nm + '-always', hs[0].unconditional() and not
                  hs[0].e.loops, hs[0], 'in every step')
    ck.order('fixed-order', fw, up, s, 'the update follows the forward pass')
    s = ck.fn('SlimmableNetwork.train_step', opaque=(
        '_slimmable_train_step', '_fixed_train_step'))
    ck.iff('deployed', s.calls('self._fixed_train_step(...)'), s,
           'self.is_deployed', 'a deployed subnet trains alone')
    ck.iff('slimmable', s.calls('self._slimmable_train_step(...)'), s,
           'not self.is_deployed', 'otherwise all subnets train')


def check_one_shot(ck):
    """single path algorithms"""
    for cls in ('SPOS', 'Autoformer'):
        s = ck.fn(cls + '.loss')
        fw = s.calls('self.architecture(...)')
        st = [h for h in hits(s, ANYSET)]
        if not ck.need('loss', fw, s, 'the loss is computed', n=1):
            continue
        ck.ob('loss-always', fw[0].unconditional(), fw[0], 'in every case')
        smp = [h for h in st if fits(s, h, 'random')]
        ok = len(st) == len(smp) == 1 and smp[0].unconditional() and smp[
            0].e.seq < fw[0].e.seq and s.m.match(
            'self.mutator', smp[0].e.func[1]) is not None
        ck.ob('choice-set', ok, smp[0] if smp else fw[0], '%s: a fresh choice '
              'for every forward pass of training' % cls)
        ck.ob('loss-result', same(s, s.ret(), fw[0].e.term), fw[0], 'its loss '
              'is returned')
        ck.ob('loss-batch', all(v is not None and same(
            s, v, ('param', p)) for p, v in zip(
                s.func.params()[1:3], (fw[0].arg(0, 'inputs'), fw[0].arg(
                    1, 'data_samples')))), fw[0], 'of the batch given')
        m = fw[0].arg(2, 'mode')
        ck.ob('loss-mode', m is not None and s.m.match("'loss'", m)
              is not None, fw[0], 'in loss mode')


def check_sampler_loop(ck):
    s = ck.fn('BaseSamplerTrainLoop.run_iter', opaque=('sample_subnet',))
    tr = s.calls('_.train_step(...)')
    st = s.calls('_.mutator.set_choices(_c)')
    sm = s.calls('self.sample_subnet()')
    for nm, hs in (('sampled', sm), ('choice-set', st), ('trained', tr)):
        if ck.need(nm, hs, s, 'each iteration samples, sets and trains',
                   n=1):
            ck.ob(nm + '-always', hs[0].unconditional(), hs[0], 'in every '
                  'iteration')
    ck.order('choice-first', st, tr, s, 'the choice precedes the step')
    for h in st:
        ck.ob('choice-kind', s.derives(h.b['_c'], 'self.sample_subnet()'), h,
              'the sampled subnet is the one trained')
    it = s.sets('self', '_iter')
    ck.need('counts', it, s, 'iterations are counted')
    for h in it:
        ck.ob('counts-one', h.unconditional() and s.m.match(
            'self._iter + 1', h.e.value) is not None, h, 'one by one')


def check_sampler_modes(ck):
    """training iterations of a sampler loop run in training mode"""
    for c in ck.prog.subclasses(ck.cls('BaseSamplerTrainLoop')):
        if 'run' not in c.methods and 'run_iter' not in c.methods:
            continue
        s = ck.fn(c.qual + '.run')
        tr = s.calls('_.train_step(...)')
        for h in tr:
            on = [x for x in s.calls('_.model.train()') + s.calls(
                '_.model.train(True)') if x.e.seq < h.e.seq]
            off = [x for x in s.calls('_.model.eval()') + s.calls(
                '_.model.train(False)') if x.e.seq < h.e.seq]
            hg = s.m.skey(h.e.guard)
            ok = f_implies(hg, f_or(*[s.m.skey(x.e.guard) for x in on]))
            for x in off:
                g = f_and(hg, s.m.skey(x.e.guard))
                ok = ok and (not f_sat(g) or f_implies(g, f_or(*[
                    s.m.skey(y.e.guard) for y in on
                    if y.e.seq > x.e.seq])))
            ck.ob('train-mode', ok, h, 'the supernet is in training mode '
                  'when it is trained')


def check_consumed(ck):
    """the greedy sampler trains its best subnets one after another"""
    s = ck.fn('GreedySamplerTrainLoop.sample_subnet', opaque=(
        'update_cur_prob', 'get_candidates_with_sample',
        'update_candidates_scores'))
    used = [h for h in s.calls('self.top_k_candidates.pop(...)') +
            s.calls('self.top_k_candidates.data.pop(...)') + s.calls(
            'self.top_k_candidates.remove(...)')]
    used += [h for h in s.sets('self', 'top_k_candidates') if s.derives(
        h.e.value, 'self.top_k_candidates')]
    used += [h for h in s.kind('del') if s.derives(
        h.e.base, 'self.top_k_candidates')]
    r = s.ret()
    fixed = s.m.match('_.subnets[0]', r) is not None or s.m.match(
        '_[0]', r) is not None
    ck.ob('fresh-candidate', bool(used) or not fixed, s.where, 'each '
          'iteration takes the next of the best candidates; new ones are '
          'sampled when none is left')
    sc = s.calls('self.update_candidates_scores()')
    new = s.calls('self.get_candidates_with_sample(...)')
    ck.need('resampled', new, s, 'new candidates are sampled')
    ck.order('scored', new, sc, s, 'they are scored')
    ad = [h for h in s.calls('self.candidates.extend(_n)') if s.derives(
        h.b['_n'], 'self.get_candidates_with_sample(...)')]
    ck.order('added', ad, sc, s, 'with the new ones among them')
    for h in new:
        n = h.arg(0, 'num_samples')
        ck.ob('num-samples', n is not None and s.m.match(
            'self.num_samples', n) is not None, h, 'as many as configured')
    so = s.calls('self.candidates.sort_by(...)')
    ck.order('ranked', sc, so, s, 'and ranked by their scores')
    for h in so:
        k, r = h.arg(0, 'key_indicator'), h.arg(1, 'reverse')
        ck.ob('ranked-by', (k is None or s.m.match("'score'", k)
                            is not None) and (r is None or r == TRUE), h,
              'the best first')
    tk = s.sets('self', 'top_k_candidates')
    ck.need('top-k', tk, s, 'the best are kept')
    for h in tk:
        ck.ob('top-k-size', any(s.m.match('_[:self.top_k]', x) is not None
                                for x in s.m.deep(h.e.value)), h, 'as many '
              'as configured')
    ck.order('top-k-late', so, tk, s, 'after ranking')


def check_greedy(ck):
    s = ck.fn('GreedySamplerTrainLoop.update_candidates_scores', opaque=(
        '_val_candidate',))
    st = s.calls('_.mutator.set_choices(_c)')
    va = s.calls('self._val_candidate()')
    se = s.calls('self.candidates.set_resource(_i, _v, ...)')
    for nm, hs in (('score-set', st), ('score-run', va), ('score-kept', se)):
        if ck.need(nm, hs, s, 'every candidate is scored', n=1):
            ck.ob(nm + '-all', hs[0].when('True') and len(
                hs[0].e.loops) == 1 and whole(s, hs[0].e.loops[0]) and over(
                s, hs[0].e.loops[0], 'self.candidates.subnets',
                'self.candidates'), hs[0], 'each of them')
    ck.order('score-order', st, va, s, 'its choice is set before it runs')
    ck.order('score-after', va, se, s, 'its score is kept')
    for h in st:
        ck.ob('score-choice', s.m.match('ELEM(_)', h.b['_c']) is not None, h,
              'the choice is the candidate')
    for h in se:
        ck.ob('score-index', s.m.match('IDX(_)', h.b['_i']) is not None and
              s.derives(h.b['_v'], 'self._val_candidate()'), h, 'at its own '
              'position')
        k = h.arg(2, 'key_indicator')
        ck.ob('score-name', k is not None and s.m.match("'score'", k)
              is not None, h, 'as score')
    s = ck.fn('GreedySamplerTrainLoop.get_candidates_with_sample', opaque=(
        '_check_constraints', '_sample_from_supernet',
        '_sample_from_candidates'))
    it = [i for i in listed(s, s.ret()) if i.loops]
    sup = [i for i in it if s.derives(i.value,
                                      'self._sample_from_supernet()')]
    old = [i for i in it if s.derives(i.value,
                                      'self._sample_from_candidates()')]
    ck.need('from-supernet', sup, s, 'candidates come from the supernet')
    ck.need('from-candidates', old, s, 'and from the best so far')
    cc = s.calls('self._check_constraints(_s)')
    for i in sup:
        ok = False
        for a in f_atoms(s.m.norm(i.guard)):
            if s.derives(a, 'self._check_constraints(_)'):
                ok = not f_sat(f_and(f_map(s.m.norm(i.guard), lambda x: (
                    False if x == a else ('atom', x)))))
        ck.ob('within-constraints', ok, i.hit or s.where, 'only subnets that '
              'meet the constraints are taken from the supernet')
        for x in s.m.deep(i.value):
            pass
    for h in cc:
        ck.ob('checked-own', any(same(s, h.b['_s'], i.value) for i in sup),
              h, 'the subnet checked is the one taken')
    for i in old:
        g = s.m.norm(i.guard)
        empty = case(s, g, {'len(self.candidates) == 0': True,
                            'self.candidates': False})
        ck.ob('non-empty', not f_sat(f_map(empty, lambda a: (
            'atom', show(a)))), i.hit or s.where, 'never from an empty list')
    for i in it:
        ck.ob('sample-number', i.over('range(num_samples)') and all(
            whole(s, l) for l in i.loops), i.hit or s.where, 'as many draws '
            'as asked for')


def check_prefixer(ck):
    s = ck.fn('add_prefix')
    en = entries(s, s.ret())
    ck.need('prefixer', en, s, 'losses are renamed')
    for e in en:
        key = e.key
        ok = key is not None and any(x == ('param', 'prefix') for x in
                                     walk(key)) and any(
            x[0] == 'elem' for x in walk(key))
        ck.ob('prefixer-key', ok, e.where, 'the name holds prefix and loss '
              'name')
        ck.ob('prefixer-all', bool(e.loops) and all(
            whole(s, l) for l in e.loops) and f_implies(True, e.guard),
            e.where, 'every loss is kept')
        ck.ob('prefixer-value', s.m.match('inputs[_k]', e.value) is not None,
              e.where, 'with its value')


def check(ck):
    ck.sections(check_sandwich, check_kinds, check_prepared, check_counts,
                check_slimmable, check_one_shot, check_sampler_loop,
                check_sampler_modes, check_consumed,
                check_greedy, check_prefixer)
