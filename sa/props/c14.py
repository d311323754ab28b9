"""C14 evolution search keeps only admissible candidates, reports the best."""
from .common import *

LOOP = 'EvolutionSearchLoop'
CHECK = 'check_subnet_resources(...)'


def admitted(ck, meth, origin):
    """candidates of meth enter only when checked"""
    s = ck.fn(LOOP + '.' + meth, opaque=('check_subnet_resources',
                                         'update_resources', 'crossover'))
    cs = s.calls(CHECK)
    ck.need('checked', cs, s, 'new candidates are checked against the '
            'constraints')
    add = []
    for h in s.calls('_.append(_x)') + s.calls('_.extend(_x)'):
        x = h.b['_x']
        if s.find(x, CHECK):
            continue
        if any(s.derives(x, o) for o in origin):
            add.append(h)
    ck.need('admitted', add, s, 'new candidates join the population')
    for h in add:
        x = h.b['_x']
        mine = []
        for c in cs:
            sub = c.arg(1, 'subnet')
            if sub is not None and same(s, sub, x):
                mine.append(c)
        ok = False
        for c in mine:
            for a in f_atoms(s.m.norm(h.e.guard)):
                if a[0] == 'sub' and a[2] == const(0) and same(
                        s, a[1], c.e.term) and f_implies(
                            s.m.norm(h.e.guard), ('atom', a)):
                    ok = True
        ck.ob('admit-checked', ok, h, 'a candidate only joins when that very '
              'candidate satisfies the constraints')
        res = [r for r in s.calls('_.append(_r)') if any(
            s.m.match('_c[1]', r.b['_r']) is not None and same(
                s, s.m.match('_c[1]', r.b['_r'])['_c'], c.e.term)
            for c in mine)]
        ck.ob('resource-kept', any(
            r.e.loops == h.e.loops and f_equiv(
                s.m.skey(r.e.guard), s.m.skey(h.e.guard)) for r in res) and
            len(res) == 1, h, 'the resources measured for the candidate are '
            'recorded beside it')
        up = [u for u in s.calls('_.update_resources(...)')]
        ok = False
        for u in up:
            rs = u.arg(0, 'resources')
            if not any({strip(y) for y in s.m.bases(r.e.func[1])} & {
                    strip(y) for y in s.m.bases(rs)} for r in res):
                continue
            st = u.arg(1, 'start')
            coll = u.e.func[1]
            if st is None or st == const(0):
                # the collection is exactly the new candidates
                ok = s.derives(coll, 'Candidates(_)') and any(
                    {strip(y) for y in s.m.deep(coll)} & {
                        strip(y) for y in s.m.bases(h.e.func[1])}
                    for _ in (0,)) and u.unconditional()
            else:
                ok = s.m.match('len(_d) - len(_r)', st) is not None and same(
                    s, s.m.match('len(_d) - len(_r)', st)['_r'], rs) and \
                    s.derives(s.m.match('len(_d) - len(_r)', st)['_d'],
                              'self.candidates') and s.m.match(
                                  'self.candidates', coll) is not None
                g = s.m.norm(u.e.guard)

                def some(a):
                    if a[0] == 'cmp' and a[1] == '<' and a[2] == const(0) \
                            and s.m.match('len(_)', a[3]) is not None or \
                            a[0] == 'alloc' or s.m.match(
                                'self.runner.rank == 0', a) is not None:
                        return True
                    return ('atom', a)
                ok = ok and f_equiv(f_map(g, some), True)
        ck.ob('resource-aligned', ok, h, 'recorded resources are attached to '
              'the candidates they were measured for, in order')
    for c in cs:
        for k, i, want in (('model', 0, 'self.model'),
                           ('estimator', 2, 'self.estimator'),
                           ('constraints_range', 3,
                            'self.constraints_range')):
            v = c.arg(i, k)
            ck.ob('check-own', v is not None and s.m.match(
                want, v) is not None, c, 'candidates are checked on the '
                'model under the configured constraints [%s]' % k)
    return s, add


def check_sampling(ck):
    s, add = admitted(ck, 'sample_candidates',
                      ['self.model.mutator.sample_choices(...)'])
    for h in add:
        ck.ob('join-population', s.m.match(
            'OR(self.candidates, self.candidates.data)', h.e.func[1])
            is not None, h, 'sampled candidates join the population')
        ck.ob('sample-rank', case(s, h.e.guard, {
            'self.runner.rank == 0': False}) is False, h, 'only one process '
            'samples')
        wl = [l for l in h.e.loops if s.E.loops[l]['kind'] == 'while']
        ck.ob('sample-full', bool(wl), h, 'sampling continues until the '
              'population is full')
    for e in [x for x in s.kind('while')]:
        f = s.m.norm(e.e.term[1])
        ck.ob('sample-count', s.m.equiv(
            f, 'len(self.candidates) < self.num_candidates'), e,
            'sampling continues exactly until the population is full')
    bc = s.calls('broadcast_object_list(_x)')
    ck.ob('population-shared', any(
        h.unconditional() and s.m.match(
            'OR(self.candidates.data, self.candidates)', h.b['_x'])
        is not None for h in bc), s, 'every process receives the population')
    ck.not_after('share-last', add, bc, s, 'it is shared when complete')
    up = s.calls('_.update_resources(...)')
    ck.not_after('share-resources', up, bc, s, 'it is shared with its '
                 'resources')
    for n in ('mutation', 'crossover'):
        s, add = admitted(ck, 'gen_%s_candidates' % n, ['crossover(...)'])
        for h in add:
            cond = s.E.loops[h.e.loops[0]].get('cond') if h.e.loops else None
            ck.ob('bred-count', cond is not None and s.m.equiv(
                cond, 'len(_x) < self.num_%s' % n), h, 'at most the '
                'configured number is bred')
        cr = s.calls('crossover(...)')
        ck.need('bred', cr, s, 'new candidates are bred')
        for h in cr:
            top = 'random.choice(self.top_k_candidates.subnets)'
            a, b = h.arg(0), h.arg(1)
            other = 'self.model.mutator.sample_choices(...)' if \
                n == 'mutation' else top
            ck.ob('bred-from-elite', a is not None and s.derives(a, top) and
                  b is not None and s.derives(b, other), h, '%s candidates '
                  'stem from the elite' % n)
            ck.ob('bred-prob', s.m.match(
                'self.%s_prob' % ('mutate' if n == 'mutation' else n),
                h.arg(2, 'prob') or NONE) is not None, h, 'with the '
                'configured probability')
        for r in s.returns():
            ck.ob('bred-returned', all(any(
                {strip(y) for y in s.m.deep(r.e.value)} & {
                    strip(y) for y in s.m.bases(h.e.func[1])}
                for _ in (0,)) for h in add), r, 'the checked candidates are '
                'those returned')


def check_crossover(ck):
    s = ck.fn('genetic.crossover')
    a, b = s.func.params()[:2]
    for r in s.returns():
        ck.ob('cross-copy', s.m.match('copy.deepcopy(%s)' % a, r.e.value)
              is not None, r, 'a bred candidate is a new candidate')
    st = s.kind('setitem')
    ck.need('cross', st, s, 'choices are exchanged')
    for h in st:
        ck.ob('cross-from', s.m.match('ELEM(%s)' % b, h.e.attr) is not None
              and s.m.match('%s[ELEM(%s)]' % (b, b), h.e.value) is not None
              and s.m.match('copy.deepcopy(%s)' % a, h.e.base) is not None,
              h, 'a choice is exchanged for the same choice of the other '
              'parent')
        f = s.m.norm(h.e.guard)
        b = s.m.match('_c() < prob', f[1]) if f[0] == 'atom' else None
        ck.ob('cross-prob', b is not None and b['_c'][0] == 'global' and
              b['_c'][1].split('.')[-1] in ('random_sample', 'rand', 'random'),
              h, 'with the given probability')


def check_constraint(ck):
    s = ck.fn('check.check_subnet_resources', opaque=('export_fix_subnet',
                                                      'set_choices'))
    sc = s.calls('model.mutator.set_choices(_c)')
    ex = s.calls('export_fix_subnet(...)')
    es = s.calls('estimator.estimate(...)')
    lim = {'constraints_range is None': False}
    for what, hs in (('choices set', sc), ('subnet exported', ex),
                     ('resources estimated', es)):
        ck.ob('measure', bool(hs) and f_equiv(case(s, jointly(hs), lim),
                                              True), s,
              'under constraints: %s' % what)
    ck.ob('measure-own', all(s.m.match('subnet', h.b['_c']) is not None
                             for h in sc), s, 'the candidate under test is '
          'the one applied')
    ck.order('measure-after', sc, ex, s, 'the candidate is applied first')
    for h in ex:
        ck.ob('measure-sliced', s.m.match('model', h.arg(0, 'model') or NONE)
              is not None and h.arg(4, 'slice_weight') == const(True), h,
              'the resources are those of the narrowed subnet')
    for h in es:
        m = h.arg(None, 'model') or h.arg(0, 'model')
        ck.ob('measure-model', m is not None and s.derives(
            m, 'export_fix_subnet(...)[1]'), h, 'the narrowed copy is '
            'measured')
        for g, x in leaves(s, m, h.e.guard):
            det = 'isinstance(_m, BaseDetector)'
            bb = s.derives(x, '_m.backbone')
            ck.ob('measure-part', not any(
                s.m.match(det, a) is not None for a in f_atoms(
                    s.m.norm(g))) or case(s, g, {det: not bb}) is False, h,
                'of a detector the backbone, of other models all is '
                'measured')
    good = bad = 0
    for h in s.returns():
        for g, v in leaves(s, h.e.value, h.e.guard):
            b = s.m.match('(_p, _r)', v)
            if case(s, g, lim) is False:
                ck.ob('unconstrained', b is not None and
                      b['_p'] == const(True), h, 'without constraints every '
                      'candidate is admissible')
                continue
            ck.ob('measure-result', b is not None and all(s.derives(
                x, 'estimator.estimate(...)') for _, x in leaves(
                    s, b['_r'])), h, 'the measured resources are reported')
    # admissible exactly when each resource lies in its range
    def measured(x):
        for y in s.m.forms(x):
            b = s.m.match('_r[ELEM(constraints_range)]', y)
            if b is not None and all(s.m.match(
                    'estimator.estimate(...)', z) is not None
                    for _, z in leaves(s, b['_r'])):
                return True
        return False

    def limit(x):
        out = set()
        for y in s.m.forms(x):
            b = s.m.match('_v[_i]', y)
            if b is None:
                continue
            if b['_i'] not in (const(0), const(1)):
                return None
            i = b['_i'][1]
            for g, z in leaves(s, b['_v']):
                seq = case(s, g, {'isinstance(constraints_range[_], _)':
                                  True})
                if z[0] == 'tuple' and len(z[1]) == 2:
                    if seq is True:
                        return None
                    out.add((i, z[1][i]))
                elif seq is False:
                    return None
                elif s.m.match('constraints_range[_k]', z) is not None:
                    out.add((i, z))
                else:
                    return None
        is_ = {i for i, _ in out}
        if len(is_) != 1:
            return None
        for i, z in out:
            # a single number is an upper limit
            if z[0] == 'const' and (i != 0 or z[1] != 0):
                return None
        return is_.pop()
    bads = []
    for h in s.returns():
        for g, v in leaves(s, h.e.value, h.e.guard):
            b = s.m.match('(_p, _r)', v)
            if b is None or case(s, g, lim) is False:
                continue
            for pg, p in leaves(s, b['_p'], g):
                if p == const(False):
                    bads.append((h, pg))
                elif p == const(True):
                    good += 1
    flags = set()
    for h, g in bads:
        lo = hi = False
        for a in f_atoms(s.m.norm(g)):
            if a[0] != 'cmp' or a[1] != '<':
                continue
            for w, l, r, n in (('lo', a[2], a[3], 0), ('hi', a[3], a[2], 1)):
                if measured(l) and limit(r) == n:
                    flags.add((w, f_implies(
                        f_and(s.m.norm(base_of(s, h)), ('atom', a)),
                        s.m.norm(g))))
        ck.ob('range-all', bool(h.e.loops) and whole_iter(s, h), h,
              'every constraint is checked')
    ck.ob('range-lower', ('lo', True) in flags, s, 'a resource below its '
          'range is refused')
    ck.ob('range-upper', ('hi', True) in flags, s, 'a resource above its '
          'range is refused')
    ck.ob('range-pass', good >= 1, s, 'within all ranges the candidate is '
          'admissible')
    for h, g in bads:
        ok = True
        for a in f_atoms(s.m.norm(g)):
            pass
        f = s.m.norm(g)

        def inside(a):
            if a[0] == 'cmp' and a[1] == '<' and (
                    measured(a[2]) and limit(a[3]) == 0 or
                    measured(a[3]) and limit(a[2]) == 1):
                return False
            return ('atom', a)
        ck.ob('range-only', f_equiv(f_map(f, inside), False), h, 'a '
              'candidate is only refused for a resource out of its range')


def base_of(s, h):
    """the guard of the loop body the event stands in"""
    for e in s.ev:
        if e.kind == 'iter' and h.e.loops and e.seq < h.e.seq:
            g = e.guard
    return g if h.e.loops else True


def whole_iter(s, h):
    l = h.e.loops[-1]
    info = s.E.loops[l]
    return info['iter'] is not None and partial_slice(
        s, info['iter']) is False and over(s, l, 'constraints_range')


def check_scores(ck):
    s = ck.fn(LOOP + '.update_candidates_scores', opaque=(
        '_val_candidate', 'set_resource', 'set_score', 'set_choices'))
    S = 'self.candidates.subnets'
    sc = s.calls('self.model.mutator.set_choices(_c)')
    va = s.calls('self._val_candidate(...)')
    st = s.calls("self.candidates.set_resource(_i, _v, 'score')") + \
        s.calls('self.candidates.set_score(_i, _v)')
    for h in s.calls('self.candidates.set_resource(...)'):
        if h.arg(2, 'key_indicator') == const('score') and not any(
                x.e is h.e for x in st):
            h.b = {'_i': h.arg(0, 'i'), '_v': h.arg(1, 'resources')}
            st.append(h)
    for n, hs in (('applied', sc), ('evaluated', va), ('scored', st)):
        ck.ob('score-each', bool(hs) and all(
            len(h.e.loops) == 1 and whole(s, h.e.loops[0]) and over(
                s, h.e.loops[0], S) and h.unconditional() for h in hs), s,
            'every candidate is %s' % n)
    for h in sc:
        ck.ob('score-own', s.m.match('ELEM(%s)' % S, h.b['_c']) is not None,
              h, 'the candidate itself is applied to the supernet')
    ck.order('score-applied', sc, va, s, 'a candidate is applied before it '
             'is evaluated')
    ck.order('score-evaluated', va, st, s, 'and evaluated before it is '
             'scored')
    for h in st:
        ck.ob('score-index', s.m.match('IDX(%s)' % S, h.b['_i']) is not None,
              h, 'the score is attached to the candidate it was measured '
              'for')
        for g, v in leaves(s, h.b['_v']):
            if v[0] == 'const':
                ck.ob('score-default', g is not True, h, 'a constant score '
                      'is only given when nothing was measured')
                continue
            ck.ob('score-value', s.derives(
                v, 'self._val_candidate(...)[self.score_key]'), h,
                'the score is the measured one')
    for h in va:
        v = h.arg(0, 'use_predictor')
        ck.ob('score-predictor', v is not None and s.m.match(
            'self.use_predictor', v) is not None, h, 'the predictor is used '
            'as decided')
    v = ck.fn(LOOP + '._val_candidate', opaque=('calibrate_bn_statistics',
                                                'predict'))
    P = {'use_predictor': True}
    N = {'use_predictor': False}
    pr = v.calls('self.predictor.predict(self.model)')
    ck.ob('predicted', bool(pr) and f_equiv(case(v, jointly(pr), P), True),
          v, 'with a predictor the supernet as set is predicted')
    cal = v.calls('self.calibrate_bn_statistics(...)')
    ck.ob('calibrated', bool(cal) and f_equiv(case(v, jointly(cal), dict(
        N, **{'0 < self.calibrate_sample_num': True})), True), v,
        'batch-norm statistics are recalibrated when requested')
    for h in cal:
        ck.ob('calibrated-with', h.arg(0, 'dataloader') is not None and
              v.m.match('self.runner.train_dataloader', h.arg(
                  0, 'dataloader')) is not None and v.m.match(
                      'self.calibrate_sample_num', h.arg(
                          1, 'calibrate_sample_num') or NONE) is not None, h,
              'from training data, as many samples as configured')
    ev = v.calls('self.runner.model.eval()')
    vs = v.calls('_.val_step(_d)')
    ps = v.calls('self.evaluator.process(...)')
    en = v.calls('self.evaluator.evaluate(...)')
    for n, hs in (('switched to evaluation', ev), ('run', vs),
                  ('processed', ps), ('evaluated', en)):
        ck.ob('val-steps', bool(hs) and f_equiv(case(v, jointly(hs), N),
                                                True), v,
              'the candidate is %s' % n)
    ck.not_after('calibrate-first', cal, ev + vs, v, 'recalibration, which '
                 'switches to training mode, comes first')
    ck.order('val-eval', ev, vs, v, 'the candidate is validated in '
             'evaluation mode')
    for h in vs + ps:
        ck.ob('val-all', len(h.e.loops) == 1 and whole(v, h.e.loops[0]) and
              over(v, h.e.loops[0], 'self.dataloader'), h, 'on all '
              'validation data')
        ck.ob('val-no-grad', no_grad(h), h, 'without gradients')
    for h in ps:
        d, b = h.arg(0, 'data_samples'), h.arg(1, 'data_batch')
        ck.ob('val-outputs', d is not None and v.derives(
            d, '_.val_step(_)') and b is not None and v.m.match(
                'ELEM(self.dataloader)', b) is not None, h, 'the outputs of '
            'each batch are processed')
    for h in vs:
        ck.ob('val-model', v.m.match(
            'OR(self.runner.model, self.model)', h.e.func[1]) is not None and
            v.m.match('ELEM(self.dataloader)', h.b['_d']) is not None, h,
            'the supernet is validated')
    for g, x in leaves(v, v.ret()):
        if case(v, g, N) is False:
            ck.ob('val-result', v.m.match('self.predictor.predict(_)', x)
                  is not None, v, 'the prediction is reported')
        elif case(v, g, P) is False:
            ck.ob('val-result', v.m.match('self.evaluator.evaluate(...)', x)
                  is not None, v, 'the measured metrics are reported')


def check_epoch(ck):
    s = ck.fn(LOOP + '.run_epoch', opaque=(
        'sample_candidates', 'update_candidates_scores',
        'gen_mutation_candidates', 'gen_crossover_candidates', 'extend',
        'sort_by'))
    sm = s.calls('self.sample_candidates()')
    up = s.calls('self.update_candidates_scores()')
    ex = s.calls('self.candidates.extend(_x)')
    ex = [h for h in ex if s.m.match('self.top_k_candidates', h.b['_x'])
          is not None]
    so = [h for h in s.calls('self.candidates.sort_by(...)')]
    top = s.sets('self', 'top_k_candidates')
    mu = s.calls('self.gen_mutation_candidates()')
    cr = s.calls('self.gen_crossover_candidates()')
    ep = s.sets('self', '_epoch')
    for n, hs in (('sample', sm), ('score', up), ('merge the elite', ex),
                  ('sort', so), ('keep the elite', top), ('mutate', mu),
                  ('cross over', cr), ('advance', ep)):
        ck.ob('generation', len(hs) == 1 and hs[0].unconditional() and
              not hs[0].e.loops, s, 'each generation: %s, once' % n)
    seq = [sm, up, ex, so, top]
    for a, b in zip(seq, seq[1:]):
        ck.order('generation-order', a, b, s, 'sample, score, merge with the '
                 'elite, sort, keep the best')
    ck.order('breed-after', top, mu + cr, s, 'new candidates are bred from '
             'the new elite')
    for h in so:
        k, r = h.arg(0, 'key_indicator'), h.arg(1, 'reverse')
        ck.ob('sort-score', (k is None or k == const('score')) and (
            r is None or r == const(True)), h, 'the best scores come first')
    for h in top:
        sl = [x for x in s.m.deep(h.e.value) if x[0] == 'sub' and
              x[2][0] == 'slice']
        ok = bool(sl)
        for x in sl:
            lo, hi, st = x[2][1:4]
            ok = ok and lo in (NONE, None, const(0)) and s.m.match(
                'self.top_k', hi) is not None and st in (NONE, None, const(
                    1)) and s.derives(x[1], 'self.candidates')
        ck.ob('elite-first', ok, h, 'the elite are the first top_k of the '
              'sorted candidates')
    nx = s.sets('self', 'candidates')
    ck.need('next', nx, s, 'the bred candidates form the next population')
    for h in nx:
        ck.ob('next-bred', s.derives(
            h.e.value, 'self.gen_mutation_candidates()') or s.derives(
                h.e.value, 'self.candidates_mutator_crossover'), h,
            'the bred candidates form the next population')
    ck.not_after('next-last', top, nx, s, 'the elite is taken from the '
                 'scored population')
    for h in ep:
        ck.ob('epoch-next', s.m.match('self._epoch + 1', h.e.value)
              is not None, h, 'the generation counter advances by one')
    b = ck.fn(LOOP + '._save_best_fix_subnet', opaque=('export_fix_subnet',
                                                       'convert_fix_subnet'))
    sc = b.calls('self.model.mutator.set_choices(_c)')
    xp = b.calls('export_fix_subnet(...)')
    ck.need('best', sc, b, 'the best subnet is applied')
    for h in sc:
        ck.ob('best-first', b.m.match('self.top_k_candidates.subnets[0]',
                                      h.b['_c']) is not None, h,
              'the best is the first of the sorted elite')
    ck.order('best-applied', sc, xp, b, 'the best subnet is applied before '
             'it is exported')
    for h in xp:
        ck.ob('best-export', b.m.match('self.model', h.arg(
            0, 'model') or NONE) is not None and h.arg(
                4, 'slice_weight') == const(True), h,
            'the narrowed best subnet is exported')
    sv = b.calls('torch.save(_o, _p)') + b.calls('save_checkpoint(_o, _p)')
    du = b.calls('fileio.dump(_o, _p)')
    ck.ob('best-saved', any(b.derives(
        h.b['_o'], 'export_fix_subnet(...)[1].state_dict()') for h in sv), b,
        'its weights are saved')
    ck.ob('best-config', any(b.derives(
        h.b['_o'], 'export_fix_subnet(...)[0]') for h in du), b,
        'its choices are saved')
    r = ck.fn(LOOP + '.run', opaque=('run_epoch', '_save_searcher_ckpt',
                                     '_save_best_fix_subnet', '_resume',
                                     '_init_predictor'))
    re_, sb = r.calls('self.run_epoch()'), r.calls(
        'self._save_best_fix_subnet()')
    ck.ob('best-last', len(sb) == 1 and sb[0].unconditional() and all(
        h.e.seq < sb[0].e.seq for h in re_), r, 'the best subnet is exported '
        'after the last generation')
    ck.ob('run-all', len(re_) == 1 and len(re_[0].e.loops) == 1 and
          r.E.loops[re_[0].e.loops[0]].get('cond') is not None and r.m.equiv(
              r.E.loops[re_[0].e.loops[0]]['cond'],
              'self._epoch < self._max_epochs') and
        re_[0].unconditional() and not r.E.loops[re_[0].e.loops[0]][
            'breaks'], r,
        'generations run until the configured number')


def check_candidates(ck):
    C = 'Candidates'
    s = ck.fn(C + '.set_resource')
    st = s.kind('setitem')
    p = s.func.params()[1:]
    ck.need('set', st, s, 'a resource is stored')
    for h in st:
        ck.ob('set-own', s.derives(h.e.base, 'self.data[%s]' % p[0]) and
              s.m.match(p[2], h.e.attr) is not None and s.m.match(
                  p[1], h.e.value) is not None and h.unconditional(), h,
              'a value is stored under its name in the given candidate only')
    s = ck.fn(C + '.set_score', optional=True, opaque=('set_resource',))
    if s is not None:
        q = s.func.params()[1:]
        ck.ob('set-score', any(s.m.match("self.set_resource(%s, %s, 'score')"
                                         % tuple(q[:2]), h.e.term)
                               is not None or (
            s.m.match(q[0], h.arg(0, p[0]) or NONE) is not None and
            s.m.match(q[1], h.arg(1, p[1]) or NONE) is not None and
            h.arg(2, p[2]) == const('score'))
            for h in s.calls('self.set_resource(...)')), s, 'a score is the '
            'resource "score"')
    s = ck.fn(C + '.update_resources')
    rs, start = s.func.params()[1:3]
    up = [h for h in s.calls('_v.update(_r)')] + [
        h for h in s.kind('setitem')]
    ck.need('update', up, s, 'resources are attached')
    for h in up:
        if h.e.kind == 'setitem':
            continue
        a = s.m.match('%s[IDX(_d)]' % rs, h.b['_r'])
        z = s.m.match('ELEM(%s)' % rs, h.b['_r'])
        ok = False
        for l in h.e.loops:
            it = s.E.loops[l]['iter']
            for x in s.m.deep(it) if it else ():
                if x[0] == 'sub' and x[2][0] == 'slice' and s.m.match(
                        'self.data', x[1]) is not None:
                    lo, hi, sp = x[2][1:4]
                    ok = s.m.match(start, lo) is not None and sp in (
                        NONE, None) and (s.m.match(
                            '%s + len(%s)' % (start, rs), hi) is not None or
                            hi in (NONE, None))
        ck.ob('update-range', ok, h, 'the resources go to the candidates '
              'from `start` on')
        ck.ob('update-own', a is not None or z is not None, h, 'the i-th '
              'resources go to the i-th of these candidates')
        ck.ob('update-each', h.unconditional() and all(
            not s.E.loops[l]['breaks'] for l in h.e.loops), h, 'each of them '
            'is updated')
    s = ck.fn(C + '.sort_by')
    k, r = s.func.params()[1:3]
    so = s.calls('self.data.sort(...)') + s.calls('sorted(self.data, ...)')
    ck.need('sort', so, s, 'candidates are sorted')
    for h in so:
        rv = h.arg(None, 'reverse')
        ck.ob('sort-order', rv is not None and s.m.match(r, rv) is not None,
              h, 'in the requested order')
        key = h.arg(None, 'key')
        c = s.closure(key) if key is not None else None
        ok = c is not None and any(x[0] == 'sub' and c.m.match(
            k, x[2]) is not None for x in c.m.deep(c.ret()))
        ck.ob('sort-key', ok, h, 'by the requested indicator')
    d = ck.cls(C).methods['sort_by'].node.args.defaults
    import ast
    ck.ob('sort-default', [getattr(x, 'value', None) for x in d] == [
        'score', True], s, 'by default the best scores come first')
    for m in ('append', 'extend'):
        s = ck.fn('%s.%s' % (C, m), opaque=('_format',))
        q = s.func.params()[1]
        seen = []
        for h in s.calls('self.data.append(_x)') + s.calls(
                'self.data.extend(_x)'):
            seen.append((h.e.guard, h.b['_x'], h))
        for h in s.sets('self', 'data'):
            b = s.m.match('self.data + _x', h.e.value)
            ck.ob('data-kept', b is not None, h, 'earlier candidates are '
                  'kept')
            if b:
                seen.append((h.e.guard, b['_x'], h))
        ck.ob(m + '-all', f_equiv(f_or(*[g for g, _, _ in seen]), True), s,
              'everything is added')
        islist = 'isinstance(self._format(%s), list)' % q
        for g, x, h in seen:
            one = s.m.match('self.data.append(_)', h.e.term) is not None if \
                h.e.kind == 'call' else False
            for lg, y in leaves(s, x, g):
                single = one or y[0] == 'alloc' and y[1] == 'list'
                if any(s.m.match(islist, a) is not None
                       for a in f_atoms(s.m.norm(lg))):
                    ck.ob(m + '-shape', case(s, lg, {islist: single})
                          is False, h, 'a list of candidates is added one '
                          'by one, a single one as such')
        for g, x, h in seen:
            ck.ob(m + '-formatted', s.derives(x, 'self._format(%s)' % q), h,
                  'in the format of candidates')
    s = ck.fn(C + '._format')
    allc = [s] + [c for c in (s.closure(x) for x in s.closures()) if c]
    ck.ob('format-keeps', any(c.calls('_.setdefault(...)') for c in allc) and
          not any(h for c in allc for h in c.kind('setitem')), s,
          'formatting a scored candidate keeps its score')
    s = ck.fn(C + '.subnets')
    for g, x in leaves(s, s.ret()):
        R = [it for it in listed(s, x) if it.over('self.data')]
        ck.ob('subnets-each', any(it.every(g) for it in R), s, 'one subnet '
              'per candidate, in order')
    for h in s.calls('_.pop(...)'):
        ck.ob('subnets-pure', s.derives(h.e.func[1], 'copy.deepcopy(_)'), h,
              'reading the subnets does not strip the scores of the '
              'candidates')


def check_calibration(ck):
    s = ck.fn('CalibrateBNMixin.calibrate_bn_statistics')
    tr = s.calls('self.runner.model.train()')
    ts = s.calls('self.runner.model.test_step(_d)')
    rg = s.calls('_m.register_forward_hook(_h)')
    ck.need('cal-hook', rg, s, 'the statistics are observed')
    for h in rg:
        ck.ob('cal-bn', f_equiv(case(s, h.e.guard, {
            'isinstance(_x, _BatchNorm)': True}), True), h,
            'every batch-norm layer is observed')
    ck.not_after('cal-order', rg, ts, s, 'before data is run')
    ck.order('cal-train', tr, ts, s, 'in training mode')
    cp = s.calls('_b.copy_(_v)')
    for what in ('mean', 'var'):
        hs = [h for h in cp if s.derives(h.b['_b'], '_m.running_' + what)]
        ck.ob('cal-write', bool(hs), s, 'the running %s is replaced' % what)
        for h in hs:
            ck.ob('cal-own', s.derives(
                h.b['_v'], '_m.__%s_average_meter__.avg' % what) and not
                s.derives(h.b['_v'], '_m.__%s_average_meter__' % (
                    'var' if what == 'mean' else 'mean')), h,
                'by the average observed %s' % what)
            ok = True
            for x in s.m.deep(h.b['_b']):
                if x[0] == 'sub' and x[2][0] == 'slice':
                    ok = x[2][1] in (NONE, None, const(0)) and (s.derives(
                        x[2][2], '_.size(0)') or s.derives(
                            x[2][2], '_.shape[0]') or s.derives(
                                x[2][2], 'len(_)'))
            ck.ob('cal-width', ok, h, 'for the channels in use')
            ck.ob('cal-same', all(same(s, a['_m'], b['_m']) for _, a in
                                  s.find(h.b['_b'], '_m.running_' + what)
                                  for _, b in s.find(
                                      h.b['_v'],
                                      '_m.__%s_average_meter__' % what)), h,
                  'of the same layer')
    ck.not_after('cal-write-last', ts, cp, s, 'after the data was run')
    st = [h for h in ts]
    stop = False
    for h in s.kind('break'):
        f = s.m.norm(h.e.guard)
        a = f[1] if f not in (True, False) and f[0] == 'not' else None
        if a is not None and a[0] == 'atom' and a[1][0] == 'cmp' and \
                a[1][1] == '<' and a[1][2] == const(0):
            stop = any(h.e.loops == t.e.loops and t.e.seq < h.e.seq
                       for t in ts) and any(
                x[0] == 'loopvar' for x in s.m.deep(a[1][3]))
    ck.ob('cal-stop', stop, s, 'recalibration stops when enough samples '
          'were seen')
    for h in cp:
        f = case(s, h.e.guard, {
            'isinstance(_x, _BatchNorm)': True,
            '_m.__mean_average_meter__.count == 0': False,
            '_m.__var_average_meter__.count == 0': False})
        ck.ob('cal-write-when', f_equiv(f, True), h, 'the statistics of '
              'every layer that saw data are replaced')
    for h in st:
        ck.ob('cal-run', h.unconditional() and len(h.e.loops) == 1 and over(
            s, h.e.loops[0], 'dataloader'), h, 'the batches are run')
    hk = None
    for h in rg:
        hk = s.closure(h.b['_h'])
    if hk is not None:
        for what in ('mean', 'var'):
            up = [h for h in hk.calls('_m.update(...)') if hk.derives(
                h.e.func[1], '_.__%s_average_meter__' % what)]
            ck.ob('cal-observe', len(up) == 1 and up[0].unconditional() and
                  hk.derives(up[0].e.args[0], '_.%s(...)' % what) and not
                  hk.derives(up[0].e.args[0], '_.%s(...)' % (
                      'var' if what == 'mean' else 'mean')), hk,
                  'the %s of the input of a layer is observed' % what)
            for h in up:
                n = h.arg(1, 'batch_size')
                ck.ob('cal-weight', n is not None and hk.derives(
                    n, 'OR(_.size(0), _.shape[0], len(_))'), h, 'weighted by '
                    'the number of samples')
    a = ck.fn('AverageMeter.update')
    v, n = a.func.params()[1:3]
    avg = a.final_attr('avg')
    ck.ob('meter-avg', avg is not None and a.m.match(
        'self.sum / self.count', avg) is not None or avg is not None and
        a.m.match('_s / _c', avg) is not None, a, 'the average is the sum '
        'by the count')
    for at, want in (('sum', 'self.sum + _v * _n'),
                     ('count', 'self.count + _n')):
        fs = a.sets('self', at)
        ck.ob('meter-' + at, bool(fs) and all(a.m.match(want, h.e.value)
                                              is not None and
                                              h.unconditional()
                                              for h in fs), a,
              'the %s accumulates' % at)


def check(ck):
    ck.sections(check_sampling, check_crossover, check_constraint,
                check_scores, check_epoch, check_candidates,
                check_calibration)
