"""C17 greedy slimming shrinks one unit at a time, records matching
subnets."""
from .common import *

G = 'AutoSlimGreedySearchLoop'
OPQ = ('check_subnet_resources', '_val_subnet', '_save_searcher_ckpt',
       '_resume', '_save_searched_subnet', '_channel_bins2choices',
       'set_choices')
CUR = 'self.current_subnet'


def check_trials(ck):
    s = ck.fn(G + '.run', opaque=OPQ)
    va = s.calls('self._val_subnet()')
    sc = s.calls('self.model.mutator.set_choices(_c)')
    ck.need('trial', va, s, 'trials are scored')
    ck.need('applied', sc, s, 'trials are applied')
    units = 'OR(%s, %s.keys(), sorted(%s), sorted(%s.keys()), ' \
        'list(%s.keys()), %s.items())' % ((CUR,) * 6)
    dec = []
    for h in s.kind('setitem'):
        for v in s.m.forms(h.e.value):
            b = s.m.match('_x[_k] - 1', v)
            if b is not None:
                dec.append((h, b))
    ck.need('shrink', [h for h, _ in dec], s, 'a trial shrinks a unit')
    for h, b in dec:
        ck.ob('shrink-one', same(s, b['_x'], h.e.base) and same(
            s, b['_k'], h.e.attr), h, 'a unit is shrunk by one bin')
        ck.ob('shrink-copy', s.m.match('copy.deepcopy(%s)' % CUR, h.e.base)
              is not None or s.m.match('copy.copy(%s)' % CUR, h.e.base)
              is not None or s.m.match('dict(%s)' % CUR, h.e.base)
              is not None, h, 'every trial starts from the current subnet, '
              'which it leaves alone')
        lp = h.e.loops[-1] if h.e.loops else None
        ck.ob('shrink-each', lp is not None and over(s, lp, CUR) and whole(
            s, lp), h, 'every unit is tried')
        f = s.m.norm(h.e.guard)
        at = [a for a in f_atoms(f) if s.m.match(
            '%s[_k] == 1' % CUR, a) is not None and same(
                s, s.m.match('%s[_k] == 1' % CUR, a)['_k'], h.e.attr)]
        lo = [a for a in f_atoms(f) if s.m.match(
            '1 < %s[_k]' % CUR, a) is not None and same(
                s, s.m.match('1 < %s[_k]' % CUR, a)['_k'], h.e.attr)]
        ok = any(f_implies(f, f_not(('atom', a))) for a in at) or any(
            f_implies(f, ('atom', a)) for a in lo)
        ck.ob('shrink-min', ok, h, 'no unit is taken below its smallest '
              'bin')

        def free(a):
            if a in at:
                return False
            if a in lo or s.m.match('_ < self.current_flops', a) is not None:
                return True
            return ('atom', a)
        ck.ob('shrink-all', f_equiv(f_map(f, free), True), h, 'every unit '
              'which can still shrink is tried')
    trial = [h.e.base for h, _ in dec]
    for h in sc:
        ck.ob('trial-applied', s.derives(
            h.b['_c'], 'self._channel_bins2choices(_x)') and any(
                same(s, b['_x'], t) for _, b in s.find(
                    h.b['_c'], 'self._channel_bins2choices(_x)')
                for t in trial), h, 'the choices of the trial are applied')
        for d, _ in dec:
            ck.ob('trial-complete', d.e.seq < h.e.seq and
                  d.e.loops == h.e.loops, h, 'after it has been shrunk')
    ck.order('trial-order', sc, va, s, 'a trial is applied before it is '
             'scored')
    for h in va:
        ck.ob('trial-scored', any(
            d.e.loops == h.e.loops and f_equiv(s.m.skey(d.e.guard), s.m.skey(
                h.e.guard)) for d, _ in dec), h, 'every trial is scored')
    # the best trial
    st = s.E.steps
    best = [(k, v) for k, v in st.items() if any(
        any(same(s, x, t) for t in trial)
        for _, x in leaves(s, v))]
    ck.need('best', best, s, 'the best trial is kept')
    for (lid, nm), v in best:
        sc_ = None
        for k2, v2 in st.items():
            if k2[0] == lid and k2[1] != nm and s.derives(
                    v2, 'self._val_subnet()'):
                sc_ = (k2, v2)
        ck.ob('best-score', sc_ is not None, s, 'together with its score')
        if sc_ is None:
            continue
        (_, snm), sv = sc_
        decided = False
        lv_ = leaves(s, v)
        if len(lv_) > 1:
            keep = s.m.norm(f_or(*[g for g, x in lv_ if any(
                same(s, x, t) for t in trial)]))
            g = s.m.norm(f_or(*[g for g, x in leaves(s, sv)
                              if x[:3] != ('loopvar', snm, lid)]))
            decided = True
            ck.ob('best-paired', f_equiv(s.m.skey(g), s.m.skey(keep)), s,
                  'the best score changes with the best trial')
            def val(none, better):
                def fn(a):
                    if a[0] == 'cmp' and a[1] == 'is' and a[3] == NONE and \
                            a[2][0] == 'loopvar':
                        return none
                    if a[0] == 'cmp' and a[1] == '<' and a[2][
                            0] == 'loopvar' and s.derives(
                                a[3], 'self._val_subnet()'):
                        return better
                    if a[0] == 'cmp' and a[1] == '<' and a[3][
                            0] == 'loopvar' and s.derives(
                                a[2], 'self._val_subnet()'):
                        return (not better) if better is not None else None
                    return ('atom', a)
                return f_map(keep, fn)
            def rest(f):
                def fn(a):
                    if s.m.match('_ < self.current_flops', a) is not None:
                        return True
                    if s.m.match('%s[_] == 1' % CUR, a) is not None:
                        return False
                    return ('atom', a)
                return f_map(f, fn)
            ck.ob('best-first', f_equiv(rest(val(True, False)), True), s,
                  'the first trial is the best so far')
            ck.ob('best-better', f_equiv(rest(val(False, True)), True), s,
                  'a better trial replaces the best so far')
            ck.ob('best-worse', f_equiv(rest(val(False, False)), False), s,
                  'a worse one does not')
        ck.ob('best-decided', decided, s, 'a trial is only kept when it '
              'beats the best so far')
        for x in leaves(s, sv):
            for y in s.m.deep(x[1]):
                if y[0] == 'sub' and s.m.match('self._val_subnet()', y[1]) \
                        is not None:
                    ck.ob('score-key', s.m.match('self.score_key', y[2])
                          is not None, s, 'trials are compared by the '
                          'configured score')
    cm = s.sets('self', 'current_subnet')
    ck.need('commit', cm, s, 'the best trial becomes current')
    names = {n for (l, n), v in best}
    for h in cm:
        ck.ob('commit-best', any(x[0] == 'loopvar' and x[1] in names
                                 for x in s.m.deep(h.e.value)), h,
              'exactly the best trial becomes current')
        ck.ob('commit-after', all(d.e.loops[:-1] == h.e.loops and
                                  d.e.seq < h.e.seq for d, _ in dec), h,
              'when all units have been tried')
    for lid, nm in [k for k, v in best]:
        # the best is chosen anew in every step
        init = [x for h in cm for x in s.m.deep(h.e.value)
                if x[0] == 'loopvar' and x[1] == nm]
        ck.ob('best-anew', all(x[3] == NONE for x in init) and bool(init), s,
              'the best trial is chosen anew in every step')
    fl = s.sets('self', 'current_flops')
    ck.need('measure', fl, s, 'the current subnet is measured')
    for h in fl:
        R = "check_subnet_resources(...)"
        cs = [c for c in s.calls(R) if any(
            same(s, y, c.e.term) for y in s.m.deep(h.e.value))]
        ok = bool(cs)
        for c in cs:
            sub = c.arg(1, 'subnet')
            bs = s.find(sub, 'self._channel_bins2choices(_x)')
            ok = ok and bool(bs) and all(
                s.m.match(CUR, b['_x']) is not None or any(
                    same(s, b['_x'], x.e.value) for x in cm)
                for _, b in bs)
            ck.ob('measure-own', s.m.match('self.model', c.arg(
                0, 'model') or NONE) is not None and s.m.match(
                    'self.estimator', c.arg(2, 'estimator') or NONE)
                is not None, c, 'the model itself is measured')
            ck.ob('measure-after', all(
                x.e.seq < c.e.seq or not s.m.match(CUR, b['_x'])
                for x in cm for _, b in bs), c, 'after the commit')
        ck.ob('measure-current', ok and s.m.match(
            "check_subnet_resources(...)[1]['flops']", h.e.value)
            is not None, h, 'the recorded resource is that of the current '
            'subnet')
        ck.ob('measure-each', any(
            x.e.loops == h.e.loops and f_equiv(s.m.skey(
                x.e.guard), s.m.skey(h.e.guard)) for x in cm), h,
            'it is measured after every commit')
    return s


def check_records(ck):
    s = ck.fn(G + '.run', opaque=OPQ)
    a = s.calls('self.searched_subnet.append(_x)')
    b = s.calls('self.searched_subnet_flops.append(_x)')
    ck.need('record', a, s, 'subnets are recorded')
    for h in a:
        ck.ob('record-current', s.m.match(CUR, h.b['_x']) is not None, h,
              'the current subnet is recorded')
        ck.ob('record-paired', any(
            x.e.loops == h.e.loops and f_equiv(s.m.skey(x.e.guard), s.m.skey(
                h.e.guard)) for x in b), h, 'together with its resource')
        ck.ob('record-target', len(h.e.loops) == 1 and s.derives(
            s.E.loops[h.e.loops[0]]['iter'] or NONE, 'self.target_flops'),
            h, 'one per target')
    for h in b:
        ck.ob('record-flops', s.m.match('self.current_flops', h.b['_x'])
              is not None, h, 'the resource of the current subnet')
    ck.ob('record-count', len(a) == len(b), s, 'subnets and resources are '
          'recorded in pairs')
    cm = s.sets('self', 'current_subnet')
    for h in cm + s.sets('self', 'current_flops'):
        lp = h.e.loops[-1] if h.e.loops else None
        cond = s.E.loops[lp].get('cond') if lp is not None else None
        ok = cond is not None and any(
            s.m.match('_t < self.current_flops', x) is not None and
            s.derives(s.m.match('_t < self.current_flops', x)['_t'],
                      'self.target_flops')
            for x in f_atoms(s.m.norm(cond))) and s.m.norm(cond)[0] == \
            'atom' and not s.E.loops[lp]['breaks']
        ck.ob('step-needed', ok, h, 'the model is shrunk exactly until the '
              'target is met')
    # on every path through a target exactly one record
    gs = [s.m.skey(h.e.guard) for h in a]
    for i in range(len(gs)):
        for j in range(i):
            ck.ob('record-once', f_equiv(f_and(gs[i], gs[j]), False), a[i],
                  'a target gets one subnet')
    for h in a:
        later = [x for x in cm if x.e.seq < h.e.seq and len(x.e.loops) > 1]
        if not later:
            f = s.m.norm(h.e.guard)
            ck.ob('record-met', f[0] == 'not' and s.m.match(
                '_t < self.current_flops', f[1][1]) is not None, h,
                'a subnet is recorded at once when it meets the target')
        else:
            ck.ob('record-after', True, h, 'or when it has been shrunk '
                  'enough')
    i = ck.fn(G + '.__init__', opaque=('check_subnet_resources',
                                       '_channel_bins2choices'))
    tf = i.sets('self', 'target_flops')
    ck.need('targets', tf, i, 'the targets')
    for h in tf:
        ck.ob('targets-sorted', i.m.match(
            'sorted(target_flops, reverse=True)', h.e.value) is not None, h,
            'targets are handled from the largest to the smallest')
    for h in i.sets('self', 'current_subnet'):
        ck.ob('start-max', i.m.match('self.max_subnet', h.e.value)
              is not None or any(i.m.match(
                  'len(_c)', e.value) is not None
                  for e in entries(i, h.e.value)), h, 'the search starts '
              'from the largest model')
    mx = i.sets('self', 'max_subnet')
    ck.need('start', i.sets('self', 'current_subnet'), i, 'the search '
            'starts from a subnet')
    ck.need('start-measured', i.sets('self', 'current_flops'), i,
            'the first subnet is measured')
    ck.need('max', [e for h in mx for e in entries(i, h.e.value)] +
            i.items('self.max_subnet'), i, 'the largest subnet')
    ck.need('bins', [e for h in i.sets('self', 'candidate_choices')
                     for e in entries(i, h.e.value)] + i.items(
                         'self.candidate_choices'), i, 'the bins')
    for h in i.items('self.max_subnet') + [
            Hit(i, e.hit.e, {}) for h in mx for e in entries(
                i, h.e.value) if e.hit is not None]:
        ck.ob('max-bins', i.m.match('len(self.candidate_choices[_k])',
                                    h.e.value) is not None and h.
              unconditional(), h, 'the largest bin of each unit')
    for h in i.items('self.candidate_choices'):
        ck.ob('bins-own', i.m.match('_u.alias', h.e.attr) is not None and
              i.m.match('_u.candidate_choices', h.e.value) is not None and
              same(i, i.m.match('_u.alias', h.e.attr)['_u'], i.m.match(
                  '_u.candidate_choices', h.e.value)['_u']) and
              h.unconditional(), h, 'the bins of a unit are its candidates')
    for h in i.sets('self', 'current_flops'):
        cs = [c for c in i.calls('check_subnet_resources(...)')]
        ck.ob('start-flops', i.m.match(
            "check_subnet_resources(...)[1]['flops']", h.e.value)
            is not None and all(i.derives(
                c.arg(1, 'subnet'), 'self._channel_bins2choices('
                'OR(self.current_subnet, self.max_subnet))') for c in cs), h,
            'with the resource of the largest model')
    b = ck.fn(G + '._channel_bins2choices')
    q = b.func.params()[1]
    es = entries(b, b.ret())
    ck.need('choices', [e.hit for e in es], b, 'bins are translated')
    for e in es:
        ck.ob('choice-bin', b.m.match('ELEM(%s)' % q, e.key) is not None and
              b.m.match('self.candidate_choices[ELEM(%s)][%s[ELEM(%s)] - 1]'
                        % (q, q, q), e.value) is not None and
              e.guard is True and all(whole(b, l) for l in e.loops), b,
              'bin k of a unit is its k-th candidate')


def check_val(ck):
    v = ck.fn(G + '._val_subnet')
    ev = v.calls('self.runner.model.eval()')
    vs = v.calls('self.runner.model.val_step(_d)')
    ps = v.calls('self.evaluator.process(...)')
    en = v.calls('self.evaluator.evaluate(...)')
    ck.order('val-eval', ev, vs, v, 'trials are scored in evaluation mode')
    for n, hs in (('eval', ev), ('run', vs), ('process', ps),
                  ('evaluate', en)):
        ck.ob('val-steps', len(hs) == 1 and hs[0].unconditional(), v,
              'scoring: %s' % n)
    for h in vs + ps:
        ck.ob('val-all', len(h.e.loops) == 1 and whole(v, h.e.loops[0]) and
              over(v, h.e.loops[0], 'self.dataloader') and no_grad(h), h,
              'on all evaluation data, without gradients')
    for h in vs:
        ck.ob('val-batch', v.m.match('ELEM(self.dataloader)', h.b['_d'])
              is not None, h, 'batch by batch')
    for h in ps:
        d, b = h.arg(0, 'data_samples'), h.arg(1, 'data_batch')
        ck.ob('val-outputs', d is not None and v.derives(
            d, '_.val_step(_)') and b is not None and v.m.match(
                'ELEM(self.dataloader)', b) is not None, h,
            'its outputs are judged')
    ck.ob('val-result', v.m.match('self.evaluator.evaluate(...)', v.ret())
          is not None, v, 'the metrics are reported')


def check_export(ck):
    s = ck.fn(G + '._save_searched_subnet', opaque=(
        '_channel_bins2choices', 'export_fix_subnet', 'convert_fix_subnet'))
    sc = s.calls('self.model.mutator.set_choices(_c)')
    ex = s.calls('export_fix_subnet(...)')
    du = s.calls('fileio.dump(_o, _p)')
    Z = 'zip(self.searched_subnet, self.searched_subnet_flops)'
    for n, hs in (('applied', sc), ('exported', ex), ('saved', du)):
        ck.ob('export-each', bool(hs) and all(
            len(h.e.loops) == 1 and whole(s, h.e.loops[0]) and over(
                s, h.e.loops[0], 'self.searched_subnet') and f_equiv(
                    case(s, h.e.guard, {'self.runner.rank == 0': True}),
                    True) for h in hs), s, 'every recorded subnet is %s' % n)
    for h in sc:
        ck.ob('export-own', s.derives(
            h.b['_c'], 'self._channel_bins2choices(ELEM('
            'self.searched_subnet))'), h, 'the recorded subnet is applied')
    ck.order('export-order', sc, ex, s, 'before it is exported')
    for h in ex:
        ck.ob('export-model', s.m.match('self.model', h.arg(0, 'model') or
                                        NONE) is not None, h,
              'from the supernet')
    for h in du:
        ck.ob('export-content', s.derives(
            h.b['_o'], 'export_fix_subnet(...)[0]'), h, 'its choices are '
            'saved')
        ck.ob('export-name', s.derives(
            h.b['_p'], 'ELEM(self.searched_subnet_flops)') and s.derives(
                h.b['_p'], 'self.runner.work_dir'), h, 'under its resource')
    r = ck.fn(G + '.run', opaque=OPQ)
    fin = r.calls('self._save_searched_subnet()')
    ck.ob('export-last', len(fin) == 1 and fin[0].unconditional() and all(
        h.e.seq < fin[0].e.seq for h in r.calls(
            'self.searched_subnet.append(_)')), r, 'the recorded subnets '
        'are exported at the end')


def check(ck):
    ck.sections(check_trials, check_records, check_val, check_export)
