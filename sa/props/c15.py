"""C15 an interrupted search resumes from what it saved."""
from .common import *

EVO, GREEDY = 'EvolutionSearchLoop', 'AutoSlimGreedySearchLoop'


def saved_keys(s):
    """[(key, value ok, guard, hit)] of the dumped mapping"""
    out = []
    du = s.calls('fileio.dump(_o, _p)') + s.calls('torch.save(_o, _p)')
    for d in du:
        for e in entries(s, d.b['_o']):
            ks = []
            if e.key[0] == 'const':
                ks = [e.key[1]]
                ok = s.m.match('self.%s' % e.key[1], e.value) is not None
                out.append((e.key[1], ok, e.guard, d))
                continue
            for x in s.m.forms(e.key):
                if x[0] != 'elem':
                    continue
                for y in s.m.forms(x[1]):
                    if y[0] in ('tuple',):
                        ks = [z[1] for z in y[1] if z[0] == 'const']
                    elif y[0] == 'alloc':
                        ks = [z[1] for z in y[2] if z[0] == 'const']
                ok = any(v[0] == 'attr' and v[1] == SELF and not isinstance(
                    v[2], str) and same(s, v[2], x)
                    for v in s.m.forms(e.value)) and all(
                        whole(s, l) for l in e.loops)
                for k in ks:
                    out.append((k, ok, e.guard, d))
    return du, out


def restored(s):
    """'all' or the set of attributes taken from the loaded mapping;
    other stores"""
    L = 'OR(fileio.load(_), torch.load(_))'
    out, other = set(), []
    for h in s.kind('setattr'):
        if h.e.base != SELF:
            continue
        n, v = h.e.attr, h.e.value
        if isinstance(n, tuple):
            b = s.m.match('_d[_k]', v)
            ok = b is not None and s.derives(b['_d'], L) and same(
                s, b['_k'], n) and s.m.match('ELEM(_d)', n) is not None and \
                s.derives(s.m.match('ELEM(_d)', n)['_d'], L) and \
                h.unconditional() and all(whole(s, l) for l in h.e.loops)
            if ok:
                out.add('all')
            else:
                other.append(h)
        elif s.m.match("_d['%s']" % n, v) is not None and s.derives(v, L):
            if h.unconditional():
                out.add(n)
        else:
            other.append(h)
    return out, other


def live_state(s):
    """attributes of self the step reads before writing, and writes"""
    wrote, live = {}, set()
    for e in s.ev:
        if e.kind == 'setattr' and e.base == SELF and isinstance(
                e.attr, str):
            wrote.setdefault(e.attr, e.seq)
        if e.kind == 'call' and e.func[0] == 'attr' and e.func[2] in (
                'append', 'extend', 'add', 'update', 'insert'):
            b = e.func[1]
            if b[0] == 'attr' and b[1] == SELF and isinstance(b[2], str):
                wrote.setdefault(b[2], e.seq)
                live.add(b[2])
    for a in wrote:
        for e in s.ev:
            if e.seq > wrote[a] and not e.loops:
                continue
            ts = [e.term, e.value, e.base, e.func] + list(e.args or ()) + [
                v for _, v in e.kwargs or ()]
            if e.kind in ('setattr', 'augattr') and e.attr == a:
                ts = [e.value]
            for t in ts:
                if isinstance(t, tuple) and any(
                        x[0] == 'attr' and x[1] == SELF and x[2] == a and
                        x[3] == 0 for x in all_terms(t)):
                    live.add(a)
            if e.guard not in (True, False):
                for at in f_atoms(e.guard):
                    if any(x[0] == 'attr' and x[1] == SELF and x[2] == a
                           and x[3] == 0 for x in all_terms(at)):
                        live.add(a)
    return live & set(wrote)


def all_terms(t):
    if isinstance(t, tuple):
        if t and t[0] == 'attr' and len(t) == 4:
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from all_terms(x)


def check_loop(ck, name, step, state_from, opaque):
    sv = ck.fn(name + '._save_searcher_ckpt')
    du, keys = saved_keys(sv)
    ck.need('saved', du, sv, 'the progress of the search is saved')
    st = ck.fn(name + '.' + state_from, opaque=opaque)
    live = live_state(st) - {'candidates_mutator_crossover'}
    ck.floor('pieces of search progress', len(live), 2)
    names = {k for k, ok, g, d in keys}
    for a in sorted(live):
        ck.ob('saved-piece', a in names, sv, 'every piece of progress is '
              'saved [%s]' % a, construct='%s._save_searcher_ckpt %s' % (
                  name, a))
    rank = {'self.runner.rank == 0': True}
    for k, ok, g, d in keys:
        ck.ob('saved-under', ok, d, 'a piece is saved under its own name '
              '[%s]' % k)
        ck.ob('saved-when', f_equiv(case(sv, g, rank), True), d,
              'at every save [%s]' % k)
    for d in du:
        ck.ob('saved-always', f_equiv(case(sv, d.e.guard, rank), True), d,
              'every save writes a checkpoint')
        ck.ob('saved-where', sv.derives(d.b['_p'], 'self.runner.work_dir'),
              d, 'into the work directory')
        for it in sv.kind('setitem'):
            ck.ob('saved-complete', it.e.seq < d.e.seq, it, 'the checkpoint '
                  'is written when complete')
    rs = ck.fn(name + '._resume')
    back, other = restored(rs)
    for a in sorted(live):
        ck.ob('restored-piece', 'all' in back or a in back, rs, 'every '
              'piece is restored to where it was saved from [%s]' % a)
    for h in rs.kind('call'):
        if rs.m.match('OR(fileio.load(_p), torch.load(_p))', h.e.term) \
                is None:
            continue
        ck.ob('resume-file', rs.derives(h.e.term, 'self.resume_from'), h,
              'the checkpoint resumed from is the given one')
    bcast = rs.calls('broadcast_object_list(...)')
    for h in rs.kind('setattr'):
        if h.e.base != SELF:
            continue
        ck.ob('resume-everywhere', bool(bcast) or not any(
            rs.m.match('self.runner.rank', x) is not None
            for a in f_atoms(rs.m.norm(h.e.guard))
            for x in all_terms(a)), h, 'every process of a distributed '
            'search resumes')
    for h in other:
        ck.ob('resume-only', False, h, 'resuming changes nothing but the '
              'progress', construct='%s._resume %s' % (name, h.e.attr))
    run = ck.fn(name + '.run', opaque=opaque + (
        'run_epoch', '_save_searcher_ckpt', '_resume', '_init_predictor',
        '_save_best_fix_subnet', '_save_searched_subnet'))
    rc = run.calls('self._resume()')
    sc = run.calls('self._save_searcher_ckpt()')
    ck.ob('resume-asked', len(rc) == 1 and f_equiv(
        run.m.norm(rc[0].e.guard), run.m.norm(
            ('atom', ('attr', SELF, 'resume_from', 0)))), run,
        'the search resumes exactly when asked to')
    loops = [h for h in run.kind('iter', 'while')]
    ck.ob('resume-first', bool(rc) and not rc[0].e.loops and all(
        rc[0].e.seq < h.e.seq for h in loops), run, 'before it goes on')
    ck.need('save-step', sc, run, 'progress is saved while searching')
    work = run.calls('self.%s(...)' % step) if step else run.sets(
        'self', 'current_flops') + run.sets('self', 'current_subnet')
    ck.need('step', work, run, 'the search advances')
    for h in sc:
        ck.ob('save-each', bool(h.e.loops) and all(
            w.e.loops == h.e.loops and f_equiv(
                run.m.skey(w.e.guard), run.m.skey(h.e.guard))
            for w in work), h, 'progress is saved once per step')
        ck.ob('save-after', all(w.e.seq < h.e.seq for w in work), h,
              'when the step is complete')
    ck.ob('save-once', len(sc) == 1, run, 'progress is saved once per step')
    return sv, rs, run


def check_evolution(ck):
    sv, rs, run = check_loop(ck, EVO, 'run_epoch', 'run_epoch', (
        '_val_candidate', '_check_constraints', 'check_subnet_resources'))
    du = sv.calls('fileio.dump(_o, _p)')
    rm = sv.calls('OR(os.remove(_p), os.unlink(_p))')
    for h in rm:
        rg = [sv.m.match('range(_a, _b)', sv.E.loops[l]['iter'])
              for l in h.e.loops if sv.E.loops[l]['iter']]
        rg = [b for b in rg if b]
        ok = any(sv.m.match(p, b['_b']) is not None for b in rg for p in (
            '(self._epoch + 1) - self.max_keep_ckpts',
            'self._epoch - self.max_keep_ckpts + 1',
            'self._epoch - self.max_keep_ckpts'))
        ck.ob('keep-latest', ok, h, 'only checkpoints older than the kept '
              'ones are deleted')
        ck.ob('keep-positive', sv.m.implies(
            h.e.guard, '0 < self.max_keep_ckpts') if True else True, h,
            'at least the latest checkpoint is kept')
    for d in du:
        ck.ob('name-epoch', sv.derives(d.b['_p'], 'self._epoch'), d,
              'each generation is saved under its own name')


def check_greedy(ck):
    sv, rs, run = check_loop(ck, GREEDY, None, 'run', (
        'check_subnet_resources', '_val_subnet', '_save_searcher_ckpt',
        '_resume', '_save_searched_subnet', '_channel_bins2choices'))
    ap = run.calls('self.searched_subnet.append(...)')
    tl = [l for l, i in run.E.loops.items() if i['iter'] is not None and
          run.derives(i['iter'], 'self.target_flops')]
    ck.need('targets', tl, run, 'the targets are handled')
    for l in tl:
        it = run.E.loops[l]['iter']
        cut = [x for x in run.m.deep(it) if x[0] == 'sub' and
               x[2][0] == 'slice']
        tail = len(cut) == 1 and run.m.match(
            'self.target_flops[len(self.searched_subnet):]', it) is not None
        done = [h for h in run.kind('continue', 'break') if h.e.loops and
                h.e.loops[-1] == l]
        for h in done:
            ck.ob('target-skipped', f_implies(
                run.m.skey(h.e.guard), f_or(*[
                    run.m.skey(a.e.guard) for a in ap
                    if a.e.seq < h.e.seq])) if ap else False, h,
                'a target is only left when its subnet is recorded')
        ck.ob('target-resumed', tail or bool(ap) and any(
            'resume_from' in str(h.e.guard) for h in done) and False or tail,
            run, 'the targets which remain are those without a recorded '
            'subnet')


def check(ck):
    ck.sections(check_evolution, check_greedy)
