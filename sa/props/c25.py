"""C25 validation passes: evaluation mode, all batches, the intended model,
every model's metrics under its own name."""
import ast

from .common import *
from .c21 import possible

PKG = 'mmrazor.engine.runner'
STEP = ('run_iter', 'run_iter_teacher', 'val_step', 'test_step')
KILL = ('train', 'calibrate_bn_statistics', 'requires_grad_')


def check(ck):
    ck.sections(passes, hooks, iterations, distill, self_distill, slimmable,
                subnets, original, pruned, calibration)


def subject(ck):
    """functions of the loops which evaluate over a data loader"""
    out = []
    for n, m in sorted(ck.prog.modules.items()):
        if not n.startswith(PKG):
            continue
        for c in m.classes.values():
            for f in c.methods.values():
                s = ck.func_summary(f, c, opaque=(
                    'add_prefix', '_evaluate_once', '_val_candidate',
                    '_val_subnet', 'run_epoch', 'calibrate_bn_statistics',
                    '_save_fix_subnet', 'set_choices', 'run'))
                if evals(s) and not helper(c, s):
                    out.append((c, s))
    return out


def helper(c, s):
    """part of another method of its class"""
    n = s.func.qual.rpartition('.')[2]
    return not steps(s) and n.startswith('_') and any(
        isinstance(x, ast.Attribute) and x.attr == n
        for f in c.methods.values() for x in ast.walk(f.node))


def evals(s):
    return [h for h in s.calls('self.evaluator.evaluate(...)')]


def loader(s, lid):
    """the data loader a loop runs over"""
    it = s.E.loops[lid]['iter']
    if it is not None and it[0] == 'attr' and it[1] == SELF and \
            'dataloader' in it[2]:
        return it
    return None


def steps(s):
    """[(hit, loop)]: executions of the model on a batch"""
    out = []
    for h in s.calls('_(...)'):
        f = h.e.func
        if f[0] != 'attr' or f[2] not in STEP or len(h.e.frames) > 1 and \
                f[2] != 'val_step':
            continue
        ls = [l for l in h.e.loops if loader(s, l)]
        if ls:
            out.append((h, ls[-1]))
    return out


def passes(ck):
    n = 0
    for c, s in subject(ck):
        st = steps(s)
        lids = sorted({l for _, l in st})
        ev = evals(s)
        ck.need('pass', lids, s, '%s runs batches before it evaluates' %
                s.func.qual.rpartition('.')[2])
        modes = [h for h in s.calls('_(...)') if h.e.func[0] == 'attr' and
                 h.e.func[2] in KILL + ('eval',)]
        spans = []
        for l in lids:
            n += 1
            hs = [h for h, k in st if k == l]
            first = min(h.e.seq for h in hs)
            last = max(h.e.seq for h in hs)
            spans.append((first, last, l))
            ck.ob('all-batches', whole(s, l) and not
                  s.E.loops[l]['continues'], hs[0], 'a pass runs over the '
                  'whole data set')
            L = loader(s, l)
            for h in hs:
                outer = s.E.loops[l]
                ck.ob('all-batches', f_implies(s.m.skey(s.m.norm(
                    guard_of(s, l))), s.m.skey(s.m.norm(h.e.guard))), h,
                      'every batch is evaluated')
                ck.ob('own-batch', any(
                    same(s, a, ('elem', s.E.loops[l]['iter'], l)) or s.match(
                        a, 'ELEM(self.%s)' % L[2]) is not None
                    for a in h.e.args), h, 'on the batch of the step')
                if h.e.func[2] == 'run_iter' and len(h.e.args) > 1:
                    ck.ob('own-batch', h.e.args[0] == (
                        'idx', l, s.E.loops[l]['iter']) or h.e.args[0][
                            0] == 'idx', h, 'and its number')
            # evaluation mode
            before = [m for m in modes if m.e.seq < first]
            ok = bool(before) and before[-1].e.func[2] == 'eval'
            ck.ob('eval-mode', ok, hs[0], 'the model is put into evaluation '
                  'mode before the first batch')
            if ok:
                m = before[-1]
                ck.ob('eval-mode', s.match(m.e.func[1], 'OR(self.runner.'
                      'model, self.model)') is not None, m, 'the whole model')
                ck.ob('eval-mode', all(f_implies(s.m.skey(s.m.norm(
                    h.e.guard)), s.m.skey(s.m.norm(m.e.guard)))
                    for h in hs) and set(m.e.loops) <= set(
                        hs[0].e.loops) - {l}, m, 'on every path to the '
                    'batches')
            ck.ob('eval-mode', not [m for m in modes if l in m.e.loops], hs[
                0], 'and stays in it')
        spans.sort()
        for i, (a, b, l) in enumerate(spans):
            nxt = spans[i + 1][0] if i + 1 < len(spans) else 10 ** 9
            own = [h for h in ev if b < h.e.seq < nxt]
            ck.ob('evaluated', len(own) == 1, s, 'the metrics are computed '
                  'once after each pass')
            for h in own:
                parents = [x for x in st if x[1] == l][0][0].e.loops
                ck.ob('evaluated', tuple(h.e.loops) == tuple(parents[
                    :parents.index(l)]), h, 'after its last batch')
                L = loader(s, l)
                ck.ob('sample-count', s.match(h.e.args[0] if h.e.args else
                      NONE, 'len(self.%s.dataset)' % L[2]) is not None, h,
                      'for as many samples as the data set has')
        for h in s.calls('_.val_step(...)'):
            if not [l for l in h.e.loops if loader(s, l)]:
                continue
            processed(ck, s, h)
    ck.floor('validation passes', n, 9)


def guard_of(s, l):
    """under which the loop runs"""
    for e in s.ev:
        if e.kind == 'iter' and e.seq < first_in(s, l) and same_iter(s, e, l):
            g = e.guard
    try:
        return g
    except UnboundLocalError:
        return False


def first_in(s, l):
    return min([e.seq for e in s.ev if l in e.loops] or [10 ** 9])


def same_iter(s, e, l):
    L = s.E.loops[l]
    return e.term == L['raw'] or e.term == L['iter']


def processed(ck, s, h):
    """the predictions of a step go to the evaluator with their batch"""
    ps = [p for p in s.calls('self.evaluator.process(...)')
          if p.e.seq > h.e.seq and p.e.loops == h.e.loops and any(
              same(s, v, h.e.term) for v in list(p.e.args) + [
                  v for k, v in p.e.kwargs])]
    ck.ob('processed', bool(ps), h, 'what the model predicts is evaluated')
    for p in ps:
        out = p.arg(0, 'data_samples') or NONE
        ck.ob('processed', same(s, out, h.e.term), p, 'as its predictions')
        ck.ob('processed', same(s, p.arg(1, 'data_batch') or NONE,
                                h.e.args[0]), p,
              'together with their batch')
        ck.ob('processed', f_equiv(s.m.skey(p.e.guard), s.m.skey(
            h.e.guard)), p, 'always')
    ck.ob('no-grad', no_grad(h), h, 'no gradients are tracked')


# ------------------------------------------------------------------- hooks
def hooks(ck):
    n = 0
    for name, m in sorted(ck.prog.modules.items()):
        if not name.startswith(PKG):
            continue
        for c in m.classes.values():
            for f in c.methods.values():
                s = ck.func_summary(f, c, opaque=(
                    'run_iter_teacher', 'run_iter', '_evaluate_once',
                    'run_epoch', 'run', '_val_candidate'))
                ev = [h for h in s.calls('_.call_hook(...)') if h.e.args
                      and h.e.args[0][0] == 'const']
                if ev:
                    n += paired(ck, s, ev)
    ck.floor('events fired', n, 12)


def paired(ck, s, ev):
    kinds = {h.e.args[0][1].partition('_')[2] for h in ev}
    n = 0
    for k in sorted(kinds):
        open_ = None
        for h in sorted([h for h in ev if h.e.args[0][1].partition('_')[2]
                         == k], key=lambda h: h.e.seq):
            n += 1
            w = h.e.args[0][1].partition('_')[0]
            if w == 'before':
                ck.ob('events', open_ is None, h, '%s is entered once '
                      'before it is left' % k)
                open_ = h
            else:
                ok = open_ is not None and open_.e.loops == h.e.loops and \
                    f_equiv(s.m.skey(open_.e.guard), s.m.skey(h.e.guard))
                ck.ob('events', ok, h, '%s is left exactly when it was '
                      'entered' % k)
                open_ = None
        ck.ob('events', open_ is None, s, '%s is left again' % k)
    for a, b in (('val', 'val_epoch'), ('test', 'test_epoch'),
                 ('train', 'train_epoch')):
        o = [h.e.seq for h in ev if h.e.args[0][1].endswith('_' + a)]
        i = [h.e.seq for h in ev if h.e.args[0][1].endswith('_' + b)]
        if o and i:
            ck.ob('events', min(o) < min(i) and max(i) < max(o), s,
                  '%s lies within %s' % (b, a))
    # batches lie within the epoch
    ep = [h for h in ev if h.e.args[0][1].endswith('_epoch')]
    if ep:
        for h, l in steps(s):
            ck.ob('events', any(x.e.args[0][1].startswith('before') and
                                x.e.seq < h.e.seq for x in ep) and any(
                x.e.args[0][1].startswith('after') and x.e.seq > h.e.seq
                for x in ep), h, 'batches run inside the epoch')
        for h in evals(s):
            ck.ob('events', any(x.e.args[0][1].startswith('after') and
                                x.e.seq > h.e.seq for x in ep), h, 'the '
                  'epoch ends after the evaluation')
    return n


def iterations(ck):
    """own steps announce their batch"""
    n = 0
    for name, m in sorted(ck.prog.modules.items()):
        if not name.startswith(PKG):
            continue
        for c in m.classes.values():
            for fn in ('run_iter', 'run_iter_teacher'):
                f = c.methods.get(fn)
                if f is None or 'idx' not in f.params():
                    continue
                s = ck.func_summary(f, c)
                vs = s.calls('_.val_step(data_batch)')
                if not vs and not s.calls('_.calibrate_step(data_batch)'):
                    continue
                n += 1
                for h in vs:
                    processed(ck, s, h)
                    ck.ob('every-step', h.unconditional(), h, 'every step '
                          'predicts')
                ev = [h for h in s.calls('_.call_hook(...)') if h.e.args]
                for h in ev:
                    kw = dict(h.e.kwargs)
                    ck.ob('announced', kw.get('batch_idx') == (
                        'param', 'idx') and kw.get('data_batch') == (
                            'param', 'data_batch'), h, 'events name the '
                        'batch')
                    if h.e.args[0][1].startswith('after') and vs:
                        ck.ob('announced', same(s, kw.get('outputs') or
                                                NONE, vs[0].e.term), h,
                              'and what was predicted')
    ck.floor('own steps', n, 2)


# ------------------------------------------------------------------ report
def reported(s, t):
    """[(label terms, metrics term, entry)] of a mapping of metrics"""
    out = []
    t = strip_all(s, t)
    for g, x in leaves(s, t):
        if s.match(x, OPAQUE) is not None:
            out.append(((), pass_of(s, x), None))
    for e in entries(s, t):
        k, v = e.key, e.value
        b = s.match(v, '_m[_k]') or s.match(v, 'ELEM(_m.items())[1]')
        m = v
        for _ in range(4):
            if s.match(m, OPAQUE) is not None:
                break
            m = inner(s, m)
            if m is None:
                break
        if m is None:
            continue
        lab = label(s, k)
        if lab is None:
            lab = ('?',)
        out.append((lab, pass_of(s, m), e))
    # merged with a prefix
    for x in s.m.deep(t):
        if x[0] != 'alloc':
            continue
        for e in s.m.contents_events(x):
            if e.kind == 'call' and e.func[0] == 'attr' and e.func[2] == \
                    'update' and e.args:
                merged(s, e.args[0], out, e)
        for k, v in x[2] if x[1] == 'dict' else ():
            if k is None or k == NONE or k[0] == 'star':
                merged(s, v, out, None)
                for lab, m, e in reported(s, v) if v[0] == 'alloc' else ():
                    out.append((lab, m, e))
    return out


def merged(s, v, out, e):
    b = s.match(v, 'add_prefix(_m, _p)')
    if b is None:
        if s.match(v, OPAQUE) is not None:
            out.append(((), pass_of(s, v), e))
        return
    out.append(((('prefix', b['_p']),), pass_of(s, b['_m']), e))


OPAQUE = 'OR(self.evaluator.evaluate(...), self._evaluate_once())'


def pass_of(s, t):
    """the evaluation a term stands for"""
    for f in s.m.forms(t):
        if any(f == M.e.term for M in evals(s)):
            return f
    return t


def strip_all(s, t):
    return t


def inner(s, m):
    """the mapping an item comes from"""
    if m[0] == 'sub':
        return m[1]
    if m[0] == 'elem':
        return m[1]
    if m[0] == 'call' and m[1][0] == 'attr' and m[1][2] in ('items',
                                                           'values', 'get'):
        return m[1][1]
    return None


def label(s, k):
    """constant parts in front of the name of the metric"""
    f = list(s.m.forms(k))[-1]
    if f[0] == 'fstr' or f[0] == 'str':
        parts = f[1] if isinstance(f[1], tuple) else f[1:]
        return tuple(parts[:-1])
    if f[0] == 'elem' or f[0] == 'sub':
        return ()
    b = s.match(k, 'STR(_a, _b)')
    if b:
        return (b['_a'],)
    b = s.match(k, 'STR(_a, _c, _b)')
    if b:
        return (b['_a'], b['_c'])
    return None


def shows(lab):
    return ''.join('%s' % (x[1] if x[0] == 'const' else show(x))
                   for x in lab) if lab and lab != ('?',) else str(lab)


def report(ck, s, want):
    """want: {label: which pass}; every pass under its own label"""
    after = [h for h in s.calls('_.call_hook(...)') if h.e.args and
             h.e.args[0] == ('const', 'after_val_epoch')]
    ck.need('reported', after, s, 'metrics are reported')
    got = []
    for h in after:
        m = dict(h.e.kwargs).get('metrics')
        ck.ob('reported', m is not None, h, 'with the metrics')
        if m is not None:
            got.append(reported(s, m))
    ret = [x for g, v in leaves(s, s.ret()) for x in reported(s, v)]
    flat = [x for r in got for x in r]
    for what, src in (('reported', flat), ('returned', ret)):
        for M in evals(s):
            own = [l for l, m, e in src if m == M.e.term]
            ck.ob(what, len(own) >= 1, M, 'the metrics of every pass are %s'
                  % what)
        labs = {}
        for l, m, e in src:
            labs.setdefault(shows(l), []).append(m)
        for l, ms in labs.items():
            ck.ob('own-name', all(ms[0] == m for m in ms), s,
                  'metrics of different models have different names [%s]'
                  % l)
    return flat, ret


def named(ck, s, src, M, text, who):
    own = [shows(l) for l, m, e in src if m == M.e.term]
    ck.ob('own-name', bool(own) and all(x == text for x in own), M,
          'the metrics of %s are reported as %r [%s]' % (who, text, own))
    for l, m, e in src:
        if e is not None and isinstance(e, Entry) and m == M.e.term:
            ck.ob('complete', e.guard is True or f_equiv(s.m.skey(
                e.guard), s.m.skey(M.e.guard)), M, 'all of them')
            ck.ob('complete', all(whole(s, x) and not s.E.loops[x][
                'continues'] for x in e.loops), M, 'all of them')
            ck.ob('own-value', own_item(s, e), M, 'each with its own value')


def own_item(s, e):
    """the value belongs to the name in the key"""
    k = list(s.m.forms(e.key))[-1]
    names = [x for x in walk(full(s, e.key)) if x[0] in ('elem',)]
    v = e.value
    for n in names:
        if s.match(v, 'ELEM(_m.items())[1]') is not None and v[1][2:] == \
                n[2:]:
            return True
        if any(y == n for y in walk(full(s, v))):
            return True
    return False


# ---------------------------------------------------------------- distill
def distill(ck):
    s = ck.fn('SingleTeacherDistillValLoop.run', opaque=('run_iter_teacher',))
    st = steps(s)
    ev = evals(s)
    flat, ret = report(ck, s, None)
    for h, l in st:
        nx = [m for m in ev if m.e.seq > h.e.seq]
        if not nx:
            continue
        M = min(nx, key=lambda m: m.e.seq)
        if h.e.func[2] == 'run_iter':
            named(ck, s, flat, M, '()', 'the student')
        else:
            named(ck, s, flat, M, 'teacher.', 'the teacher')
    ck.ob('both-models', {h.e.func[2] for h, l in st} == {
        'run_iter', 'run_iter_teacher'}, s, 'student and teacher are '
        'evaluated')
    t = ck.fn('SingleTeacherDistillValLoop.run_iter_teacher')
    vs = t.calls('_.val_step(...)')
    ck.need('teacher-model', vs, t, 'the teacher predicts')
    for h in vs:
        ck.ob('teacher-model', t.match(h.e.func[1], 'self.teacher')
              is not None, h, 'its own predictions')
    i = ck.fn('SingleTeacherDistillValLoop.__init__')
    of_model(ck, i, 'teacher')


def of_model(ck, i, name):
    hs = i.sets('self', name)
    ck.need('own-model', hs, i, 'the %s comes from the algorithm' % name)
    for dist in (True, False):
        for h in hs:
            for g, v in leaves(i, h.e.value, h.e.guard):
                if not possible(i, case(i, g, {
                        'self.runner.distributed': dist,
                        'runner.distributed': dist})):
                    continue
                m = 'OR(self.runner.model%s, runner.model%s)' % (
                    ('.module', '.module') if dist else ('', ''))
                ck.ob('own-model', i.match(v, '%s.%s' % (m, name))
                      is not None or i.match(v, '%s' % m) is not None and
                      name in ('_model', 'model'), h, 'the %s is the one '
                      'of the %smodel' % (name, 'wrapped ' if dist else ''))
    ck.ob('own-model', f_equiv(i.m.skey(i.m.norm(jointly(hs))), True), i,
          'in every mode')
    if name in ('_model', 'model'):
        return
    ds = [h for h in i.sets('_', 'data_preprocessor') if i.match(
        h.e.base, 'OR(self.%s, _.%s)' % (name, name)) is not None]
    ck.ob('preprocessor', f_equiv(i.m.skey(i.m.norm(jointly(ds))), True), i,
          'the %s prepares its data like the algorithm in every mode' % name)
    for h in ds:
        ck.ob('preprocessor', any(i.match(
            v, '_.data_preprocessor') is not None
            for g, v in leaves(i, h.e.value)), h, 'it prepares its data like '
            'the algorithm')


def self_distill(ck):
    s = ck.fn('SelfDistillValLoop.run')
    flat, ret = report(ck, s, None)
    for M in evals(s):
        named(ck, s, flat, M, 'student.', 'the student')


# --------------------------------------------------------------- slimmable
def slimmable(ck):
    s = ck.fn('SlimmableValLoop.run', opaque=('add_prefix',))
    report(ck, s, None)
    sc = s.calls('self._model.mutator.set_choices(_)')
    ck.need('set-subnet', sc, s, 'every subnet is set')
    st = steps(s)
    ck.order('set-subnet', sc, [h for h, l in st], s, 'before its first '
             'batch')
    for h, l in st:
        out = [x for x in h.e.loops if x != l]
        ok = [x for x in out if over(s, x, 'self._model.mutator.subnets')]
        ck.ob('all-subnets', bool(ok) and all(whole(s, x) and not s.E.loops[
            x]['continues'] for x in ok), h, 'every subnet is evaluated')
        for c in sc:
            ck.ob('set-subnet', tuple(c.e.loops) == tuple(
                x for x in h.e.loops if x != l) and s.match(
                    c.e.args[0], 'ELEM(self._model.mutator.subnets)')
                is not None and c.unconditional(), c, 'the subnet of the '
                'pass is set')
    late = [c for c in sc for h, l in st if l in c.e.loops]
    ck.ob('set-subnet', not late, s, 'and not changed during the pass')
    ups = [h for h in s.calls('add_prefix(_, _)')]
    ck.need('own-name', ups, s, 'the metrics of a subnet get its name')
    for h in ups:
        p = h.e.args[1]
        ck.ob('own-name', bool(s.find(full(s, p), 'IDX(self._model.mutator.'
              'subnets)')), h, 'numbered by the subnet')
        ck.ob('own-name', any(same(s, h.e.args[0], M.e.term)
                              for M in evals(s)), h, 'the metrics of its '
              'pass')
    i = ck.fn('SlimmableValLoop.__init__')
    of_model(ck, i, '_model')


# ----------------------------------------------------------------- subnets
def subnets(ck):
    s = ck.fn('SubnetValLoop.run', opaque=('_evaluate_once', 'add_prefix'))
    evs = s.calls('self._evaluate_once()')
    ck.need('subnets', evs, s, 'subnets are evaluated')
    flat = s.calls('_.call_hook(...)')
    K = 'ELEM(self.model.sample_kinds)'
    table = (('max', 'set_max_choices()', {'%s == "max"' % K: True}),
             ('min', 'set_min_choices()', {
                 '%s == "max"' % K: False, '%s == "min"' % K: True}),
             ('random', 'set_choices(self.model.mutator.sample_choices())', {
                 '%s == "max"' % K: False, '%s == "min"' % K: False,
                 '"random" in %s' % K: True}))
    BASE = {'self.evaluate_fixed_subnet': False,
            'hasattr(self.model, "sample_kinds")': True}
    muts = {k: s.calls('self.model.mutator.%s' % p) for k, p, d in table}
    allm = [h for h in s.calls('self.model.mutator._(...)')
            if h.e.func[2].startswith('set_')]
    used = s.calls('add_prefix(_, _)')
    for k, p, d in table:
        dd = dict(BASE, **d)
        live = [h for h in evs if possible(s, case(s, h.e.guard, dd))]
        ck.ob('subnets', len(live) == 1, s, 'a %s subnet is evaluated once '
              'when asked for' % k)
        if len(live) != 1:
            continue
        h = live[0]
        ck.ob('subnets', any(over(s, l, 'self.model.sample_kinds') and
                             whole(s, l) and not s.E.loops[l]['continues']
                             for l in h.e.loops), h, 'for every kind')
        pre = [m for m in allm if m.e.seq < h.e.seq and possible(
            s, case(s, m.e.guard, dd))]
        ck.ob('set-subnet', bool(pre) and any(
            same_hit(pre[-1], m) for m in muts[k]) and f_equiv(
                s.m.skey(case(s, pre[-1].e.guard, dd)), s.m.skey(case(
                    s, h.e.guard, dd))), h, 'the %s subnet is set first' % k)
        own = [x for x in used if any(same(s, x.e.args[0], h.e.term) or
                                      strip(h.e.term) in {
                                          strip(y) for y in walk(full(
                                              s, x.e.args[0]))}
               for _ in (0,)) and possible(s, case(s, x.e.guard, dd))]
        ck.ob('own-name', bool(own), h, 'its metrics are reported')
        for x in own:
            t = leaves(s, x.e.args[1], x.e.guard)
            for g, v in t:
                if not possible(s, case(s, g, dd)):
                    continue
                if k == 'random':
                    ok = bool(s.find(full(s, v), K))
                else:
                    ok = v == ('const', k + '_subnet') or bool(
                        s.find(full(s, v), K))
                ck.ob('own-name', ok, x, 'under the name of the kind [%s]' %
                      show(v))
    fx = {'self.evaluate_fixed_subnet': True}
    live = [h for h in evs if possible(s, case(s, h.e.guard, fx))]
    ck.ob('fixed', len(live) == 1 and not live[0].e.loops, s, 'a fixed '
          'subnet is evaluated once')
    ck.ob('fixed', not [m for m in allm if possible(s, case(
        s, m.e.guard, fx))], s, 'as it is')
    # all go into the report
    ups = [h for h in s.calls('_.update(_)')]
    for x in used:
        ck.ob('reported', any(u.e.seq > x.e.seq and same(
            s, u.e.args[0], x.e.term) for u in ups), x, 'the metrics are '
            'reported')
    after = [h for h in flat if h.e.args and h.e.args[0] == (
        'const', 'after_val_epoch')]
    for h in after:
        m = dict(h.e.kwargs).get('metrics')
        ck.ob('reported', m is not None and all(
            same(s, u.e.func[1], m) for u in ups), h, 'all of them')
        ck.ob('returned', any(same(s, v, m) for g, v in leaves(
            s, s.ret())), h, 'and returned')
    o = ck.fn('SubnetValLoop._evaluate_once', opaque=(
        'calibrate_bn_statistics',))
    cal = o.calls('self.calibrate_bn_statistics(...)')
    ck.always('calibrated', cal, o, 'batch norms are calibrated for the '
              'subnet')
    ck.order('calibrated', cal, [h for h, l in steps(o)], o, 'before it is '
             'evaluated')
    for h in cal:
        ck.ob('calibrated', o.match(h.arg(0, 'dataloader'), 'self.runner.'
              'train_dataloader') is not None and o.match(
                  h.arg(1, 'calibrate_sample_num'),
                  'self.calibrate_sample_num') is not None, h, 'on the '
              'configured number of training samples')
    ck.ob('returned', all(any(same(o, v, M.e.term) for M in evals(o))
                          for g, v in leaves(o, o.ret())), o, 'the metrics '
          'of the subnet are returned')
    es = o.calls('self.estimator.estimate(self.model)')
    ck.always('resources', es, o, 'with the resources of the subnet')
    for h in es:
        ck.ob('resources', any(same(o, u.e.args[0], h.e.term) for u in
                               o.calls('_.update(_)')), h, 'in its metrics')
    i = ck.fn('SubnetValLoop.__init__')
    of_model(ck, i, 'model')


def same_hit(a, b):
    return a.e.seq == b.e.seq


# ------------------------------------------------------------ quantization
def original(ck):
    s = ck.fn('QATValLoop.run', opaque=('run_iter',))
    st = steps(s)
    ev = evals(s)
    flat, ret = report(ck, s, None)
    seen = set()
    for h, l in st:
        m = h.arg(2, 'model')
        nx = [x for x in ev if x.e.seq > h.e.seq]
        if m is None or not nx:
            ck.ob('own-model', False, h, 'the pass names its model')
            continue
        M = min(nx, key=lambda x: x.e.seq)
        if s.match(m, 'self.architecture') is not None:
            seen.add('original.')
            named(ck, s, flat, M, 'original.', 'the original model')
            named(ck, s, ret, M, 'original.', 'the original model')
        elif s.match(m, 'self.runner.model') is not None:
            seen.add('qat.')
            named(ck, s, flat, M, 'qat.', 'the quantized model')
            named(ck, s, ret, M, 'qat.', 'the quantized model')
        else:
            ck.ob('own-model', False, h, 'unknown model')
    ck.ob('both-models', seen == {'original.', 'qat.'}, s, 'the quantized '
          'and the original model are evaluated')
    r = ck.fn('QATValLoop.run_iter')
    for h in r.calls('_.val_step(...)'):
        ck.ob('own-model', h.e.func[1] == ('param', 'model'), h, 'the given '
              'model predicts')
    i = ck.fn('QATValLoop.__init__')
    of_model(ck, i, 'architecture')


def pruned(ck):
    s = ck.fn('PTQLoop.run', opaque=('run_iter',))
    vs = s.calls('self.runner.val_loop.run()')
    ck.always('validated', vs, s, 'the quantized model is validated')
    for h in vs:
        ck.ob('returned', all(h.e.term in s.m.forms(v)
                                  for g, v in leaves(s, s.ret())),
              h, 'its metrics are returned')
        for x in s.calls('_.call_hook("after_test_epoch", ...)'):
            ck.ob('reported', h.e.term in s.m.forms(dict(
                x.e.kwargs).get('metrics') or NONE), x,
                  'and reported')
    s = ck.fn('ItePruneValLoop.run', opaque=('_save_fix_subnet',))
    flat, ret = report(ck, s, None)
    for M in evals(s):
        named(ck, s, flat, M, '()', 'the model')
    sv = s.calls('self._save_fix_subnet()')
    ck.always('saved', sv, s, 'the pruned model is saved')


def calibration(ck):
    """searches evaluate candidates the same way"""
    for n in ('EvolutionSearchLoop._val_candidate',
              'AutoSlimGreedySearchLoop._val_subnet',
              'GreedySamplerTrainLoop._val_candidate'):
        s = ck.fn(n, opaque=('calibrate_bn_statistics',), optional=True)
        if s is None:
            continue
        ev = evals(s)
        ck.need('returned', ev, s, 'candidates are evaluated')
        for g, v in leaves(s, s.ret()):
            ck.ob('returned', any(same(s, v, M.e.term) for M in ev) or
                  s.match(v, 'self.predictor.predict(...)') is not None and
                  not possible(s, case(s, g, {'use_predictor': False})), s,
                  'the metrics of the candidate are returned')
