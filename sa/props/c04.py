"""C04 every configured distillation loss reaches the total."""
from .common import *
from .c03 import model_calls, override_events, last_mode, exclusive


def peel(s, t, g, flags=()):
    """[(guard, wrappers applied outermost first, core)]"""
    out = []
    for lg, x in leaves(s, t, g):
        if s.m.match('_[connector_idx]', x) is not None:
            f = [y for y in s.m.forms(x) if y[0] == 'sub'][0]
            out += peel(s, f[1], lg, flags + ('idx',))
            continue
        b = s.m.match('self.connectors[connector](_a)', x)
        if b is not None:
            out += peel(s, b['_a'], lg, flags + ('connector',))
            continue
        b = s.m.match('_a.detach()', x)
        if b is not None:
            out += peel(s, b['_a'], lg, flags + ('detach',))
            continue
        b = s.m.match('_a.get_record_data(record_idx, data_idx)', x) or \
            s.m.match('_a.get_record_data(record_idx=record_idx, '
                      'data_idx=data_idx)', x)
        if b is not None:
            out += peel(s, b['_a'], lg, flags + ('data',))
            continue
        b = s.m.match('_a.get_recorder(recorder)', x)
        if b is not None:
            out += peel(s, b['_a'], lg, flags + ('get',))
            continue
        out.append((lg, flags, x))
    return out


def check_get_record(ck, c):
    s = ck.fn(c.qual + '.get_record')
    res = peel(s, s.ret(), True)
    cs = {'student': False, 'teacher': False}
    ok = bool(res)
    conn = idx = False
    why = ''
    for g, fl, core in res:
        if s.m.match('self.student_recorders', core) is not None:
            side = 'from_student'
        elif s.m.match('self.teacher_recorders', core) is not None:
            side = 'not from_student'
        else:
            ok, why = False, 'reads %s' % show(core)
            continue
        fl = list(fl)
        det = 'detach' in fl
        while 'detach' in fl:
            fl.remove('detach')
        if fl[-2:] != ['data', 'get']:
            ok, why = False, 'lookup chain %s' % fl
            continue
        w = fl[:-2]
        if w not in ([], ['idx'], ['connector'], ['idx', 'connector']):
            ok, why = False, 'steps %s' % w
        if not s.m.implies(g, side):
            ok, why = False, 'side %s used when %s' % (side, fshow(g))
        gi = 'connector_idx is not None'
        if not s.m.implies(g, gi if 'idx' in w else 'not (%s)' % gi):
            ok, why = False, 'connector index %s when %s' % (
                'used' if 'idx' in w else 'not used', fshow(g))
        gc = 'connector'
        gc2 = 'connector is not None'
        if not s.m.implies(g, gc if 'connector' in w else 'not ' + gc) and \
                not s.m.implies(g, gc2 if 'connector' in w else
                                'not (%s)' % gc2):
            ok, why = False, 'connector %s when %s' % (
                'used' if 'connector' in w else 'not used', fshow(g))
        conn |= 'connector' in w
        idx |= 'idx' in w
        if 'BYOT' in c.name:
            ck.ob('reference-detached', det == (side != 'from_student'), s,
                  'the reference side of a self distillation loss carries '
                  'no gradient, the student side does')
        elif det and side == 'from_student':
            ok, why = False, 'student record detached'
    ck.ob('record-lookup', ok and conn and idx, s,
          'an input is read from the recorder, side, record, data and '
          'connector its mapping names ' + why)


def check_compute(ck, c):
    s = ck.fn(c.qual + '.compute_distill_losses')
    M = 'self.loss_forward_mappings'
    v = s.ret()
    its = into(s, v, 'self.distill_losses[_](...)')
    good = []
    for h in its:
        if h.e.kind != 'setitem':
            continue
        if s.m.match('ELEM(%s)' % M, h.e.attr) is None:
            continue
        if s.m.match('self.distill_losses[ELEM(%s)](...)' % M,
                     h.e.value) is None:
            continue
        if whole_loop(s, h, M) and h.unconditional() and len(
                h.e.loops) == 1:
            good.append(h)
    comp = s.m.match("COMP(_, %s)" % M, v) is not None or (
        v[0] == 'comp' and s.derives(v, 'self.distill_losses[_](...)'))
    ck.ob('loss-returned', len(good) == 1 or comp, s,
          'every configured loss is evaluated and returned under its name')
    calls = s.calls('self.distill_losses[_](...)')
    ok = False
    for h in calls:
        dst = [x for k, x in h.e.kwargs if k is None]
        if h.e.args or len(h.e.kwargs) != 1 or not dst:
            continue
        fs = into(s, dst[0], 'self.get_record(...)')
        for f in fs:
            FM = '%s[ELEM(%s)]' % (M, M)
            gr = [x for x in s.m.forms(f.e.value) if x[0] == 'call' and
                  s.m._m(parse_('self.get_record(...)'), x, {}) is not None]
            if f.e.kind == 'setitem' and f.unconditional() and \
                    s.m.match('ELEM(%s)' % FM, f.e.attr) is not None and \
                    whole_loop(s, f, FM) and gr and not gr[0][2] and \
                    [k for k, _ in gr[0][3]] == [None] and \
                    s.m.match('%s[ELEM(%s)]' % (FM, FM),
                              gr[0][3][0][1]) is not None:
                # the container must be fresh per loss
                al = [x for x in s.m.deep(dst[0]) if x[0] == 'alloc']
                ok = bool(al) and fresh_in_loop(s, al[0], f)
        if not fs and dst[0][0] == 'comp':
            ok = s.derives(dst[0], 'self.get_record(...)')
    ck.ob('loss-inputs', ok, s,
          'a loss is evaluated on exactly the inputs of its own mapping')


def fresh_in_loop(s, al, h):
    """the container is created anew in the outermost loop of h"""
    return h.e.loops[:1] == s.E.birth.get(al[3], ())[:1]


def parse_(p):
    from ..pat import parse
    return parse(p)


def check_build(ck, c):
    for meth, par, extra in (('build_distill_losses', 'losses', False),
                             ('build_connectors', 'connectors', True)):
        s = ck.fn(c.qual + '.' + meth)
        p = s.func.params()[1]
        its = [h for h in into(s, s.ret(), 'MODELS.build(...)')
               if h.e.kind == 'setitem' or (
                   h.e.kind == 'call' and h.e.func[2] == 'update')]
        its += [h for h in s.items('_') if s.derives(
            h.e.value, 'MODELS.build(...)') and seq(
            peel_alloc(s, h.e.base), peel_alloc(s, s.ret()))]
        ok = False
        whole = f_or(*[h.e.guard for h in its if s.m.match(
            'ELEM(%s)' % p, h.e.attr) is not None and whole_loop(
            s, h, p) and s.derives(h.e.value, '%s[ELEM(%s)]' % (p, p))])
        # the guards of several stores together cover every entry
        ok = s.m.implied_by(strip_asserts(whole), p) if its else False
        ck.ob('build-all', ok, s,
              'every configured entry is built from its own configuration '
              'and kept under its own name')
        if extra:
            sq = s.calls('nn.Sequential(...)')
            for h in sq:
                a = h.e.args[0] if h.e.args else NONE
                a = a[1] if a[0] == 'star' else a
                ok = s.derives(a, 'MODELS.build(ELEM(%s[ELEM(%s)]))' % (
                    p, p))
                ck.ob('connector-chain', ok and not partial_slice(s, a), h,
                      'a connector given as a list applies its parts in the '
                      'given order')


def strip_asserts(f):
    return f


def peel_alloc(s, t):
    for x in s.m.forms(t):
        if x[0] in ('alloc',):
            return x
    for x in s.m.forms(t):
        if x[0] == 'loopvar':
            return peel_alloc(s, x[3])
    return t


def check_mappings(ck, c):
    s = ck.fn(c.qual + '.__init__')
    LM = 'loss_forward_mappings'
    st = s.sets('self', LM)
    ok = False
    for h in st:
        for g, t in leaves(s, h.e.value, h.e.guard):
            if s.m.match(LM, t) is not None and s.m.implied_by(g, LM):
                ok = True
    ck.ob('mappings-kept', ok, s, 'the configured mappings are used')
    ck.always('losses-built', s.sets(
        'self', 'distill_losses', 'self.build_distill_losses('
        'distill_losses)'), s, 'the configured losses are used')
    ck.always('connectors-built', s.sets(
        'self', 'connectors', 'self.build_connectors(connectors)'), s,
        'the configured connectors are used')
    rz = s.raises()
    el = 'ELEM(%s)' % LM
    sub = '%s[%s]' % (LM, el)
    key = 'ELEM(%s)' % sub
    rec = '%s[%s]' % (sub, key)
    L = 'OR(self.distill_losses, self.build_distill_losses(...))'
    sig = 'HAS(signature(%s[%s].forward))' % (L, el)

    def rejects(rule, when, msg):
        """some raise happens (at least) when `when`"""
        fs = []
        for h in rz:
            if not whole_loop(s, h, LM):
                continue
            fs.append(h.e.guard if h.e.kind == 'raise' else f_and(
                h.e.guard, f_not(s.E.formula(h.e.value))))
        ok = any(s.m.implied_by(f, when) for f in fs) or any(
            rejected(s, f, when) for f in fs)
        ck.ob(rule, ok, s, msg)

    base = '%s and ' % LM
    rejects('unknown-loss', base + '%s not in %s' % (el, L),
            'a mapping for an unknown loss is rejected')
    rejects('unknown-argument', base + '%s not in %s' % (key, sig),
            'a mapping for an unknown loss argument is rejected')
    for side, neg in (('student', ''), ('teacher', 'not ')):
        R = 'OR(self.{0}_recorders.recorders, _)'.format(side)
        R = 'self.%s_recorders.recorders' % side
        rejects('unknown-%s-recorder' % side, base +
                "%s%s['from_student'] and %s['recorder'] not in %s" % (
                    neg, rec, rec, R),
                'a mapping naming an unknown %s recorder is rejected' % side)
    rejects('unknown-connector', base +
            "'connector' in %s and %s['connector'] not in OR(self.connectors,"
            " self.build_connectors(...))" % (rec, rec),
            'a mapping naming an unknown connector is rejected')


def rejected(s, f, when):
    """f contains the literals of `when`: apart from them it only demands
    well-formedness (type checks, earlier checks passed, argument has no
    default)"""
    from ..terms import conj
    pf = s.m.pform(when)
    need = [pf] if pf is True or pf[0] != 'and' else list(pf[1])
    lits = list(conj(f))
    if f is False:
        return False
    got = set()
    for l in lits:
        hit = False
        for i, n in enumerate(need):
            node = n[1][1] if n[0] == 'not' else n[1]
            if n[0] == 'not' and l is not True and l[0] == 'not':
                if s.m.matom(node.node, normatom(s, l[1][1])):
                    got.add(i)
                    hit = True
            elif n[0] == 'atom' and l is not True and l[0] == 'atom':
                if s.m.matom(node.node, normatom(s, l[1])):
                    got.add(i)
                    hit = True
        if hit:
            continue
        # remaining literals: positive facts that hold for well formed
        # configurations
        a = l[1][1] if l[0] == 'not' else (l[1] if l[0] == 'atom' else None)
        if a is None:
            return False
        if l[0] == 'atom' and (a[0] == 'call' and a[1] == (
                'global', 'isinstance') or (
                a[0] == 'cmp' and a[1] == 'in')):
            continue
        txt = show(a)
        if '.default' in txt and 'empty' in txt:
            continue
        return False
    return len(got) == len(need)


def normatom(s, a):
    return a


def check_report(ck, c, compute='self.distiller.compute_distill_losses()'):
    s = ck.fn(c.qual + '.loss')
    cd = s.calls(compute)
    S = model_calls(s, 'OR(self.student, self.architecture)')
    stop = 'not self.distillation_stopped'
    has_stop = any(h for h in ck.fn(c.qual + '.__init__').sets(
        'self', 'distillation_stopped', 'False'))
    if not has_stop:
        stop = 'True'
    ups = into(s, s.ret(), compute)
    ups = [h for h in ups if s.derives(
        h.e.args[0] if h.e.args else h.e.value, 'STR(_, _)') or True]
    top = [h for h in ups if len(h.e.frames) == 1 or h.e.kind == 'call']
    ck.iff('distill-when', cd, s, stop,
           'the distillation losses are computed exactly while distillation '
           'is not stopped')
    ck.ob('distill-once', len(cd) == 1 and not cd[0].e.loops, s,
          'the distillation losses are computed once per step')
    ck.iff('distill-returned', top or ups, s, stop,
           'and are part of the returned losses')
    for h in cd:
        ck.not_after('after-student', S, [h], s,
                     'the losses are computed after the student pass')
        T = model_calls(s, 'self.teacher')
        ck.not_after('after-teacher', T, [h], s,
                     'the losses are computed after the teacher pass')
    # student task losses
    pats = []
    for h in S:
        pats.append(h)
    sw = 'self.calculate_student_loss'
    uses = any(h.guard_implies(sw) for h in S)
    ups = into(s, s.ret(), "OR(self.student, self.architecture)(...)")
    if uses:
        ck.iff('task-returned', [h for h in ups if h.e.kind == 'call'] or
               ups, s, sw, 'the student task losses are returned exactly '
               'when configured')
    else:
        ck.ob('task-returned', any(h.unconditional() for h in ups), s,
              'the student task losses are returned')
    for h in S:
        ck.ob('student-grad', not no_grad(h) or h.guard_implies(
            'not self.calculate_student_loss and not '
            'self.student_trainable'), h,
            'the student pass is differentiated')
        ck.ob('student-grad-off', no_grad(h) or not h.guard_implies(
            'not self.student_trainable'), h,
            'a student that is not trainable runs without gradient tracking')
        ck.ob('student-inputs', [show(strip(a)) for a in h.e.args] ==
              s.func.params()[1:3] and (h.arg(2, 'mode') == const('loss')),
              h, 'the student sees the batch and its samples in loss mode')
    # prefixes
    pre = {}
    for h in s.calls('add_prefix(_x, _p)'):
        k = 'distill' if s.derives(h.b['_x'], compute) else \
            'teacher' if s.derives(h.b['_x'], 'self.teacher(...)') else \
            'student'
        pre.setdefault(k, set()).add(show(h.b['_p']))
    flat = [x for v in pre.values() for x in v]
    ck.ob('prefixes', {'student', 'distill'} <= set(pre) and len(flat) ==
          len(set(flat)), s,
          'task and distillation losses are kept under distinct prefixes')


def check(ck):
    base = ck.cls('ConfigurableDistiller')
    ds = [base] + ck.prog.subclasses(base)
    ck.floor('distillers', len(ds), 3)
    for c in ds:
        check_get_record(ck, c)
        check_compute(ck, c)
        check_build(ck, c)
        check_mappings(ck, c)
    n = 0
    alg = ck.cls('BaseAlgorithm')
    for c in ck.prog.subclasses(alg):
        f = ck.prog.lookup(c, 'loss')
        if f is None:
            continue
        s = ck.fn(c.qual + '.loss')
        if s.calls('self.distiller.compute_distill_losses()'):
            check_report(ck, c)
            n += 1
    ck.floor('distillation algorithms', n, 3)
    # self distillation: one pass feeds both sides
    s = ck.fn('SelfDistill.loss')
    for h in model_calls(s, 'OR(self.student, self.architecture)'):
        for r in ('student_recorders', 'teacher_recorders', 'deliveries'):
            ck.ob('self-' + r, h.in_scope('self.distiller.' + r), h,
                  'self distillation records both sides in its only pass')
    s = ck.fn('SelfDistill.__init__')
    for side in ('student', 'teacher'):
        ck.always('self-prepare-' + side, s.calls(
            'self.distiller.prepare_from_%s(OR(self.student, '
            'self.architecture))' % side), s,
            'both sides are set up on the student')
    # prefixing
    s = ck.fn('models.utils.misc.add_prefix')
    p = s.func.params()
    its = [h for h in into(s, s.ret(), '%s[ELEM(%s)]' % (p[0], p[0]))]
    v = s.ret()
    ok = any(h.e.kind == 'setitem' and whole_loop(s, h, p[0]) and
             h.unconditional() and s.m.match('STR(%s, ELEM(%s))' % (
                 p[1], p[0]), h.e.attr) is not None and
             s.m.match('%s[ELEM(%s)]' % (p[0], p[0]), h.e.value) is not None
             for h in its) or v[0] == 'comp'
    ck.ob('prefix-keeps', ok, s,
          'prefixing keeps every loss and only renames it')
    # stopping
    s = ck.fn('StopDistillHook.before_train_epoch')
    st = s.sets('_m', 'distillation_stopped', 'True')
    r = s.func.params()[1]
    ck.iff('stop-when', st, s, '%s.epoch >= self.stop_epoch' % r,
           'distillation stops from the requested epoch on')
    for h in st:
        ok = all((s.m.match('%s.model.module' % r, t) is not None and
                  s.m.implies(g, 'HAS(is_model_wrapper(_))')) or
                 (s.m.match('%s.model' % r, t) is not None and
                  s.m.implies(g, 'not HAS(is_model_wrapper(_))'))
                 for g, t in leaves(s, h.e.base, h.e.guard))
        ck.ob('stop-model', ok, h,
              'the flag is set on the model itself, not on its wrapper')
    ck.never('stop-only', s.sets('_', 'distillation_stopped', 'False'), s,
             'distillation is not resumed')
    i = ck.fn('StopDistillHook.__init__')
    ck.always('stop-epoch', i.sets('self', 'stop_epoch', 'stop_epoch'), i,
              'the configured epoch is kept')
    check_ofd(ck)


def check_ofd(ck):
    s = ck.fn('OFDDistiller.init_ofd_connectors')
    M = 'self.loss_forward_mappings'
    hs = s.calls('_c.init_margin(...)')
    ok = False
    why = ''
    for h in hs:
        T = s.func.params()[1]
        mp = '%s[ELEM(%s)]' % (M, M)
        rec = '%s[ELEM(%s)]' % (mp, mp)
        c_ok = s.m.match("self.connectors[%s['connector']]" % rec,
                         h.b['_c']) is not None
        src = "attrgetter(self.teacher_recorders.get_recorder(" \
            "%s['recorder']).source)(%s)" % (rec, T)
        a_ok = h.e.args and s.derives(h.e.args[0], src)
        a2 = h.e.args and s.derives(h.e.args[0], '%s.weight' % src) and \
            s.derives(h.e.args[0], '%s.bias' % src)
        g_ok = h.when("isinstance(self.distill_losses[ELEM(%s)], OFDLoss) "
                      "and 'connector' in %s and not %s['from_student']" % (
                          M, rec, rec))
        w_ok = whole_loop(s, h, M)
        ok = ok or (c_ok and a_ok and a2 and g_ok and w_ok)
        why = str((bool(c_ok), bool(a_ok), bool(a2), g_ok, bool(w_ok)))
    ck.ob('ofd-margin', ok, s,
          'every teacher connector of an OFD loss gets the margin of the '
          'teacher normalisation layer it reads ' + why)
    s = ck.fn('OverhaulFeatureDistillation.__init__')
    h = s.calls('self.distiller.init_ofd_connectors(self.teacher)')
    ck.always('ofd-init', h, s, 'margins are initialised from the teacher')
    ck.not_after('ofd-after-ckpt', s.calls('load_checkpoint(...)'), h, s,
                 'after its checkpoint is loaded')
