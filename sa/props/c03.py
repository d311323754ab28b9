"""C03 a frozen teacher is never trained or perturbed."""
from .common import *

NONFWD = {'modules', 'named_modules', 'parameters', 'named_parameters',
          'eval', 'train', 'init_weights', 'state_dict', 'children',
          'load_state_dict', 'buffers', 'items', 'values', 'keys',
          'requires_grad_', 'to', 'named_children', 'apply'}


def model_calls(s, pat):
    """forward passes of the model named by pat"""
    out = s.calls(pat + '(...)')
    for h in s.calls(pat + '._(...)'):
        if h.e.func[2] not in NONFWD:
            out.append(h)
    return out


def override_events(s):
    """(event, value) setting the delivery mode"""
    out = []
    for h in s.calls('self.distiller.set_deliveries_override(_v)'):
        out.append((h, h.b['_v']))
    for h in s.sets('self.distiller.deliveries', 'override_data'):
        out.append((h, h.e.value))
    return out


def last_mode(s, h):
    """the override mode in force at h (const) or None"""
    best = None
    for o, v in override_events(s):
        if o.e.seq < h.e.seq and f_and(s.m.skey(o.e.guard),
                                       s.m.skey(h.e.guard)) is not False:
            if f_implies(s.m.skey(h.e.guard), s.m.skey(o.e.guard)):
                best = v if v[0] == 'const' else None
            elif best is not None and best != v:
                best = None
    return best


def exclusive(s, hits):
    for i, a in enumerate(hits):
        for b in hits[i + 1:]:
            if not f_implies(f_and(s.m.skey(a.e.guard), s.m.skey(b.e.guard)),
                             False):
                return False
    return True


def check_loss(ck, c):
    s = ck.fn(c.qual + '.loss')
    T = model_calls(s, 'self.teacher')
    S = model_calls(s, 'OR(self.student, self.architecture)')
    ck.ob('teacher-runs', bool(T) and f_equiv(s.m.skey(jointly(T)), True) and
          exclusive(s, T) and not any(h.e.loops for h in T), s,
          'every training step runs the teacher exactly once')
    ck.ob('student-runs', bool(S) and f_equiv(s.m.skey(jointly(S)), True) and
          exclusive(s, S) and not any(h.e.loops for h in S), s,
          'every training step runs the student exactly once')
    for h in T:
        ck.ob('teacher-no-grad', no_grad(h) or h.guard_implies(
            'self.teacher_trainable'), h,
            'a teacher that is not trainable runs without gradient tracking')
        ck.ob('teacher-grad', not no_grad(h) or h.guard_implies(
            'not self.teacher_trainable'), h,
            'a trainable teacher runs with gradient tracking')
        ck.ob('teacher-side', h.in_scope('self.distiller.teacher_recorders')
              and not h.in_scope('self.distiller.student_recorders'), h,
              'the teacher pass is recorded by the teacher recorders only')
        ck.ob('teacher-delivers', h.in_scope('self.distiller.deliveries'), h,
              'the teacher pass runs with the deliveries in force')
        ck.ob('teacher-mode', last_mode(s, h) == const(False), h,
              'the teacher pass stores what is delivered')
        ck.ob('teacher-input', h.e.args[:1] == (('param', 'batch_inputs'),)
              or any(v == ('param', s.func.params()[1])
                     for v in h.e.args[:1]), h,
              'the teacher sees the batch')
    for h in S:
        ck.ob('student-side', h.in_scope('self.distiller.student_recorders')
              and not h.in_scope('self.distiller.teacher_recorders'), h,
              'the student pass is recorded by the student recorders only')
        ck.ob('student-delivered', h.in_scope('self.distiller.deliveries'),
              h, 'the student pass runs with the deliveries in force')
        ck.ob('student-mode', last_mode(s, h) == const(True), h,
              'the student pass consumes what was stored')
    ck.not_after('teacher-first', T, S, s,
                 'the teacher pass precedes the student pass')


def check_init(ck, c):
    s = ck.fn(c.qual + '.__init__')
    P = 'self.teacher.parameters()'
    bad = [h for h in s.sets('_', 'requires_grad')
           if s.derives(h.e.base, P) and s.m.match('False', h.e.value) is
           None]
    ck.never('teacher-unfrozen', bad, s,
             'no teacher parameter is switched back to trainable')
    fz = [h for h in s.sets('ELEM(%s)' % P, 'requires_grad', 'False')
          if whole_loop(s, h, P)]
    fz += s.calls('self.teacher.requires_grad_(False)')
    fz += s.calls('set_requires_grad(self.teacher)') + s.calls(
        'set_requires_grad(self.teacher, False)')
    fz = [h for h in fz if len(h.e.loops) <= 1]
    ck.iff('teacher-frozen', fz, s,
           'not OR(teacher_trainable, self.teacher_trainable)',
           'all parameters of a teacher that is not trainable are excluded '
           'from training')
    ck.always('trainable-option', s.sets('self', 'teacher_trainable',
                                         'teacher_trainable'), s,
              'the teacher_trainable option is kept')
    ck.always('norm-option', s.sets('self', 'teacher_norm_eval',
                                    'teacher_norm_eval'), s,
              'the teacher_norm_eval option is kept')
    for n in ('student_trainable', 'calculate_student_loss'):
        ck.always('option-' + n, s.sets('self', n, n), s,
                  'the %s option is kept' % n)
    d = init_defaults(ck.cls('SingleTeacherDistill').methods['__init__'])
    ck.ob('frozen-default', isinstance(d.get('teacher_trainable'),
                                       ast.Constant) and
          d['teacher_trainable'].value is False, s,
          'teachers are frozen unless configured otherwise')
    ck.ob('norm-default', isinstance(d.get('teacher_norm_eval'),
                                     ast.Constant) and
          d['teacher_norm_eval'].value is True, s,
          'teacher normalisation stays in evaluation mode by default')
    st = s.sets('self', 'teacher')
    ck.ob('teacher-model', any(s.derives(h.e.value, 'teacher') for h in st),
          s, 'the teacher is the configured one')
    ld = s.calls('load_checkpoint(...)')
    for h in ld:
        ck.ob('ckpt-into-teacher', s.m.match(
            'self.teacher', h.e.args[0]) is not None and s.m.match(
            'teacher_ckpt', h.e.args[1]) is not None, h,
            'the teacher checkpoint goes into the teacher only')
    tg = 'teacher_ckpt'
    if not any(h.guard_is(tg) for h in ld):
        tg = 'teacher_ckpt is not None'
    ck.iff('ckpt-loaded', ld, s, tg,
           'a configured teacher checkpoint is loaded')
    ck.iff('ckpt-kept', s.sets('self.teacher', '_is_init', 'True'), s,
           tg, 'a loaded teacher is not initialised again')
    for side, arg in (('student', 'OR(self.student, self.architecture)'),
                      ('teacher', 'self.teacher')):
        hs = s.calls('self.distiller.prepare_from_%s(...)' % side)
        ck.ob('prepare-' + side, len(hs) == 1 and hs[0].unconditional() and
              len(hs[0].e.args) == 1 and
              s.m.match(arg, hs[0].e.args[0]) is not None, s,
              'the %s recorders are set up on the %s' % (side, side))
    mi = s.calls('self.set_module_inplace_false(...)')
    mi = [h for h in mi if s.derives(h.e.args[0], 'teacher') or
          s.m.match('self.teacher', h.e.args[0]) is not None]
    ck.ob('teacher-inplace', any(h.when(
        'not OR(self.teacher_module_inplace, teacher_module_inplace)')
        for h in mi), s,
        'recorded teacher features are not overwritten by in-place layers')


def check_train(ck, c):
    s = ck.fn(c.qual + '.train')
    sup = s.calls('super().train(mode)') + s.calls('super().train(mode=mode)')
    ck.always('train-mode', sup, s, 'the mode reaches the whole model')
    M = 'self.teacher.modules()'
    ev = [h for h in s.calls('ELEM(%s).eval()' % M) +
          s.calls('ELEM(%s).train(False)' % M) if whole_loop(s, h, M)]
    ev += s.calls('self.teacher.eval()')
    ok = any(h.when('mode and self.teacher_norm_eval and isinstance('
                    'ELEM(%s), HAS(_BatchNorm))' % M) for h in ev)
    ck.ob('norm-eval', ok, s,
          'switching to training mode leaves teacher normalisation layers in '
          'evaluation mode')
    ck.only_when('norm-eval-option', ev, s, 'self.teacher_norm_eval',
                 'unless turned off by teacher_norm_eval')
    ck.not_after('norm-eval-last', sup, ev, s,
                 'normalisation layers are switched after the mode is set')


def check(ck):
    base = ck.cls('SingleTeacherDistill')
    cs = [base] + [c for c in ck.prog.subclasses(base)]
    ck.floor('teacher distillation algorithms', len(cs), 3)
    for c in cs:
        check_loss(ck, c)
        check_init(ck, c)
        check_train(ck, c)
    s = ck.fn('ConfigurableDistiller.set_deliveries_override')
    ck.always('override-forward', s.sets(
        'self.deliveries', 'override_data', s.func.params()[1]), s,
        'the delivery mode reaches the deliveries')
    for side in ('student', 'teacher'):
        s = ck.fn('ConfigurableDistiller.prepare_from_' + side)
        h = s.calls('self.%s_recorders.initialize(%s)' % (
            side, s.func.params()[1]))
        ck.always('initialise-' + side, h, s,
                  'the %s recorders are initialised on the model given'
                  % side)
        o = 'teacher' if side == 'student' else 'student'
        ck.never('initialise-cross', s.calls(
            'self.%s_recorders.initialize(...)' % o), s,
            'the recorders of the other side are not touched')
    s = ck.fn('ConfigurableDistiller.__init__')
    for a, k, p in (('student_recorders', 'RecorderManager',
                     'student_recorders'),
                    ('teacher_recorders', 'RecorderManager',
                     'teacher_recorders'),
                    ('deliveries', 'DistillDeliveryManager',
                     'distill_deliveries')):
        ck.always('build-' + a, s.sets('self', a, '%s(%s)' % (k, p)), s,
                  '%s are built from their own configuration' % a)
