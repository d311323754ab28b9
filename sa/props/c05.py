"""C05 data-free distillation updates each network on its own objective."""
from .common import *
from .c03 import model_calls, exclusive

ARCH, GEN = "optim_wrapper['architecture']", "optim_wrapper['generator']"


def from_generator(s, t):
    """paths of t to the generator's output: set of 'cut'/'live'"""
    out = set()

    def go(x, cut, depth=0, seen=()):
        if depth > 12:
            return
        for f in s.m.forms(x):
            if f[0] == 'call' and s.m.match('self.generator', f[1]) \
                    is not None:
                ev = [e for e in s.ev if e.kind == 'call' and
                      e.term[4] == f[4]]
                ng = bool(ev) and no_grad(Hit(s, ev[0], {}))
                out.add('cut' if cut or ng else 'live')
                return
        for f in s.m.forms(x):
            c = cut
            if f[0] == 'call' and f[1][0] == 'attr' and f[1][2] == 'detach':
                c = True
            if f[0] == 'attr' and f[2] == 'data':
                c = True
            for y in subterms(f):
                go(y, c, depth + 1)
    go(t, False)
    return out


def teacher_calls(s):
    return model_calls(s, 'OR(ELEM(self.teachers.values()), self.teachers['
                       'ELEM(self.teachers)], ELEM(self.teachers))')


def check_step(ck, c):
    s = ck.fn(c.qual + '.train_step')
    S = model_calls(s, 'OR(self.student, self.architecture)')
    T = teacher_calls(s)
    ck.floor('forward passes in ' + s.name, len(S) + len(T), 4)
    ev = [h for h in s.calls('_.eval()') if s.derives(
        h.e.func[1], 'self.teachers')]
    ev = [h for h in ev if whole_loop(s, h, 'self.teachers') and len(
        h.e.loops) == 1 and h.unconditional()] + [
        h for h in ev if s.m.match('self.teachers', h.e.func[1]) is not None
        and h.unconditional() and not h.e.loops]
    ck.ob('teachers-eval', bool(ev), s,
          'every step puts all teachers into evaluation mode')
    ck.ob('teachers-eval-first', bool(ev) and all(
        ev[0].e.seq < h.e.seq for h in T), s, 'before they are run')
    phases = {}
    for key, dist, net, wrap, other in (
            ('student', 'self.distiller', 'OR(self.student, '
             'self.architecture)', ARCH, 'self.generator_distiller'),
            ('generator', 'self.generator_distiller', 'self.generator', GEN,
             'self.distiller')):
        up = s.calls('%s.update_params(...)' % wrap)
        per = [h for h in up]
        ck.ob('update-once', bool(up) and f_equiv(s.m.skey(jointly(up)),
                                                  True) and exclusive(s, up),
              s, 'each step updates the %s on every path exactly once per '
              'iteration' % key)
        for h in up:
            lp = h.e.loops
            ok = not lp or (key == 'student' and len(lp) == 1 and
                            s.loop_over(h.e, 'range(self.student_iter)'))
            ck.ob('update-iterations', ok, h,
                  'the %s is updated once per configured iteration' % key)
            a = h.e.args[0] if h.e.args else NONE
            ck.ob('update-own-loss', s.derives(
                a, '%s.compute_distill_losses()' % dist) and not s.derives(
                a, '%s.compute_distill_losses()' % other), h,
                'the %s is updated from its own losses only' % key)
            pl = s.find(a, 'self.parse_losses(_l)[0]')
            ck.ob('update-total', bool(pl), h,
                  'the update uses the total of the losses')
        cds = s.calls('%s.compute_distill_losses()' % dist)
        ck.ob('loss-once', len(cds) == len(up) and all(
            any(x.e.loops == y.e.loops for y in up) for x in cds), s,
            'the losses of the %s are computed anew for every update' % key)
        sr, tr = dist + '.student_recorders', dist + '.teacher_recorders'
        ss = [h for h in S if h.in_scope(sr)]
        tt = [h for h in T if h.in_scope(tr)]
        phases[key] = (ss, tt, up, cds)
        ck.ob('student-pass', len(ss) == len(up) and bool(ss), s,
              'the %s objective records one student pass per update' % key)
        ck.ob('teacher-pass', len(tt) == len(up) and bool(tt) and all(
            whole_loop(s, h, 'self.teachers') for h in tt), s,
            'the %s objective records a pass of every teacher' % key)
        for cd in cds:
            mine = [h for h in ss + tt if exclusive_or_same(s, h, cd)]
            ck.not_after('recorded-first', [h for h in mine], [cd], s,
                         'the %s losses are computed after both passes'
                         % key)
        for h in ss + tt:
            ck.ob('own-context', h.in_scope('%s.optim_context(%s)' % (
                wrap, net)), h, 'the passes of the %s objective run in the '
                'context of its own optimizer wrapper' % key)
            inp = h.e.args[0] if h.e.args else NONE
            g = from_generator(s, inp)
            stu = h in ss
            if key == 'student':
                if stu:
                    ck.ob('student-cut-off', g == {'cut'}, h,
                          'the student objective sees generated data cut off '
                          'from the generator')
                    ck.ob('student-grad', not no_grad(h), h,
                          'the student pass is differentiated')
                else:
                    ck.ob('teacher-no-grad', no_grad(h), h,
                          'teacher targets carry no gradient')
                    ck.ob('teacher-sees', bool(g), h,
                          'teachers see the generated data')
            else:
                ck.ob('generator-live', g == {'live'} and not no_grad(h), h,
                      'the generator objective is differentiated through to '
                      'the generator')
        log = [h for h in into(s, s.ret(), 'self.parse_losses(_)') if
               s.derives(h.e.args[0] if h.e.args else h.e.value,
                         '%s.compute_distill_losses()' % dist)]
        ck.ob('logged', any(h.unconditional() for h in log) or
              s.derives(s.ret(), '%s.compute_distill_losses()' % dist), s,
              'the %s losses are reported' % key)
    for a, b in (('student', 'generator'), ('generator', 'student')):
        for h in phases[a][0] + phases[a][1]:
            r = ('self.distiller' if b == 'student' else
                 'self.generator_distiller')
            ck.ob('sides-separate', not h.in_scope(
                r + '.student_recorders') and not h.in_scope(
                r + '.teacher_recorders'), h,
                'a pass feeds one objective only')
    # no student step between the generator's passes and its update
    for g in phases['generator'][2]:
        for p in phases['generator'][0]:
            bad = [u for u in phases['student'][2]
                   if p.e.seq < u.e.seq < g.e.seq and f_and(
                       s.m.skey(u.e.guard), s.m.skey(g.e.guard))
                   is not False and f_and(s.m.skey(p.e.guard), s.m.skey(
                       g.e.guard)) is not False]
            ck.never('student-fixed', bad, s,
                     'the student is not changed between the passes of the '
                     'generator objective and the generator update')
    if any(h.guard_implies('self.student_train_first') for h in
           phases['student'][2]):
        for u in phases['student'][2]:
            for g in phases['generator'][2]:
                if exclusive_or_same(s, u, g):
                    first = u.e.seq < g.e.seq
                    ck.ob('order', u.guard_implies(
                        'self.student_train_first' if first else
                        'not self.student_train_first'), u,
                        'the student goes first exactly when configured')


def exclusive_or_same(s, a, b):
    """a and b can happen in the same step"""
    return f_implies(f_and(s.m.skey(a.e.guard), s.m.skey(b.e.guard)),
                     False) is False


def check_init(ck, c):
    s = ck.fn(c.qual + '.__init__')
    t = "self.teachers[ELEM(teachers)]"
    cfg = "teachers[ELEM(teachers)]"
    tm = 'OR(%s, MODELS.build(%s))' % (t, cfg + "['build_cfg']")
    it = [h for h in s.items('self.teachers') if s.m.match(
        'ELEM(teachers)', h.e.attr) is not None and s.derives(
        h.e.value, "MODELS.build(%s['build_cfg'])" % cfg) and
        whole_loop(s, h, 'teachers')]
    ck.always('teachers-built', it, s,
              'every configured teacher is built')

    def every(hits, g=True):
        return [h for h in hits if whole_loop(s, h, 'teachers') or
                whole_loop(s, h, 'self.teachers')]
    ev = every(s.calls('%s.eval()' % tm))
    ck.always('init-eval', ev, s, 'every teacher starts in evaluation mode')
    fz = every(s.calls('set_requires_grad(%s, False)' % tm) + s.calls(
        'set_requires_grad(%s)' % tm) + s.calls(
        '%s.requires_grad_(False)' % tm)) + every(s.sets(
            'ELEM(%s.parameters())' % tm, 'requires_grad', 'False'))
    ck.always('init-frozen', fz, s,
              'every teacher\'s parameters are excluded from training')
    ld = every(s.calls("load_checkpoint(%s, %s['ckpt_path'])" % (tm, cfg)))
    ck.iff('ckpt', ld, s, "'ckpt_path' in " + cfg, 'a configured teacher checkpoint is loaded into that '
           'teacher')
    ck.never('ckpt-only', [h for h in s.calls('load_checkpoint(...)')
                           if h.e not in [x.e for x in ld]], s,
             'no other network gets a teacher checkpoint')
    iw = s.calls('%s.init_weights()' % tm)
    ck.not_after('init-before-ckpt', iw, ld, s,
                 'loaded weights are not re-initialised')
    ck.always('generator', s.sets('self', 'generator',
                                  'MODELS.build(generator)'), s,
              'the generator is the configured one')
    for k in ('student_iter', 'student_train_first'):
        ck.always('option-' + k, s.sets('self', k, k), s,
                  'the option %s is kept' % k)
    for d in ('distiller', 'generator_distiller'):
        ck.always('build-' + d, s.sets('self', d, 'MODELS.build(%s)' % d), s,
                  'the %s is the configured one' % d)
        for side, arg in (('student', 'OR(self.student, self.architecture)'),
                          ('teacher', 'self.teachers')):
            ck.always('prepare-%s-%s' % (d, side), s.calls(
                'self.%s.prepare_from_%s(%s)' % (d, side, arg)), s,
                'recorders of both distillers are set up')


def check(ck):
    base = ck.cls('DataFreeDistillation')
    cs = [base] + ck.prog.subclasses(base)
    ck.floor('data-free algorithms', len(cs), 2)
    for c in cs:
        check_step(ck, c)
        check_init(ck, c)
    s = ck.fn('models.utils.utils.set_requires_grad')
    p = s.func.params()
    hs = s.sets('_', 'requires_grad', p[1])
    ok = any(s.derives(h.e.base, p[0]) and s.derives(
        h.e.base, '_.parameters()') and len(h.e.loops) == 2 and not any(
        s.E.loops[l]['breaks'] for l in h.e.loops) for h in hs)
    ck.ob('set-requires-grad', ok and all(h.when('_ is not None') or
                                          h.when('True') for h in hs), s,
          'the flag reaches every parameter of every given network')
