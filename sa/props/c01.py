"""C01 interception leaves no trace."""
from .common import *

RULES = 'enter/exit pairing of patched attributes'


def patches(s):
    """attribute stores on foreign objects (not self)"""
    return [e for e in s.ev if e.kind == 'setattr' and e.base != SELF and
            not (isinstance(e.attr, str) and e.base[0] == 'param')]


def is_path_part(s, t, which, path):
    """t is component `which` of dotted string `path` (pattern)"""
    pats = {
        'last': ["%s.split('.')[-1]", "%s.rsplit('.', 1)[-1]",
                 "%s.rsplit('.', 1)[1]", "%s.rpartition('.')[2]",
                 "%s.rpartition('.')[-1]",
                 "%s.rsplit('.', 2)[-1]", "%s.rsplit('.', 2)[2]"],
        'last2': ["%s.split('.')[-2]", "%s.rsplit('.', 2)[-2]",
                  "%s.rsplit('.', 2)[1]"],
        'head1': ["'.'.join(%s.split('.')[:-1])",
                  "%s.rsplit('.', 1)[0]", "%s.rpartition('.')[0]"],
        'head2': ["'.'.join(%s.split('.')[:-2])", "%s.rsplit('.', 2)[0]"],
    }[which]
    return any(s.m.match(p % path, t) is not None for p in pats)


def check(ck):
    rec = ck.cls('BaseRecorder')
    dlv = ck.cls('DistillDelivery')
    n = 0
    for base in (rec, dlv):
        for c in concrete(ck, base):
            en = ck.fn(c.qual + '.__enter__')
            ex = ck.fn(c.qual + '.__exit__')
            ini = ck.fn(c.qual + '.__init__')
            check_pair(ck, c, en, ex, ini)
            n += 1
    ck.floor('recorder/delivery classes', n, 8)
    for name, attr in (('RecorderManager', 'recorders'),
                       ('DistillDeliveryManager', 'deliveries')):
        check_manager(ck, name, attr)


def check_pair(ck, c, en, ex, ini):
    ps = patches(en)
    xs = patches(ex)
    r_en = resolver(ck, en, ini)
    res_en = lambda t: r_en(t, en)
    r_ex = resolver(ck, ex, en, ini)
    res_ex = lambda t: r_ex(t, ex)
    # what exit may never do
    for h in ex.returns():
        v = h.e.value
        bad = not (v == NONE or v == const(False))
        ck.ob('exit-hides-exception', not bad, h,
              'leaving the scope must not swallow exceptions')
    ck.ob('exit-no-raise', not [h for h in ex.kind('raise')
                                if h.unconditional()], ex,
          'leaving the scope must not raise')
    for p in ps:
        key = (show(res_en(p.base)), show(res_en(
            p.attr if isinstance(p.attr, tuple) else const(p.attr))))
        mates = [x for x in xs if (show(res_ex(x.base)), show(res_ex(
            x.attr if isinstance(x.attr, tuple) else const(x.attr)))) == key]
        ok = bool(mates)
        ck.ob('restore-same-target', ok, ex,
              'the object and name patched on enter (%s) are restored on '
              'exit' % p.text()[:120])
        if not ok:
            continue
        # restored on every path
        g = f_or(*[x.guard for x in mates])
        ck.ob('restore-always', f_equiv(ex.m.skey(g), True), mates[0].where,
              'restoring on exit is unconditional', ex.name)
        last = mates[-1]
        # value: the object read from the same place before patching
        v = last.value
        org = res_ex(v)
        want = ('attr', res_en(p.base), res_en(p.attr) if isinstance(
            p.attr, tuple) else p.attr, 0)
        okv = show(org) == show(want) and not any(
            x[0] == 'closure' for x in walk(org))
        ck.ob('restore-original', okv, ex,
              'the value put back is the object found there before the patch')
        # and it was read when the scope was entered
        nm = v[2] if v[0] == 'attr' and v[1] == SELF else None
        if nm is not None:
            st = [e for e in en.ev if e.kind == 'setattr' and e.base == SELF
                  and e.attr == nm]
            ok2 = bool(st) and all(e.seq < p.seq for e in st)
            ck.ob('capture-on-enter', ok2, en,
                  'the original is read when the scope is entered, before '
                  'the wrapper is installed')
        # installed value is a wrapper closure around the original
        w = [f for f in en.m.forms(p.value) if f[0] == 'closure']
        okw = bool(w)
        ck.ob('install-wrapper', okw, en,
              'the installed object wraps the original')
        ck.ob('install-always', f_equiv(en.m.skey(p.guard), True), p.where,
              'the wrapper is installed on every successful enter', en.name)
        check_target(ck, c, en, ini, p, res_en)
    # exits must not patch anything that enter did not patch
    enkeys = {(show(res_en(p.base)), show(res_en(
        p.attr if isinstance(p.attr, tuple) else const(p.attr))))
        for p in ps}
    for x in xs:
        k = (show(res_ex(x.base)), show(res_ex(
            x.attr if isinstance(x.attr, tuple) else const(x.attr))))
        ck.ob('exit-only-restores', k in enkeys, x.where,
              'exit only stores to what enter patched', ex.name)
    # a class whose wrappers exist must patch
    wraps = [m for m in ('func_record_wrapper', 'method_record_wrapper',
                         'deliver_wrapper') if ck.prog.lookup(c, m)]
    if wraps:
        ck.ob('patch-present', len(ps) >= 1, en,
              'entering the scope intercepts the target')
    # recording flags set on enter are cleared on exit
    def flags(s):
        r = {}
        for e in s.ev:
            if e.kind == 'setattr' and e.base == SELF and e.value[0] == \
                    'const' and isinstance(e.value[1], bool):
                r[e.attr] = e
        return r
    fe, fx = flags(en), flags(ex)
    for a, e in fe.items():
        ok = a in fx and fx[a].value[1] != e.value[1] and f_equiv(
            ex.m.skey(fx[a].guard), True)
        ck.ob('flag-cleared', ok, ex,
              'the state %s switched on enter is switched back on exit' % a)
    if ck.prog.lookup(c, 'forward_hook') is not None:
        ck.ob('hook-flag', any(e.value == const(True) for e in fe.values()),
              en, 'module recording is switched on when the scope is entered')
        hk = ck.fn(c.qual + '.forward_hook')
        app = [h for h in hk.calls('_.append(_)')]
        flagpat = ' or '.join('self.%s' % a for a in fe) or 'False'
        for h in app:
            ck.ob('hook-guard', h.guard_implies(flagpat), h,
                  'nothing is recorded outside the scope')


def check_target(ck, c, en, ini, p, res):
    base = res(p.base)
    attr = res(p.attr) if isinstance(p.attr, tuple) else const(p.attr)
    # path attribute: the constructor's path/source parameter
    method = ck.prog.lookup(c, 'method_record_wrapper') is not None or \
        any(isinstance(k, Class) and 'Method' in k.name
            for k in ck.prog.mro(c))
    s = en
    path = '_p'
    ck.ob('target-name', is_path_part(s, attr, 'last', path), en,
          'the patched name is the last component of the configured path')
    if method:
        ok = base[0] == 'attr' and isinstance(base[2], tuple) and \
            is_path_part(s, base[2], 'last2', path) and \
            base[1][0] == 'call' and len(base[1][2]) >= 1 and \
            is_path_part(s, base[1][2][0], 'head2', path)
    else:
        ok = base[0] == 'call' and len(base[2]) >= 1 and \
            is_path_part(s, base[2][0], 'head1', path)
    ck.ob('target-object', ok, en,
          'the patched object is the module / class named by the path')


def check_manager(ck, name, attr):
    en = ck.fn(name + '.__enter__')
    ex = ck.fn(name + '.__exit__')
    for s, meth in ((en, '__enter__'), (ex, '__exit__')):
        hits = [h for h in s.calls('_m.%s(...)' % meth)
                if h.e.func[1][0] not in ('param',)]
        ok = False
        lid = None
        for h in hits:
            if not h.e.loops:
                continue
            lid = h.e.loops[-1]
            L = s.E.loops[lid]
            it = L['iter']
            full = s.derives(it, 'self.%s' % attr) or s.derives(
                it, 'self._%s' % attr)
            whole = not L['breaks'] and f_equiv(s.m.skey(h.e.guard), True) \
                and not partial_slice(s, it)
            ok = ok or (full and whole)
        ck.ob('manager-all', ok, s,
              'every member of the group is %s' % (
                  'entered' if meth == '__enter__' else 'closed'))
        if meth == '__exit__' and hits:
            h = hits[0]
            args = [show(a) for a in h.e.args]
            ck.ob('manager-exc', args == ['exc_type', 'exc_value',
                                          'traceback'] or args == ['*args'],
                  h, 'the exception state is passed on to every member')
            raw = s.E.loops[lid]['raw'] if lid else None
            rev = raw is not None and (s.derives(raw, 'reversed(_)') or any(
                x[0] == 'slice' and x[3] == const(-1)
                for x in s.m.deep(raw)))
            ck.ob('manager-lifo', rev, s,
                  'members are closed in the reverse order of entering, so '
                  'that wrappers of the same target unnest')
    for h in ex.returns():
        v = h.e.value
        ck.ob('exit-hides-exception', v == NONE or v == const(False), h,
              'leaving the scope must not swallow exceptions')
