"""C02 recording transparent, deliveries FIFO."""
from .common import *


def forwards_all(s, call):
    """call passes exactly (*args, **kwargs)"""
    a, k = call[2], call[3]
    return (len(a) == 1 and a[0] == ('star', ('param', 'args')) and
            len(k) == 1 and k[0] == (None, ('param', 'kwargs')))


def wrapper_summary(ck, cname, meth):
    s = ck.fn(cname + '.' + meth)
    w = s.closure(s.ret())
    ck.ob('wrapper-returned', w is not None, s,
          'the wrapping function returns a wrapper')
    return s, w


def origin_calls(w):
    """calls of the captured original callable"""
    r = []
    for e in w.ev:
        if e.kind == 'call' and e.func[0] == 'param' and e.func[1] not in (
                'args', 'kwargs'):
            r.append(e)
    return r


def same_call(w, t, uid):
    return any(f[0] == 'call' and f[4] == uid for f in w.m.forms(t))


def check_record_wrapper(ck, c, meth):
    s, w = wrapper_summary(ck, c.qual, meth)
    if w is None:
        return
    outer = s.func.params()
    oc = origin_calls(w)
    oc = [e for e in oc if e.func[1] == outer[1]]
    ck.ob('origin-once', len(oc) == 1 and not oc[0].loops and f_equiv(
        w.m.skey(oc[0].guard), True), w,
        'an intercepted call runs the original exactly once')
    if not oc:
        return
    ck.ob('origin-args', forwards_all(w, oc[0].term), oc[0].where,
          'the original gets exactly the caller\'s arguments', w.name)
    uid = oc[0].term[4]
    rets = w.returns()
    ck.ob('returns-output', bool(rets) and all(
        same_call(w, r.e.value, uid) for r in rets) and w.E.final.dead ==
        'return', w, 'the caller receives the original\'s result')
    app = [e for e in w.ev if e.kind == 'call' and e.func[0] == 'attr' and
           e.func[1] == ('param', outer[2])]
    ok = len(app) == 1 and app[0].func[2] == 'append' and not app[0].loops \
        and f_equiv(w.m.skey(app[0].guard), True) and len(app[0].args) == 1
    ck.ob('record-once', ok, w,
          'each intercepted call appends exactly one entry')
    if not ok:
        return
    v = app[0].args[0]
    inputs = 'Inputs' in c.name
    if not inputs:
        ck.ob('record-value', same_call(w, v, uid), app[0].where,
              'the recorded entry is that call\'s own output', w.name)
        return
    # inputs: positional arguments (without self for methods) then keywords
    src = None
    for f in w.m.forms(v):
        if f[0] == 'alloc':
            src = f
            items = [('item', x) for x in f[2]]
            evs = w.m.contents_events(f)
            break
        if f[0] == 'call' and f[1] == ('global', 'list'):
            src = f
            items = [('item', ('star', f[2][0]))] if f[2] else []
            evs = [e for e in w.ev if e.kind == 'call' and
                   e.func[0] == 'attr' and e.func[2] in ('append', 'extend')
                   and any(x[0] == 'call' and x[4] == f[4]
                           for x in w.m.forms(e.func[1]))]
            break
    ck.ob('record-inputs', src is not None, w,
          'the recorded entry is the list of that call\'s inputs')
    if src is None:
        return
    method = ck.prog.lookup(c, 'method_record_wrapper') is not None
    pos = "args[1:]" if method else "args"
    okp = any(w.m.match(pos, x[1] if x[0] == 'star' else x) is not None
              for _, x in items) or any(
        e.func[2] == 'extend' and w.m.match(pos, e.args[0]) is not None
        for e in evs)
    ck.ob('record-positional', okp, w,
          'all positional inputs (without the receiver of a method) are '
          'recorded in order')
    kwe = [e for e in evs if w.derives(e.args[0], 'kwargs')]
    okk = False
    for e in kwe:
        if e.func[2] == 'append' and e.loops:
            it = w.E.loops[e.loops[-1]]['iter']
            par = w.derives(it, 'signature(_)') or any(
                w.derives(it, 'signature(_)') for it in w.loop_iters(e))
            okk = okk or (par and w.m.match('kwargs[ELEM(_)]', e.args[0])
                          is not None and w.m.equiv(
                              e.guard, 'ELEM(_) in kwargs') and
                          not w.E.loops[e.loops[-1]]['breaks'])
        elif e.func[2] == 'extend':
            okk = okk or w.derives(e.args[0], 'signature(_)')
    ck.ob('record-keywords', okk, w,
          'keyword inputs are recorded in signature order')


def check_delivery(ck, c):
    s, w = wrapper_summary(ck, c.qual, 'deliver_wrapper')
    if w is None:
        return
    outer = s.func.params()
    ov = 'self.override_data or self._override_data'
    ovp = 'OR(self.override_data, self._override_data)'
    oc = [e for e in w.ev if e.kind == 'call' and e.func == (
        'param', outer[1])]
    ck.ob('origin-once', len(oc) == 1 and not oc[0].loops and w.m.equiv(
        oc[0].guard, 'not ' + ovp), w,
        'the original runs exactly once unless a stored result is delivered, '
        'and never when one is')
    pops = w.calls('self.data_queue._(...)')
    pl = [h for h in pops if h.e.func[2] == 'popleft']
    ap = [h for h in pops if h.e.func[2] == 'append']
    pl += [h for h in pops if h.e.func[2] == 'pop' and h.e.args == (
        const(0),)]
    other = [h for h in pops if h not in pl and h not in ap]
    ck.never('queue-ops', other, w,
             'the store is only appended to and popped at its old end')
    ck.ob('deliver-oldest', len(pl) == 1 and not pl[0].e.loops and
          pl[0].guard_is(ovp), w,
          'override takes the oldest stored result exactly once per call')
    ck.ob('store-newest', len(ap) == 1 and not ap[0].e.loops and
          ap[0].guard_is('not ' + ovp), w,
          'recording mode stores exactly one result per call')
    if oc and ap:
        ck.ob('store-value', same_call(w, ap[0].e.args[0], oc[0].term[4]),
              ap[0], 'the stored result is the original\'s own result')
        ck.ob('origin-args', forwards_all(w, oc[0].term), oc[0].where,
              'the original gets exactly the caller\'s arguments', w.name)
    if oc and pl:
        v = w.ret()
        leaves = []

        def go(t, g):
            if t[0] == 'ite':
                go(t[2], f_and(g, t[1]))
                go(t[3], f_and(g, f_not(t[1])))
            else:
                leaves.append((g, t))
        go(v, True)
        ok = bool(leaves)
        for g, t in leaves:
            if w.m.implies(g, ovp):
                ok = ok and same_call(w, t, pl[0].e.term[4])
            elif w.m.implies(g, 'not ' + ovp):
                ok = ok and same_call(w, t, oc[0].term[4])
            else:
                ok = False
        ck.ob('deliver-result', ok, w,
              'the caller receives the stored result in override mode and '
              'the original\'s result otherwise')
    q = ck.fn(c.qual + '.__init__')
    sets = q.sets('self', 'data_queue')
    ck.ob('queue-init', any(q.derives(h.e.value, 'max_keep_data') or
                            any(h.e.value[0] == 'alloc' for _ in (1,))
                            for h in sets), q,
          'the store starts empty with the configured capacity')


def check(ck):
    rec, dlv = ck.cls('BaseRecorder'), ck.cls('DistillDelivery')
    n = 0
    for c in concrete(ck, rec):
        for m in ('func_record_wrapper', 'method_record_wrapper'):
            if ck.prog.lookup(c, m):
                check_record_wrapper(ck, c, m)
                n += 1
                en = ck.fn(c.qual + '.__enter__')
                mk = en.calls('self.%s(...)' % m)
                ck.need('wrap-call', mk, en,
                        'entering builds the wrapper')
                for h in mk:
                    names = h.e.callee.params()[1:] if h.e.callee else []
                    a = h.arg(1, names[1] if len(names) > 1 else None)
                    fresh = a is not None and any(
                        f[0] == 'alloc' or (f[0] == 'call' and
                                            f[1] == ('global', 'list'))
                        for f in en.m.forms(a))
                    clr = [x for x in en.calls('_.clear()')]
                    ck.ob('buffer-fresh', fresh or any(
                        x.before(h) for x in clr), h,
                        'the wrapper records into the store that was emptied '
                        'when the scope was entered')
        # reset on enter
        en = ck.fn(c.qual + '.__enter__')
        if 'Parameter' not in c.name:
            st = en.sets('self', '_data_buffer')
            clr = en.calls('self._data_buffer.clear()') + en.calls(
                'self.data_buffer.clear()')
            ok = any(h.unconditional() and any(
                f[0] == 'alloc' and not f[2]
                for f in en.m.forms(h.e.value)) for h in st) \
                or any(h.unconditional() for h in clr)
            ck.ob('reset-on-enter', ok, en,
                  'every scope starts with an empty store')
        else:
            rs = ck.fn(c.qual + '.reset_data_buffer')
            ck.ob('param-kept', not rs.sets('self', '_data_buffer') and
                  not rs.calls('_.clear()'), rs,
                  'recorded parameters survive entering a scope')
        # retrieval
        ck_get(ck, c)
        if ck.prog.lookup(c, 'forward_hook') is not None:
            check_module(ck, c)
            n += 1
        if 'Parameter' in c.name:
            s = ck.fn(c.qual + '.prepare_from_model')
            app = [h for h in s.calls('_.append(_)')]
            ok = any(h.e.loops and s.loop_over(
                h.e, '_.named_parameters()') and h.guard_is(
                'ELEM(_)[0] == OR(self.source, self._source)') and
                s.m.match('ELEM(_.named_parameters())[1]', h.e.args[0])
                is not None for h in app)
            ck.ob('param-source', ok, s,
                  'the parameter of the configured name is recorded')
            check_found(ck, s)
    for c in concrete(ck, dlv):
        check_delivery(ck, c)
        n += 1
    ck.floor('wrappers', n, 8)
    base = ck.cls('DistillDelivery')
    s = ck.fn('DistillDelivery.override_data=')
    st = s.sets('self', '_override_data', 'override')
    ck.always('override-set', st, s, 'a delivery takes the mode it is given')
    g = ck.fn('DistillDelivery.override_data')
    ck.ob('override-get', g.m.match('self._override_data', g.ret())
          is not None, g, 'a delivery reports the mode it was given')
    ini = ck.fn('DistillDelivery.__init__')
    ck.always('override-init', ini.sets('self', '_override_data', 'False'),
              ini, 'deliveries start in recording mode')
    ck.always('queue-capacity', [h for h in ini.sets('self', 'data_queue')
                                 if ini.m.match('deque(_, maxlen='
                                                'max_keep_data)',
                                                h.e.value) is not None], ini,
              'the store keeps as many results as configured')
    check_managers(ck)


def check_found(ck, s):
    """a source that does not exist is rejected"""
    ok = any(h.e.kind == 'raise' or not s.m.equiv(
        s.E.formula(h.e.value), 'model is not None') for h in s.raises())
    ck.ob('source-must-exist', ok, s,
          'a source that does not exist is rejected')


def ck_get(ck, c):
    s = ck.fn(c.qual + '.get_record_data')
    v = s.ret()
    leaves = []

    def go(t, g):
        if t[0] == 'ite':
            go(t[2], f_and(g, t[1]))
            go(t[3], f_and(g, f_not(t[1])))
        else:
            leaves.append((g, t))
    go(v, True)
    leaves = [(g, t) for g, t in leaves if t != UNDEF]
    full = part = False
    ok = True
    buf = 'OR(self._data_buffer, self.data_buffer)'
    for g, t in leaves:
        if s.m.match('%s[record_idx]' % buf, t) is not None:
            full = True
            ok = ok and s.m.implies(g, 'data_idx is None')
        elif s.m.match('%s[record_idx][data_idx]' % buf, t) is not None:
            part = True
            ok = ok and s.m.implies(g, 'data_idx is not None')
        else:
            ok = False
    ck.ob('get-record', ok and full and part, s,
          'reading hands back the record selected by record index, or its '
          'element selected by data index exactly when one is given')


def check_module(ck, c):
    s = ck.fn(c.qual + '.prepare_from_model')
    hs = s.calls('_.register_forward_hook(self.forward_hook)')
    ok = any(h.guard_is('ELEM(_.named_modules())[0] == '
                        'OR(self.source, self._source)') and
             s.m.match('ELEM(model.named_modules())[1]', h.e.func[1])
             is not None for h in hs)
    ck.ob('hook-source', ok and len(hs) == 1, s,
          'the module of the configured name is hooked once')
    check_found(ck, s)
    h = ck.fn(c.qual + '.forward_hook')
    what = 'inputs' if 'Inputs' in c.name else 'outputs'
    pos = ck.fn(c.qual + '.forward_hook').func.params()
    pname = pos[2] if what == 'inputs' else pos[3]
    app = h.calls('_.append(_)')
    ok = len(app) == 1 and app[0].e.args[0] == ('param', pname) and \
        h.m.match('OR(self.data_buffer, self._data_buffer)',
                  app[0].e.func[1]) is not None and \
        app[0].guard_is('OR(self.recording, self._recording)')
    ck.ob('hook-value', ok, h,
          'inside the scope each forward appends its own %s once' % what)
    rets = [r for r in h.returns() if r.e.value != NONE]
    ck.ob('hook-transparent', not rets, h,
          'the hook does not replace the module\'s output')


def check_managers(ck):
    s = ck.fn('DistillDeliveryManager.override_data=')
    p = s.func.params()[1]
    st = [h for h in s.sets('_d', 'override_data', p) if h.e.base != SELF]
    ok = any(whole_loop(s, h, 'OR(self.deliveries, self._deliveries)')
             and h.unconditional() for h in st)
    ck.ob('override-all', ok, s,
          'the override mode set on the group reaches each member')
    ck.always('override-store', s.sets('self', '_override_data', p), s,
              'the group remembers its override mode')
    g = ck.fn('DistillDeliveryManager.override_data')
    ck.ob('override-get', g.m.match('self._override_data', g.ret())
          is not None, g, 'the group reports its override mode')
    s = ck.fn('RecorderManager.initialize')
    hs = [h for h in s.calls('_r.initialize(_)')
          if s.m.match(s.func.params()[1], h.e.args[0]) is not None]
    ok = any(whole_loop(s, h, 'OR(self.recorders, self._recorders)') and
             h.unconditional() for h in hs)
    ck.ob('init-all', ok, s, 'every recorder is initialised from the model')
    b = ck.fn('BaseRecorder.initialize')
    prep = b.calls('self.prepare_from_model(...)')
    ck.ob('init-prepare', any(h.unconditional() and
                              h.e.args == (('param', 'model'),)
                              for h in prep), b,
          'initialising a recorder prepares it from the given model')
    ck.order('init-flag', prep, b.sets('self', '_initialized', 'True'), b,
             'a recorder counts as initialised only after preparing')
    s = ck.fn('RecorderManager.get_recorder')
    ck.ob('get-recorder', s.m.match(
        'OR(self.recorders, self._recorders)[%s]' % s.func.params()[1],
        s.ret()) is not None, s,
        'a recorder is found under its own name')
    for name, par, attr, suffix in (
            ('RecorderManager', 'recorders', '_recorders', 'Recorder'),
            ('DistillDeliveryManager', 'deliveries', '_deliveries',
             'Delivery')):
        s = ck.fn(name + '.__init__')
        its = [h for h in s.items('_') if s.derives(
            h.e.value, 'TASK_UTILS.build(_)')]
        ok = False
        for h in its:
            base_ok = s.m.match('OR(self.%s, self.%s)' % (
                attr, par), h.e.base) is not None or s.derives(
                h.e.base, 'ALLOC()')
            key_ok = s.m.match('ELEM(%s)' % par, h.e.attr) is not None or \
                s.m.match('ELEM(_)[0]', h.e.attr) is not None
            val_ok = s.derives(h.e.value, '%s[ELEM(%s)]' % (par, par))
            lp = whole_loop(s, h, par)
            if base_ok and key_ok and val_ok and lp and h.guard_is(par):
                ok = True
        ck.ob('build-members', ok, s,
              'each configured member is built from its own configuration '
              'and kept under its own name')
        tp = [h for h in s.items('_', "'type'")] + [
            h for h in s.calls('_.update(_)')]
        ck.ob('member-type', any(
            s.derives(h.e.value if h.e.kind == 'setitem' else h.e.args[0],
                      "STR(HAS(%s), '%s')" % (par, suffix)) or
            s.derives(h.e.value if h.e.kind == 'setitem' else h.e.args[0],
                      "STR(_, '%s')" % suffix) for h in tp), s,
            'the member type is the configured type')
