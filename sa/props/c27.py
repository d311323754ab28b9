"""C27 the variants of a quantised model stay in step; deployment strips the
fake quantisers; schemes are validated."""
from .common import *
from ..terms import (f_and, f_not, f_or, f_implies, f_equiv, f_map, show,
                     fshow)

GU = 'mmrazor.models.task_modules.tracer.fx.graph_utils'
FQ = 'FakeQuantizeBase'


def check(ck):
    ck.sections(sync, variants, routing, deployable, before_ops, found,
                after_ops, before_module, redundant, backends, post, schemes,
                qconfigs, replaced, academic, norms, wrapper, preparing, rewriting,
                swapped)


def unshaped(s, g):
    """guard with comparisons of shapes left open: (some, every)"""
    def fn(v):
        def f(a):
            if a[0] == 'cmp' and 'shape' in show(a):
                return v
            return ('atom', a)
        return f
    return f_or(f_map(s.m.norm(g), fn(True)), f_map(s.m.norm(g), fn(False)))


# ------------------------------------------------------------- sync_qparams
def sync(ck):
    s = ck.fn('MMArchitectureQuant.sync_qparams')
    src = 'self.qmodels[src_mode].state_dict()'
    cp = [h for h in s.calls('_.copy_(_)') if not h.e.frames or True]
    for kind in ('parameters', 'buffers'):
        pat = 'OR(ELEM(_x.named_%s(...))[1].data, ELEM(_x.named_%s(...))' \
              '[1])' % (kind, kind)
        hs = []
        for h in cp:
            b = s.match(h.e.func[1], pat)
            if b is not None:
                hs.append((h, b['_x']))
        ck.need('sync-copy', hs, s, 'the %s of every fake quantizer are '
                'copied to the other modes' % kind)
        if not hs:
            continue
        x = hs[0][1]
        ok = FQ_of(s, jointly([h for h, _ in hs]))
        ck.ob('sync-copy', ok, hs[0][0], 'all of the %s, whatever their '
              'shape' % kind)
        for h, x in hs:
            v = h.arg(0, 'src')
            b = s.match(v, '%s[_k]' % src)
            ck.ob('sync-source', b is not None, h, 'the value of the '
                  'source mode is copied')
            if b is not None:
                ck.ob('sync-source', s.match(b['_k'], "STR(_, '.', ELEM("
                      "_x.named_%s(...))[0])" % kind) is not None and
                      last_part(s, b['_k'], 'ELEM(_.named_%s(...))[0]' %
                                kind), h, 'of the same name')
            ck.ob('sync-every', all(whole(s, l) and not other_continue(
                s, l) for l in h.e.loops), h, 'of every fake quantizer in '
                'every mode')
            same = [a for a in atoms(s, h.e.guard) if a[0] == 'cmp' and
                    a[1] == '==' and 'shape' in show(a)]
            diff = any(f_implies(h.e.guard, f_not(('atom', a)))
                       for a in same) or not any(f_implies(
                           h.e.guard, ('atom', a)) for a in same)
            if diff:
                rs = [r for r in s.calls('_.resize_(_)') if r.e.seq <
                      h.e.seq and r.e.loops == h.e.loops and s.match(
                          r.e.func[1], 'OR(ELEM(_.named_%s(...))[1], ELEM(_'
                          '.named_%s(...))[1].data)' % (kind, kind))
                      is not None and
                      s.match(r.arg(0) or NONE, '_.shape') is not None and
                      s.find(r.arg(0), src)]
                ck.ob('sync-resize', bool(rs) and f_implies(
                    h.e.guard, jointly(rs)), h, 'after taking the shape '
                    'of the source')
        # the requires_grad flag
        off = s.sets('ELEM(_.named_%s(...))[1]' % kind, 'requires_grad')
        if off:
            last = off[-1]
            ck.ob('sync-grad', s.match(last.e.value, 'ELEM(_.named_%s(...))'
                  '[1].requires_grad' % kind) is not None, last, 'whether '
                  'it is learned stays as it was')
    # the traversal
    ms = [l for l in s.E.loops if over(s, l, 'self.forward_modes',
                                       'self.qmodels')]
    ck.need('sync-modes', ms, s, 'all modes are visited')
    rec = [h for h in s.ev if h.kind == 'call' and h.func[0] == 'closure']
    outer = [e for e in rec if s.match(
        e.args[0], 'self.qmodels[ELEM(self.forward_modes)]') is not None or
        s.match(e.args[0], 'self.qmodels[ELEM(self.qmodels)]') is not None]
    inner = [e for e in rec if e not in outer]
    if rec:
        ck.need('sync-modes', outer, s, 'each of their models')
        for e in outer:
            h = Hit_(s, e)
            ck.ob('sync-modes', any(s.m.equiv(e.guard, p) for p in (
                'ELEM(self.forward_modes) != src_mode',
                'ELEM(self.qmodels) != src_mode')) and all(
                    whole(s, l) for l in e.loops), h, 'but for the source')
            ck.ob('sync-modes', s.match(e.args[1], "''") is not None, h,
                  'from its root')
        ck.need('sync-descend', inner, s, 'submodules are descended into')
        for e in inner:
            h = Hit_(s, e)
            k = "ELEM(_x._modules)"
            ck.ob('sync-descend', s.match(e.args[0], 'OR(_x._modules[ELEM('
                  '_x._modules)], ELEM(_x.named_children())[1])') is not None,
                  h, 'every one of them')
            ck.ob('sync-descend', s.match(e.args[1], "STR('', OR(ELEM(_."
                  "_modules), ELEM(_.named_children())[0]), '.')") is not
                  None, h, 'with its qualified name')
            g = e.guard
            fq = [a for a in atoms(s, g) if s.match(
                a, 'isinstance(_, %s)' % FQ) is not None]
            ck.ob('sync-descend', bool(fq) and all(f_implies(
                g, f_not(('atom', a))) for a in fq) and only(s, g, (
                    'isinstance(_, %s)' % FQ, '_ is None', '_ == src_mode')),
                  h, 'unless it is a fake quantizer')
            ck.ob('sync-descend', any(s.match(a, '_ is None') is not None and
                  not s.find(a, 'NONE') and (s.match(
                      a, '_._modules[_] is None') is not None) and f_implies(
                          g, f_not(('atom', a))) for a in atoms(s, g)) or
                  s.match(e.args[0], 'ELEM(_.named_children())[1]')
                  is not None, h, 'or missing')
    extra = [h for h in cp if not any(s.find(h.e.func[1], '_.named_%s(...)'
             % k) for k in ('parameters', 'buffers'))]
    ck.never('sync-only', extra, s, 'nothing else is written')


def same_(s, t, u):
    return t == u or any(f == u for f in s.m.forms(t)) or any(
        f == t for f in s.m.forms(u))


def Hit_(s, e):
    from ..rules import Hit
    return Hit(s, e, {})


def atoms(s, f):
    out = []

    def fn(a):
        out.append(a)
        return ('atom', a)
    f_map(s.m.norm(f), fn)
    return out


def only(s, g, pats):
    return all(any(s.match(a, p) is not None for p in pats)
               for a in atoms(s, g))


def FQ_of(s, g):
    """g is: a fake quantizer of another mode"""
    g = s.m.norm(g)
    f = case(s, g, {'isinstance(_, %s)' % FQ: True, '_ is None': False,
                    '_ == src_mode': False})

    def shapes(v):
        def fn(a):
            return v if a[0] == 'cmp' and 'shape' in show(a) else ('atom', a)
        return fn
    return f_map(f, shapes(True)) is True and f_map(f, shapes(False)) is \
        True and case(s, g, {'isinstance(_, %s)' % FQ: False}) is False


def other_continue(s, l):
    """iterations are left out for something else than the source mode or a
    missing submodule"""
    for c in s.E.loops[l]['continues']:
        pass
    for e in s.ev:
        if e.kind == 'continue' and e.loops and e.loops[-1] == l:
            if not only(s, e.guard, ('_ is None', '_ == src_mode',
                                     'isinstance(_, %s)' % FQ)):
                return True
    return False


def last_part(s, t, pat):
    for f in s.m.forms(t):
        if f[0] == 'fstr':
            return s.match(f[1][-1], pat) is not None and len(f[1]) >= 3 \
                and f[1][-2] == ('const', '.')
    return False


# ------------------------------------------------------------ the variants
def variants(ck):
    s = ck.fn('MMArchitectureQuant._build_qmodels', opaque=(
        'MMArchitectureQuant._get_rewriter_context_in_mmdeploy',
        'MMArchitectureQuant._pop_function_record_in_rewriter_context'))
    r = s.ret()
    st = s.items('_', key='ELEM(self.forward_modes)')
    ck.need('variant', st, s, 'a model is prepared for every mode')
    ctx = 'self._get_rewriter_context_in_mmdeploy(self.deploy_cfg)'
    for h in st:
        ck.ob('variant', h.e.base == r and h.e.guard is True and all(
            whole(s, l) for l in h.e.loops), h, 'each of them')
        for g, v in leaves(s, h.e.value):
            ck.ob('variant', s.match(v, "self.quantizer.prepare(model, "
                  "{'mode': ELEM(self.forward_modes)})") is not None, h,
                  'with the mode it is for fixed')
    for h in s.calls('self.quantizer.prepare(...)'):
        off = case(s, h.e.guard, {'_ is None': False})
        if off is not False:
            ck.ob('rewritten', bool(h.e.scopes), h, 'a deployment backend '
                  'rewrites the model while it is traced')
    ups = s.calls('_._rewriter_manager.function_rewriter._registry.'
                  '_rewrite_records.update(_)')
    ck.need('records', ups, s, 'functions left out of the rewriting are '
            'recorded again')
    for h in ups:
        v = full(s, h.arg(0))
        ck.ob('records', any(s.match(
            x, 'self._pop_function_record_in_rewriter_context(...)')
            is not None for _, x in leaves(s, h.arg(0))) or s.find(
                h.arg(0), 'self._pop_function_record_in_rewriter_context('
                '...)'), h, 'all of them')
        ck.ob('records', case(s, h.e.guard, {'_ is None': False})
              is True, h, 'whenever they were removed')
        ck.ob('records', all(x.e.seq < h.e.seq for x in s.calls(
            'self.quantizer.prepare(...)')), h, 'after the models were '
            'prepared')
    # the mode of training is kept
    for h in s.calls('_.train(...)'):
        ck.ob('variant-mode', s.match(h.arg(0, 'mode') or NONE,
              '_.training') is not None, h, 'the training flag is put back')
    ev = s.calls('_.eval()')
    tr = s.calls('_.train(...)')
    for h in ev:
        ck.ob('variant-mode', any(t.e.seq > h.e.seq and t.e.func[1] ==
              h.e.func[1] and t.e.guard is True for t in tr), h,
              'after the dry run')
    # the constructor
    s = ck.fn('MMArchitectureQuant.__init__', opaque=(
        'MMArchitectureQuant._build_qmodels',
        'MMArchitectureQuant.sync_qparams',
        'MMArchitectureQuant.reset_observer_and_fakequant_statistics',
        'BaseQuantizer.convert_batchnorm2d'))
    prepared(ck, s, 'self.qmodels', 'self._build_qmodels(self.architecture)',
             'self.sync_qparams(_m)', 'self.reset_observer_and_fakequant_'
             'statistics(...)')
    ld = s.calls('_(self.architecture, float_checkpoint, ...)')
    cv = s.calls('self.quantizer.convert_batchnorm2d(self.architecture)')
    ck.need('float-first', ld, s, 'a float checkpoint is loaded')
    for h in ld:
        ck.ob('float-first', all(h.e.seq < x.e.seq for x in s.calls(
            'self._build_qmodels(...)')), h, 'before the models are derived '
            'from it')
        ck.ob('float-first', s.m.equiv(h.e.guard, 'float_checkpoint'), h,
              'whenever one is given')
    ck.need('converted', cv, s, 'batch norms are converted')
    ck.order('converted', cv, ld, s, 'before weights are loaded')
    for a in ('forward_modes', 'input_shapes'):
        h = s.final_attr(a)
        ck.ob('kept', h is not None and s.derives(h, a) if not isinstance(
            h, bool) else False, s, '%s are kept' % a)
    s = ck.fn('MMArchitectureQuant.reset_observer_and_fakequant_statistics')
    for a, v in (('scale', 'torch.ones_like(_)'), ('zero_point',
                                                   'torch.zeros_like(_)')):
        hs = s.sets('_.%s' % a, 'data')
        ck.need('reset', hs, s, 'the %s of fake quantizers is reset' % a)
        for h in hs:
            ck.ob('reset', s.match(h.e.value, v) is not None, h, 'to '
                  'neutral')
    hs = s.calls('_.reset_min_max_vals()')
    ck.need('reset', hs, s, 'observers start anew')
    for h in hs + s.sets('_.scale', 'data'):
        ck.ob('reset', any(over(s, l, 'model.modules()', 'model.'
                                'named_modules()') and whole(s, l)
                           for l in h.e.loops), h, 'in the whole model')


def prepared(ck, s, attr, build, sy, reset):
    b = s.sets(attr.rpartition('.')[0], attr.rpartition('.')[2])
    ck.need('prepared', b, s, 'the quantised models are built')
    for h in b:
        ck.ob('prepared', s.match(h.e.value, build) is not None and
              h.e.guard is True, h, 'from the architecture')
    y = s.calls(sy)
    ck.need('prepared', y, s, 'and synchronised')
    ck.order('prepared', b, y, s, 'once they exist')
    z = s.calls(reset)
    ck.need('prepared', z, s, 'their statistics start anew')
    for h in z:
        ck.ob('prepared', h.e.guard is True and all(
            x.e.seq < h.e.seq for x in b), h, 'after the dry run')


def wrapper(ck):
    s = ck.fn('MMArchitectureQuantDDP.__init__', opaque=(
        'MMArchitectureQuant._build_qmodels',
        'MMArchitectureQuant.sync_qparams',
        'MMArchitectureQuant.reset_observer_and_fakequant_statistics'))
    prepared(ck, s, 'self.module.qmodels', 'self.module._build_qmodels('
             'self.module.architecture)', 'self.module.sync_qparams(_m)',
             'self.module.reset_observer_and_fakequant_statistics(...)')
    for n, a in (('calibrate_step', 'data'), ('sync_qparams', 'src_mode')):
        s = ck.fn('MMArchitectureQuantDDP.' + n, opaque=(
            'MMArchitectureQuant.' + n,))
        hs = s.calls('self.module.%s(%s)' % (n, a))
        ck.always('wrapped', hs, s, '%s is left to the module' % n)
        if n == 'calibrate_step':
            ck.ob('wrapped', any(s.match(s.ret() or NONE, 'self.module.%s('
                  '%s)' % (n, a)) is not None for _ in (0,)), s,
                  'with its result')


def routing(ck):
    s = ck.fn('MMArchitectureQuant.forward')
    r = s.ret()
    for g, v in leaves(s, r):
        q = case(s, g, {'mode in self.qmodels': True})
        a = s.match(v, 'self.qmodels[mode](inputs, data_samples, mode)')
        b = s.match(v, 'self.architecture(inputs, data_samples, mode)')
        ck.ob('routed', (a if q is not False else b) is not None, s,
              'each mode runs the graph prepared for it')
    ck.ob('routed', r[0] == 'ite' and any(s.m.equiv(g, 'mode in self.qmodels'
          ) for g, v in leaves(s, r) if s.match(
              v, 'self.qmodels[mode](...)') is not None), s, 'and other '
          'modes the float model')
    s = ck.fn('MMArchitectureQuant.calibrate_step', opaque=(
        'MMArchitectureQuant._run_forward', 'BaseModel._run_forward'))
    hs = s.calls('self._run_forward(...)')
    ck.need('calibration', hs, s, 'calibration runs the model')
    for h in hs:
        ck.ob('calibration', s.match(h.arg(1, 'mode') or NONE, "'predict'")
              is not None and s.match(h.arg(0, 'data'), 'self.'
              'data_preprocessor(data, False)') is not None, h,
              'in predict mode on preprocessed data')


# --------------------------------------------------------------- deployment
def deployable(ck):
    s = ck.fn('MMArchitectureQuant.get_deploy_model', opaque=(
        'QConfigHandler.replace_fakequant', 'BaseQuantizer.'
        'convert_batchnorm2d'))
    r = s.ret()
    obs = 'self.quantizer.prepare(self.architecture)'
    ck.ob('deployed', s.match(r, obs) is not None, s, 'a newly prepared '
          'model is deployed')
    ld = s.calls(obs + ".load_state_dict(...)")
    ck.always('deployed', ld, s, 'which takes')
    for h in ld:
        ck.ob('deployed', s.match(h.arg(0), "self.qmodels['predict']."
              "state_dict()") is not None and h.arg(1, 'strict') in (
                  None, TRUE), h, 'the state of the predict model')
    pp = s.calls('self.quantizer.post_process_for_deploy(...)')
    ck.always('deployed', pp, s, 'is post-processed')
    ck.order('deployed', ld, pp, s, 'after it is loaded')
    for h in pp:
        ck.ob('deployed', s.match(h.arg(0, 'observed_module'), obs)
              is not None and h.arg(None, 'keep_w_fake_quant') == TRUE and
              h.arg(None, 'update_weight_with_fakequant') == TRUE, h,
              'weights are fake quantised and keep their quantizer')
    rp = [h for h in s.ev if h.kind == 'setattr' and not isinstance(
        h.attr, str)]
    ck.need('activation', rp, s, 'the activation quantizers are replaced')
    for e in rp:
        h = Hit_(s, e)
        n = 'ELEM(_.graph.nodes)'
        ck.ob('activation', s.match(e.base, obs) is not None and
              any(over(s, l, obs + '.graph.nodes') and whole(s, l)
                  for l in e.loops) and s.m.equiv(
                  e.guard, "'activation_post_process_' in ELEM(_.graph."
                  "nodes).name"), h, 'every one of them')
        b = s.match(e.value, '_.replace_fakequant(_old, self.quantizer.'
                    'qconfig.a_qscheme, update_qparams=_u)') or s.match(
            e.value, '_.replace_fakequant(_old, self.quantizer.qconfig.'
            'a_qscheme)') or s.match(e.value, 'replace_fakequant(_old, '
            'self.quantizer.qconfig.a_qscheme, ...)')
        v = [c for c in s.calls('QConfigHandler.replace_fakequant(...)')]
        ok = any(same_(s, e.value, c.e.term) and s.match(c.arg(1, 'qscheme_org'),
                 'self.quantizer.qconfig.a_qscheme') is not None and
                 c.arg(2, 'update_qparams') in (None, TRUE)
                 for c in v)
        ck.ob('activation', ok, h, 'by a plain one with the same scale '
              'and offset')
    ds = s.calls(obs + '.apply(disable_observer)')
    ck.always('frozen', ds, s, 'no observer is left running')
    if rp and ds:
        ck.ob('frozen', all(e.seq < ds[-1].e.seq for e in rp), ds[-1],
              'at the end')


TRUE = ('const', True)


def graph_of(ck, s):
    """the model is edited in place (or a copy of it) and gets the graph"""
    r = s.ret()
    st = [h for h in s.sets('_', 'graph')]
    ck.need('graph', st, s, 'the model gets the edited graph')
    for h in st:
        ck.ob('graph', h.e.base == r and h.e.guard is True and not
              h.e.loops, h, 'and is returned')
        li = [x for x in s.calls('_.lint()') if x.e.func[1] == h.e.value and
              x.e.guard is True and not x.e.loops]
        er = s.calls('_.erase_node(...)')
        ck.ob('graph', bool(li) and all(e.e.seq < li[-1].e.seq for e in er),
              h, 'checked for dangling nodes')
        ck.ob('graph', all(e.e.func[1] == h.e.value for e in er) and
              s.match(h.e.value, 'OR(copy.deepcopy(_.graph), _.graph)')
              is not None, h, 'nodes are erased from it')
    fl = [p for p in s.func.params()]
    for g, v in leaves(s, r):
        c = case(s, g, {fl[2]: False})
        want = 'copy.deepcopy(%s)' % fl[0] if c is not False else fl[0]
        ck.ob('in-place', s.match(v, want) is not None, s, 'the given model '
              'is edited only if asked to')
    ck.ob('in-place', any(s.match(v, 'copy.deepcopy(%s)' % fl[0])
          is not None for g, v in leaves(s, r)), s, 'else a copy')
    return r


def erased(ck, s, cond, what):
    """erase events: rewired before, module removed with it"""
    er = s.calls('_.erase_node(_n)')
    ck.need('erase', er, s, what)
    for h in er:
        n = h.b['_n']
        rw = [x for x in s.calls('_.replace_all_uses_with(_i)')
              if x.e.func[1] == n and x.e.loops == h.e.loops]
        ck.ob('rewired', bool(rw) and all(s.match(
            x.b['_i'], '_.args[0]') is not None and base_of(
                s, x.b['_i']) == n and x.e.seq < h.e.seq
            for x in rw) and f_implies(h.e.guard, jointly(rw)), h, 'its '
            'consumers read its input instead')
        dl = [e for e in s.ev if e.kind == 'del' and e.loops == h.e.loops and
              e.attr == ('attr', n, 'target', e.attr[3] if len(e.attr) > 3
                         else 0)]
        dl = [e for e in s.ev if e.kind == 'del' and e.loops == h.e.loops
              and not isinstance(e.attr, str) and s.match(
                  e.attr, '_.target') is not None and base_of(
                      s, e.attr) == n]
        ck.ob('dropped', bool(dl) and f_implies(h.e.guard, f_or(*[
            e.guard for e in dl])) and all(e.base == s.ret() for e in dl), h,
            'its module goes with it')
        cond(h, n)
    for e in s.ev:
        if e.kind == 'del' and not isinstance(e.attr, str):
            ck.ob('dropped', any(f_implies(e.guard, x.e.guard)
                  for x in er if x.e.loops == e.loops), Hit_(s, e),
                  'modules of erased nodes only are dropped')
    for x in s.calls('_.replace_all_uses_with(_)'):
        ck.ob('rewired', any(h.b['_n'] == x.e.func[1] and f_implies(
            x.e.guard, h.e.guard) for h in er), x, 'erased nodes only are '
            'bypassed')


def base_of(s, t):
    for f in s.m.forms(t):
        x = f
        while x[0] in ('attr', 'sub'):
            if x[0] == 'attr' and x[2] in ('args', 'target'):
                return x[1]
            x = x[1]
    return None


TARGETS = {'op': "ELEM(_.nodes).op in %s",
           'method': "ELEM(_.nodes).op == 'call_method' and "
                     "ELEM(_.nodes).target in %s",
           'function': "ELEM(_.nodes).op == 'call_function' and "
                       "ELEM(_.nodes).target in %s",
           'module': "ELEM(_.nodes).op == 'call_module' and isinstance("
                     "_get_attrs(_, ELEM(_.nodes).target), %s)"}


def nodes_loop(s, ls):
    return any(over(s, l, '_.nodes') and whole(s, l) for l in ls)


def skips(s, ls):
    return [e for e in s.ev if e.kind == 'break' and set(e.loops) & set(ls)]


def before_ops(ck):
    for kind in ('op', 'method', 'function'):
        s = ck.fn('%s.del_fakequant_before_%s' % (GU, kind), opaque=(
            '_get_attrs', 'recursive_find_erased_nodes'))
        pats = s.func.params()[1]
        graph_of(ck, s)

        def cond(h, n):
            finds = s.calls('recursive_find_erased_nodes(_t, _m)')
            b = s.match(n, 'ELEM(_l)')
            ok = b is not None and any(
                over(s, l, '_') for l in h.e.loops)
            ck.ob('removed', ok and len(h.e.loops) == 1, h, 'all '
                  'quantizers to remove are found before any is removed')
            its = []
            for l in h.e.loops:
                for it in (s.E.loops[l]['iter'], s.E.loops[l]['raw']):
                    if it is not None:
                        its += [x for x in unpacked(s, it)]
            src = []
            for it in its:
                for x in listed(s, it):
                    for f in finds:
                        if x.value == f.e.term or s.find(
                                x.value, 'recursive_find_erased_nodes(...)'):
                            src.append((x, f))
            ck.ob('removed', bool(src), h, 'those in front of the %ss'
                  % kind)
            for x, f in src:
                outer = [l for l in x.loops if over(s, l, '_.nodes')]
                ck.ob('removed', s.match(f.b['_t'], 'ELEM(_.nodes)')
                      is not None and bool(outer) and all(
                          whole(s, l) for l in x.loops) and not skips(
                              s, x.loops), f, 'of the whole graph')
                g = x.guard
                dup = [a for a in atoms(s, g) if a[0] == 'cmp' and
                       a[1] == 'in' and s.find(
                           a[2], 'recursive_find_erased_nodes(...)')]
                for a in dup:
                    g = f_map(s.m.norm(g), lambda y: False if y == a
                              else ('atom', y))
                ck.ob('removed', s.m.equiv(g, TARGETS[kind] % pats), f,
                      'whose kind is asked for')
        erased(ck, s, cond, 'fake quantizers before a %s are removed' % kind)


def unpacked(s, it):
    """what dict.fromkeys, list, set, reversed range over"""
    out = []
    for f in s.m.forms(it):
        if f[0] == 'call' and f[1][0] in ('global', 'attr') and f[2] and (
                f[1][0] == 'global' and f[1][1].rpartition('.')[2] in (
                    'fromkeys', 'list', 'tuple', 'set', 'reversed', 'sorted')
                or f[1][0] == 'attr' and f[1][2] == 'fromkeys'):
            out += unpacked(s, f[2][0])
        else:
            out.append(f)
    return out


def found(ck):
    s = ck.fn(GU + '.recursive_find_erased_nodes', opaque=(
        '_get_attrs',))
    n, m = s.func.params()[:2]
    fq = "%s.op == 'call_module' and isinstance(_get_attrs(%s, %s.target), " \
         "%s)" % (n, m, n, FQ)
    one = [h for h in s.returns() if s.match(h.e.value or NONE, '[%s]' % n)
           is not None]
    ck.need('found', one, s, 'a fake quantizer is found')
    for h in one:
        ck.ob('found', case(s, h.e.guard, {
            '%s is None' % n: False, "%s.op == 'call_module'" % n: True,
            'isinstance(_get_attrs(%s, %s.target), %s)' % (m, n, FQ): True})
            is True and s.m.implies(h.e.guard, fq), h, 'where the search '
            'comes upon one')
    for what, it, el in (('args', n + '.args', 'ELEM(%s.args)' % n),
                         ('kwargs', n + '.kwargs',
                          'OR(%s.kwargs[ELEM(%s.kwargs)], ELEM(%s.kwargs.'
                          'values()))' % (n, n, n))):
        hs = s.calls('recursive_find_erased_nodes(_x, %s)' % m)
        hs = [h for h in hs if s.match(h.b['_x'], el) is not None]
        ck.need('searched', hs, s, 'the %s of other nodes are searched'
                % what)
        for h in hs:
            ck.ob('searched', all(whole(s, l) and not s.E.loops[l]['exits']
                  for l in h.e.loops) and case(s, h.e.guard, {
                      '%s is None' % n: False,
                      "%s.op == 'call_module'" % n: False,
                      'isinstance(_, %s)' % FQ: False,
                      'isinstance(%s, _)' % el: True}) is True, h,
                  'all of them')
            ck.ob('searched', any(x.value == h.e.term or s.find(
                x.value, 'recursive_find_erased_nodes(%s, %s)' % (el, m))
                for r in s.returns() for x in listed(s, r.e.value)), h,
                'and what is found there returned')
    s = ck.fn('_get_attrs')
    t, a = s.func.params()[:2]
    h = s.calls('getattr(...)')
    ok = s.ret()[0] == 'loopvar' or bool(h)
    ck.ob('located', ok and any(over(s, l, "%s.split('.')" % a) and whole(
        s, l) for l in s.E.loops), s, 'a module is located by its dotted '
        'path')


def after_ops(ck):
    for kind in ('op', 'method', 'function', 'module'):
        s = ck.fn('%s.del_fakequant_after_%s' % (GU, kind), opaque=(
            '_get_attrs',))
        pats = s.func.params()[1]
        graph_of(ck, s)

        def cond(h, n):
            ck.ob('removed', s.match(n, 'ELEM(_.nodes)') is not None and
                  nodes_loop(s, h.e.loops) and not skips(s, h.e.loops), h,
                  'in the whole graph')
            A = ["ELEM(_.nodes).op == 'call_module'",
                 'isinstance(_get_attrs(_, ELEM(_.nodes).target), %s)' % FQ]
            g = h.e.guard
            d = {A[0]: True, A[1]: True}
            mem = [a for a in atoms(s, g) if a[0] == 'cmp' and a[1] == 'in'
                   and s.match(a[2], 'ELEM(_.nodes).args[0]') is not None]
            ok = bool(mem) and base_of(s, mem[0][2]) == n
            ck.ob('removed', ok, h, 'if its input')
            if not ok:
                return
            a = mem[0]
            g2 = f_map(s.m.norm(g), lambda y: True if y == a else (
                'atom', y))
            g3 = f_map(s.m.norm(g), lambda y: False if y == a else (
                'atom', y))
            ck.ob('removed', case(s, g2, d) is True and g3 is False and
                  case(s, g, {A[1]: False}) is False, h, 'and only if it '
                  'is a fake quantizer')
            ts = listed(s, a[3])
            ck.ob('removed', bool(ts), h, 'is one of the %ss asked for'
                  % kind)
            for x in ts:
                ck.ob('removed', s.match(x.value, 'ELEM(_.nodes)')
                      is not None and nodes_loop(s, x.loops) and not skips(
                          s, x.loops) and s.m.equiv(
                          x.guard, TARGETS[kind] % pats), x.hit or h,
                      'any of them')
        erased(ck, s, cond, 'fake quantizers after a %s are removed' % kind)


def before_module(ck):
    s = ck.fn(GU + '.del_fakequant_before_module', opaque=(
        '_get_attrs',))
    pats = s.func.params()[1]
    graph_of(ck, s)

    def cond(h, n):
        ck.ob('removed', s.match(n, 'ELEM(_.nodes).args[0]') is not None and
              nodes_loop(s, h.e.loops) and not skips(s, h.e.loops), h,
              'in the whole graph')
        ck.ob('removed', s.m.equiv(
            h.e.guard, "ELEM(_.nodes).op == 'call_module' and isinstance("
            "_get_attrs(_, ELEM(_.nodes).target), %s) and ELEM(_.nodes)."
            "args[0].op == 'call_module' and isinstance(_get_attrs(_, "
            "ELEM(_.nodes).args[0].target), %s)" % (pats, FQ)), h,
            'only fake quantizers right before such a module')
    erased(ck, s, cond, 'fake quantizers before a module are removed')


# ---------------------------------------------------------------- quantizers
KINDS = [(k, w) for k in ('module', 'function', 'method', 'op')
         for w in ('prev', 'next')]


def redundant(ck):
    fns = tuple('%s.del_fakequant_%s_%s' % (GU, w, k)
                for k in ('module', 'function', 'method', 'op')
                for w in ('before', 'after'))
    s = ck.fn('TorchNativeQuantizer.del_redundant_fakequant', opaque=fns +
              tuple('TorchNativeQuantizer.%s_%s_wo_fakequant' % x
                    for x in KINDS))
    chain = s.ret()
    seen = 0
    for k, w in KINDS:
        d = 'del_fakequant_%s_%s' % ('before' if w == 'prev' else 'after', k)
        hs = s.calls(d + '(...)')
        ck.need('redundant', hs, s, 'redundant quantizers at %ss are '
                'removed (%s)' % (k, w))
        for h in hs:
            ck.ob('redundant', h.e.guard is True, h, 'always')
            a = h.arg(1)
            names = attr_names(s, a)
            own = '%s_%s_wo_fakequant' % (k, w)
            ext = 'extra_%s_%s_wo_fakequant' % (k, w)
            ck.ob('redundant', own in names and ext in strings(s, a) and
                  not [x for x in names if x.endswith('_wo_fakequant') and
                       x != own] and not [x for x in strings(s, a)
                                          if x.endswith('_wo_fakequant') and
                                          x != ext], h, 'those of the '
                  'back end and those asked for')
            seen += 1
            inp = h.arg(2, 'inplace')
            ck.ob('redundant', s.find(chain, d + '(...)') or inp in (
                None, TRUE), h, 'from the returned model')
    m = [p for p in s.func.params() if p != 'self'][0]
    ck.ob('redundant', s.derives(chain, m) or s.find(chain, m), s,
          'the model that was given')


def attr_names(s, t):
    out = set()

    def walk(x):
        if isinstance(x, tuple):
            if len(x) > 2 and x[0] == 'attr' and isinstance(x[2], str):
                out.add(x[2])
            for y in x:
                walk(y)
    walk(t)
    walk(full(s, t))
    return out


def strings(s, t):
    out = set()

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'const' and isinstance(x[1], str):
                out.add(x[1])
            for y in x:
                walk(y)
    walk(t)
    walk(full(s, t))
    return out


def backends(ck):
    n = 0
    base = ck.cls('TorchNativeQuantizer')
    for c in [base] + list(ck.prog.subclasses(base)):
        for f in c.methods.values():
            if not f.qual.endswith('_wo_fakequant'):
                continue
            s = ck.func_summary(f, c)
            n += 1
            r = s.ret()
            ck.ob('tuple', r is not None and (s.match(r, 'tuple(...)')
                  is not None or any(x[0] == 'tuple' or x[0] == 'alloc' and
                                     x[1] == 'tuple'
                                     for x in s.m.forms(r))), s, 'patterns '
                  'are a tuple', construct=f.qual)
    ck.floor('pattern lists', n, 4)
    s = ck.fn('TorchNativeQuantizer.__init__', opaque=(
        'TorchNativeQuantizer.gen_qconfig_mapping',))
    rf = refused(s)
    ck.ob('modes', True, s, 'unsupported granularities are examined')
    for w in ('w', 'a'):
        hs = [e for e in s.ev if e.kind == 'assert' and 'support_%s_modes'
              % w in show(e.term)]
        ck.ob('modes', bool(hs) or ('support_%s_modes' % w) in fshow(rf), s,
              'an unsupported granularity of %s is refused' % (
                  'weights' if w == 'w' else 'activations'))
    h = s.final_attr('qconfig_mapping')
    ck.ob('modes', h is not None and s.find(
        h, 'self.gen_qconfig_mapping(...)'), s, 'the mapping of '
        'configurations is built')


def post(ck):
    s = ck.fn('TorchNativeQuantizer.post_process_for_deploy', opaque=(
        'QConfigHandler.convert', 'QConfigHandler.fixed_w_fakequant'))
    rec = [e for e in s.ev if e.kind == 'call' and e.func[0] == 'closure']
    for sw in ('enable_fake_quant', 'disable_observer'):
        hs = s.calls('observed_module.apply(%s)' % sw)
        ck.always('post-switch', hs, s, '%s is applied to the model' % sw)
        first = [e.seq for e in rec]
        ck.ob('post-switch', bool(hs) and bool(first) and hs[0].e.seq < min(
            first), s, 'before it is converted')
    st = [e for e in s.ev if e.kind == 'setattr' and not isinstance(
        e.attr, str)]
    ck.need('post-replace', st, s, 'QAT modules are replaced')
    C = '_x._modules[_]'
    q = 'isinstance(_, SUPPORT_QAT_MODULES)'
    for e in st:
        h = Hit_(s, e)
        ck.ob('post-replace', case(s, e.guard, {q: True}) is True and case(
            s, e.guard, {q: False}) is False and all(
                whole(s, l) for l in e.loops), h, 'every one of them')
        for g, v in leaves(s, e.value):
            keep = case(s, g, {'keep_w_fake_quant': False})
            if keep is not False:
                ck.ob('post-replace', s.match(v, '_.to_float().to(device)')
                      is not None, h, 'by the float module')
            else:
                merge = case(s, g, {'type(_) in MERGE_BN_MAPPINGS': False})
                ok = s.match(v, 'OR(MERGE_BN_MAPPINGS[type(_c)].from_float('
                             '_c.to_float()).to(device), type(_c).from_float('
                             '_c.to_float()).to(device))') is not None
                ck.ob('post-replace', ok, h, 'or by the QAT module with '
                      'the batch norm merged')
    inner = [e for e in rec if e.loops]
    ck.need('post-descend', inner, s, 'other modules are descended into')
    for e in inner:
        ck.ob('post-descend', case(s, e.guard, {q: False}) is True and all(
            whole(s, l) for l in e.loops), Hit_(s, e), 'all of them')
    ws = s.sets('_', 'data')
    ck.need('post-weight', ws, s, 'weights are fake quantised')
    for h in ws:
        b = s.match(h.e.value, '_q.weight_fake_quant(_v)')
        ck.ob('post-weight', b is not None and b['_v'] == ('attr', h.e.base,
              'data', b['_v'][3] if len(b['_v']) > 3 else 0) or b is not
              None and s.match(b['_v'], 'OR(_.weight.data, _[0].weight.'
                               'data)') is not None, h, 'by their own '
              'quantizer')
        ck.ob('post-weight', case(s, h.e.guard, {
            'update_weight_with_fakequant': False}) is False, h,
            'if asked for')
    if ws:
        ck.ob('post-weight', case(s, jointly(ws), {
            'update_weight_with_fakequant': True, q: True}) is True, ws[0],
            'whatever the kind of module')
    # the new weight quantizer is calibrated once
    new = [e for e in s.ev if e.kind == 'call' and e.func[0] == 'attr' and
           e.func[2] == 'weight_fake_quant']
    cal = [h for h in s.calls('_n.weight_fake_quant(_n.weight)')]
    ck.need('post-calibrate', cal, s, 'the new weight quantizer sees its '
            'weight')
    for h in cal:
        n = h.b['_n']
        on = [x for x in s.ev if x.kind == 'call' and x.args and
              x.func[0] == 'global' and x.func[1].endswith(
                  'enable_observer') and x.args[0] == n]
        off = [x for x in s.ev if x.kind == 'call' and x.args and
               x.func[0] == 'global' and x.func[1].endswith(
                   'disable_observer') and x.args[0] == n]
        ck.ob('post-calibrate', any(x.seq < h.e.seq and f_implies(
            h.e.guard, x.guard) for x in on) and any(
                x.seq > h.e.seq and f_implies(h.e.guard, x.guard)
                for x in off), h, 'while it observes, and only then')
        ck.ob('post-calibrate', case(s, h.e.guard, {
            'keep_w_fake_quant': True, q: True}) is True, h, 'whenever it '
            'is kept')
    fx = s.calls('self.qconfig.fixed_w_fakequant()')
    qs = s.sets('ELEM(_.modules())', 'qconfig')
    ck.need('post-qconfig', qs, s, 'the float module carries the scheme')
    for h in qs:
        ck.ob('post-qconfig', s.match(h.e.value, 'self.qconfig.convert()')
              is not None and any(f.e.seq < h.e.seq and f_implies(
                  h.e.guard, f.e.guard) for f in fx), h, 'with plain '
              'weight quantizers')


# ------------------------------------------------------------------ schemes
def schemes(ck):
    s = ck.fn('QSchemeHandler.__init__')
    rf = refused(s)
    ck.ob('dtype', any(
        s.m.implied_by(rf, p) for p in (
            "not (qdtype in ('quint8', 'qint8'))",
            "qdtype != 'quint8' and qdtype != 'qint8'")) and case(
                s, rf, {"qdtype in _": True, "qdtype == 'quint8'": True})
        is False, s, 'other data types are refused')
    for a in ('qdtype', 'bit', 'is_symmetry', 'is_per_channel'):
        v = s.final_attr(a)
        ck.ob('scheme', v is not None and s.match(v, a) is not None, s,
              '%s is kept' % a)
    v = s.final_attr('torch_qscheme')
    for ch in (True, False):
        for sy in (True, False):
            want = 'torch.per_%s_%s' % ('channel' if ch else 'tensor',
                                        'symmetric' if sy else 'affine')
            ls = [x for g, x in leaves(s, v) if case(s, g, {
                'OR(is_per_channel, self.is_per_channel)': ch,
                'OR(is_symmetry, self.is_symmetry)': sy}) is True]
            ck.ob('scheme', len(ls) == 1 and s.match(ls[0], want)
                  is not None, s, 'per %s %s' % (
                      'channel' if ch else 'tensor', 'symmetric' if sy else
                      'affine'))
    v = s.final_attr('is_symmetric_range')
    ok = v is not None and all(
        s.match(x, "kwargs['is_symmetric_range']") is not None
        if case(s, g, {"'is_symmetric_range' in kwargs": True}) is not False
        else x == ('const', False) for g, x in leaves(s, v)) or v is not \
        None and s.match(v, "kwargs.pop('is_symmetric_range', False)") \
        is not None
    ck.ob('scheme', ok, s, 'the symmetric range is taken if given')
    v = s.final_attr('kwargs')
    ck.ob('scheme', v is not None and s.find(v, 'kwargs'), s, 'other '
          'options are passed on')
    s = ck.fn('QSchemeHandler.to_observer_params')
    r = s.ret()
    ps = params_of(s, r)
    for k, cases in (
        ('dtype', [({'q': True}, 'torch.quint8'),
                   ({'q': False}, 'torch.qint8')]),
        ('quant_min', [({'q': True}, '0'),
                       ({'q': False, 'r': True},
                        'OR(-2 ** (self.bit - 1) + 1, 1 - 2 ** (self.bit - '
                        '1), -(2 ** (self.bit - 1)) + 1, -(2 ** (self.bit - '
                        '1) - 1))'),
                       ({'q': False, 'r': False},
                        'OR(-2 ** (self.bit - 1), -(2 ** (self.bit - 1)))')]),
        ('quant_max', [({'q': True}, '2 ** self.bit - 1'),
                       ({'q': False}, '2 ** (self.bit - 1) - 1')]),
        ('qscheme', [({}, 'self.torch_qscheme')]),
        ('reduce_range', [({}, 'False')]),
    ):
        es = [e for e in ps if e[0] == k]
        ck.need('params', es, s, '%s is given to the observer' % k)
        for _, g0, v in es:
            ck.ob('params', g0 is True, s, 'always')
            for d, want in cases:
                D = {}
                if 'q' in d:
                    D["self.qdtype == 'quint8'"] = d['q']
                    D["self.qdtype == 'qint8'"] = not d['q']
                if 'r' in d:
                    D['self.is_symmetric_range'] = d['r']
                vs = [x for g, x in leaves(s, v) if case(s, g, D) is True]
                ck.ob('params', len(vs) == 1 and any(
                    s.match(vs[0], w) is not None for w in (want,)), s,
                    '%s as the scheme asks' % k)
    es = [e for e in ps if e[0] == 'ch_axis']
    ck.ob('params', bool(es) and all(s.m.equiv(g, 'self.is_per_channel') and
          s.match(v, '0') is not None for _, g, v in es), s, 'the channel '
          'axis if there are channels')
    ck.ob('params', 'kwargs' in attr_names(s, r) or s.find(
        r, 'self.kwargs') or any(s.find(v, 'self.kwargs')
                                 for _, g, v in ps), s, 'with the other '
          'options')


def params_of(s, r):
    """[(key, guard, value)] of the returned dictionary, and of those it is
    updated with"""
    out = []
    todo = [r]
    seen = []
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.append(t)
        for e in entries(s, t):
            if isinstance(e.key, tuple) and e.key[0] == 'const':
                out.append((e.key[1], e.guard, e.value))
        for e in s.ev:
            if e.kind == 'call' and e.func[0] == 'attr' and e.func[2] == \
                    'update' and e.args and e.func[1] == t:
                todo.append(e.args[0])
        for f in s.m.forms(t):
            if f[0] == 'alloc' and f[1] == 'dict':
                for k, v in f[2]:
                    if k is None or k[0] == 'star':
                        todo.append(v)
    uniq = []
    for x in out:
        if x not in uniq:
            uniq.append(x)
    return uniq


def required(ck):
    m = module_of(ck, 'structures.quantization.qconfig')
    return m


def qconfigs(ck):
    s = ck.fn('QConfigHandler.check_qconfig')
    keys = ('w_qscheme', 'a_qscheme', 'w_fake_quant', 'a_fake_quant',
            'w_observer', 'a_observer')
    v = ck.prog.modules['mmrazor.structures.quantization.qconfig']
    import ast
    lists = [set(ast.literal_eval(x)) for x in ast.walk(v.tree)
             if isinstance(x, (ast.List, ast.Tuple)) and x.elts and all(
                 isinstance(y, ast.Constant) for y in x.elts)]
    ck.ob('required', any(set(keys) <= l for l in lists), s, 'schemes, '
          'quantizers and observers of weights and activations are '
          'required')
    loops = [l for l in s.E.loops]
    ck.ob('required', any(over(s, l, 'RequiredArgs') or True
                          for l in loops) or bool(s.find(
                              s.ret(), 'all(...)')), s, 'each of them is '
          'looked at')
    r = s.ret()
    g = truth(s, r)
    ck.ob('required', g is not None, s, 'and must be a dictionary')
    s = ck.fn('QConfigHandler.__init__', opaque=(
        'QConfigHandler.check_qconfig', 'QSchemeHandler.to_observer_params'))
    rf = refused(s)
    ck.ob('refused', case(s, rf, {'self.check_qconfig(qconfig)': False})
          is True and case(s, rf, {'self.check_qconfig(qconfig)': True})
          is False, s, 'an incomplete configuration is refused')
    for w in 'wa':
        o = 'w' if w == 'a' else 'a'
        sch = s.calls('QSchemeHandler(...)')
        sv = s.final_attr(w + '_qscheme')
        h = [x for x in sch if same_(s, sv, x.e.term)]
        ck.need('handler', h, s, 'the %s scheme is built' % w)
        for x in h:
            ck.ob('handler', any(k is None and s.match(
                v, "qconfig['%s_qscheme']" % w) is not None
                for k, v in x.e.kwargs), x, 'from its entry')
            pc = x.arg(None, 'is_per_channel')
            ck.ob('handler', pc is not None and per_channel(s, pc, w), x,
                  'per channel if its observer is')
        f = s.final_attr(w + '_fake_quant')
        wa = [x for x in s.calls("_.with_args(...)") if same_(s, f, x.e.term)]
        ck.need('handler', wa, s, 'the %s quantizer is built' % w)
        for x in wa:
            ck.ob('handler', s.match(x.e.func[1], "MODELS.get(qconfig["
                  "'%s_fake_quant']['type'])" % w) is not None, x, 'of its '
                  'type')
            ck.ob('handler', s.match(x.arg(None, 'observer') or NONE,
                  "MODELS.get(qconfig['%s_observer']['type'])" % w)
                  is not None, x, 'with its observer')
            st = [v for k, v in x.e.kwargs if k is None]
            ck.ob('handler', any(s.find(v, "self.%s_qscheme."
                  "to_observer_params()" % w) or s.match(
                      v, '_q.to_observer_params()') is not None and s.match(
                          v, '_q.to_observer_params()')['_q'] == sv
                for v in st), x, 'and its parameters')
    s = ck.fn('QConfigHandler.convert')
    hs = s.calls('QConfig(...)')
    ck.need('converted', hs, s, 'a torch configuration is made')
    for h in hs:
        ck.ob('converted', s.match(h.arg(None, 'weight') or h.arg(1) or NONE,
              'self.w_fake_quant') is not None and s.match(
            h.arg(None, 'activation') or h.arg(0) or NONE,
            'self.a_fake_quant') is not None and same_(s, s.ret(), h.e.term), h,
            'of the weight and activation quantizers')


def truth(s, r):
    r = full(s, r)
    return _truth(s, r)


def _truth(s, r):
    """the result is false iff a required entry is missing or no dict"""
    b = s.match(r, 'all(...)')
    if b is not None:
        return True if s.find(r, 'isinstance(_, dict)') else None
    for l in s.E.loops:
        bad = []
        for e in s.ev:
            if e.kind in ('break', 'return') and l in e.loops:
                bad.append(e)
        if bad:
            g = f_or(*[e.guard for e in bad])
            if case(s, g, {'isinstance(_, dict)': False}) is True and case(
                    s, g, {'isinstance(_, dict)': True,
                           '_ in qconfig': True,
                           '_ in qconfig.keys()': True}) is False:
                ls = [x for _, x in leaves(s, r)]
                return True
        st = [x for x in s.E.steps if x[0] == l]
        for x in st:
            for g, v in leaves(s, s.E.steps[x]):
                if v == ('const', False):
                    return True
    for h in s.returns():
        if h.e.loops and h.e.value == ('const', False):
            return True
    return None


def per_channel(s, t, w):
    t = full(s, t)
    ok = False
    for g, v in leaves(s, t):
        if v == ('const', True):
            ok = any("'PerChannel' in" in show(a) and "'%s_observer'" % w in
                     show(full(s, a)) and f_implies(g, ('atom', a))
                     for a in atoms(s, g))
        elif v != ('const', False):
            return "'PerChannel' in" in show(v) and "'%s_observer'" % w in \
                show(v)
    return ok


def replaced(ck):
    s = ck.fn('QConfigHandler.replace_fakequant', opaque=(
        'QSchemeHandler.to_observer_params',))
    o, q, u = s.func.params()[:3]
    wa = s.calls('_.with_args(...)')
    ck.need('plain', wa, s, 'a plain fake quantizer is made')
    for h in wa:
        ck.ob('plain', s.match(h.e.func[1], "MODELS.get('FakeQuantize')")
              is not None, h, 'FakeQuantize')
        ov = h.arg(None, 'observer')
        for g, v in leaves(s, ov or NONE):
            pt = case(s, g, {'is_per_tensor(_)': True})
            ck.ob('plain', s.match(v, "MODELS.get('%sMinMaxObserver')" % (
                '' if pt is not False else 'PerChannel')) is not None, h,
                'with the min-max observer of its granularity')
        ck.ob('plain', any(k is None and s.find(
            v, q + '.to_observer_params()') for k, v in h.e.kwargs), h,
            'and the same scheme')
    pops = [h for h in s.calls('_.pop(_)')]
    for h in pops:
        ck.ob('plain', any(s.derives(h.e.func[1], q + '.to_observer_params()'
                                     ) for _ in (0,)), h, 'without other '
              'options')
    for a in ('scale', 'zero_point'):
        hs = [h for h in s.calls('_.%s.copy_(_)' % a)]
        hs += [h for h in s.calls('_.%s.data.copy_(_)' % a)]
        ck.need('same-qparams', hs, s, '%s is kept' % a)
        for h in hs:
            ck.ob('same-qparams', s.match(h.arg(0), 'OR(%s.%s, %s.%s.data)' %
                  (o, a, o, a)) is not None and s.m.equiv(
                      h.e.guard, u), h, 'if asked for')
    for a in ('min_val', 'max_val'):
        hs = [h for h in s.calls('_.copy_(_)') if s.match(
            h.arg(0), '%s.activation_post_process.%s' % (o, a)) is not None]
        ck.need('same-qparams', hs, s, '%s is kept' % a)
        for h in hs:
            ck.ob('same-qparams', s.find(h.e.func[1], '_.%s' % a) and
                  s.match(h.e.func[1], '_.activation_post_process.%s.'
                          'resize_(%s.activation_post_process.%s.shape)' % (
                              a, o, a)) is not None or s.find(
                      h.e.func[1], '_.activation_post_process.%s' % a), h,
                  'in the new observer')
    for g, v in leaves(s, s.ret()):
        on = case(s, g, {u: False})
        if on is not False:
            ck.ob('plain', any(h.e.term == v for h in wa), s, 'the maker is '
                  'returned')
        else:
            ck.ob('plain', s.find(v, '_.with_args(...)'), s, 'the new '
                  'quantizer is returned')
    s = ck.fn('QConfigHandler.fixed_w_fakequant', opaque=(
        'QConfigHandler.replace_fakequant',))
    v = s.final_attr('w_fake_quant')
    hs = [h for h in s.calls('_.replace_fakequant(...)') +
          s.calls('replace_fakequant(...)') if same_(s, v, h.e.term)]
    ck.need('fixed', hs, s, 'the weight quantizer becomes a plain one')
    for h in hs:
        ck.ob('fixed', s.match(h.arg(0), 'self.w_fake_quant()') is not None
              and s.match(h.arg(1), 'self.w_qscheme') is not None and h.arg(
                  2, 'update_qparams') == ('const', False), h, 'of the same '
              'scheme')


def academic(ck):
    s = ck.fn('AcademicQuantizer.gen_qconfig_mapping', opaque=(
        'QConfigHandler.convert',))
    r = s.ret()
    for meth, key, n in (('set_global', '_global_', 0),
                         ('set_object_type', 'object_type', 1),
                         ('set_module_name', 'module_name', 1)):
        hs = s.calls('_.%s(...)' % meth)
        r = full(s, r)
        ck.need('mapped', hs, s, '%s entries are mapped' % key)
        for h in hs:
            ck.ob('mapped', same_(s, r, h.e.func[1]), h, 'in the returned mapping')
            ck.ob('mapped', s.match(h.e.args[-1], 'QConfigHandler(_).'
                  'convert()') is not None and (key in strings(
                      s, h.e.args[-1])), h, 'to their own scheme')
            if n:
                ck.ob('mapped', key in strings(s, h.e.args[0]) and all(
                    whole(s, l) for l in h.e.loops) and bool(h.e.loops) and
                    h.e.guard is True, h, 'every one')
                ck.ob('mapped', s.match(h.e.args[0], 'str2class(ELEM(_)[0])'
                      if meth == 'set_object_type' else 'ELEM(_)[0]')
                      is not None and s.match(h.e.args[-1], 'QConfigHandler('
                      'ELEM(_)[1]).convert()') is not None, h, 'of its name')
            else:
                ck.ob('mapped', s.m.equiv(h.e.guard, "'_global_' in "
                      "qconfig_mapping"), h, 'if given')
    s = ck.fn('AcademicQuantizer.prepare', opaque=(
        'BaseQuantizer.swap_ff_with_fxff',
        'BaseQuantizer.sync_module_training_mode', 'build_graphmodule'))
    for h in [e for e in s.ev if e.kind == 'setattr' and not isinstance(
            e.attr, str)]:
        pass
        ck.ob('preserved', any(over(s, l, 'self.prepare_custom_config.'
              'preserved_attributes') and whole(s, l) for l in h.loops) and
              h.guard is True, Hit_(s, h), 'preserved attributes are kept')
    r = s.ret()
    last = [e for e in s.ev if e.kind == 'setattr' and not isinstance(
        e.attr, str) and e.base == r]
    ck.ob('preserved', bool(last), s, 'on the returned model')


def norms(ck):
    s = ck.fn('BaseQuantizer.convert_batchnorm2d')
    st = [e for e in s.ev if e.kind == 'setattr' and not isinstance(
        e.attr, str)]
    ck.need('batchnorm', st, s, 'special batch norms are replaced')
    for e in st:
        h = Hit_(s, e)
        nb = [x for x in s.calls('BatchNorm2d(...)') if x.e.term == e.value]
        ck.ob('batchnorm', bool(nb), h, 'by plain ones')
        for x in nb:
            for i, a in enumerate(('num_features', 'eps', 'momentum',
                                   'affine', 'track_running_stats')):
                ck.ob('batchnorm', s.match(x.arg(i, a) or NONE, '_.' + a)
                      is not None, x, 'with the same ' + a)
        ck.ob('batchnorm', all(whole(s, l) for l in e.loops) and bool(
            e.loops), h, 'all of them')
    rec = [e for e in s.ev if e.kind == 'call' and e.func[0] == 'closure' and
           e.loops]
    for e in rec:
        g = f_or(e.guard, *[x.guard for x in st])
        ck.ob('batchnorm', g is True or f_equiv(g, True), Hit_(s, e),
              'at any depth')
    ck.ob('batchnorm', bool(rec) or bool(s.find(
        st[0].base if st else NONE, '_')), s, 'submodules are visited')


def preparing(ck):
    """trace -> module -> training mode -> fuse -> quantise"""
    for c in ('TorchNativeQuantizer', 'AcademicQuantizer'):
        s = ck.fn(c + '.prepare', opaque=(
            'BaseQuantizer.swap_ff_with_fxff', 'build_graphmodule',
            'BaseQuantizer.sync_module_training_mode',
            'TorchNativeQuantizer.del_redundant_fakequant'))
        tr = s.calls('self.tracer.trace(model, ...)')
        ck.always('traced', tr, s, 'the model is traced')
        for h in tr:
            ck.ob('traced', s.match(h.arg(None, 'concrete_args') or h.arg(
                1) or NONE, 'concrete_args') is not None, h, 'with the '
                'fixed arguments')
        sw = s.calls('self.swap_ff_with_fxff(model)')
        ck.always('traced', sw, s, 'functional modules are replaced')
        ck.order('traced', sw, tr, s, 'before')
        gm = 'build_graphmodule(model, self.tracer.trace(...))'
        bm = s.calls(gm)
        ck.always('traced', bm, s, 'the graph is of that model')
        sy = [h for h in s.calls('self.sync_module_training_mode(_g, ...)')
              if any(same_(s, h.arg(0), b.e.term) for b in bm)]
        ck.need('qat-mode', sy, s, 'the traced model is set to train')
        for h in sy:
            ck.ob('qat-mode', h.arg(1, 'mode') in (None, TRUE) and
                  h.e.guard is True, h, 'whatever it was')
        fu = s.calls('_fuse_fx(...)')
        ck.always('fused', fu, s, 'operators are fused')
        for h in fu:
            ck.ob('fused', any(same_(s, h.arg(0, 'graph_module'), b.e.term)
                               for b in bm) and h.arg(1, 'is_qat') == TRUE
                  and all(y.e.seq < h.e.seq for y in sy), h, 'of the traced '
                  'module, for training')
        pr = [h for h in s.calls('prepare(...)') if h.e.func[0] == 'global']
        ck.always('observed', pr, s, 'quantizers are inserted')
        for h in pr:
            ck.ob('observed', any(same_(s, h.arg(0, 'model'), f.e.term)
                                  for f in fu) and s.match(
                h.arg(1, 'qconfig_mapping'), 'self.qconfig_mapping')
                is not None and h.arg(2, 'is_qat') == TRUE, h, 'in the fused '
                'module, as configured')
            for a, i in (('node_name_to_scope', 3), ('example_inputs', 4)):
                v = h.arg(i, a)
                ck.ob('observed', v is not None and s.match(
                    v, 'OR(self.%s, self.tracer.%s)' % (a, a)) is not None,
                    h, 'with its %s' % a)
            v = h.arg(None, 'backend_config')
            ck.ob('observed', v is not None and s.match(
                v, 'self.backend_config') is not None, h, 'for its back end')
        r = s.ret()
        if c == 'TorchNativeQuantizer':
            dl = s.calls('self.del_redundant_fakequant(_p)')
            ck.ob('observed', any(same_(s, r, d.e.term) and any(same_(
                s, d.arg(0), p.e.term) for p in pr) for d in dl), s,
                'without the redundant ones it is returned')
        else:
            ck.ob('observed', any(same_(s, r, p.e.term) for p in pr), s,
                  'it is returned')


def rewriting(ck):
    f = ck.prog.modules
    s = ck.fn('MMArchitectureQuant._build_qmodels', opaque=(
        'MMArchitectureQuant._get_rewriter_context_in_mmdeploy',
        'MMArchitectureQuant._pop_function_record_in_rewriter_context'))
    gr = s.calls('self._get_rewriter_context_in_mmdeploy(...)')
    ck.need('rewriter', gr, s, 'a rewriter is made for the back end')
    for h in gr:
        ck.ob('rewriter', s.m.equiv(h.e.guard, 'self.deploy_cfg is not None'),
              h, 'iff one is configured')
        ck.ob('rewriter', s.match(h.arg(0), 'self.deploy_cfg') is not None,
              h, 'for that one')
    on = {'self.deploy_cfg is None': False,
          'self._get_rewriter_context_in_mmdeploy(...) is None': False}
    off = {'self.deploy_cfg is None': True}
    pp = s.calls('self._pop_function_record_in_rewriter_context(_)')
    ck.need('rewriter', pp, s, 'records are set aside')
    for h in pp:
        ck.ob('rewriter', case(s, spread(h.e.guard), on) is True and case(
            s, spread(h.e.guard), off) is False, h, 'iff there is a '
            'rewriter')
        ck.ob('rewriter', all(h.e.seq < x.e.seq for x in s.calls(
            'self.quantizer.prepare(...)')), h, 'before any model is traced')
        ck.ob('rewriter', any(g is not False and s.match(
            v, 'self._get_rewriter_context_in_mmdeploy(...)') is not None
            for g, v in leaves(s, h.arg(0))), h, 'those of the rewriter')
    for h in s.calls('self.quantizer.prepare(...)'):
        g = spread(h.e.guard)
        with_ = case(s, g, on)
        if h.e.scopes:
            ck.ob('rewriter', case(s, g, off) is False or with_ is True and
                  case(s, g, off) is True, h, 'it is active')
        else:
            ck.ob('rewriter', with_ is False, h, 'only without one')
    for h in s.calls('_._rewriter_manager.function_rewriter._registry.'
                     '_rewrite_records.update(_)'):
        ck.ob('rewriter', case(s, spread(h.e.guard), off) is False, h,
              'only if there is one')
    ev = s.calls('_.eval()')
    for h in ev:
        ck.ob('dry-run', any(over(s, l, 'self.forward_modes')
                             for l in h.e.loops) or s.match(
                                 h.e.func[1], "_['tensor']") is not None,
              h, 'of the tensor mode')
    s = ck.fn('MMArchitectureQuant._pop_function_record_in_rewriter_context')
    hs = s.calls('pop_rewriter_function_record(rewriter_context, _l)')
    ck.always('records', hs, s, 'the records are removed')
    for h in hs:
        ck.ob('records', any(same_(s, s.ret(), h.e.term) for _ in '1'), h,
              'and returned')
        l = h.arg(1)
        ext = [x for x in s.calls('_.extend(...)') + s.calls('_.append(...)')
               if same_(s, l, x.e.func[1]) and x.e.seq < h.e.seq and
               x.e.guard is True]
        got = [full(s, l)] + [full(s, x.arg(0)) for x in ext]
        ck.ob('records', any('skipped_methods' in strings(s, x) |
                             attr_names(s, x) for x in got), h, 'of the '
              'methods the tracer skips')
        ck.ob('records', any('function_record_to_pop' in strings(s, x)
                             for x in got), h, 'and of those configured')


def swapped(ck):
    s = ck.fn('BaseQuantizer.swap_ff_with_fxff')
    st = [e for e in s.ev if e.kind in ('setitem', 'setattr') and s.find(
        e.value, 'FXFloatFunctional()')]
    ck.need('swapped', st, s, 'functional modules are replaced')
    ap = [e for e in s.ev if e.kind == 'call' and e.func[0] == 'attr' and
          e.func[2] == 'append']
    q = 'isinstance(ELEM(_)[1], _)'
    for e in ap or st:
        ck.ob('swapped', case(s, e.guard, {'isinstance(_, _)': True}) is True
              and case(s, e.guard, {'isinstance(_, _)': False}) is False and
              all(whole(s, l) for l in e.loops), Hit_(s, e), 'each of them')
    for e in st:
        ck.ob('swapped', all(whole(s, l) for l in e.loops) and (
            e.guard is True or not ap), Hit_(s, e), 'by one for tracing')
    rec = [e for e in s.ev if e.kind == 'call' and e.func == (
        'attr', ('param', 'self'), 'swap_ff_with_fxff', 0)]
    ck.need('swapped', rec, s, 'submodules are visited')
    for e in rec:
        ck.ob('swapped', case(s, e.guard, {'isinstance(_, _)': False})
              is True and all(whole(s, l) for l in e.loops) and s.match(
                  e.args[0], 'OR(ELEM(model.named_children())[1], ELEM('
                  'model.children()))') is not None, Hit_(s, e), 'all of '
              'them')
