"""C07 slicing out a subnet leaves the supernet intact and yields a static
model."""
from .common import *

COPY = 'copy.deepcopy(model)'
BUILT = ('MODELS.build(...)', 'copy.deepcopy(...)')

# functions whose contract is to convert the model they are given
CONVERTERS = {
    'load_fix_subnet', '_dynamic_to_static', 'SlimmableNetwork._deploy',
    'to_static_model', '_load_fix_subnet_by_mutable',
    '_load_fix_subnet_by_mutator', 'GroupFisherSubModel',
    'GroupFisherDeploySubModel'}


def recursive(h):
    """a call of one of the functions the call is made in"""
    e = h.e
    names = {x.rsplit('.', 1)[-1] for x in e.fname.split('.')}
    f = e.func
    n = f[2] if f[0] in ('closure', 'attr') else f[1].rsplit('.', 1)[-1] \
        if f[0] == 'global' else None
    return n in names


def check_to_static(ck):
    s = ck.fn('fix_subnet._dynamic_to_static')
    st = [Hit(s, h.e, h.b) for h in s.calls('_c.to_static_op()')]
    isdyn = 'isinstance(_, HAS(DynamicMixin))'
    has = "hasattr(_, '_modules')"
    stores = [e for e in s.ev if (
        e.kind in ('setitem', 'setattr') and s.derives(
            e.value, '_.to_static_op()')) or (
        e.kind == 'call' and any(s.derives(a, '_.to_static_op()')
                                 for a in e.args) and s.m.match(
            'OR(setattr, _.add_module, _.__setitem__)', e.func) is not None)]
    stores = [Hit(s, e, {}) for e in stores]
    for nm, hs, msg in (('convert-all', st, 'is converted'),
                        ('replace-all', stores, 'is replaced in its owner')):
        f = jointly(hs)
        ok = bool(hs) and s.m.implied_by(f, "(%s) and (%s)" % (has, isdyn))
        ok = ok and any(h.e.loops and not any(
            s.E.loops[l]['breaks'] for l in h.e.loops) for h in hs)
        ck.ob(nm, ok, s, 'every dynamic child operator ' + msg)
    ck.ob('convert-only', all(h.guard_implies(isdyn) for h in st), s,
          'only dynamic operators are replaced')
    rec = [h for h in s.kind('call') if recursive(h)and h.e.loops]
    ck.ob('descend', bool(rec) and s.m.implied_by(jointly(rec), has), s,
          'the conversion descends into every child, converted or not')
    for h in rec:
        arg = h.e.args[0] if h.e.args else NONE
        if arg[0] == 'attr' and arg[2] == '_modules':
            arg = arg[1]
        for g, t in leaves(s, arg, h.e.guard):
            if s.m.match('_.to_static_op()', t) is None:
                ck.ob('descend-into-static', not feasible_with(s, g, isdyn)
                      , h, 'below a converted operator the conversion goes '
                      'on in the static operator that replaced it')
            else:
                ck.ob('descend-into-static', True, h, '')
    ck.ob('root-dynamic', any(h.when('isinstance(model, HAS(DynamicMixin))')
                              for h in s.raises()), s,
          'a model that is itself a dynamic operator cannot be converted in '
          'place and is refused')


def feasible_with(s, g, pat):
    """guard g is compatible with the condition matched by pat"""
    return not s.m.implies(g, 'not ' + pat)


READERS = ('named_modules', 'modules', 'parameters', 'named_parameters',
           'state_dict', 'buffers', 'named_buffers', 'children',
           'named_children')
MUTATORS = ('train', 'eval', 'to', 'cuda', 'cpu', 'half', 'float',
            'load_state_dict', 'requires_grad_', 'apply', 'init_weights',
            'add_module', 'register_module', 'fix_chosen', 'set_choices',
            'to_static_op', 'zero_grad', 'register_buffer',
            'register_parameter', 'share_memory', 'clear', 'pop')


def root(s, t):
    """the object a term reaches into, through attributes, elements and
    reader calls"""
    while True:
        k = t[0]
        if k == 'attr' or k == 'sub':
            t = t[1]
        elif k == 'elem':
            t = t[1]
        elif k == 'call' and t[1][0] == 'attr' and t[1][2] in READERS + (
                'items', 'values', 'keys'):
            t = t[1][1]
        elif k == 'call' and t[1][0] == 'global' and t[1][1] in (
                'list', 'next', 'enumerate', 'tuple', 'iter') and t[2]:
            t = t[2][0]
        else:
            return t


def touches(s, pat):
    """events that modify something reachable from the object pat"""
    out = []
    for e in s.ev:
        b = None
        if e.kind in ('setattr', 'setitem', 'delattr', 'delitem'):
            b = e.base
        elif e.kind == 'call' and e.func[0] == 'attr' and e.func[2] in \
                MUTATORS:
            b = e.func[1]
        elif e.kind == 'call' and e.func[0] == 'global' and e.func[1] in (
                'setattr', 'delattr') and e.args:
            b = e.args[0]
        if b is None:
            continue
        for g, t in leaves(s, b, e.guard):
            r = root(s, t)
            if s.m.match(pat, r) is not None and not any(
                    s.m.match(q, x) is not None for q in BUILT
                    for x in s.m.forms(r)):
                out.append(Hit(s, e, {}))
    return out


def check_export(ck):
    s = ck.fn('fix_subnet.export_fix_subnet', opaque=(
        'load_fix_subnet', '_dynamic_to_static'))
    cv = s.calls('load_fix_subnet(_m, ...)') + \
        s.calls('_dynamic_to_static(_m)')
    ck.iff('slice-when-asked', cv, s, 'slice_weight',
           'a standalone model is built exactly when slicing is asked for')
    for h in cv:
        ck.ob('slice-copy', all(s.m.match(COPY, t) is not None
                                for _, t in leaves(s, h.b['_m'])), h,
              'slicing converts a deep copy, never the supernet itself')
        if h.e.func[1].endswith('load_fix_subnet'):
            d = h.arg(1, 'subnet_dict')
            ck.ob('slice-same-choice', d is not None and all(
                s.derives(t, '_export_subnet_by_mutable(model)') or
                s.derives(t, '_export_subnet_by_mutator(...)')
                for g, t in leaves(s, d, h.e.guard)
                if t[0] != 'alloc'), h,
                'the copy is fixed to the description exported from the '
                'supernet')
    ck.never('export-reads', touches(s, 'model'), s,
             'exporting does not modify the supernet')
    rets = s.returns()
    for r in [r for r in rets if len(r.e.frames) == 1]:
        v = r.e.value
        ok = v[0] == 'tuple' and len(v[1]) == 2
        if ok:
            for g, t in leaves(s, v[1][1], r.e.guard):
                t = peel_cuda(s, t)
                if t == NONE:
                    ok = ok and s.m.implies(g, 'not slice_weight')
                else:
                    ok = ok and s.m.match(COPY, t) is not None and \
                        s.m.implies(g, 'slice_weight')
        ck.ob('slice-returned', ok, r,
              'the converted copy is returned when slicing is asked for, '
              'nothing otherwise')


def peel_cuda(s, t):
    while t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in (
            'cuda', 'to', 'cpu'):
        t = t[1][1]
    return t


def check_sites(ck):
    """every conversion works on a copy or on a freshly built model"""
    n = 0
    names = ('load_fix_subnet', '_dynamic_to_static')
    for f in ck.prog.all_functions():
        used = {getattr(x, 'attr', None) or getattr(x, 'id', None)
                for x in ast.walk(f.node)
                if isinstance(x, (ast.Attribute, ast.Name))}
        if not used & set(names):
            continue
        short = f.name if f.cls is None else '%s.%s' % (f.cls.name, f.name)
        conv = any(short == c or f.name == c for c in CONVERTERS)
        s = ck.func_summary(f, opaque=names, maxdepth=0) if False else \
            ck.func_summary(f, opaque=names)
        for nm in names:
            for h in s.calls(nm + '(_m, ...)', top=True):
                n += 1
                ok = True
                for g, t in leaves(s, h.b['_m']):
                    fresh = any(s.m.match(q, x) is not None for q in BUILT
                                for x in [root(s, t)])
                    ok = ok and (conv or fresh)
                ck.ob('convert-copy', ok, h, 'fixing and converting in place '
                      'is only done to a deep copy or a freshly built model, '
                      'or by a function whose purpose is the conversion')
    ck.floor('in-place conversions', n, 9)
    # an algorithm deploying itself
    s = ck.fn('SlimmableNetwork._deploy', opaque=('_dynamic_to_static',))
    ch = s.calls('self.mutator.set_choices(self.mutator.subnets[index])')
    fx = s.calls('self.mutator.fix_channel_mutables()')
    fb = s.calls('_m.fix_chosen(...)')
    st = s.calls('_dynamic_to_static(self.architecture)')
    fl = s.sets('self', 'is_deployed', 'True')
    ck.always('deploy-choice', ch, s, 'deploying selects the asked subnet')
    ck.order('deploy-fix', ch, fx, s, 'before the choices are fixed')
    ck.order('deploy-static', fx, st, s, 'before the model is made static')
    ck.not_after('deploy-bases', fb, st, s, 'all components are fixed first')
    ck.always('deploy-static-done', st, s, 'a deployed model is static')
    ck.always('deploy-flag', fl, s, 'and is marked deployed')
    i = ck.fn('SlimmableNetwork.__init__', opaque=('_deploy',))
    ck.iff('deploy-asked', i.calls('self._deploy(deploy_index)'), i,
           'deploy_index != -1', 'exactly when an index is given')


def check_sub_model(ck):
    s = ck.fn('registry.registry.sub_model', opaque=('load_fix_subnet',))
    ld = s.calls('load_fix_subnet(_m, fix_subnet, load_subnet_mode=mode, '
                 'prefix=prefix, extra_prefix=extra_prefix)')
    iw = s.calls('_m.init_weights()')
    ic = s.sets('_m', 'init_cfg', 'init_cfg')
    ck.always('sub-load', ld, s, 'a sub model is built with the description, '
              'mode and prefixes it is given')
    for h in ld + iw:
        ck.ob('sub-built', s.m.match('MODELS.build(cfg)', h.b['_m'])
              is not None, h, 'from the configured supernet')
    pre = [h for h in iw if any(h.e.seq < l.e.seq for l in ld)]
    post = [h for h in iw if h not in pre]
    ck.iff('init-before', pre, s, 'init_weight_from_supernet',
           'supernet weights are loaded before the structure is fixed exactly'
           ' when asked for')
    ck.iff('init-after', post, s, 'not init_weight_from_supernet',
           'otherwise the weights are initialised after it is fixed')
    ck.iff('init-cfg', ic, s, 'init_cfg', 'a given init_cfg is used')
    ck.not_after('init-cfg-first', ic, iw, s, 'for the initialisation')
    ck.ob('sub-return', s.m.match('MODELS.build(cfg)', s.ret()) is not None,
          s, 'the converted model is returned')
    g = ck.fn('prune_sub_model.GroupFisherSubModel', opaque=(
        'export_fix_subnet', 'load_fix_subnet', 'make_channel_divisible'))
    iw = g.calls('_a.init_weights()')
    ex = g.calls('export_fix_subnet(_a.architecture)')
    ld = g.calls('load_fix_subnet(_a.architecture, '
                 'export_fix_subnet(_a.architecture)[0])')
    dv = g.calls('make_channel_divisible(...)')
    ck.order('prune-init', iw, ex, g, 'the pruned weights and structure are '
             'loaded before the structure is read')
    ck.always('prune-fixed', ld, g, 'the pruned structure is fixed')
    ck.not_after('prune-divisible-last', ld, dv, g,
                 'and made divisible afterwards')
    ck.iff('prune-divisible', dv, g, 'divisor != 1',
           'exactly when a divisor is given')
    for h in dv:
        ck.ob('prune-keep-output', h.arg(2, 'zero_weight') == const(False),
              h, 'the extended channels keep the pruned function')
    ck.ob('prune-return', any(g.m.match('_a.architecture', t) is not None
                              for _, t in leaves(g, g.ret())), g,
          'the static architecture is returned')
    ck.ob('prune-data-preprocessor', bool(g.sets(
        '_', 'data_preprocessor', '_a.data_preprocessor')), g,
        'with the preprocessing of the algorithm')
    d = ck.fn('prune_deploy_sub_model.GroupFisherDeploySubModel', opaque=(
        'export_fix_subnet', 'load_fix_subnet', 'make_channel_divisible'))
    pr = d.calls('_m.prepare_from_supernet(_)')
    sc = d.calls('_m.set_choices(_c)')
    ex = d.calls('export_fix_subnet(_a)')
    ld = d.calls('load_fix_subnet(_a, export_fix_subnet(_a)[0])')
    ck.order('deploy-sub-parse', pr, sc, d, 'the structure is analysed first')
    ck.order('deploy-sub-choice', sc, ex, d, 'then set to the description')
    ck.always('deploy-sub-fixed', ld, d, 'then fixed')
    for h in sc:
        lv = leaves(d, h.b['_c'])
        ck.ob('deploy-sub-file', all(
            d.m.match('fix_subnet', t) is not None or
            d.m.match('fileio.load(fix_subnet)', t) is not None
            for _, t in lv), h, 'the given description is applied')


def check_hooks(ck):
    for name, conv in (('EstimateResourcesHook.export_subnet', True),
                       ('DumpSubnetHook._save_subnet', False),
                       ('DSNAS.compute_mutator_loss', None)):
        s = ck.fn(name, opaque=('export_fix_subnet', 'load_fix_subnet',
                                'convert_fix_subnet', 'estimate'))
        ch = s.calls('_m.set_choices(...)')
        ck.need('hook-choice', ch, s, 'a subnet is derived for the report')
        for h in ch:
            ck.ob('hook-copy', s.derives(h.b['_m'], 'copy.deepcopy(_)'), h,
                  'a subnet is derived for reporting on a deep copy of the '
                  'supernet only')
        for h in s.calls('export_fix_subnet(_m, ...)') + s.calls(
                'load_fix_subnet(_m, ...)'):
            ck.ob('hook-export-copy', s.derives(
                h.b['_m'], 'copy.deepcopy(_)'), h,
                'and exported from that copy')
            ck.order('hook-choice-first', ch, [h], s,
                     'after the copy was set to the choice')
        bad = [Hit(s, e, {}) for e in s.ev if e.kind == 'setattr' and
               e.attr in ('current_choice', 'is_fixed', 'is_supernet',
                          'current_mask', '_current_choice')]
        bad += s.calls('_m.fix_chosen(...)')
        ck.never('hook-supernet', bad, s, 'the supernet keeps its choices and'
                 ' stays searchable')
    s = ck.fn('EstimateResourcesHook.estimate_resources',
              opaque=('export_subnet', 'estimate'))
    es = s.calls('self.estimator.estimate(_m)')
    ck.need('report', es, s, 'resources are reported')
    for h in es:
        for g, t in leaves(s, h.b['_m'], h.e.guard):
            exp = s.derives(t, 'self.export_subnet(_)')
            ck.ob('report-subnet', s.m.implies(g, '_.is_supernet') if exp
                  else not s.m.implies(g, "hasattr(_, 'is_supernet') and "
                                       "_.is_supernet"), h,
                  'for a supernet the resources of the derived subnet are '
                  'reported')
    # analyses
    s = ck.fn('ChannelAnalyzer.analyze', opaque=('_find_mutable_units',
                                                 '_fx_trace', 'trace'))
    ck.never('analyze-reads', touches(s, 'model'), s,
             'analysing channels does not modify the supernet')
    for p in ('self.tracer.trace(_m)', 'self._fx_trace(_m)',
              'self._find_mutable_units(_m, ...)', '_m.eval()'):
        for h in s.calls(p):
            ck.ob('analyze-copy', s.derives(h.b['_m'], 'copy.deepcopy(model)')
                  and s.m.match('model', h.b['_m']) is None, h,
                  'the analysis runs on a deep copy')
    s = ck.fn('ChannelAnalyzer._find_mutable_units',
              opaque=('find_mutable', 'init_from_cfg', 'prepare_for_pruning'))
    for p in ('_u.prepare_for_pruning(_m)', 'find_mutable(_m, ...)',
              '_.init_from_cfg(_m, ...)'):
        hs = s.calls(p)
        for h in hs:
            ck.ob('units-copy', s.derives(h.b['_m'], 'copy.deepcopy(model)')
                  and s.m.match('model', h.b['_m']) is None, h,
                  'trial pruning happens on a deep copy')
    s = ck.fn('expandable_utils.tools.make_channel_divisible',
              opaque=('to_expandable_model',
                      'expand_expandable_dynamic_model'))
    hs = s.calls('to_expandable_model(_m)')
    ex = s.calls('expand_expandable_dynamic_model(...)')
    late = [h for h in hs if any(e.e.seq < h.e.seq for e in ex)]
    for h in late:
        ck.ob('divisible-copy', s.m.match('copy.deepcopy(_)', h.b['_m'])
              is not None, h, 'the final structure is read from a copy, the '
              'expanded model stays static')


def check(ck):
    ck.sections(check_to_static, check_export, check_sites, check_sub_model,
                check_hooks)
