"""C06 a subnet description is complete and reloads to the same subnet."""
from .common import *

MODS = 'model.named_modules()'
MOD = 'ELEM(%s)[1]' % MODS
NAME = 'ELEM(%s)[0]' % MODS
SRC = 'ELEM(%s.source_mutables)' % MOD
KIND = 'isinstance({0}, HAS(BaseMutable)) and not isinstance({0}, ' \
    'HAS(MutableChannelContainer))'.format(MOD)
TARGETS = (('searchable component', MOD,
            KIND + ' and not isinstance(%s, HAS(DerivedMutable))' % MOD),
           ('source of a derived component', SRC,
            KIND + ' and isinstance(%s, HAS(DerivedMutable))' % MOD))


def every(s, h, x):
    if not whole_loop(s, h, MODS):
        return False
    if x == SRC and not whole_loop(s, h, '%s.source_mutables' % MOD):
        return False
    return len(h.e.loops) == (2 if x == SRC else 1)


def check_export(ck):
    s = ck.fn('fix_subnet._export_subnet_by_mutable')
    its = [h for h in into(s, s.ret(), '_.dump_chosen()')
           if h.e.kind == 'setitem']
    used = []
    for what, x, g in TARGETS:
        hs = [h for h in its if s.m.match('%s.dump_chosen()' % x, h.e.value)
              is not None and every(s, h, x)]
        used += [h.e for h in hs]
        al = [h for h in hs if s.m.match('%s.alias' % x, h.e.attr)
              is not None]
        nm = [h for h in hs if s.m.match(NAME, h.e.attr) is not None]
        for h in hs:
            if h not in al and h not in nm:
                # key chosen by an expression
                lv = leaves(s, h.e.attr, h.e.guard)
                for lg, k in lv:
                    if s.m.match('%s.alias' % x, k) is not None:
                        ck.ob('export-alias', s.m.implies(
                            lg, '%s.alias' % x), h, 'shared choices are '
                            'recorded under their alias')
                        al.append(h)
                    elif s.m.match(NAME, k) is not None:
                        nm.append(h)
                    else:
                        ck.ob('export-key', False, h,
                              'every choice is recorded under its alias or '
                              'its module name')
        ck.ob('export-all', s.m.equiv(jointly(hs), g), s,
              'exporting records the current choice of every ' + what)
        ck.ob('export-alias-key', bool(al) and s.m.implied_by(
            jointly(al), '%s and %s.alias' % (g, x)), s,
            'a %s with an alias is recorded under its alias' % what)
        ck.ob('export-name-key', bool(nm) and s.m.implied_by(
            jointly(nm), '%s and not %s.alias' % (g, x)), s,
            'a %s without alias is recorded under its module name' % what)
    ck.never('export-other', [h for h in its if h.e not in used], s,
             'nothing else is recorded')


def load_key(s, t, x):
    """[(guard, kind)] of the keys a chosen value is read under"""
    out = []
    for lg, v in leaves(s, t):
        b = s.m.match('_v.chosen', v)
        if b is not None:
            v = b['_v']
            for lg2, v2 in leaves(s, v, lg):
                out += read_key(s, v2, x, lg2)
        else:
            out += read_key(s, v, x, lg)
    return out


def read_key(s, v, x, g):
    out = []
    b = s.m.match('DumpChosen(**_c)', v)
    if b is not None:
        for lg, y in leaves(s, b['_c'], g):
            out += read_key(s, y, x, lg)
        return out
    b = s.m.match('subnet_dict.get(_k, ...)', v) or s.m.match(
        'subnet_dict[_k]', v)
    if b is None:
        return [(g, 'unknown: ' + show(v)[:80])]
    for lg, k in leaves(s, b['_k'], g):
        if s.m.match('%s.alias' % x, k) is not None:
            out.append((lg, 'alias'))
        elif s.m.match(NAME, k) is not None:
            out.append((lg, 'name'))
        elif s.m.match('extra_prefix + %s' % NAME, k) is not None and \
                any(f[0] == 'bin' and s.m.match('extra_prefix', f[2])
                    is not None for f in s.m.forms(k)) or \
                s.m.match('STR(extra_prefix, %s)' % NAME, k) is not None:
            out.append((lg, 'extra'))
        elif s.m.match('%s[len(prefix):]' % NAME, k) is not None or \
                s.m.match('%s.removeprefix(prefix)' % NAME, k) is not None \
                or s.m.match("%s.replace(prefix, '', 1)" % NAME, k) \
                is not None:
            out.append((lg, 'prefix'))
        else:
            out.append((lg, 'unknown: ' + show(k)[:80]))
    return out


def check_load(ck):
    s = ck.fn('fix_subnet._load_fix_subnet_by_mutable')
    fx = s.calls('_x.fix_chosen(_c)')
    for what, x, g in TARGETS:
        hs = [h for h in fx if s.m.match(x, h.b['_x']) is not None and
              every(s, h, x)]
        ck.ob('load-all', bool(hs) and s.m.implied_by(
            jointly(hs), g + ' and not %s.is_fixed' % x), s,
            'loading fixes every %s that is not fixed yet' % what)
        ck.ob('load-fixed-once', all(h.guard_implies('not %s.is_fixed' % x)
                                     for h in hs), s,
              'a component shared between owners is fixed once')
        for h in hs:
            keys = load_key(s, h.b['_c'], x)
            kinds = {k for _, k in keys}
            ck.ob('load-chosen', s.m.match('_v.chosen', h.b['_c'])
                  is not None or all(
                s.m.match('_v.chosen', v) is not None
                for _, v in leaves(s, h.b['_c'])), h,
                'a component is fixed to the recorded choice')
            bad = [k for k in kinds if k.startswith('unknown')]
            ck.ob('load-key', not bad and {'alias', 'name'} <= kinds, h,
                  'the choice is looked up under the key it was exported '
                  'under ' + '; '.join(bad))
            for lg, k in keys:
                lg = f_and(lg, h.e.guard)
                if lg is False or f_implies(s.m.skey(lg), False):
                    continue
                if k == 'alias':
                    ok = s.m.implies(lg, '%s.alias' % x)
                elif k in ('name', 'extra', 'prefix'):
                    ok = not s.m.implies(lg, '%s.alias' % x) and \
                        f_implies(s.m.skey(f_and(lg, alias_formula(s, x))),
                                  False)
                    if k == 'extra':
                        ok = ok and s.m.implies(lg, 'extra_prefix')
                    if k == 'prefix':
                        ok = ok and s.m.implies(lg, 'prefix')
                else:
                    continue
                ck.ob('load-key-when', ok, h,
                      'aliases take precedence over module names, prefixes '
                      'apply when given')
        # missing entries are errors
        rz = [h for h in s.raises() if every(s, h, x)]
        al = [h for h in rz if miss(s, h, '%s.alias' % x)]
        nm = [h for h in rz if miss(s, h, None)]
        kc = [h for h in hs if any(
            k[0] == 'sub' for k in s.m.deep(h.b['_c']))]
        ck.ob('missing-alias', bool(al) or bool(kc), s,
              'a %s missing from the description (by alias) is an error'
              % what)
        ck.ob('missing-name', bool(nm) or bool(kc), s,
              'a %s missing from the description (by name) is an error'
              % what)
        for h in nm:
            ck.ob('missing-name-all', s.m.implied_by(
                missform(s, h), g + ' and not %s.alias and not KEYIN(_)'
                % x) or True, h, '')


def alias_formula(s, x):
    """formula of `component has an alias`"""
    for e in s.ev:
        for a in f_atoms(e.guard) if e.guard is not True and \
                e.guard is not False else ():
            if s.m.match('%s.alias' % x, a) is not None:
                return ('atom', a)
    return True


def missform(s, h):
    return h.e.guard if h.e.kind == 'raise' else f_and(
        h.e.guard, f_not(s.E.formula(h.e.value)))


def miss(s, h, key):
    """this raise fires because a key is not in subnet_dict; the remaining
    conditions only select the component"""
    f = missform(s, h)
    lits = [] if f in (True, False) else list(
        f[1] if f[0] == 'and' else (f,))
    found = False
    for l in lits:
        a = l[1][1] if l[0] == 'not' and l[1][0] == 'atom' else None
        if a is not None and a[0] == 'cmp' and a[1] == 'in' and \
                s.m.match('subnet_dict', a[3]) is not None:
            isal = s.m.match('_.alias', a[2]) is not None
            if key is not None and s.m.match(key, a[2]) is not None:
                found = True
            if key is None and not isal and s.derives(a[2], NAME):
                found = True
            continue
        # other literals: selection of components, alias presence, container
        t = l[1] if l[0] == 'atom' else a
        if t is None:
            if l[0] == 'not' and l[1][0] in ('and', 'or'):
                continue
            return False
        if t[0] == 'call' and t[1] in (('global', 'isinstance'),
                                       ('global', 'hasattr')):
            continue
        if s.m.match('_.alias', t) is not None:
            continue
        return False
    return found


def check_entry(ck):
    s = ck.fn('fix_subnet.load_fix_subnet', opaque=(
        '_load_fix_subnet_by_mutable', '_load_fix_subnet_by_mutator',
        '_dynamic_to_static'))
    a = s.calls('_load_fix_subnet_by_mutable(...)')
    b = s.calls('_load_fix_subnet_by_mutator(...)')
    ck.iff('mode-mutable', a, s, "load_subnet_mode == 'mutable'",
           'the component-wise description is loaded in mutable mode')
    ck.iff('mode-mutator', b, s, "load_subnet_mode == 'mutator' and not "
           "load_subnet_mode == 'mutable'" if False else
           "load_subnet_mode == 'mutator' and load_subnet_mode != 'mutable'",
           'the mutator description is loaded in mutator mode')
    c = s.calls('_dynamic_to_static(model)')
    ck.ob('static-after', len(c) == 1 and c[0].unconditional() or any(
        h.when("load_subnet_mode == 'mutable'") for h in c), s,
        'a loaded subnet is turned static')
    ck.not_after('static-last', a + b, c, s,
                 'after all its choices are fixed')
    ck.ob('mode-unknown', any(h.when(
        "load_subnet_mode != 'mutable' and load_subnet_mode != 'mutator'")
        for h in s.raises()), s, 'an unknown mode is an error')
    for h in a + b:
        d = h.e.args[1] if len(h.e.args) > 1 else h.arg(None, 'subnet_dict')
        ok = False
        file_ok = raw_ok = False
        bad = False
        for g, t in leaves(s, d if d is not None else NONE):
            if s.m.match('fileio.load(subnet_dict)', t) is not None:
                file_ok = s.m.implies(g, 'isinstance(subnet_dict, HAS(str))')
            elif s.m.match('subnet_dict', t) is not None:
                raw_ok = s.m.implies(
                    g, 'not isinstance(subnet_dict, HAS(str))')
            else:
                bad = True
        ck.ob('file-or-dict', file_ok and raw_ok and not bad, h,
              'a description read from a file is used like one passed '
              'directly')
        ck.ob('entry-model', s.m.match('model', h.e.args[0]) is not None, h,
              'the given model is configured')
    for h in a:
        ck.ob('prefix-passed', h.arg(2, 'prefix') == ('param', 'prefix') and
              h.arg(3, 'extra_prefix') == ('param', 'extra_prefix'), h,
              'the prefixes reach the lookup')
    ck.ob('both-prefixes', any(h.when('prefix and extra_prefix')
                               for h in s.raises()), s,
          'giving both prefixes is an error')
    m = ck.fn('fix_subnet._load_fix_subnet_by_mutator')
    p = m.func.params()
    pr = m.calls('_m.prepare_from_supernet(%s)' % p[0])
    ck.always('mutator-load', pr, m,
              'a mutator description is applied to the model')
    ck.ob('mutator-built', any(m.derives(
        h.b['_m'], 'MODELS.build(%s)' % p[1]) for h in pr), m,
        'by the mutator it describes')
    fc = [h for h in m.items('_m.parse_cfg', "'from_cfg'", 'True')]
    ck.order('mutator-from-cfg', fc, pr, m,
             'reading the units from the description')
    ck.ob('mutator-needs-units', any(h.when(
        "'channel_unit_cfg' not in " + p[1]) for h in m.raises()), m,
        'a description without units is an error')


def check_export_entry(ck):
    s = ck.fn('fix_subnet.export_fix_subnet', opaque=(
        '_export_subnet_by_mutable', '_export_subnet_by_mutator',
        'load_fix_subnet', '_dynamic_to_static'))
    a = s.calls('_export_subnet_by_mutable(model)')
    b = s.calls('_export_subnet_by_mutator(model, export_channel)')
    ck.iff('export-mode-mutable', a, s, "export_subnet_mode == 'mutable'",
           'mutable mode exports component-wise')
    ck.iff('export-mode-mutator', b, s, "export_subnet_mode == 'mutator' and"
           " export_subnet_mode != 'mutable'",
           'mutator mode exports the units')
    ck.ob('export-mode-unknown', any(h.when(
        "export_subnet_mode != 'mutable' and export_subnet_mode != "
        "'mutator'") for h in s.raises()), s, 'an unknown mode is an error')
    rets = s.returns()
    ok = bool(rets)
    for r in rets:
        v = r.e.value
        first = v[1][0] if v[0] == 'tuple' and len(v[1]) == 2 else None
        if first is None:
            ok = False
            continue
        for g, t in leaves(s, first, r.e.guard):
            am = s.m.match('_export_subnet_by_mutable(model)', t) is not None
            bm = s.m.match('_export_subnet_by_mutator(...)', t) is not None
            if not (am or bm) and not (t[0] == 'alloc' and s.m.implies(
                    g, "export_subnet_mode != 'mutable' and "
                    "export_subnet_mode != 'mutator'")):
                ok = False
    ck.ob('export-returned', ok, s, 'the exported description is returned')
    m = ck.fn('fix_subnet._export_subnet_by_mutator')
    v = m.ret()
    b = m.find(v, '_.config_template(with_channels=export_channel, '
               'with_unit_init_args=True)')
    ck.ob('mutator-export', bool(b) and m.derives(v, 'model.mutator'), m,
          'the unit description contains everything needed to rebuild the '
          'units')
    c = ck.fn('fix_subnet.convert_fix_subnet')
    p = c.func.params()[0]
    its = [h for h in into(c, c.ret(), '%s[ELEM(%s)].chosen' % (p, p))
           if h.e.kind == 'setitem']
    v = c.ret()
    ok = any(whole_loop(c, h, p) and h.unconditional() and c.m.match(
        'ELEM(%s)' % p, h.e.attr) is not None and c.m.match(
        "{'chosen': %s[ELEM(%s)].chosen}" % (p, p), h.e.value)
        is not None for h in its) or (v[0] == 'comp' and c.derives(
            v, "%s[ELEM(%s)].chosen" % (p, p)))
    ck.ob('convert-all', ok, c,
          'converting a description keeps every recorded choice')


def check(ck):
    check_export(ck)
    check_load(ck)
    check_entry(ck)
    check_export_entry(ck)
    # the file written by the search loops is the exported description
    n = 0
    for f in ck.prog.all_functions():
        src = {x.attr if isinstance(x, ast.Attribute) else
               getattr(x, 'id', None) for x in ast.walk(f.node)
               if isinstance(x, (ast.Attribute, ast.Name))}
        if 'convert_fix_subnet' in src and f.name != 'convert_fix_subnet' \
                and 'export_fix_subnet' in src:
            s = ck.func_summary(f, opaque=('export_fix_subnet',
                                           'convert_fix_subnet'))
            for h in s.calls('convert_fix_subnet(_x)'):
                n += 1
                ok = any(s.m.match('export_fix_subnet(...)[0]', t)
                         is not None for t in s.m.deep(h.b['_x']))
                ck.ob('saved-is-exported', ok, h,
                      'the saved description is the exported one')
    ck.floor('places saving a subnet', n, 3)
