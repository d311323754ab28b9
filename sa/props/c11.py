"""C11 mutators reach every searchable component and move groups as one."""
from .common import *

GROUPS = ('self.search_groups', 'self.mutable_units', 'self.choice_template',
          'self.units', 'self._name2unit')
CUR = 'current_choice'


def keyed(s, key, mut):
    """the key names the group / unit the component belongs to"""
    for m in s.m.forms(mut):
        for p in ('self.search_groups[_k][_]', 'self._name2unit[_k]',
                  'ELEM(self.search_groups[_k])', 'self.units[int(_k)]',
                  'ELEM(_c[_k])', '_c[_k][0]', 'self._search_groups[_k][0]'):
            b = s.m.match(p, m)
            if b is not None and same(s, b['_k'], key):
                return True
        b = s.m.match('_x.name', key)
        if b is not None and same(s, b['_x'], m):
            return True
        b = s.m.match('str(IDX(_x))', key)
        if b is not None and m[0] == 'elem' and same(s, b['_x'], m[1]):
            return True
    return False


def every(s, loops):
    """all loops whole, one of them over the groups"""
    return bool(loops) and all(whole(s, l) for l in loops) and any(
        over(s, l, *GROUPS) for l in loops)


def mutators(ck, meth):
    out, seen = [], set()
    for c in concrete(ck, ck.cls('BaseMutator')):
        f = ck.prog.lookup(c, meth)
        if f is None:
            continue
        key = f.qual
        # a subclass inheriting everything adds nothing
        if key in seen and not c.methods:
            continue
        seen.add(key)
        out.append((c, f))
    return out


def only_raises(s):
    return any(h.e.kind == 'raise' and h.unconditional() for h in s.raises())


def check_set(ck):
    n = 0
    for c, f in mutators(ck, 'set_choices'):
        s = ck.fn(c.qual + '.set_choices')
        if only_raises(s):
            continue
        n += 1
        p = ('param', [x for x in f.params() if x != 'self'][0])
        hits = s.sets('_m', CUR)
        good = []
        for h in hits:
            v = list(s.m.forms(h.e.value))
            k = None
            for x in v:
                if x[0] == 'sub' and any(strip(y) == strip(p) or y[0] ==
                                         'param' for y in s.m.forms(x[1])):
                    k = x[2]
                if x[0] == 'call' and x[1][0] == 'attr' and x[1][2] == \
                        'get' and x[1][1][0] == 'param' and x[2]:
                    k = x[2][0]
            ok = k is not None and keyed(s, k, h.e.base)
            ck.ob('set-own-choice', ok, h, 'each component receives the '
                  'choice given for its own group')
            if not ok:
                continue
            g = s.m.norm(h.e.guard)
            alls = h.e.loops and all(whole(s, l) for l in h.e.loops) and \
                over(s, h.e.loops[0], *GROUPS, p[1])
            if c.name == 'NasMutator' or ck.cls('NasMutator') in \
                    ck.prog.mro(c):
                alls = alls and any(s.m.match('ELEM(_x)', m) is not None
                                    for m in s.m.forms(h.e.base))
            ck.ob('set-reaches-all', alls, h, 'the choices are applied to '
                  'every member of every group')
            good.append(h)
            rest = f_map(g, lambda a: True if a[0] == 'cmp' and a[1] == 'in'
                         and show(strip(a[2])) == show(strip(k)) else (
                             'atom', a))
            ck.ob('set-unconditional', f_equiv(rest, True), h, 'a given '
                  'choice is applied whatever the state of the component')
        ck.need('set-choice', good, s, 'setting choices assigns the choice of '
                'every component')
    ck.floor('set_choices', n, 4)


def check_read(ck):
    n = 0
    for c, f in mutators(ck, 'current_choices'):
        n += 1
        s = ck.fn(c.qual + '.current_choices')
        es = entries(s, s.ret())
        ck.need('read-entries', es, s, 'the current choices have one entry '
                'per group')
        good = []
        for e in es:
            b = s.m.match('_m.current_choice', e.value)
            ok = b is not None and keyed(s, e.key, b['_m'])
            ck.ob('read-own', ok, e.where, 'an entry is the current choice '
                  'of the group it names', construct=s.name)
            if ok:
                good.append(e)
        ck.ob('read-all', any(every(s, e.loops) and f_equiv(s.m.norm(
            e.guard), True) for e in good), s, 'the current choices cover '
            'every group')
    ck.floor('current_choices', n, 2)


END = {'max': 'max_choice', 'min': 'min_choice'}


def arch_atom(a):
    return any(x[0] == 'attr' and x[2] in ('arch_params', '_arch_params') or
               x == const('arch_params') for x in all_sub(a))


def all_sub(t):
    st = [t]
    while st:
        x = st.pop()
        yield x
        st.extend(subterms(x))


def without_arch(s, g):
    """the guard for groups without architecture parameters"""
    return f_map(s.m.norm(g), lambda a: False if arch_atom(a) else
                 ('atom', a))


def check_sample(ck):
    n = 0
    for c, f in mutators(ck, 'sample_choices'):
        s = ck.fn(c.qual + '.sample_choices')
        if only_raises(s):
            continue
        n += 1
        kinds = 'kind' in f.params()
        es = entries(s, s.ret())
        own = []
        for e in es:
            if e.base or e.value[0] == 'attr' and e.value[2] == CUR:
                continue
            b = how = None
            for w in ('max_choice', 'min_choice'):
                b = b or s.m.match('_m.' + w, e.value)
                how = how or (w if b else None)
            if b is None:
                b = s.m.match('_m.sample_choice(...)', e.value)
                how = 'sample'
            ok = b is not None and keyed(s, e.key, b['_m'])
            ck.ob('sample-own', ok, e.where, 'a sampled entry comes from a '
                  'member of the group it names', construct=s.name)
            if not ok:
                continue
            ck.ob('sample-all', every(s, e.loops), e.where, 'sampling covers '
                  'every group', construct=s.name)
            arch = [x for x in s.m.forms(e.value) if x[0] == 'call' and x[2]
                    and s.m.match('_m.sample_choice(...)', x) is not None
                    and x[1][2] == 'sample_choice']
            if arch:
                ck.ob('sample-arch-only', without_arch(s, e.guard) is False,
                      e.where, 'only groups with architecture parameters '
                      'are sampled by them', construct=s.name)
                ck.ob('sample-arch', all(x[2][0][0] == 'sub' and same(
                    s, x[2][0][2], e.key) and s.derives(
                        x[2][0], 'self.arch_params') for x in arch), e.where,
                    'a group with architecture parameters is sampled with '
                    'its own parameters', construct=s.name)
            own.append((how, e, bool(arch)))
        fs = {}
        for how, e, arch in own:
            if not arch:
                fs[how] = f_or(fs.get(how, False), without_arch(s, e.guard))
        want = {'max': 'max_choice', 'min': 'min_choice',
                'random': 'sample'}
        if not ({'max_choice', 'min_choice'} & set(fs)):
            want = {'random': 'sample'}
        if not kinds:
            ck.ob('sample-kind', f_equiv(fs.get('sample', False), True), s,
                  'every group is sampled')
            continue
        R = f_or(*[without_arch(s, h.e.guard if h.e.kind == 'raise' else
                                f_not(h.e.value[1])) for h in s.raises()
                   if not h.e.frames[1:]])
        for k, how in want.items():
            for w, f in fs.items():
                f = given(s, f, 'kind', k)
                if w == how:
                    ck.ob('sample-kind', f_equiv(f, True), s, 'the %s of '
                          'every group is taken when asked for' % how)
                else:
                    ck.ob('sample-kind-only', f is False, s, 'the %s is '
                          'taken only when asked for' % w)
            ck.ob('sample-kind', how in fs, s, 'the %s can be asked for' %
                  how)
            ck.ob('sample-kind', given(s, R, 'kind', k) is not True, s,
                  '%s choices are not refused' % k)
        ck.ob('sample-unknown', given(s, R, 'kind', 'other kind') is True, s,
              'an unknown kind of sampling is not silently taken')
    ck.floor('sample_choices', n, 2)


def check_ends(ck):
    for end in ('max', 'min'):
        n = 0
        for c, f in mutators(ck, end + '_choices'):
            n += 1
            s = ck.fn('%s.%s_choices' % (c.qual, end))
            good = []
            for e in entries(s, s.ret()):
                if e.base:
                    continue
                b = s.m.match('_m.%s_choice' % end, e.value)
                arch = s.m.match('_m.sample_choice(self.arch_params[_k])',
                                 e.value)
                ok = (b is not None and keyed(s, e.key, b['_m'])) or (
                    arch is not None and keyed(s, e.key, arch['_m']) and
                    same(s, arch['_k'], e.key))
                ck.ob('end-own', ok, e.where, 'the %simum of a group comes '
                      'from its own members' % end, construct=s.name)
                if ok and b is not None:
                    good.append(e)
            g = f_or(*[without_arch(s, e.guard) for e in good
                       if every(s, e.loops)])
            ck.ob('end-all', f_equiv(g, True), s, 'the %simum choices cover '
                  'every group' % end)
        ck.floor(end + '_choices', n, 2)
        for c, f in mutators(ck, 'set_%s_choices' % end):
            s = ck.fn('%s.set_%s_choices' % (c.qual, end))
            good = []
            for h in s.sets('_m', CUR):
                v = s.m.match('self.%s_choices[_k]' % end, h.e.value)
                w = s.m.match('_m.%s_choice' % end, h.e.value)
                ok = (v is not None and keyed(s, v['_k'], h.e.base)) or (
                    w is not None and same(s, w['_m'], h.e.base)) or \
                    end_of(s, h.e.value, h.e.base, end)
                ck.ob('set-end-own', ok, h, 'each component is set to the '
                      '%simum of its group' % end)
                if ok and all(whole(s, l) for l in h.e.loops) and over(
                        s, h.e.loops[0], 'self.%s_choices' % end, *GROUPS):
                    good.append(h)
            dl = [h for h in s.calls('self.set_choices(self.%s_choices)' %
                                     end) if h.unconditional()]
            f_ = f_or(*[without_arch(s, h.e.guard) for h in good])
            ck.ob('set-end-all', bool(dl) or f_equiv(f_, True), s,
                  'every member of every group is set to the %simum' % end)
            if ck.cls('NasMutator') in ck.prog.mro(c) and not dl:
                ck.ob('set-end-members', all(any(
                    s.m.match('ELEM(_x)', m) is not None for m in
                    s.m.forms(h.e.base)) for h in good), s,
                    'all members of a group move together')


def end_of(s, v, base, end):
    """value looked up in the mapping of ends by the key of base"""
    for x in s.m.forms(v):
        if x[0] == 'sub' and keyed(s, x[2], base):
            for y in s.m.deep(x[1]):
                if y[0] == 'attr' and y[2] in (end + '_choices',
                                               end + '_choice'):
                    return True
                if y[0] == 'call' and s.m.match(
                        "_m.sample_choices('%s')" % end, y) is not None:
                    return True
    return False


def check_groups(ck):
    ops = ('_build_name_mutable_mapping', '_build_alias_names_mapping',
           '_check_valid_groups', '_named_mutables')
    s = ck.fn('NasMutator.build_search_groups', opaque=ops)
    A = 'self._build_alias_names_mapping(supernet)'
    NN = ('self._build_name_mutable_mapping(supernet)',
          'self._named_mutables(supernet)')
    N = 'OR(%s, %s)' % NN
    ret = s.ret()
    tops = {strip(x) for x in s.m.forms(ret)}

    def pats(p):
        return p.replace('$N', N).replace('$A', A)
    # names recorded as grouped: containers tested with "not in"
    G = []
    for e in s.ev:
        for a in f_atoms(e.guard):
            if a[0] == 'cmp' and a[1] == 'in':
                for x in s.m.forms(a[3]):
                    if x[0] == 'alloc' or (x[0] == 'call' and x[1] == (
                            'global', 'set')):
                        G.append(strip(x))

    def in_groups(h):
        return True
    # mutables entering a group
    adds = []           # (event, mutable term, loops, guard)
    for e in s.ev:
        if e.kind == 'setitem' and {strip(x) for x in s.m.bases(
                e.base)} & tops:
            adds.append((Hit(s, e, {}), e.value))
            t = e.value
            for x in s.m.forms(t):
                if x[0] == 'alloc':
                    for c in s.m.contents_events(x):
                        if c.kind == 'call':
                            adds += [(Hit(s, c, {}), a) for a in c.args]
        elif e.kind == 'call' and e.func[0] == 'attr' and e.func[2] in (
                'append', 'extend') and any(
                x[0] == 'sub' and {strip(y) for y in s.m.bases(x[1])} & tops
                for x in s.m.forms(e.func[1])):
            adds += [(Hit(s, e, {}), a) for a in e.args]
    muts = []
    for h, t in adds:
        t = list(s.m.forms(t))[-1]
        for x in ([t[2]] if t[0] == 'comp' and t[1] != 'dict' else
                  t[2] if t[0] == 'alloc' and t[1] != 'dict' else [t]):
            b = s.m.match(pats('$N[_n]'), x)
            if b is not None:
                extra = ()
                g = True
                if t[0] == 'comp':
                    extra, g = t[3], t[4]
                muts.append((h, b['_n'], tuple(h.e.loops) + extra,
                             f_and(h.e.guard, g)))
    ck.need('groups-built', muts, s, 'components are put into search groups')
    free, alias, custom = [], [], []
    for h, n, loops, g in muts:
        if any(over(s, l, 'custom_groups') for l in loops):
            custom.append((h, n, loops, g))
        elif any(over(s, l, A) for l in loops):
            alias.append((h, n, loops, g))
        elif any(over(s, l, N) for l in loops):
            free.append((h, n, loops, g))
    ck.ob('rest-grouped', any(all(whole(s, l) for l in loops) and
                              s.m.match(pats('ELEM($N)'), n) is not None
                              for h, n, loops, g in free), s,
          'every component not grouped otherwise gets a group of its own')
    for h, n, loops, g in free:
        g2 = s.m.norm(g)
        ok = g2 is not True and g2[0] == 'not' and g2[1][0] == 'atom' and \
            g2[1][1][0] == 'cmp' and g2[1][1][1] == 'in' and show(strip(
                g2[1][1][2])) == show(strip(n))
        ck.ob('rest-exactly-ungrouped', ok, h, 'a component gets a group of '
              'its own exactly when it is in no other group')
    for what, L in (('alias', alias), ('custom', custom)):
        ck.ob(what + '-grouped', bool(L), s, 'components sharing %s share a '
              'group' % ('an alias' if what == 'alias' else
                         'a custom group'))
        for h, n, loops, g in L:
            ck.ob(what + '-all', all(whole(s, l) for l in loops), h,
                  'every member is put into the shared group')
            # the member is recorded as grouped
            rec = recorded(s, h, n, loops, g, A)
            ck.ob(what + '-recorded', rec, h, 'a member of a shared group is '
                  'recorded so that it gets no second group')
    # every item of a custom group contributes: an alias all its components,
    # a name its component
    inner = {}
    for h, n, loops, g in custom:
        g = s.m.norm(g)
        inner[h.e.loops] = f_or(inner.get(h.e.loops, False), g)
        isal = [a for a in f_atoms(g) if a[0] == 'cmp' and a[1] == 'in' and
                s.m.match(A, peel_noop(s, a[3])) is not None]
        via = s.derives(n, A)
        ck.ob('custom-item', all(f_implies(g, ('atom', a) if via else f_not(
            ('atom', a))) for a in isal), h, 'an alias in a custom group '
            'stands for its components, a name for its component')
    ck.ob('custom-every-item', any(f_equiv(g, True) for l, g in inner.items(
        ) if len(l) > 1) or any(f_equiv(g, True) for l, g in inner.items()),
        s, 'every item of a custom group contributes its components')
    # an alias none of whose components is grouped gets a group
    fresh = [case(s, g, {'_a in _b': False}) for h, n, loops, g in alias]
    ok = False
    for f in fresh:
        def flag(a):
            if a[0] == 'loopvar' and a[3][0] == 'const':
                st = s.E.steps.get((a[2], a[1]))
                if st is None:
                    return ('atom', a)
                vals = [v for h2, v in leaves(s, st) if case(
                    s, h2, {'_a in _b': False}) is True]
                if len(vals) == 1 and vals[0][0] == 'const':
                    return bool(vals[0][1])
            return ('atom', a)
        f = f_map(f, flag)
        ok = ok or f is True or f is not False and all(
            a[0] == 'call' for a in f_atoms(f))
    ck.ob('alias-fresh', ok, s, 'the components of an alias not used in a '
          'custom group get a common group')
    # names in the alias groups: not when already grouped
    for h, n, loops, g in alias:
        # every name of an alias that is in no group joins the alias group
        at = [a for a in f_atoms(s.m.norm(g)) if a[0] == 'cmp' and
              a[1] == 'in' and show(strip(a[2])) == show(strip(n))]
        ck.ob('alias-once', bool(at) and all(f_implies(
            s.m.norm(g), f_not(('atom', a))) for a in at), h,
            'a component already grouped does not join the alias group too')
    # group names are unique: they derive a counter advanced with each group
    for e in s.ev:
        if e.kind == 'setitem' and {strip(x) for x in s.m.bases(
                e.base)} & tops:
            lv = [x for x in s.m.deep(e.attr) if x[0] == 'loopvar']
            ln = [x for x in s.m.deep(e.attr) if x[0] == 'call' and x[1] ==
                  ('global', 'len') and {strip(y) for y in s.m.forms(
                      x[2][0])} & tops]
            ok = bool(ln)
            for x in lv:
                st = s.E.steps.get((x[2], x[1]))
                if st is None or x[2] not in e.loops:
                    continue
                adv = []
                for g, y in leaves(s, st):
                    if y[0] == 'bin' and y[1] == 'Add' and strip(y[2]) == \
                            strip(x):
                        adv.append(g)
                if adv and f_implies(s.m.skey(e.guard), s.m.skey(
                        f_or(*adv))):
                    ok = True
                if s.derives(st, 'ACC(Add, _, _)'):
                    ok = True
            if any(x[0] == 'call' and s.m.match('next(_)', x) is not None
                   for x in s.m.deep(e.attr)):
                ok = True
            ck.ob('group-name-unique', ok, Hit(s, e, {}), 'every group has a '
                  'name of its own')
    # duplicates in custom definitions are refused
    dup = False
    for h in s.raises():
        if h.e.loops:
            continue
        f = f_not(h.e.value[1]) if h.e.kind == 'assert' else h.e.guard
        for a in f_atoms(f):
            ls = [x for x in s.m.deep(a) if x[0] == 'call' and x[1][0] ==
                  'global' and x[1][1].split('.')[-1] in ('set',
                                                          'Counter')]
            for x in ls:
                if x[2] and any(strip(y) in G for y in s.m.forms(x[2][0])):
                    dup = True
    ck.ob('duplicates-refused', dup, s, 'a component named in two groups is '
          'refused')
    v = s.calls('self._check_valid_groups(...)')
    ck.always('definitions-checked', v, s, 'group definitions are checked',
              guard='custom_groups')
    ck.not_after('checked-first', v, [h for h, _, _, _ in muts], s,
                 'group definitions are checked before grouping')


def recorded(s, h, n, loops, g, A):
    """a container tested for membership receives the name under the same
    condition"""
    for e in s.ev:
        if e.kind != 'call' or e.func[0] != 'attr' or e.func[2] not in (
                'append', 'extend', 'add', 'update') or not e.args:
            continue
        if not (f_implies(s.m.skey(h.e.guard), s.m.skey(e.guard)) or
                f_implies(s.m.skey(g), s.m.skey(e.guard))):
            continue
        a = e.args[0]
        if e.func[2] in ('append', 'add'):
            if show(strip(a)) == show(strip(n)) and all(
                    l in e.loops for l in h.e.loops[:1]):
                return True
        else:
            if n[0] == 'elem' and same(s, a, n[1]):
                return True
            if any(x[0] == 'comp' and x[4] is True and show(strip(
                    x[2])) == show(strip(n)) for x in s.m.deep(a)):
                return True
    return False


def check_valid(ck):
    s = ck.fn('NasMutator._check_valid_groups')
    ps = [x for x in s.func.params() if x != 'self']
    al, nm, cg = ps[0], ps[1], ps[2]
    rs = []
    for h in s.raises():
        f = h.e.guard if h.e.kind == 'raise' else f_and(
            h.e.guard, f_not(h.e.value[1]))
        rs.append((h, f))
    # a key that is neither alias nor name
    ill = mix = False
    for h, f in rs:
        f = s.m.norm(f)
        for a in f_atoms(f):
            if a[0] != 'cmp' or a[1] != 'in':
                continue
            el = a[2]
            custom = any(over(s, l, cg) and whole(s, l) for l in h.e.loops)
            if f_implies(f, f_not(('atom', a))):
                if s.derives(a[3], al) and s.derives(a[3], nm) and s.derives(
                        el, cg) and custom and len(f_atoms(f)) == 1:
                    ill = True
            if f_implies(f, ('atom', a)) and s.derives(a[3], cg) and \
                    s.derives(el, al):
                used = [c for l in h.e.loops for x in s.m.forms(
                    s.E.loops[l]['iter'] or NONE) if x[0] == 'alloc'
                    for c in s.m.contents_events(x)]
                if all(whole(s, l) for l in h.e.loops) and len(
                        f_atoms(f)) <= 2 and all(alias_use(s, c, al)
                                                 for c in used):
                    mix = True
        # two tests: not in aliases and not in names
        ats = [a for a in f_atoms(f) if a[0] == 'cmp' and a[1] == 'in' and
               f_implies(f, f_not(('atom', a))) and s.derives(a[2], cg)]
        if len(ats) == len(f_atoms(f)) == 2 and {
                s.derives(a[3], al) for a in ats} == {True, False}:
            ill = True
        for a in f_atoms(f):
            if a[0] == 'call' and s.derives(a, al) and s.derives(
                    a, nm) and s.derives(a, cg):
                ill = True
            if a[0] == 'call' and s.derives(a, al) and s.derives(a, cg):
                mix = mix or not s.derives(a, nm)
    if not ill:
        ill = any(s.derives(x, cg) and s.derives(y, al) and s.derives(y, nm)
                  for x, y in member_checks(s))
    ck.ob('illegal-refused', ill, s, 'a custom group naming something that '
          'is neither an alias nor a component is refused')
    ck.ob('mixing-refused', mix, s, 'naming both an alias and one of its '
          'members in custom groups is refused')


def alias_use(s, c, al):
    g = s.m.norm(c.guard)
    at = f_atoms(g)
    return len(at) == 1 and at[0][0] == 'cmp' and at[0][1] == 'in' and \
        s.derives(at[0][3], al) and f_implies(g, ('atom', at[0])) and \
        bool(c.args) and same(s, c.args[0], at[0][2]) and all(
            whole(s, l) for l in c.loops)


def check_naming(ck):
    s = ck.fn('NasMutator._build_name_mutable_mapping',
              opaque=('is_supported_mutable',))
    es = [e for e in entries(s, s.ret())]
    direct = [e for e in es if s.m.match(
        'ELEM(supernet.named_modules())[0]', e.key) is not None or
        mod_key(s, e.key, e.value)]
    own = [e for e in direct if mod_key(s, e.key, e.value)]
    ck.ob('all-modules', any(all(whole(s, l) for l in e.loops) and over(
        s, e.loops[0], 'supernet.named_modules()', 'supernet') and
        s.m.implied_by(e.guard, 'self.is_supported_mutable(%s)' % 'V')
        if False else all(whole(s, l) for l in e.loops) and
        supported_only(s, e) for e in own), s,
        'every supported component among the modules is found')
    src = [e for e in es if s.derives(e.value, '_.source_mutables')]
    ck.ob('source-mutables', any(all(whole(s, l) for l in e.loops)
                                 for e in src), s,
          'components a module derives its attributes from are found')
    a = ck.fn('NasMutator._build_alias_names_mapping',
              opaque=('is_supported_mutable', '_named_mutables'))
    ok = False
    for e in a.ev:
        vals = list(e.args) if e.kind == 'call' and e.func[0] == 'attr' and \
            e.func[2] == 'append' else [e.value] if e.kind == 'setitem' \
            else []
        if e.loops and all(whole(a, l) for l in e.loops) and vals:
            ok = True
    ck.ob('aliases-all', ok and bool(entries(a, a.ret())), a,
          'every aliased component is listed under its alias')
    for e in entries(a, a.ret()):
        ck.ob('alias-key', a.m.match('_m.alias', e.key) is not None, e.where,
              'components are collected under their alias',
              construct=a.name)
        none = case(a, e.guard, {'_m.alias is None': True, '_m.alias':
                                 False})
        ck.ob('alias-given', none is False, e.where, 'components without an alias '
              'are in no alias group', construct=a.name)
    stored = [f_map(a.m.norm(e.guard), lambda x: {
        '_': ('atom', x)}['_']) for e in a.ev if (
        e.kind == 'setitem' or e.kind == 'call' and e.func[0] == 'attr' and
        e.func[2] == 'append') and e.loops and any(
            n[0] == 'elem' or a.derives(n, 'supernet') for n in (
                e.args if e.kind == 'call' else (e.value,)))]
    f = case(a, f_or(*stored), {'_m.alias is None': False, '_m.alias': True,
                                'self.is_supported_mutable(_)': True})
    ck.ob('alias-every', f_equiv(f, True), a, 'every component with an alias '
          'is listed under it')
    p = ck.fn('GroupMixin.is_supported_mutable') if ck.fn(
        'GroupMixin.is_supported_mutable', optional=True) else None
    if p is not None:
        from .c04 import __name__ as _n    # noqa: F401
        r = p.ret()
        names = {x[1].split('.')[-1] for x in p.m.deep(r) if x[0] ==
                 'global'}
        for L in p.E.loops.values():
            if L['iter'] is not None:
                names |= {x[1].split('.')[-1] for x in p.m.deep(L['iter'])
                          if x[0] == 'global'}
        for g, v in [(h.e.guard, h.e.value) for h in p.returns()]:
            for at in f_atoms(g):
                names |= {x[1].split('.')[-1] for x in p.m.deep(at)
                          if x[0] == 'global'}
        for k in ('MutableModule', 'MutableValue'):
            ck.ob('kinds', k in names, p, 'module and value components are '
                  'searchable [%s]' % k)
        pos = [h for h in p.returns() if h.e.value == TRUE]
        for h in pos:
            for at in f_atoms(h.e.guard):
                ck.ob('kinds-sign', not f_implies(p.m.norm(h.e.guard), f_not(
                    ('atom', at))) or at[0] != 'call', h,
                    'a supported component is recognised by its type')
        for x in p.m.deep(r):
            if x[0] == 'un' and x[1] == 'Not':
                ck.ob('kinds-sign', False, p, 'a supported component is '
                      'recognised by its type')
        ck.ob('kinds-positive', bool(pos) or r[0] != 'const', p,
              'a supported component is recognised')


def mod_key(s, k, v):
    b = s.m.match('ELEM(_c)[0]', k)
    if b is not None and s.m.match('ELEM(_c)[1]', v) is not None:
        return True
    for x in s.m.forms(v):
        if x[0] == 'sub' and same(s, x[2], k) or show(strip(k)) in show(
                strip(x)):
            return 'source_mutables' not in show(strip(x))
    return s.derives(k, 'supernet') and s.derives(v, 'supernet') and \
        not s.derives(v, '_.source_mutables')


def supported_only(s, e):
    """the guard is exactly the support test of the value"""
    g = s.m.norm(e.guard)
    at = [a for a in f_atoms(g)]
    return bool(at) and all(
        (a[0] == 'call' and a[1][0] == 'attr' and a[1][2] ==
         'is_supported_mutable' and same(s, a[2][0], e.value)) or
        (a[0] == 'call' and a[1] == ('global', 'isinstance'))
        for a in at) and not any(f_implies(g, f_not(('atom', a)))
                                 for a in at[:1])


def check_prepare(ck):
    s = ck.fn('NasMutator.prepare_from_supernet', opaque=(
        'has_channel', '_prepare_from_predefined_model',
        'build_search_groups'))
    fin = s.sets('self', '_search_groups')
    ck.need('prepare', fin, s, 'preparing creates the search groups')
    t = fin[-1].e.value if fin else NONE
    es = entries(s, t)
    # stores through self._search_groups
    for e in s.ev:
        if e.kind in ('setitem',) and s.m.match('self._search_groups',
                                                e.base) is not None:
            es.append(Entry(s, e.guard, e.attr, e.value, tuple(e.loops),
                            Hit(s, e, {})))
        if e.kind == 'call' and e.func[0] == 'attr' and e.func[2] == \
                'update' and s.m.match('self._search_groups', e.func[1]) \
                is not None and e.args:
            es += entries(s, e.args[0], e.guard, 0, Hit(s, e, {}),
                          tuple(e.loops))
    B = 'self.build_search_groups(supernet, self._custom_groups)'
    up = s.calls('self._search_groups.update(%s)' % B) + [
        h for h in fin if s.derives(h.e.value, B)]
    up2 = [h for h in s.calls('_.update(...)') if h.e.args and s.derives(
        h.e.args[0], B)]
    ck.always('prepare-groups', up or up2, s, 'the groups of module and value '
              'components are part of the search groups')
    units = [e for e in es if s.derives(e.value, 'self.mutable_units') or
             s.derives(e.value, 'self._prepare_from_predefined_model('
                       'supernet)')]
    H = 'self.has_channel(supernet)'
    ck.ob('prepare-units', any(
        e.loops and all(whole(s, l) for l in e.loops) and s.m.implied_by(
            without_mutable(s, e.guard), H) for e in units), s,
        'every searchable channel unit has a group of its own')
    for e in units:
        ok = any(x[0] in ('idx',) for x in s.m.deep(e.key)) or any(
            x[0] == 'attr' and x[2] == 'name' for x in s.m.deep(e.key)) or \
            any(x[0] == 'loopvar' for x in s.m.deep(e.key))
        ck.ob('unit-name-unique', ok, e.where, 'channel groups have distinct '
              'names', construct=s.name)
    mu = s.sets('self', 'mutable_units')
    for h in mu:
        for x in s.m.deep(h.e.value):
            if x[0] == 'comp':
                at = f_atoms(x[4])
                ck.ob('mutable-filter', all(
                    a[0] == 'attr' and a[2] == 'is_mutable' and f_implies(
                        x[4], ('atom', a)) for a in at) and len(at) <= 1, h,
                    'the searchable channel units are exactly the mutable '
                    'ones')
    # access before preparation
    g = ck.fn('NasMutator.search_groups')
    ck.ob('unprepared-refused', refuses(g, 'self._search_groups is None'), g,
          'the search groups are refused before preparation')
    ck.ob('groups-value', g.m.match('self._search_groups', g.ret())
          is not None, g, 'the prepared groups are returned')
    q = ck.fn('NasMutator.arch_params', optional=True)
    if q is not None:
        ck.ob('unprepared-params', refuses(q, 'self._arch_params is None') and
              q.m.match('self._arch_params', q.ret()) is not None and
              case(q, refused(q), {'self._arch_params is None': False})
              is False, q, 'the architecture parameters are refused before '
              'they are prepared')
    ck.ob('prepared-accepted', case(g, refused(g), {
        'self._search_groups is None': False}) is False, g,
        'prepared search groups are returned')
    # channels detected through either side
    c = ck.fn('NasMutator.has_channel')
    pos = f_or(*[h.e.guard for h in c.returns() if h.e.value == TRUE])
    D = 'isinstance(_, DynamicChannelMixin)'
    if pos is not False:
        ck.ob('channel-kind', case(c, pos, {D: False}) is False, c,
              'only dynamic operations have searchable channels')
        ck.ob('channel-found', case(c, pos, {D: True, '_.get_mutable_attr(_)':
                                             True}) is True, c,
              'searchable channels are noticed')
    names = {x[2][0][1] for f in [pos] for a in f_atoms(f) for x in
             all_sub(a) if x[0] == 'call' and x[1][0] == 'attr' and
             x[1][2] == 'get_mutable_attr' and x[2] and x[2][0][0] ==
             'const'}
    if not names:
        names = {x[2][0][1] for x in c.m.deep(c.ret()) if x[0] == 'call' and
                 x[1][0] == 'attr' and x[1][2] == 'get_mutable_attr' and
                 x[2] and x[2][0][0] == 'const'}
        for e in c.ev:
            if e.kind == 'call' and c.m.match('_.get_mutable_attr(_)',
                                              e.term) is not None and \
                    e.args[0][0] == 'const':
                names.add(e.args[0][1])
    ck.ob('channel-sides', {'in_channels', 'out_channels'} <= names, c,
          'searchable channels are noticed on either side of an operation')
    if pos is not False:
        at = [a for a in f_atoms(pos) if any(
            x[0] == 'call' and x[1][0] == 'attr' and x[1][2] ==
            'get_mutable_attr' for x in all_sub(a))]
        for a in at:
            rest = f_map(pos, lambda y: True if strip(y) == strip(a) else (
                False if y in at else ('atom', y)))
            ck.ob('channel-either', rest is not False, c, 'one searchable '
                  'side is enough')
    fq = ck.fn('NasMutator._prepare_from_predefined_model')
    nu = [h for h in fq.items('self._name2unit') if keyed(
        fq, h.e.attr, h.e.value)]
    ck.ob('unit-index', any(h.e.loops and all(whole(fq, l) for l in
                                              h.e.loops) and
                            h.unconditional() for h in nu), fq,
          'every channel unit is indexed by its name')


def without_mutable(s, g):
    return f_map(s.m.norm(g), lambda a: True if a[0] == 'attr' and
                 a[2] == 'is_mutable' else ('atom', a))


def check_channel(ck):
    s = ck.fn('ChannelMutator.prepare_from_supernet', opaque=(
        '_prepare_from_cfg', '_prepare_from_tracer',
        '_prepare_from_predefined_model', 'prepare_for_pruning'))
    pr = s.calls('_.prepare_for_pruning(supernet)')
    ck.ob('units-prepared', any(
        h.e.loops and all(whole(s, l) for l in h.e.loops) and
        h.unconditional() for h in pr), s,
        'every channel unit is prepared')
    ix = [h for h in s.items('self._name2unit')]
    ck.ob('units-indexed', any(
        h.e.loops and all(whole(s, l) for l in h.e.loops) and
        h.unconditional() and name_of(s, h.e.attr, h.e.value) for h in ix),
        s, 'every channel unit is found by its own name')
    us = s.sets('self', 'units')
    ck.always('units-kept', [h for h in us if not any(
        x[0] == 'comp' and x[4] is not True for x in s.m.deep(h.e.value))
        and not partial_slice(s, h.e.value)], s,
        'every channel unit is kept by the mutator')
    srcs = ('_prepare_from_cfg', '_prepare_from_tracer',
            '_prepare_from_predefined_model')
    for h in us:
        ck.ob('units-source', any(s.derives(h.e.value, 'self.%s(...)' % k)
                                  for k in srcs) or any(
            x[0] == 'call' and x[1][0] == 'attr' and x[1][2] in srcs
            for x in s.m.deep(h.e.value)), h,
            'the units come from the analysis of the supernet')
    T = "self.parse_cfg['type']"
    for name, d, want in (
            ('analyzer object', {'isinstance(self.parse_cfg, _a)': True},
             '_prepare_from_tracer'),
            ('analyzer', {"'Analyzer' in " + T: True, "'from_cfg' in _":
                          False}, '_prepare_from_tracer'),
            ('analyzer with units', {"'Analyzer' in " + T: True,
                                     "'from_cfg' in _": True},
             '_prepare_from_cfg'),
            ('Config', {T + " == 'Config'": True}, '_prepare_from_cfg'),
            ('Predefined', {T + " == 'Predefined'": True, "'from_cfg' in _":
                            False}, '_prepare_from_predefined_model')):
        d = dict(d)
        if name == 'analyzer object':
            d = {'isinstance(self.parse_cfg, dict)': False,
                 'isinstance(self.parse_cfg, Dict)': False, **d}
        else:
            d = {'isinstance(self.parse_cfg, ChannelAnalyzer)': False,
                 'isinstance(self.parse_cfg, dict)': True, **d}
        for p in ("'Analyzer' in " + T, T + " == 'Config'",
                  T + " == 'Predefined'", "'from_cfg' in _"):
            d.setdefault(p, False)
        hs = s.calls('self.%s(...)' % want)
        f = f_or(*[case(s, h.e.guard, d) for h in hs])
        ck.ob('analysis-kind', f is True, s, 'the units are found as '
              'configured [%s: %s]' % (name, want))
    m = ck.fn('ChannelMutator.mutable_units')
    c = [x for x in m.m.deep(m.ret()) if x[0] == 'comp']
    ok = False
    for x in c:
        at = f_atoms(x[4])
        ok = len(at) == 1 and at[0] is not None and list(at)[0][0] == \
            'attr' and list(at)[0][2] == 'is_mutable' and f_implies(
                x[4], ('atom', list(at)[0])) and m.m.match(
            'ELEM(self.units)', x[2]) is not None
    if not c:
        for h in m.calls('_.append(ELEM(self.units))'):
            ok = h.guard_is('ELEM(self.units).is_mutable')
    ck.ob('mutable-units', ok, m, 'the searchable units are exactly the '
          'mutable ones')
    x = ck.fn('ChannelMutator.fix_channel_mutables')
    fx = [h for h in x.calls('_.fix_chosen(...)') if h.e.loops and all(
        whole(x, l) for l in h.e.loops) and h.unconditional() and over(
            x, h.e.loops[0], 'self.units', 'self._name2unit')]
    ck.need('fix-all', fx, x, 'fixing covers every channel unit')
    t = ck.fn('ChannelMutator._prepare_from_tracer', opaque=(
        '_convert_channel_unit_to_mutable',), optional=True)
    if t is not None:
        ck.ob('tracer-all', not partial_slice(t, t.ret()) and not any(
            y[0] == 'comp' and y[4] is not True for y in t.m.deep(t.ret())),
            t, 'every unit found by the analysis is used')
    v = ck.fn('ChannelMutator._convert_channel_unit_to_mutable')
    cs = v.calls('_.init_from_channel_unit(...)')
    for h in cs:
        a = h.arg(1)
        if a is None:
            a = h.arg(name='args')
        own = "'init_args' in self.units_cfg[_u.name]"
        D = {'_u.name in self.units_cfg': True, own: True}
        good = a is not None
        for g, x in leaves(v, a) if good else ():
            mine = v.derives(x, 'self.units_cfg[_u.name]')
            if case(v, g, D) is not False and not mine:
                good = False
            if mine and any(case(v, g, dict(D, **{k: False})) is not False
                            for k in D):
                good = False
        ck.ob('unit-args', good, h, 'a unit is built with the arguments '
              'configured for it')
        ck.ob('unit-default', a is not None and v.derives(
            a, 'self.unit_default_args'), h, 'a unit without arguments of '
            'its own gets the default ones')
    x = ck.fn('ChannelMutator.choice_template')
    ct = entries(x, x.ret())
    ck.ob('template-all', any(every(x, e.loops) and f_equiv(x.m.skey(
        e.guard), True) and keyed(x, e.key, e.value[1] if e.value[0] ==
                                  'attr' else e.value) for e in ct), x,
        'the choices are keyed by the names of all searchable units')
    m = ck.fn('ChannelMutator.mutable_units')
    ap = v.calls('_.append(...)')
    got = [h for h in ap if h.e.loops and h.unconditional() and all(
        whole(v, l) for l in h.e.loops)]
    cp = [y for y in v.m.deep(v.ret()) if y[0] == 'comp' and y[4] is True]
    ck.ob('convert-all', bool(got or cp), v, 'every unit found by the '
          'analysis is converted')


def name_of(s, k, v):
    b = s.m.match('_x.name', k)
    if b is None:
        return False
    if same(s, b['_x'], v):
        return True
    # through the list slot the value was stored in
    A = {show(strip(x)) for x in s.m.forms(v)}
    B = {show(strip(x)) for x in s.m.forms(b['_x'])}
    return bool(A & B)


def check_arch(ck):
    s = ck.fn('NasMutator.prepare_arch_params', opaque=(
        '_modify_supernet_forward',))
    es = [h for h in s.items('self._arch_params')] or [
        e for h in s.sets('self', '_arch_params') for e in entries(
            s, h.e.value)]
    ok = []
    for h in es:
        k, v, g, lp = (h.e.attr, h.e.value, h.e.guard, h.e.loops) \
            if isinstance(h, Hit) else (h.key, h.value, h.guard, h.loops)
        nc = s.find(v, '_m.num_choices')
        good = bool(nc) and all(keyed(s, k, b['_m']) for _, b in nc)
        ck.ob('arch-size', good, s, 'the architecture parameter of a group '
              'has one weight per choice of that group')
        ck.ob('arch-parameter', s.derives(v, 'nn.Parameter(...)'), s,
              'architecture weights are trainable')
        at = f_atoms(s.m.norm(g))
        ck.ob('arch-modules', len(at) == 1 and all(a[0] == 'call' and
              a[1] == ('global', 'isinstance') and f_implies(s.m.norm(g), (
                  'atom', a)) for a in at) and every(s, lp), s,
            'every group of searchable modules gets a parameter')
        ok.append(good)
    ck.need('arch-params', [h for h in es if isinstance(h, Hit)] or es, s,
            'groups of modules get architecture parameters') if not isinstance(
        es[0] if es else None, Entry) else None
    ck.always('arch-applied', s.calls('self._modify_supernet_forward()'), s,
              'the parameters are handed to the components')
    m = ck.fn('NasMutator._modify_supernet_forward')
    fw = [h for h in m.calls('_m.set_forward_args(...)')]
    good = [h for h in fw if any(
        k == 'arch_param' and m.derives(v, 'self.arch_params') and
        v[0] == 'sub' and keyed(m, v[2], h.b['_m']) for k, v in
        [(k, w) for k, x in h.e.kwargs for w in m.m.forms(x)])]
    ck.ob('arch-handed', any(all(whole(m, l) for l in h.e.loops) and
                             len(h.e.loops) > 1 for h in good), m,
          'every member of a group computes with the parameter of its group')


def check_aliases(ck):
    """an alias given to a component reaches the component"""
    n = 0
    base = ck.cls('BaseMutable')
    for c in ck.prog.subclasses(base):
        f = c.methods.get('__init__')
        if f is None or 'alias' not in f.params():
            continue
        n += 1
        s = ck.func_summary(f, c)
        own = [h for h in s.sets('self', '_alias') + s.sets(
            'self', 'alias') if s.m.match('alias', h.e.value) is not None]
        sup = []
        for h in s.kind('call'):
            if h.e.func[0] == 'attr' and h.e.func[2] == '__init__' and (
                    h.arg(name='alias') == ('param', 'alias') or
                    ('param', 'alias') in h.e.args):
                sup.append(h)
        ck.ob('alias-kept', any(h.unconditional() for h in own + sup), s,
              'the alias given to a component is kept')
    ck.floor('constructors taking an alias', n, 4)


def check(ck):
    ck.sections(check_set, check_read, check_sample, check_ends, check_groups,
                check_valid, check_naming, check_prepare, check_channel,
                check_arch, check_aliases)
