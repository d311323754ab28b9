"""C09 searchable components hold only legal choices and are fixed once."""
from .common import *

MODULES = ('OneShotMutableOP', 'OneShotProbMutableOP', 'DiffMutableOP',
           'OneHotMutableOP', 'DiffChoiceRoute', 'GumbelChoiceRoute')
FIXED = ('self.is_fixed', 'self._is_fixed', 'self.is_fixed is True',
         'not (self.is_fixed is False)', 'self.is_fixed == True',
         'not (self.is_fixed == False)', 'self._is_fixed is True',
         'not (self._is_fixed is False)')
DROP = ('pop', 'fill_', 'popitem', 'clear', '__delitem__', 'copy_', 'zero_')


def is_fixed_guard(h):
    return any(h.guard_implies(p) for p in FIXED)


def changes(s):
    """events of s that change the state of the component"""
    out = []
    for e in s.ev:
        if e.kind in ('setattr', 'setitem', 'delitem', 'delattr') and \
                self_rooted(e.base):
            out.append(Hit(s, e, {}))
        elif e.kind == 'call' and e.func[0] == 'attr' and e.func[2] in \
                DROP + ('fset', '__set__') and (
                self_rooted(e.func[1]) or SELF in e.args):
            out.append(Hit(s, e, {}))
    return sorted(out, key=lambda h: h.e.seq)


def self_rooted(t):
    while t[0] in ('attr', 'sub') or (t[0] == 'call' and
                                      t[1][0] == 'attr'):
        t = t[1][1] if t[0] == 'call' else t[1]
    return t == SELF


def components(ck):
    der = ck.cls('DerivedMutable')
    out = []
    for c in concrete(ck, ck.cls('BaseMutable')):
        if c is der or der in ck.prog.mro(c):
            continue
        out.append(c)
    return out


def check_fix(ck):
    n = 0
    for c in components(ck):
        s = ck.fn(c.qual + '.fix_chosen')
        n += 1
        con = c.qual + '.fix_chosen'
        ch = changes(s)
        if not ch:
            ck.ob('mark-fixed', False, s, 'fixing changes nothing',
                  construct=con)
            continue
        ok = any(refuses(s, p, ch[0]) for p in FIXED)
        ck.ob('refuse-second-fix', ok, ch[0], 'a component that is already '
              'fixed refuses to be fixed again before anything is changed',
              construct=con)
        mk = s.sets('self', 'is_fixed', 'True') + s.sets(
            'self', '_is_fixed', 'True')
        ck.ob('mark-fixed', any(h.unconditional() and not h.e.loops
                                for h in mk), s,
              'fixing always marks the component as fixed', construct=con)
    ck.floor('searchable components', n, 9)
    s = ck.fn('BaseMutable.is_fixed=')
    st = [h for h in s.sets('self', '_') if h.e.attr != 'is_fixed']
    ck.need('flag-stored', [h for h in st if h.unconditional()], s,
            'setting is_fixed stores the flag')
    for h in st:
        ck.ob('flag-once', any(refuses(s, p, h) for p in FIXED), h,
              'the fixed flag cannot be set again once it is set')
        r = ck.fn('BaseMutable.is_fixed').ret()
        ck.ob('flag-read', r[0] == 'attr' and r[1] == SELF and
              r[2] == h.e.attr, s, 'is_fixed reads the stored flag')
        ck.ob('flag-value', same(s, h.e.value, ('param', 'is_fixed')), h,
              'the stored flag is the given one')


# ----------------------------------------------------------------- modules
def normal(s, t, p='chosen'):
    """t is the parameter, possibly wrapped into a one-element list"""
    return all(x == ('param', p) or (x[0] == 'alloc' and x[2] == (
        ('param', p),)) or (x[0] == 'call' and x[1][0] == 'global' and
                            x[1][1] in ('list', 'set', 'tuple') and
                            normal(s, x[2][0], p))
        for _, x in leaves(s, t))


def is_choices(s, t):
    return s.m.match('OR(self.choices, self._candidates, self._candidates.'
                     'keys(), list(self._candidates), list(self._candidates.'
                     'keys()))', t) is not None


def check_modules(ck):
    for n in MODULES:
        s = ck.fn(n + '.fix_chosen')
        con = s.name
        drops = [h for h in s.ev if (h.kind == 'call' and h.func[0] == 'attr'
                 and h.func[2] in ('pop', '__delitem__') and s.m.match(
                     'self._candidates', h.func[1]) is not None) or (
                 h.kind in ('delitem', 'del') and show(h.base).startswith(
                     'self._candidates'))]
        drops = [Hit(s, e, {}) for e in drops]
        ck.need('drop-others', drops, s, 'fixing drops the candidates that '
                'are not chosen')
        for h in drops:
            l = whole_loop(s, h, 'self._candidates')
            ck.ob('drop-all', l is not None, h, 'every candidate is '
                  'considered', construct=con)
            key = h.arg(0) if h.e.kind == 'call' else h.e.attr
            g = [a for a in f_atoms(h.e.guard)]
            ok = False
            for a in g:
                if a[0] == 'cmp' and a[1] in ('in', '==') and key in (
                        a[2], a[3]) or (a[0] == 'cmp' and a[1] in (
                            'in', '==') and strip(a[2]) == strip(key)):
                    o = a[3] if strip(a[2]) == strip(key) else a[2]
                    if normal(s, o) and (a[1] != '==' or n.startswith(
                            'OneShot')):
                        ok = f_equiv(s.m.skey(h.e.guard), s.m.skey(
                            f_not(('atom', a)))) or ok
            ck.ob('drop-exactly', ok, h, 'exactly the candidates that are '
                  'not chosen are dropped', construct=con)
            if l is not None:
                it = s.E.loops[l]['raw'] or s.E.loops[l]['iter']
                live = s.m.match('OR(self._candidates, self._candidates.keys'
                                 '(), self._candidates.items())', it) and \
                    it[0] != 'call'
                ck.ob('drop-snapshot', not live, h, 'candidates are not '
                      'dropped while iterating over them', construct=con)
        mem = [m for m in member_checks(s, drops[0] if drops else None)
               if normal(s, m[0]) and is_choices(s, m[1])]
        ck.ob('fix-legal', bool(mem), s, 'only candidates can be fixed, and '
              'this is checked before any candidate is dropped')
        st = s.sets('self', '_chosen')
        if n in ('DiffMutableOP', 'OneHotMutableOP'):
            ck.ob('keep-list', all(s.m.implies(
                g, 'not isinstance(chosen, str)')
                if x == ('param', 'chosen') else x[0] != 'alloc' or
                s.m.implies(g, 'isinstance(chosen, str)') for h in st
                for g, x in leaves(s, h.e.value)), s,
                'a single chosen candidate is kept as a list of one')
        ck.ob('keep-chosen', any(h.unconditional() and normal(
            s, h.e.value) for h in st) and all(normal(
                s, h.e.value) for h in st), s, 'the fixed choice is recorded')
        f = ck.fn(n + '.forward')
        check_forward(ck, n, f)
        r = ck.fn(n + '.choices').ret()
        ck.ob('choices-live', is_choices(ck.fn(n + '.choices'), r), f,
              'the choices are the keys of the candidates',
              construct=n + '.choices')


def runs(s):
    """calls of a candidate"""
    out = []
    for e in s.ev:
        if e.kind == 'call' and e.func[0] == 'sub' and s.m.match(
                'self._candidates', e.func[1]) is not None:
            out.append(Hit(s, e, {}))
    return out


def check_forward(ck, n, s):
    rs = runs(s)
    ck.floor('candidate calls in ' + s.name, len(rs), 1)
    con = s.name
    for g, t in leaves(s, s.ret()):
        ck.ob('output', s.derives(t, 'self._candidates'), s, 'the output is '
              'made of the outputs of the candidates', construct=con)
    fx = [h for h in rs if is_fixed_guard(h)]
    un = [h for h in rs if not is_fixed_guard(h)]
    ck.ob('fixed-runs', bool(fx), s, 'a fixed component runs the retained '
          'candidates', construct=con)
    for h in fx:
        k = h.e.func[2]
        chosen = s.m.match('OR(self._chosen, ELEM(self._chosen))', k)
        filt = any(a[0] == 'cmp' and a[1] == 'in' and strip(a[2]) == strip(k)
                   and s.m.match('self._chosen', a[3]) is not None and
                   f_implies(h.e.guard, ('atom', a))
                   for a in f_atoms(h.e.guard))
        ck.ob('fixed-only-chosen', chosen is not None or filt, h,
              'and no other', construct=con)
        if filt and chosen is None:
            # positional pairing of inputs with the original candidates
            src = [m for m in s.m.forms(k) if m[0] == 'sub' or True]
            ck.ob('fixed-own-input', s.derives(k, 'self._unfixed_choices'),
                  h, 'inputs are paired with the candidates as they were '
                  'before fixing', construct=con)
    for h in un:
        ck.ob('unfixed-gated', any(h.guard_implies('not (%s)' % p)
                                   for p in FIXED), h,
              'unfixed candidates are not run by a fixed component',
              construct=con)
    if n.startswith('OneShot'):
        cur = [h for h in un if s.m.match('self.current_choice',
                                          h.e.func[2]) is not None]
        al = [h for h in un if h not in cur]
        ck.ob('run-current', any(h.when(
            'not self.is_fixed and self.current_choice is not None')
            for h in cur), s, 'an unfixed component runs the currently chosen'
            ' candidate', construct=con)
        for h in al:
            ck.ob('run-all', whole_loop(s, h, 'self._candidates') is not None
                  and h.guard_implies('self.current_choice is None'), h,
                  'without a choice all candidates run', construct=con)
        mem = [m for m in member_checks_at(s, cur[0])] if cur else []
        ck.ob('run-legal', any(s.m.match('self.current_choice', a)
                               is not None and is_choices(s, b)
                               for a, b in mem), s,
              'a choice that is no candidate is refused', construct=con)
    else:
        for h in un:
            ck.ob('run-all', whole_loop(s, h, 'self._candidates') is not None,
                  h, 'unfixed, every candidate is considered',
                  construct=con)
            arch = [e for e in s.ev if e.kind == 'call' and e.func[0] ==
                    'attr' and e.func[2] == 'append' and e.seq > h.e.seq and
                    e.loops == h.e.loops]
            if not arch:
                continue
            v = arch[0].args[0]
            w = None
            if v[0] == 'bin' and v[1] == 'Mult':
                w = [x for x in (v[2], v[3]) if not s.derives(
                    x, 'self._candidates')]
                w = w[0] if w else None
            prob = 'self.compute_arch_probs(...)' if n != 'OneHotMutableOP' \
                else 'self.arch_weights'
            if any(a == ('cmp', 'is', ('param', 'arch_param'), NONE)
                   for a in f_atoms(h.e.guard)) and h.guard_implies(
                       'arch_param is not None'):
                ck.ob('run-weighted', w is not None and s.m.match(
                    'ELEM(%s)' % prob, w) is not None, h,
                    'the output of each candidate is weighted by its own '
                    'probability', construct=con)
                # a skipped candidate has no weight
                pos = f_or(*[('atom', a) for a in f_atoms(h.e.guard)
                             if w is not None and a[0] == 'cmp' and
                             a[1] == '<' and a[2][0] == 'const' and
                             a[2][1] == 0 and strip(a[3]) == strip(w)])
                own = [a for a in f_atoms(h.e.guard) if w is not None and
                       strip(w) in [strip(x) for x in all_terms(a)]]
                ck.ob('run-positive', not own or pos is not False and
                      f_implies(s.m.skey(f_and(pos, own_free(
                          h.e.guard, own))), s.m.skey(h.e.guard)), h,
                      'only candidates without weight are left out',
                      construct=con)
            elif w is not None:
                ck.ob('run-unweighted', False, h, 'without architecture '
                      'parameters all candidates count alike',
                      construct=con)
        wg = [h for h in un if h.guard_implies('arch_param is not None')]
        c = 'self._with_arch_param and ' if 'Route' in n else ''
        ck.ob('run-arch', any(s.m.implied_by(own_free(
            h.e.guard, [a for a in f_atoms(h.e.guard) if a[0] == 'cmp' and
                        a[1] == '<']),
            c + 'not self.is_fixed and arch_param is not None')
            for h in wg), s, 'with architecture parameters the candidates '
            'are weighted', construct=con)
        allg = [h for h in un if not h.guard_implies(
            'arch_param is not None')]
        ck.ob('run-default', any(h.when('not self.is_fixed and arch_param is '
                                        'None') for h in allg), s,
              'without architecture parameters all candidates run',
              construct=con)


def own_free(g, atoms):
    """g with the given atoms made irrelevant"""
    if g is True or g is False:
        return g
    if g[0] == 'atom':
        return True if g[1] in atoms else g
    if g[0] == 'not':
        return True if g[1][0] == 'atom' and g[1][1] in atoms else g
    if g[0] == 'and':
        return f_and(*[own_free(x, atoms) for x in g[1]])
    return g


def member_checks_at(s, h):
    """membership checks that certainly passed when h happens"""
    out = []
    for r in s.raises():
        if r.e.seq > h.e.seq or not f_implies(
                s.m.skey(h.e.guard), s.m.skey(r.e.guard)) and \
                r.e.kind == 'assert':
            continue
        f = f_not(r.e.value[1]) if r.e.kind == 'assert' else r.e.guard
        for a in f_atoms(f):
            if a[0] == 'cmp' and a[1] == 'in' and f_implies(
                    f_and(h.e.guard if r.e.kind == 'raise' else True,
                          f_not(('atom', a))), f):
                out.append((a[2], a[3]))
    return out


# ------------------------------------------------------------------ values
def check_values(ck):
    for n in ('MutableValue', 'OneShotMutableValue'):
        s = ck.fn(n + '.current_choice=')
        st = [h for h in s.sets('self', '_') if h.e.attr != 'current_choice']
        ck.need('store', [h for h in st if h.unconditional() and same(
            s, h.e.value, ('param', 'choice'))], s, 'the choice is stored')
        for h in st:
            mem = member_checks(s, h)
            ck.ob('store-legal', any(a == ('param', 'choice') and s.m.match(
                'OR(self.choices, self._value_list)', b) is not None
                for a, b in mem), h, 'only candidates are accepted')
            g = ck.fn(n + '.current_choice')
            r = g.ret()
            ck.ob('read-back', r[0] == 'attr' and r[1] == SELF and
                  r[2] == h.e.attr, g, 'the choice last set is read back')
        s = ck.fn(n + '.fix_chosen')
        h = [h for h in s.sets('self', 'current_choice')
             if h.unconditional() and same(s, h.e.value,
                                           ('param', 'chosen'))]
        ck.need('fix-value', h, s, 'fixing sets the fixed choice')
        r = ck.fn(n + '.choices')
        ck.ob('candidates', s.m.match('OR(self._value_list, list(self._value'
                                      '_list))', r.ret()) is not None or
              show(r.ret()) in ('self._value_list',
                                'list(self._value_list)'), r,
              'the candidates are the given values')
        i = ck.fn(n + '.__init__')
        v = [h for h in i.sets('self', '_value_list')]
        ck.ob('candidates-kept', bool(v) and all(
            i.m.match('OR(value_list, sorted(value_list), list(value_list), '
                      'sorted(list(value_list)))', h.e.value) is not None or
            (i.m.match('sorted(value_list, reverse=False)', h.e.value)
             is not None) for h in v), i,
            'the candidate values are the given ones')
    s = ck.fn('MutableValue.__init__')
    d = s.sets('self', 'current_choice')
    ck.ob('default', bool(d) and all(
        s.m.implies(g, 'default_value is None') != (
            x == ('param', 'default_value')) and (
            x == ('param', 'default_value') or s.m.match(
                'OR(value_list[_], self._value_list[_], self.choices[_])', x)
            is not None) for h in d for g, x in leaves(s, h.e.value)), s,
        'the initial choice is the default given, or one of the candidates')
    s = ck.fn('OneShotMutableValue.__init__')
    v = s.sets('self', '_value_list')
    srt = bool(v) and all(s.m.match('OR(sorted(value_list), sorted(list('
                                    'value_list)))', h.e.value) is not None
                          for h in v)
    for p, ix, f in (('max_choice', -1, 'max'), ('min_choice', 0, 'min')):
        z = ck.fn('OneShotMutableValue.' + p)
        ok = ends(z, z.ret(), ix, f, srt)
        ck.ob('extreme', ok, z, '%s is the extreme candidate' % p)
    z = ck.fn('OneShotMutableValue.sample_choice')
    ck.ob('sample', sampled(z, z.ret()), z,
          'a random choice is drawn from the candidates')
    d = [h for h in s.sets('self', 'current_choice')]
    L = [x for h in d for x in leaves(s, h.e.value)]
    ck.ob('default', any(s.m.implies(g, 'default_value is None') and (
        ends(s, x, -1, 'max', True) or s.m.match(
            'sorted(value_list)[-1]', x) is not None) for g, x in L) and any(
        x == ('param', 'default_value') for g, x in L) and all(
        s.m.implies(g, 'default_value is not None') for g, x in L
        if x == ('param', 'default_value')), s,
        'the initial choice is the default or the largest candidate')


def ends(s, t, ix, fn, is_sorted, coll='OR(self.choices, self._value_list)'):
    return any(
        (x[0] == 'sub' and is_sorted and x[2] == const(ix) and
         (s.m.match(coll, x[1]) is not None or s.m.match(
             'sorted(...)', x[1]) is not None)) or
        (x[0] == 'sub' and x[2] == const(ix) and s.m.match(
            'sorted(%s)' % coll, x[1]) is not None) or
        s.m.match('%s(%s)' % (fn, coll), x) is not None
        for x in s.m.forms(t))


def sampled(s, t):
    C = 'OR(self.choices, self._value_list, list(self._candidates.keys()))'
    pats = ('random.choice(%s)', 'numpy.random.choice(%s)',
            'numpy.random.choice(%s, 1)[0]', 'numpy.random.choice(%s, size=1'
            ')[0]', 'random.sample(%s, 1)[0]', 'random.choices(%s)[0]',
            'random.choices(%s, k=1)[0]',
            'random.choices(%s, weights=self.choice_probs, k=1)[0]',
            'random.choices(%s, weights=self.choice_probs)[0]',
            'random.choices(%s, self.choice_probs, k=1)[0]',
            'random.choices(%s, self.choice_probs)[0]')
    if any(s.m.match(p % C, t) is not None for p in pats):
        return True
    # any index into the candidates
    return any(x[0] == 'sub' and s.m.match(C, x[1]) is not None
               for x in s.m.forms(t))


def check_sampling(ck):
    for n in ('OneShotMutableOP', 'OneShotProbMutableOP'):
        s = ck.fn(n + '.sample_choice')
        ck.ob('sample', sampled(s, s.ret()), s,
              'a random choice is drawn from the candidates')
    s = ck.fn('OneShotProbMutableOP.sample_choice')
    ck.ob('sample-weighted', s.derives(s.ret(), 'self.choice_probs') or any(
        s.derives(x, 'self.choice_probs') for h in s.calls('_')
        if 'choice' in show(h.e.func) for x in
        list(h.e.args) + [v for _, v in h.e.kwargs]), s,
        'the draw follows the given probabilities')
    for n in ('DiffMutableOP', 'OneHotMutableOP'):
        s = ck.fn(n + '.sample_choice')
        t = s.ret()
        ok = False
        for x in s.m.forms(t):
            if x[0] == 'sub' and is_choices(s, x[1]):
                ok = ok or s.m.match(
                    'OR(torch.argmax(arch_param).item(), arch_param.argmax()'
                    '.item(), int(torch.argmax(arch_param)), int(arch_param.'
                    'argmax()), torch.argmax(arch_param), arch_param.argmax('
                    '), torch.argmax(arch_param, ...).item(), '
                    'torch.max(arch_param, 0)[1].item(), '
                    'torch.topk(arch_param, 1)[1].item())', x[2]) is not None
        ck.ob('sample-best', ok, s, 'the most probable candidate is sampled')
    s = ck.fn('DiffChoiceRoute.sample_choice')
    t = s.ret()
    ok = s.derives(t, 'self.num_chosen') and (s.derives(t, 'self.choices')
                                              or s.derives(
        t, 'self._candidates'))
    idx = [x for x in s.m.deep(t) if x[0] == 'call' and (
        'argsort' in show(x[1]) or 'topk' in show(x[1]) or
        'sort' in show(x[1]))]
    desc = False
    for x in idx:
        neg = any(y == ('param', 'arch_param') or show(y).startswith('-')
                  or y[0] == 'unary' for y in x[2])
        isneg = any(show(y) in ('-arch_param', '(-arch_param)',
                                '(-1 * arch_param)') or (
            y[0] == 'un' and 'Sub' in str(y[1])) for y in x[2])
        if 'topk' in show(x[1]):
            desc = not isneg and ('largest', FALSE) not in x[3]
        elif isneg:
            desc = ('descending', TRUE) not in x[3]
        else:
            desc = ('descending', TRUE) in x[3]
    ck.ob('sample-top', ok and desc, s, 'the num_chosen most probable edges '
          'are sampled')
    heads = [x for x in s.m.deep(t) if x[0] == 'slice']
    ck.ob('sample-count', all(x[1] == NONE or x[1] == const(0) for x in heads)
          and all(s.m.match('self.num_chosen', x[2]) is not None or
                  x[2] == NONE for x in heads), s,
          'taken from the top of the order')
    s = ck.fn('OneHotMutableOP.forward_arch_param')
    fx = s.calls('self.fix_chosen(...)')
    ck.need('fix-best', fx, s, 'a candidate with a clear lead is fixed')
    for h in fx:
        a = h.arg(0, 'chosen')
        ok = False
        for x in s.m.forms(a):
            if x[0] == 'sub' and is_choices(s, x[1]):
                ok = s.m.match('OR(torch.topk(...)[1][0], torch.topk(...).'
                               'indices[0], torch.argmax(...), '
                               'torch.argmax(...).item())', x[2]) is not None\
                    or s.m.match('OR(torch.topk(...)[1][0].item(), int('
                                 'torch.topk(...)[1][0]), torch.topk(...)'
                                 '.indices[0].item(), int(torch.argmax(...)'
                                 '))', x[2]) is not None
        ck.ob('fix-best', ok, h, 'the most probable candidate is fixed')
        T = 'torch.topk(self.compute_arch_probs(...), _k)'
        T = ('OR(torch.topk(_, 2)[0][%d], torch.topk(_, 2).values[%d], '
             'torch.topk(_, 2)[0][%d].item())')
        D = '%s - %s' % (T % (0, 0, 0), T % (1, 1, 1))
        ck.ob('fix-threshold', h.guard_implies(
            '%s >= self.fix_threshold' % D) and h.when(
            'not self.is_fixed and %s >= self.fix_threshold' % D), h,
            'only once its lead over the second reaches the threshold')
    st = s.sets('self', 'arch_weights')
    for h in st:
        ck.ob('weights', s.derives(h.e.value, 'self.compute_arch_probs(...)')
              and s.m.match('self.sample_weights(_, self.compute_arch_probs('
                            '...), ...)', h.e.value) is not None, h,
              'one candidate is drawn from the current probabilities')
        ck.ob('weights-when', h.when('not self.is_fixed'), h,
              'in every unfixed step')
    ck.need('weights', st, s, 'weights are drawn')
    on = s.calls('OR(self.arch_weights.data[_k].fill_(1), self.arch_weights['
                 '_k].fill_(1), self.arch_weights.data[_k].fill_(1.0), '
                 'self.arch_weights[_k].fill_(1.0))') + s.items(
        'OR(self.arch_weights, self.arch_weights.data)', None, '1')
    off = s.calls('OR(self.arch_weights.data.zero_(), self.arch_weights.'
                  'zero_(), self.arch_weights.data.fill_(0), '
                  'self.arch_weights.fill_(0))')
    ck.ob('weights-fixed', any(h.when('self.is_fixed') and h.guard_implies(
        'self.is_fixed') and s.derives(
            h.b.get('_k') or h.e.attr, 'self._chosen') for h in on) and any(
        h.when('self.is_fixed') and h.guard_implies('self.is_fixed') and
        h.e.seq < on[0].e.seq for h in off), s,
        'once fixed, the whole weight is on the fixed candidate')
    s = ck.fn('OneHotMutableOP.sample_weights')
    for g, t in leaves(s, s.ret()):
        if not s.m.implies(g, 'random_sample'):
            ck.ob('weights-draw', s.derives(t, 'probs') and any(
                x[0] == 'call' and x[1][0] == 'attr' and x[1][2] in (
                    'sample', 'rsample') for x in s.m.forms(t)), s,
                'the draw follows the probabilities')
    for n in ('DiffMutableOP', 'DiffChoiceRoute'):
        s = ck.fn(n + '.compute_arch_probs')
        ck.ob('probs', s.m.match('OR(torch.nn.functional.softmax(arch_param, '
                                 '...), torch.softmax(arch_param, ...), '
                                 'arch_param.softmax(...))', s.ret())
              is not None, s, 'probabilities are the softmax of the '
              'architecture parameters')
    s = ck.fn('GumbelChoiceRoute.compute_arch_probs')
    h = s.calls('torch.nn.functional.gumbel_softmax(arch_param, ...)')
    ck.need('gumbel', [x for x in h if s.m.match('self.tau', x.arg(
        1, 'tau') or NONE) is not None and s.m.match('self.hard', x.arg(
            2, 'hard') or NONE) is not None], s,
            'the Gumbel route uses its own temperature and hardness')


# ---------------------------------------------------------------- channels
def check_channels(ck):
    s = ck.fn('BaseMutableChannel.activated_channels')
    M = 'OR(self.current_mask, self.current_mask.bool(), self.mask)'
    pats = ['(%s == 1).sum().item()', 'int((%s == 1).sum())',
            '%s.sum().item()', 'int(%s.sum())', 'torch.sum(%s).item()',
            'torch.sum(%s == 1).item()', 'int(%s.sum().item())',
            'torch.count_nonzero(%s).item()', '(%s > 0).sum().item()',
            'int((%s == 1).sum().item())']
    ck.ob('activated', any(s.m.match(p % M, s.ret()) is not None
                           for p in pats), s,
          'the number of active channels is counted from the current mask')
    s = ck.fn('BaseMutableChannel.fix_chosen')
    h = s.sets('self', 'current_choice')
    ck.ob('fix-value', any(x.when('chosen is not None') for x in h) and all(
        same(s, x.e.value, ('param', 'chosen')) for x in h), s,
        'fixing a channel sets the fixed choice')
    for n in ('SquentialMutableChannel', 'OneShotMutableChannel'):
        s = ck.fn(n + '.fix_chosen')
        h = s.sets('self', 'current_choice')
        ck.ob('fix-value', any(x.unconditional() for x in h) and all(
            y == ('param', 'chosen') or s.m.implies(
                g, 'chosen is ...') and (s.derives(y, 'self.mask') or
                    'current_choice' in show(y))
            for x in h for g, y in leaves(s, x.e.value)) and any(
            x.e.value == ('param', 'chosen') or s.derives(
                x.e.value, 'chosen') for x in h), s,
            'fixing a channel sets the fixed choice')
        s = ck.fn(n + '.current_choice')
        r = resolver(ck, s)(s.ret(), s)
        ok = any(x[0] == 'attr' and x[2] == 'mask' and x[1] == SELF
                 for x in all_terms(r)) or n == 'OneShotMutableChannel'
        ck.ob('read-back', ok, s, 'the choice is read from the mask')
    s = ck.fn('SquentialMutableChannel.current_choice=')
    z = s.calls('OR(self.mask.fill_(0), self.mask.zero_(), self.mask.fill_('
                '0.0), self.mask.data.fill_(0), self.mask.data.zero_())')
    st = s.items('OR(self.mask, self.mask.data)')
    on = []
    for h in st:
        k, v = h.e.attr, h.e.value
        if k[0] == 'slice' and v[0] == 'const' and v[1] == 1 and \
                k[1] in (NONE, const(0)):
            on.append((h, k[2]))
    off = [h for h in st if h.e.attr[0] == 'slice' and h.e.value[0] ==
           'const' and h.e.value[1] == 0]
    ck.ob('mask-clear', any(h.unconditional() and all(h.e.seq < o.e.seq
                                                      for o, _ in on)
                            for h in z) or (bool(off)), s,
          'a new choice first clears the mask')
    ck.ob('mask-prefix', bool(on) and all(
        y == ('param', 'choice') or s.m.match('self._ratio2num(choice)', y)
        is not None or s.derives(y, 'choice')
        for _, k in on for _, y in leaves(s, k)) and any(
        h.unconditional() for h, _ in on), s,
        'and then activates the first channels of it')
    for h, k in on:
        for g, y in leaves(s, k):
            conv = y != ('param', 'choice')
            ck.ob('mask-ratio', conv == bool(s.m.implies(
                g, 'isinstance(choice, float)')) or g is True and conv, h,
                'a ratio is turned into a number first')
    s = ck.fn('SquentialMutableChannel._ratio2num')
    for g, y in leaves(s, s.ret()):
        if y == ('param', 'choice'):
            continue
        ok = s.m.match('max(1, int(self.num_channels * choice))', y) \
            is not None or s.m.match(
            'max(int(self.num_channels * choice), 1)', y) is not None or \
            s.m.match('max(1, round(self.num_channels * choice))', y) \
            is not None
        ck.ob('ratio-at-least-one', ok, s, 'a ratio always keeps at least '
              'one channel')
    s = ck.fn('SquentialMutableChannel._num2ratio')
    ck.ob('ratio-inverse', all(y == ('param', 'choice') or s.m.match(
        'choice / self.num_channels', y) is not None
        for _, y in leaves(s, s.ret())), s, 'a ratio is relative to all '
        'channels')
    s = ck.fn('SquentialMutableChannel.current_choice')
    num = rat = False
    for g, y in leaves(s, s.ret()):
        if s.derives(y, 'self.num_channels'):
            rat = f_or(rat, g)
        else:
            num = f_or(num, g)
    ck.ob('read-mode', s.m.implies(rat, 'not self.is_num_mode') and
          s.m.implied_by(num, 'self.is_num_mode') and rat is not False, s,
          'numbers are reported in number mode, ratios in ratio mode')
    s = ck.fn('OneShotMutableChannel.current_choice=')
    sets = [Hit(s, e, {}) for e in s.ev if e.kind == 'call' and
            show(e.func).endswith('.fset')] + [
        h for h in s.sets('self', '_') if h.e.attr != 'current_choice'] + \
        s.calls('self.mask.fill_(...)') + [
            h for h in s.items('self.mask')]
    ck.ob('store', bool(sets), s, 'the choice is stored')
    for h in sets:
        mem = member_checks(s, h)
        ck.ob('store-legal', any(a == ('param', 'choice') and all(
            'self.candidate_choices' in show(y) or s.derives(
                y, 'self.candidate_choices') for _, y in leaves(s, b))
            for a, b in mem), h, 'only candidates are accepted')
    s = ck.fn('OneShotMutableChannel.__init__')
    h = s.sets('self', 'candidate_choices')
    ck.ob('candidates-kept', bool(h) and all(
        s.derives(x.e.value, 'candidate_choices') for x in h), s,
        'the candidate choices are the given ones')
    # the caller's list / the default is not changed in place
    bad = [x for x in s.ev if x.kind == 'call' and x.func[0] == 'attr' and
           x.func[2] in ('append', 'extend', 'sort', 'insert', 'clear') and
           any(f == ('param', 'candidate_choices')
               for f in s.m.bases(x.func[1]))]
    ck.never('candidates-copied', [Hit(s, e, {}) for e in bad], s,
             'the list of candidates given (or the default) is not changed')
    s = ck.fn('SimpleMutableChannel.current_choice')
    ck.ob('read-back', s.m.match('OR(self.mask.bool(), self.mask, '
                                 'self.mask == 1, self.mask > 0)', s.ret())
          is not None, s, 'the mask last set is read back')
    s = ck.fn('SimpleMutableChannel.current_choice=')
    h = [x for x in s.sets('self', 'mask')] + s.calls(
        'OR(self.mask.copy_(...), self.mask.data.copy_(...))')
    ck.ob('store', any(x.unconditional() and s.derives(
        x.e.value if x.e.kind == 'setattr' else x.e.args[0], 'choice')
        for x in h), s, 'the mask given is stored')
    for n in ('SimpleMutableChannel', 'SquentialMutableChannel'):
        s = ck.fn(n + '.current_mask')
        ok = s.derives(s.ret(), 'self.mask')
        ck.ob('mask-read', ok, s, 'the current mask is the stored one')
    # dump -> fix
    b = ck.cls('SimpleMutableChannel')
    for c in [b] + [k for k in concrete(ck, b) if k is not b]:
        x = ck.fn(c.qual + '.export_chosen')
        z = ck.fn(c.qual + '.current_choice=')
        num = any(y[0] == 'call' and y[1][0] == 'attr' and y[1][2] == 'item'
                  for y in x.m.forms(x.ret())) or any(
            y[0] == 'attr' and y[2] == 'activated_channels'
            for y in x.m.forms(x.ret()))
        tens = [h for h in z.calls('choice._m(...)')] + [
            Hit(z, e, {}) for e in z.ev if e.kind == 'call' and
            e.func[0] == 'attr' and e.func[1] == ('param', 'choice')]
        ck.ob('dump-restores', not (num and tens), z,
              'the dumped choice (a number) can be set again',
              construct=c.qual)


def all_terms(t):
    yield t
    for x in subterms(t):
        yield from all_terms(x)


# -------------------------------------------------------------------- dump
def check_dump(ck):
    n = 0
    for c in components(ck):
        s = ck.fn(c.qual + '.dump_chosen')
        e = ck.fn(c.qual + '.export_chosen')
        n += 1
        d = [h for h in s.calls('_') if show(h.e.func).endswith(
            'DumpChosen')]
        if not d:
            ck.ob('dump', False, s, 'a dump holds the choice',
                  construct=c.qual + '.dump_chosen')
            continue
        for h in d:
            a = h.arg(0, 'chosen')
            ok = a is not None and (
                s.derives(a, 'self.current_choice') or s.derives(
                    a, 'self.activated_channels') or s.derives(
                    a, 'self.current_mask'))
            ck.ob('dump', ok, h, 'a dump holds the current choice',
                  construct=c.qual + '.dump_chosen')
        r = e.ret()
        ok = any(show(x) in ('self.current_choice', 'self._current_choice',
                             'self.activated_channels') or show(
            x).startswith('(self.current_mask') for x in e.m.forms(r))
        ck.ob('export', ok or e.derives(r, 'self.current_mask'), e,
              'the exported choice is the current one',
              construct=c.qual + '.export_chosen')
    ck.floor('dumps', n, 9)
    s = ck.fn('MutableModule.current_choice=')
    st = [h for h in s.sets('self', '_') if h.e.attr != 'current_choice']
    ck.ob('store', any(h.unconditional() and same(
        s, h.e.value, ('param', 'choice')) for h in st), s,
        'the choice is stored')
    g = ck.fn('MutableModule.current_choice').ret()
    ck.ob('read-back', any(g[0] == 'attr' and g[2] == h.e.attr for h in st),
          s, 'and read back')


def check(ck):
    ck.sections(check_fix, check_modules, check_values, check_sampling,
                check_channels, check_dump)
