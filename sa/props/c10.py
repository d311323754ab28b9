"""C10 derived searchable quantities always follow their source."""
from .common import *
from .c09 import changes

LIVE = ('current_choice', 'current_mask', 'activated_channels', 'mask',
        'is_fixed')
ENDS = {'Mult': 'max', 'FloorDiv': 'min'}


def sites(ck):
    """[(summary, construction event)] of every derived mutable built in the
    project"""
    der = ck.cls('DerivedMutable')
    out = []
    for f in ck.prog.all_functions():
        if not any(isinstance(n, ast.Call) and (dotted(n.func) or '').split(
                '.')[-1] == der.name for n in walk_own(f.node)):
            continue
        s = ck.func_summary(f, f.cls, opaque=('make_divisible',))
        for h in s.calls('DerivedMutable(...)', top=True):
            out.append((s, h))
    return out


def raw_forms(s, t):
    return list(s.m.forms(t))


def captured(s, cl):
    """(name, value) pairs captured from outside by a closure"""
    node, env, fr, _ = s.E.closures[cl[1]]
    names = {n.id for b in (node.body if isinstance(node.body, list) else
                            [node.body]) for n in ast.walk(b)
             if isinstance(n, ast.Name)}
    bound = {x.arg for x in node.args.posonlyargs + node.args.args +
             node.args.kwonlyargs}
    out = [(n, env[n]) for n in sorted(names - bound) if n in env]
    out += [('default', d) for d in ()]
    return out


def snapshots(s, cl, seen=()):
    bad = []
    for n, v in captured(s, cl):
        for x in s.m.deep(v):
            if x[0] == 'attr' and x[2] in LIVE:
                bad.append((n, x))
            elif x[0] == 'closure' and x[1] != cl[1] and x[1] not in seen:
                bad += snapshots(s, x, seen + (cl[1],))
    return bad


def sources(s, t, g=True):
    """shown owners of the live reads a value depends on"""
    out = set()
    for x in s.m.deep(t):
        x = under(s, x, g)
        if x[0] == 'attr' and x[2] in LIVE[:3]:
            b = unint(s, x[1])
            out.add(owner(s, b))
    return out


def owner(s, t):
    t = strip(t)
    if t[0] == 'elem':
        return 'each of ' + show(peel_noop(s, t[1]))
    return show(t)


def unint(s, t):
    """term without int() conversions and versions"""
    def fn(x):
        if x[0] == 'call' and x[1] == ('global', 'int') and len(x[2]) == 1:
            return x[2][0]
        return x
    return strip(tmap(t, fn))


def flat(s, t, depth=0):
    """term with helper calls looked through"""
    def fn(x):
        if x[0] == 'call' and x[-1] and depth < 6:
            fs = list(s.m.forms(x))
            if len(fs) > 1 and fs[-1][0] not in ('closure',):
                return flat(s, fs[-1], depth + 1)
        return x
    return tmap(t, fn)


def mask_shape(c, t):
    """[(guard, size term, active bound)] of the masks a closure returns"""
    out = []
    for g, x in leaves(c, t):
        y = x
        while y[0] == 'call' and y[1][0] == 'attr' and y[1][2] in (
                'bool', 'to', 'float', 'clone'):
            y = y[1][1]
        if y[0] == 'call' and y[1][0] == 'global' and y[1][1].split('.')[
                -1] == 'zeros' and y[2]:
            ons = [h for h in c.items('_') if strip(h.e.base) in [
                strip(f) for f in c.m.forms(x)] or strip(h.e.base) ==
                strip(x)]
            out.append((g, y[2][0], ons))
        else:
            out.append((g, None, x))
    return out


def to_current(c, t):
    """size term with totals replaced by the current values; also the ends
    of the ratio used"""
    ends = set()

    def fn(x):
        if x[0] == 'call' and x[1][0] == 'attr' and x[1][2] == 'size' and \
                x[1][1][0] == 'attr' and x[1][1][2] in LIVE[1:]:
            return ('attr', x[1][1][1], 'current_choice', None)
        if x[0] == 'sub' and x[1][0] == 'attr' and x[1][2] == 'shape' and \
                x[1][1][0] == 'attr':
            return ('attr', x[1][1][1], 'current_choice', None)
        if x[0] == 'call' and x[1] == ('global', 'len') and x[2][0][0] == \
                'attr' and x[2][0][2] == 'current_mask':
            return ('attr', x[2][0][1], 'current_choice', None)
        if x[0] == 'call' and x[1][0] == 'global' and x[1][1] in (
                'max', 'min') and len(x[2]) == 1 and x[2][0][0] == 'attr' \
                and x[2][0][2] == 'choices':
            ends.add(x[1][1])
            return ('attr', x[2][0][1], 'current_choice', None)
        if x[0] == 'attr' and x[2] in ('max_choice', 'min_choice'):
            ends.add(x[2][:3])
            return ('attr', x[1], 'current_choice', None)
        return x
    return tmap(t, fn), ends


def pure(c, t):
    return unint(c, strip(flat(c, t)))


def under(c, t, g):
    """term with the conditionals decided by g resolved"""
    def fn(x):
        if x[0] == 'ite':
            if f_implies(c.m.skey(g), c.m.skey(x[1])) or not feasible(
                    c, f_and(g, f_not(x[1]))):
                return x[2]
            if not feasible(c, f_and(g, x[1])):
                return x[3]
        return x
    return tmap(t, fn)


def under_f(c, f, g):
    return f_map(f, lambda a: ('atom', under(c, a, g)))


def split(c, t, g=True):
    """(guard, plain term) cases of a term, conditionals anywhere"""
    t = under(c, flat(c, t), g)
    for x in walk_terms(t):
        if x[0] == 'ite':
            out = []
            for h, y in ((x[1], x[2]), (f_not(x[1]), x[3])):
                h2 = f_and(g, under_f(c, h, g))
                if feasible(c, h2):
                    out += split(c, tmap(t, lambda z: y if z == x else z),
                                 h2)
            return out
    return [(g, unint(c, strip(t)))]


def walk_terms(t):
    st = [t]
    while st:
        x = st.pop()
        yield x
        st.extend(subterms(x))


def resized(c, size, g):
    out = []
    for h, t in split(c, size, g):
        t2, ends = to_current(c, t)
        out.append((h, unint(c, t2), ends, t))
    return out


def check_site(ck, s, h):
    con = s.name
    cf = h.arg(0, 'choice_fn')
    mf = h.arg(1, 'mask_fn')
    if cf is None:
        return 0
    n = 0
    cls_ = closures_of(s, cf)
    ck.ob('choice-is-function', bool(cls_), h, 'the choice is computed by a '
          'function whenever it is read', construct=con)
    mls_ = closures_of(s, mf) if mf is not None else []
    for g, cl in cls_ + mls_:
        n += 1
        bad = snapshots(s, cl)
        ck.ob('no-snapshot', not bad, h, 'the function reads its sources '
              'when called%s' % (' [%s taken when deriving as "%s"]' % (
                  show(bad[0][1]), bad[0][0]) if bad else ''), construct=con)
        c = s.closure(cl)
        if c is None:
            continue
        src = sources(c, c.ret())
        ck.ob('reads-source', bool(src), h, 'the derived value depends on '
              'the current state of its sources', construct=con)
        ck.ob('pure-read', not [e for e in c.ev if e.kind in (
            'setattr',) and e.attr in LIVE], h, 'reading a derived value '
            'changes nothing', construct=con)
    pairs = [(f_and(g, k), a, b) for g, a in cls_ for k, b in mls_
             if feasible(s, f_and(g, k)) and a[1] != b[1]]
    for g, a, b in pairs:
        c, m = s.closure(a), s.closure(b)
        sc, sm = sources(c, c.ret(), g), sources(m, m.ret(), g)
        for k, size, on in mask_shape(m, m.ret()):
            if size is None:
                check_concat(ck, h, con, c, m, on)
                continue
            for o in on:
                sm |= sources(m, o.e.attr, g) if isinstance(
                    o.e.attr, tuple) else set()
            check_prefix(ck, h, con, c, m, f_and(g, k), size, on)
        ck.ob('same-sources', sc == sm, h, 'mask and choice depend on the '
              'same sources [%s / %s]' % (sorted(sc), sorted(sm)),
              construct=con)
    return n


def check_concat(ck, h, con, c, m, t):
    """choice = sum, mask = concatenation over the same sequence"""
    cats = [x for x in m.m.deep(t) if x[0] == 'call' and x[1][0] == 'global'
            and x[1][1].split('.')[-1] in ('cat', 'concat', 'hstack')]
    if not cats:
        return
    ok = True
    for x in m.m.deep(cats[0][2][0]):
        if x[0] == 'call' and x[1][0] == 'global' and x[1][1] in (
                'reversed', 'sorted', 'set'):
            ok = False
        if x[0] == 'slice' and (x[3] != NONE or x[1] != NONE or
                                x[2] != NONE):
            ok = False
        if x[0] == 'call' and x[1][0] == 'attr' and x[1][2] in (
                'insert', 'appendleft', 'reverse', 'sort'):
            ok = False
    bad = [e for e in m.ev if e.kind == 'call' and e.func[0] == 'attr' and
           e.func[2] in ('insert', 'appendleft', 'reverse', 'sort', 'pop')]
    ck.ob('concat-order', ok and not bad, h, 'concatenation keeps the order '
          'of its sources', construct=con)
    for q in (c, m):
        bad = [L for L in q.E.loops.values() if L.get('breaks')]
        g = [e for e in q.ev if e.loops and not f_equiv(
            q.m.skey(e.guard), True)]
        ck.ob('concat-all', not bad and not g and not any(
            filtered(q, x) for x in q.m.deep(q.ret()) if x[0] == 'comp'), h,
            'every source is part of the concatenation', construct=con)


def filtered(q, x):
    return len(x) > 4 and x[4] not in (True, (), None)


def check_prefix(ck, h, con, c, m, g, size, ons):
    ck.ob('mask-set', bool(ons), h, 'the active channels are switched on in '
          'the mask', construct=con)
    cc = split(c, c.ret(), g)
    for o in ons:
        k = o.e.attr
        ok = o.e.value == const(True) and k[0] == 'slice' and \
            k[1] in (NONE, const(0)) and k[3] == NONE
        ck.ob('mask-prefix', ok, h, 'the active channels are the first ones',
              construct=con)
        if not ok:
            continue
        for h1, b in split(m, k[2], f_and(g, under_f(m, o.e.guard, g))):
            for h2, x in cc:
                if not feasible(m, f_and(h1, h2)):
                    continue
                ck.ob('mask-equals-choice', show(norm_fn(x)) == show(
                    norm_fn(b)), h, 'the number of active channels in the '
                    'mask is the derived choice [%s / %s]' % (
                        show(b), show(x)), construct=con)
    for h1, t, ends, raw in resized(m, size, g):
        for h2, x in cc:
            if not feasible(m, f_and(h1, h2)):
                continue
            ck.ob('mask-size', show(norm_fn(t)) == show(norm_fn(x)), h,
                  'the mask has the size the choice takes for the widest '
                  'source [%s / %s]' % (show(raw), show(x)), construct=con)
            want = {ENDS[y[1]] for y in walk_terms(x) if y[0] == 'bin' and
                    y[1] in ENDS} if len([y for y in walk_terms(
                        x) if y[0] == 'attr' and y[2] ==
                        'current_choice']) > 1 else set()
            ck.ob('mask-size-extreme', ends == want, h, 'the mask is sized '
                  'for the ratio giving the widest result', construct=con)


def norm_fn(t):
    """commutative normal form of products"""
    def fn(x):
        if x[0] == 'bin' and x[1] in ('Mult', 'Add'):
            a, b = sorted((x[2], x[3]), key=show)
            return (x[0], x[1], a, b) + tuple(x[4:])
        return x
    return tmap(t, fn)


def closures_of(s, t):
    out = []
    for g, x in leaves(s, t):
        for f in s.m.forms(x):
            if f[0] == 'closure':
                out.append((g, f))
                break
            if f[0] == 'partial':
                for k in s.m.forms(f[1]):
                    if k[0] == 'closure':
                        out.append((g, k))
    return out


def check_sites(ck):
    n = 0
    ss = sites(ck)
    for s, h in ss:
        n += check_site(ck, s, h)
    ck.floor('functions computing derived values', n, 6)


# ---------------------------------------------------------------- operators
def check_operators(ck):
    """* and // of searchable quantities derive with the given operand"""
    n = 0
    for c in ck.prog.all_classes():
        if not any(k.name == 'DerivedMethodMixin' for k in ck.prog.mro(c)
                   if isinstance(k, Class)):
            continue
        for op, fn in (('__mul__', 'derive_expand_mutable'),
                       ('__floordiv__', 'derive_divide_mutable'),
                       ('__rmul__', None)):
            if op not in c.methods:
                continue
            s = ck.fn(c.qual + '.' + op, opaque=(
                'derive_expand_mutable', 'derive_divide_mutable', '__mul__'))
            r = s.ret()
            for g, x in leaves(s, r):
                if not feasible(s, g) or x == NONE:
                    continue
                n += 1
                args = None
                if x[0] == 'call':
                    args = list(x[2]) + [v for _, v in x[3]]
                ok = s.derives(x, 'other') and s.derives(
                    x, 'OR(self, super())')
                if fn and x[0] == 'call' and x[1][0] == 'attr' and x[1][
                        2].startswith('derive'):
                    ok = ok and x[1][2] == fn
                    first = args[0] if args else NONE
                    if first[0] == 'star':
                        first = first[1]
                    p = peel_num(first)
                    ok = ok and p == ('param', 'other')
                ck.ob('operator-operand', ok, s, 'multiplying expands and '
                      'dividing divides by exactly the given operand',
                      construct=s.name)
    ck.floor('operators deriving quantities', n, 8)


def total(s, got, refused_, pat):
    """the closures cover every accepted input for which pat holds"""
    cover = [g for g, _ in got]
    # type tests exclude one another
    rest = f_not(f_or(refused_, *cover))
    return not feasible_pat(s, rest, pat)


def feasible_pat(s, f, pat):
    if f is False:
        return False
    if not feasible(s, f):
        return False
    return not s.m.implies(f, 'not (%s)' % pat)


def formula(fn, ratio, t):
    if fn == 'derive_expand_mutable':
        return t[0] == 'bin' and t[1] == 'Mult' and {
            live(t[2]), live(t[3])} == {'self', ratio}
    if t[0] == 'call' and t[1][0] == 'global' and t[1][1].endswith(
            'make_divisible') and t[2]:
        if len(t[2]) > 1 and any(x[0] == 'bin' for x in walk_terms(t[2][1])):
            return False
        t = t[2][0]
        return t[0] == 'bin' and t[1] == 'FloorDiv' and live(
            t[2]) == 'self' and live(t[3]) == ratio
    return False


def live(t):
    r = t[1] if t[0] == 'attr' and t[2] == 'current_choice' else t
    return show(r) if t[0] == 'attr' or show(r) != 'self' else None


def peel_num(t):
    while t[0] == 'call' and t[1] == ('global', 'int') and t[2]:
        t = t[2][0]
    if t[0] == 'sub' and t[2] == const(0):
        t = t[1]
    return strip(t)


def check_ratio_passing(ck):
    """derive_expand/divide use the given ratio (and divisor) for both"""
    for n, p in (('derive_expand_mutable', 'expand_ratio'),
                 ('derive_divide_mutable', 'ratio')):
        s = ck.fn('DerivedMethodMixin.' + n, opaque=('make_divisible',))
        for h in s.calls('DerivedMutable(...)', top=True):
            for i, nm in enumerate(('choice_fn', 'mask_fn')):
                t = h.arg(i, nm)
                for g, cl in closures_of(s, t) if t is not None else ():
                    ok = any(s.derives(v, p) for _, v in captured(s, cl))
                    ck.ob('ratio-used', ok, h, 'the given ratio is the one '
                          'used by %s' % nm, construct=s.name)
            mf = h.arg(1, 'mask_fn')
            masked = "hasattr(self, 'current_mask')"
            if n == 'derive_divide_mutable':
                masked += ' and isinstance(self, BaseMutableChannel)'
            got = closures_of(s, mf) if mf is not None else []
            ck.ob('mask-derived', bool(got) and total(
                s, got, refused(s), masked), h, 'a source with a mask gives '
                  'a derived quantity with a mask', construct=s.name)
            got = closures_of(s, h.arg(0, 'choice_fn'))
            ck.ob('choice-derived', total(s, got, refused(s), 'True'), h,
                  'a choice function exists for every ratio accepted',
                  construct=s.name)
            ck.ob('returned', s.m.implied_by(f_or(
                h.e.guard, refused(s)), 'True') and s.derives(
                s.ret(), 'DerivedMutable(...)'), h,
                'the derived quantity is returned', construct=s.name)
            for g, cl in got:
                c = s.closure(cl)
                for k, t in split(c, c.ret(), g):
                    ck.ob('formula', formula(n, p, t), h, 'the choice is '
                          'the source choice expanded or divided by the '
                          'ratio [%s]' % show(t), construct=s.name)
        if n == 'derive_divide_mutable':
            for h in s.calls('DerivedMutable(...)', top=True):
                vals = []
                for i, nm in enumerate(('choice_fn', 'mask_fn')):
                    t = h.arg(i, nm)
                    if t is None:
                        continue
                    for g, cl in closures_of(s, t):
                        for k, v in captured(s, cl):
                            if s.derives(v, 'divisor') or v == const(1):
                                vals.append(v)
                ck.ob('divisor-used', any(s.derives(v, 'divisor')
                                          for v in vals), h,
                      'the given divisor is used', construct=s.name)
    s = ck.fn('DerivedMethodMixin.derive_same_mutable',
              opaque=('derive_expand_mutable',))
    ck.ob('same-is-same', s.match(
        s.ret(), 'OR(self.derive_expand_mutable(1), self.'
        'derive_expand_mutable(expand_ratio=1))') is not None, s,
        'deriving the same quantity expands by one')


# ------------------------------------------------------------------- class
def check_class(ck):
    D = 'DerivedMutable.'
    i = ck.fn(D + '__init__')
    for a in ('choice_fn', 'mask_fn'):
        st = i.sets('self', a)
        ck.ob('functions-kept', any(h.unconditional() and same(
            i, h.e.value, ('param', a)) for h in st) and all(same(
                i, h.e.value, ('param', a)) for h in st), i,
            'the given %s is kept' % a)
    for prop, f, lim in (('current_choice', 'self.choice_fn()', None),
                         ('current_mask', 'self.mask_fn()', 'self.mask_fn')):
        s = ck.fn(D + prop)
        lv = [(g, x) for g, x in leaves(s, s.ret())]
        ck.ob('computed-on-read', bool(lv) and all(
            s.match(x, f) is not None for g, x in lv), s,
            '%s is computed anew whenever it is read' % prop)
        ck.ob('no-cache', not changes(s) and not any(
            d and d.split('.')[-1] in ('cached_property', 'lru_cache',
                                       'cache')
            for d in decos(s.func)), s, '%s is never cached' % prop)
        w = ck.fn(D + prop + '=')
        ck.ob('read-only', w.m.equiv(refused(w), 'True') and not changes(
            w), w, 'assigning %s is refused' % prop)
    w = ck.fn(D + 'is_fixed=')
    ck.ob('read-only', w.m.equiv(refused(w), 'True') and not changes(w), w,
          'assigning is_fixed is refused')
    f = ck.fn(D + 'fix_chosen')
    ck.ob('fix-no-effect', not changes(f) and not [
        e for e in f.ev if e.kind in ('setattr', 'setitem')], f,
        'fixing a derived quantity has no effect')
    f = ck.fn(D + 'is_fixed')
    r = f.ret()
    ck.ob('fixed-all', is_all(f, r), f, 'a derived quantity is fixed exactly '
          'when all its sources are')
    f = ck.fn(D + 'export_chosen')
    ck.ob('export-current', f.match(f.ret(), 'OR(self.current_choice, self.'
                                    'choice_fn())') is not None, f,
          'the exported value is the current one')
    f = ck.fn(D + 'dump_chosen')
    d = f.find(f.ret(), 'DumpChosen(...)')
    ck.ob('export-current', any(f.derives(x, 'OR(self.current_choice, self.'
                                'choice_fn())') for x, _ in d), f,
          'the dumped value is the current one')
    check_choices(ck, ck.fn(D + 'choices'))
    check_trace(ck, i)


def decos(f):
    return [dotted(d.func if isinstance(d, ast.Call) else d)
            for d in f.node.decorator_list]


def is_all(s, r):
    """all(m.is_fixed for m in self.source_mutables), however written"""
    p = 'ELEM(HAS(self.source_mutables)).is_fixed'
    for x in s.m.forms(r):
        if s.m.match('all(COMP(%s))' % p, x) is not None:
            return True
        if s.m.match('not any(COMP(not %s))' % p, x) is not None:
            return True
    try:
        a = f_atoms(s.E.formula(r))
    except Exception:       # noqa: BLE001
        a = []
    if any(y[0] == 'call' and y[1] == ('global', 'all') and s.derives(
            y, p) for y in a):
        return True
    # loop form: return False iff some source is not fixed
    rets = s.returns()
    fl = [h for h in rets if h.e.value == FALSE]
    tr = [h for h in rets if h.e.value == TRUE]
    return bool(fl) and bool(tr) and all(
        whole_loop(s, h, 'self.source_mutables') is not None or h.e.loops
        for h in fl) and all(s.m.implies(h.e.guard, 'not ' + p)
                             for h in fl)


def check_choices(ck, s):
    p = 'self.source_mutables'
    st = [h for h in s.sets('_', 'current_choice') if s.derives(
        h.e.base, p)]
    last = [h for h in st if h.e.seq == max(x.e.seq for x in st)] \
        if st else []
    for h in last:
        reads = [x for x in s.m.deep(h.e.value) if x[0] == 'attr' and
                 x[2] == 'current_choice']
        ck.ob('choices-restore', bool(reads) and len(h.e.loops) == 1 and
              h.unconditional() and whole_loop(s, h, p) is not None, h,
              'enumerating the derived choices puts every source back to '
              'the choice it had')
        if len(st) > 1:
            first = min(st, key=lambda x: x.e.seq)
            ts = [x for t in [h.e.value] + [
                s.E.loops[l]['raw'] for l in h.e.loops] if t is not None
                for x in s.m.deep(t)]
            lids = [l for x in ts for l in (
                x[3] if x[0] == 'comp' else ())] + [
                e.loops[0] for x in ts if x[0] == 'alloc'
                for e in s.m.contents_events(x) if e.loops]
            ck.ob('choices-saved-first', bool(lids) and max(lids) <
                  first.e.loops[0], h, 'the choices put back '
                  'are read before any is changed')
    ck.ob('choices-set', any(
        h not in last and whole_loop(s, h, p) is not None and h.unconditional()
        and s.derives(h.e.value, '_.choices') for h in st), s,
        'every combination of source choices is applied')
    ck.ob('choices-collected', s.derives(
        s.ret(), 'OR(self.choice_fn(), self.current_choice)'), s,
        'the derived choices of all combinations are returned')
    for h in s.calls('_.append(OR(self.choice_fn(), self.current_choice))'):
        ck.ob('choices-collected', h.unconditional() and not any(
            s.E.loops[l]['breaks'] for l in h.e.loops), h,
            'no combination is left out')
    if st:
        # the derived value is computed after all sources were set
        calls = [h for h in s.calls('OR(self.choice_fn(), self.'
                                    'current_choice)')]
        vis = [h for h in s.calls('self.choice_fn()')]
        for h in vis:
            ck.ob('choices-each', all(
                len(x.e.loops) == len(h.e.loops) + 1 and x.e.seq < h.e.seq
                for x in st if x not in last), h,
                'each derived choice is computed after its source choices '
                'were set')


def check_trace(ck, i):
    st = i.sets('self', 'source_mutables')
    ck.need('sources-kept', [h for h in st if h.unconditional()], i,
            'the sources of a derived quantity are kept')
    for h in st:
        for g, x in leaves(i, h.e.value):
            if i.m.implies(g, 'source_mutables is None'):
                ck.ob('sources-traced', i.derives(x, 'self.'
                                                  '_trace_source_mutables()'
                                                  ) or i.derives(
                    x, 'inspect.getclosurevars(_)'), h,
                    'sources not given are traced')
            else:
                ck.ob('sources-given', i.derives(x, 'source_mutables'), h,
                      'given sources are used')
    s = ck.fn('DerivedMutable._trace_source_mutables')
    for f, cond in (('self.choice_fn', 'True'),
                    ('self.mask_fn', 'self.mask_fn is not None')):
        hs = [h for h in s.calls('inspect.getclosurevars(%s)' % f)]
        ok = any(h.when(cond) or h.when(cond.replace(' is not None', ''))
                 for h in hs)
        ck.ob('trace-both', ok, s, 'sources are traced through %s' % f)
    r = s.ret()
    ck.ob('trace-both', len({show(x[2][0]) for x in s.m.deep(r) if x[
        0] == 'call' and x[1][0] == 'global' and x[1][1].endswith(
            'getclosurevars') and x[2]}) >= 1, s,
        'the sources found are returned')
    s = ck.fn('DerivedMutable._trace_source_mutables_from_closure')
    cl = [c for c in s.closures()]
    if not cl:
        return
    for c in cl:
        q = s.closure(c)
        if not q.func:
            continue
        node = s.E.closures[c[1]][0]
        prm = node.args.args[0].arg if node.args.args else None
        if prm is None:
            continue
        isd = 'isinstance(%s, DerivedMutable)' % prm
        isb = 'isinstance(%s, BaseMutable)' % prm
        add = [h for h in q.calls('_.add(%s)' % prm)]
        ck.ob('trace-plain', any(h.when('%s and not %s' % (isb, isd))
                                 for h in add) and all(
            not q.m.implied_by(h.e.guard, isd) for h in add), q,
            'a plain searchable component is a source itself')
        up = [e for e in q.ev if any(
            q.derives(v, '%s.source_mutables' % prm) for v in list(
                e.args or ()) + [e.value] if v)]
        fin = [v for k, v in q.E.final.env.items() if v and isinstance(
            v, tuple) and q.derives(v, '%s.source_mutables' % prm)]
        ck.ob('trace-derived', bool(up) or bool(fin), q, 'a derived '
              'quantity contributes its own sources')
        rec = q.calls('%s(_x)' % c[2])
        isdict = 'isinstance(%s, dict)' % prm
        for w in ('values', 'keys'):
            ok = any(q.derives(h.e.args[0], '%s.%s()' % (prm, w)) or
                     q.derives(h.e.args[0], '%s.items()' % prm)
                     for h in rec)
            ck.ob('trace-dict', ok, q, 'the %s of a mapping are searched' %
                  w)
        it = [h for h in rec if whole_loop(q, h, prm) is not None]
        ck.ob('trace-iterable', any(q.m.implied_by(
            h.e.guard, 'isinstance(%s, Iterable) and not %s and not %s' % (
                prm, isb, isdict)) for h in it), q,
            'every element of an iterable is searched')
    nl = s.find(list(e.args[0] for e in s.ev if e.kind == 'call' and e.args
                     and s.derives(e.args[0], 'inspect.getclosurevars(_)'))[
                         0] if any(e.kind == 'call' and e.args and s.derives(
                             e.args[0], 'inspect.getclosurevars(_)')
                             for e in s.ev) else NONE, '_.nonlocals')
    ck.ob('trace-closure', bool(nl), s, 'the values captured by the '
          'function are searched')


def check_concat_fn(ck):
    s = ck.fn('DerivedMethodMixin.derive_concat_mutable')
    hs = s.calls('DerivedMutable(...)', top=True)
    ck.need('returned', [h for h in hs if s.m.implied_by(f_or(
        h.e.guard, refused(s)), 'True') or h.unconditional()], s,
        'concatenating gives a derived quantity')
    for h in hs:
        for i, (nm, rd) in enumerate((('choice_fn', 'current_choice'),
                                      ('mask_fn', 'current_mask'))):
            t = h.arg(i, nm)
            got = closures_of(s, t) if t is not None else []
            ok = len(got) == 1
            if ok:
                c = s.closure(got[0][1])
                ok = any(x[0] == 'attr' and x[2] == rd and x[1][0] == 'elem'
                         for x in c.m.deep(c.ret()))
            ck.ob('concat-reads', ok, h, '%s reads %s of each source' % (
                nm, rd), construct=s.name)
    ck.ob('derived-built', s.derives(s.ret(), 'DerivedMutable(...)'), s,
          'the derived quantity is returned')


def check_source_legal(ck):
    s = ck.fn('DerivedMutable.is_source_mutable')
    p = s.func.params()[0]
    try:
        f = s.E.formula(s.ret())
    except Exception:       # noqa: BLE001
        f = ('atom', s.ret())
    ck.ob('source-kind', s.m.equiv(f, 'isinstance(%s, BaseMutable) and not '
                                   'isinstance(%s, DerivedMutable)' % (p, p)
                                   ), s,
          'a source is a searchable component that is not derived itself')
    i = ck.fn('DerivedMutable.__init__')
    ok = any(h.e.loops and i.derives(h.e.guard_term if hasattr(
        h.e, 'guard_term') else ('form', h.e.guard), 'ELEM(_)')
        for h in i.raises() if h.e.loops)
    ck.ob('source-legal', ok, i, 'a source that is derived itself is '
          'refused')
    st = i.sets('self', 'source_mutables')
    for h in i.raises():
        if h.e.loops and st:
            ck.ob('source-legal-all', i.E.loops[h.e.loops[0]]['iter'] is
                  not None and not partial_slice(
                      i, i.E.loops[h.e.loops[0]]['iter']), h,
                  'every source is checked')


def check(ck):
    ck.sections(check_sites, check_operators, check_ratio_passing,
                check_class, check_concat_fn, check_source_legal)
