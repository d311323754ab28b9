"""Terms (provenance trees) and guards (boolean formulas over terms)."""
import itertools

SELF = ('param', 'self')


def const(v):
    return ('const', v)


NONE = const(None)
UNDEF = ('undef',)


# ---------------------------------------------------------------- guards
TRUE, FALSE = True, False


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == 'not':
        return f[1]
    return ('not', f)


def conj(f):
    """conjuncts of a formula"""
    if f is True:
        return ()
    if f is not False and f[0] == 'and':
        return f[1]
    return (f,)


def f_and(*fs):
    out = []
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        for c in conj(f):
            if c not in out:
                if f_not(c) in out:
                    return False
                out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def f_or(*fs):
    out = []
    for f in fs:
        if f is False:
            continue
        if f is True:
            return True
        for d in (f[1] if f[0] == 'or' else (f,)):
            if d not in out:
                if f_not(d) in out:
                    return True
                out.append(d)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    # factor common conjuncts
    common = [c for c in conj(out[0]) if all(c in conj(d) for d in out[1:])]
    if common:
        rest = f_or(*[f_and(*[c for c in conj(d) if c not in common])
                      for d in out])
        return f_and(*(common + [rest]))
    return ('or', tuple(out))


def f_strip(f, cs):
    """remove conjuncts cs from f"""
    if f is False:
        return f
    return f_and(*[c for c in conj(f) if c not in cs])


def f_atoms(f, acc=None):
    if acc is None:
        acc = []
    if f is True or f is False:
        return acc
    if f[0] == 'atom':
        if f[1] not in acc:
            acc.append(f[1])
    elif f[0] == 'not':
        f_atoms(f[1], acc)
    else:
        for x in f[1]:
            f_atoms(x, acc)
    return acc


def f_eval(f, val):
    if f is True or f is False:
        return f
    if f[0] == 'atom':
        return val[f[1]]
    if f[0] == 'not':
        return not f_eval(f[1], val)
    if f[0] == 'and':
        return all(f_eval(x, val) for x in f[1])
    return any(f_eval(x, val) for x in f[1])


def f_map(f, fn):
    """map atoms through fn (term -> key)"""
    if f is True or f is False:
        return f
    if f[0] == 'atom':
        r = fn(f[1])
        if r is True or r is False:
            return r
        if isinstance(r, tuple) and r and r[0] in ('atom', 'not', 'and', 'or'):
            return r
        return ('atom', r)
    if f[0] == 'not':
        return f_not(f_map(f[1], fn))
    if f[0] == 'and':
        return f_and(*[f_map(x, fn) for x in f[1]])
    return f_or(*[f_map(x, fn) for x in f[1]])


def f_implies(a, b, limit=14):
    atoms = f_atoms(a)
    for x in f_atoms(b):
        if x not in atoms:
            atoms.append(x)
    if len(atoms) > limit:
        # conjunct-wise approximation
        return all(c in conj(a) for c in conj(b))
    for vs in itertools.product((False, True), repeat=len(atoms)):
        val = dict(zip(atoms, vs))
        if f_eval(a, val) and not f_eval(b, val):
            return False
    return True


def f_equiv(a, b):
    return f_implies(a, b) and f_implies(b, a)


def f_sat(a, limit=14):
    atoms = f_atoms(a)
    if len(atoms) > limit:
        return True
    for vs in itertools.product((False, True), repeat=len(atoms)):
        if f_eval(a, dict(zip(atoms, vs))):
            return True
    return False


# ---------------------------------------------------------------- show
BIN = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//',
       'Mod': '%', 'Pow': '**', 'MatMult': '@', 'BitOr': '|', 'BitAnd': '&',
       'LShift': '<<', 'RShift': '>>', 'BitXor': '^'}


def show(t):
    """canonical text of a term: uids, versions and loop ids dropped"""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if k == 'const':
        return repr(t[1])
    if k == 'param':
        return t[1]
    if k == 'global':
        return t[1]
    if k == 'attr':
        return show(t[1]) + '.' + (t[2] if isinstance(t[2], str)
                                   else '<%s>' % show(t[2]))
    if k == 'sub':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'call':
        a = [show(x) for x in t[2]] + ['%s=%s' % (n or '**', show(v))
                                       for n, v in t[3]]
        return '%s(%s)' % (show(t[1]), ', '.join(a))
    if k == 'elem':
        return 'ELEM(%s)' % show(t[1])
    if k == 'idx':
        return 'IDX(%s)' % show(t[2])
    if k == 'bin':
        a, b = show(t[2]), show(t[3])
        return '(%s %s %s)' % (a, BIN.get(t[1], t[1]), b)
    if k == 'un':
        return '(%s %s)' % (t[1], show(t[2]))
    if k == 'cmp':
        return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if k == 'form':
        return fshow(t[1])
    if k == 'boolop':
        return '(' + (' %s ' % t[1]).join(show(x) for x in t[2]) + ')'
    if k == 'ite':
        return 'ITE(%s, %s, %s)' % (fshow(t[1]), show(t[2]), show(t[3]))
    if k == 'tuple':
        return '(%s)' % ', '.join(show(x) for x in t[1])
    if k == 'alloc':
        if t[1] == 'dict':
            return '{%s}' % ', '.join('%s: %s' % (show(a), show(b))
                                      for a, b in t[2])
        return '%s[%s]' % ('' if t[1] == 'list' else t[1],
                           ', '.join(show(x) for x in t[2]))
    if k == 'comp':
        e = show(t[2]) if not (t[1] == 'dict') else '%s: %s' % (
            show(t[2][0]), show(t[2][1]))
        c = '' if t[4] is True else ' if ' + fshow(t[4])
        return '%s[%s for*%d%s]' % (t[1], e, len(t[3]), c)
    if k == 'fstr':
        return 'f(%s)' % ', '.join(show(x) for x in t[1])
    if k == 'star':
        return '*' + show(t[1])
    if k == 'slice':
        return '%s:%s:%s' % tuple('' if x is None or x == NONE else show(x)
                                  for x in t[1:4])
    if k == 'loopvar':
        return 'LOOP(%s)' % show(t[3])
    if k == 'acc':
        return 'ACC(%s, %s, %s)' % (t[1], show(t[2]), show(t[3]))
    if k == 'closure':
        return '<closure %s>' % t[2]
    if k == 'entered':
        return 'ENTER(%s)' % show(t[1])
    if k == 'partial':
        return 'partial(%s, %s)' % (show(t[1]), ', '.join(
            [show(x) for x in t[2]] + ['%s=%s' % (n, show(v))
                                       for n, v in t[3]]))
    return '<%s>' % ' '.join(str(x) if not isinstance(x, tuple) else show(x)
                             for x in t)


def fshow(f):
    if f is True or f is False:
        return str(f)
    if f[0] == 'atom':
        return show(f[1])
    if f[0] == 'not':
        return 'not ' + fshow(f[1])
    return '(' + (' %s ' % f[0]).join(fshow(x) for x in f[1]) + ')'


def subterms(t):
    """direct sub terms (formulas are entered through their atoms)"""
    k = t[0]
    if k in ('const', 'param', 'global', 'undef', 'unk', 'closure', 'exc',
             'loopret'):
        return ()
    if k == 'attr':
        return (t[1],) + ((t[2],) if isinstance(t[2], tuple) else ())
    if k == 'sub':
        return (t[1], t[2])
    if k == 'call':
        return (t[1],) + t[2] + tuple(v for _, v in t[3])
    if k in ('elem', 'star', 'entered'):
        return (t[1],)
    if k == 'idx':
        return (t[2],)
    if k in ('bin', 'cmp'):
        return (t[2], t[3])
    if k == 'un':
        return (t[2],)
    if k == 'form':
        return tuple(f_atoms(t[1]))
    if k == 'boolop':
        return t[2]
    if k == 'ite':
        return tuple(f_atoms(t[1])) + (t[2], t[3])
    if k in ('tuple', 'fstr'):
        return t[1]
    if k == 'alloc':
        if t[1] == 'dict':
            return tuple(y for x in t[2] for y in x)
        return t[2]
    if k == 'comp':
        e = t[2] if t[1] == 'dict' else (t[2],)
        return tuple(e) + tuple(f_atoms(t[4]))
    if k == 'slice':
        return tuple(x for x in t[1:4] if x)
    if k == 'loopvar':
        return (t[3],)
    if k == 'acc':
        return (t[2], t[3])
    if k == 'partial':
        return (t[1],) + t[2] + tuple(v for _, v in t[3])
    if k == 'not':
        return (t[1],)
    return ()


def tmap(t, fn):
    """rebuild term bottom up; fn(term) may return replacement"""
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    g = lambda x: tmap(x, fn)
    gf = lambda f: f_map(f, lambda a: g(a))
    if k == 'attr':
        r = (k, g(t[1]), t[2] if isinstance(t[2], str) else g(t[2]), t[3])
    elif k == 'sub':
        r = (k, g(t[1]), g(t[2]), t[3])
    elif k == 'call':
        r = (k, g(t[1]), tuple(map(g, t[2])),
             tuple((n, g(v)) for n, v in t[3]), t[4])
    elif k == 'elem':
        r = (k, g(t[1]), t[2])
    elif k in ('star', 'entered'):
        r = (k, g(t[1])) + t[2:]
    elif k == 'idx':
        r = (k, t[1], g(t[2]))
    elif k in ('bin', 'cmp'):
        r = (k, t[1], g(t[2]), g(t[3]))
    elif k == 'un':
        r = (k, t[1], g(t[2]))
    elif k == 'form':
        r = (k, gf(t[1]))
    elif k == 'boolop':
        r = (k, t[1], tuple(map(g, t[2])))
    elif k == 'ite':
        r = (k, gf(t[1]), g(t[2]), g(t[3]))
    elif k in ('tuple', 'fstr'):
        r = (k, tuple(map(g, t[1])))
    elif k == 'alloc':
        if t[1] == 'dict':
            r = (k, t[1], tuple((g(a), g(b)) for a, b in t[2]), t[3])
        else:
            r = (k, t[1], tuple(map(g, t[2])), t[3])
    elif k == 'comp':
        e = tuple(map(g, t[2])) if t[1] == 'dict' else g(t[2])
        r = (k, t[1], e, t[3], gf(t[4]), t[5])
    elif k == 'slice':
        r = (k,) + tuple(g(x) if x else x for x in t[1:4])
    elif k == 'loopvar':
        r = (k, t[1], t[2], g(t[3]))
    elif k == 'acc':
        r = (k, t[1], g(t[2]), g(t[3]), t[4])
    elif k == 'partial':
        r = (k, g(t[1]), tuple(map(g, t[2])),
             tuple((n, g(v)) for n, v in t[3]))
    else:
        r = t
    return fn(r)


def strip(t):
    """drop call ids, versions; keep loop identity"""
    def fn(x):
        if x[0] == 'call':
            return x[:4] + (0,)
        if x[0] in ('attr', 'sub'):
            return x[:3] + (0,)
        return x
    return tmap(t, fn)


def walk(t):
    st = [t]
    while st:
        x = st.pop()
        yield x
        st.extend(subterms(x))
