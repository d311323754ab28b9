"""Helpers shared by property specifications."""
import ast

from ..terms import *
from ..prog import BrokenAnalysis, Class, Func, dotted, walk_own
from ..rules import Hit, Summary


def resolver(ck, *summs):
    """term -> term with self.X replaced by the value assigned in the first of
    the summaries that assigns it (deeply), forms looked through."""
    finals = []
    for s in summs:
        if s is None:
            continue
        d = {}
        for e in s.ev:
            if e.kind == 'setattr' and e.base == SELF and isinstance(
                    e.attr, str):
                d[e.attr] = (e.value, s)
        finals.append(d)

    def res(t, s, depth=0):
        def fn(x):
            if x[0] in ('call', 'attr', 'sub') and x[-1]:
                v = (s.E.value if x[0] == 'call' else s.E.ver).get(x[-1])
                if v is not None and depth < 6:
                    return res(v, s, depth + 1)
            if x[0] == 'attr' and x[1] == SELF and isinstance(x[2], str):
                for d in finals:
                    if x[2] in d and depth < 6:
                        v, vs = d[x[2]]
                        if strip(v) != strip(x):
                            return res(v, vs, depth + 1)
            return x
        return tmap(t, fn)
    return res


def deep_show(ck, s, t, *others):
    return show(resolver(ck, s, *others)(t, s))


def concrete(ck, base):
    """project classes below base that are instantiable (no abstract left)"""
    out = []
    for c in ck.prog.subclasses(base):
        abstract = set()
        for k in reversed(ck.prog.mro(c)):
            if isinstance(k, Class):
                for n, f in k.methods.items():
                    if f.has_deco('abstractmethod'):
                        abstract.add(n)
                    else:
                        abstract.discard(n)
        if not abstract:
            out.append(c)
    return out


def module_of(ck, suffix):
    for n, m in ck.prog.modules.items():
        if n == suffix or n.endswith('.' + suffix):
            return m
    raise BrokenAnalysis('%s: module %s not found' % (ck.prop, suffix))


def full(s, t, depth=0):
    """term with the results of analysed calls in place of the calls"""
    def fn(x):
        if x[0] == 'call' and depth < 12:
            v = s.E.value.get(x[-1])
            if v is not None:
                return full(s, v, depth + 1)
        return x
    return tmap(t, fn)


def init_defaults(func):
    """param -> default AST node"""
    a = func.node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]],
                 a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults)
              if v is not None})
    return d


def seq(a, b):
    return strip(a) == strip(b) or show(a) == show(b)


def peel_noop(s, t):
    """drop clone-free wrappers list()/tuple()"""
    while t[0] == 'call' and t[1][0] == 'global' and t[1][1] in (
            'list', 'tuple') and len(t[2]) == 1:
        t = t[2][0]
    return t


def same(s, a, b):
    """some form of a equals some form of b (ids ignored)"""
    A = {show(x) for x in s.m.forms(a)}
    return any(show(x) in A for x in s.m.forms(b))


def partial_slice(s, t):
    """t takes only a part of some sequence"""
    return any(x[0] == 'slice' and (x[1] != NONE or x[2] != NONE)
               for x in s.m.deep(t))


def whole_loop(s, h, pat):
    """h runs for every element of the collection matching pat (found
    anywhere in the iterated term): no break, no continue or filter before,
    no partial slice.  -> loop id or None"""
    for l in h.e.loops:
        L = s.E.loops[l]
        it = L['raw'] if L['raw'] is not None else L['iter']
        if it is None or not (s.derives(it, pat) or (
                L['iter'] is not None and s.derives(L['iter'], pat))):
            continue
        if L['breaks'] or partial_slice(s, it):
            return None
        return l
    return None


NOGRAD = 'OR(torch.no_grad(), torch.inference_mode())'


def no_grad(h):
    """the event runs without gradient tracking"""
    return h.in_scope(NOGRAD) or h.in_scope('torch.set_grad_enabled(False)')


def into(s, t, pat):
    """events storing something deriving from pat into containers reachable
    from t (update/setitem/append...)"""
    out = []
    for x in s.m.deep(t):
        if x[0] == 'alloc':
            for e in s.m.contents_events(x):
                vals = list(e.args) + [v for _, v in e.kwargs] \
                    if e.kind == 'call' else [e.value]
                if any(s.derives(v, pat) for v in vals):
                    out.append(Hit(s, e, {}))
    return out


def feasible(s, h):
    """the guard can hold (a true attribute exists)"""
    if h is False:
        return False
    if h is True:
        return True
    has = [a for a in f_atoms(h) if a[0] == 'call' and
           a[1] == ('global', 'hasattr') and len(a[2]) == 2 and
           a[2][1][0] == 'const']
    for a in has:
        for x in f_atoms(h):
            if x[0] == 'attr' and x[2] == a[2][1][1] and \
                    strip(x[1]) == strip(a[2][0]):
                h = f_and(h, f_or(f_not(('atom', x)), ('atom', a)))
    isi = [a for a in f_atoms(h) if a[0] == 'call' and a[1] ==
           ('global', 'isinstance') and len(a[2]) == 2 and
           a[2][1][0] == 'global' and (a[2][1][1] in EXCL or
                                       '.' in a[2][1][1])]
    for i, a in enumerate(isi):
        for b in isi[i + 1:]:
            if strip(a[2][0]) == strip(b[2][0]) and a[2][1] != b[2][1] and (
                    a[2][1][1] in EXCL or b[2][1][1] in EXCL) and not any(
                    k[2][1][1].endswith('Iterable') for k in (a, b)):
                h = f_and(h, f_not(f_and(('atom', a), ('atom', b))))
    return h is not False and not f_implies(s.m.skey(h), False)


EXCL = ('int', 'float', 'str', 'list', 'tuple', 'dict', 'set')


def leaves(s, t, g=True):
    """[(guard, term)] of nested conditional terms, forms looked through"""
    for f in s.m.forms(t):
        if f[0] == 'ite':
            out = []
            for h, x in ((f_and(g, f[1]), f[2]), (f_and(g, f_not(f[1])),
                                                  f[3])):
                if feasible(s, h):
                    out += leaves(s, x, h)
            return out
    return [(g, t)]


def jointly(hits):
    return f_or(*[h.e.guard for h in hits])


def prefix_updates(s, pat, prefix):
    """stores into the returned mapping of add_prefix(pat, prefix)"""
    return into(s, s.ret(), "add_prefix(%s, '%s')" % (pat, prefix))


def classes_with(ck, base, meth):
    """concrete subclasses of base (included) in which meth is defined"""
    b = ck.cls(base)
    return [c for c in ck.prog.subclasses(b) if meth in c.methods]


def super_first(ck, s):
    return s.calls('super().__init__(...)')


def ite(c, x, y):
    if c is True or x == y:
        return x
    if c is False:
        return y
    if c[0] == 'not':
        return ('ite', c[1], y, x)
    return ('ite', c, x, y)


TRUE, FALSE = const(True), const(False)


def refused(s, before=None, own=False):
    """formula: the function raises (before event `before`)"""
    out = []
    for h in s.raises():
        if h.e.loops or (before is not None and h.e.seq > before.e.seq):
            continue
        if own and len(h.e.frames) > 1:
            continue
        if h.e.kind == 'raise':
            out.append(h.e.guard)
        else:
            c = h.e.value[1]
            out.append(f_and(h.e.guard, f_not(c)))
    return f_or(*out)


def refuses(s, pat, before=None):
    """whenever the guard pattern holds the function raises before"""
    return s.m.implied_by(refused(s, before), pat)


def member_checks(s, before=None):
    """[(element, collection)] such that the function raises unless the
    element is in the collection"""
    R = refused(s, before)
    out = []
    for a in f_atoms(R):
        if not f_implies(s.m.skey(f_not(('atom', a))), s.m.skey(R)):
            continue
        if a[0] == 'cmp' and a[1] == 'in':
            out.append((a[2], a[3]))
        if a[0] == 'call' and a[1][0] == 'attr' and a[1][2] == 'issubset' \
                and a[2]:
            x = a[1][1]
            if x[0] == 'call' and x[1] == ('global', 'set') and x[2]:
                x = x[2][0]
            y = a[2][0]
            if y[0] == 'call' and y[1] == ('global', 'set') and y[2]:
                y = y[2][0]
            out.append((x, y))
        if a[0] == 'cmp' and a[1] in ('le', '<='):
            out.append((a[2], a[3]))
    return out


class Entry:
    """one (guarded, looped) entry of a mapping or collection value"""
    __slots__ = ('s', 'guard', 'key', 'value', 'loops', 'hit', 'base')

    def __init__(self, s, guard, key, value, loops, hit, base=False):
        self.s, self.guard, self.key, self.value = s, guard, key, value
        self.loops, self.hit, self.base = loops, hit, base

    def __repr__(self):
        return '<%s: %s | %s %s%s>' % (show(self.key) if self.key else '-',
                                       show(self.value), fshow(self.guard),
                                       self.loops, ' base' if self.base
                                       else '')

    @property
    def where(self):
        return self.hit.where if self.hit is not None else self.s.where


def entries(s, t, g=True, depth=0, hit=None, loops=()):
    """entries of a mapping value: literal items, item stores, updates and
    comprehension items, copies of templates (marked base)"""
    out = []
    if depth > 6:
        return out
    fs = list(s.m.forms(t))
    for f in fs:
        if f[0] == 'ite':
            return entries(s, f[2], f_and(g, f[1]), depth + 1, hit, loops) + \
                entries(s, f[3], f_and(g, f_not(f[1])), depth + 1, hit,
                        loops)
    f = fs[-1]
    if f[0] == 'comp':
        if f[1] == 'dict':
            out.append(Entry(s, f_and(g, f[4]), f[2][0], f[2][1],
                             loops + f[3], hit))
    elif f[0] == 'alloc' and f[1] == 'dict':
        for k, v in f[2]:
            if k is None or k == NONE or k[0] == 'star':
                out += entries(s, v, g, depth + 1, hit, loops)
            else:
                out.append(Entry(s, g, k, v, loops, hit))
    elif f[0] == 'call' and f[1][0] == 'global' and f[1][1].split('.')[
            -1] in ('deepcopy', 'copy', 'dict', 'OrderedDict', 'Dict',
                    'ParameterDict', 'ModuleDict'):
        for a in f[2][:1]:
            for e in entries(s, a, g, depth + 1, hit, loops):
                e.base = True
                out.append(e)
        for k, v in f[3]:
            out.append(Entry(s, g, const(k), v, loops, hit))
    tops = {strip(x) for x in fs}
    for e in s.ev:
        if e.kind == 'setitem' and isinstance(e.attr, tuple):
            if {strip(x) for x in s.m.bases(e.base)} & tops:
                out.append(Entry(s, f_and(g, e.guard), e.attr, e.value,
                                 tuple(e.loops), Hit(s, e, {})))
        elif e.kind == 'call' and e.func[0] == 'attr' and e.func[2] in (
                'update', 'setdefault') and {strip(x) for x in s.m.bases(
                    e.func[1])} & tops:
            if e.func[2] == 'setdefault':
                if len(e.args) > 1:
                    out.append(Entry(s, f_and(g, e.guard), e.args[0],
                                     e.args[1], tuple(e.loops),
                                     Hit(s, e, {}), True))
                continue
            for a in e.args[:1]:
                out += entries(s, a, f_and(g, e.guard), depth + 1,
                               Hit(s, e, {}), tuple(e.loops))
            for k, v in e.kwargs:
                out.append(Entry(s, f_and(g, e.guard), const(k), v,
                                 tuple(e.loops), Hit(s, e, {})))
    return out


def whole(s, lid):
    """the loop visits every element of what it iterates"""
    L = s.E.loops[lid]
    it = L['raw'] if L['raw'] is not None else L['iter']
    return not L['breaks'] and (it is None or not partial_slice(s, it))


def over(s, lid, *pats):
    L = s.E.loops[lid]
    for it in (L['raw'], L['iter']):
        if it is not None and any(s.derives(it, p) for p in pats):
            return True
    return False


def given(s, f, name, value):
    """formula with comparisons of a parameter decided for a constant"""
    def fn(a):
        if a[0] == 'cmp' and a[1] in ('==', 'in'):
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                if x == ('param', name):
                    if a[1] == '==' and y[0] == 'const':
                        return y[1] == value
                    if a[1] == 'in' and x is a[2] and y[0] in (
                            'alloc', 'tuple'):
                        ks = y[2] if y[0] == 'alloc' else y[1]
                        if all(k[0] == 'const' for k in ks):
                            return any(k[1] == value for k in ks)
        return ('atom', a)
    return f_map(s.m.norm(f), fn)


def case(s, f, d):
    """formula under an assignment {atom pattern: bool}"""
    def fn(a):
        for p, v in d.items():
            if s.m.match(p, a) is not None:
                return v
        return ('atom', a)
    return f_map(s.m.norm(f), fn)


class Item:
    """an element of a collection under construction"""

    def __init__(self, s, guard, value, loops, hit=None):
        self.s, self.guard, self.value = s, guard, value
        self.loops, self.hit = loops, hit

    def every(self, given=True):
        """added for each element of the loops it stands in, whenever
        `given` holds"""
        return f_implies(given, self.guard) and all(
            whole(self.s, l) for l in self.loops)

    def over(self, *pats):
        return bool(self.loops) and any(
            over(self.s, l, *pats) for l in self.loops)


ADDERS = ('append', 'add', 'extend', 'update', 'appendleft', 'insert')


def listed(s, t):
    """items of the collections a term is made of: literals,
    comprehensions, elements appended or added one by one"""
    out = []
    seen = set()
    for x in s.m.deep(t):
        if x in seen:
            continue
        seen.add(x)
        if x[0] == 'comp' and x[1] != 'dict':
            out.append(Item(s, x[4], x[2], tuple(x[3])))
        elif x[0] == 'alloc' and x[1] in ('list', 'set', 'tuple'):
            for v in x[2]:
                out.append(Item(s, True, v, ()))
    tops = {strip(x) for x in seen if x[0] in ('alloc', 'call')}
    for e in s.ev:
        if e.kind == 'call' and e.func[0] == 'attr' and e.func[2] in ADDERS:
            at = {strip(x) for x in s.m.bases(e.func[1])} & tops
            if at and e.args:
                out.append(Item(s, e.guard, e.args[-1], tuple(e.loops),
                                Hit(s, e, {})))
    return out



def unfold(s, f):
    """formula with predicates the analysis has run replaced by what they
    return"""
    def fn(a):
        if a[0] in ('call', 'attr', 'sub'):
            t = full(s, a)
            if t[0] in ('form', 'boolop', 'cmp', 'not') or (
                    t[0] == 'const' and isinstance(t[1], bool)):
                g = s.E.formula(t)
                if g != ('atom', a):
                    return unfold(s, g)
        return ('atom', a)
    return f_map(f, fn)


def spread(f):
    """comparisons of a conditional value, case by case"""
    def fn(a):
        if a[0] == 'cmp' and len(a) == 4:
            op, l, r = a[1], a[2], a[3]
            for i, x in ((2, l), (3, r)):
                if x[0] == 'ite':
                    def one(v):
                        b = list(a)
                        b[i] = v
                        return spread(('atom', tuple(b)))
                    return f_or(f_and(spread(x[1]), one(x[2])),
                                f_and(f_not(spread(x[1])), one(x[3])))
            if op == 'is' and l[0] == r[0] == 'const':
                return l[1] is r[1]
        return ('atom', a)
    return f_map(f, fn)
