"""Canonical form of arithmetic terms: sums of products of atoms.

Two terms with the same canonical form are equal for every value of their
atoms (over the rationals); atoms are the subterms that are not arithmetic,
optionally renamed by patterns."""
from fractions import Fraction

from .common import *

SYM = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/'}
FNS = {'int', 'float', 'abs', 'round', 'max', 'min', 'len', 'sum',
       'math.ceil', 'math.floor', 'math.sqrt', 'math.exp', 'math.log',
       'torch.exp', 'torch.log', 'torch.pow', 'torch.abs', 'abs'}


def padd(p, q, k=1):
    out = dict(p)
    for m, c in q.items():
        out[m] = out.get(m, 0) + c * k
    return {m: c for m, c in out.items() if c}


def pmul(p, q):
    out = {}
    for m, c in p.items():
        for n, d in q.items():
            e = dict(m)
            for a, x in n:
                e[a] = e.get(a, 0) + x
            k = tuple(sorted((a, x) for a, x in e.items() if x))
            out[k] = out.get(k, 0) + c * d
    return {m: c for m, c in out.items() if c}


def canon(p):
    """hashable, printable form"""
    out = []
    for m, c in sorted(p.items(), key=lambda x: str(x[0])):
        out.append('%s%s' % (c, ''.join('*%s%s' % (
            a, '' if x == 1 else '^%s' % x) for a, x in m)))
    return ' + '.join(out) or '0'


def atom(a):
    return {((a, 1),): Fraction(1)}


def number(v):
    v = Fraction(v).limit_denominator(10 ** 15) if isinstance(
        v, float) else Fraction(v)
    return {(): v} if v else {}


def pinv(p):
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((a, -x) for a, x in m): 1 / c}
    return {(('(%s)' % canon(p), -1),): Fraction(1)}


def ppow(p, n):
    out = number(1)
    for _ in range(abs(n)):
        out = pmul(out, p)
    return out if n >= 0 else pinv(out)


class Arith:
    """canonical forms of a summary's terms, named atoms first"""

    def __init__(self, s, names=(), subst=()):
        self.s = s
        self.names = list(dict(names).items())
        self.subst = dict(subst)        # atom name -> canonical polynomial

    def named(self, t):
        for x in self.s.m.forms(t):
            for n, p in self.names:
                if callable(p):
                    if p(x):
                        return n
                elif self.s.m.match(p, x) is not None:
                    return n
        return None

    def atom(self, n):
        return self.subst.get(n) or atom(n)

    def fn(self, name, args):
        if name in ('max', 'min'):
            ks = sorted({canon(a) for a in args})
        else:
            ks = [canon(a) for a in args]
        name = name.split('.')[-1]
        if name in ('abs',) and args:
            # |x| == |-x|
            ks = [min(canon(args[0]), canon(pmul(args[0], number(-1))))]
        return atom('%s(%s)' % (name, ', '.join(ks)))

    def of(self, t, depth=0):
        s = self.s
        n = self.named(t)
        if n is not None:
            return self.atom(n)
        fs = list(s.m.forms(t))
        f = fs[-1]
        if depth < 40:
            if f[0] == 'const' and isinstance(
                    f[1], (int, float)) and not isinstance(f[1], bool):
                return number(f[1])
            if f[0] == 'un' and f[1] in ('USub', 'UAdd'):
                return pmul(self.of(f[2], depth + 1), number(
                    -1 if f[1] == 'USub' else 1))
            if f[0] == 'bin':
                a, b = f[2], f[3]
                if f[1] in ('Add', 'Sub', 'Mult', 'Div'):
                    a, b = self.of(a, depth + 1), self.of(b, depth + 1)
                    if f[1] == 'Add':
                        return padd(a, b)
                    if f[1] == 'Sub':
                        return padd(a, b, -1)
                    if f[1] == 'Mult':
                        return pmul(a, b)
                    return pmul(a, pinv(b))
                if f[1] == 'Pow' and b[0] == 'const' and isinstance(
                        b[1], int) and abs(b[1]) < 9:
                    return ppow(self.of(a, depth + 1), b[1])
                return atom('%s[%s, %s]' % (f[1], canon(self.of(
                    a, depth + 1)), canon(self.of(b, depth + 1))))
            if f[0] == 'call' and f[1][0] == 'global' and not f[3] and \
                    f[1][1] in FNS:
                return self.fn(f[1][1], [self.of(x, depth + 1)
                                         for x in f[2]])
        for x in fs:
            return atom(show(strip(x if x[0] == 'attr' else f)))

    def diff(self, a):
        """(operator, lhs - rhs) of a comparison atom"""
        if a[0] != 'cmp' or a[1] not in ('<', '=='):
            return None
        return a[1], padd(self.of(a[2]), self.of(a[3]), -1)

    def decide(self, f):
        """formula with the comparisons the canonical forms settle"""
        def fn(a):
            d = self.diff(a)
            if d is not None and all(m == () for m in d[1]):
                c = d[1].get((), 0)
                return c < 0 if d[0] == '<' else c == 0
            return ('atom', a)
        return f_map(self.s.m.norm(f), fn)

    def same(self, t, u):
        """u: polynomial or python expression over atom names"""
        if isinstance(u, str):
            u = expr(u, self)
        return canon(self.of(t)) == canon(u)


def expr(text, ar=None):
    """polynomial of a python expression over atom names"""
    import ast

    def ev(n):
        if isinstance(n, ast.Constant):
            return number(n.value)
        if isinstance(n, ast.Name):
            return ar.atom(n.id) if ar else atom(n.id)
        if isinstance(n, ast.UnaryOp):
            return pmul(ev(n.operand), number(-1))
        if isinstance(n, ast.BinOp):
            a, b = ev(n.left), ev(n.right)
            k = type(n.op).__name__
            if k == 'Add':
                return padd(a, b)
            if k == 'Sub':
                return padd(a, b, -1)
            if k == 'Mult':
                return pmul(a, b)
            if k == 'Div':
                return pmul(a, pinv(b))
            if k == 'Pow':
                return ppow(a, n.right.value)
            return atom('%s[%s, %s]' % (k, canon(a), canon(b)))
        if isinstance(n, ast.Call):
            return (ar or Arith(None)).fn(ast.unparse(n.func), [
                ev(x) for x in n.args])
        raise ValueError(ast.dump(n))
    return ev(ast.parse(text, mode='eval').body)


def cases(s, t, g=True, depth=0):
    """[(guard, value)]: the values a term may have, conditional updates
    and arithmetic over them included"""
    f = list(s.m.forms(t))[-1]
    if depth > 14:
        return [(g, t)]
    if f[0] == 'ite':
        out = []
        for h, x in ((f_and(g, f[1]), f[2]), (f_and(g, f_not(f[1])), f[3])):
            if feasible(s, h):
                out += cases(s, x, h, depth + 1)
        return out
    if f[0] == 'bin':
        return [(h2, ('bin', f[1], a, b))
                for h, a in cases(s, f[2], g, depth + 1)
                for h2, b in cases(s, f[3], h, depth + 1)]
    if f[0] == 'un':
        return [(h, ('un', f[1], a)) for h, a in cases(s, f[2], g,
                                                       depth + 1)]
    if f[0] == 'call' and len(f[2]) == 1 and not f[3] and (
            f[1][0] == 'global' or f[1][0] == 'attr' and not any(
                x[0] == 'ite' for x in walk(f[1]))) and any(
                x[0] == 'ite' for x in walk(f[2][0])):
        return [(h, ('call', f[1], (a,), (), f[4]))
                for h, a in cases(s, f[2][0], g, depth + 1)]
    return [(g, t)]


def stored(s, t, g=True):
    """[(guard, key, value, entry)] a mapping finally holds: of the stores
    under one key the last that happens counts; values computed from what
    was stored before are resolved"""
    es = [e for e in entries(s, t, g)]
    tops = {strip(x) for x in s.m.forms(t)}

    def old(x, key):
        return x[0] == 'sub' and same(s, x[2], key) and bool(
            {strip(y) for y in s.m.bases(x[1])} & tops)

    def upto(n, key, loops, depth=0):
        out = []
        mine = [e for e in es[:n] if e.key is not None and
                same(s, e.key, key) and e.loops == loops]
        for i, e in enumerate(mine):
            h = f_and(e.guard, *[f_not(x.guard) for x in mine[i + 1:]])
            if not feasible(s, h):
                continue
            val = full(s, e.value)
            vals = [(h, val)]
            if depth < 5 and any(old(x, key) for x in walk(val)):
                vals = [(f_and(h, h2), tmap(val, lambda x: v if old(
                    x, key) else x)) for h2, v, _ in upto(
                        es.index(e), key, loops, depth + 1)]
            for h1, v in vals:
                for h2, w in cases(s, v, h1):
                    if feasible(s, h2):
                        out.append((h2, w, e))
        return out

    out, done = [], []
    for e in es:
        if e.key is None or any(same(s, e.key, k) and l == e.loops
                                for k, l in done):
            continue
        done.append((e.key, e.loops))
        out += [(h, e.key, v, x) for h, v, x in upto(
            len(es), e.key, e.loops)]
    return out
