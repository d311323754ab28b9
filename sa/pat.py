"""Patterns over terms, guards and events."""
import ast
import functools
import re

from .terms import *


WILD = re.compile(r'_[a-z]\d?$')


@functools.lru_cache(maxsize=None)
def parse(p):
    return ast.parse(p, mode='eval').body


def dotted_pat(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted_pat(n.value)
        return None if b is None else b + '.' + n.attr
    return None


class Matcher:
    def __init__(self, ev):
        self.E = ev

    # ---- forms
    def forms(self, t, depth=0):
        yield t
        if depth > 8:
            return
        k = t[0]
        n = None
        if k == 'call':
            n = self.E.value.get(t[4])
        elif k in ('attr', 'sub') and t[3]:
            n = self.E.ver.get(t[3])
        elif k == 'entered':
            n = t[1]
        if n is not None and n != t:
            yield from self.forms(n, depth + 1)

    def deep(self, t, limit=4000):
        """all subterms, looking through forms"""
        seen = set()
        st = [t]
        while st and limit:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            limit -= 1
            yield x
            for y in self.forms(x):
                if y is not x:
                    st.append(y)
            st.extend(subterms(x))
            if x[0] == 'loopvar':
                s = self.E.steps.get((x[2], x[1]))
                if s is not None:
                    st.append(s)
            if x[0] == 'comp':
                for l in x[3]:
                    it = self.E.loops[l]['iter']
                    if it is not None:
                        st.append(it)
            if x[0] == 'alloc':
                for e in self.contents_events(x):
                    if e.kind == 'call':
                        st.extend(e.args)
                        st.extend(v for _, v in e.kwargs)
                    else:
                        st.append(e.value)
                        if isinstance(e.attr, tuple):
                            st.append(e.attr)

    def contents_events(self, a):
        idx = getattr(self.E, '_alloc_idx', None)
        if idx is None or idx[0] != len(self.E.events):
            d = {}
            for e in self.E.events:
                b = None
                if e.kind == 'call' and e.func[0] == 'attr' and e.func[2] in (
                        'append', 'extend', 'update', 'insert', 'add',
                        'setdefault', 'appendleft'):
                    b = e.func[1]
                elif e.kind == 'setitem':
                    b = e.base
                if b is None:
                    continue
                for f in self.bases(b):
                    if f[0] == 'alloc':
                        d.setdefault(f[3], []).append(e)
            idx = self.E._alloc_idx = (len(self.E.events), d)
        return idx[1].get(a[3], [])

    def bases(self, b):
        out = []
        for f in self.forms(b):
            out.append(f)
            if f[0] == 'loopvar':
                out.append(f[3])
            if f[0] == 'ite':
                out.extend(f[2:])
        return out

    # ---- matching
    def match(self, p, t, b=None):
        """p: pattern string or AST; returns bindings dict or None"""
        if isinstance(p, str):
            p = parse(p)
        b = {} if b is None else b
        for f in self.forms(t):
            r = self._m(p, f, dict(b))
            if r is not None:
                return r
        return None

    def _m(self, p, t, b):
        if isinstance(p, ast.Name):
            n = p.id
            if n == '_':
                return b
            if WILD.match(n):
                k = show(t)
                if n in b:
                    return b if show(b[n]) == k else None
                b[n] = t
                return b
            if t[0] == 'param' and t[1] == n:
                return b
            if t[0] == 'global' and (t[1] == n or t[1].endswith('.' + n)):
                return b
            if t[0] == 'closure' and t[2] == n:
                return b
            return None
        if isinstance(p, ast.Constant):
            if t[0] == 'const' and type(t[1]) is type(p.value) and \
                    t[1] == p.value:
                return b
            return None
        if isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.USub) and \
                isinstance(p.operand, ast.Constant):
            return b if t == ('const', -p.operand.value) else None
        if isinstance(p, ast.UnaryOp) and not isinstance(p.op, ast.Not):
            if t[0] == 'un' and t[1] == type(p.op).__name__:
                return self.match(p.operand, t[2], b)
            return None
        if isinstance(p, ast.Attribute):
            if t[0] == 'global':
                d = dotted_pat(p)
                if d is not None and (t[1] == d or t[1].endswith('.' + d)):
                    return b
            if t[0] == 'attr':
                if p.attr == '_':
                    return self.match(p.value, t[1], b)
                if t[2] == p.attr:
                    return self.match(p.value, t[1], b)
            return None
        if isinstance(p, ast.Subscript):
            if t[0] == 'sub':
                r = self.match(p.value, t[1], b)
                return None if r is None else self.match(p.slice, t[2], r)
            return None
        if isinstance(p, ast.Slice):
            if t[0] != 'slice':
                return None
            for q, x in zip((p.lower, p.upper, p.step), t[1:4]):
                if q is None:
                    if x != NONE:
                        return None
                    continue
                b = self.match(q, x, b)
                if b is None:
                    return None
            return b
        if isinstance(p, ast.Call):
            if isinstance(p.func, ast.Name):
                sp = getattr(self, 'p_' + p.func.id, None)
                if sp is not None:
                    return sp(p.args, t, b)
            if t[0] != 'call':
                return None
            r = self.match(p.func, t[1], b)
            if r is None:
                return None
            return self.margs(p, t, r)
        if isinstance(p, ast.BinOp):
            if t[0] != 'bin' or t[1] != type(p.op).__name__:
                return None
            r = self.match(p.left, t[2], b)
            if r is not None:
                r = self.match(p.right, t[3], r)
                if r is not None:
                    return r
            if t[1] in ('Add', 'Mult'):
                r = self.match(p.left, t[3], b)
                if r is not None:
                    return self.match(p.right, t[2], r)
            return None
        if isinstance(p, ast.Tuple):
            if t[0] != 'tuple' or len(t[1]) != len(p.elts):
                return None
            for q, x in zip(p.elts, t[1]):
                b = self.match(q, x, b)
                if b is None:
                    return None
            return b
        if isinstance(p, (ast.List, ast.Set)):
            if t[0] != 'alloc' or t[1] == 'dict' or len(t[2]) != len(p.elts):
                return None
            for q, x in zip(p.elts, t[2]):
                b = self.match(q, x, b)
                if b is None:
                    return None
            return b
        if isinstance(p, ast.Dict):
            if t[0] != 'alloc' or t[1] != 'dict':
                return None
            if not p.keys:
                return b if not t[2] else None
            for k, v in zip(p.keys, p.values):
                for tk, tv in t[2]:
                    r = self.match(k, tk, b)
                    if r is not None:
                        r = self.match(v, tv, r)
                        if r is not None:
                            b = r
                            break
                else:
                    return None
            return b
        if isinstance(p, ast.Starred):
            return self.match(p.value, t[1], b) if t[0] == 'star' else None
        if isinstance(p, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
            if t[0] == 'cmp' and isinstance(p, ast.Compare):
                return self.m_cmp(p, t, b)
            if t[0] in ('form', 'boolop'):
                f = t[1] if t[0] == 'form' else self.E.formula(t)
                return b if self.equiv(f, p) else None
            return None
        raise ValueError('pattern %s' % ast.dump(p))

    def margs(self, p, t, b):
        pos = list(p.args)
        rest = any(isinstance(a, ast.Constant) and a.value is Ellipsis
                   for a in pos)
        pos = [a for a in pos if not (isinstance(a, ast.Constant) and
                                      a.value is Ellipsis)]
        args = list(t[2])
        kws = dict((k, v) for k, v in t[3] if k)
        dst = [v for k, v in t[3] if k is None]
        cal = self.E.callee.get(t[4])
        names = None
        if cal is not None:
            names = cal.params()
            if cal.cls is not None and not cal.has_deco('staticmethod'):
                names = names[1:]
                if t[1][0] == 'global' and not cal.has_deco('classmethod'):
                    names = cal.params()
        used_kw = set()
        nextpos = 0
        for i, q in enumerate(pos):
            if i < len(args):
                x = args[i]
                nextpos = i + 1
            elif names and i < len(names) and names[i] in kws:
                x = kws[names[i]]
                used_kw.add(names[i])
            else:
                return None
            b = self.match(q, x, b)
            if b is None:
                return None
        used_pos = set(range(nextpos))
        for k in p.keywords:
            if k.arg is None:
                if not dst:
                    return None
                b = self.match(k.value, dst[0], b)
                if b is None:
                    return None
                dst = dst[1:]
                continue
            if k.arg in kws:
                x = kws[k.arg]
                used_kw.add(k.arg)
            elif names and k.arg in names and \
                    names.index(k.arg) < len(args):
                x = args[names.index(k.arg)]
                used_pos.add(names.index(k.arg))
            else:
                return None
            b = self.match(k.value, x, b)
            if b is None:
                return None
        if not rest:
            if len(used_pos) < len(args) or len(used_kw) < len(kws) or dst:
                return None
        return b

    # special forms
    def p_ELEM(self, a, t, b):
        if t[0] != 'elem':
            return None
        r = self.match(a[0], t[1], b)
        return r

    def p_IDX(self, a, t, b):
        return self.match(a[0], t[2], b) if t[0] == 'idx' else None

    def p_HAS(self, a, t, b):
        for x in self.deep(t):
            r = self._m(a[0], x, dict(b))
            if r is not None:
                return r
        return None

    def p_OR(self, a, t, b):
        for q in a:
            r = self.match(q, t, b)
            if r is not None:
                return r
        return None

    def p_AND(self, a, t, b):
        for q in a:
            b = self.match(q, t, b)
            if b is None:
                return None
        return b

    def p_NOT(self, a, t, b):
        return b if self.match(a[0], t, b) is None else None

    def p_ITE(self, a, t, b):
        if t[0] != 'ite':
            return None
        c, x, y = t[1], t[2], t[3]
        if not self.equiv(c, a[0]):
            if not self.equiv(f_not(c), a[0]):
                return None
            x, y = y, x
        b = self.match(a[1], x, b)
        return None if b is None else self.match(a[2], y, b)

    def p_ANYITE(self, a, t, b):
        """matches if any branch of (nested) ite matches"""
        if t[0] == 'ite':
            for x in t[2:]:
                for f in self.forms(x):
                    r = self.p_ANYITE(a, f, b)
                    if r is not None:
                        return r
            return None
        return self._m(a[0], t, dict(b))

    def p_ALLITE(self, a, t, b):
        if t[0] == 'ite':
            for x in t[2:]:
                r = None
                for f in self.forms(x):
                    r = self.p_ALLITE(a, f, b)
                    if r is not None:
                        break
                if r is None:
                    return None
                b = r
            return b
        return self._m(a[0], t, dict(b))

    def p_ENTER(self, a, t, b):
        return self.match(a[0], t[1], b) if t[0] == 'entered' else None

    def p_STR(self, a, t, b):
        """string built from parts; each pattern matches some part in order"""
        if t[0] != 'fstr':
            return None
        i = 0
        for q in a:
            while i < len(t[1]):
                r = self.match(q, t[1][i], b)
                i += 1
                if r is not None:
                    b = r
                    break
            else:
                return None
        return b

    def p_COMP(self, a, t, b):
        """COMP(elt) any comprehension with element; COMP(elt, iter)"""
        if t[0] != 'comp' or t[1] == 'dict':
            return None
        b = self.match(a[0], t[2], b)
        if b is None or len(a) < 2:
            return b
        return self.match(a[1], self.E.loops[t[3][0]]['iter'], b)

    def p_ACC(self, a, t, b):
        if t[0] != 'acc' or t[1] != a[0].id:
            return None
        b = self.match(a[1], t[2], b)
        return None if b is None else self.match(a[2], t[3], b)

    def p_PARTIAL(self, a, t, b):
        if t[0] != 'partial':
            return None
        return self.match(a[0], t[1], b)

    def p_ALLOC(self, a, t, b):
        if t[0] != 'alloc' or (a and t[1] != a[0].id):
            return None
        return b

    def p_BOOL(self, a, t, b):
        """boolean valued term equivalent to the formula"""
        try:
            f = self.E.formula(t)
        except Exception:
            return None
        return b if self.equiv(f, a[0]) else None

    # ---- guards
    def pform(self, p):
        """pattern AST -> formula with ('pat', dump) atoms"""
        if isinstance(p, str):
            p = parse(p)
        if isinstance(p, ast.Constant) and isinstance(p.value, bool):
            return p.value
        if isinstance(p, ast.BoolOp):
            fs = [self.pform(v) for v in p.values]
            return f_and(*fs) if isinstance(p.op, ast.And) else f_or(*fs)
        if isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not):
            return f_not(self.pform(p.operand))
        if isinstance(p, ast.Compare) and len(p.ops) == 1:
            o = type(p.ops[0]).__name__
            l, r = p.left, p.comparators[0]
            neg = False
            if o == 'Gt':
                l, r, o = r, l, 'Lt'
            elif o == 'LtE':
                l, r, o, neg = r, l, 'Lt', True
            elif o == 'GtE':
                o, neg = 'Lt', True
            elif o == 'NotEq':
                o, neg = 'Eq', True
            elif o == 'IsNot':
                o, neg = 'Is', True
            elif o == 'NotIn':
                o, neg = 'In', True
            q = ast.Compare(l, [getattr(ast, o)()], [r])
            f = ('atom', PatAtom(q))
            return f_not(f) if neg else f
        return ('atom', PatAtom(p))

    def m_cmp(self, q, t, b):
        """canonical Compare pattern against ('cmp', op, l, r)"""
        o = {'Lt': '<', 'Eq': '==', 'Is': 'is', 'In': 'in'}[
            type(q.ops[0]).__name__]
        op = t[1]
        if o != op and not ({o, op} == {'==', 'is'}):
            return None
        l, r = q.left, q.comparators[0]
        x = self.match(l, t[2], b)
        if x is not None:
            y = self.match(r, t[3], x)
            if y is not None:
                return y
        if o in ('==', 'is'):
            x = self.match(l, t[3], b)
            if x is not None:
                return self.match(r, t[2], x)
        return None

    def matom(self, q, t):
        if isinstance(q, ast.Compare):
            return t[0] == 'cmp' and self.m_cmp(q, t, {}) is not None
        return self.match(q, t, {}) is not None

    def norm(self, f, drop=()):
        """guard with truthiness/len canonicalisation and control atoms
        removed"""
        def fn(a):
            if a[0] == 'loopret':
                return False
            if a[0] == 'cmp' and a[2][0] == 'call' and \
                    a[2][1] == ('global', 'len') and a[3] == const(0):
                if a[1] == '==':
                    return f_not(('atom', a[2][2][0]))
            if a[0] == 'cmp' and a[3][0] == 'call' and \
                    a[3][1] == ('global', 'len') and a[2] == const(0) and \
                    a[1] == '<':
                return ('atom', a[3][2][0])
            if a[0] == 'call' and a[1] == ('global', 'len'):
                return ('atom', a[2][0])
            return ('atom', a)
        return f_map(f, fn)

    def keyed(self, f, pats):
        def fn(a):
            for i, q in enumerate(pats):
                if self.matom(q.node, a):
                    return ('atom', ('P', i))
            return ('atom', ('T', show(a)))
        return f_map(self.norm(f), fn)

    def pair(self, f, p):
        pf = self.pform(p)
        atoms = f_atoms(pf)
        uniq = []
        for a in atoms:
            if not any(a.key == u.key for u in uniq):
                uniq.append(a)
        g = self.keyed(f, uniq)
        pk = f_map(pf, lambda a: ('atom', ('P', [u.key for u in uniq].index(
            a.key))))
        return g, pk

    def equiv_mod(self, f, p, r):
        """f and p agree wherever r is false (and p can hold there)"""
        g, pk = self.pair(f, p)
        rest, _ = self.pair(f_or(*r), p)
        n = f_not(rest)
        if n is False or f_implies(f_and(n, pk), False):
            return False
        return f_equiv(f_and(g, n), f_and(pk, n))

    def equiv(self, f, p):
        g, pk = self.pair(f, p)
        return f_equiv(g, pk)

    def implies(self, f, p):
        g, pk = self.pair(f, p)
        return f_implies(g, pk)

    def implied_by(self, f, p):
        g, pk = self.pair(f, p)
        return f_implies(pk, g)

    def skey(self, f):
        return f_map(self.norm(f), lambda a: ('atom', ('T', show(a))))


class PatAtom:
    def __init__(self, node):
        self.node = node
        self.key = ast.dump(node)

    def __eq__(self, o):
        return isinstance(o, PatAtom) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __getitem__(self, i):
        return ('patatom', self.key)[i]
