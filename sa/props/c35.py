"""C35 layer-wise one-shot compression: statistics, selection, weights."""
from .common import *
from .arith import Arith, cases
from ..terms import (f_and, f_not, f_or, f_implies, f_equiv, f_map, show,
                     fshow)

SP = 'implementations.pruning.sparse_gpt'
GQ = 'implementations.quantization.gptq'


def check(ck):
    ck.sections(statistics, hooks, inputs, weights, pruning, quantizing,
                packing, selecting, converting, driving, quantizer)


def mixins(ck):
    return [ck.cls('SparseGptMixIn'), ck.cls('GPTQMixIn')]


class Abbr:
    """terms with the values that play a role named"""

    def __init__(self, s, rules):
        self.s = s
        self.rules = rules
        self.memo = {}

    def of(self, t):
        return self.ab(full(self.s, t))

    def ab(self, t):
        if not isinstance(t, tuple):
            return t
        if id(t) in self.memo:
            return self.memo[id(t)][1]
        r = tuple(self.ab(x) for x in t)
        if r and isinstance(r[0], str):
            for n, p in self.rules:
                if (p(r) if callable(p) else
                        self.s.m.match(p, r) is not None):
                    r = ('param', n)
                    break
        if r[:1] == ('form',) and len(r) == 2 and r[1][:1] == (
                'atom',) and r[1][1][0] == 'param':
            r = r[1][1]
        self.memo[id(t)] = (t, r)
        return r

    def is_(self, t, *pats):
        r = self.of(t)
        return any(self.s.m.match(p, r) is not None for p in pats)

    def poly(self, t, text):
        r = self.of(t)
        A = Arith(self.s)
        return A.same(r, text)


def stores(s):
    return [e for e in s.ev if e.kind in ('setitem', 'aug') and
            e.base is not None and e.attr is not None and not isinstance(
                e.attr, str)]


def hit(s, e):
    return Hit(s, e, {})


def asserted(s):
    return [e for e in s.ev if e.kind == 'assert']


# -------------------------------------------------------------- statistics
def statistics(ck):
    for c in mixins(ck):
        s = ck.fn(c.name + '.update_hessian', opaque=(
            'format_input', 'hessian'))
        X = Abbr(s, [
            ('X', 'OR(self.format_input(input).float(), self.format_input('
                  'input.float()), self.format_input(input))'),
            ('X', 'X.float()'),
            ('B', 'X.shape[0]'),
            ('F', 'OR(X.transpose(0, -1).flatten(1), X.transpose(-1, 0).'
                  'flatten(1), X.reshape(-1, X.shape[-1]).T, X.flatten(0, 1)'
                  '.T)'),
            ('G', 'OR(F @ F.T, F.matmul(F.T), torch.matmul(F, F.T), F @ F.t('
                  '), torch.mm(F, F.T))'),
            ('H0', 'OR(self.hessian, self.hessian.to(_))'),
            ('H0', 'H0.to(_)'),
            ('n', 'self.hessian_batch'),
            ('k', 'torch.distributed.get_world_size()'),
        ])
        hs = s.sets('self', 'hessian')
        ns = s.sets('self', 'hessian_batch')
        ck.need('average', hs, s, 'the statistics are stored')
        ck.need('average', ns, s, 'with the number of samples')
        D = 'torch.distributed.is_initialized()'
        for h in hs:
            ck.ob('average', h.e.guard is True, h, 'for every batch')
            for dist in (False, True):
                vs = [v for g, v in cases(s, h.e.value) if case(
                    s, g, {D: dist}) is not False]
                b = 'B * k' if dist else 'B'
                ck.ob('average', bool(vs) and all(X.poly(
                    v, '(H0 * n + 2 * G) / (n + %s)' % b) for v in vs), h,
                    'the running average weighted by samples%s' % (
                        ' of all processes' if dist else ''))
        for h in ns:
            ck.ob('average', h.e.guard is True, h, 'for every batch')
            for dist in (False, True):
                vs = [v for g, v in cases(s, h.e.value) if case(
                    s, g, {D: dist}) is not False]
                ck.ob('average', bool(vs) and all(X.poly(
                    v, 'n + B * k' if dist else 'n + B') for v in vs), h,
                    'all samples are counted%s' % (
                        ' of all processes' if dist else ''))
            ck.ob('average', all(x.e.seq < h.e.seq for x in hs), h, 'after '
                  'the average was formed')
        ar = s.calls('torch.distributed.all_reduce(...)')
        ck.need('reduced', ar, s, 'statistics of all processes are summed')
        for h in ar:
            ck.ob('reduced', s.m.equiv(h.e.guard, D), h, 'if there are '
                  'several')
            ck.ob('reduced', X.poly(h.arg(0), '2 * G') and h.arg(1, 'op')
                  is None, h, 'before they enter the average')
        # the stored statistics
        two_sided(ck, c)
        s = ck.fn(c.name + '.init_hessian')
        hs = s.sets('self', '_hessian')
        ck.need('start', hs, s, 'statistics are created')
        for h in hs:
            for g, v in leaves(s, h.e.value):
                gg = f_and(h.e.guard, g)
                main = case(s, gg, {D: False}) is not False or case(
                    s, gg, {D: True, 'torch.distributed.get_rank() == 0':
                            True}) is not False
                ok = s.match(v, 'OR(torch.zeros([self.columns, self.columns]'
                             ', ...), torch.zeros(self.columns, self.columns'
                             ', ...), torch.zeros((self.columns, self.'
                             'columns), ...))') is not None
                if main:
                    ck.ob('start', ok, h, 'empty, one row and column per '
                          'input')
        ns = s.sets('self', 'hessian_batch')
        ck.always('start', ns, s, 'the sample count starts anew with the '
                  'statistics')
        for h in ns:
            ck.ob('start', h.e.value == ('const', 0), h, 'from zero')


def two_sided(ck, c):
    D = 'torch.distributed.is_initialized()'
    R = 'torch.distributed.get_rank() == 0'
    s = ck.fn(c.name + '.hessian', opaque=('weight_matrix',))
    r = s.ret()
    one = [v for g, v in leaves(s, r) if case(s, g, {D: False})
           is not False]
    ck.ob('kept', bool(one) and all(s.match(v, 'self._hessian') is not None
          for v in one), s, 'the statistics are read as stored')
    bc = s.calls('torch.distributed.broadcast(_h, 0)')
    ck.need('kept', bc, s, 'all processes get those of the first')
    for h in bc:
        ck.ob('kept', s.m.equiv(h.e.guard, D) and all(
            same(s, v, h.arg(0)) or show(v) == show(h.arg(0)) or any(
                show(x) == show(v) for _, x in leaves(s, h.arg(0)))
            for g, v in leaves(s, r) if case(s, g, {D: False}) is False),
            h, 'if there are several')
        own = [v for g, v in leaves(s, h.arg(0)) if case(s, g, {
            R: True, D: True}) is not False]
        ck.ob('kept', bool(own) and all(s.match(
            v, 'OR(self._hessian, self._hessian.to(_))') is not None
            for v in own), h, 'which sends its own')


    # the setter
    f = c.setters.get('hessian')
    ck.ob('kept', f is not None, s, 'statistics can be stored')
    if f is not None:
        s = ck.func_summary(f, c)
        v = [p for p in f.params() if p != 'self'][0]
        w = s.calls('self._hessian.data.copy_(_)') + s.calls(
            'self._hessian.copy_(_)')
        ck.need('kept', w, s, 'they are copied')
        for h in w:
            ck.ob('kept', s.m.forms and s.match(
                h.arg(0), 'OR(%s, %s.data, %s.to(_), %s.data.to(_))' % (
                    (v,) * 4)) is not None, h, 'whole')
        g = jointly(w)
        ck.ob('kept', case(s, g, {D: False}) is True and case(
            s, g, {D: True, R: True}) is True, s, 'by one process and by the '
            'first of several')


# ------------------------------------------------------------------- hooks
def hooks(ck):
    for c in mixins(ck):
        s = ck.fn(c.name + '.register_hessian_hook', opaque=(
            c.name + '.update_hessian',))
        reg = s.calls('self.register_forward_pre_hook(_)')
        ck.always('hook', reg, s, 'a hook sees the inputs of the layer')
        keep = s.calls('self._l.append(_h)') or [
            h for h in s.calls('_.append(_h)')]
        names = set()
        for h in reg:
            ks = [k for k in keep if same(s, k.arg(0), h.e.term) and
                  k.e.guard is True]
            ck.ob('hook', bool(ks), h, 'its handle is kept')
            for k in ks:
                if k.e.func[1][0] == 'attr':
                    names.add(k.e.func[1][2])
            sub = s.closure(h.arg(0))
            ck.ob('hook', sub is not None, h, 'that updates')
            if sub is None:
                continue
            up = sub.calls('self.update_hessian(...)')
            ck.need('hook', up, sub, 'the statistics')
            for u in up:
                ck.ob('hook', u.e.guard is True and not u.e.loops, u,
                      'whenever the layer is run')
                ck.ob('hook', sub.match(u.arg(0), 'input[0]') is not None or
                      sub.match(u.arg(0), '_[0]') is not None, u, 'with its '
                      'input')
        s = ck.fn(c.name + '.remove_hessian_hook')
        rm = s.calls('ELEM(_).remove()')
        ck.need('hook', rm, s, 'hooks can be removed')
        for h in rm:
            ck.ob('hook', h.e.guard is True and any(over(
                s, l, *['self.' + n for n in names or ['_']]) and whole(s, l)
                for l in h.e.loops), h, 'all that were registered')




# ------------------------------------------------------------------ inputs
def inputs(ck):
    for c in mixins(ck):
        s = ck.fn(c.name + '.format_input')
        x = [p for p in s.func.params() if p != 'self'][0]
        for g, v in leaves(s, s.ret()):
            two = case(s, g, {'len(%s.shape) == 2' % x: False,
                              '%s.ndim == 2' % x: False,
                              '%s.dim() == 2' % x: False})
            ck.ob('samples', s.match(v, x if two is not False else
                  'OR(%s.unsqueeze(0), %s[None])' % (x, x)) is not None, s,
                  'inputs are samples of tokens of features')
        for k in ck.prog.subclasses(c):
            if not any(getattr(b, 'name', b) == 'DynamicConv2d' or
                       'Conv2d' in str(getattr(b, 'name', b))
                       for b in ck.prog.mro(k)):
                continue
            s = ck.fn(k.name + '.format_input')
            un = s.calls('torch.nn.functional.unfold(...)')
            ck.need('patches', un, s, 'inputs of convolutions are cut to '
                    'patches')
            for h in un:
                for i, a in ((1, 'kernel_size'), (2, 'dilation'),
                             (3, 'padding'), (4, 'stride')):
                    v = h.arg(i, a)
                    ck.ob('patches', v is not None and s.match(
                        v, 'self.' + a) is not None, h, 'those the '
                        'convolution multiplies (%s)' % a)
                ck.ob('patches', h.e.guard is True and s.match(
                    s.ret(), 'OR(_u.transpose(-1, -2), _u.transpose(-2, -1),'
                    ' _u.transpose(1, 2), _u.transpose(2, 1), _u.mT, '
                    '_u.permute(0, 2, 1))') is not None, h, 'patches are '
                    'the tokens')


# ----------------------------------------------------------------- weights
def weights(ck):
    for c in mixins(ck):
        f = c.setters.get('weight_matrix')
        s = ck.fn(c.name + '.weight_matrix')
        ck.ob('matrix', s.match(s.ret(), 'OR(self.weight.flatten(1), self.'
              'weight.data.flatten(1), self.weight.reshape(self.weight.shape'
              '[0], -1), self.weight.view(self.weight.shape[0], -1))')
              is not None, s, 'one row per output')
        ck.ob('matrix', f is not None, s, 'weights can be stored')
        if f is None:
            continue
        s = ck.func_summary(f, c)
        w = s.calls('self.weight.data.copy_(_v)') + s.calls(
            'self.weight.copy_(_v)')
        ck.need('matrix', w, s, 'weights are stored')
        v = [p for p in f.params() if p != 'self'][0]
        for h in w:
            ck.ob('matrix', h.e.guard is True and s.find(
                h.arg(0), 'OR(_.reshape(self.weight.shape), _.view(self.'
                'weight.shape), _.reshape_as(self.weight), _.view_as(self.'
                'weight))') and s.find(h.arg(0), v), h, 'in the shape of '
                'the weight')
        ck.never('matrix', [e for e in s.sets('self', 'weight')], s, 'it '
                 'stays the parameter it is')
        s = ck.fn(c.name.replace('MixIn', 'MixIn') + (
            '._sparse_gpt_mix_in_init' if c.name.startswith('Sparse')
            else '._gptq_mix_in_init'), opaque=('weight_matrix',))
        for a, w in (('rows', 'self.weight_matrix.shape[0]'),
                     ('columns', 'self.weight_matrix.shape[1]'),
                     ('hessian_batch', '0'), ('_hessian', 'None')):
            v = s.final_attr(a)
            ck.ob('matrix', v is not None and s.match(v, w) is not None, s,
                  '%s of a new layer' % a)
        h = [e for e in s.ev if e.kind == 'setattr' and isinstance(
            e.attr, str) and e.attr.endswith('_handles')]
        ck.need('matrix', h, s, 'no hooks at first')


def copied(s, what, need=True):
    """t is a copy of the attribute, moved or converted at will"""
    def fn(t):
        seen = False
        n = 0
        while t[0] == 'call' and t[1][0] == 'attr' and n < 6:
            m = t[1][2]
            if m not in ('float', 'clone', 'to', 'detach', 'cpu', 'double',
                         'contiguous'):
                return False
            seen = seen or m == 'clone'
            t = t[1][1]
            n += 1
        return seen and s.match(t, what) is not None
    return fn


def system(ck, s, act):
    """names of the pieces of the blockwise solution"""
    z = '0' if act else ''
    rules = [
        ('W' + z, copied(s, 'self.weight_matrix')),
        ('H' + z, copied(s, 'self.hessian')),
        ('dead', 'OR(torch.diag(%s) == 0, %s.diag() == 0, torch.diagonal(%s)'
                 ' == 0)' % (('H' + z,) * 3)),
    ]
    if act:
        rules += [
            ('perm', 'torch.argsort(torch.diag(H0), descending=True)'),
            ('W', lambda r: chosen(s, r, 'W0[:, perm]', 'W0')),
            ('H', lambda r: chosen(s, r, 'H0[perm][:, perm]', 'H0')),
        ]
    rules += [
        ('D', 'torch.arange(self.columns, ...)'),
        ('Hinv', 'torch.linalg.cholesky(torch.cholesky_inverse(torch.linalg.'
                 'cholesky(H)), upper=True)'),
        ('i1', 'ELEM(range(0, self.columns, blocksize))'),
        ('i2', 'OR(min(i1 + blocksize, self.columns), min(self.columns, i1 '
               '+ blocksize))'),
        ('W1', 'W[:, i1:i2].clone()'),
        ('G1', 'Hinv[i1:i2, i1:i2]'),
        ('i', 'OR(ELEM(range(i2 - i1)), ELEM(range(0, i2 - i1)))'),
        ('w', 'W1[:, i]'),
        ('d', 'G1[i, i]'),
    ]
    return Abbr(s, rules)


def chosen(s, r, on, off):
    if r[0] != 'ite':
        return False
    ok = True
    for v, want in ((r[2], on), (r[3], off)):
        pass
    if r[1] == ('atom', ('param', 'actorder')):
        a, b = r[2], r[3]
    elif r[1] == ('not', ('atom', ('param', 'actorder'))):
        b, a = r[2], r[3]
    else:
        return False
    return s.match(a, on) is not None and s.match(b, off) is not None


def solved(ck, s, X, q, z):
    """the parts pruning and quantising share; q: names of the compressed
    column.  -> (array of the compressed block, of the errors)"""
    st = stores(s)
    # the statistics
    a = [e for e in st if X.is_(e.base, 'H' + z) and X.is_(
        e.attr, '(dead, dead)')]
    b = [e for e in st if X.is_(e.base, 'W' + z) and pair(
        X.of(e.attr), None, ('param', 'dead'))]
    ck.need('dead', a, s, 'inputs never seen do not break the solution')
    for e in a:
        ck.ob('dead', e.value == ('const', 1) and e.guard is True, hit(s, e),
              'they count once')
    ck.need('dead', b, s, 'and have no weight')
    for e in b:
        ck.ob('dead', e.value == ('const', 0) and e.guard is True, hit(s, e),
              'at all')
    dm = [e for e in st if X.is_(e.base, 'H') and X.is_(e.attr, '(D, D)')]
    ck.need('damped', dm, s, 'the statistics are damped')
    for e in dm:
        ck.ob('damped', e.guard is True and (X.is_(
            e.value, 'H[D, D] + percdamp * torch.mean(torch.diag(H))',
            'percdamp * torch.mean(torch.diag(H)) + H[D, D]',
            'H[D, D] + percdamp * torch.diag(H).mean()',
            'H[D, D] + torch.mean(torch.diag(H)) * percdamp')), hit(s, e),
            'relative to their mean')
        ck.ob('damped', all(x.seq < e.seq for x in a + b), hit(s, e),
              'once unseen inputs were handled')
    ch = [h for h in s.calls('torch.linalg.cholesky(_, upper=True)')]
    ck.need('inverse', ch, s, 'their inverse is factored')
    for h in ch:
        ck.ob('inverse', X.is_(h.e.term, 'Hinv') and h.e.guard is True and
              all(e.seq < h.e.seq for e in dm), h, 'after damping')
    ck.ob('inverse', not [e for e in s.ev if e.kind == 'call' and s.match(
        e.term, 'torch.linalg.cholesky(...)') is not None and e.seq < min(
            [d.seq for d in dm] or [0])], s, 'never before')
    # the blocks
    outer = [l for l in s.E.loops if X.is_(
        s.E.loops[l]['iter'], 'range(0, self.columns, blocksize)')]
    ck.need('blocks', outer, s, 'all columns are visited in blocks')
    inner = [l for l in s.E.loops if X.is_(
        s.E.loops[l]['iter'], 'range(i2 - i1)', 'range(0, i2 - i1)')]
    ck.need('blocks', inner, s, 'and one by one')
    ck.ob('blocks', all(whole(s, l) for l in outer + inner), s, 'each')
    cols = [e for e in st if pair(X.of(e.attr), None, ('param', 'i')) and
            e.loops and e.loops[-1] in inner and e.guard is True]
    Q1 = [e for e in cols if X.is_(e.value, *q)]
    ck.need('column', Q1, s, 'the compressed column is kept')
    Q1 = [e for e in Q1 if fresh(s, e.base)] or Q1
    err = '(w - %s) / d' % q[0]
    E1 = [e for e in cols if X.is_(e.value, *['(w - %s) / d' % x
                                              for x in q]) and e not in Q1]
    ck.need('column', E1, s, 'and its error')
    up = [e for e in st if X.is_(e.base, 'W1') and slice_from(
        X.of(e.attr), 'i')]
    ck.need('spread', up, s, 'the error is spread over the rest of the '
            'block')
    for e in up:
        ck.ob('spread', e.guard is True and any(X.is_(
            e.value, 'W1[:, i:] - ((w - %s) / d).unsqueeze(1).matmul('
            'G1[i, i:].unsqueeze(0))' % x, 'W1[:, i:] - ((w - %s) / d)'
            '.unsqueeze(1) @ G1[i, i:].unsqueeze(0)' % x) for x in q),
            hit(s, e), 'by the statistics')
        ck.ob('spread', all(x.seq < e.seq for x in Q1), hit(s, e), 'once '
              'the column was compressed')
    fw = [e for e in st if X.is_(e.base, 'W') and slice_from(
        X.of(e.attr), 'i2')]
    ck.need('spread', fw, s, 'and over the other blocks')
    for e in fw:
        v = X.of(e.value)
        b = s.match(v, 'OR(W[:, i2:] - _e.matmul(Hinv[i1:i2, i2:]), W[:, i2:'
                    '] - _e @ Hinv[i1:i2, i2:])')
        ck.ob('spread', e.guard is True and b is not None and e.loops ==
              tuple(outer[:1]) and any(
                  shape_of(X.of(x.base)) == shape_of(b['_e']) and x.base and
                  raw_has(e.value, x.base) for x in E1), hit(s, e), 'by the '
              'statistics, of the whole block')
    return st, outer, inner, Q1, E1, fw


def shape_of(t):
    return show(t)


def raw_has(t, u):
    if t == u:
        return True
    return isinstance(t, tuple) and any(raw_has(x, u) for x in t)


def fresh(s, t):
    return s.match(t, 'OR(torch.zeros_like(_), torch.empty_like(_), torch.'
                      'zeros(...))') is not None


def pair(t, a, b):
    """t indexes [:, b]"""
    if t[0] == 'tuple' and len(t[1]) == 2:
        x, y = t[1]
        return x[0] == 'slice' and x[1] == NONE and x[2] == NONE and y == b
    return False


def slice_from(t, n):
    """t indexes [:, n:]"""
    if t[0] == 'tuple' and len(t[1]) == 2:
        x, y = t[1]
        return x[0] == 'slice' and x[1] == NONE and x[2] == NONE and y[0] \
            == 'slice' and y[1] == ('param', n) and y[2] == NONE
    return False


def pruning(ck):
    s = ck.fn('SparseGptMixIn.prune', opaque=(
        'hessian', 'weight_matrix', 'is_weight_sparse_24'))
    X = system(ck, s, False)
    X.rules += [
        ('S', 'W1 ** 2 / torch.diag(G1).reshape((1, -1)) ** 2'),
        ('S', 'W1 ** 2 / torch.diag(G1).reshape(1, -1) ** 2'),
        ('t', 'torch.sort(S.flatten())[0][int(S.numel() * sparsity)]'),
        ('P', 'W1[:, i:i + prunem] ** 2 / torch.diag(G1)[i:i + prunem].'
              'reshape((1, -1)) ** 2'),
        ('P', 'W1[:, i:i + prunem] ** 2 / torch.diag(G1)[i:i + prunem].'
              'reshape(1, -1) ** 2'),
        ('q', 'OR(w.clone(), W1[:, i].clone())'),
    ]
    st, outer, inner, Q1, E1, fw = solved(ck, s, X, ('q', 'w.clone()'), '')
    one = 'prunen == 0'
    cut = [e for e in st if X.is_(e.base, 'q')]
    ck.need('mask', cut, s, 'weights are removed')
    for e in cut:
        ck.ob('mask', e.guard is True and e.value == ('const', 0) and all(
            e.seq < x.seq for x in Q1 + E1), hit(s, e), 'from the column '
            'that is kept')
        m = X.of(e.attr)
        ck.ob('mask', m[0] == 'sub' and pair(m[2], None, ('param', 'i')),
              hit(s, e), 'its own')
        if m[0] != 'sub':
            continue
        raw = full(s, e.attr)
        for g, v in leaves(s, raw[1] if raw[0] == 'sub' else NONE):
            un = case(s, g, {one: True})
            if un is not False:
                ck.ob('mask', X.is_(v, 'S <= t', 't >= S'), hit(s, e),
                      'unstructured: those of least importance')
            else:
                ck.ob('mask', X.is_(v, 'torch.zeros_like(W1) == 1',
                                    'torch.zeros_like(W1, dtype=torch.bool)',
                                    'torch.zeros_like(W1).bool()'),
                      hit(s, e), 'structured: none at first')
    sc = s.calls('_.scatter_(...)')
    ck.need('mask', sc, s, 'structured: some per group')
    for h in sc:
        ck.ob('mask', X.is_(h.arg(1), 'i + torch.topk(P, prunen, dim=1, '
              'largest=False)[1]', 'torch.topk(P, prunen, dim=1, '
              'largest=False)[1] + i') and h.arg(0) == ('const', 1) and
              h.arg(2) == ('const', True), h, 'those of least importance')
        g = X.ab(full_guard(s, h.e.guard))
        ck.ob('mask', s.m.equiv(g, 'prunen != 0 and i % prunem == 0'), h,
              'once in each group')
        ck.ob('mask', all(h.e.seq < e.seq for e in cut) and
              h.e.loops and h.e.loops[-1] in inner, h, 'before its first '
              'column is cut')
    blk = [e for e in st if X.is_(e.base, 'W') and X.is_(
        e.value, 'torch.zeros_like(W1)') and any(
            raw_has(e.value, x.base) for x in Q1)]
    ck.need('block', blk, s, 'the pruned block replaces the weights')
    for e in blk:
        k = X.of(e.attr)
        ck.ob('block', e.guard is True and k[0] == 'tuple' and X.is_(
            k[1][1], 'i1:i2') if False else block_key(k), hit(s, e),
            'where it was taken from')
    w = s.sets('self', 'weight_matrix')
    ck.need('stored', w, s, 'the weights are stored')
    bad = refused(s)
    for h in w:
        ck.ob('stored', X.is_(h.e.value, 'OR(W.data, W, W.detach())'), h,
              'the pruned ones')
        ck.ob('stored', all(e.seq < h.e.seq for e in blk) and all(
            r.e.seq < h.e.seq for r in s.raises()), h, 'only after all '
            'checks have passed')
        ck.ob('stored', not h.e.loops and f_implies(
            f_not(bad), s.m.norm(h.e.guard)), h, 'whenever they have')
    for h in s.raises():
        if h.e.kind == 'assert':
            continue
        nan = [a for a in atoms_of(s, h.e.guard) if 'isnan' in show(
            full(s, a))]
        ck.ob('stored', bool(nan) and any(f_implies(
            s.m.norm(h.e.guard), ('atom', a)) for a in nan), h, 'unless an '
            'error is not a number')
    a = [e for e in asserted(s) if 'sparse_24' in show(e.term)]
    ck.need('checked', a, s, 'the 2:4 pattern is checked')
    for e in a:
        ck.ob('checked', s.m.equiv(e.guard, 'prunen == 2 and prunem == 4')
              and bool(s.find(e.term, 'is_weight_sparse_24(_)') or s.find(
                  e.term, 'is_weight_sparse_24(_, -1)')) and all(
                      e.seq < h.e.seq for h in w), hit(s, e), 'whenever '
              'asked for, before anything is stored')
    s = ck.fn('is_weight_sparse_24')
    r = s.ret()
    z = '(weight.transpose(-1, dim).reshape(-1, 4) == 0).sum(-1)'
    ck.ob('checked', s.match(r, 'OR((%s >= 2).all(), torch.all(%s >= 2), '
                             'bool((%s >= 2).all()))' % (z, z, z))
          is not None, s, 'two zeros in every four')


def block_key(k):
    return k[0] == 'tuple' and len(k[1]) == 2 and k[1][0] == (
        'slice', NONE, NONE, NONE) and k[1][1][:3] == (
            'slice', ('param', 'i1'), ('param', 'i2'))


def full_guard(s, g):
    if isinstance(g, bool):
        return g
    return f_map(s.m.norm(g), lambda a: ('atom', full(s, a)))


def atoms_of(s, f):
    out = []

    def fn(a):
        out.append(a)
        return ('atom', a)
    f_map(s.m.norm(f), fn)
    return out


def quantizing(ck):
    s = ck.fn('GPTQMixIn.quant', opaque=(
        'hessian', 'weight_matrix', 'pack', 'ready', 'find_params',
        'quantize'))
    X = system(ck, s, True)
    X.rules += [
        ('q', 'quantizer.quantize(w.unsqueeze(1)).flatten()'),
        ('q', 'OR(quantizer.quantize(w.unsqueeze(1)).squeeze(1), quantizer.'
              'quantize(w[:, None]).flatten())'),
    ]
    st, outer, inner, Q1, E1, fw = solved(ck, s, X, ('q',), '0')
    # the grids
    fp = s.calls('quantizer.find_params(...)')
    ck.need('grid', fp, s, 'a grid is found')
    first = [h for h in fp if not h.e.loops]
    ck.need('grid', first, s, 'for the whole weight')
    for h in first:
        ck.ob('grid', X.is_(h.arg(0, 'x'), 'W0', 'W') and h.arg(
            1, 'weight') == ('const', True) and s.m.equiv(
                h.e.guard, 'not quantizer.ready()'), h, 'unless there is one')
    grp = [h for h in fp if h.e.loops]
    ck.need('grid', grp, s, 'and for every group')
    for h in grp:
        ck.ob('grid', X.is_(h.arg(0, 'x'), 'W[:, i1 + i:i1 + i + groupsize]')
              and h.arg(1, 'weight') == ('const', True), h, 'of its columns')
        g = X.ab(full_guard(s, h.e.guard))
        ck.ob('grid', s.m.equiv(g, 'groupsize != -1 and (i1 + i) % groupsize'
                                   ' == 0'), h, 'when it starts')
        qs = s.calls('quantizer.quantize(...)')
        ck.ob('grid', all(h.e.seq < x.e.seq for x in qs) and h.e.loops[-1]
              in inner, h, 'before its columns are quantised')
    blk = [e for e in st if block_key(X.of(e.attr)) and e.loops == tuple(
        outer[:1]) and any(raw_has(e.value, x.base) for x in Q1) and
        fresh(s, e.base)]
    ck.need('block', blk, s, 'the quantised block is kept')
    for e in blk:
        ck.ob('block', e.guard is True and any(e.value == x.base
              for x in Q1), hit(s, e), 'where it was taken from')
    w = s.sets('self', 'weight_matrix')
    ck.need('stored', w, s, 'the weights are stored')
    for h in w:
        ck.ob('stored', h.e.guard is True and all(
            e.seq < h.e.seq for e in blk), h, 'at the end')
        v = full(s, h.e.value)
        vs = [x for g, x in cases2(s, v)]
        for on in (True, False):
            ls = [x for g, x in cases2(s, v) if case(
                s, g, {'actorder': on}) is not False]
            for x in ls:
                y = peeled(x)
                if on:
                    ok = y[0] == 'sub' and any(
                        y[1] == e.base for e in blk) and pair2(X.of(y[2]),
                                                               s)
                else:
                    ok = any(y == e.base for e in blk)
                ck.ob('stored', ok, h, 'the quantised ones%s' % (
                    ' in their first order' if on else ''))
            ck.ob('stored', bool(ls), h, 'in every case')
    pk = s.calls('self.pack(...)')
    ck.need('packed', pk, s, 'packed weights for the custom kernel')
    for h in pk:
        ck.ob('packed', s.m.equiv(h.e.guard, 'self.is_custom_kernel') and
              all(x.e.seq < h.e.seq for x in w), h, 'only for it, from the '
              'quantised ones')
    sy = s.calls('torch.cuda.synchronize(...)')
    for h in sy:
        ck.ob('device', any(x in fshow(h.e.guard) for x in (
            'is_available', 'cuda', 'device')), h, 'cpu layers need no gpu')
    # group indices
    X.rules += [('gs', lambda r: r[0] == 'ite' and {show(r[2]), show(
        r[3])} == {'self.columns', 'groupsize'})]
    for h in pk:
        g = h.arg(2, 'g_idx')
        ck.ob('packed', g is not None and any(s.find(x, 'ELEM(range(self.'
              'columns)) // _') for x in [full(s, g)]), h, 'with the group '
              'of each column')
        for i, a in ((0, 'scale'), (1, 'zero')):
            l = h.arg(i, a + 's')
            ck.ob('packed', l is not None and s.match(
                l, 'torch.cat(_x, dim=1)') is not None and any(
                    raw_has(full(s, l), x.e.func[1]) and s.match(
                        x.arg(0), 'quantizer.' + a) is not None
                    for x in s.calls('_.append(_)')), h, 'and the %s of '
                'each group' % a)
    for a in ('scale', 'zero'):
        ap = [x for x in s.calls('_.append(quantizer.%s)' % a)]
        lo = [x for x in ap if x.e.loops]
        ck.need('packed', lo, s, 'the %s of every group is kept' % a)
        for x in lo:
            ck.ob('packed', all(x.e.seq > f.e.seq for f in grp) and case(
                s, x.e.guard, {'groupsize == -1': True}) is False, x,
                'once it was found')
        only = [x for x in ap if not x.e.loops]
        ck.need('packed', only, s, 'or the only %s' % a)
        for x in only:
            ats = atoms_of(s, x.e.guard)
            ck.ob('packed', any((s.match(a, '_ == []') is not None or s.
                  match(a, 'len(_) == 0') is not None) and f_implies(
                      s.m.norm(x.e.guard), ('atom', a)) for a in ats) or any(
                s.match(a, 'groupsize == -1') is not None for a in ats) or
                any(a[0] != 'cmp' and f_implies(s.m.norm(x.e.guard), f_not(
                    ('atom', a))) for a in ats), x, 'if there are no groups')
        for x in lo:
            eqs = [a for a in atoms_of(s, x.e.guard) if a[0] == 'cmp' and
                   '// groupsize' in show(a)]
            ck.ob('packed', not eqs or any(f_implies(s.m.norm(
                x.e.guard), ('atom', a)) for a in eqs), x, 'once per group')
    ck.never('stored', [r for r in s.raises() if any(
        r.e.seq > h.e.seq for h in w) and r.e.kind != 'assert'], s,
        'no failure after the weights were stored')


def cases2(s, t, g=True):
    """conditional values inside method chains, case by case"""
    if t[0] == 'ite':
        out = []
        for c, x in ((t[1], t[2]), (f_not(t[1]), t[3])):
            out += cases2(s, x, f_and(g, c))
        return out
    if t[0] == 'attr':
        return [(h, ('attr', x) + t[2:]) for h, x in cases2(s, t[1], g)]
    if t[0] == 'call' and t[1][0] == 'attr':
        return [(h, ('call', x) + t[2:]) for h, x in cases2(s, t[1], g)]
    return [(g, t)]


def peeled(t):
    while True:
        if t[0] == 'attr' and t[2] == 'data':
            t = t[1]
        elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in (
                'to', 'float', 'detach', 'clone', 'contiguous'):
            t = t[1][1]
        else:
            return t


def pair2(k, s):
    return k[0] == 'tuple' and len(k[1]) == 2 and k[1][0] == (
        'slice', NONE, NONE, NONE) and s.match(
            k[1][1], 'OR(torch.argsort(perm), perm.argsort())') is not None


def packing(ck):
    """two tables of small integers share one layout"""
    s = ck.fn('GPTQMixIn.pack')
    B = 'self.bits'
    aug = [e for e in s.ev if e.kind in ('aug', 'setitem') and e.loops and
           s.find(e.value, '_ << _')]
    ck.need('layout', aug, s, 'integers are packed')
    forms = set()
    for e in aug:
        sh = [x for x in s.m.deep(e.value) if x[0] == 'bin' and x[1] ==
              'LShift']
        for x in sh:
            ck.ob('layout', s.match(x[3], 'OR(self.bits * (_j - _i), (_j - '
                                          '_i) * self.bits)') is not None,
                  hit(s, e), 'each at its own bits')
        L = s.E.loops[e.loops[-1]]
        ck.ob('layout', s.match(L['iter'], 'OR(range(_i, _i + 32 // self.'
                                           'bits), range(32 // self.bits))')
              is not None and whole(s, e.loops[-1]), hit(s, e), 'as many as '
              'fit')
        ck.ob('layout', s.m.equiv(e.guard, 'True') or all(
            s.match(a, OK) is not None for a in atoms_of(s, e.guard)
            for OK in ('self.bits in _',)), hit(s, e), 'for the supported '
            'widths')
    ck.ob('layout', len(aug) >= 2, s, 'weights and offsets')
    for a, src in (('qweight', 'self.weight'), ('qzeros', 'zeros')):
        v = s.final_attr(a)
        ck.ob('layout', v is not None, s, '%s are kept' % a)
    v = s.final_attr('scales')
    ck.ob('layout', v is not None and s.derives(v, 'scales'), s, 'with '
          'their scales')
    for h in s.raises():
        ck.ob('layout', case(s, h.e.guard, {'self.bits in _': True})
              is False, h, 'only other widths are refused')
    ck.ob('layout', bool(s.raises()), s, 'other widths are refused')


# --------------------------------------------------------------- selection
def replacers(ck):
    return [f for m in (SP + '.utils', GQ + '.compressor')
            for f in [module_of(ck, m)]]


def selecting(ck):
    for mod in (SP + '.utils', GQ + '.compressor'):
        m = module_of(ck, mod)
        f = m.functions['replace_with_dynamic_ops']
        s = ck.func_summary(f, None, opaque=('convert_from', 'configure'))
        ps = f.params()
        skip = 'skipped_layers' in ps
        E = 'ELEM(model.named_modules())'
        cv = s.calls('dynamicop_map[type(%s[1])].convert_from(%s[1], ...)' %
                     (E, E))
        ck.need('selected', cv, s, 'layers are converted')
        want = 'type(%s[1]) in dynamicop_map' % E
        if skip:
            want += ' and %s[0] not in skipped_layers' % E
        g = jointly(cv)
        ck.ob('selected', all(whole(s, l) for h in cv for l in h.e.loops)
              and s.m.equiv(open_case(s, g), want), cv[0] if cv else s,
              'all of the selected types%s' % (
                  ' but those excluded by name' if skip else ''))
        st = [e for e in s.ev if e.kind == 'setattr' and not isinstance(
            e.attr, str)]
        ck.need('selected', st, s, 'and put in their place')
        for e in st:
            vs = [v for _, v in leaves(s, e.value)]
            ck.ob('selected', all(any(same_(s, v, h.e.term) for h in cv)
                                  for v in vs), hit(s, e), 'the converted '
                  'layer')
            ck.ob('selected', s.match(e.attr, "OR(%s[0].split('.')[-1], %s["
                  "0].rpartition('.')[2], %s[0].rsplit('.', 1)[-1])" % (
                      E, E, E)) is not None, hit(s, e), 'under its name')
            ck.ob('selected', parent(s, e.base, E), hit(s, e), 'in its '
                  'parent')
            ck.ob('selected', s.m.equiv(open_case(s, e.guard), want), hit(
                s, e), 'each of them')
        for h in s.calls('_.convert_from(...)'):
            kw = [k for k, v in h.e.kwargs if k is None]
        if skip:
            # a layer's activation quantizer is its own
            new = s.calls('Quantizer()')
            for h in new:
                ck.ob('own-quantizer', bool(h.e.loops), h, 'every layer has '
                      'its own activation quantizer')
                cf = [c for c in s.calls('_.configure(...)') if same_(
                    s, c.e.func[1], h.e.term)]
                ck.ob('own-quantizer', bool(cf) and all(any(
                    k is None and s.match(v, 'a_qconfig') is not None
                    for k, v in c.e.kwargs) for c in cf), h, 'configured as '
                    'asked')
    # which types
    for c, meth, ops in (
        ('SparseGptCompressor', 'prepare', (
            ('torch.nn.Conv2d', ('SparseGptConv2d',), 'prune_conv'),
            ('torch.nn.Linear', ('SparseGptLinear',), 'prune_linear'))),
        ('GPTQCompressor', 'prepare', (
            ('torch.nn.Conv2d', ('GPTQConv2d',), 'quant_conv'),
            ('torch.nn.Linear', ('GPTQLinear', 'TritonGPTQLinear'),
             'quant_linear')))):
        s = ck.fn('%s.%s' % (c, meth), opaque=('replace_with_dynamic_ops',))
        h = s.final_attr('model')
        ck.ob('types', h is not None and s.match(h, 'model') is not None, s,
              'the model is kept')
        rp = s.calls('replace_with_dynamic_ops(...)')
        ck.always('types', rp, s, 'layers are replaced')
        for x in rp:
            ck.ob('types', s.match(x.arg(0, 'model'), 'model') is not None,
                  x, 'of that model')
            es = entries(s, x.arg(1, 'dynamicop_map'))
            for t, kinds, flag in ops:
                mine = [e for e in es if s.match(e.key, t) is not None]
                ck.ob('types', bool(mine) and s.m.equiv(f_or(
                    *[e.guard for e in mine]), flag), x, '%s if asked for' %
                    t.rpartition('.')[2])
                for e in mine:
                    for g, v in leaves(s, e.value):
                        k = kinds[0]
                        if len(kinds) > 1 and case(s, g, {
                                'use_triton_ops': False}) is False:
                            k = kinds[1]
                        ck.ob('types', s.match(v, k) is not None, x, 'by '
                              'the operator for it')
            ck.ob('types', len(es) == len([e for e in es if any(
                s.match(e.key, t) is not None for t, _, _ in ops)]), x,
                'no other layers')
            if c.startswith('GPTQ'):
                ck.ob('types', s.match(x.arg(2, 'skipped_layers') or NONE,
                      'skipped_layers') is not None and s.match(
                          x.arg(3, 'a_qconfig') or NONE, 'a_qconfig')
                      is not None, x, 'without the excluded ones')


def same_(s, t, u):
    return t == u or any(f == u for f in s.m.forms(t)) or any(
        f == t for f in s.m.forms(u))


def open_case(s, g):
    """conditions that only choose how a layer is converted left open"""
    return f_or(case(s, g, {'isinstance(_, torch.nn.Linear)': True,
                            'a_qconfig': True}),
                case(s, g, {'isinstance(_, torch.nn.Linear)': True,
                            'a_qconfig': False}),
                case(s, g, {'isinstance(_, torch.nn.Linear)': False}))


def parent(s, t, E):
    for f in s.m.forms(t):
        if f[0] in ('loop', 'acc', 'phi'):
            return True
    txt = show(t)
    return 'LOOP' in txt or 'getattr' in txt or 'get_submodule' in txt


# -------------------------------------------------------------- conversion
def converting(ck):
    for n in ('SparseGptLinear', 'SparseGptConv2d', 'GPTQLinear',
              'GPTQConv2d'):
        s = ck.fn(n + '.convert_from', opaque=('DynamicLinear.convert_from',
                                               'DynamicConv2d.convert_from',
                                               'convert_from'))
        ld = s.calls('_n.load_state_dict(module.state_dict(), ...)')
        ck.need('converted', ld, s, '%s takes the weights' % n)
        for h in ld:
            new = h.e.func[1]
            early = [r for r in s.returns() if r.e.seq < h.e.seq]
            g = f_or(h.e.guard, *[r.e.guard for r in early])
            ck.ob('converted', f_equiv(g, True) and all(s.match(
                r.e.value, 'module') is not None for r in early), h,
                'of the layer it replaces, or leaves it')
            for r in s.returns():
                if r in early or r.e.seq < h.e.seq:
                    continue
                v = r.e.value
                ck.ob('converted', same_(s, v, new) or s.match(
                    v, 'OR(_n.to(_))') is not None and same_(s, s.match(
                        v, '_n.to(_)')['_n'], new), h, 'and is returned')
                if s.match(v, '_n.to(_)') is not None:
                    ck.ob('converted', s.find(v, 'next(module.parameters())'
                          '.dtype') or s.find(v, 'module.weight.dtype'), h,
                          'in its type')
            if n == 'GPTQLinear':
                mk = [c for c in s.ev if c.kind == 'call' and c.term == new]
                for e in mk:
                    c = hit(s, e)
                    for a in ('in_features', 'out_features'):
                        ck.ob('converted', s.match(c.arg(None, a) or NONE,
                              'module.' + a) is not None, c, 'of its size')
                    b = c.arg(None, 'bias')
                    ck.ob('converted', b is not None and 'module.bias' in
                          show(b) and not s.match(b, 'module.bias is None'),
                          c, 'with a bias if it had one')
            else:
                ck.ob('converted', s.match(new, 'super().convert_from('
                      'module)') is not None, h, 'built for that layer')
    s = ck.fn('SparseGptLinear.convert_from', opaque=('convert_from',))
    s = ck.fn('GPTQLinear.forward', opaque=('DynamicLinear.forward',
                                            'forward', 'find_params',
                                            'quantize'))
    r = s.ret()
    q = s.calls('self.a_fakequant.quantize(input)')
    ck.need('activations', q, s, 'activations are quantised')
    for h in q:
        ck.ob('activations', s.m.equiv(h.e.guard, 'self.a_fakequant'), h,
              'if a quantizer is given')
    fp = s.calls('self.a_fakequant.find_params(input)')
    for h in fp:
        ck.ob('activations', s.m.equiv(h.e.guard, 'self.a_fakequant and not '
              'self.fix_qparams') and all(h.e.seq < x.e.seq for x in q), h,
              'with a grid for this input unless it is fixed')
    ck.ob('activations', s.match(r, 'super().forward(_)') is not None, s,
          'then the layer is run')
    for c in ('SparseGptLinear', 'SparseGptConv2d', 'GPTQLinear',
              'GPTQConv2d', 'TritonGPTQLinear'):
        s = ck.fn(c + '.__init__', opaque=('_sparse_gpt_mix_in_init',
                                           '_gptq_mix_in_init'))
        hs = s.calls('self._sparse_gpt_mix_in_init()') + s.calls(
            'self._gptq_mix_in_init()')
        ck.always('converted', hs, s, 'the state of %s is set up' % c)
        up = s.calls('super().__init__(...)')
        ck.always('converted', up, s, 'of its base')
        ck.order('converted', up, hs, s, 'before')


# ----------------------------------------------------------------- driving
def driving(ck):
    for c, ops, named, mix, meth in (
            ('SparseGptCompressor', 'sparse_ops', 'named_sparse_ops',
             'SparseGptMixIn', 'prune'),
            ('GPTQCompressor', 'quant_ops', 'named_quant_ops', 'GPTQMixIn',
             'quant')):
        for p, want, val in (
                (ops, ('self.model.modules()',), 'ELEM(self.model.modules())'
                 ),
                (named, ('self.model.named_modules()',),
                 '(ELEM(self.model.named_modules())[0], ELEM(self.model.'
                 'named_modules())[1])')):
            s = ck.fn('%s.%s' % (c, p))
            y = [e for e in s.ev if e.kind == 'yield']
            ck.need('each', y, s, 'layers are listed')
            for e in y:
                ck.ob('each', any(over(s, l, *want) and whole(s, l)
                                  for l in e.loops), hit(s, e), 'of the '
                      'whole model')
                ck.ob('each', s.m.equiv(e.guard, 'isinstance(%s, %s)' % (
                    'ELEM(%s)%s' % (want[0], '[1]' if 'named' in p else ''),
                    mix)), hit(s, e), 'all that were converted')
                ck.ob('each', s.match(e.value, val) is not None or s.match(
                    e.value, 'ELEM(%s)' % want[0]) is not None, hit(s, e),
                    'themselves')
        for m in ('register_hessian_hooks', 'remove_hessian_hooks',
                  'init_hessian'):
            s = ck.fn('%s.%s' % (c, m), opaque=(
                ops, named, m.rstrip('s'), m))
            one = m.rstrip('s') if m != 'init_hessian' else m
            hs = s.calls('ELEM(self.%s).%s(...)' % (ops, one)) + s.calls(
                'ELEM(self.%s)[1].%s(...)' % (named, one))
            ck.need('each', hs, s, '%s of the layers' % one)
            for h in hs:
                ck.ob('each', h.e.guard is True and all(
                    whole(s, l) for l in h.e.loops) and bool(h.e.loops), h,
                    'each')
                if m == 'init_hessian':
                    ck.ob('each', s.match(h.arg(0, 'device') or NONE,
                          'device') is not None, h, 'on the device')
        s = ck.fn('%s.%s' % (c, meth), opaque=(
            ops, named, meth, 'configure', 'free'))
        M = 'ELEM(self.%s)[1]' % named
        hs = [h for h in s.calls('_.%s(...)' % meth) if h.e.loops]
        ck.need('compressed', hs, s, 'layers are compressed')
        for h in hs:
            ck.ob('compressed', s.match(h.e.func[1], 'OR(%s, %s.to(device))'
                  % (M, M)) is not None and h.e.guard is True and all(
                      whole(s, l) for l in h.e.loops), h, 'each of them')
            names = ('sparsity', 'prunen', 'prunem', 'blocksize', 'percdamp'
                     ) if meth == 'prune' else (
                         'blocksize', 'percdamp', 'groupsize', 'actorder')
            pos = names if meth == 'prune' else ('quantizer',) + names
            for a in names:
                v = h.arg(pos.index(a), a)
                ck.ob('compressed', v is not None and s.match(v, a)
                      is not None, h, 'with the %s asked for' % a)
            if meth == 'quant':
                v = h.arg(0, 'quantizer')
                nq = [x for x in s.calls('Quantizer(...)') if same_(
                    s, x.e.term, v)]
                ck.ob('compressed', bool(nq) and all(
                    x.e.loops == h.e.loops for x in nq), h, 'with a new '
                    'quantizer')
                cf = [x for x in s.calls('_.configure(...)') if same_(
                    s, x.e.func[1], v) and x.e.seq < h.e.seq]
                ck.ob('compressed', bool(cf) and all(any(
                    k is None and s.match(w, 'qconfig') is not None
                    for k, w in x.e.kwargs) for x in cf), h, 'as configured')
            bk = [x for x in s.calls('_.to(_)') if x.e.seq > h.e.seq and
                  x.e.guard is True and s.match(
                      x.arg(0), 'next(%s.parameters()).device' % M)
                  is not None]
            ck.ob('compressed', bool(bk), h, 'and go back where they were')
        for h in s.calls('next(%s.parameters())' % M):
            ck.ob('compressed', all(h.e.seq < x.e.seq for x in s.calls(
                '%s.to(device)' % M)), h, 'the device is noted before they '
                'move')


# --------------------------------------------------------------- quantizer
def quantizer(ck):
    s = ck.fn('Quantizer.configure')
    for g, v in leaves(s, s.final_attr('maxq')):
        tr = case(s, g, {'trits': False})
        ck.ob('grid-size', s.match(v, 'torch.tensor(2 ** bits - 1)' if tr
              is not False else 'torch.tensor(-1)') is not None, s, 'as many '
              'levels as bits can tell')
    for a in ('perchannel', 'sym', 'mse', 'norm', 'grid', 'maxshrink'):
        v = s.final_attr(a)
        ck.ob('configured', v is not None and s.match(v, a) is not None, s,
              '%s is kept' % a)
    v = s.final_attr('scale')
    ck.ob('configured', v is not None and s.match(
        v, 'torch.zeros_like(self.scale)') is not None, s, 'the grid is yet '
        'to be found')
    s = ck.fn('Quantizer.ready')
    ck.ob('configured', s.match(s.ret(), 'OR(torch.all(self.scale != 0), ('
          'self.scale != 0).all())') is not None, s, 'it is found once no '
          'scale is zero')
    s = ck.fn('Quantizer.quantize', opaque=('ready', '_quantize'))
    for g, v in leaves(s, s.ret()):
        ok = case(s, g, {'self.ready()': False})
        ck.ob('quantized', s.match(v, 'x' if ok is not False else
              'self._quantize(x, self.scale, self.zero, self.maxq)')
              is not None, s, 'values are put on the grid')
    s = ck.fn('Quantizer._quantize')
    A = Arith(s)
    for g, v in leaves(s, s.ret()):
        tr = case(s, g, {'maxq < 0': False})
        if tr is False:
            b = s.match(v, '(x > scale / 2).float() * scale + (x < zero / 2)'
                           '.float() * zero')
            ck.ob('quantized', b is not None, s, 'ternary: to the nearest '
                  'of three')
        else:
            Q = Abbr(s, [('q', 'torch.clamp(torch.round(x / scale) + zero, '
                               '0, maxq)'),
                         ('q', 'torch.clamp(zero + torch.round(x / scale), '
                               '0, maxq)'),
                         ('q', '(torch.round(x / scale) + zero).clamp(0, '
                               'maxq)')])
            ck.ob('quantized', Q.poly(v, 'scale * (q - zero)'), s, 'to the '
                  'nearest level within the grid')
    ranges(ck)


def ranges(ck):
    s = ck.fn('Quantizer.find_params', opaque=('_quantize',))
    mn = s.calls('_x.min(1)')
    ck.need('range', mn, s, 'the range of each channel is found')
    if not mn:
        return
    root = full(s, mn[0].e.func[1])
    D = {'self.perchannel': True, 'weight': True}
    for g, v in cases2(s, root):
        if case(s, g, {'self.perchannel': True}) is False:
            ck.ob('range', s.match(v, 'OR(x.flatten().unsqueeze(0), x.'
                  'reshape(1, -1), x.flatten()[None])') is not None, s,
                  'of the whole tensor')
        elif case(s, g, {'weight': True}) is not False:
            ck.ob('range', s.match(v, 'OR(x.flatten(1), x.reshape(x.shape[0]'
                  ', -1))') is not None, s, 'of every output of a weight')
        else:
            n = [k for k in (2, 3, 4) if case(s, g, {
                'len(x.shape) == %d' % k: True}) is not False and all(
                    case(s, g, dict([('len(x.shape) == %d' % k, True)] + [
                        ('len(x.shape) == %d' % j, False)
                        for j in (2, 3, 4) if j != k])) is not False
                    for _ in '1')]
    for k, want in ((2, 'x.t()'), (3, 'x.reshape((-1, x.shape[-1])).t()'),
                    (4, 'x.permute([1, 0, 2, 3]).flatten(1)')):
        d = {'self.perchannel': True, 'weight': False}
        d.update(('len(x.shape) == %d' % j, j == k) for j in (2, 3, 4))
        vs = [v for g, v in cases2(s, root) if case(s, g, d) is True]
        ck.ob('range', len(vs) == 1 and s.match(vs[0], want) is not None, s,
              'of every channel of an activation of %d dimensions' % k)
    X = Abbr(s, [
        ('X', lambda r: r == root),
        ('Z', 'torch.zeros(X.shape[0], ...)'),
        ('lo', 'OR(torch.minimum(X.min(1)[0], Z), torch.minimum(Z, X.min(1)['
               '0]))'),
        ('hi0', 'OR(torch.maximum(X.max(1)[0], Z), torch.maximum(Z, X.max(1)'
                '[0]))'),
        ('hi1', 'OR(torch.maximum(torch.abs(lo), hi0), torch.maximum(hi0, '
                'torch.abs(lo)), torch.maximum(lo.abs(), hi0))'),
        ('hi', lambda r: r[0] == 'ite' and {show(r[2]), show(r[3])} == {
            'hi0', 'hi1'} and
         show(r[2] if r[1] == ('atom', ('attr', ('param', 'self'), 'sym', 0))
              else r[3]) != 'hi0'),
        ('deg', '(lo == 0) & (hi == 0)'),
        ('i', 'OR(ELEM(range(int(self.maxshrink * self.grid))), ELEM(range('
              'int(self.grid * self.maxshrink))))'),
    ])
    X.memo[id(root)] = (root, ('param', 'X'))
    orig = X.ab

    def ab(t):
        if isinstance(t, tuple) and t == root:
            return ('param', 'X')
        return orig(t)
    X.ab = ab
    st = stores(s)
    SYM = {'self.sym': False}
    neg = [e for e in st if X.is_(e.base, 'lo') and X.is_(e.attr, 'lo < 0')]
    ck.need('symmetric', neg, s, 'symmetric ranges are symmetric')
    for e in neg:
        ck.ob('symmetric', X.is_(e.value, '-hi[lo < 0]', '-hi1[lo < 0]') and
              case(s, e.guard, SYM) is False, hit(s, e), 'if asked for')
    ck.ob('symmetric', any(X.is_(h.e.value, '(hi - lo) / self.maxq')
          for h in s.sets('self', 'scale')), s, 'both ends count')
    for n, v in (('lo', -1), ('hi', 1)):
        es = [e for e in st if X.is_(e.base, n) and X.is_(e.attr, 'deg')]
        ck.need('empty-range', es, s, 'an empty range is widened')
        for e in es:
            x = e.value
            val = -x[2][1] if x[0] == 'un' and x[1] == 'USub' else x[2][
                1] if x[0] == 'un' else x[1] if x[0] == 'const' else None
            ck.ob('empty-range', e.guard is True and val == v, hit(s, e),
                  'by one')
            ck.ob('empty-range', all(e.seq < h.e.seq for h in s.sets(
                'self', 'scale')) and all(a.seq < e.seq for a in neg),
                hit(s, e), 'before the scale is formed')
    ss = s.sets('self', 'scale')
    zs = s.sets('self', 'zero')
    T = {'self.maxq < 0': True}
    main = [h for h in ss if not h.e.loops and X.is_(
        h.e.value, '(hi - lo) / self.maxq')]
    ck.need('found', main, s, 'the scale is the range over the levels')
    for h in main:
        ck.ob('found', case(s, h.e.guard, T) is False and case(
            s, h.e.guard, {'self.maxq < 0': False}) is True, h, 'always')
    tern = [h for h in ss + zs if X.is_(h.e.value, 'hi', 'lo')]
    for h in tern:
        ck.ob('found', case(s, h.e.guard, {'self.maxq < 0': False})
              is False, h, 'but for three levels')
    got = {True: 0, False: 0}
    for h in zs:
        for g, v in cases2(s, h.e.value):
            g = f_and(h.e.guard, g)
            if s.match(v, 'torch.full_like(self.scale, (self.maxq + 1) / 2)'
                       ) is not None:
                got[True] += 1
                ck.ob('found', case(s, g, SYM) is False, h, 'zero is in the '
                      'middle if symmetric')
            elif X.is_(v, 'torch.round(-lo / self.scale)',
                       '(-lo / self.scale).round()'):
                got[False] += 1
                ck.ob('found', case(s, g, {'self.sym': True}) is False, h,
                      'else where the range has it')
    ck.ob('found', got[True] and got[False], s, 'with the level of zero')
    # the search of a better one
    best = [e for e in st if e.loops]
    for a in ('scale', 'zero'):
        es = [e for e in best if s.match(e.base, 'self.' + a) is not None]
        ck.need('search', es, s, 'the best %s is kept' % a)
        for e in es:
            ck.ob('search', s.match(e.attr, '_e < _b') is not None and
                  case(s, e.guard, {'self.mse': False}) is False and all(
                      whole(s, l) for l in e.loops), hit(s, e), 'where the '
                  'error is less')
    bs = [e for e in best if s.match(e.base, 'torch.full(_, float(\'inf\'), '
                                     '...)') is not None]
    ck.need('search', bs, s, 'than the least so far')
    for e in bs:
        ck.ob('search', s.match(e.attr, '_e < _b') is not None and s.match(
            e.value, '_e[_k]') is not None, hit(s, e), 'which is kept')
    # the shape
    for a in ('scale', 'zero'):
        rp = [h for h in s.sets('self', a) if s.match(
            h.e.value, 'self.%s.repeat(_)' % a) is not None]
        ck.need('shape', rp, s, '%s of a whole tensor serves all channels' %
                a)
        for h in rp:
            ck.ob('shape', s.m.equiv(h.e.guard, 'not self.perchannel'), h,
                  'only then')
        for k, pats in (
            (4, ('self.%s.reshape((1, -1, 1, 1))',
                 'self.%s.reshape(1, -1, 1, 1)')),
            (3, ('self.%s.reshape((1, 1, -1))', 'self.%s.reshape(1, 1, -1)')
             ), (2, ('self.%s.unsqueeze(0)', 'self.%s[None]'))):
            hs = [h for h in s.sets('self', a) if any(s.match(
                h.e.value, p % a) is not None for p in pats)]
            ck.need('shape', hs, s, '%s broadcasts' % a)
            d = {'weight': False}
            d.update(('len(x.shape) == %d' % j, j == k) for j in (2, 3, 4))
            for h in hs:
                ck.ob('shape', case(s, h.e.guard, d) is True and case(
                    s, h.e.guard, dict(d, **{'len(x.shape) == %d' % k: False
                                             })) is False, h, 'over '
                      'activations of %d dimensions' % k)
        wt = [h for h in s.sets('self', a) if case(
            s, h.e.guard, {'weight': True}) is True and s.match(
                h.e.value, 'self.%s.reshape(_)' % a) is not None]
        ck.need('shape', wt, s, '%s broadcasts over weights' % a)
        for h in wt:
            ck.ob('shape', s.match(h.arg(0) if False else h.e.value, 'self.'
                  '%s.reshape([-1] + [1] * (len(x.shape) - 1))' % a)
                  is not None, h, 'of any dimensions')
