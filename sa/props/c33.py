"""C33 distillation losses: detach, weight and reduction settings."""
import ast
from .arith import *
from .c21 import possible

PKG = 'mmrazor.models.losses'
# reductions each criterion can apply
CAN = {'kl_div': {'none', 'batchmean', 'sum', 'mean'},
       'l1_loss': {'none', 'mean', 'sum'}, 'mse_loss': {'none', 'mean',
                                                        'sum'},
       'smooth_l1_loss': {'none', 'mean', 'sum'},
       'soft_cross_entropy': {'none', 'mean', 'sum'},
       'cross_entropy': {'none', 'mean', 'sum'}}
TEACHER = ('preds_T', 'logits_T', 'teacher', 't_feature', 't_feats', 'feat_T',
           't_input')
STUDENT = ('preds_S', 'logits_S', 'student', 's_feature', 's_feats',
           's_input')


def check(ck):
    ck.sections(weights, detach, reductions, gradients, modulation)


def losses(ck):
    out = []
    for n, m in sorted(ck.prog.modules.items()):
        if not n.startswith(PKG):
            continue
        for c in m.classes.values():
            if any('MODELS' in ast.dump(d) for d in c.node.decorator_list):
                out.append(c)
    ck.floor('registered losses', len(out), 12)
    return out


def own_init(ck, c):
    """the constructor whose parameters a configuration names"""
    f = ck.prog.lookup(c, '__init__')
    while f is not None and f.node.args.kwarg is not None and not \
            parameter(f, 'loss_weight'):
        up = [k for k in ck.prog.mro(f.cls) if not isinstance(k, str)
              and k is not f.cls and '__init__' in k.methods]
        if not up:
            break
        f = up[0].methods['__init__']
    return f


def parameter(f, name):
    a = f.node.args
    return name in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def settings(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]


def forward(ck, c):
    f = ck.prog.lookup(c, 'forward')
    return None if f is None else ck.func_summary(f, c)


def stores(ck, c):
    """{attribute: [(guard, value)]} after construction"""
    f = own_init(ck, c)
    s = ck.func_summary(f, c)
    return f, s


def results(s):
    return [(g, v) for g, v in cases(s, s.ret()) if possible(s, g) and
            v not in (None, NONE)]


# ----------------------------------------------------------------- weights
def is_weight(n):
    return n.endswith('_weight') or n in ('alpha', 'beta', 'alpha_mgd')


def weights(ck):
    total = 0
    for c in losses(ck):
        f, si = stores(ck, c)
        ws = [p for p in settings(f) if is_weight(p)]
        if not ws:
            continue
        fw = forward(ck, c)
        if fw is None:
            ck.ob('weight', False, c, '%s has no forward' % c.name)
            continue
        for h in chained(ck, c):
            ck.ob('weight-passed', h[0], c, '%s hands its settings on to '
                  'the constructor that stores them' % c.name)
        for w in ws:
            hs = si.sets('self', w)
            ck.need('weight-kept', hs, si, '%s keeps %s' % (c.name, w))
            for h in hs:
                v = si.m.norm and h.e.value
                ck.ob('weight-kept', all(
                    x == ('param', w) for g, x in leaves(si, si.match(
                        v, 'float(_v)') and si.match(v, 'float(_v)')['_v']
                        or v)), h, 'as configured')
            ck.ob('weight-kept', f_equiv(si.m.skey(jointly(hs)), True), si,
                  'on every path')
            A = Arith(fw, {'W': 'self.' + w})
            rs = results(fw)
            ins = settings(fw.func)
            ck.ob('weight', bool(rs), fw, '%s returns its loss' % c.name)
            for g, v in rs:
                p = A.of(v)
                total += 1
                deg = [dict(m).get('W', 0) for m in p]
                hidden = [a for m in p for a, x in m if a != 'W' and
                          ('self.%s' % w) in a]
                if w == 'loss_weight' or ws == [w]:
                    ck.ob('weight-once', bool(p) and all(
                        d == 1 for d in deg), fw, 'every part of the loss '
                        'of %s is multiplied by %s once [%s]' % (
                            c.name, w, canon(p)))
                else:
                    ck.ob('weight-once', 1 in deg and set(deg) <= {0, 1}, fw,
                          'a part of the loss of %s is multiplied by %s once '
                          '[%s]' % (c.name, w, canon(p)))
                ck.ob('weight-once', of_inputs(p, ins), fw, 'what %s scales is the loss of %s '
                    '[%s]' % (w, c.name, canon(p)))
                ck.ob('weight-once', not hidden, fw, '%s scales the loss of '
                      '%s from outside [%s]' % (w, c.name, canon(p)))
            late = [h for f2, s2 in methods(ck, c) for h in
                    s2.sets('self', w)]
            ck.ob('weight-kept', not late, late[0] if late else c, '%s of %s '
                  'is not changed later' % (w, c.name))
        # parts with weights of their own: no part has two of them, none
        # is without one
        part = [w for w in ws if w != 'loss_weight']
        if 'loss_weight' in ws and len(part) > 1:
            A = Arith(fw, dict({'W%d' % i: 'self.' + w
                                for i, w in enumerate(part)}))
            for g, v in results(fw):
                for m in A.of(v):
                    n = sum(x for a, x in m if re_w(a))
                    ck.ob('part-weight', n == 1, fw, 'every part of the loss '
                          'of %s has exactly one weight of its own [%s]' % (
                              c.name, canon({m: 1})))
    ck.floor('weighted results', total, 15)


def of_inputs(p, ins):
    """the inputs enter as factors, not only as divisors"""
    seen = False
    for m in p:
        xs = [x for a, x in m if any(q in a for q in ins)]
        seen = seen or bool(xs)
        if xs and max(xs) <= 0:
            return False
    return seen


def re_w(a):
    return a[:1] == 'W' and a[1:].isdigit()


def chained(ck, c):
    """constructors with ** settings hand them on"""
    out = []
    f = ck.prog.lookup(c, '__init__')
    if f.node.args.kwarg is not None:
        n = f.node.args.kwarg.arg
        ok = any(isinstance(x, ast.Call) and isinstance(
            x.func, ast.Attribute) and x.func.attr == '__init__' and any(
                k.arg is None and isinstance(k.value, ast.Name) and
                k.value.id == n for k in x.keywords)
            for x in ast.walk(f.node))
        out.append((ok, f))
    return out


def methods(ck, c):
    for k in ck.prog.mro(c):
        if isinstance(k, str) or not k.module.name.startswith(PKG):
            continue
        for n, f in k.methods.items():
            if n != '__init__':
                yield f, ck.func_summary(f, c)


# ------------------------------------------------------------------ detach
def attached(s, t, p):
    """occurrences of parameter p that keep the gradient"""
    t = full(s, t)
    out = []

    def go(x, depth=0):
        if not isinstance(x, tuple) or not x:
            return
        if x == ('param', p):
            out.append(x)
            return
        if x[0] == 'call' and x[1][0] == 'attr' and x[1][2] in (
                'detach', 'item') or x[0] == 'attr' and x[2] in (
                    'data', 'shape', 'device', 'dtype'):
            return
        if x[0] == 'call' and x[1][0] == 'attr' and x[1][2] in (
                'size', 'numel', 'dim', 'argmax'):
            return
        for y in x:
            if isinstance(y, tuple):
                go(y)
    go(t)
    return out


def sides(f):
    ps = settings(f)
    t = [p for p in ps if p in TEACHER]
    st = [p for p in ps if p in STUDENT]
    return st, t


def detach(ck):
    n = 0
    for c in losses(ck):
        f, si = stores(ck, c)
        fw = forward(ck, c)
        if fw is None:
            continue
        st, te = sides(fw.func)
        flag = [p for p in settings(f) if 'detach' in p]
        for p in flag:
            hs = si.sets('self', p)
            ck.need('detach-kept', hs, si, '%s keeps %s' % (c.name, p))
            for h in hs:
                ck.ob('detach-kept', all(x == ('param', p) for g, x in
                                         leaves(si, h.e.value)), h,
                      'as configured')
            for t in te:
                for on in (True, False):
                    for g, v in results(fw):
                        if not possible(fw, case(fw, g, {'self.' + p: on})):
                            continue
                        v2 = settled(fw, v, 'self.' + p, on)
                        n += 1
                        occ = attached(fw, v2, t)
                        if on:
                            ck.ob('teacher-detached', not occ, fw, '%s is '
                                  'detached wherever it enters the loss of '
                                  '%s when so configured' % (t, c.name))
                        else:
                            ck.ob('teacher-attached', bool(occ), fw, '%s '
                                  'keeps its gradient in the loss of %s when '
                                  'so configured' % (t, c.name))
    ck.floor('detach settings', n, 4)
    # a loss whose target is the class the teacher chose
    fw = ck.fn('CrossEntropyLoss.forward', optional=True)
    if fw is not None:
        for g, v in results(fw):
            ck.ob('teacher-detached', not attached(fw, v, 'preds_T'), fw,
                  'the teacher only chooses the label')


def settled(s, t, flag, on):
    """inner choices on the flag made"""
    f = full(s, t)

    def go(x):
        if x[0] == 'ite':
            g = case(s, x[1], {flag: on})
            if f_equiv(s.m.skey(g), True):
                return x[2]
            if f_equiv(s.m.skey(g), False):
                return x[3]
        return x
    return tmap(f, go)


def gradients(ck):
    """the student side is what a loss trains"""
    for c in losses(ck):
        fw = forward(ck, c)
        if fw is None:
            continue
        st, te = sides(fw.func)
        for p in st:
            for g, v in results(fw):
                ck.ob('student-attached', bool(attached(fw, v, p)), fw,
                      '%s keeps its gradient in the loss of %s' % (
                          p, c.name))
        ck.ob('student-attached', not [h for h in fw.E.events
                                       if in_no_grad(h, fw)], fw,
              'the loss is computed with gradients')


def modulation(ck):
    """a mask or focal weight made of the inputs is no way to lower a loss"""
    n = 0
    for name in ('FBKDLoss', 'WSLD'):
        c = [x for x in losses(ck) if x.name == name]
        if not c:
            continue
        fw = forward(ck, c[0])
        st, te = sides(fw.func)
        for g, v in results(fw):
            for x in walk(full(fw, v)):
                if x[0] == 'bin' and x[1] == 'Mult':
                    a, b = x[2], x[3]
                elif x[0] == 'call' and x[1][0] == 'attr' and x[1][2] in (
                        'mul', 'multiply') and x[2]:
                    a, b = x[1][1] if len(x[2]) == 1 else x[2][0], x[2][-1]
                else:
                    continue
                n += 1
                for p in st + te:
                    ck.ob('weighs-only', not (attached(
                        fw, a, p) and attached(fw, b, p)), fw,
                        'what %s computes of %s to weigh the comparison '
                        'carries no gradient' % (name, p))
    ck.floor('products of a modulated loss', n, 4)


def in_no_grad(e, fw):
    return e.kind == 'return' and any('no_grad' in show(x) if isinstance(
        x, tuple) else False for x in (e.scopes or ()))


# --------------------------------------------------------------- reduction
def reductions(ck):
    n = 0
    for c in losses(ck):
        f, si = stores(ck, c)
        if 'reduction' not in settings(f):
            continue
        n += 1
        sets = accepted(si)
        ck.ob('reduction-validated', bool(sets), si, '%s refuses reductions '
              'it does not know' % c.name)
        hs = si.sets('self', 'reduction')
        ck.need('reduction-kept', hs, si, '%s keeps the reduction' % c.name)
        ck.ob('reduction-kept', f_equiv(si.m.skey(jointly(hs)), True), si,
              'on every path')
        none = True
        for h in hs:
            for g, v in leaves(si, h.e.value, h.e.guard):
                if v == ('param', 'reduction'):
                    none = none and possible(si, case(si, g, {
                        'reduction is None': True}))
                else:
                    ck.ob('reduction-kept', v == ('const', 'none') and
                          si.m.implies(g, 'reduction is None'), h, 'as '
                          'configured')
        fw = forward(ck, c)
        used = [h for h in fw.calls('_(...)') if uses(fw, h)]
        ck.need('reduction-used', used, fw, '%s reduces as configured' %
                c.name)
        for g, v in results(fw):
            ck.ob('reduction-used', any(full(fw, h.e.term) in set(walk(
                full(fw, v))) for h in used), fw, 'in what it '
                  'returns')
        for h in used:
            nm = callee(si, h)
            can = CAN.get(nm)
            if can is None:
                ck.ob('reduction-used', False, h, 'unknown criterion %s' % nm)
                continue
            ck.ob('reduction-known', all(
                ok <= can | ({None} if not none else set())
                for ok in sets), h, 'every reduction %s accepts is one its '
                'criterion can apply [%s]' % (c.name, sorted(
                    str(x) for ok in sets for x in ok - can)))
            for k in ('size_average', 'reduce'):
                v = dict(h.e.kwargs).get(k)
                ck.ob('reduction-used', v is None or v == ('attr', SELF, k,
                      v[3] if len(v) > 3 else 0) or v == NONE, h, 'and is '
                      'not overruled by %s' % k)
        # the reduction of a criterion of the same loss is never fixed
        for h in fw.calls('_(...)'):
            r = dict(h.e.kwargs).get('reduction')
            if r is not None and callee(si, h) in CAN:
                ck.ob('reduction-used', bool(uses(fw, h)), h, 'no criterion '
                      'reduces otherwise')
    ck.floor('losses with a reduction', n, 2)


def accepted(s):
    """sets of values outside which the constructor refuses"""
    out = []
    f = s.m.norm(refused(s))
    for a in f_atoms(f):
        if a[0] == 'cmp' and a[1] == 'in' and a[2] == (
                'param', 'reduction') and f_implies(s.m.skey(f_not(
                    ('atom', a))), s.m.skey(f)):
            its = full(s, a[3])
            out.append({x[1] for x in walk(its) if x[0] == 'const'})
    return out


def uses(s, h):
    """the call reduces by self.reduction (an override given to forward
    comes first)"""
    vals = [v for k, v in h.e.kwargs if k == 'reduction']
    if not vals and h.e.callee is None:
        vals = [a for a in h.e.args if 'self.reduction' in show(a)]
    for v in vals:
        ls = leaves(s, v)
        own = [(g, x) for g, x in ls if s.match(x, 'self.reduction')
               is not None]
        rest = [(g, x) for g, x in ls if s.match(x, 'self.reduction')
                is None]
        if own and all(x == ('param', 'reduction_override') and
                       not possible(s, case(s, g, {
                           'reduction_override': False,
                           'reduction_override is None': True}))
                       for g, x in rest) and all(
                possible(s, case(s, g, {
                    'reduction_override': False,
                    'reduction_override is None': True}))
                for g, x in own):
            return True
    return False


def callee(si, h):
    f = h.e.func
    if f[0] == 'global':
        return f[1].rpartition('.')[2]
    if f[0] == 'attr' and f[1] == SELF:
        for x in si.sets('self', f[2]):
            for g, v in leaves(si, x.e.value):
                if v[0] == 'global':
                    return v[1].rpartition('.')[2]
    return f[2] if f[0] == 'attr' else show(f)
