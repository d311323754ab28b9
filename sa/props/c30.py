"""C30 building and running components never edits the caller's configuration.

An alias analysis over all functions: which objects reached from a
configuration parameter (or a mutable default) may a statement modify?"""
import ast
import re

from .common import *
from ..prog import dotted
from ..terms import f_and, f_not

PKG = 'mmrazor'
MUT = {'pop', 'update', 'setdefault', 'append', 'extend', 'insert', 'clear',
       'remove', 'popitem', 'sort', 'reverse', 'merge_from_dict', 'add',
       'discard', '__setitem__', '__delitem__'}
GET = {'get', 'pop', 'setdefault', 'items', 'values', 'popitem',
       '__getitem__'}
COPY = ('dict', 'list', 'tuple', 'set', 'sorted', 'reversed', 'enumerate',
        'zip', 'copy.copy', 'ConfigDict', 'mmengine.config.ConfigDict',
        'mmengine.ConfigDict', 'mmengine.Config', 'mmengine.config.Config',
        'collections.OrderedDict', 'map', 'filter', 'iter', 'next',
        'itertools.chain')
NAMED = re.compile(r'(^|_)(cfg|cfgs|config|configs|args|kwargs|candidates|'
                   r'setting|settings|pipeline|mutators|mappings|recorders|'
                   r'connectors|losses)(_|$)')
# protocols whose contract is to fill in what they are given
PROTOCOL = {'results', 'data', 'state_dict', 'missing_keys',
            'unexpected_keys', 'error_msgs', 'local_metadata', 'message',
            'result', 'outputs', 'memo'}


def check(ck):
    ck.sections(parameters, shared_state, builder)


class Flow:
    """objects a term may be"""

    def __init__(self, s):
        self.s = s
        f = s.func
        a = f.node.args
        self.fresh = {x.arg for x in (a.vararg, a.kwarg) if x is not None}

    def shared(self, t, d=0, content=False):
        """{(root, nested)}: t is this very object"""
        out = set()
        if d > 24:
            return out
        for f in list(self.s.m.forms(t)):
            k = f[0]
            if k == 'param':
                if f[1] not in self.fresh:
                    out.add((f[1], False))
            elif k == 'attr' and isinstance(f[2], str):
                if f[1] == SELF or f[1] == ('param', 'cls'):
                    out.add(('self.' + f[2], False))
                else:
                    out |= self.inside(f[1], d + 1)
            elif k == 'sub':
                if not isslice(f[2]):
                    out |= self.inside(f[1], d + 1)
            elif k == 'elem':
                out |= self.inside(f[1], d + 1)
            elif k == 'ite':
                out |= {(r, n) for r, n in self.shared(f[2], d + 1)
                        if not self.module(f[1], r)}
                out |= self.shared(f[3], d + 1)
            elif k == 'boolop':
                for x in f[2]:
                    if isinstance(x, tuple) and x and x[0] != 'form':
                        out |= self.shared(x, d + 1)
            elif k == 'loopvar':
                if d < 8:
                    out |= self.shared(f[3], d + 1)
                    st = self.s.E.steps.get((f[2], f[1]))
                    if st is not None:
                        out |= self.shared(st, d + 10)
            elif k == 'call':
                fn = f[1]
                if fn[0] == 'attr' and fn[2] in GET:
                    out |= self.inside(fn[1], d + 1)
                    for x in f[2][1:2]:
                        out |= self.shared(x, d + 1)
                elif fn == ('global', 'getattr') and f[2]:
                    out |= self.inside(f[2][0], d + 1)
        return out

    def module(self, g, r):
        """under g, parameter r is a torch container, no configuration"""
        return not r.startswith('self.') and any(
            self.s.m.implies(g, 'isinstance(%s, %s)' % (r, n))
            for n in ('nn.ModuleDict', 'nn.ModuleList', 'nn.Module')) or \
            self.s.m.implies(g, 'not isinstance(%s, dict)' % r) and \
            not re.search(r'[Ll]ist|Seq|Tuple|Any|^$',
                          annotated(self.s.func, r).replace(
                              'ModuleList', ''))

    def inside(self, t, d):
        """{(root, True)}: what t contains is inside of these"""
        out = {(r, True) for r, n in self.shared(t, d + 1)}
        if d > 24:
            return out
        for f in list(self.s.m.forms(t)):
            k = f[0]
            if k == 'param' and f[1] in self.fresh:
                out.add((f[1], True))
            elif k == 'call':
                fn = f[1]
                if fn[0] == 'attr' and fn[2] in ('copy', 'items', 'values'):
                    out |= self.inside(fn[1], d + 1)
                elif fn[0] == 'global' and (fn[1] in COPY):
                    for x in f[2]:
                        out |= self.inside(x, d + 1)
            elif k == 'sub' and isslice(f[2]):
                out |= self.inside(f[1], d + 1)
            elif k == 'comp':
                el = f[2]
                if isinstance(el, tuple) and el and isinstance(el[0], str):
                    out |= {(r, True) for r, n in self.shared(el, d + 1)}
            elif k == 'alloc':
                for x in f[2]:
                    if f[1] == 'dict':
                        key, v = x
                        if key is None or key == NONE or key[0] == 'star':
                            out |= self.inside(v, d + 1)
                    elif isinstance(x, tuple) and x and x[0] == 'star':
                        out |= self.inside(x[1], d + 1)
            elif k == 'ite':
                out |= self.inside(f[2], d + 1) | self.inside(f[3], d + 1)
            elif k == 'boolop':
                for x in f[2]:
                    if isinstance(x, tuple) and x and x[0] != 'form':
                        out |= self.inside(x, d + 1)
        return out


def isslice(t):
    return isinstance(t, tuple) and t and t[0] == 'slice'


def mutations(s):
    """[(event, mutated object)]"""
    for e in s.ev:
        if e.kind == 'call' and e.func[0] == 'attr' and e.func[2] in MUT:
            yield e, e.func[1]
        elif e.kind in ('setitem', 'delitem') or e.kind == 'del' and \
                e.base is not None and not isinstance(e.attr, str):
            yield e, e.base
        elif e.kind == 'setattr' and e.base is not None and e.base != SELF:
            yield e, e.base
        elif e.kind == 'aug' and e.attr in ('+', 'Add', '|', 'BitOr'):
            yield e, e.base     # in place on a list


def attribute(e):
    return e.kind == 'setattr'


def annotated(f, p):
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == p and x.annotation is not None:
            t = ast.unparse(x.annotation)
            for n in f.module.tree.body:    # the alias of a type
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                        isinstance(n.targets[0], ast.Name):
                    t = re.sub(r'\b%s\b' % n.targets[0].id,
                               lambda m: ast.unparse(n.value), t)
            return t
    return ''


def defaults(f):
    return {p: v for p, v in init_defaults(f).items() if isinstance(
        v, (ast.Dict, ast.List, ast.Set)) or isinstance(v, ast.Call) and
        dotted(v.func) in ('dict', 'list', 'set')}


def config(f, p):
    """parameter p holds configuration"""
    if p in ('self', 'cls') or p in PROTOCOL:
        return False
    if p in defaults(f):
        return True
    if NAMED.search(p):
        return True
    an = annotated(f, p)
    return f.qual.endswith('.__init__') and bool(re.search(
        r'\b([Dd]ict|[Ll]ist|Config|ConfigDict|Sequence)\b', an))


def either(f, p):
    """parameter p may as well be a built component"""
    return p not in defaults(f) and not NAMED.search(p) and re.search(
        r'Module|Model|Tensor|Node|Unit|Mutable|Mutator', annotated(f, p))


def keyed(e):
    """modifies an entry of a dictionary"""
    if e.kind in ('setitem', 'delitem', 'del'):
        k = e.attr
    elif e.kind == 'call' and e.func[2] in ('pop', 'setdefault', 'update'):
        if e.func[2] == 'update':
            return True
        k = e.args[0] if e.args else NONE
    else:
        return False
    return isinstance(k, tuple) and k[0] == 'const' and isinstance(k[1], str)


def islist(f, p):
    d = defaults(f).get(p)
    return isinstance(d, ast.List) or bool(re.match(
        r'(Optional\[)?([Ll]ist|Sequence)\b', annotated(f, p)))


def public(f):
    n = f.qual.rpartition('.')[2]
    return not n.startswith('_') or n in ('__init__', '__call__', '__new__')


def functions(ck):
    for n, m in sorted(ck.prog.modules.items()):
        if n.startswith(PKG + '.testing'):
            continue
        for f in m.functions.values():
            yield None, f
        for c in m.classes.values():
            for f in c.methods.values():
                yield c, f


def plain(t):
    """annotation of something which is not a container"""
    return bool(t) and not re.search(r'[Dd]ict|List|Config|Sequence|list|'
                                     r'Union|Any|Optional|Mapping', t)


def parameters(ck):
    n = k = 0
    for c, f in functions(ck):
        ps = [p for p in f.all_params() if config(f, p)]
        a = f.node.args
        if a.kwarg is not None:
            ps.append(a.kwarg.arg)
        if not ps:
            continue
        s = ck.func_summary(f, c)
        fl = Flow(s)
        bad = {}
        for e, b in mutations(s):
            k += 1
            for r, nested in fl.shared(b):
                if attribute(e) and (plain(annotated(f, r)) or not re.search(
                        r'cfg|config', r)):
                    continue
                if r in ps and either(f, r) and not keyed(e):
                    continue
                if e.kind == 'aug' and (nested or not islist(f, r)):
                    continue
                if r in ps:
                    bad.setdefault(r, []).append(e)
        for p in ps:
            if not public(f) and p not in defaults(f):
                continue    # a helper: what it is given is its caller's say
            n += 1
            es = bad.get(p, [])
            ck.ob('left-alone', not es, Hit_(s, es[0]) if es else s,
                  'the %s given to %s is not modified' % (
                      p, f.qual.rpartition('.')[2]),
                  construct='%s %s' % (f.qual, p))
    ck.floor('configuration parameters', n, 200)
    ck.floor('modifications', k, 150)


def Hit_(s, e):
    from ..rules import Hit
    return Hit(s, e, {})


def aliases(ck):
    """{class: {attr: {nested}}} attributes which are the caller's objects"""
    out = {}
    for c, f in functions(ck):
        if c is None or not public(f):
            continue
        ps = [p for p in f.all_params() if config(f, p)]
        if f.node.args.kwarg is not None:
            ps.append(f.node.args.kwarg.arg)
        if not ps:
            continue
        s = ck.func_summary(f, c)
        fl = Flow(s)
        for e in s.ev:
            if e.kind != 'setattr' or e.base != SELF or not isinstance(
                    e.attr, str):
                continue
            for r, nested in fl.shared(e.value):
                if r in ps and not either(f, r) and not fl.module(e.guard, r) and \
                        not replaced(s, e, r):
                    out.setdefault(c.qual, {}).setdefault(
                        e.attr, {}).setdefault(False, (r, f))
            for r, nested in fl.inside(e.value, 0):
                if r in ps and not either(f, r):
                    out.setdefault(c.qual, {}).setdefault(
                        e.attr, {}).setdefault(True, (r, f))
    return out


def replaced(s, e, r):
    """e sets an attribute which is set again whenever r is given"""
    for x in s.ev:
        if x.kind == 'setattr' and x.base == SELF and x.attr == e.attr and \
                x.seq > e.seq and s.m.implies(
                    f_and(e.guard, f_not(x.guard)), '%s is None' % r):
            return True
    return False


def shared_state(ck):
    """what is kept of a configuration is not modified later"""
    al = aliases(ck)
    n = 0
    for name, m in sorted(ck.prog.modules.items()):
        for c in m.classes.values():
            own = {}
            for b in ck.prog.mro(c):
                if isinstance(b, str):
                    continue
                for a, d in al.get(b.qual, {}).items():
                    own.setdefault(a, d)
            lits = {}
            for b in ck.prog.mro(c):
                if isinstance(b, str):
                    continue
                for a, v in b.attrs.items():
                    if isinstance(v, (ast.Dict, ast.List, ast.Set)) or \
                            isinstance(v, ast.Call) and dotted(v.func) in (
                                'dict', 'list', 'set'):
                        lits.setdefault(a, b)
            if not own and not lits:
                continue
            # attributes replaced by something of one's own
            for f in c.methods.values():
                s = ck.func_summary(f, c)
                fl = Flow(s)
                for e, b in mutations(s):
                    if attribute(e) or e.kind == 'aug':
                        continue
                    for r, nested in fl.shared(b):
                        if not r.startswith('self.'):
                            continue
                        a = r[5:]
                        if a in own:
                            n += 1
                            d = own[a]
                            w = d.get(False) or (d.get(True) if nested
                                                 else None)
                            ok = w is None or not nested and \
                                False not in d
                            ck.ob('kept-alone', ok, Hit_(s, e), 'the '
                                  'configuration %s is not modified through '
                                  'self.%s' % (w[0] if w else a, a),
                                  construct='%s.%s' % (f.qual, a))
                        if a in lits and not assigned(ck, c, a) and \
                                not registry(ck, lits[a], a):
                            n += 1
                            ck.ob('own-state', False, Hit_(s, e), 'the '
                                  'default self.%s shared by all instances '
                                  'is not modified' % a,
                                  construct='%s.%s' % (f.qual, a))
    ck.ob('kept-alone', True, 'mmrazor', '%d modifications of kept '
          'configurations examined' % n)


def registry(ck, c, a):
    """a class attribute meant to be shared: it is used as Class.attr"""
    n = c.qual.rpartition('.')[2]
    for m in ck.prog.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and x.attr == a and \
                    dotted(x.value) == n:
                return True
    return False


def assigned(ck, c, a):
    for b in ck.prog.mro(c):
        if isinstance(b, str):
            continue
        for f in b.methods.values():
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign) and any(
                        dotted(t) == 'self.' + a for t in x.targets) or \
                        isinstance(x, ast.AnnAssign) and dotted(
                            x.target) == 'self.' + a:
                    return True
    return False


def builder(ck):
    s = ck.fn('build_razor_model_from_cfg')
    fl = Flow(s)
    for h in s.calls('build_from_cfg(...)'):
        c = h.arg(0, 'cfg') or NONE
        ck.ob('builder', bool(s.find(c, 'cfg')), h, 'the configuration is '
              'built')
    bad = [e for e, b in mutations(s) for r, x in fl.shared(b)
           if r in ('cfg', 'default_args')]
    ck.ob('builder', not bad, Hit_(s, bad[0]) if bad else s, 'and can be '
          'built again')
