"""C29 every shipped component is reachable through its registry.

A model of Python's import system over the sources: which modules run when
`register_all_modules` is called, which names each module defines, and which
component registers under which name in which registry."""
import ast

from .common import *
from ..prog import dotted, walk_own

PKG = 'mmrazor'
REG = 'mmrazor.registry'


def check(ck):
    ck.sections(registries, reachable, names, kinds, exported, imports,
                builder, scope, foreign,
                configured)


class P:
    """place of a construct, as the check reports it"""

    def __init__(self, m, node, text):
        self.path, self.line, self.text_ = m.relpath, node.lineno, text
        self.name = m.name

    def __str__(self):
        return '%s:%d (%s)' % (self.path, self.line, self.text_)


# ------------------------------------------------------------ import model
def own_imports(tree):
    """import statements executed when the module runs"""
    out = []

    def type_only(t):
        return (dotted(t) or '').rpartition('.')[2] == 'TYPE_CHECKING'

    def body(stmts):
        for s in stmts:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                out.append(s)
            elif isinstance(s, ast.If):
                if not type_only(s.test):
                    body(s.body)
                body(s.orelse)
            elif isinstance(s, ast.Try):
                body(s.body)
                body(s.orelse)
                body(s.finalbody)
            elif isinstance(s, (ast.With, ast.For, ast.While)):
                body(s.body)
            elif isinstance(s, ast.ClassDef):
                body(s.body)
    body(tree.body)
    return out


def loads(prog, m, n):
    """modules of the package an import statement loads"""
    out = []

    def add(q):
        parts = q.split('.')
        for i in range(1, len(parts) + 1):
            x = '.'.join(parts[:i])
            if x in prog.modules:
                out.append(x)
    if isinstance(n, ast.Import):
        for a in n.names:
            add(a.name)
    else:
        base = prog._abs(m, n)
        add(base)
        for a in n.names:
            if a.name != '*':
                add(base + '.' + a.name)
    return out


def closure(prog, roots):
    seen, todo = set(), list(roots)
    while todo:
        x = todo.pop()
        if x in seen or x not in prog.modules:
            continue
        seen.add(x)
        m = prog.modules[x]
        for n in own_imports(m.tree):
            todo += loads(prog, m, n)
        p = x.rpartition('.')[0]
        if p:
            todo.append(p)
    return seen


def defined(prog, name, seen=()):
    """names a module has after it ran, or None when unknown"""
    m = prog.modules[name]
    out = set(m.functions) | set(m.classes) | set(m.imports) | set(m.assigns)
    for s in ast.walk(m.tree):
        if isinstance(s, (ast.For, ast.Global)):
            for t in ast.walk(getattr(s, 'target', s)):
                if isinstance(t, ast.Name):
                    out.add(t.id)
            if isinstance(s, ast.Global):
                out |= set(s.names)
    for st in m.tree.body:
        for s in ast.walk(st):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            out.add(x.id)
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                break
    out |= {'__name__', '__file__', '__doc__', '__path__', '__all__',
            '__version__'} & (out | {'__name__', '__file__', '__doc__',
                                     '__path__'})
    for s in m.stars:
        if s in prog.modules and s not in seen:
            d = defined(prog, s, seen + (name,))
            if d is None:
                return None
            out |= set(x for x in d if not x.startswith('_')) if \
                prog.modules[s].all_names is None else set(
                    prog.modules[s].all_names)
        elif s not in prog.modules:
            return None
    return out


# ---------------------------------------------------------------- registries
def registered(ck):
    """[(registry, name, module, node, class or None, forced)]"""
    prog = ck.prog
    out = []
    for n, m in sorted(prog.modules.items()):
        if n.startswith(PKG + '.testing'):
            continue        # helpers of tests, not shipped components
        for s in ast.walk(m.tree):
            if isinstance(s, (ast.ClassDef, ast.FunctionDef)):
                for d in s.decorator_list:
                    c = d.func if isinstance(d, ast.Call) else d
                    q = dotted(c) or ''
                    if not q.endswith('.register_module'):
                        continue
                    r = prog.resolve(m, q[:-len('.register_module')])
                    names_, forced = given_names(d, s.name)
                    for x in names_:
                        out.append((r, x, m, s, forced))
            elif isinstance(s, ast.Call) and isinstance(
                    s.func, ast.Call) and (dotted(s.func.func) or '') \
                    .endswith('.register_module') and s.args:
                r = prog.resolve(m, dotted(s.func.func)[:-len(
                    '.register_module')])
                c = prog.get_class(prog.resolve(m, dotted(s.args[0]) or '?'))
                if c is not None:
                    ns, forced = given_names(s.func, c.name)
                    for x in ns:
                        out.append((r, x, m, s, forced))
            elif isinstance(s, ast.Call) and (dotted(s.func) or '').endswith(
                    '.register_module'):
                r = prog.resolve(m, dotted(s.func)[:-len(
                    '.register_module')])
                for k in s.keywords:
                    if k.arg == 'module' and dotted(k.value):
                        c = prog.get_class(prog.resolve(
                            m, dotted(k.value)))
                        if c is not None:
                            ns, forced = given_names(s, c.name)
                            for x in ns:
                                out.append((r, x, m, s, forced))
    return out


def given_names(d, own):
    names_, forced = [own], False
    if isinstance(d, ast.Call):
        kw = {k.arg: k.value for k in d.keywords}
        v = kw.get('name')
        if v is None and d.args:
            v = d.args[0]
        if isinstance(v, ast.Constant) and isinstance(v.value, str):
            names_ = [v.value]
        elif isinstance(v, (ast.List, ast.Tuple)):
            names_ = [x.value for x in v.elts if isinstance(x, ast.Constant)]
        f = kw.get('force')
        if f is None and len(d.args) > 1:
            f = d.args[1]
        forced = f is not None and not (isinstance(f, ast.Constant) and
                                        not f.value)
    return names_, forced


def registries(ck):
    """every registry is a child of the framework's registry of that kind"""
    prog = ck.prog
    n = 0
    for name, m in sorted(prog.modules.items()):
        for t, v in sorted(m.assigns.items()):
            if not (isinstance(v, ast.Call) and (prog.resolve(
                    m, dotted(v.func) or '') or '').rpartition('.')[2] ==
                    'Registry'):
                continue
            n += 1
            p = P(m, v, '%s.%s' % (m.name, t))
            kw = {k.arg: k.value for k in v.keywords}
            par = kw.get('parent')
            if par is None and len(v.args) > 2:
                par = v.args[2]
            q = prog.resolve(m, dotted(par)) if par is not None and dotted(
                par) else None
            ck.ob('parent', q == 'mmengine.registry.' + t, p, 'the registry '
                  '%s extends the framework\'s registry of the same kind' %
                  t)
            ck.ob('parent', name.startswith(REG), p, 'registries live in '
                  'the registry package')
    ck.floor('registries', n, 10)
    r = prog.modules.get(REG)
    d = defined(prog, REG) if r else None
    own = prog.modules.get(REG + '.registry')
    for t in sorted(own.assigns) if own else ():
        v = own.assigns[t]
        if isinstance(v, ast.Call) and (dotted(v.func) or '').endswith(
                'Registry'):
            ck.ob('exported', d is not None and t in d and prog.canon(
                REG + '.' + t) == REG + '.registry.' + t, P(
                    own, v, t), '%s is exported by the registry package' % t)


def reachable(ck):
    prog = ck.prog
    f = ck.fn('mmrazor.utils.setup_env.register_all_modules').func
    m = f.module
    roots = setup_roots(prog, f)
    ck.ob('setup', bool(roots), P(m, f.node, f.qual), 'setup imports the '
          'packages which register components')
    seen = closure(prog, roots + [m.name])
    n = 0
    for r, x, mod, node, forced in registered(ck):
        n += 1
        ck.ob('reachable', mod.name in seen, P(mod, node, mod.name + '.' +
              getattr(node, 'name', x)), '%s is registered once all modules '
              'are [its module is never imported]' % x)
    ck.floor('registered components', n, 200)
    # decorators inside functions or guarded bodies do not run
    for name, mod in sorted(prog.modules.items()):
        for s in ast.walk(mod.tree):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for c in ast.walk(s):
                    if c is not s and isinstance(c, ast.ClassDef) and any(
                            (dotted(d.func if isinstance(d, ast.Call) else d)
                             or '').endswith('.register_module')
                            for d in c.decorator_list):
                        ck.ob('reachable', False, P(
                            mod, c, mod.name + '.' + c.name), 'the class is '
                            'only defined when a function is called')


def setup_roots(prog, f, seen=()):
    """modules imported when the setup function runs"""
    m, out = f.module, []
    for n in walk_own(f.node):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            if not within_condition(f.node, n):
                out += loads(prog, m, n)
        elif isinstance(n, ast.Call):
            d = dotted(n.func) or ''
            if d.rpartition('.')[2] in ('import_module', '__import__'):
                for c in ast.walk(f.node):
                    if isinstance(c, ast.Constant) and c.value in \
                            prog.modules:
                        out.append(c.value)
            g = prog.get_func(prog.resolve(m, d)) if d else None
            if g is not None and g.cls is None and g.qual not in seen and \
                    not within_condition(f.node, n):
                out += setup_roots(prog, g, seen + (f.qual, g.qual))
    return out


def within_condition(fn, node):
    for s in ast.walk(fn):
        if isinstance(s, (ast.If, ast.While)):
            if any(x is node for x in ast.walk(s)):
                return True
    return False


def names(ck):
    by = {}
    for r, x, mod, node, forced in registered(ck):
        by.setdefault((r.rpartition('.')[2], x), []).append((mod, node, forced))
        ck.ob('own-registry', r.startswith(REG + '.') or r.startswith(
            'mmengine.registry.'), P(mod, node, mod.name + '.' +
              x), '%s is in one of the registries users search [%s]' % (x, r))
        ck.ob('own-name', not forced, P(mod, node, mod.name + '.' + x),
              '%s does not replace another component' % x)
        ck.ob('own-name', x.isidentifier() or '.' in x, P(
            mod, node, x), 'the name can be written in a configuration')
    for (r, x), l in sorted(by.items(), key=lambda i: i[0]):
        mod, node, forced = l[-1]
        ck.ob('own-name', len(l) == 1, P(mod, node, mod.name + '.' + x),
              '%s is the only component of that name in %s' % (x, r))
    # the class which is registered is the one its module exports
    for r, x, mod, node, forced in registered(ck):
        if isinstance(node, ast.ClassDef):
            c = prog_class(ck, mod, node)
            later = [s for s in mod.tree.body if isinstance(s, ast.ClassDef)
                     and s.name == node.name and s is not node]
            ck.ob('own-name', not later, P(mod, node, mod.name + '.' + x),
                  '%s is defined once in its module' % x)


def prog_class(ck, mod, node):
    for c in mod.classes.values():
        if c.node is node:
            return c
    return None


# external base class -> registry its users search
KIND = {
    'Hook': 'HOOKS', 'CheckpointHook': 'HOOKS', 'EMAHook': 'HOOKS',
    'BaseLoop': 'LOOPS', 'TestLoop': 'LOOPS', 'ValLoop': 'LOOPS',
    'EpochBasedTrainLoop': 'LOOPS', 'IterBasedTrainLoop': 'LOOPS',
    'BaseTransform': 'TRANSFORMS',
    'MMDistributedDataParallel': 'MODEL_WRAPPERS',
    'BaseModel': 'MODELS', 'BaseModule': 'MODELS', 'Module': 'MODELS',
    'CIFAR10': 'DATASETS', 'CIFAR100': 'DATASETS',
    'DefaultOptimWrapperConstructor': 'OPTIM_WRAPPER_CONSTRUCTORS',
}


def kinds(ck):
    """a component is where components of its kind are looked up"""
    prog = ck.prog
    of = {}
    for r, x, mod, node, forced in registered(ck):
        if isinstance(node, ast.ClassDef):
            c = prog_class(ck, mod, node)
            if c is not None:
                of.setdefault(c.qual, (r, c, mod, node))
    n = 0
    # what the bases of a registered component say
    fam = {}
    for q, (r, c, mod, node) in sorted(of.items()):
        for b in prog.mro(c):
            bq = b if isinstance(b, str) else b.qual
            if bq == q or bq in ('object',):
                continue
            fam.setdefault(bq, []).append((r, c, mod, node))
    for q, (r, c, mod, node) in sorted(of.items()):
        p = P(mod, node, q)
        ext = [(b if isinstance(b, str) else b.qual).rpartition('.')[2]
               for b in prog.mro(c)]
        want = [KIND[b] for b in ext if b in KIND]
        own = r.rpartition('.')[2]
        if own in set(KIND.values()) and want or want and want[0] in (
                'HOOKS', 'LOOPS', 'MODEL_WRAPPERS', 'TRANSFORMS'):
            n += 1
            ck.ob('kind', own == want[0], p, '%s is a component for %s [it '
                  'is in %s]' % (c.name, want[0], own))
        # in-package relatives
        for b in prog.mro(c):
            if isinstance(b, str) or b.qual == q:
                continue
            sib = {x[0] for x in fam.get(b.qual, ())}
            if len(fam.get(b.qual, ())) >= 3 and b.module.name.startswith(
                    PKG):
                cnt = {}
                for x in fam[b.qual]:
                    k = x[0].rpartition('.')[2]
                    cnt[k] = cnt.get(k, 0) + 1
                top = max(cnt, key=lambda k: cnt[k])
                if cnt[top] * 4 >= 3 * sum(cnt.values()):
                    n += 1
                    ck.ob('kind', r.rpartition('.')[2] == top, p, '%s is looked up together '
                          'with the other kinds of %s' % (c.name, b.name))
    ck.floor('components with a known kind', n, 60)


# ------------------------------------------------------------------- exports
def exported(ck):
    prog = ck.prog
    n = 0
    for name, m in sorted(prog.modules.items()):
        if m.all_names is None:
            v = m.assigns.get('__all__')
            continue
        d = defined(prog, name)
        subs = {x.rpartition('.')[2] for x in prog.modules
                if x.rpartition('.')[0] == name}
        for x in m.all_names:
            n += 1
            ck.ob('exports', d is None or x in d or x in subs, P(
                m, m.assigns['__all__'], name), '%s exports %s, which it '
                'has' % (name, x))
    ck.floor('exported names', n, 250)


def imports(ck):
    """every import from the package names something that exists; also those
    executed only when a function is called"""
    prog = ck.prog
    n = 0
    for name, m in sorted(prog.modules.items()):
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.name.split('.')[0] == PKG:
                        n += 1
                        ck.ob('imports', a.name in prog.modules, P(
                            m, s, name), 'the imported module %s exists' %
                            a.name)
            elif isinstance(s, ast.ImportFrom):
                base = prog._abs(m, s)
                if base.split('.')[0] != PKG:
                    continue
                n += 1
                ok = base in prog.modules
                ck.ob('imports', ok, P(m, s, name), 'the imported module %s '
                      'exists' % base)
                if not ok:
                    continue
                d = defined(prog, base)
                for a in s.names:
                    if a.name == '*' or d is None:
                        continue
                    n += 1
                    ck.ob('imports', a.name in d or base + '.' + a.name in
                          prog.modules, P(m, s, name), '%s has the imported '
                          'name %s' % (base, a.name))
    ck.floor('imports', n, 600)


# ------------------------------------------------------------------- building
def builder(ck):
    s = ck.fn('build_razor_model_from_cfg')
    m = ck.prog.modules[REG + '.registry']
    v = m.assigns.get('MODELS')
    kw = {k.arg: dotted(k.value) for k in getattr(v, 'keywords', ())}
    ck.ob('builder', kw.get('build_func') == 'build_razor_model_from_cfg',
          P(m, v, 'MODELS'), 'models are built by the toolkit\'s builder')
    bs = s.calls('build_from_cfg(...)')
    ck.need('builder', bs, s, 'components are built from the registry')
    for h in bs:
        for k, n in enumerate(('registry', 'default_args'), 1):
            ck.ob('builder', s.match(h.arg(k, n) or NONE, n) is not None, h,
                  'with the given %s' % n)
        ck.ob('builder', bool(s.find(h.arg(0, 'cfg') or NONE, 'cfg')), h,
              'and the given configuration')
    n = 0
    for g, v in leaves(s, s.ret()):
        n += 1
        arch = s.match(v, 'build_from_cfg(...).architecture') is not None
        model = s.match(v, 'build_from_cfg(...)') is not None
        hub = s.match(v, 'get_model(...)') is not None
        ck.ob('builder', arch or model or hub, s, 'what was built is '
              'returned')
        asked = "cfg.get('_return_architecture_', None)"
        if arch:
            ck.ob('builder', not s.m.implies(g, 'not ' + asked), s, 'the '
                  'architecture only when asked for')
        if hub:
            ck.ob('builder', s.m.implies(g, "cfg.get('cfg_path', None) and "
                                         "not cfg.get('type', None)"), s,
                  'a published model only when no type is given')
    ck.floor('results of the builder', n, 3)


def scope(ck):
    s = ck.fn('mmrazor.utils.setup_env.register_all_modules')
    gs = s.calls('DefaultScope.get_instance(...)')
    ck.need('scope', gs, s, 'the default scope is set')
    cov = False
    for h in gs:
        ck.ob('scope', s.match(h.arg(1, 'scope_name') or NONE, "'mmrazor'")
              is not None or s.match(dict(h.e.kwargs).get('scope_name') or
                                     NONE, "'mmrazor'") is not None, h,
              'to the toolkit')
        ck.ob('scope', h.guard_implies('init_default_scope'), h, 'only when '
              'wanted')
        cov = f_or(cov, h.e.guard)
    # only a scope which is already the toolkit's may be kept
    cur = ('DefaultScope.get_current_instance() is None or not DefaultScope.'
           "check_instance_created('mmrazor')")
    ck.ob('scope', s.m.implied_by(cov, 'init_default_scope and (%s)' % cur),
          s, 'when there is none')
    ck.ob('scope', s.m.implied_by(
        cov, 'init_default_scope and not (%s) and DefaultScope.get_current_'
        "instance().scope_name != 'mmrazor'" % cur), s, 'and when it is '
        'another one')


def foreign(ck):
    """torch's observers and quantisers join without replacing own ones"""
    for f, src, base in (('register_torch_observers', 'observer',
                          'ObserverBase'),
                         ('register_torch_fake_quants', 'fake_quantize',
                          'FakeQuantizeBase')):
        s = ck.fn(f)
        hs = s.calls('MODELS.register_module(...)')
        ck.need('foreign', hs, s, 'they are registered')
        for h in hs:
            v = h.arg(2, 'module') or dict(h.e.kwargs).get('module') or NONE
            ok = v[0] == 'attr' and not isinstance(v[2], str)
            ck.ob('foreign', ok, h, 'the class itself')
            if not ok:
                continue
            n = v[2]
            ck.ob('foreign', absent(s, h, n), h, 'unless the name is taken')
            ck.ob('foreign', bool(h.e.loops) and all(whole(s, l) for l in
                                                     h.e.loops), h,
                  'all of them')
        ck.ob('foreign', any(x[0] == 'global' and x[1].endswith(base)
                             for h in hs for x in walk_f(s, h.e.guard)) or
              any(base in show(a) for h in hs for a in f_atoms(h.e.guard)),
              s, 'components of that kind')
    # and are registered when the package is set up
    prog = ck.prog
    f = ck.fn('mmrazor.utils.setup_env.register_all_modules').func
    roots = setup_roots(prog, f)
    seen = closure(prog, roots)
    for fn in ('register_torch_observers', 'register_torch_fake_quants'):
        hit = []
        for n in sorted(seen):
            m = prog.modules[n]
            for st in m.tree.body:
                for c in ast.walk(st):
                    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        break
                    if isinstance(c, ast.Call) and (dotted(c.func) or '') \
                            .rpartition('.')[2] == fn:
                        hit.append((m, c))
        ck.ob('foreign', bool(hit), P(f.module, f.node, f.qual), '%s runs '
              'during setup' % fn)


def absent(s, h, n):
    return any(a[0] == 'cmp' and a[1] in ('is', '==') and NONE in a[2:] and
               any(x[0] == 'call' and s.match(x, 'MODELS.get(_k)')
                   and same(s, s.match(x, 'MODELS.get(_k)')['_k'], n)
                   for x in walk(a)) and f_implies(h.e.guard, ('atom', a))
               for a in f_atoms(h.e.guard))


def walk_f(s, g):
    for a in f_atoms(g):
        yield from walk(a)


# ------------------------------------------------------- shipped configurations
def configured(ck):
    """components the shipped configurations name, and those default
    arguments name, can be built"""
    import os
    prog = ck.prog
    own = {x for r, x, *_ in registered(ck)}
    classes = {c.name for n, m in prog.modules.items() for c in
               m.classes.values() if not n.startswith(PKG + '.testing')}
    # torch's own quantisers join under their names, see `foreign`
    torch_ = ('Observer', 'FakeQuantize')
    files = []
    for base in ('configs', PKG):
        for d, dirs, fs in os.walk(os.path.join(prog.repo, base)):
            dirs[:] = sorted(x for x in dirs if x not in (
                '.mim', '__pycache__', 'testing'))
            files += [os.path.join(d, f) for f in sorted(fs)
                      if f.endswith('.py')]
    n = 0
    for f in files:
        try:
            tree = ast.parse(open(f, encoding='utf-8').read())
        except SyntaxError:
            continue
        rel = os.path.relpath(f, prog.repo)
        for c in ast.walk(tree):
            vs = []
            if isinstance(c, ast.Call) and dotted(c.func) in (
                    'dict', 'ConfigDict'):
                vs = [k.value for k in c.keywords if k.arg == 'type']
            elif isinstance(c, ast.Dict):
                vs = [v for k, v in zip(c.keys, c.values) if isinstance(
                    k, ast.Constant) and k.value == 'type']
            for v in vs:
                if not (isinstance(v, ast.Constant) and isinstance(
                        v.value, str)):
                    continue
                scope_, _, x = v.value.rpartition('.')
                if scope_ not in ('', PKG) or scope_ == '' and x not in \
                        classes or x not in classes and x.endswith(torch_):
                    continue
                n += 1
                ck.ob('configured', x in own, '%s:%d (%s)' % (
                    rel, v.lineno, x), 'the component %s a configuration '
                    'names can be built' % x, construct='%s type %s' % (
                        rel, x))
    ck.floor('components named by configurations', n, 20)
