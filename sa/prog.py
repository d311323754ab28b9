"""Program model: modules, imports, classes, MRO, registries of /repo/mmrazor."""
import ast
import os

REPO = os.environ.get('SA_REPO', '/repo')
PKG = 'mmrazor'


class BrokenAnalysis(Exception):
    """The analysis itself cannot decide (vanished anchor, syntax error)."""


class Func:
    __slots__ = ('name', 'qual', 'node', 'module', 'cls', 'decorators')

    def __init__(self, name, qual, node, module, cls):
        self.name, self.qual, self.node = name, qual, node
        self.module, self.cls = module, cls
        self.decorators = []
        for d in node.decorator_list:
            c = d.func if isinstance(d, ast.Call) else d
            self.decorators.append(dotted(c) or '')

    def has_deco(self, *names):
        return any(d.split('.')[-1] in names for d in self.decorators)

    @property
    def path(self):
        return self.module.relpath

    @property
    def line(self):
        return self.node.lineno

    @property
    def is_generator(self):
        for n in walk_own(self.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        return r

    def __repr__(self):
        return 'Func(%s)' % self.qual


class Class:
    def __init__(self, name, qual, node, module):
        self.name, self.qual, self.node, self.module = name, qual, node, module
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self.ann = {}
        self.bases = []      # resolved qualified names
        self.decorators = node.decorator_list

    @property
    def path(self):
        return self.module.relpath

    @property
    def line(self):
        return self.node.lineno

    def __repr__(self):
        return 'Class(%s)' % self.qual


class Module:
    def __init__(self, name, path, relpath, tree, is_pkg):
        self.name, self.path, self.relpath = name, path, relpath
        self.tree, self.is_pkg = tree, is_pkg
        self.imports = {}     # local name -> qualified
        self.stars = []       # qualified module names
        self.functions = {}
        self.classes = {}
        self.assigns = {}     # name -> value node
        self.all_names = None
        self.imported_modules = []   # (qualified module, node)


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b + '.' + n.attr if b else None
    return None


def walk_own(fn):
    """Walk nodes of a function without entering nested defs/lambdas."""
    stack = list(ast.iter_child_nodes(fn))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.files = 0
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise BrokenAnalysis('no package %s' % root)
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ('.mim', '__pycache__')
                             and not os.path.islink(os.path.join(d, x)))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                name = rel[:-3].replace(os.sep, '.')
                is_pkg = False
                if name.endswith('.__init__'):
                    name, is_pkg = name[:-9], True
                try:
                    tree = ast.parse(open(p, encoding='utf-8').read())
                except SyntaxError as e:
                    raise BrokenAnalysis('syntax error in %s: %s' % (rel, e))
                self.modules[name] = Module(name, p, rel, tree, is_pkg)
                self.files += 1
        for m in list(self.modules.values()):
            self._collect(m)
        for m in list(self.modules.values()):
            for c in m.classes.values():
                for b in c.node.bases:
                    if isinstance(b, ast.Subscript):
                        b = b.value
                    d = dotted(b)
                    c.bases.append(self.resolve(m, d) if d else '?')
        self._mro = {}

    # ------------------------------------------------------------------
    def _abs(self, m, node):
        if not node.level:
            return node.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[:len(parts) - (node.level - 1)]
        base = '.'.join(parts)
        return base + '.' + node.module if node.module else base

    def _collect(self, m):
        def imp(n):
            if isinstance(n, ast.Import):
                for a in n.names:
                    m.imported_modules.append((a.name, n))
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        top = a.name.split('.')[0]
                        m.imports[top] = top
            else:
                base = self._abs(m, n)
                m.imported_modules.append((base, n))
                for a in n.names:
                    if a.name == '*':
                        m.stars.append(base)
                    else:
                        m.imports[a.asname or a.name] = base + '.' + a.name
                        m.imported_modules.append((base + '.' + a.name, n))

        def body(stmts):
            for s in stmts:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    imp(s)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if s.name not in m.functions:
                        m.functions[s.name] = Func(
                            s.name, m.name + '.' + s.name, s, m, None)
                elif isinstance(s, ast.ClassDef):
                    if s.name not in m.classes:
                        self._class(m, s)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.assigns.setdefault(t.id, s.value)
                            if t.id == '__all__':
                                try:
                                    m.all_names = list(
                                        ast.literal_eval(s.value))
                                except Exception:
                                    m.all_names = None
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name) and s.value is not None:
                        m.assigns.setdefault(s.target.id, s.value)
                elif isinstance(s, ast.If):
                    body(s.body)
                    body(s.orelse)
                elif isinstance(s, ast.Try):
                    body(s.body)
                    for h in s.handlers:
                        body(h.body)
                    body(s.orelse)
                    body(s.finalbody)
                elif isinstance(s, ast.With):
                    body(s.body)
        body(m.tree.body)

    def _class(self, m, s, prefix=None):
        qual = (prefix or m.name) + '.' + s.name
        c = Class(s.name, qual, s, m)
        m.classes[s.name if not prefix else qual[len(m.name) + 1:]] = c

        def body(stmts):
            for x in stmts:
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(x.name, qual + '.' + x.name, x, m, c)
                    if any(d.endswith('.setter') for d in f.decorators):
                        c.setters[x.name] = f
                    else:
                        c.methods[x.name] = f
                elif isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            c.attrs[t.id] = x.value
                elif isinstance(x, ast.AnnAssign) and isinstance(
                        x.target, ast.Name):
                    c.ann[x.target.id] = x.annotation
                    if x.value is not None:
                        c.attrs[x.target.id] = x.value
                elif isinstance(x, ast.ClassDef):
                    self._class(m, x, qual)
                elif isinstance(x, (ast.If, ast.Try)):
                    body(x.body)
                    body(x.orelse)
        body(s.body)
        return c

    # ------------------------------------------------------------------
    def resolve(self, m, name):
        """Resolve dotted name used in module m to a qualified name."""
        head, _, rest = name.partition('.')
        q = None
        if head in m.functions or head in m.classes:
            q = m.name + '.' + head
        elif head in m.imports:
            q = self.canon(m.imports[head])
        elif head in m.assigns:
            q = m.name + '.' + head
        else:
            for s in m.stars:
                sm = self.modules.get(s)
                if sm is not None:
                    r = self._lookup_in(sm, head, set())
                    if r:
                        q = r
                        break
        if q is None:
            q = head
        if rest:
            q = self.canon(q + '.' + rest)
        return q

    def _lookup_in(self, m, name, seen):
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        if name in m.functions or name in m.classes:
            return m.name + '.' + name
        if name in m.imports:
            return self.canon(m.imports[name], seen)
        if name in m.assigns:
            return m.name + '.' + name
        if m.name + '.' + name in self.modules:
            return m.name + '.' + name
        for s in m.stars:
            sm = self.modules.get(s)
            if sm is not None:
                r = self._lookup_in(sm, name, seen)
                if r:
                    return r
        return None

    def canon(self, q, seen=None):
        """Follow re-exports of project-qualified names."""
        if not (q == PKG or q.startswith(PKG + '.')):
            return q
        seen = set() if seen is None else seen
        parts = q.split('.')
        for i in range(len(parts), 0, -1):
            mn = '.'.join(parts[:i])
            if mn in self.modules:
                rest = parts[i:]
                if not rest:
                    return q
                r = self._lookup_in(self.modules[mn], rest[0], seen)
                if r is None:
                    return q
                return '.'.join([r] + rest[1:])
        return q

    # ------------------------------------------------------------------
    def get_class(self, qual):
        qual = self.canon(qual)
        mn, _, cn = qual.rpartition('.')
        m = self.modules.get(mn)
        if m and cn in m.classes:
            return m.classes[cn]
        # nested class
        parts = qual.split('.')
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get('.'.join(parts[:i]))
            if m:
                return m.classes.get('.'.join(parts[i:]))
        return None

    def get_func(self, qual):
        qual = self.canon(qual)
        mn, _, fn = qual.rpartition('.')
        m = self.modules.get(mn)
        if m and fn in m.functions:
            return m.functions[fn]
        c = self.get_class(mn) if mn else None
        if c is not None:
            return self.lookup(c, fn)
        return None

    def mro(self, c):
        """List of Class (project) or str (external), C3 with fallback."""
        if c.qual in self._mro:
            return self._mro[c.qual]
        self._mro[c.qual] = [c]
        seqs = []
        bl = []
        for b in c.bases:
            bc = self.get_class(b)
            if bc is None or bc is c:
                bl.append(b)
                seqs.append([b])
            else:
                bl.append(bc)
                seqs.append(list(self.mro(bc)))
        seqs.append(list(bl))
        res = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            res.append(h)
            for s in seqs:
                if s and s[0] is h or s and s[0] == h:
                    s.pop(0)
                elif h in s:
                    s.remove(h)
        self._mro[c.qual] = res
        return res

    def lookup(self, c, name, after=None):
        started = after is None
        for k in self.mro(c):
            if not started:
                if k is after:
                    started = True
                continue
            if isinstance(k, Class) and name in k.methods:
                return k.methods[name]
        return None

    def lookup_setter(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Class) and name in k.setters:
                return k.setters[name]
        return None

    def lookup_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Class) and name in k.attrs:
                return k.attrs[name], k
        return None

    def subclasses(self, c):
        r = []
        for m in self.modules.values():
            for k in m.classes.values():
                if k is not c and c in self.mro(k):
                    r.append(k)
        return sorted(r, key=lambda k: k.qual)

    def all_classes(self):
        for n in sorted(self.modules):
            m = self.modules[n]
            for k in sorted(m.classes):
                yield m.classes[k]

    def all_functions(self):
        for n in sorted(self.modules):
            m = self.modules[n]
            for k in sorted(m.functions):
                yield m.functions[k]
            for k in sorted(m.classes):
                c = m.classes[k]
                for x in sorted(c.methods):
                    yield c.methods[x]
                for x in sorted(c.setters):
                    yield c.setters[x]

    def find_class(self, suffix):
        """Find class by simple or partially qualified name."""
        r = [c for c in self.all_classes()
             if c.qual == suffix or c.qual.endswith('.' + suffix)]
        return r
