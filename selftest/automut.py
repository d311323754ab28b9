#!/usr/bin/env python3
"""Generic mutants / behaviour-preserving rewrites of the functions a property
looks at (development aid, not a check).

  automut.py mut C09 [--f REGEX] [--n MAX]   survivors = mutants not reported
  automut.py ref [C09 ...]                   rewrites of the whole package that
                                             must stay quiet; per kind
"""
import ast
import copy
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SA_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}
LOG = ('logger', 'print_log', 'warnings', 'print', 'warn')


def docless(body):
    return [s for s in body if not (isinstance(s, ast.Expr) and isinstance(
        s.value, ast.Constant))]


def mutations(fn):
    """yield (description, apply, undo) on the function node in place"""
    for node in ast.walk(fn):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(node, field, None)
            if not isinstance(b, list):
                continue
            for i, st in enumerate(b):
                if isinstance(st, ast.Expr) and isinstance(
                        st.value, ast.Constant):
                    continue
                t = ast.unparse(st).split('\n')[0]
                if any(t.startswith(x) or '.' + x in t[:30] for x in LOG):
                    continue
                if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign,
                                   ast.Raise, ast.Delete, ast.Assert,
                                   ast.Continue, ast.Break)):
                    def ap(b=b, i=i):
                        b[i] = ast.copy_location(ast.Pass(), b[i])

                    def un(b=b, i=i, st=st):
                        b[i] = st
                    yield 'del   ' + t, ap, un
                if isinstance(st, (ast.If, ast.While)):
                    def ap(st=st, o=st.test):
                        st.test = ast.copy_location(ast.UnaryOp(
                            ast.Not(), o), o)

                    def un(st=st, o=st.test):
                        st.test = o
                    yield 'neg   ' + t, ap, un
                if isinstance(st, ast.If):
                    for v in (True, False):
                        def ap(st=st, v=v):
                            st.test = ast.Constant(v)

                        def un(st=st, o=st.test):
                            st.test = o
                        yield 'if%-5s%s' % (v, t), ap, un
                if i + 1 < len(b) and isinstance(st, (ast.Expr, ast.Assign)) \
                        and isinstance(b[i + 1], (ast.Expr, ast.Assign)):
                    used = {x.id for x in ast.walk(b[i + 1])
                            if isinstance(x, ast.Name)}
                    sto = {x.id for x in ast.walk(st) if isinstance(
                        x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    if not used & sto:
                        def ap(b=b, i=i):
                            b[i], b[i + 1] = b[i + 1], b[i]
                        yield 'swap  ' + t, ap, ap
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            def ap(n=node, o=node.ops[0]):
                n.ops = [CMP[type(o)]()]

            def un(n=node, o=node.ops[0]):
                n.ops = [o]
            yield 'cmp   ' + ast.unparse(node), ap, un
        if isinstance(node, ast.BoolOp):
            def ap(n=node, o=node.op):
                n.op = ast.Or() if isinstance(o, ast.And) else ast.And()

            def un(n=node, o=node.op):
                n.op = o
            yield 'bool  ' + ast.unparse(node), ap, un
            for k in range(len(node.values)):
                if len(node.values) < 2:
                    continue

                def ap(n=node, k=k):
                    n.values = n.values[:k] + n.values[k + 1:]

                def un(n=node, o=list(node.values)):
                    n.values = o
                yield 'drop%d %s' % (k, ast.unparse(node)), ap, un
        if isinstance(node, ast.BinOp) and type(node.op) in BIN and not (
                isinstance(node.left, ast.Constant) and isinstance(
                    node.left.value, str)):
            def ap(n=node, o=node.op):
                n.op = BIN[type(o)]()

            def un(n=node, o=node.op):
                n.op = o
            yield 'bin   ' + ast.unparse(node), ap, un
        if isinstance(node, ast.UnaryOp) and isinstance(
                node.op, (ast.USub, ast.Not)):
            def ap(n=node, o=node.op):
                n.op = ast.UAdd() if isinstance(o, ast.USub) else ast.Not()
                n.operand = n.operand if isinstance(o, ast.USub) else \
                    ast.UnaryOp(ast.Not(), n.operand)

            def un(n=node, o=node.op, v=node.operand):
                n.op, n.operand = o, v
            yield 'un    ' + ast.unparse(node), ap, un
        if isinstance(node, ast.Constant) and isinstance(
                node.value, (int, float)):
            def ap(n=node, v=node.value):
                n.value = (not v) if isinstance(v, bool) else v + 1

            def un(n=node, v=node.value):
                n.value = v
            yield 'const %r' % node.value, ap, un
        if isinstance(node, ast.Call):
            t = ast.unparse(node)
            if any(t.startswith(x) for x in LOG) or t.startswith((
                    'isinstance', 'TypeError', 'ValueError', 'Runtime',
                    'Attribute', 'type(', 'hasattr')):
                continue
            for k in range(len(node.keywords)):
                def ap(n=node, k=k):
                    n.keywords = n.keywords[:k] + n.keywords[k + 1:]

                def un(n=node, o=list(node.keywords)):
                    n.keywords = o
                yield 'kw-%s %s' % (node.keywords[k].arg, t), ap, un
            if len(node.args) > 1 and not any(isinstance(
                    a, ast.Starred) for a in node.args):
                def ap(n=node):
                    n.args = [n.args[1], n.args[0]] + n.args[2:]

                def un(n=node, o=list(node.args)):
                    n.args = o
                yield 'args  ' + t, ap, un
            if isinstance(node.func, ast.Attribute) and node.func.attr in (
                    'detach', 'clone', 'deepcopy', 'copy', 'eval', 'item',
                    'state_dict', 'keys', 'abs', 'sum', 'mean'):
                def ap(n=node, v=dict(node.__dict__)):
                    n.func = ast.Name('_ident_', ast.Load())
                    n.args = [v['func'].value if not (isinstance(
                        v['func'].value, ast.Name) and v['func'].value.id in (
                            'copy', 'torch')) else v['args'][0]]
                    n.keywords = []

                def un(n=node, v=dict(node.__dict__)):
                    n.__dict__.update(v)
                if not node.func.attr == 'deepcopy' or node.args:
                    yield 'peel  ' + t, ap, un
            nm = node.func.id if isinstance(node.func, ast.Name) else \
                node.func.attr if isinstance(node.func, ast.Attribute) else ''
            sw = {'max': 'min', 'min': 'max', 'any': 'all', 'all': 'any',
                  'argmax': 'argmin', 'train': 'eval',
                  'max_choice': 'min_choice'}
            if nm in sw:
                def ap(n=node, nm=nm):
                    if isinstance(n.func, ast.Name):
                        n.func.id = sw[nm]
                    else:
                        n.func.attr = sw[nm]

                def un(n=node, nm=nm):
                    if isinstance(n.func, ast.Name):
                        n.func.id = nm
                    else:
                        n.func.attr = nm
                yield 'name  ' + t, ap, un
        if isinstance(node, ast.Return) and node.value is not None and not \
                isinstance(node.value, ast.Constant):
            def ap(n=node):
                n.value = ast.Constant(None)

            def un(n=node, v=node.value):
                n.value = v
            yield 'ret   ' + ast.unparse(node), ap, un
        if isinstance(node, ast.IfExp):
            def ap(n=node):
                n.body, n.orelse = n.orelse, n.body
            yield 'ifexp ' + ast.unparse(node), ap, ap


# ------------------------------------------------------------ worker copies
class Pool:
    def __init__(self, n=8):
        self.tmp = tempfile.mkdtemp(prefix='samut')
        self.free = []
        for i in range(n):
            d = os.path.join(self.tmp, str(i))
            shutil.copytree(REPO + '/mmrazor', d + '/mmrazor', symlinks=True,
                            ignore=shutil.ignore_patterns('.mim',
                                                          '__pycache__'))
            v = os.path.join(d, 'verif')
            os.makedirs(v)
            shutil.copytree(VERIF + '/sa', v + '/sa',
                            ignore=shutil.ignore_patterns('__pycache__'))
            shutil.copy(VERIF + '/check.py', v)
            shutil.copy(VERIF + '/known_findings.txt', v)
            self.free.append(d)

    def run(self, props, files):
        d = self.free.pop()
        old = {}
        try:
            for rel, src in files.items():
                p = os.path.join(d, rel)
                old[p] = open(p).read()
                open(p, 'w').write(src)
            out = {}
            for prop in props:
                r = subprocess.run(
                    [sys.executable, d + '/verif/check.py', prop],
                    env=dict(os.environ, SA_REPO=d), capture_output=True,
                    text=True)
                out[prop] = (r.returncode, r.stdout + r.stderr)
            return out
        finally:
            for p, s in old.items():
                open(p, 'w').write(s)
            self.free.append(d)

    def close(self):
        shutil.rmtree(self.tmp)


def touched(prop):
    """functions the check of prop looks at: {qualified name}"""
    from importlib import import_module
    from sa import rules
    ck = rules.Check(prop)
    import_module('sa.props.' + prop.lower()).check(ck)
    names = set(ck.stats['touched']) | set(ck.stats['functions'])
    fs = {}
    for f in ck.prog.all_functions():
        if f.qual in names:
            fs[f.qual] = f
    return ck.prog, fs


def do_mut(prop, rx, nmax):
    prog, fs = touched(prop)
    jobs = []
    for q, f in sorted(fs.items()):
        if rx and not re.search(rx, q):
            continue
        tree = prog.modules[f.module.name].tree if hasattr(
            f, 'module') else None
        for desc, ap, un in mutations(f.node):
            ap()
            try:
                src = ast.unparse(ast.fix_missing_locations(tree))
            finally:
                un()
            jobs.append((q, desc, {f.path: src}))
    random.seed(1)
    if len(jobs) > nmax:
        jobs = random.sample(jobs, nmax)
        jobs.sort(key=lambda j: j[:2])
    pool = Pool()
    killed = brk = 0
    last = None
    with ThreadPoolExecutor(8) as ex:
        for (q, desc, _), out in zip(jobs, ex.map(
                lambda j: pool.run([prop], j[2]), jobs)):
            rc = out[prop][0]
            if rc == 1:
                killed += 1
                continue
            if q != last:
                print('##', q.replace('mmrazor.', ''))
                last = q
            if rc != 0:
                brk += 1
            print('   %s%s' % ('' if rc == 0 else '[rc%d] ' % rc,
                               desc[:150]))
    pool.close()
    print('%d mutants, %d reported, %d without answer, %d quiet' % (
        len(jobs), killed, brk, len(jobs) - killed - brk))


# ---------------------------------------------------------------- rewrites
class Rename(ast.NodeTransformer):
    """rename the local variables of functions without nested scopes"""

    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global,
                              ast.Nonlocal, ast.ClassDef))
               for b in n.body for x in ast.walk(b)):
            n.body = [self.visit(b) for b in n.body]
            return n
        if any(isinstance(x, ast.Name) and x.id in ('locals', 'eval', 'exec')
               for x in ast.walk(n)):
            return n
        params = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and
               isinstance(x.ctx, ast.Store)} - params
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + '_q'
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name += '_q'
        return n


class Bodies(ast.NodeTransformer):
    """rewrite statement lists"""
    k = 0

    def stmts(self, body, fn):
        return body

    def do(self, node, fn):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(node, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for s in b:
                    self.do(s, fn if not isinstance(
                        s, ast.FunctionDef) else s)
                if fn is not None:
                    setattr(node, field, self.stmts(b, fn))
        for h in getattr(node, 'handlers', []):
            self.do(h, fn)

    def visit(self, tree):
        self.do(tree, None)
        return tree


def name(prefix='tmp'):
    Bodies.k += 1
    return '_%s%d' % (prefix, Bodies.k)


class HoistReturn(Bodies):
    """return X -> r = X; return r"""

    def stmts(self, body, fn):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None and not \
                    isinstance(s.value, (ast.Constant, ast.Name)):
                n = name('r')
                out.append(ast.Assign([ast.Name(n, ast.Store())], s.value))
                s.value = ast.Name(n, ast.Load())
            out.append(s)
        return out


class HoistArgs(Bodies):
    """f(g(x)) -> a = g(x); f(a) for statements that are plain calls"""

    def stmts(self, body, fn):
        out = []
        for s in body:
            c = s.value if isinstance(s, (ast.Expr, ast.Assign,
                                          ast.Return)) else None
            if isinstance(c, ast.Call) and isinstance(
                    c.func, (ast.Name, ast.Attribute)) and pure_base(c.func):
                for i, a in enumerate(c.args):
                    if isinstance(a, ast.Starred) or isinstance(
                            a, (ast.Constant, ast.Name)):
                        continue
                    if isinstance(a, (ast.GeneratorExp, ast.Lambda)):
                        continue
                    n = name('a')
                    out.append(ast.Assign([ast.Name(n, ast.Store())], a))
                    c.args[i] = ast.Name(n, ast.Load())
                for k in c.keywords:
                    if k.arg is None or isinstance(k.value, (
                            ast.Constant, ast.Name, ast.GeneratorExp,
                            ast.Lambda)):
                        continue
                    n = name('k')
                    out.append(ast.Assign([ast.Name(n, ast.Store())],
                                          k.value))
                    k.value = ast.Name(n, ast.Load())
            out.append(s)
        return out


def pure_base(f):
    while isinstance(f, ast.Attribute):
        f = f.value
    return isinstance(f, ast.Name)


class FlipIf(Bodies):
    """if c: A else: B -> if not c: B else: A"""

    def stmts(self, body, fn):
        for s in body:
            if isinstance(s, ast.If) and s.orelse and not (len(
                    s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
                s.test = ast.UnaryOp(ast.Not(), s.test)
                s.body, s.orelse = s.orelse, s.body
        return body


class EarlyReturn(Bodies):
    """if c: ...return; rest -> if c: ... else: rest"""

    def stmts(self, body, fn):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(
                    s.body[-1], (ast.Return, ast.Raise)) and body[i + 1:]:
                s.orelse = body[i + 1:]
                return body[:i + 1]
        return body


class SplitAnd(Bodies):
    """if a and b: X -> if a: if b: X"""

    def stmts(self, body, fn):
        for s in body:
            if isinstance(s, ast.If) and not s.orelse and isinstance(
                    s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                v = s.test.values
                rest = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
                s.body = [ast.If(rest, s.body, [])]
                s.test = v[0]
        return body


class TestVar(Bodies):
    """if c: -> t = c; if t:"""

    def stmts(self, body, fn):
        out = []
        for s in body:
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                n = name('t')
                out.append(ast.Assign([ast.Name(n, ast.Store())], s.test))
                s.test = ast.Name(n, ast.Load())
            out.append(s)
        return out


class Noop(Bodies):
    def stmts(self, body, fn):
        out = []
        for i, s in enumerate(body):
            if i:
                out.append(ast.Assign([ast.Name(name('n'), ast.Store())],
                                      ast.Constant(None)))
            out.append(s)
        return out


class CompToLoop(Bodies):
    """x = [e for v in it if c] -> loop with append"""

    def stmts(self, body, fn):
        out = []
        for s in body:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, ast.ListComp) and len(v.generators) == 1 and \
                    not any(isinstance(x, (ast.Lambda, ast.ListComp,
                                           ast.GeneratorExp))
                            for x in ast.walk(v.elt)):
                g = v.generators[0]
                n = name('l')
                tgt = {x.id for x in ast.walk(g.target)
                       if isinstance(x, ast.Name)}
                ren = {t: name('v') for t in tgt}
                for x in ast.walk(v):
                    if isinstance(x, ast.Name) and x.id in ren and not any(
                            x is y for y in ast.walk(g.iter)):
                        x.id = ren[x.id]
                b = [ast.Expr(ast.Call(ast.Attribute(
                    ast.Name(n, ast.Load()), 'append', ast.Load()),
                    [v.elt], []))]
                for c in reversed(g.ifs):
                    b = [ast.If(c, b, [])]
                out.append(ast.Assign([ast.Name(n, ast.Store())],
                                      ast.List([], ast.Load())))
                out.append(ast.For(g.target, g.iter, b, []))
                s.value = ast.Name(n, ast.Load())
            out.append(s)
        return out


class LoopToComp(Bodies):
    """x = []; for v in it: x.append(e) -> x = [e for v in it]"""

    def stmts(self, body, fn):
        out = []
        for s in body:
            p = out[-1] if out else None
            if isinstance(s, ast.For) and not s.orelse and len(
                    s.body) == 1 and isinstance(s.body[0], ast.Expr) and \
                    isinstance(p, (ast.Assign, ast.AnnAssign)) and \
                    p.value is not None and ast.unparse(p.value) in (
                        '[]', 'list()'):
                t = p.targets[0] if isinstance(p, ast.Assign) else p.target
                c = s.body[0].value
                if isinstance(t, ast.Name) and isinstance(
                        c, ast.Call) and ast.unparse(c.func) == \
                        t.id + '.append' and t.id not in {
                            x.id for x in ast.walk(c.args[0])
                            if isinstance(x, ast.Name)}:
                    p.value = ast.ListComp(c.args[0], [ast.comprehension(
                        s.target, s.iter, [], 0)])
                    continue
            out.append(s)
        return out


class KwOrder(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if all(k.arg for k in n.keywords):
            n.keywords.reverse()
        return n


class Ternary(Bodies):
    """if c: x = a else: x = b -> x = a if c else b"""

    def stmts(self, body, fn):
        out = []
        for s in body:
            if isinstance(s, ast.If) and len(s.body) == len(
                    s.orelse) == 1 and all(isinstance(x, ast.Assign) for x in
                                           (s.body[0], s.orelse[0])) and \
                    ast.unparse(s.body[0].targets[0]) == ast.unparse(
                        s.orelse[0].targets[0]):
                out.append(ast.Assign(s.body[0].targets, ast.IfExp(
                    s.test, s.body[0].value, s.orelse[0].value)))
                continue
            out.append(s)
        return out


class UnTernary(Bodies):
    """x = a if c else b -> if c: x = a else: x = b"""

    def stmts(self, body, fn):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                v = s.value
                out.append(ast.If(v.test, [ast.Assign(s.targets, v.body)],
                                  [ast.Assign(copy.deepcopy(s.targets),
                                              v.orelse)]))
                continue
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                v = s.value
                out.append(ast.If(v.test, [ast.Return(v.body)], []))
                out.append(ast.Return(v.orelse))
                continue
            out.append(s)
        return out


class Extract(ast.NodeTransformer):
    """move the right hand sides of assignments/returns into new methods"""

    def visit_ClassDef(self, c):
        new = []
        for f in c.body:
            if not isinstance(f, ast.FunctionDef) or not f.args.args or \
                    f.args.args[0].arg != 'self' or f.decorator_list:
                continue
            locs = {a.arg for a in ast.walk(f.args)
                    if isinstance(a, ast.arg)} | {
                x.id for x in ast.walk(f) if isinstance(x, ast.Name) and
                isinstance(x.ctx, ast.Store)}
            if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Nonlocal,
                                  ast.Import, ast.ImportFrom))
                   for b in f.body for x in ast.walk(b)):
                continue
            for s in ast.walk(f):
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(
                        s.value, (ast.Call, ast.BinOp, ast.ListComp,
                                  ast.Compare, ast.BoolOp)):
                    v = s.value
                    if any(isinstance(x, (ast.Yield, ast.Await, ast.YieldFrom,
                                          ast.NamedExpr)) or (isinstance(
                            x, ast.Name) and x.id in ('super', 'locals'))
                           for x in ast.walk(v)):
                        continue
                    st = {x.id for x in ast.walk(v) if isinstance(
                        x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    use = []
                    for x in ast.walk(v):
                        if isinstance(x, ast.Name) and isinstance(
                                x.ctx, ast.Load) and x.id in locs and \
                                x.id not in st and x.id != 'self' and \
                                x.id not in use:
                            use.append(x.id)
                    n = name('helper')
                    new.append(ast.FunctionDef(
                        n, ast.arguments([], [ast.arg('self')] + [
                            ast.arg(u) for u in use], None, [], [], None,
                            []), [ast.Return(v)], [], None))
                    s.value = ast.Call(ast.Attribute(
                        ast.Name('self', ast.Load()), n, ast.Load()),
                        [ast.Name(u, ast.Load()) for u in use], [])
        c.body += new
        return c


class SelfAlias(Bodies):
    """self.a.b(...) as a statement -> o = self.a; o.b(...)"""

    def stmts(self, body, fn):
        out = []
        for s in body:
            c = s.value if isinstance(s, (ast.Expr, ast.Assign,
                                          ast.Return)) else None
            if isinstance(c, ast.Call) and isinstance(
                    c.func, ast.Attribute) and isinstance(
                    c.func.value, ast.Attribute) and isinstance(
                    c.func.value.value, ast.Name) and \
                    c.func.value.value.id == 'self':
                n = name('o')
                out.append(ast.Assign([ast.Name(n, ast.Store())],
                                      c.func.value))
                c.func.value = ast.Name(n, ast.Load())
            out.append(s)
        return out


class Invert(ast.NodeTransformer):
    """a < b -> b > a;  not (x in y) etc."""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
                 ast.GtE: ast.LtE}.get(type(n.ops[0]))
            if o:
                n.left, n.comparators = n.comparators[0], [n.left]
                n.ops = [o()]
            elif isinstance(n.ops[0], (ast.NotIn, ast.IsNot, ast.NotEq)):
                p = {ast.NotIn: ast.In, ast.IsNot: ast.Is,
                     ast.NotEq: ast.Eq}[type(n.ops[0])]
                n.ops = [p()]
                return ast.UnaryOp(ast.Not(), n)
        return n


KINDS = dict(rename=Rename, hoistret=HoistReturn, hoistargs=HoistArgs,
             flipif=FlipIf, early=EarlyReturn, splitand=SplitAnd,
             testvar=TestVar, noop=Noop, comp2loop=CompToLoop,
             loop2comp=LoopToComp, kworder=KwOrder, ternary=Ternary,
             unternary=UnTernary, extract=Extract, alias=SelfAlias,
             invert=Invert)


def do_ref(props, kinds):
    props = props or sorted(
        f[:-3].upper() for f in os.listdir(VERIF + '/sa/props')
        if re.match(r'c\d\d\.py', f))
    files = []
    for d, dirs, fs in os.walk(REPO + '/mmrazor'):
        dirs[:] = [x for x in dirs if x not in ('.mim', '__pycache__')]
        files += [os.path.join(d, f) for f in fs if f.endswith('.py')]
    pool = Pool()

    def one(job):
        kind, prop, srcs = job
        return kind, prop, pool.run([prop], srcs)[prop]
    jobs = []
    for kind in kinds or KINDS:
        srcs = {}
        for f in files:
            s = open(f).read()
            t = KINDS[kind]().visit(ast.parse(s))
            out = ast.unparse(ast.fix_missing_locations(t))
            compile(out, f, 'exec')
            srcs[os.path.relpath(f, REPO)] = out
        jobs += [(kind, p, srcs) for p in props]
    with ThreadPoolExecutor(8) as ex:
        for kind, prop, (rc, out) in ex.map(one, jobs):
            if rc != 0:
                print('%s %s rc=%d' % (kind, prop, rc))
                for l in out.splitlines():
                    if l.startswith('  ') or rc == 2:
                        print('   ', l.strip()[-230:])
    pool.close()


if __name__ == '__main__':
    a = sys.argv[1:]
    rx, nmax = None, 400
    if '--f' in a:
        i = a.index('--f')
        rx = a[i + 1]
        del a[i:i + 2]
    if '--n' in a:
        i = a.index('--n')
        nmax = int(a[i + 1])
        del a[i:i + 2]
    if a[0] == 'mut':
        do_mut(a[1], rx, nmax)
    else:
        do_ref([x for x in a[1:] if x.upper() == x],
               [x for x in a[1:] if x.upper() != x])
