"""Rule layer: summaries with queries, obligations, evidence, reporting."""
import json
import os
import sys
import time

from .prog import Program, Class, Func, BrokenAnalysis
from .evalr import Evaluator, Ev
from .pat import Matcher, parse
from .terms import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Summary:
    """value-flow summary of one function with query helpers"""

    def __init__(self, ck, ev, func, cls, name):
        self.ck, self.E, self.func, self.cls, self.name = (ck, ev, func, cls,
                                                           name)
        self.m = Matcher(ev)
        self.ev = ev.events
        ck.stats['functions'].add(name)
        ck.stats['events'] += len(ev.events)
        for e in ev.events:
            ck.stats['touched'].add(e.fname)

    @property
    def where(self):
        return '%s:%d (%s)' % (self.func.path, self.func.line, self.name) \
            if self.func else self.name

    # queries ---------------------------------------------------------
    def calls(self, pat, guard=None, frame=None, top=False):
        r = []
        for e in self.ev:
            if e.kind != 'call':
                continue
            if top and len(e.frames) > 1:
                continue
            b = self.m._m(parse(pat), e.term, {})
            if b is not None and (guard is None or self.m.equiv(
                    e.guard, guard)):
                r.append(Hit(self, e, b))
        return r

    def sets(self, base, attr, value=None):
        """attribute stores"""
        r = []
        for e in self.ev:
            if e.kind != 'setattr':
                continue
            if isinstance(attr, str) and e.attr != attr and attr != '_':
                continue
            b = self.m.match(base, e.base, {})
            if b is None:
                continue
            if value is not None:
                b = self.m.match(value, e.value, b)
                if b is None:
                    continue
            r.append(Hit(self, e, b))
        return r

    def items(self, base, key=None, value=None):
        r = []
        for e in self.ev:
            if e.kind != 'setitem':
                continue
            b = self.m.match(base, e.base, {})
            if b is None:
                continue
            if key is not None:
                b = self.m.match(key, e.attr, b)
                if b is None:
                    continue
            if value is not None:
                b = self.m.match(value, e.value, b)
                if b is None:
                    continue
            r.append(Hit(self, e, b))
        return r

    def kind(self, *kinds):
        return [Hit(self, e, {}) for e in self.ev if e.kind in kinds]

    def raises(self):
        return [Hit(self, e, {}) for e in self.ev
                if e.kind in ('raise', 'assert')]

    def returns(self):
        return [Hit(self, e, {}) for e in self.ev if e.kind == 'return']

    def ret(self):
        """joined return term"""
        rets = [(g, v) for g, v, e in self.E.root_rets]
        if not rets:
            return NONE
        st = self.E.final
        if not st.dead:
            rets.append((True, NONE))
        v = rets[-1][1]
        for g, x in reversed(rets[:-1]):
            v = self.E.ite(g, x, v)
        return v

    def yields(self):
        return [Hit(self, e, {}) for e in self.ev if e.kind == 'yield'
                and len(e.frames) == 1]

    def derives(self, t, pat):
        p = parse(pat)
        for x in self.m.deep(t):
            if self.m._m(p, x, {}) is not None:
                return True
        return False

    def find(self, t, pat):
        p = parse(pat)
        r = []
        for x in self.m.deep(t):
            b = self.m._m(p, x, {})
            if b is not None:
                r.append((x, b))
        return r

    def match(self, t, pat):
        return self.m.match(pat, t)

    def loop_iters(self, e):
        return [self.E.loops[l]['iter'] for l in e.loops]

    def loop_over(self, e, pat):
        """is event e inside a loop iterating pat? -> loop id"""
        for l in e.loops:
            it = self.E.loops[l]['iter']
            if it is not None and (self.m.match(pat, it) is not None or
                                   self.m.match(pat, self.E.loops[l]['raw'] or
                                                it) is not None):
                return l
        return None

    def full_loop(self, lid):
        """no break in loop"""
        L = self.E.loops[lid]
        return not L['breaks']

    def closure(self, t):
        """summary of a closure term"""
        for f in self.m.forms(t):
            if f[0] == 'closure':
                sub = self.E.run_closure(f, self.E.final.env)
                node = self.E.closures[f[1]][0]
                s = Summary(self.ck, sub, None, self.cls,
                            self.name + '.' + f[2])
                s.func = _Loc(sub.frames[0].path, node.lineno)
                return s
        return None

    def closures(self):
        return [('closure', k, v[3]) for k, v in self.E.closures.items()]

    def final_attr(self, attr, base=SELF):
        """value of self.attr at normal exit or None"""
        st = self.E.final
        v = st.heap.get((base, attr))
        return self.E.ver.get(v) if v else None

    def dump(self):
        for e in self.ev:
            print(e)


class _Loc:
    def __init__(self, path, line):
        self.path, self.line = path, line


class Hit:
    """an event of a summary with pattern bindings"""
    __slots__ = ('s', 'e', 'b')

    def __init__(self, s, e, b):
        self.s, self.e, self.b = s, e, b

    def __getattr__(self, n):
        return getattr(self.e, n)

    @property
    def where(self):
        return self.e.where

    def guard_is(self, g):
        return self.s.m.equiv(self.e.guard, g)

    def guard_implies(self, g):
        return self.s.m.implies(self.e.guard, g)

    def when(self, g):
        """event certainly happens when g"""
        return self.s.m.implied_by(self.e.guard, g)

    def arg(self, i=None, name=None):
        """argument by position or keyword (through known signature)"""
        e = self.e
        if name is not None:
            for k, v in e.kwargs:
                if k == name:
                    return v
            if e.callee is not None:
                names = e.callee.params()
                if e.callee.cls is not None and not e.callee.has_deco(
                        'staticmethod') and not (
                        e.func[0] == 'global' and
                        not e.callee.has_deco('classmethod')):
                    names = names[1:]
                if name in names:
                    j = names.index(name)
                    if j < len(e.args):
                        return e.args[j]
        if i is not None and i < len(e.args):
            return e.args[i]
        return None

    def before(self, o):
        """self happens before o on every path on which o happens, in the
        same iteration of every loop both are in"""
        a, b = self.e, o.e if isinstance(o, Hit) else o
        if a.seq >= b.seq:
            return False
        common = 0
        for x, y in zip(a.loops, b.loops):
            if x != y:
                break
            common += 1
        ga = self.s.m.skey(a.guard)
        gb = self.s.m.skey(b.guard)
        return len(a.loops) == common and f_implies(gb, ga)

    def in_scope(self, pat):
        return any(self.s.m.match(pat, c) is not None for c in self.e.scopes)

    def in_final(self):
        return any(r == 'final' for _, r in self.e.tries)

    def unconditional(self):
        return f_equiv(self.s.m.skey(self.e.guard), True)

    @property
    def text(self):
        return self.e.text()


class Check:
    def __init__(self, prop, prog=None, maxdepth=6):
        self.prop = prop
        self.prog = prog or Program()
        self.maxdepth = maxdepth
        self.obs = []           # (rule, construct, ok, where, msg)
        self.stats = dict(functions=set(), events=0, touched=set())
        self._cache = {}
        self.broken = []

    def sections(self, *fns):
        """run independent parts; a part that cannot be analysed does not
        hide what the others find"""
        for f in fns:
            try:
                f(self)
            except BrokenAnalysis as e:
                self.broken.append(str(e))
            except Exception as e:      # noqa: BLE001
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                self.broken.append('%s: %s: %r at %s:%d' % (
                    self.prop, f.__name__, e, tb.filename, tb.lineno))
                if os.environ.get('SA_TRACE'):
                    traceback.print_exc()

    # anchors -----------------------------------------------------------
    def cls(self, name):
        c = self.prog.get_class(name) if '.' in name else None
        if c is None:
            r = self.prog.find_class(name)
            # prefer classes not being re-exports
            if not r:
                raise BrokenAnalysis('%s: class %s not found' % (
                    self.prop, name))
            c = r[0]
            if len(r) > 1:
                ex = [k for k in r if k.qual.endswith('.' + name)]
                c = ex[0]
        return c

    def fn(self, name, optional=False, **opts):
        """'Class.method' or 'pkg.module.func'"""
        key = (name, repr(sorted(opts.items(), key=str)))
        if key in self._cache:
            return self._cache[key]
        cn, _, fnm = name.rpartition('.')
        setter = fnm.endswith('=')
        if setter:
            fnm = fnm[:-1]
        cls, f = None, None
        if cn:
            r = self.prog.find_class(cn)
            if r:
                cls = r[0]
                f = self.prog.lookup_setter(cls, fnm) if setter else \
                    self.prog.lookup(cls, fnm)
        if f is None and cls is None:
            c = [x for x in self.prog.all_functions() if x.cls is None and
                 (x.qual == name or x.qual.endswith('.' + name))]
            f = c[0] if c else None
        if f is None:
            if optional:
                return None
            raise BrokenAnalysis('%s: anchor %s not found' % (self.prop,
                                                              name))
        opts.setdefault('maxdepth', self.maxdepth)
        E = Evaluator(self.prog, cls, **opts).run(f, cls)
        s = Summary(self, E, f, cls, f.qual if cls is None else
                    cls.qual + '.' + fnm)
        self._cache[key] = s
        return s

    def func_summary(self, f, cls=None, **opts):
        opts.setdefault('maxdepth', self.maxdepth)
        E = Evaluator(self.prog, cls or f.cls, **opts).run(f, cls or f.cls)
        return Summary(self, E, f, cls or f.cls, f.qual)

    # obligations ---------------------------------------------------------
    def ob(self, rule, ok, where, msg='', construct=None):
        if isinstance(where, (Summary, Hit)):
            w = where.where
            construct = construct or (where.name if isinstance(
                where, Summary) else where.e.fname)
        elif isinstance(where, (Func, Class)):
            w = '%s:%d (%s)' % (where.path, where.line, where.qual)
            construct = construct or where.qual
        else:
            w = str(where)
            construct = construct or w
        self.obs.append((rule, construct, bool(ok), w, msg))
        return bool(ok)

    def need(self, rule, hits, s, msg, n=None):
        """at least one hit (exactly n)"""
        ok = len(hits) > 0 if n is None else len(hits) == n
        self.ob(rule, ok, hits[0] if hits and ok else s, msg)
        return ok

    def always(self, rule, hits, s, msg, guard=True, loops=None):
        """some hit happens whenever `guard` (pattern string or True)"""
        g = 'True' if guard is True else guard
        ok = False
        for h in hits:
            if h.when(g) and (loops is None or
                              len(h.e.loops) == loops):
                ok = True
        if not ok and hits:
            # jointly
            f = f_or(*[h.e.guard for h in hits if loops is None or
                       len(h.e.loops) == loops])
            ok = s.m.implied_by(f, g)
        self.ob(rule, ok, s, msg)
        return ok

    def only_when(self, rule, hits, s, guard, msg):
        bad = [h for h in hits if not h.guard_implies(guard)]
        self.ob(rule, not bad, bad[0] if bad else s, msg)
        return not bad

    def iff(self, rule, hits, s, guard, msg):
        """the hits jointly happen exactly when guard"""
        if not hits:
            return self.ob(rule, False, s, msg + ' [never happens]')
        f = f_or(*[h.e.guard for h in hits])
        ok = s.m.equiv(f, guard)
        if not ok:
            # inputs the function refuses do not matter
            r = [e.guard for e in s.ev if e.kind == 'raise' and
                 not e.loops]
            ok = bool(r) and s.m.equiv_mod(f, guard, r)
        return self.ob(rule, ok,
                       hits[0], msg + ' [happens when: %s]' % fshow(f))

    def order(self, rule, first, then, s, msg):
        """each of `then` is preceded by one of `first` on every path"""
        if not then:
            return self.ob(rule, False, s, msg + ' [second event missing]')
        ok = True
        for b in then:
            if not any(a.before(b) for a in first):
                # jointly (e.g. if/else both do the first event)
                c = [a for a in first if a.e.seq < b.e.seq and
                     a.e.loops == b.e.loops[:len(a.e.loops)]]
                if c and f_implies(s.m.skey(b.e.guard), f_or(
                        *[s.m.skey(a.e.guard) for a in c])):
                    continue
                ok = False
                self.ob(rule, False, b, msg)
        if ok:
            self.ob(rule, True, then[0], msg)
        return ok

    def not_after(self, rule, first, then, s, msg):
        """no `first` event follows a `then` event in the same iteration
        scope (pure ordering; both may be conditional)"""
        bad = [(a, b) for a in first for b in then
               if a.e.seq > b.e.seq and a.e.loops[:len(b.e.loops)] ==
               b.e.loops]
        self.ob(rule, not bad, bad[0][0] if bad else s, msg)
        return not bad

    def never(self, rule, hits, s, msg):
        return self.ob(rule, not hits, hits[0] if hits else s, msg)

    def floor(self, what, n, minimum):
        if n < minimum:
            raise BrokenAnalysis('%s: only %d %s found, at least %d expected'
                                 % (self.prop, n, what, minimum))


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.txt')
    known = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                key, _, txt = rest.partition(' :: ')
                known[key.strip().replace('key=', '', 1)] = txt
    return known


def run(prop, fn, tier, seed, explain=False):
    t0 = time.time()
    ck = Check(prop, maxdepth=6 if tier == 'quick' else 9)
    known = load_known(prop)
    fn(ck)
    viol, kn = [], []
    for rule, construct, ok, where, msg in ck.obs:
        if ok:
            continue
        key = '%s@%s' % (rule, construct)
        if key in known:
            kn.append((key, where, msg, known[key]))
        else:
            viol.append((rule, construct, where, msg))
    rules = {}
    for rule, construct, ok, where, msg in ck.obs:
        d = rules.setdefault(rule, dict(obligations=0, failed=0, text=msg))
        d['obligations'] += 1
        d['failed'] += 0 if ok else 1
    samples = []
    seen = set()
    for rule, construct, ok, where, msg in ck.obs:
        if rule not in seen:
            seen.add(rule)
            samples.append(dict(rule=rule, where=where, statement=msg,
                                holds=ok))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = dict(
        property=prop, tier=tier, seed=seed, level='other',
        coverage=dict(
            explanation='Gated value-flow summaries of the functions listed '
            'were computed from /repo source on this run and each obligation '
            'was decided on them; an obligation is one rule applied to one '
            'construct.',
            files_parsed=ck.prog.files,
            functions_summarised=len(ck.stats['functions']),
            functions_entered_by_expansion=len(ck.stats['touched']),
            events_analysed=ck.stats['events'],
            obligations=len(ck.obs),
            discharged=sum(1 for o in ck.obs if o[2]),
            known_findings=len(kn),
            rules=rules,
            functions=sorted(ck.stats['functions']),
            samples=samples[:40]),
        assumptions=['names resolve statically (no monkey patching of '
                     'mmrazor itself other than the recorders analysed)',
                     'third-party callees behave as documented'],
        wall_s=round(time.time() - t0, 3), violations=len(viol))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'),
              indent=1)
    for key, where, msg, txt in kn:
        print('KNOWN-FINDING: property=%s %s [%s at %s]' % (prop, txt, key,
                                                            where))
    rp = os.path.join(VERIF, 'evidence', prop + '.violations.json')
    if viol:
        json.dump([dict(rule=a, construct=b, where=c, message=d)
                   for a, b, c, d in viol], open(rp, 'w'), indent=1)
        for a, b, c, d in viol:
            print('  %s: %s -- %s (rule %s)' % (c, b, d, a))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    if ck.broken:
        for b in ck.broken:
            print('ANALYSIS-BROKEN property=%s %s' % (prop, b))
        return 2
    print('OK property=%s obligations=%d functions=%d events=%d wall=%.1fs' %
          (prop, len(ck.obs), len(ck.stats['functions']), ck.stats['events'],
           time.time() - t0))
    return 0
