"""C16 one process writes files; all agree on the subnet."""
from .common import *

SCOPE = ('mmrazor.engine', 'mmrazor.implementations',
         'mmrazor.models.algorithms', 'mmrazor.visualization',
         'mmrazor.structures', 'mmrazor.utils')
RANK = 'OR(_.rank, get_rank(), get_rank(_), get_dist_info()[0], ' \
    'get_dist_info(_)[0])'
MULTI = 'OR(_.distributed, _.is_initialized(), is_initialized(), ' \
    'is_distributed(), 1 < get_world_size(), 1 < _.world_size, ' \
    '_.is_available(), is_available())'
M = ('atom', ('M',))

WRITE = [
    'torch.save(...)', 'fileio.dump(...)', 'mmengine.fileio.dump(...)',
    'mmengine.dump(...)', 'mmengine.fileio.io.dump(...)',
    'json.dump(...)', 'pickle.dump(...)', 'yaml.dump(_, _, ...)',
    'numpy.save(...)', 'numpy.savez(...)', 'onnx.save(...)',
    'mmengine.runner.save_checkpoint(...)',
    'mmengine.runner.checkpoint.save_checkpoint(...)',
    '_.write_text(...)', '_.write_bytes(...)', '_.add_datasample(...)',
    '_.add_image(...)', '_.add_graph(...)', '_.put(...)', '_.put_text(...)',
    'mmcv.imwrite(...)', 'cv2.imwrite(...)', '_.savefig(...)',
    # taking a file away
    'os.remove(...)', 'os.unlink(...)', 'os.rename(...)', 'os.replace(...)',
    'shutil.rmtree(...)', 'shutil.move(...)', '_.unlink(...)',
    'mmengine.fileio.remove(...)', 'fileio.remove(...)',
]
COLL = [
    'broadcast(...)', '_.broadcast(...)', '_.all_reduce(...)',
    'all_reduce(...)', '_.all_gather(...)', 'all_gather(...)',
    '_.barrier(...)', 'barrier(...)', 'broadcast_object_list(...)',
    '_.broadcast_object_list(...)', 'all_reduce_params(...)',
    '_.all_reduce_params(...)', '_.all_gather_object(...)',
    'all_gather_object(...)', 'collect_results(...)',
    '_.evaluator.evaluate(...)', 'sync_random_seed(...)', 'GatherTensors(...)',
]
DRAW = [
    '_.sample_choices(...)', '_.sample_choice(...)', '_.sample_subnet(...)',
    'random.choice(...)', 'random.random(...)', 'random.randint(...)',
    'random.uniform(...)', 'random.sample(...)', 'random.shuffle(...)',
    'numpy.random.choice(...)', 'numpy.random.rand(...)',
    'numpy.random.randint(...)', 'numpy.random.random(...)',
    'numpy.random.uniform(...)', 'numpy.random.permutation(...)',
    'numpy.random.shuffle(...)',
]


def polar(s, a):
    """True: the atom holds exactly on the main process; False: exactly on
    the others"""
    if a[0] == 'cmp' and len(a) > 3:
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            if s.m.match(RANK, x) is not None and y == const(0):
                if a[1] in ('==', 'is'):
                    return True
                if a[1] == '<' and y is a[2]:
                    return False
    if s.m.match(RANK, a) is not None:
        return False
    if s.m.match('is_main_process(...)', a) is not None or s.m.match(
            '_.is_main_process(...)', a) is not None:
        return True
    return None


def in_terms_of_rank(s, f):
    def fn(a):
        p = polar(s, a)
        if p is not None:
            return M if p else f_not(M)
        if a[0] == 'cmp' and a[1] == '<' and s.m.match(
                'OR(_.world_size, get_world_size(), get_dist_info()[1])',
                a[3]) is not None and a[2] == const(1):
            return True
        if s.m.match(MULTI, a) is not None:
            return True
        return ('atom', a)
    return f_map(s.m.norm(f), fn)


def skeyed(s, f):
    return f_map(in_terms_of_rank(s, f), lambda a: ('atom', show(a) if a[
        0] != 'M' else 'M'))


def main_scope(e):
    return any('master_only' in (c[1] if c[0] == 'global' else c[1][1] if
                                 c[0] == 'call' and c[1][0] == 'global'
                                 else '') for c in e.scopes)


def main_only(s, h):
    if main_scope(h.e):
        return True
    g = in_terms_of_rank(s, h.e.guard)
    # refusing or leaving on the other processes beforehand
    for e in s.ev:
        if e.kind == 'raise' and e.seq < h.e.seq and not e.loops:
            g = f_and(g, f_not(in_terms_of_rank(s, e.guard)))
    return f_implies(g, M)


def by_rank(s, h):
    """whether the event happens depends on the process"""
    if main_scope(h.e):
        return True
    g = in_terms_of_rank(s, h.e.guard)
    if not any(a == M[1] for a in f_atoms(g)):
        return False

    def fix(v):
        return f_map(g, lambda a: v if a == M[1] else ('atom', a))
    return not f_equiv(fix(True), fix(False))


def writes(s):
    out = []
    for p in WRITE:
        out += s.calls(p)
    for h in s.calls('open(...)') + s.calls('_.open(...)'):
        m = h.arg(1, 'mode') if h.e.func == ('global', 'open') else \
            h.arg(0, 'mode')
        if m is not None and m[0] == 'const' and isinstance(m[1], str) and \
                set(m[1]) & set('wax+'):
            out.append(h)
    for h in s.calls('_o.save_checkpoint(...)'):
        if s.m.match('OR(_.runner, runner)', h.b['_o']) is None and s.m.match(
                'runner', h.b['_o']) is None:
            out.append(h)
    return out


def hits(s, pats):
    r, seen = [], set()
    for p in pats:
        for h in s.calls(p):
            if h.e.seq not in seen:
                seen.add(h.e.seq)
                r.append(h)
    return r


def called_names(prog):
    r = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute):
                    r.add(n.func.attr)
                elif isinstance(n.func, ast.Name):
                    r.add(n.func.id)
    return r


def in_scope(m):
    return any(m.name == x or m.name.startswith(x + '.') for x in SCOPE)


INTEREST = {'open', 'dump', 'save', 'save_checkpoint', 'write_text',
            'write_bytes', 'add_datasample', 'add_image', 'savez', 'imwrite',
            'savefig', 'put', 'put_text', 'add_graph',
            'broadcast', 'all_reduce', 'all_gather', 'barrier',
            'broadcast_object_list', 'all_reduce_params', 'evaluate',
            'all_gather_object', 'collect_results', 'sync_random_seed',
            'sample_choices', 'sample_choice', 'sample_subnet', 'choice',
            'random', 'randint', 'uniform', 'sample', 'shuffle', 'rand',
            'permutation'}


def last_names(node):
    r = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            f = n.func
            r.add(f.attr if isinstance(f, ast.Attribute) else f.id if
                  isinstance(f, ast.Name) else '')
        elif isinstance(n, ast.Attribute):
            r.add(n.attr)
    return r


def entry_summaries(ck):
    """summaries (helpers expanded) of everything in scope that may run"""
    names = called_names(ck.prog)
    fs = [f for f in ck.prog.all_functions() if in_scope(f.module)]
    # functions from which something of interest can be reached, by name
    reach = {f.name for f in fs if last_names(f.node) & INTEREST}
    while True:
        more = {f.name for f in fs if f.name not in reach and last_names(
            f.node) & reach}
        if not more:
            break
        reach |= more
    todo, rest = [], []
    for f in fs:
        if f.name not in reach:
            continue
        private = f.name.startswith('_') and not f.name.startswith('__')
        (rest if private and f.name in names else todo).append(f)
    out, seen = [], set()

    def add(f):
        try:
            s = ck.func_summary(f)
        except BrokenAnalysis as e:
            ck.broken.append(str(e))
            return
        out.append(s)
        done = set()
        while True:
            cl = [c for c in s.closures() if c[1] not in done]
            if not cl:
                break
            for c in cl:
                done.add(c[1])
                try:
                    z = s.closure(c)
                except BrokenAnalysis:
                    z = None
                if z is not None:
                    out.append(z)
        for z in out[-1 - len(done):]:
            for e in z.ev:
                seen.add((e.path, e.line))
    for f in todo:
        add(f)
    for f in rest:
        if not any((f.path, n.lineno) in seen for n in ast.walk(f.node)
                   if isinstance(n, ast.Call)):
            add(f)
    return out


def check_files(ck):
    n = 0
    for s in ck.entries:
        for h in writes(s):
            n += 1
            ck.ob('main-writes', main_only(s, h), h,
                  'files are written by the main process only', construct=
                  h.e.fname)
    ck.floor('file-writing calls', n, 6)


def check_collectives(ck):
    n = 0
    for s in ck.entries:
        for h in hits(s, COLL):
            n += 1
            ck.ob('all-join', not by_rank(s, h), h, 'every process takes '
                  'part in a collective step', construct=h.e.fname)
    ck.floor('collective steps', n, 6)


def check_draws(ck):
    n = 0
    for s in ck.entries:
        sh = [h for h in hits(s, ['broadcast_object_list(...)',
                                  '_.broadcast_object_list(...)',
                                  'broadcast(...)', '_.broadcast(...)'])
              if not by_rank(s, h)]
        for h in hits(s, DRAW):
            n += 1
            if not by_rank(s, h):
                ck.ob('draw-together', True, h, '', construct=h.e.fname)
                continue
            ck.ob('draw-together', any(x.e.seq > h.e.seq for x in sh), h,
                  'subnets are drawn by all processes alike, or the draw is '
                  'shared by a broadcast', construct=h.e.fname)
    ck.floor('random draws', n, 6)


PRIVATE = ['random.Random(...)', 'random.SystemRandom(...)',
           'numpy.random.default_rng()', 'numpy.random.RandomState()',
           'os.urandom(...)', 'secrets.choice(...)', 'secrets.randbelow(_)',
           'uuid.uuid4()', 'time.time()', 'os.getpid()', 'hash(_)', 'id(_)']


def check_source(ck):
    """draws come from the shared seeded generators and depend on nothing
    that differs between processes"""
    n = 0
    for c in ck.prog.all_classes():
        for nm in ('sample_choice', 'sample_choices', 'sample_subnet'):
            f = c.methods.get(nm)
            if f is None or f.has_deco('abstractmethod'):
                continue
            s = ck.func_summary(f, c)
            n += 1
            bad = hits(s, PRIVATE)
            ck.never('seeded-draw', bad, s, 'choices are drawn from the '
                     'generators all processes seed alike')
            dep = [h for h in hits(s, DRAW) + s.returns() if by_rank(s, h) or
                   any(s.derives(v, RANK) for v in tuple(h.e.args or ()) +
                       ((h.e.value,) if h.e.value is not None else ()))]
            ck.never('rank-free-draw', dep, s, 'what is drawn does not '
                     'depend on the process')
            for h in hits(s, DRAW):
                a = h.arg(0)
                if a is None:
                    continue
                un = any(x[0] == 'call' and x[1] in (
                    ('global', 'set'), ('global', 'frozenset')) or
                    x[0] == 'comp' and x[1] == 'set' for x in s.m.deep(a)) \
                    and not any(x[0] == 'call' and x[1] == (
                        'global', 'sorted') for x in s.m.deep(a))
                ck.ob('ordered-draw', not un, h, 'draws are made from '
                      'ordered candidates')
    ck.floor('sampling methods', n, 4)


def check_share(ck):
    """sampled candidates are broadcast before anything uses them"""
    s = ck.fn('EvolutionSearchLoop.sample_candidates')
    bc = s.calls('broadcast_object_list(_x)') + s.calls(
        '_.broadcast_object_list(_x)')
    ok = [h for h in bc if h.unconditional() and not by_rank(s, h) and
          s.m.match('OR(self.candidates.data, self.candidates)',
                    h.b['_x']) is not None]
    ck.need('candidates-shared', ok, s, 'sampled candidates are shared with '
            'all processes')
    for h in ok:
        src = h.arg(1, 'src')
        ck.ob('share-source', src is None or src == const(0), h, 'they come '
              'from the process that sampled them')
    late = s.calls('self.candidates.append(_)') + s.calls(
        'self.candidates.update_resources(...)') + s.sets('self',
                                                         'candidates')
    ck.not_after('shared-complete', late, ok, s, 'they are shared once '
                 'complete')
    # the other processes hold as many slots as the sampling one
    for h in s.sets('self', 'candidates'):
        g = in_terms_of_rank(s, h.e.guard)
        if g is not True and f_implies(g, f_not(M)):
            ck.ob('share-slots', s.derives(
                h.e.value, 'self.num_candidates'), h, 'every process '
                'receives the whole population')


def check_dsnas(ck):
    for c in ('DSNAS', 'DSNASDDP'):
        s = ck.fn(c + '.train_step', opaque=('_fix_archtecture',))
        fx = s.calls('_._fix_archtecture(...)')
        ck.need('fix', fx, s, 'the architecture is fixed')
        bc = s.calls('_.broadcast(_v, ...)') + s.calls('broadcast(_v, ...)')
        own = []
        for h in bc:
            l = [x for x in h.e.loops if over(s, x, '_.arch_params',
                                              '_.mutator.arch_params')
                 and whole(s, x)]
            src = h.arg(1, 'src')
            if l and (src is None or src == const(0)) and len(
                    h.e.loops) == 1:
                own.append((h, l[0]))
        for h in fx:
            ok = any(b.e.seq < h.e.seq and f_implies(
                skeyed(s, h.e.guard), skeyed(s, b.e.guard)) for b, _ in own)
            ck.ob('arch-shared', ok, h, 'all processes agree on every '
                  'architecture parameter before the architecture is fixed')


def check_first_scale(ck):
    """learned quantisation scales of the first batch"""
    s = ck.fn('LSQEpochBasedLoop.run_epoch')
    ar = s.calls('all_reduce_params(...)')
    ck.need('scale-shared', ar, s, 'initial scales are made equal on all '
            'processes')
    for h in ar:
        ck.ob('scale-op', h.arg(None, 'op') is not None and s.m.match(
            "'mean'", h.arg(None, 'op')) is not None, h, 'by averaging')
        ck.ob('scale-all', h.arg(0) is not None and s.derives(
            h.arg(0), 'self.runner.model.parameters()'), h, 'for every '
            'parameter')


def check(ck):
    ck.entries = entry_summaries(ck)
    ck.sections(check_files, check_collectives, check_draws, check_source,
                check_share, check_dsnas, check_first_scale)
