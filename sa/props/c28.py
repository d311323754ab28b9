"""C28 exported quantised graphs keep the network: symbolic nodes are
replaced, every consumer keeps its producer, parameters pass unchanged."""
from .common import *
from .arith import cases
from .c35 import Abbr
from ..terms import f_and, f_not, f_or, f_implies, f_equiv, f_map, show

B = 'BaseQuantizeExportor'
OV = 'OpenVinoQuantizeExportor'
TRT = 'TensorRTExplicitExporter'
U = 'ONNXOptimUtils'
GRAPH = 'OR(self.onnx_model.graph, self.graph)'
NODES = 'OR(self.onnx_model.graph.node, self.graph.node)'


def check(ck):
    ck.sections(state, qparams, attributes, axis, names, collection, consts,
                removal, trt_nodes, trt_limits, trt_export, ov_node,
                ov_values, ov_build, ov_insert, ov_export, mappings,
                fake_pads, standalone, redundant, sorting, optimized,
                selection)


def is_(s, t, *pats):
    t = full(s, t)
    return any(s.m.match(p, t) is not None for p in pats)


def every(s, e, *pats):
    """the event stands in one loop that visits each of these"""
    return len(e.loops) == 1 and whole(s, e.loops[0]) and over(
        s, e.loops[0], *pats)


def copied(s, lid):
    """the loop iterates a copy"""
    L = s.E.loops[lid]
    it = L['raw'] if L['raw'] is not None else L['iter']
    return it is not None and any(s.m.match(p, it) is not None for p in (
        'list(_)', 'tuple(_)', '_[:]', '_.copy()', 'copy.copy(_)',
        'reversed(list(_))'))


# -------------------------------------------------------------------- state
def state(ck):
    s = ck.fn(B + '.__init__', opaque=(
        '_init_mappings_from_onnx', 'remove_fake_pad_op',
        '_remap_input_and_node', '_remap_output_and_node',
        'map_input_and_node', 'map_output_and_node', 'map_name_and_data'))
    st = s.sets('self', 'onnx_model')
    ck.need('state', st, s, 'the model is kept')
    for h in st:
        for g, x in leaves(s, h.e.value, h.e.guard):
            ck.ob('state', is_(s, x, 'onnx_model', 'onnx.load(onnx_model)'),
                  h, 'the given or loaded model')
    cov = f_or(refused(s), *[h.e.guard for h in st])
    ck.ob('state', s.m.implied_by(cov, 'True'), s, 'or the call is refused')
    p = s.sets('self', 'export_path')
    ck.always('state', [h for h in p if is_(s, h.e.value, 'export_path')], s,
              'the destination is kept',
              guard='True' if not refused(s) is True else True) \
        if refused(s) is False else ck.need('state', [
            h for h in p if is_(s, h.e.value, 'export_path')], s,
            'the destination is kept')
    rm = s.calls('_.remove_fake_pad_op(...)')
    mp = s.calls('self._init_mappings_from_onnx(...)') + s.calls(
        '_.map_name_and_data(...)')
    ck.need('state', mp, s, 'the graph is indexed')
    for h in rm:
        ck.ob('state', all(x in show(full(s, ('tuple', tuple(h.e.args))))
                           for x in ('onnx_model',)), h,
              'paddings of this model are cleaned')
        for nm in ('input', 'output'):
            again = s.calls('self._remap_%s_and_node()' % nm) + s.sets(
                'self', '%s2node' % nm)
            ck.ob('state', any(x.e.seq > h.e.seq and x.guard_implies('True')
                               and f_implies(h.e.guard, x.e.guard)
                               for x in again), h,
                  'and the graph is indexed again by %s' % nm)
        a = [show(full(s, x)) for x in h.e.args]
        if len(a) == 4:
            ck.ob('state', 'name2data' in a[1] and 'input2node' in a[2] and
                  'output2node' in a[3], h, 'with the index of this graph')
    for m, fn, attr in (('_init_mappings_from_onnx', None, None),
                        ('_remap_input_and_node', 'map_input_and_node',
                         'input2node'),
                        ('_remap_output_and_node', 'map_output_and_node',
                         'output2node')):
        f = ck.fn(B + '.' + m, optional=True, opaque=(
            'map_input_and_node', 'map_output_and_node',
            'map_name_and_data'))
        if f is None:
            continue
        for fn, attr in ([(fn, attr)] if fn else [
                ('map_input_and_node', 'input2node'),
                ('map_output_and_node', 'output2node'),
                ('map_name_and_data', 'name2data')]):
            st = f.sets('self', attr)
            ck.ob('state', bool(st) and all(
                h.e.guard is True and any(
                    is_(f, h.e.value, '_.%s(%s)' % (fn, x)) for x in (
                        'self.onnx_model', 'onnx_model')) for h in st), f,
                '%s is of the current model' % attr)
    g = ck.fn(B + '.graph', optional=True)
    if g is not None:
        ck.ob('state', is_(g, g.ret(), 'self.onnx_model.graph'), g,
              'the graph of the model')


# ------------------------------------------------------ parameters of nodes
IN = ['OR(node.input[%d], node.input[:3][%d])' % (i, i) for i in range(3)]


def qparams(ck):
    s = ck.fn(B + '.parse_qparams', opaque=('_parse_attrs',))
    r = full(s, s.ret())
    ok = r[0] == 'tuple' and len(r[1]) == 5
    ck.ob('parameters', ok, s, 'tensor, scale, zero point and range')
    if not ok:
        return
    ck.ob('parameters', is_(s, r[1][0], IN[0]), s, 'the quantised tensor')
    for i, n in ((1, 'scale'), (2, 'zero point')):
        ck.ob('parameters', is_(s, r[1][i], 'self.name2data[%s]' % IN[i]), s,
              'the %s of the node' % n)
    lens = {show(a) for i in (3, 4) for g, x in leaves(s, r[1][i])
            for a in f_atoms(s.m.norm(g)) if 'len(node.input)' in show(a)}
    ck.ob('parameters', lens <= {'(3 < len(node.input))', '(len(node.input) '
                                 '<= 3)', '(4 <= len(node.input))'} and
          bool(lens), s, 'inputs beyond the zero point hold the range')
    for i, n, key in ((3, 0, 'quant_min'), (4, 1, 'quant_max')):
        for big in (True, False):
            for has in (True, False):
                vs = [x for g, x in leaves(s, r[1][i]) if f_map(
                    s.m.norm(g), lambda a: big if 'len(node.input)' in show(
                        a) else has if 'node.attribute' in show(a) else (
                            'atom', a)) is not False]
                if big:
                    ok = all(is_(s, x, 'self.name2data[OR(node.input[%d], '
                                 'node.input[-2:][%d])]' % (n - 2, n))
                             for x in vs)
                elif has:
                    ok = all(show(full(s, x)).endswith(
                        "_parse_attrs(node.attribute)['%s']" % key)
                        for x in vs)
                else:
                    ok = all(x == NONE for x in vs)
                ck.ob('parameters', bool(vs) and ok, s, '%s of the node (%s)'
                      % (key, 'inputs' if big else 'attributes' if has else
                         'absent'))


TYPES = {'INT': 'A.i', 'FLOAT': 'A.f', 'INTS': 'tuple(A.ints)',
         'FLOATS': 'tuple(A.floats)',
         'TENSOR': 'onnx.numpy_helper.to_array(A.t)'}
ALLT = ('INT', 'FLOAT', 'INTS', 'FLOATS', 'TENSOR', 'STRING', 'STRINGS')


def attributes(ck):
    f = ck.prog.find_func('_parse_attrs') if hasattr(
        ck.prog, 'find_func') else None
    s = ck.fn('base_quantize_exporter._parse_attrs') if f is None else \
        ck.func_summary(f)
    A = Abbr(s, [('A', 'ELEM(node_attrs)')])
    es = entries(s, s.ret())
    ck.need('attributes', es, s, 'attributes are parsed')
    for e in es:
        ck.ob('attributes', len(e.loops) == 1 and whole(s, e.loops[0]) and
              A.is_(e.key, 'A.name'), e, 'by name, every attribute')

    def typed(g, T):
        def fn(a):
            t = show(a)
            if '.type' in t and a[0] == 'cmp' and a[1] == '==':
                return t.rstrip(')').endswith('.' + T) or ('.%s ==' % T) in t
            return ('atom', a)
        return f_map(s.m.norm(g), fn)
    for T, p in TYPES.items():
        vs = [e for e in es if typed(e.guard, T) is not False]
        ck.ob('attributes', bool(vs) and all(
            typed(e.guard, T) is True and A.is_(e.value, p, p.replace(
                'tuple', 'list')) for e in vs), s, 'the value of %s '
            'attributes' % T)


def module_list(ck, name):
    m = module_of(ck, 'quantizers.exporters.base_quantize_exporter')
    return constant_of(m, name)


def constant_of(m, name):
    import ast
    env = {}
    for st in m.tree.body:
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            tg = st.targets[0] if isinstance(st, ast.Assign) else st.target
            if isinstance(tg, ast.Name) and st.value is not None:
                env[tg.id] = st.value

    def ev(n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    out += list(ev(x.value))
                else:
                    out.append(ev(x))
            return out
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            return list(ev(n.left)) + list(ev(n.right))
        if isinstance(n, ast.Name) and n.id in env:
            return ev(env[n.id])
        if isinstance(n, ast.Call) and n.args and isinstance(
                n.func, ast.Name) and n.func.id in (
                    'list', 'tuple', 'set', 'frozenset'):
            return ev(n.args[0])
        raise ValueError
    return ev(env[name]) if name in env else None


def axis(ck):
    s = ck.fn(B + '.parse_channel_axis')
    vs = leaves(s, s.ret())
    got = False
    for g, x in vs:
        if x == NONE:
            # only for nodes that carry no axis
            per = [a for a in f_atoms(g)]
            ck.ob('axis', bool(per), s, 'only for per tensor nodes')
            continue
        got = True
        ck.ob('axis', is_(s, x, 'int(self.name2data[node.input[3]])',
                          'int(self.name2data[node.input[-3]])',
                          'self.name2data[node.input[3]].item()'), s,
              'the axis given to the node')
        ck.ob('axis', 'PERCHANNEL' in fshow_(g) or 'len(node.input)' in
              fshow_(g), s, 'of per channel nodes')
        pc = case(s, g, {'node.op_type in _': True})
        ck.ob('axis', s.m.implied_by(pc, '5 < len(node.input)'), s,
              'whenever the node has one')
    ck.ob('axis', got, s, 'the axis is read')


def fshow_(g):
    from ..terms import fshow
    return fshow(g)


def names(ck):
    """operators the symbolic functions emit are recognised"""
    import ast
    allq = module_list(ck, 'ALL_FAKEQUANTIZER')
    per = module_list(ck, 'PERCHANNEL_FAKEQUANTIZER')
    nm = module_of(ck, 'models.quantizers.native_quantizer')
    found = []
    for f in ast.walk(nm.tree):
        if not isinstance(f, ast.FunctionDef) or not f.name.startswith(
                'fake_quantize_per'):
            continue
        for n in ast.walk(f):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr == 'op' and \
                    n.args and isinstance(n.args[0], ast.Constant) and \
                    '::' in str(n.args[0].value):
                found.append((f, n, n.args[0].value.split('::')[1]))
    s = ck.fn(B + '.collect_symbolic_nodes')
    ck.ob('emitted', bool(found) and bool(allq), s, 'emitted operators are '
          'known by name')
    for fn, n, op in found:
        ck.ob('emitted', op in (allq or ()), s, 'operator %s is recognised'
              % op)
        ps = [a.arg for a in fn.args.args][1:]
        args = [x.id if isinstance(x, ast.Name) else None for x in n.args[
            1:]]
        ck.ob('emitted', args == ps, s, 'operator %s carries what it was '
              'called with' % op)
        if len(ps) == 6:
            ck.ob('emitted', op in (per or ()), s,
                  'operator %s is per channel' % op)
        else:
            ck.ob('emitted', op not in (per or ()), s,
                  'operator %s is per tensor' % op)


# ------------------------------------------------------- collecting, removal
def collection(ck):
    s = ck.fn(B + '.collect_symbolic_nodes')
    it = listed(s, s.ret())
    ck.need('collect', it, s, 'symbolic nodes are collected')
    for x in it:
        ck.ob('collect', len(x.loops) == 1 and whole(s, x.loops[0]) and
              is_(s, x.value, 'ELEM(onnx_model.graph.node)'), x.hit or s,
              'of all nodes')
        ck.ob('collect', case(s, x.guard, {
            '_.op_type in _': True}) is True and case(s, x.guard, {
                '_.op_type in _': False}) is False, x.hit or s,
            'each node with a symbolic operator')
        a = [a for a in f_atoms(x.guard) if a[0] == 'cmp' and a[1] == 'in']
        ck.ob('collect', bool(a) and all(
            show(y[3]).endswith('ALL_FAKEQUANTIZER') or show(
                y[3]).count('FAKEQUANTIZER') == 2 for y in a), x.hit or s,
            'any symbolic operator')


def consts(ck):
    s = ck.fn(B + '._get_constant_inputs')
    it = listed(s, s.ret())
    ck.need('constants', it, s, 'constant inputs are found')
    for x in it:
        ck.ob('constants', len(x.loops) == 1 and whole(s, x.loops[0]) and
              is_(s, x.value, 'self.output2node[ELEM(node.input)]',
                  'self.output2node.get(ELEM(node.input))'), x.hit or s,
              'producers of all inputs')
        ck.ob('constants', any("op_type == 'Constant'" in show(a) or
                               "'Constant' == " in show(a)
                               for a in f_atoms(x.guard)) and case(
            s, x.guard, {"_.op_type == 'Constant'": False}) is False,
            x.hit or s, 'only constants')
        ck.ob('constants', case(s, x.guard, {
            "_.op_type == 'Constant'": True, '_ in self.output2node': True,
            '_ is None': False}) is True, x.hit or s, 'every constant')
        ck.ob('constants', case(s, x.guard, {
            '_ in self.output2node': False, '_ is None': True}) is False,
            x.hit or s, 'computed inputs only')
    s = ck.fn(B + '._collect_symbolic_constant_inputs', opaque=(
        '_get_constant_inputs',))
    it = [x for x in listed(s, s.ret())]
    ck.need('constants', it, s, 'constants are collected')
    grown = {strip(y) for x in it if x.hit is not None
             for y in s.m.bases(x.hit.e.func[1])}
    for x in it:
        v = full(s, x.value)
        ck.ob('constants', is_(s, v, 'ELEM(self._get_constant_inputs(ELEM('
                               'symbolic_nodes)))') or is_(
            s, v, 'self._get_constant_inputs(ELEM(symbolic_nodes))'),
            x.hit or s, 'of every symbolic node')
        ck.ob('constants', all(whole(s, l) for l in x.loops) and any(
            over(s, l, 'symbolic_nodes') for l in x.loops), x.hit or s,
            'all of them')
        for l in x.loops:
            i = s.E.loops[l]['iter']
            ck.ob('constants', i is None or copied(s, l) or not (
                {strip(y) for y in s.m.bases(i)} & grown), x.hit or s,
                'the list read is not the list extended')
        if x.hit is not None and x.guard is not True:
            seen = [a for a in f_atoms(x.guard) if a[0] == 'cmp' and a[1] ==
                    'in' and '_get_constant_inputs' in show(a[2])]
            ck.ob('constants', case(s, x.guard, {
                '_ in _': False}) is True and bool(seen), x.hit,
                'unless collected already')
            for a in seen:
                ad = [y for y in s.calls('_s.add(_v)') + s.calls(
                    '_s.append(_v)') if {strip(z) for z in s.m.bases(
                        y.e.func[1])} & {strip(z) for z in s.m.bases(a[3])}]
                ck.ob('constants', bool(ad) and all(show(strip(
                    y.e.args[0])) == show(strip(a[2])) for y in ad),
                    x.hit, 'what was collected is remembered')


def removal(ck):
    s = ck.fn(B + '._remove_symbolic_related_from_onnx', opaque=())
    rm = s.calls(NODES + '.remove(_x)')
    ck.need('remove', rm, s, 'nodes are removed')
    sym = [h for h in rm if is_(s, h.b['_x'], 'ELEM(symbolic_nodes)')]
    cst = [h for h in rm if is_(s, h.b['_x'],
                                'ELEM(symbolic_constant_inputs)')]
    ck.ob('remove', len(sym) + len(cst) == len(rm) and bool(sym), s,
          'symbolic nodes and their constants')
    for h in sym:
        ck.ob('remove', h.e.guard is True and every(
            s, h.e, 'symbolic_nodes'), h, 'every symbolic node')
    for h in cst:
        ck.ob('remove', every(s, h.e, 'symbolic_constant_inputs'), h,
              'of the collected constants')
        ck.ob('remove', all(x.e.seq < h.e.seq for x in sym), h,
              'once the symbolic nodes are gone')
        g = unfold(s, h.e.guard)
        use = 'ELEM(ELEM(%s).input) == ELEM(symbolic_constant_inputs)' \
            '.output[0]' % NODES
        ok = any(s.m.match(p, a) is not None for a in f_atoms(g) for p in (
            use, 'ELEM(symbolic_constant_inputs).output[0] in ELEM(%s).input'
            % NODES, 'HAS(ELEM(%s).input)' % NODES, 'HAS(ELEM(%s)).input' %
            NODES, '_.output[0] in HAS(ELEM(%s).input)' % NODES))
        ok = ok or any('.input' in t and 'graph.node' in t and
                       '.output' in t for t in [
                           show(full(s, a)) for a in f_atoms(g)])
        ck.ob('remove', ok, h, 'only when no node reads the constant')
        seen = list(f_atoms(g)) + [x for L in s.E.loops.values() for x in (
            L['raw'], L['iter']) if x is not None]
        for x in seen:
            t = full(s, x)
            if '.input' in show(t):
                ck.ob('remove', not partial_slice(s, t) and not any(
                    y[0] == 'sub' and y[1][0] == 'attr' and y[1][2] == 'input'
                    for y in s.m.deep(t)), h, 'as any of its inputs')
        ck.ob('remove', case_all(s, g, False) is True and case_all(
            s, g, True) is False, h, 'exactly then')
        # the nodes searched are all the nodes left
        ls = [l for l, L in s.E.loops.items() if L['iter'] is not None and
              s.m.match(NODES, L['iter']) is not None]
        ck.ob('remove', bool(ls), h, 'all nodes are asked')
        for l in ls:
            ck.ob('remove', not partial_slice(s, s.E.loops[l]['raw'] or
                                              s.E.loops[l]['iter']), h,
                  'each of them')


def case_all(s, g, v):
    return f_map(s.m.norm(g), lambda a: v if (
        '.input' in show(full(s, a)) or 'loopret' in show(a)) else (
            'atom', a))


# ----------------------------------------------------------------- TensorRT
def kwarg(s, h, name, pos=None):
    for k, v in h.e.kwargs:
        if k == name:
            return v
    if pos is not None and len(h.e.args) > pos:
        return h.e.args[pos]
    return None


def made(s, op):
    return [Hit(s, e, {}) for e in s.ev if e.kind == 'call' and show(
        e.func).endswith('make_node') and (
            e.args and e.args[0] == const(op) or dict(e.kwargs).get(
                'op_type') == const(op))]


def elements(s, t):
    """elements of a literal list, sums of lists flattened; None when
    unknown"""
    t = full(s, t)
    if t[0] == 'alloc' and t[1] in ('list', 'tuple'):
        out = []
        for x in t[2]:
            if x[0] == 'star':
                y = elements(s, x[1])
                if y is None:
                    return None
                out += y
            else:
                out.append(x)
        return out
    if t[0] == 'tuple':
        return list(t[1])
    if t[0] == 'bin' and t[1] == 'Add':
        a, b = elements(s, t[2]), elements(s, t[3])
        return None if a is None or b is None else a + b
    b = s.m.match('node.input[:3]', t)
    if b is not None:
        return [('in', i) for i in range(3)]
    b = s.m.match('list(node.input[:3])', t)
    if b is not None:
        return [('in', i) for i in range(3)]
    if s.m.match('node.input[1:3]', t) is not None or s.m.match(
            'list(node.input[1:3])', t) is not None:
        return [('in', 1), ('in', 2)]
    if s.m.match('node.output', t) is not None or s.m.match(
            'list(node.output)', t) is not None or s.m.match(
                'node.output[:]', t) is not None:
        return [('out',)]
    b = s.m.match('_q.input[1:3]', t)
    if b is not None and 'make_node' in show(b['_q'])[:24]:
        e = elements(s, inputs_of(b['_q']))
        return None if e is None else e[1:3]
    b = s.m.match('_q.output', t)
    if b is not None and 'make_node' in show(b['_q'])[:24]:
        return elements(s, outputs_of(b['_q']))
    return None


def inputs_of(c):
    for k, v in c[3]:
        if k == 'inputs':
            return v
    return c[2][1] if len(c[2]) > 1 else NONE


def outputs_of(c):
    for k, v in c[3]:
        if k == 'outputs':
            return v
    return c[2][2] if len(c[2]) > 2 else NONE


def role(s, x):
    if x and x[0] in ('in', 'out'):
        return x
    for i in range(3):
        if is_(s, x, 'node.input[%d]' % i, 'node.input[:3][%d]' % i):
            return ('in', i)
    if is_(s, x, 'node.output[0]'):
        return ('out',)
    for i in range(3):
        b = s.m.match('_q.input[%d]' % i, full(s, x))
        if b is not None and 'make_node' in show(b['_q'])[:24]:
            e = elements(s, inputs_of(b['_q']))
            return role(s, e[i]) if e else x
    b = s.m.match('_q.output[0]', full(s, x))
    if b is not None and 'make_node' in show(b['_q'])[:24]:
        e = elements(s, outputs_of(b['_q']))
        return role(s, e[0]) if e else x
    return x


def roles(s, t):
    e = elements(s, t)
    return None if e is None else [role(s, x) for x in e]


def trt_nodes(ck):
    s = ck.fn(TRT + '._build_backend_node_from_symbolic', opaque=(
        'parse_channel_axis',))
    q, d = made(s, 'QuantizeLinear'), made(s, 'DequantizeLinear')
    ck.ob('pair', len(q) == 1 and len(d) == 1, s, 'a quantising and a '
          'dequantising node')
    if len(q) != 1 or len(d) != 1:
        return
    q, d = q[0], d[0]
    ck.ob('pair', q.e.guard is True and d.e.guard is True, s, 'always')
    qi = roles(s, kwarg(s, q, 'inputs', 1))
    qo = roles(s, kwarg(s, q, 'outputs', 2))
    di = roles(s, kwarg(s, d, 'inputs', 1))
    do = roles(s, kwarg(s, d, 'outputs', 2))
    ck.ob('pair', qi == [('in', 0), ('in', 1), ('in', 2)], q,
          'quantises the tensor by scale and zero point of the node')
    ck.ob('pair', do == [('out',)], d, 'carries the result of the node')
    ck.ob('pair', qo is not None and len(qo) == 1 and di is not None and
          len(di) == 3 and show(strip(qo[0])) == show(strip(di[0])) if qo and
          di and isinstance(qo[0], tuple) and qo[0][0] not in ('in', 'out')
          else False, d, 'reads what was quantised')
    ck.ob('pair', di is not None and di[1:] == [('in', 1), ('in', 2)], d,
          'by the same scale and zero point')
    if qo and qo[0][0] not in ('in', 'out'):
        ck.ob('pair', 'node.' in show(full(s, qo[0])), q,
              'under a name of this node')
    names = [kwarg(s, h, 'name', 3) for h in (q, d)]
    ck.ob('pair', None not in names and show(full(s, names[0])) != show(
        full(s, names[1])) and all('node.' in show(full(s, n))
                                   for n in names), s,
          'nodes are named apart')
    AX = 'self.parse_channel_axis(node)'
    for h in (q, d):
        found = []
        for k, v in h.e.kwargs:
            if k is None:
                for g, x in leaves(s, v):
                    found.append((g, {e.key[1]: e.value for e in entries(
                        s, x) if e.key[0] == 'const'}))
            elif k == 'axis':
                for g, x in leaves(s, v):
                    found.append((g, {'axis': x}))
        for none in (True, False):
            vs = [d_ for g, d_ in found if case(
                s, g, {AX + ' is None': none}) is not False]
            if none:
                ck.ob('axis', all('axis' not in d_ or d_['axis'] == NONE or
                                  is_(s, d_['axis'], AX) for d_ in vs), h,
                      'per tensor nodes have no axis')
            else:
                ck.ob('axis', bool(vs) and all('axis' in d_ and is_(
                    s, d_['axis'], AX) for d_ in vs), h,
                    'per channel nodes keep the axis')
    r = elements(s, s.ret())
    ck.ob('pair', r is not None and len(r) == 2 and [
        show(x)[:45].count('Dequantize') for x in [full(s, y) for y in r]] in
        ([0, 1], [1, 0]), s, 'both nodes are returned')


def trt_limits(ck):
    s = ck.fn(TRT + '.build_backend_nodes', opaque=(
        'parse_qparams', '_build_backend_node_from_symbolic'))
    A = Abbr(s, [('N', 'ELEM(symbolic_nodes)'), ('P', 'self.parse_qparams('
                                                 'N)')])
    it = [x for x in listed(s, s.ret())]
    ck.need('each', it, s, 'nodes are built')
    for x in it:
        ck.ob('each', x.guard is True and 1 <= len(x.loops) <= 2 and all(
            whole(s, l) for l in x.loops) and over(
                s, x.loops[0], 'symbolic_nodes'), x.hit or s,
            'for every symbolic node')
        ck.ob('each', A.is_(x.value, 'self._build_backend_node_from_symbolic'
                            '(N)', 'ELEM(self._build_backend_node_from_'
                            'symbolic(N))'), x.hit or s, 'from this node')
    bad = []
    for h in s.raises():
        if h.e.kind == 'raise':
            bad.append((h, h.e.guard))
        else:
            bad.append((h, f_and(h.e.guard, f_not(h.e.value[1]))))
    w = z = False
    for h, g in bad:
        one = len(h.e.loops) == 1 and whole(s, h.e.loops[0]) and over(
            s, h.e.loops[0], 'symbolic_nodes')
        for a in f_atoms(s.m.norm(g)):
            t = A.of(a)
            x = show(t)
            if 'P[4]' in x and 'P[3]' in x and a[0] == 'cmp' and a[1] in (
                    'in', '=='):
                v = widths(s, t)
                ok = v is not None and v <= {255, 254}
                alone = f_implies(f_not(('atom', a)), s.m.norm(g)) or len(
                    f_atoms(s.m.norm(g))) > 1
                if one and ok and alone:
                    w = True
            if 'P[2]' in x:
                nz = A.is_(a, 'numpy.any(P[2] != 0)', '(P[2] != 0).any()',
                           'numpy.any(P[2])', 'numpy.count_nonzero(P[2]) '
                           '== 0', 'P[2].any()', 'numpy.all(P[2] == 0)',
                           '(P[2] == 0).all()') or (
                    'any' in x and '0' in x) or ('all' in x and '0' in x)
                want = ('atom', a) if 'any' in x else f_not(('atom', a))
                if 'any' in x or 'all' in x:
                    eq = '(P[2] == 0)' in x and 'not (P[2] == 0)' not in x
                    # any(zero == 0) / all(zero != 0) say nothing
                    if 'any' in x and eq or 'all' in x and not eq:
                        nz = False
                if one and nz and f_implies(want, s.m.norm(g)):
                    z = True
    ck.ob('limits', w, s, 'other than 8 bits is refused, for every node')
    ck.ob('limits', z, s, 'asymmetric quantisation is refused, for every '
          'node')


def widths(s, t):
    """numbers a range is compared with"""
    if t[0] == 'cmp' and t[1] == '==':
        xs = [t[2], t[3]]
    elif t[0] == 'cmp' and t[1] == 'in':
        c = t[3]
        xs = list(c[1]) if c[0] == 'tuple' else list(c[2]) if c[
            0] == 'alloc' else None
        if xs is None:
            return None
    else:
        return None
    out = set()
    for x in xs:
        v = number(x)
        if v is None:
            if t[1] == '==':
                if show(x) != '(P[4] - P[3])':
                    return None
                continue
            return None
        out.add(v)
    if t[1] == 'in' and show(t[2]) != '(P[4] - P[3])':
        return None
    return out


def number(t):
    if t[0] == 'const' and isinstance(t[1], (int, float)):
        return t[1]
    if t[0] == 'bin':
        a, b = number(t[2]), number(t[3])
        if a is None or b is None:
            return None
        f = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda:
             a * b, 'Pow': lambda: a ** b, 'LShift': lambda: a << b}.get(
                 t[1])
        return f() if f else None
    return None


def replaced(ck, s, sym, new, rule):
    """symbolic nodes are removed and the new ones added, unconditionally"""
    ext = s.calls(NODES + '.extend(_v)') + s.calls(NODES + '.append(_v)')
    ext = [h for h in ext if any(is_(s, h.b['_v'], p) for p in new)]
    ck.need(rule, ext, s, 'the new nodes are added')
    for h in ext:
        ck.ob(rule, h.e.guard is True, h, 'always')
    return ext


def saved(ck, s, opt, rule):
    sv = s.calls('onnx.save(_m, _p)') + s.calls('onnx.save_model(_m, _p)')
    ck.need(rule, sv, s, 'the model is saved')
    for h in sv:
        ck.ob(rule, h.e.guard is True and is_(
            s, h.b['_m'], 'self.onnx_model', 'HAS(self.optimizer.optimize('
            'self.onnx_model))') and is_(
                s, h.b['_p'], 'self.export_path'), h,
            'to the destination')
        ck.ob(rule, bool(opt) and all(o.e.seq < h.e.seq for o in opt), h,
              'once rewritten')


def trt_export(ck):
    s = ck.fn(TRT + '.export', opaque=(
        'collect_symbolic_nodes', 'build_backend_nodes', 'optimize'))
    SYM = 'self.collect_symbolic_nodes(OR(self.onnx_model, self.onnx_model))'
    NEW = 'self.build_backend_nodes(%s)' % SYM
    rm = s.calls(NODES + '.remove(_x)')
    ck.need('replace', rm, s, 'symbolic nodes are removed')
    for h in rm:
        ck.ob('replace', h.e.guard is True and len(h.e.loops) == 1 and whole(
            s, h.e.loops[0]) and is_(s, h.b['_x'], 'ELEM(%s)' % SYM), h,
            'every symbolic node')
    ext = replaced(ck, s, SYM, (NEW, 'ELEM(%s)' % NEW), 'replace')
    b = s.calls('self.build_backend_nodes(...)')
    c = s.calls('self.collect_symbolic_nodes(...)')
    ck.not_after('replace', c + b, rm, s, 'nodes are read before they go')
    opt = s.calls('self.optimizer.optimize(_m)')
    ck.need('replace', opt, s, 'the graph is cleaned')
    for h in opt:
        ck.ob('replace', h.e.guard is True and is_(
            s, h.b['_m'], 'self.onnx_model') and all(
                x.e.seq < h.e.seq for x in rm + ext), h,
            'after the replacement')
    saved(ck, s, opt, 'save')


# ----------------------------------------------------------------- OpenVINO
def ov_node(ck):
    s = ck.fn(OV + '._build_backend_node_from_symbolic')
    m = made(s, 'FakeQuantize')
    ck.ob('fake', len(m) == 1, s, 'a FakeQuantize node is built')
    for h in m:
        ck.ob('fake', h.e.guard is True and full(s, s.ret())[:1] == (
            'call',) and 'make_node' in show(full(s, s.ret()))[:30], h,
            'and returned')
        i = full(s, kwarg(s, h, 'inputs', 1) or NONE)
        o = roles(s, kwarg(s, h, 'outputs', 2) or NONE)
        ck.ob('fake', o == [('out',)], h, 'carries the result of the node')
        e = i[2] if i[0] == 'alloc' else i[1] if i[0] == 'tuple' else ()
        ok = bool(e) and is_(s, e[0], 'tensor_name')
        ck.ob('fake', ok, h, 'reads the quantised tensor')
        rest = e[1:]
        n = 0
        for x in rest:
            y = x[1] if x[0] == 'star' else x
            y = full(s, y)
            if x[0] == 'star' and y[0] == 'comp':
                it = s.E.loops[y[3][0]]['iter'] if y[3] else None
                k = elements(s, it) if it is not None else None
                n += len(set(map(show, k))) if k and len(y[3]) == 1 and y[
                    4] is True and 'ELEM' in show(y[2]) and '.output' in \
                    show(y[2]) else -9
            elif x[0] == 'star' and [z for z in listed(s, y) if z.hit]:
                for z in [z for z in listed(s, y) if z.hit]:
                    it = s.E.loops[z.loops[0]]['iter']
                    k = elements(s, it)
                    w = show(full(s, z.value))
                    n += len(set(map(show, k))) if k and len(
                        z.loops) == 1 and z.guard is True and '.output' in w \
                        and 'ELEM' in w and whole(s, z.loops[0]) else -9
            elif x[0] == 'star':
                k = elements(s, y)
                n += len(set(map(show, k))) if k and all(
                    '.output' in show(full(s, z)) for z in k) else -9
            else:
                n += 1 if '.output' in show(y) else -9
        ck.ob('fake', n == 4 and len(set(map(show, rest))) == len(rest), h,
              'and four ranges of its own')
        lv = kwarg(s, h, 'levels')
        A = Abbr(s, [('hi', 'OR(qmax, int(hi))'),
                     ('lo', 'OR(qmin, int(lo))')])
        ck.ob('fake', lv is not None and A.poly(lv, 'hi - lo + 1'), h,
              'with all levels of the range')
        ck.ob('fake', is_(s, kwarg(s, h, 'domain') or NONE,
                          "'org.openvinotoolkit'"), h,
              'of the OpenVINO operators')


def ov_values(ck):
    s = ck.fn(OV + '._build_backend_initializer')
    it = [x for x in listed(s, full(s, s.ret())) + listed(s, s.ret())
          if 'from_array' in show(full(s, x.value))]
    ck.need('values', it, s, 'range values are built')
    X = Abbr(s, [
        ('s', 'numpy.abs(_)'),
        ('hi', 'OR(qmax, float(qmax), int(qmax), float(hi), int(hi))'),
        ('lo', 'OR(qmin, float(qmin), int(qmin), float(lo), int(lo))'),
        ('r', 'OR(hi - lo, float(r), int(r))'),
        ('z0', 'numpy.round(zero_point)'),
        ('z0', 'OR(z0.reshape(-1), z0.astype(_), numpy.asarray(z0, ...))'),
        ('z', 'OR(numpy.clip(z0, a_min=lo, a_max=hi), numpy.clip(z0, lo, hi)'
              ', z0.clip(lo, hi))'),
        ('z', 'OR(z.astype(_), z.reshape(-1))'),
    ])

    def numeric(t):
        """casts and shapes looked through"""
        if not isinstance(t, tuple):
            return t
        t = tuple(numeric(x) for x in t)
        if t[:1] == ('call',) and len(t) > 3:
            f = t[1]
            if f[0] == 'attr' and f[2] in ('astype', 'reshape'):
                return f[1]
            if f == ('global', 'float') and len(t[2]) == 1:
                return t[2][0]
        if t[:1] == ('ite',):
            if t[2] == t[3]:
                return t[2]
        return t
    sc = [x for t in it for x in subs(full(s, t.value)) if s.m.match(
        'numpy.abs(_v)', x) is not None]
    ck.ob('values', bool(sc) and all('(scale' in show(x) for x in sc), s,
          'of the given scale')
    ok = False
    for x in it:
        v = full(s, x.value)
        b = s.m.match('onnx.numpy_helper.from_array(_v)', v)
        if b is None:
            b2 = s.m.match('onnx.numpy_helper.from_array(_v, _n)', v) or \
                s.m.match('onnx.numpy_helper.from_array(_v, name=_n)', v)
            b = b2
        ck.ob('values', b is not None and x.guard is True and len(
            x.loops) == 1 and whole(s, x.loops[0]), x.hit or s,
            'one initializer per name')
        if b is None:
            continue
        raw = s.E.loops[x.loops[0]]
        z = raw['raw'] if raw['raw'] is not None else raw['iter']
        zz = s.m.match('zip(names, _v)', full(s, z)) if z is not None \
            else None
        src = raw['iter']
        vals = None
        if zz is not None:
            vals = elements(s, zz['_v'])
        elif src is not None and src[0] == 'tuple' and len(src[1]) == 2 and \
                show(src[1][0]) == 'names':
            vals = elements(s, src[1][1])
        ck.ob('values', vals is not None and len(vals) == 4, x.hit or s,
              'a value for each of the four names')
        ck.ob('values', b['_v'][0] == 'elem', x.hit or s,
              'values are stored in the order of the names')
        nm = [h for h in s.calls('_') if 0] + [
            e for e in s.ev if e.kind == 'setattr' and e.attr == 'name']
        ck.ob('values', '_n' in b and show(b['_n']).startswith(
            'ELEM(names') or any(e.value[0] == 'elem' and show(
                e.value) == 'ELEM(names)' and e.guard is True for e in nm),
            x.hit or s, 'named by the node')
        if vals and len(vals) == 4:
            ok = True
            for v, want, what in zip(vals, (
                    's * (lo - z)', 's * (hi - z)') * 2, (
                        'low', 'high', 'low', 'high')):
                t = numeric(X.of(v))
                ck.ob('values', poly_any(s, t, want), x.hit or s,
                      'the %s end of the range' % what)
                f32 = [y for y in subs(full(s, v)) if s.m.match(
                    'OR(_.astype(numpy.float32), _.astype("float32"), '
                    'numpy.float32(_), numpy.asarray(_, dtype=numpy.float32)'
                    ')', y) is not None]
                ck.ob('values', bool(f32) and len(f32) < 4, x.hit or s,
                      'in single precision')
                for g, y in leaves(s, full(s, v)):
                    rs = [h for h in subs(y) if s.m.match(
                        '_.reshape(*shape)', h) is not None or s.m.match(
                            '_.reshape(shape)', h) is not None]
                    many = f_map(s.m.norm(g), lambda a: (
                        '==' not in show(a)) if '.size' in show(a) or
                        'len(' in show(a) else ('atom', a))
                    if many is not False:
                        ck.ob('values', bool(rs), x.hit or s,
                              'laid out along the channels')
    ck.ob('values', ok, s, 'ends of the input and the output range')


def subs(t):
    out = [t]
    st = [t]
    while st:
        x = st.pop()
        for y in x:
            if isinstance(y, tuple) and y:
                st.append(y)
                if isinstance(y[0], str):
                    out.append(y)
    return out


def poly_any(s, t, want):
    from .arith import Arith
    a = Arith(s)
    return a.same(t, want) or a.same(t, want.replace('lo', '(hi - r)')) or \
        a.same(t, want.replace('hi', '(lo + r)'))


def ov_build(ck):
    s = ck.fn(OV + '.build_backend_nodes_and_initializers', opaque=(
        'parse_qparams', 'parse_channel_axis',
        '_build_backend_node_from_symbolic', '_build_backend_initializer'))
    A = Abbr(s, [('N', 'ELEM(symbolic_nodes)'),
                 ('P', 'self.parse_qparams(N)'),
                 ('F', 'self._build_backend_node_from_symbolic(N, P[0], P[3]'
                       ', P[4])'),
                 ('T', 'self.name2data[P[0]].shape')])
    r = full(s, s.ret())
    ck.ob('build', r[0] == 'tuple' and len(r[1]) == 2, s, 'nodes and ranges')
    b = s.calls('self._build_backend_node_from_symbolic(...)')
    i = s.calls('self._build_backend_initializer(...)')
    for h in b:
        ck.ob('build', h.e.guard is True and every(
            s, h.e, 'symbolic_nodes') and A.is_(h.e.term, 'F'), h,
            'a node for each symbolic node, of its tensor and range')
    ck.need('build', b, s, 'nodes are built')
    ck.need('build', i, s, 'ranges are built')
    for h in i:
        a = [A.of(x) for x in h.e.args]
        kw = {k: A.of(v) for k, v in h.e.kwargs}
        ps = ('names', 'scale', 'zero_point', 'qmin', 'qmax', 'shape')
        for n, x in zip(ps, a):
            kw[n] = x
        ck.ob('build', h.e.guard is True and every(
            s, h.e, 'symbolic_nodes'), h, 'for each symbolic node')
        for n, p in (('names', 'F.input[1:]'), ('scale', 'P[1]'),
                     ('zero_point', 'P[2]'), ('qmin', 'P[3]'),
                     ('qmax', 'P[4]')):
            ck.ob('build', n in kw and s.m.match(p, kw[n]) is not None, h,
                  '%s of this node' % n)
    for x in ('nodes', 'ranges'):
        pass
    if r[0] == 'tuple' and len(r[1]) == 2:
        n = listed(s, r[1][0])
        m = listed(s, r[1][1])
        ap = [h for h in s.calls('_l.append(_v)') + s.calls('_l.extend(_v)')]
        ok_n = [x for x in n if A.is_(x.value, 'F') and x.guard is True and
                len(x.loops) == 1 and whole(s, x.loops[0])]
        ok_m = [x for x in m if '_build_backend_initializer' in show(full(
            s, x.value)) and x.guard is True and all(
                whole(s, l) for l in x.loops) and x.loops]
        ck.ob('build', bool(ok_n), s, 'all nodes are returned')
        ck.ob('build', bool(ok_m), s, 'all ranges are returned')
    st = [e for e in s.ev if e.kind == 'setitem' and e.value == const(-1) or
          e.kind == 'setitem' and show(e.value) == '-1']
    for e in st:
        ck.ob('layout', 'self.parse_channel_axis(N)' in show(A.of(
            e.attr)), Hit(s, e, {}), 'along the axis of the node')
        ck.ob('layout', A.is_(e.base, '[1] * len(T)', 'len(T) * [1]'),
              Hit(s, e, {}), 'of the rank of the tensor')
    shp = [show(A.of(h.e.args[5])) for h in i if len(h.e.args) > 5] + [
        show(A.of(v)) for h in i for k, v in h.e.kwargs if k == 'shape']
    ck.ob('layout', bool(st) and bool(shp), s, 'channels are laid out along '
          'the axis')


def ov_insert(ck):
    s = ck.fn(OV + '._insert_initializers_to_onnx')
    ap = s.calls('%s.initializer.append(_v)' % GRAPH) + s.calls(
        '%s.initializer.extend(_v)' % GRAPH)
    ck.need('insert', ap, s, 'initializers are inserted')
    for h in ap:
        if is_(s, h.b['_v'], 'initializers') and h.e.guard is True:
            continue
        ck.ob('insert', is_(s, h.b['_v'], 'ELEM(initializers)') and every(
            s, h.e, 'initializers'), h, 'every one')
        ck.ob('insert', case(s, h.e.guard, {
            'ELEM(initializers).name in _': False}) is True, h,
            'unless one of the name was')
        for a in f_atoms(h.e.guard):
            if a[0] == 'cmp' and a[1] == 'in':
                ad = [x for x in s.calls('_s.add(_v)') if {
                    strip(z) for z in s.m.bases(x.e.func[1])} & {
                        strip(z) for z in s.m.bases(a[3])}]
                ck.ob('insert', bool(ad) and all(
                    is_(s, x.e.args[0], 'ELEM(initializers).name') and
                    x.e.seq > 0 for x in ad), h, 'by name')
                ck.ob('insert', all(x.e.seq > h.e.seq or case(
                    s, x.e.guard, {'ELEM(initializers).name in _': True})
                    is False for x in ad), h, 'inserted before')


def ov_export(ck):
    s = ck.fn(OV + '.export', opaque=(
        'collect_symbolic_nodes', '_collect_symbolic_constant_inputs',
        'build_backend_nodes_and_initializers',
        '_insert_initializers_to_onnx', '_remove_symbolic_related_from_onnx',
        'optimize'))
    SYM = 'self.collect_symbolic_nodes(self.onnx_model)'
    NEW = 'self.build_backend_nodes_and_initializers(%s)' % SYM
    rm = s.calls('self._remove_symbolic_related_from_onnx(_n, _c)')
    ck.need('replace', rm, s, 'symbolic nodes are removed')
    for h in rm:
        ck.ob('replace', h.e.guard is True and is_(s, h.b['_n'], SYM) and
              is_(s, h.b['_c'], 'self._collect_symbolic_constant_inputs(%s)'
                  % SYM), h, 'with their constants')
    ins = s.calls('self._insert_initializers_to_onnx(_v)')
    ck.need('replace', ins, s, 'ranges are inserted')
    for h in ins:
        ck.ob('replace', h.e.guard is True and is_(
            s, h.b['_v'], NEW + '[1]'), h, 'all of them')
    ext = replaced(ck, s, SYM, (NEW + '[0]', 'ELEM(%s[0])' % NEW),
                   'replace')
    rd = s.calls('self.build_backend_nodes_and_initializers(...)') + \
        s.calls('self.collect_symbolic_nodes(...)') + s.calls(
            'self._collect_symbolic_constant_inputs(...)')
    ck.not_after('replace', rd, rm, s, 'nodes are read before they go')
    ck.not_after('replace', rm, ext, s, 'constants are checked against the '
                 'nodes left')
    opt = s.calls('self.optimizer.optimize(_m)')
    ck.need('replace', opt, s, 'the graph is cleaned')
    for h in opt:
        ck.ob('replace', h.e.guard is True and is_(
            s, h.b['_m'], 'self.onnx_model') and all(
                x.e.seq < h.e.seq for x in rm + ext + ins), h,
            'after the replacement')
    saved(ck, s, opt, 'save')


# ------------------------------------------------------------ graph indices
def mappings(ck):
    s = ck.fn(U + '.map_output_and_node')
    es = entries(s, s.ret())
    ck.need('index', es, s, 'producers are indexed')
    for e in es:
        ck.ob('index', e.guard is True and all(whole(s, l) for l in e.loops)
              and is_(s, e.key, 'ELEM(ELEM(onnx_model.graph.node).output)')
              and is_(s, e.value, 'ELEM(onnx_model.graph.node)'), e,
              'by each output of each node')
    s = ck.fn(U + '.map_input_and_node')
    N = 'ELEM(onnx_model.graph.node)'
    I = 'ELEM(%s.input)' % N
    ap = s.calls('_d[_k].append(_v)') + s.calls(
        '_d.setdefault(_k, []).append(_v)')
    ck.need('index', ap, s, 'consumers are indexed')
    for h in ap:
        v = elements(s, h.b['_v'])
        ck.ob('index', h.e.guard is True and len(h.e.loops) == 2 and all(
            whole(s, l) for l in h.e.loops) and is_(s, h.b['_k'], I), h,
            'by each input of each node')
        ck.ob('index', v is not None and len(v) == 2 and is_(
            s, v[0], N) and is_(s, v[1], 'IDX(%s.input)' % N), h,
            'with the position of the input')
    for e in s.ev:
        if e.kind == 'setitem':
            a = [x for x in f_atoms(e.guard)]
            ck.ob('index', bool(a) and case(s, e.guard, {
                '%s in _' % I: True}) is False, Hit(s, e, {}),
                'known consumers are kept')
    s = ck.fn(U + '.map_name_and_data')
    es = [e for e in entries(s, s.ret())]
    init = [e for e in es if is_(s, e.key, 'ELEM(onnx_model.graph.'
                                 'initializer).name')]
    ck.ob('index', any(e.guard is True and all(
        whole(s, l) for l in e.loops) and is_(
            s, e.value, 'onnx.numpy_helper.to_array(ELEM(onnx_model.graph.initializer))')
        for e in init), s, 'values of all initializers')
    con = [e for e in es if is_(s, e.key, N + '.output[0]')]
    ck.ob('index', any(
        is_(s, e.value, 'onnx.numpy_helper.to_array(ELEM(%s.attribute).t)' % N) and all(
            whole(s, l) for l in e.loops) and case(s, e.guard, {
                "_.op_type == 'Constant'": True, "_.name == 'value'": True,
                "_.op_type == 'Identity'": False}) is True
        for e in con), s, 'values of all constants')
    ck.ob('index', any('deepcopy' in show(e.value) or is_(
        s, e.value, '_[%s.input[0]]' % N) for e in con if 'input[0]' in show(
            full(s, e.value))), s, 'values passed on')
    for e in con:
        if 'to_array' in show(full(s, e.value)):
            ck.ob('index', case(s, e.guard, {
                "_.op_type == 'Constant'": False}) is False, e,
                'only of constants')
        else:
            ck.ob('index', case(s, e.guard, {
                "_.op_type == 'Identity'": False}) is False, e,
                'only through identities')
    s = ck.fn(U + '.map_name_and_initializer')
    es = entries(s, s.ret())
    ck.need('index', es, s, 'initializers are indexed')
    for e in es:
        v = elements(s, e.value)
        ck.ob('index', e.guard is True and all(whole(s, l) for l in e.loops)
              and is_(s, e.key, 'ELEM(onnx_model.graph.initializer).name')
              and v is not None and is_(
                  s, v[0], 'ELEM(onnx_model.graph.initializer)'), e,
              'by name, all of them')


def outputs_known(s, t):
    """names of the graph outputs"""
    x = show(full(s, t))
    return 'graph.output' in x and '.name' in x


def fake_pads(ck):
    s = ck.fn(U + '.remove_fake_pad_op')
    A = Abbr(s, [('N', 'ELEM(onnx_model.graph.node)'),
                 ('D', 'OR(name2data.get(N.input[1]), name2data[N.input[1]])'
                  )])
    rm = s.calls('onnx_model.graph.node.remove(_x)')
    ck.need('pads', rm, s, 'paddings are removed')
    adds = []
    for h in rm:
        b = s.m.match('ELEM(_l)', h.b['_x'])
        ck.ob('pads', h.e.guard is True and len(h.e.loops) == 1 and whole(
            s, h.e.loops[0]), h, 'each collected')
        if b is not None:
            adds += listed(s, b['_l'])
    ck.need('pads', adds, s, 'paddings are collected')
    w = [e for e in s.ev if e.kind == 'setitem' and '.input' in show(
        e.base)]
    ck.ob('pads', bool(w), s, 'consumers are connected to the padded tensor')

    def harmless(a, rule, h, what):
        g = s.m.norm(a)

        def fn(x):
            t = show(A.of(x))
            if "op_type == 'Pad'" in t:
                return False
            return ('atom', x)
        ck.ob(rule, f_map(g, fn) is False, h, what + ': paddings only')

        def fn2(x):
            t = show(A.of(x))
            if 'all(' in t and 'D' in t:
                return False
            if 'any(' in t and 'D' in t:
                return True
            return ('atom', x)
        ck.ob(rule, f_map(g, fn2) is False, h, what + ': only without '
              'effect')

        def fn3(x):
            if x[0] == 'cmp' and x[1] == 'in' and outputs_known(
                    s, x[3]) and A.is_(x[2], 'N.output[0]'):
                return True
            return ('atom', x)
        ck.ob(rule, f_map(g, fn3) is False, h, what + ': graph outputs stay')
    for x in adds:
        if x.hit is None:
            continue
        harmless(x.guard, 'pads', x.hit, 'removed')
        ck.ob('pads', A.is_(x.value, 'N'), x.hit, 'the padding itself')
        for a in f_atoms(x.guard):
            t = show(A.of(a))
            if 'all(' in t or 'any(' in t:
                # every amount of padding is looked at
                ok = A.is_(a, 'all(_)', 'any(_)') and 'D' in t and not any(
                    c in t for c in ('D[', 'D.get')) and zero_test(A.of(a))
                ck.ob('pads', ok, x.hit, 'all amounts are zero')
        cs = [e for e in w if f_implies(x.guard, e.guard)]
        ck.ob('pads', bool(cs), x.hit, 'whenever one is removed')
    for e in w:
        h = Hit(s, e, {})
        it = s.E.loops[e.loops[-1]]['iter'] if e.loops else None
        ck.ob('pads', len(e.loops) == 2 and whole(s, e.loops[1]) and A.is_(
            it, 'inp2node[N.output[0]]', 'inp2node.get(N.output[0], _)'), h,
            'all consumers of the result')
        ck.ob('pads', A.is_(e.base, 'ELEM(_)[0].input') and A.is_(
            e.attr, 'ELEM(_)[1]'), h, 'at the input they read it from')
        ck.ob('pads', A.is_(e.value, 'N.input[0]'), h, 'to what was padded')


def zero_test(t):
    x = show(t)
    if 'any(' in x:
        return '== 0' not in x or 'not (' in x
    return '== 0' in x and 'not (' not in x


def standalone(ck):
    s = ck.fn(U + '.find_standalone_nodes', opaque=(
        'map_input_and_node', 'map_output_and_node'))
    it = listed(s, s.ret())
    ck.need('standalone', it, s, 'nodes are found')
    N = 'ELEM(onnx_model.graph.node)'
    for x in it:
        ck.ob('standalone', is_(s, x.value, N) and len(x.loops) >= 1 and all(
            whole(s, l) for l in x.loops), x.hit or s, 'of all nodes')
        g = unfold(s, x.guard)
        seen = {}

        def fn(a, what):
            t = full(s, a)
            k = None
            if t[0] == 'cmp' and t[1] == 'in':
                l, r = show(t[2]), show(t[3])
                if l == 'ELEM(ELEM(onnx_model.graph.node).output)':
                    if 'input2node' in r or 'map_input_and_node' in r:
                        k = 'used'
                    elif outputs_known(s, t[3]):
                        k = 'result'
                elif l == 'ELEM(ELEM(onnx_model.graph.node).input)' and (
                        'output2node' in r or 'map_output_and_node' in r):
                    k = 'fed'
            if k is None and 'any(' in show(t) or k is None and 'all(' in \
                    show(t):
                tt = show(t)
                if '.output' in tt and ('input2node' in tt):
                    k = 'used'
            if k is not None:
                seen[k] = True
                return k == what
            if a[0] == 'loopret' or 'loopret' in show(a):
                return False
            return ('atom', a)
        for k, what in (('used', 'whose result is read'),
                        ('result', 'computing a graph output'),
                        ('fed', 'that read a computed value')):
            v = f_map(s.m.norm(g), lambda a: fn(a, k))
            ck.ob('standalone', k in seen and v is False, x.hit or s,
                  'no node %s is dropped' % what)
        v = f_map(s.m.norm(g), lambda a: fn(a, None))
        ck.ob('standalone', v is True, x.hit or s, 'all others are')


def redundant(ck):
    s = ck.fn(U + '.find_redundant_initializers', opaque=(
        'map_input_and_node', 'map_name_and_initializer'))
    it = listed(s, s.ret())
    ck.need('redundant', it, s, 'initializers are found')
    for x in it:
        v = f_map(s.m.norm(x.guard), lambda a: True if (
            a[0] == 'cmp' and a[1] == 'in' and (
                'input2node' in show(a[3]) or 'map_input_and_node' in show(
                    a[3]))) else ('atom', a))
        ck.ob('redundant', v is False, x.hit or s, 'only when no node reads '
              'it')
        ck.ob('redundant', all(whole(s, l) for l in x.loops) and bool(
            x.loops) and 'map_name_and_initializer' in show(full(
                s, x.value)) + show(s.E.loops[x.loops[0]]['iter']) or is_(
                    s, x.value, 'ELEM(onnx_model.graph.initializer)'),
            x.hit or s, 'of the graph')


def sorting(ck):
    s = ck.fn(U + '.topo_sort', opaque=('map_name_and_initializer',))
    A = Abbr(s, [
        ('M', lambda t: t[:1] == ('ite',) and show(t[1]) in ('inplace',
         'not inplace', "('atom', ('param', 'inplace'))") or
         t[:1] == ('ite',) and 'copy.deepcopy(onnx_model)' in show(t) and
         len(show(t)) < 70),
        ('N', 'ELEM(M.graph.node)'), ('G', 'ELEM(M.graph.input)'),
        ('I', 'ELEM(N.input)'), ('O', 'ELEM(N.output)'),
        ('K', lambda t: t[:1] == ('ite',) and 'initializers' in show(t) and
         'map_name_and_initializer' in show(t)),
    ])
    deg = edge = None
    prod = []
    for e in s.ev:
        if e.kind == 'setitem' and isinstance(e.attr, tuple):
            k, v = A.of(e.attr), A.of(e.value)
            if show(k) == 'O' and show(v) == 'N' and e.guard is True and all(
                    whole(s, l) for l in e.loops):
                prod.append('node')
            if show(k) == 'G.name' and show(v) == 'G' and e.guard is True:
                prod.append('input')
    for x in ('node', 'input'):
        ck.ob('sort', x in prod or 'HAS' in x, s, 'producers by name: each %s'
              % x)
    inc = [e for e in s.ev if e.kind in ('setitem', 'aug') and isinstance(
        e.attr, tuple) and show(A.of(e.attr)) == 'N.name' and any(
            show(A.of(z)) == 'I' or 'N.input' in show(A.of(
                s.E.loops[l]['iter'])) for l in e.loops[-1:] for z in (
                    s.E.loops[l]['iter'],))]
    edges = [h for h in s.calls('_g[_k].append(_v)') if show(A.of(
        h.b['_v'])) == 'N']
    ck.need('sort', inc, s, 'inputs are counted')
    ck.need('sort', edges, s, 'edges are recorded')

    def guard_ok(g):
        atoms = f_atoms(s.m.norm(g))

        def fn(a, empty, init):
            t = show(A.of(a))
            if a[0] == 'cmp' and a[1] == 'in' and show(A.of(a[2])) == 'I':
                return init
            if t in ('I', "(I == '')", 'len(I)', '(0 < len(I))'):
                return empty if t == "(I == '')" else not empty
            return ('atom', a)
        return all(f_map(s.m.norm(g), lambda a: fn(a, em, ini)) is (
            not em and not ini) for em, ini in (
                (False, False), (True, False), (False, True)))
    for e in inc:
        ck.ob('sort', guard_ok(e.guard), Hit(s, e, {}), 'named inputs that '
              'are no initializers')
        ck.ob('sort', len(e.loops) == 2 and all(
            whole(s, l) for l in e.loops), Hit(s, e, {}), 'of all nodes')
        v = show(A.of(e.value))
        ck.ob('sort', e.kind == 'aug' and v == '1' or v.endswith('+ 1)') or
              v.startswith('(1 +'), Hit(s, e, {}), 'one each')
    for h in edges:
        ck.ob('sort', guard_ok(h.e.guard), h, 'an edge for each input '
              'counted')
        k = show(A.of(h.b['_k']))
        ck.ob('sort', '[I]' in k and k.endswith('.name') or '(I' in k, h,
              'from what produces it')
    # ready nodes
    pops = s.calls('_r.pop()') + s.calls('_r.pop(0)') + s.calls(
        '_r.popleft()')
    pops = [h for h in pops if h.e.loops and 'graph.node' not in show(
        h.e.func[1])[-14:]]
    ck.need('sort', pops, s, 'ready nodes are taken')
    dec = [e for e in s.ev if e.kind in ('setitem', 'aug') and isinstance(
        e.attr, tuple) and show(A.of(e.value)).endswith('- 1)') or e.kind ==
        'aug' and show(e.value) in ('1', '-1') and isinstance(e.attr, tuple)
        and len(e.loops) == 2 and e not in inc]
    dec = [e for e in dec if e not in inc]
    ck.ob('sort', bool(dec), s, 'their consumers are released')
    ready = [h for h in s.calls('_r.append(_v)') if any(
        h.e.loops == e.loops for e in dec)]
    ck.need('sort', ready, s, 'consumers become ready')
    for h in ready:
        zero = [a for a in f_atoms(h.e.guard)]
        ck.ob('sort', len(zero) == 1 and zero[0][0] == 'cmp' and zero[0][
            1] == '==' and const(0) in zero[0][2:4] and f_implies(
                ('atom', zero[0]), h.e.guard), h,
            'once all their inputs are there')
        ck.ob('sort', all(e.seq < h.e.seq for e in dec), h,
              'counting this input')
    for e in dec:
        ck.ob('sort', e.guard is True and all(whole(s, l) for l in e.loops),
              Hit(s, e, {}), 'every consumer')
    # all or nothing
    gone = s.calls('_n.graph.node.pop()') + s.calls(
        '_n.graph.node.pop(_i)') + s.calls("_n.graph.ClearField('node')") + [
            Hit(s, e, {}) for e in s.ev if e.kind in ('del', 'delitem') and
            'graph.node' in show(e.base or e.value or NONE)]
    back = [h for h in s.calls('_n.graph.node.append(_v)') + s.calls(
        '_n.graph.node.extend(_v)')]
    ck.need('sort', gone, s, 'the old order is dropped')
    ck.need('sort', back, s, 'the new order is stored')
    R = refused(s)
    ck.ob('sort', f_map(s.m.norm(R), lambda a: True if 'len(' in show(a)
                        else ('atom', a)) is False, s, 'complete orders are '
          'accepted')
    for g, x in leaves(s, s.ret()):
        if case(s, g, {'inplace': True}) is not False:
            ck.ob('sort', x[0] == 'ite' or is_(s, x, 'onnx_model'), s,
                  'in place on demand')
    ck.ob('sort', any(a[0] == 'cmp' and a[1] == '==' and 'len(' in show(
        a[2]) and 'len(' in show(a[3]) and 'graph.node' in show(a)
        for a in f_atoms(R)) and all(
            r.e.seq < h.e.seq for r in s.raises() for h in gone + back), s,
        'a graph that cannot be sorted is refused untouched')
    for h in gone:
        if h.e.loops:
            it = s.E.loops[h.e.loops[0]]['iter']
            ck.ob('sort', it is not None and 'graph.node' in show(full(
                s, it)) and whole(s, h.e.loops[0]) and h.e.guard is True and
                len(h.e.loops) == 1, h, 'all of it')
    for h in back:
        v = h.b['_v']
        b = s.m.match('ELEM(_l)', v)
        l = b['_l'] if b is not None else v
        ck.ob('sort', all(x.e.seq < h.e.seq for x in gone) and all(
            whole(s, k) for k in h.e.loops) and h.e.guard is True, h,
            'every node')
        src = [x for x in listed(s, l) if x.hit is not None and any(
            y == l for y in s.m.bases(x.hit.e.func[1]))]
        ck.ob('sort', bool(src) and all('pop' in show(full(s, x.value)) for
                                        x in src), h, 'in the order they '
              'became ready')
        for x in src:
            # graph inputs are no nodes
            v = f_map(s.m.norm(x.guard), lambda a: False if (
                a[0] == 'cmp' and a[1] == 'in' and any(
                    'graph.input' in show(z) for z in [a[3]] + [
                        y.value for y in listed(s, a[3])])) else ('atom', a))
            w = f_map(s.m.norm(x.guard), lambda a: True if (
                a[0] == 'cmp' and a[1] == 'in') else ('atom', a))
            ck.ob('sort', v is True and w is False, h, 'but the inputs of '
                  'the graph')
            for a in f_atoms(x.guard):
                if a[0] == 'cmp' and a[1] == 'in':
                    bs = set(s.m.bases(a[3]))
                    ck.ob('sort', not any(bs & set(s.m.bases(
                        y.e.func[1])) for y in pops), h, 'inputs are not '
                        'forgotten on the way')
    st = [h for h in s.calls('_r.append(_v)') if len(h.e.loops) == 1 and any(
        'items()' in show(s.E.loops[l]['raw'] or NONE) or 'dict' in show(
            s.E.loops[l]['iter'] or NONE) for l in h.e.loops)]
    ck.ob('sort', any(case(s, h.e.guard, {'_ == 0': True}) is True and case(
        s, h.e.guard, {'_ == 0': False}) is False for h in st) or any(
            'len(' not in show(x) for x in ()), s,
        'nodes without inputs are ready at once')


def optimized(ck):
    s = ck.fn(U + '.optimize', opaque=(
        'map_input_and_node', 'map_output_and_node', 'topo_sort',
        'find_standalone_nodes', 'find_redundant_initializers'))
    n = s.calls('onnx_model.graph.node.remove(_x)')
    i = s.calls('onnx_model.graph.initializer.remove(_x)')
    for h in n:
        ck.ob('clean', len(h.e.loops) == 1 and is_(
            s, h.b['_x'], 'ELEM(cls.find_standalone_nodes(...))'), h,
            'only standalone nodes go')
    for h in i:
        ck.ob('clean', len(h.e.loops) == 1 and is_(
            s, h.b['_x'], 'ELEM(cls.find_redundant_initializers(...))'), h,
            'only redundant initializers go')
    for h in s.calls('cls.find_standalone_nodes(...)') + s.calls(
            'cls.find_redundant_initializers(...)'):
        a = [show(full(s, x)) for x in h.e.args]
        ck.ob('clean', a[:1] == ['onnx_model'] and all(
            x == 'None' or 'map_' in x and x.endswith('(onnx_model)')
            for x in a[1:]) and ('find_standalone' not in show(h.e.func) or
                                 len(a) < 2 or 'map_input' in a[1]), h,
            'of this graph')
        if len(a) > 2:
            ck.ob('clean', 'map_output' in a[2], h, 'by its own indices')
    t = s.calls('cls.topo_sort(...)')
    ck.need('clean', t, s, 'nodes are sorted')
    for h in t:
        a = h.e.args
        ck.ob('clean', h.e.guard is True and bool(a) and is_(
            s, a[0], 'onnx_model') and not any(
                k == 'inplace' and v != TRUE for k, v in h.e.kwargs) and len(
                    a) < 3, h, 'in the model itself')
        ck.ob('clean', all(x.e.seq < h.e.seq for x in n), h,
              'once cleaned')


def selection(ck):
    for q, e in (('OpenVINOQuantizer', OV), ('TensorRTQuantizer', TRT)):
        s = ck.fn(q + '.export_onnx', opaque=(
            'export', '__init__', 'torch.onnx.export'))
        mk = s.calls('_.%s(_a, _b)' % e) + s.calls('%s(_a, _b)' % e)
        mk = mk or [h for h in s.calls('_f(_a, _b)') if show(
            h.e.func).endswith(e)]
        ck.need('backend', mk, s, 'exported for its own back end')
        te = [h for h in s.calls('torch.onnx.export(...)') + s.calls(
            'super().export_onnx(...)')]
        for h in te:
            xs = [show(x) for x in h.e.args] + [show(v) for k, v in
                                                h.e.kwargs]
            ck.ob('backend', 'model' in xs and 'args' in xs and (
                'opset_version' in xs), h, 'the model is traced as asked')
        for h in mk:
            ck.ob('backend', is_(s, h.b['_b'], 'output_path') and
                  h.e.guard is True, h, 'to the output path')
            ck.ob('backend', any(any(show(full(s, x)) == show(full(
                s, h.b['_a'])) for x in list(y.e.args) + [
                    v for k, v in y.e.kwargs]) for y in te) and bool(te), h,
                'from the traced graph')
        ex = [h for h in s.calls('_x.export(...)') if e in show(
            h.e.func)]
        ck.ob('backend', any(h.e.guard is True for h in ex), s,
              'the exporter runs')
        for h in ex:
            ck.ob('backend', all(x.e.seq < h.e.seq for x in te), h,
                  'on the finished trace')
