"""C13 channel dependencies are found faithfully, without side effects."""
from .common import *
from .c11 import all_sub

PATH = '_p'


# ------------------------------------------------------------------ graph
def check_edges(ck):
    for name, mine, other in (
            ('add_prev_node', 'prev_nodes', 'next_nodes'),
            ('add_next_node', 'next_nodes', 'prev_nodes')):
        s = ck.fn('BaseNode.' + name)
        for a, b, side in (('self', 'node', mine), ('node', 'self', other)):
            hits = s.calls('%s.%s.append(%s)' % (a, side, b))
            ck.ob(
                'edge-' + name + '-' + side, bool(hits) and f_equiv(case(
                    s, f_or(*[h.e.guard for h in hits]), {
                        '%s in %s.%s' % (b, a, side): False}), True) and
                f_equiv(case(s, f_or(*[h.e.guard for h in hits]), {
                    '%s in %s.%s' % (b, a, side): True}), False), s,
                'linking two nodes records the link at both ends, once '
                '[%s]' % side)
    s = ck.fn('BaseGraph.connect', opaque=('find_node', 'add_next_node',
                                           'add_prev_node'))
    f = f_or(*[h.e.guard for h in s.calls(
        'self.find_node(pre_node).add_next_node(self.find_node(next_node))')
        + s.calls('self.find_node(next_node).add_prev_node('
                  'self.find_node(pre_node))')])
    ck.ob('connect', f is True, s, 'connecting links the two nodes of the '
          'graph in the given direction')
    for h in s.calls('_.add_next_node(_)') + s.calls('_.add_prev_node(_)'):
        ok = s.m.match('self.find_node(pre_node).add_next_node('
                       'self.find_node(next_node))', h.e.term) is not None \
            or s.m.match('self.find_node(next_node).add_prev_node('
                         'self.find_node(pre_node))', h.e.term) is not None
        ck.ob('connect-only', ok, h, 'nothing else is linked')
    s = ck.fn('BaseGraph.disconnect', opaque=('find_node',))
    P, N = 'self.find_node(pre_node)', 'self.find_node(next_node)'
    for a, b, side in ((P, N, 'next_nodes'), (N, P, 'prev_nodes')):
        hits = s.calls('%s.%s.remove(%s)' % (a, side, b))
        ck.ob('disconnect-' + side, bool(hits) and case(
            s, f_or(*[h.e.guard for h in hits]), {
                '%s in %s.%s' % (b, a, side): True}) is True, s,
              'disconnecting removes the link at both ends')
    s = ck.fn('BaseGraph.find_node')
    for h in s.returns():
        for g, t in leaves(s, h.e.value, h.e.guard):
            if t == NONE:
                continue
            ok = s.m.match('self.nodes[node.name]', t) is not None and case(
                s, g, {'node.val == self.nodes[node.name].val': False}
            ) is False
            ck.ob('find-node', ok, h, 'a node is found by name and content')
    s = ck.fn('BaseGraph.add_node')
    sets = s.items('self.nodes', 'node.name', 'node')
    ck.ob('add-node', bool(sets) and case(s, f_or(
        *[h.e.guard for h in sets]), {'node.name in self.nodes': False})
        is True, s, 'a new node joins the graph')
    ck.ob('add-node-once', refuses(s, 'node.name in self.nodes'), s,
          'two operations never share one name')
    s = ck.fn('BaseGraph.add_or_find_node', opaque=('find_node', 'add_node'))
    adds = s.calls('self.add_node(node)')
    ck.ob('add-or-find', bool(adds) and case(s, f_or(
        *[h.e.guard for h in adds]), {'self.find_node(node) is None': True,
                                      'self.find_node(node)': False})
        is True, s, 'an unknown node is added')
    for h in s.returns():
        for g, t in leaves(s, h.e.value, h.e.guard):
            known = case(s, g, {'self.find_node(node) is None': True,
                                'self.find_node(node)': False})
            if s.m.match('node', t) is not None:
                ck.ob('add-or-find-result', case(s, g, {
                    'self.find_node(node) is None': False}) is False, h,
                    'a known node is returned, not duplicated')
            else:
                ck.ob('add-or-find-result', s.m.match(
                    'self.find_node(node)', t) is not None and known is
                    False, h, 'the node in the graph is returned')


def check_copy(ck):
    s = ck.fn('BaseGraph.copy_from', opaque=('connect', 'add_or_find_node'))
    hits = s.calls('_g.connect(_a, _b)')
    ok = False
    for h in hits:
        ls = [l for l in h.e.loops]
        if len(ls) != 2 or not all(whole(s, l) for l in ls):
            continue
        o, i = ls
        if not over(s, o, 'graph', 'graph.nodes.values()', 'list(graph)'):
            continue
        if h.e.guard is not True and not f_equiv(s.m.norm(h.e.guard), True):
            continue
        for a, b, side in (('_a', '_b', 'prev_nodes'),
                           ('_b', '_a', 'next_nodes')):
            pre = s.find(h.b[a], 'ELEM(ELEM(_).%s)' % side)
            if s.m.match('_d[ELEM(ELEM(_).%s)]' % side, h.b[a]) is not None \
                    and s.m.match('_d[ELEM(_)]', h.b[b]) is not None:
                ok = True
    ck.ob('copy-edges', ok, s, 'copying a graph copies every link with its '
          'direction')
    ok = False
    for h in s.items('_d', '_k'):
        v = h.e.value
        if not h.e.loops or not whole(s, h.e.loops[-1]) or not over(
                s, h.e.loops[-1], 'graph', 'graph.nodes.values()',
                'list(graph)') or not h.unconditional:
            continue
        if s.m.match('_g.add_or_find_node(node_converter(ELEM(_)))', v) \
                is not None and s.m.match('ELEM(_)', h.b['_k']) is not None:
            ok = True
    for e in s.ev:
        pass
    if not ok:
        # the map may be built in a comprehension
        for h in hits:
            for x in all_sub(h.b['_a']):
                if x[0] == 'comp' and s.derives(
                        x, '_g.add_or_find_node(node_converter(_))'):
                    ok = True
    ck.ob('copy-nodes', ok, s, 'every node is converted into the copy')
    s = ck.fn('parse_torch_graph', opaque=('connect', 'add_or_find_node'))
    ok = False
    for h in s.calls('_g.connect(_a, _b)'):
        if len(h.e.loops) != 2 or not all(whole(s, l) for l in h.e.loops) \
                or not h.unconditional:
            continue
        a, b = full(s, h.b['_a']), full(s, h.b['_b'])
        A = s.find(a, 'FxBaseNode(_x.name, _x)')
        B = s.find(b, 'FxBaseNode(_x.name, _x)')
        if not A or not B:
            continue
        if s.m.match('ELEM(ELEM(torch_graph.nodes).all_input_nodes)',
                     A[0][1]['_x']) is not None and s.m.match(
                         'ELEM(torch_graph.nodes)', B[0][1]['_x']) is not None:
            ok = True
    ck.ob('fx-edges', ok, s, 'every operand of a traced operation becomes '
          'its predecessor, in order')


def check_results(ck):
    for f, opq, pat in (
            ('BaseGraph.copy_from', ('connect', 'add_or_find_node'),
             ('cls()',)),
            ('BaseGraph.find_node', (), ('self.nodes[node.name]',)),
            ('parse_torch_graph', ('connect', 'add_or_find_node'),
             ('_g()',)),
            ('ChannelTensor.cat', (), ('ChannelTensor(_)',
                                       'cls(_)')),
            ('ChannelTensor.expand', ('union',), ('ChannelTensor(_)',
                                                  'self.__class__(_)'))):
        s = ck.fn(f, opaque=opq)
        ck.ob('result', any(s.find(h.e.value, p) for h in s.returns()
                            for p in pat) or any(
            x.e.value not in (None, NONE) for x in s.returns()) and
            f == 'parse_torch_graph', s, 'the result is returned [%s]' % f)


def check_topo(ck):
    s = ck.fn('BaseGraph.topo_traverse')
    ys = s.kind('yield')
    ck.need('topo-yields', ys, s, 'the traversal visits nodes')
    for h in ys:
        b = s.m.match('self.nodes[_n]', full(s, h.e.value))
        b = b if b is not None else s.m.match('self.nodes[_n]', h.e.value)
        ck.ob('topo-node', b is not None and h.unconditional, h,
              'what is visited is a node of the graph')
        if b is None:
            continue
        n = b['_n']
        nf = full(s, n)
        pops = [p for p in s.calls('_d.pop(_n)') + s.kind('del')
                if p.e.loops[:1] == h.e.loops[:1]]
        mine = []
        for p in pops:
            if p.e.kind == 'call':
                k = p.e.args[0] if p.e.args else None
            else:
                k = p.e.attr
            if k is not None and (same(s, k, n) or same(s, full(s, k), nf)) \
                    and len(p.e.loops) == len(h.e.loops) and p.unconditional:
                mine.append(p)
        ck.ob('topo-once', bool(mine), h, 'a visited node is not visited '
              'again')
        # decremented for every successor
        dec = []
        for d in s.kind('setitem', 'aug'):
            v = d.e.value
            x = s.m.match('_o - 1', v) if v is not None else None
            if x is None:
                x = s.m.match('-1 + _o', v) if v is not None else None
            t = d.e.attr if d.e.kind == 'setitem' else None
            if x is None or t is None:
                continue
            key = s.m.match('ELEM(_m.next_nodes).name', t)
            if key is None:
                continue
            nd = s.m.match('self.nodes[_n]', full(s, key['_m']))
            if len(d.e.loops) == len(h.e.loops) + 1 and whole(
                    s, d.e.loops[-1]) and d.unconditional and nd is not None:
                dec.append(d)
        ck.ob('topo-release', bool(dec), h, 'visiting a node releases each '
              'of its successors once')
    # only nodes whose inputs are all done are picked
    picks = [h for h in s.kind('ret', 'return') if h.e.value is not None and
             h.e.value[0] == 'elem' and len(h.e.loops) >= 1]
    zero = []
    ok = False
    for h in picks:
        if case(s, h.e.guard, {'_d[ELEM(_)] == 0': False,
                                    '_d[ELEM(_)]': True,
                                    '0 < _d[ELEM(_)]': True}) is False:
            ok = True
    for t in [full(s, h.e.value) for h in ys]:
        for x in all_sub(t):
            if x[0] == 'comp' and s.find(x, '_d[_] == 0'):
                ok = True
    ck.ob('topo-ready', ok, s, 'a node is visited only when all its inputs '
          'have been visited')
    ok = False
    for h in s.kind('setitem'):
        if s.m.match('len(_n.prev_nodes)', h.e.value) is not None and \
                h.e.loops and whole(s, h.e.loops[-1]) and over(
                    s, h.e.loops[-1], 'self.nodes', 'self.nodes.items()',
                    'self') and h.unconditional:
            ok = True
    for e in s.ev:
        for t in (e.value, e.term):
            if not isinstance(t, tuple):
                continue
            for x in all_sub(full(s, t)):
                if x[0] == 'comp' and s.derives(x, 'len(_n.prev_nodes)') \
                        and x[4] is True:
                    ok = True
    ck.ob('topo-degree', ok, s, 'the number of open inputs of every node '
          'starts as the number of its predecessors')


def check_insert(ck):
    s = ck.fn('GraphConverter._insert_node_before',
              opaque=('connect', 'disconnect'))
    c1 = [h for h in s.calls('self.graph.connect(_p, new_node)')
          if h.e.loops and whole(s, h.e.loops[-1]) and h.unconditional and
          s.m.match('ELEM(node.prev_nodes)', h.b['_p']) is not None]
    ck.need('insert-inputs', c1, s, 'an inserted node takes all inputs of '
            'the node behind it')
    c2 = [h for h in s.calls('self.graph.disconnect(_p, node)')
          if h.e.loops and whole(s, h.e.loops[-1]) and h.unconditional]
    ck.need('insert-detach', c2, s, 'the direct links are removed')
    c3 = [h for h in s.calls('self.graph.connect(new_node, node)')
          if not h.e.loops and h.unconditional]
    ck.need('insert-output', c3, s, 'the inserted node feeds the node '
            'behind it')
    for h in c2:
        for it in (s.E.loops[h.e.loops[-1]]['iter'],):
            live = s.m.match('node.prev_nodes', it) is not None
            ck.ob('insert-alive', not live, h, 'links are not removed from '
                  'the list that is walked')
        for k in c3:
            ck.ob('insert-order', h.e.seq < k.e.seq or s.m.match(
                'ELEM(new_node.prev_nodes)', h.b['_p']) is not None, h,
                'the new link is kept')
    s = ck.fn('GraphConverter._insert_bind_nodes', opaque=(
        '_insert_node_before', '_new_placeholder_node'))
    D = {'1 < len(_n.prev_nodes)': True}
    for i, t in enumerate(('Conv2d', 'Linear', '_BatchNorm')):
        ok = False
        d = dict(D)
        for u in ('Conv2d', 'Linear', '_BatchNorm'):
            d['isinstance(_n.val, %s)' % u] = u == t
        for h in s.calls('_l.append(_n)'):
            if h.e.loops and case(s, h.e.guard, d) is True:
                ok = True
        for h in s.calls('self._insert_node_before(_n, _b)'):
            if any(y[0] == 'comp' for y in all_sub(h.b['_n'])):
                ok = True
            if case(s, h.e.guard, d) is True and s.m.match(
                    'ELEM(self.graph)', h.b['_n']) is not None:
                ok = True
        ck.ob('bind-' + t, ok, s, 'a layer fed by several branches is put '
              'behind a node that ties them [%s]' % t)
    ck.need('bind-insert', [h for h in s.calls(
        'self._insert_node_before(_n, _b)') if s.derives(
            h.b['_b'], "self._new_placeholder_node('bind_placeholder')")],
        s, 'the branches are tied')


# ---------------------------------------------------------------- channels
def but_first(s, lid, *pats):
    """the loop visits everything but (at most) the first element"""
    L = s.E.loops[lid]
    if L['breaks']:
        return False
    it = L['raw'] if L['raw'] is not None else L['iter']
    return whole(s, lid) or any(
        s.m.match('%s[1:]' % p, it) is not None for p in pats)


def check_elem(ck):
    s = ck.fn('ChannelElem.union_two', opaque=('root', '_set_parent'))
    hits = s.calls('_a._set_parent(_b)')
    for h in hits:
        pair = {show(strip(h.b['_a'])), show(strip(h.b['_b']))}
        ck.ob('union-roots', pair == {'elem1.root', 'elem2.root'}, h,
              'joining two channels joins their whole groups')
    ck.ob('union', bool(hits) and case(s, f_or(
        *[h.e.guard for h in hits]), {'_a.root is _b.root': False}) is True,
        s, 'channels of different groups are joined')
    s = ck.fn('ChannelElem.root', opaque=('_set_parent', '_unset_parent'))
    for h in s.returns():
        for g, t in leaves(s, h.e.value, h.e.guard):
            if s.m.match('self', t) is not None:
                ck.ob('root', case(s, g, {'self._parent is None': False})
                      is False, h, 'only a channel without parent is its '
                      'own root')
            else:
                ck.ob('root', s.m.match('self._parent.root', t) is not None,
                      h, 'the root of a channel is that of its parent')
    for h in s.calls('self._set_parent(_p)'):
        ck.ob('root-keeps', s.m.match('self._parent.root', h.b['_p'])
              is not None, h, 'shortening the way to the root keeps the '
              'group')
    un, st = s.calls('self._unset_parent()'), s.calls('self._set_parent(_p)')
    ck.ob('root-relink', len(un) == len(st) and all(
        f_equiv(s.m.norm(a.e.guard), s.m.norm(b.e.guard))
        for a, b in zip(un, st)), s, 'a channel taken from its parent is '
        'given to another one')
    s = ck.fn('ChannelElem._set_parent')
    ck.ob('parent', any(h.unconditional for h in s.sets('self', '_parent', 'parent')) and any(h.unconditional for h in s.calls(
            'parent._subs.add(self)')), s,
        'parent and child know each other')
    s = ck.fn('ChannelElem._unset_parent')
    ck.ob('unparent', any(h.unconditional for h in s.sets('self', '_parent', 'None')) and any(h.unconditional for h in s.calls(
            'self._parent._subs.remove(self)') + s.calls(
                'self._parent._subs.discard(self)')), s,
        'a channel leaves its old parent on both sides')
    s = ck.fn('ChannelElem.subs')
    for h in s.returns():
        t = h.e.value
        own = s.derives(t, 'self') and (
            any(a.unconditional for a in s.calls('_s.add(self)')) or
            s.find(t, '{self}') or any(
                x[0] == 'alloc' and any(show(strip(y)) == 'self'
                                        for y in x[2]) for x in all_sub(t)))
        kids = s.derives(t, 'self._subs') and s.derives(t, '_e.subs')
        full_ = all(whole(s, l) for c in s.calls('_s.union(_e)') + s.calls(
            '_s.update(_e)') for l in c.e.loops) and all(
                c.unconditional for c in s.calls('_s.union(_e)') +
                s.calls('_s.update(_e)'))
        if t[0] == 'loopvar':
            # the accumulated set must grow from its previous value
            st = [v for (l, n), v in s.E.steps.items() if n == t[1]] if \
                len(t) > 1 else []
        ck.ob('group-self', bool(own), h, 'a group contains its root')
        ck.ob('group-all', bool(kids and full_), h, 'a group contains the '
              'channels below every member')
    s = ck.fn('ChannelElem.owing_elem_set', opaque=('root', 'subs'))
    ck.ob('group-of', all(s.m.match('self.root.subs', h.e.value) is not None
                          for h in s.returns()), s, 'the group of a channel '
          'is everything below its root')
    s = ck.fn('ChannelElem.elem_set_hash', opaque=('owing_elem_set',))
    for h in s.returns():
        for g, t in leaves(s, h.e.value, h.e.guard):
            if s.m.match('self._hash_cache', t) is not None:
                continue
            ok = s.derives(t, '_e.owing_tensor') and s.derives(
                t, 'self.owing_elem_set')
            ck.ob('group-key', ok, h, 'groups are told apart by the tensors '
                  'they join')
    s = ck.fn('ChannelElem.min_elem_set_index', opaque=('owing_elem_set',))
    for h in s.returns():
        for g, t in leaves(s, h.e.value, h.e.guard):
            if s.m.match('self._min_elem_set_index_cache', t) is not None:
                continue
            ck.ob('group-index', s.derives(t, '_e.index_in_tensoor') and
                  s.derives(t, 'self.owing_elem_set') and (
                      s.derives(t, 'min(...)') or not s.calls('max(...)')),
                  h, 'the index of a group is the smallest of its members')


def check_tensor(ck):
    s = ck.fn('ChannelTensor.union_two', opaque=('ChannelElem.union_two',))
    hits = []
    for h in s.calls('ChannelElem.union_two(_a, _b)') + s.calls(
            '_a.union(_b)'):
        if h.e.loops and whole(s, h.e.loops[-1]) and h.unconditional:
            hits.append(h)
            pair = {show(strip(x)) for x in (h.b['_a'], h.b['_b'])}
            ck.ob('tensor-pairs', len(pair) == 2 and all(
                s.derives(x, p) for x, p in zip(sorted(
                    (h.b['_a'], h.b['_b']), key=lambda x: show(x)),
                    ('tensor1', 'tensor2'))), h, 'channel i is joined with '
                'channel i')
    ck.need('tensor-union', hits, s, 'joining tensors joins each channel')
    ck.ob('tensor-width', refuses(s, 'len(tensor1) == len(tensor2)') if
          False else bool(width_guard(s)), s, 'tensors of different width '
          'are not joined')
    s = ck.fn('ChannelTensor.cat')
    ok = False
    for v in [h.e.value for h in s.sets('_t', 'elems')]:
        # one pass over the tensors in the given order
        ok = ok or (s.derives(v, '_t.elems') and s.derives(v, 'tensors') and
                    in_order(s, v, 'tensors'))
    for h in s.calls('_x.extend(_t.elems)') + s.calls('_x.append(_e)'):
        if h.e.loops and all(whole(s, l) for l in h.e.loops) and over(
                s, h.e.loops[0], 'tensors') and h.unconditional:
            ok = True
    ck.ob('cat-order', ok, s, 'concatenation keeps the channels of all '
          'inputs in order')
    s = ck.fn('ChannelTensor.expand', opaque=('ChannelElem.union', 'union'))
    ok = False
    for h in s.calls('_a.union(_b)') + s.calls('_c.union_two(_a, _b)'):
        if len(h.e.loops) != 2 or not all(whole(s, l) for l in h.e.loops) \
                or not h.unconditional:
            continue
        for x, y in ((h.b['_a'], h.b['_b']), (h.b['_b'], h.b['_a'])):
            for p in ('_n[IDX(self) * expand_ratio + ELEM(_)]',
                      '_n[IDX(self) * expand_ratio + _j]',
                      '_n[expand_ratio * ELEM(_) + ELEM(_)]'):
                b = s.m.match(p, y)
                if b is None:
                    continue
                if s.m.match('ELEM(self)', x) is not None or s.m.match(
                        'self[ELEM(_)]', x) is not None or s.m.match(
                            'self.elems[ELEM(_)]', x) is not None:
                    ok = True
    ck.ob('expand', ok, s, 'channel i becomes the channels i*ratio up to '
          '(i+1)*ratio')
    s = ck.fn('ChannelTensor.elems_hash_dict')
    items = s.items('_d', '(_a, _b)')
    last = [h for h in items if not h.e.loops]
    inner = [h for h in items if h.e.loops]
    ck.need('segments', inner, s, 'the channels of a tensor are cut into '
            'segments of one group')
    ok = any(h.unconditional and s.m.match('len(self)', h.b['_b']) is not
             None or s.m.match('len(self.elems)', h.b['_b']) is not None
             for h in last)
    ck.ob('segment-last', ok, s, 'the last segment reaches the end')
    for h in items:
        v = h.e.value
        b = s.m.match('_h[_a][0]', v)
        bb = s.m.match('self.elems[_a].elem_set_hash', v)
        k = b or bb
        ck.ob('segment-key', k is not None and same(s, k['_a'], h.b['_a']),
              h, 'a segment is named after the group of its channels')
    for h in inner:
        st = [v for (l, n), v in s.E.steps.items()
              if l == h.e.loops[-1]]
        good = False
        for v in st:
            for g, t in leaves(s, v, True):
                if same(s, t, h.b['_b']) and f_implies(
                        s.m.norm(g), s.m.norm(h.e.guard)) and f_implies(
                        s.m.norm(h.e.guard), s.m.norm(g)):
                    good = True
        ck.ob('segment-next', good, h, 'the next segment starts where the '
              'last one ended')
        ck.ob('segment-cut', f_equiv(case(s, h.e.guard, {
            '_h[_e][0] == _h[_f][0]': False}), True), h,
            'a segment ends where the group changes')
    for h in inner + last:
        a = h.b['_a']
        ck.ob('segment-first', a[0] != 'loopvar' or s.m.match(
            '0', a[3]) is not None, h, 'the first segment starts at the '
            'first channel')
    for h in inner:
        it = s.E.loops[h.e.loops[-1]]['iter']
        ck.ob('segment-scan', any(s.m.match(p, it) is not None for p in (
            'range(1, len(self))', 'range(1, len(self.elems))',
            'range(len(self))', 'range(1, len(_h))')) or not s.find(
                it, 'range(...)'), h, 'every channel is compared with the '
            'one before it')
    for h in s.returns():
        ck.ob('segment-result', any(same(s, h.e.value, i.e.base)
                                    for i in items), h,
              'all segments are returned')
    s = ck.fn('ChannelTensor.__init__')
    ok = False
    for h in s.sets('self', 'elems'):
        its = listed(s, full(s, h.e.value))
        ok = bool(its) and all(s.m.match('ChannelElem(self, _i)', full(
            s, i.value)) is not None and i.every(True) for i in its)
    for h in s.calls('self.elems.append(ChannelElem(self, _i))'):
        ok = True
    ck.ob('fresh', ok, s, 'a new tensor has its own channels')


def in_order(s, v, what):
    """``v`` walks ``what`` once and does not reorder it"""
    for x in all_sub(v):
        if x[0] == 'call':
            n = show(strip(x))
            for w in ('reversed(', 'sorted(', 'set('):
                if n.startswith(w):
                    return False
        if x[0] == 'comp' and x[4] is not True:
            return False
        if x[0] == 'slice':
            return False
    return True


def width_guard(s):
    for e in s.ev:
        if e.kind == 'assert' and s.m.match(
                'len(tensor1) == len(tensor2)', e.value) is not None:
            return True
        if e.kind == 'assert' and e.value[0] == 'form' and case(
                s, e.value[1], {'len(tensor1) == len(tensor2)': False}) \
                is False:
            return True
        if e.kind == 'raise' and case(s, e.guard, {
                'len(tensor1) == len(tensor2)': False}) is True:
            return True
    return False


# ------------------------------------------------------------------- nodes
OPQ = ('in_channels', 'out_channels', 'expand', 'union', 'cat',
       'group_union', '_channel_forward', '_gw_conv_channel_forward')


def final(s, attr):
    """the values ``attr`` of the node holds at the end"""
    out = []
    for h in s.sets('self', attr) + s.sets('node', attr):
        out.append(h)
    return out


def ret_of(s):
    """returned terms with self.<x>_channel_tensor replaced by its value"""
    out = []
    for h in s.returns():
        for g, t in leaves(s, h.e.value, h.e.guard):
            b = s.m.match('_n.out_channel_tensor', t)
            c = s.m.match('_n.in_channel_tensor', t)
            k = 'out_channel_tensor' if b is not None else \
                'in_channel_tensor' if c is not None else None
            if k:
                for w in final(s, k):
                    out.append((h, f_and(g, w.e.guard), w.e.value))
            else:
                out.append((h, g, t))
    return out


def check_nodes(ck):
    fresh = 'ChannelTensor(self.out_channels)'
    for cls in ('ChannelNode', 'MixChannelNode'):
        s = ck.fn(cls + '.channel_forward', opaque=OPQ)
        for h in final(s, 'in_channel_tensor'):
            ck.ob('mix-in', s.m.match('channel_tensors[0]', h.e.value)
                  is not None, h, 'a layer that mixes channels consumes its '
                  'input [%s]' % cls)
        for h in final(s, 'out_channel_tensor'):
            ck.ob('mix-out', s.m.match(fresh, h.e.value) is not None, h,
                  'and produces channels of its own [%s]' % cls)
        ck.ob('mix', final(s, 'in_channel_tensor') and final(
            s, 'out_channel_tensor'), s, 'both sides are recorded')
        for h, g, t in ret_of(s):
            ck.ob('mix-ret', s.m.match(fresh, t) is not None, h,
                  'its own channels are passed on [%s]' % cls)
    s = ck.fn('PassUnionChannelNode._channel_forward', opaque=OPQ)
    for k in ('in_channel_tensor', 'out_channel_tensor'):
        hs = final(s, k)
        ck.ob('pass-' + k, bool(hs) and all(
            h.unconditional and s.m.match('tensor', h.e.value) is not None
            for h in hs), s, 'a channel-wise layer has its input channels '
            'on both sides')
    for h, g, t in ret_of(s):
        ck.ob('pass-ret', s.m.match('tensor', t) is not None, h, 'and '
              'passes them on')
    s = ck.fn('PassUnionChannelNode.channel_forward', opaque=OPQ)
    ck.ob('pass', all(s.find(h.e.value, '_channel_forward(self, '
                             'channel_tensors[0])') or s.find(
        h.e.value, '_.__channel') or s.derives(
            h.e.value, 'channel_tensors[0]') for h in s.returns()), s,
        'the channels of the input are passed')
    s = ck.fn('PassChannelNode.channel_forward', opaque=OPQ)
    for h, g, t in ret_of(s):
        ck.ob('transparent', s.m.match('channel_tensors[0]', t) is not None,
              h, 'operations without channels hand their input on')
    s = ck.fn('BindChannelNode.channel_forward', opaque=OPQ)
    us = s.calls('_a.union(_b)')
    ok = False
    for h in us:
        if not h.e.loops or not but_first(
                s, h.e.loops[-1], 'channel_tensors') or not h.unconditional:
            continue
        if s.m.match('channel_tensors[0]', h.b['_a']) is not None and any(
                s.m.match(p, h.b['_b']) is not None for p in (
                    'ELEM(channel_tensors[1:])', 'ELEM(channel_tensors)')):
            ok = True
    ck.ob('bind', ok, s, 'an element-wise operation ties all its inputs')
    for h, g, t in ret_of(s) + [(h, True, h.e.value) for k in (
            'in_channel_tensor', 'out_channel_tensor')
            for h in final(s, k)]:
        ck.ob('bind-ret', s.m.match('channel_tensors[_]', t) is not None, h,
              'and passes the tied channels on')
    s = ck.fn('CatChannelNode.channel_forward', opaque=OPQ)
    for h, g, t in ret_of(s) + [(h, True, h.e.value) for k in (
            'in_channel_tensor', 'out_channel_tensor')
            for h in final(s, k)]:
        ck.ob('cat', s.m.match('ChannelTensor.cat(channel_tensors)', t)
              is not None, h, 'a concatenation has the channels of all '
              'inputs in their order')
    s = ck.fn('CatChannelNode._get_in_channels_by_prev_nodes')
    for h in s.returns():
        ck.ob('cat-width', s.derives(h.e.value, '_n.out_channels') and
              s.derives(h.e.value, 'sum(...)'), h, 'its width is the sum of '
              'the widths of its inputs') if s.calls('sum(...)') else None
    s = ck.fn('ExpandChannelNode.channel_forward', opaque=OPQ)
    for h, g, t in ret_of(s):
        ck.ob('expand-node', s.m.match(
            'channel_tensors[0].expand(self.expand_ratio)', t) is not None,
            h, 'an expanded input keeps its channels tied')
    s = ck.fn('EndNode.channel_forward', opaque=OPQ)
    ok = False
    for h in s.calls('_a.union(_b)'):
        if h.e.loops and whole(s, h.e.loops[-1]) and h.unconditional and \
                over(s, h.e.loops[-1], 'channel_tensors') and s.find(
                    h.e.term, 'ChannelTensor(1).expand(len(_))'):
            ok = True
    ck.ob('end', ok, s, 'channels of a model output are all tied to one '
          'fixed group')
    s = ck.fn('InputChannelNode.channel_forward', opaque=OPQ)
    for h, g, t in ret_of(s):
        ck.ob('input', s.m.match('ChannelTensor(self._input_channels)', t)
              is not None, h, 'an input has channels of its own')
    check_conv(ck)
    s = ck.fn('GroupNormNode.channel_forward', opaque=OPQ)
    ok = [h for h in s.calls('group_union(_t, self.val.num_groups, ...)')
          + s.calls('group_union(_t, groups=self.val.num_groups)')
          if h.unconditional]
    ck.need('groupnorm', ok, s, 'a group norm ties its groups')
    check_group(ck)
    s = ck.fn('ChannelNode.forward', opaque=('channel_forward',))
    hs = s.sets('self', 'return_tensor')
    ck.need('forward', hs, s, 'a node passes a tensor on')
    for h in hs:
        b = s.m.match('self.channel_forward(_x)', h.e.value)
        ck.ob('forward-value', b is not None, h, 'what a node passes on is '
              'its own result')
        for g, t in leaves(s, b['_x'], h.e.guard) if b else ():
            if s.m.match('in_channel_tensors', t) is not None:
                ck.ob('forward-given', case(s, g, {
                    'in_channel_tensors is None': True}) is False, h,
                    'given tensors are used')
                continue
            its = listed(s, t)
            ok = bool(its) and all(
                s.m.match('ELEM(self.prev_nodes).return_tensor', i.value)
                is not None and i.every(s.m.norm(g)) for i in its)
            ck.ob('forward-inputs', ok, h, 'a node sees the result of every '
                  'predecessor, in order')


def check_conv(ck):
    s = ck.fn('ConvNode.conv_type', opaque=('in_channels', 'out_channels'))
    kinds = {}
    for h in s.returns():
        for g, t in leaves(s, h.e.value, h.e.guard):
            kinds[t] = f_or(kinds.get(t, False), g)
    one = {'self.val.groups == 1': True}
    dw = {'self.val.groups == 1': False,
          'self.val.in_channels == self.out_channels': True,
          'self.out_channels == self.val.groups': True,
          'self.val.in_channels == self.val.groups': True,
          'self.in_channels == self.out_channels': True,
          'self.in_channels == self.val.groups': True,
          'self.val.out_channels == self.val.groups': True,
          'self.val.in_channels == self.val.out_channels': True}
    by = {}
    for nm, d in (('one', one), ('dw', dw)):
        by[nm] = [t for t, g in kinds.items() if case(s, g, d) is True]
    gw = []
    for brk in ('self.out_channels == self.val.groups',
                'self.val.in_channels == self.out_channels'):
        d = {k: (False if k == 'self.val.groups == 1' else
                 not (('out_channels' in k) if 'out' in brk else True))
             for k in dw}
        d = {k: v for k, v in d.items()}
        d[brk] = False
        gw.append(d)
    ok = len(by['one']) == 1 and len(by['dw']) == 1 and by['one'] != by['dw']
    ck.ob('conv-type', ok, s, 'plain and depth-wise convolutions are told '
          'apart')
    if not ok:
        return
    plain, deep = by['one'][0], by['dw'][0]
    third = [t for t in kinds if t not in (plain, deep)]
    d = {k: False for k in dw}
    ck.ob('conv-grouped', bool(third) and any(
        case(s, kinds[t], d) is True for t in third), s,
        'other grouped convolutions are a kind of their own')
    # a grouped convolution is never treated as depth-wise
    for k in ('self.out_channels == self.val.groups',
              'self.val.in_channels == self.out_channels'):
        pass
    s = ck.fn('ConvNode.channel_forward', opaque=OPQ + ('conv_type',))

    def sel(t):
        return {"self.conv_type == '%s'" % v[1]: v == t
                for v in kinds if v[0] == 'const'}
    for t, pats, why in (
            (plain, ('super().channel_forward(channel_tensors)',
                     'MixChannelNode.channel_forward(self, channel_tensors)',
                     '_x.channel_forward(channel_tensors)'),
             'a plain convolution mixes channels'),
            (deep, ('PassUnionChannelNode._channel_forward(self, '
                    'channel_tensors[0])',
                    '_x._channel_forward(self, channel_tensors[0])'),
             'a depth-wise convolution ties input and output')):
        ok = False
        for h in s.returns():
            for g, v in leaves(s, h.e.value, h.e.guard):
                if case(s, g, sel(t)) is True:
                    ok = any(s.m.match(p, v) is not None for p in pats)
        ck.ob('conv-dispatch', ok, s, why)
    s2 = ck.fn('ConvNode.channel_forward', opaque=(
        'in_channels', 'out_channels', 'expand', 'union', 'cat',
        'group_union', '_channel_forward', 'conv_type'))
    gt = [t for t in third]
    tied = s2.calls('group_union(_t, ...)')
    for nm, pats in (('input', ('channel_tensors[0]',
                                'self.in_channel_tensor')),
                     ('output', ('ChannelTensor(self.out_channels)',
                                 'self.out_channel_tensor'))):
        ok = False
        for h in tied:
            if any(s2.m.match(p, h.b['_t']) is not None for p in pats) and \
                    any(case(s2, h.e.guard, sel(t)) is True for t in gt):
                gr = h.arg(1, 'groups')
                ok = ok or gr is not None and s2.m.match(
                    'self.val.groups', gr) is not None
        ck.ob('grouped-' + nm, ok, s2, 'a grouped convolution ties the '
              'channels of its groups [%s]' % nm)


def check_group(ck):
    s = ck.fn('group_union', opaque=('union',))
    ok = False
    for h in s.calls('_a.union(_b)'):
        if not h.e.loops or not whole(s, h.e.loops[-1]) or \
                not h.unconditional:
            continue
        if not over(s, h.e.loops[-1], 'range(groups)'):
            continue
        b = s.m.match('tensor[_i * _c:(_i + 1) * _c]', h.b['_a'])
        if b is None:
            b = s.m.match('tensor[_i * _c:_i * _c + _c]', h.b['_a'])
        if b is not None and s.m.match('len(tensor) // groups', b['_c']) \
                is not None:
            ok = True
    ck.ob('group-union', ok, s, 'all groups of a tensor are tied to one '
          'another, channel by channel')


MAP = {'Conv2d': 'ConvNode', '_BatchNorm': 'BnNode', 'Linear': 'LinearNode',
       'GroupNorm': 'GroupNormNode'}
FMAP = {'add': 'BindChannelNode', 'cat': 'CatChannelNode'}
SMAP = {'bind_placeholder': 'BindChannelNode',
        'cat_placeholder': 'CatChannelNode',
        'input_placeholder': 'InputChannelNode',
        'output_placeholder': 'EndNode'}


def check_sides(ck):
    """every kind of node records the channels of both sides and hands a
    tensor on"""
    base = ck.cls('ChannelNode')
    n = 0
    for c in [base] + list(ck.prog.subclasses(base)):
        f = c.methods.get('channel_forward')
        if f is None:
            continue
        s = ck.fn(c.qual + '.channel_forward', opaque=(
            'in_channels', 'out_channels', 'expand', 'union', 'cat',
            'group_union', 'conv_type'))
        n += 1
        rz = refused(s)
        for k in ('in_channel_tensor', 'out_channel_tensor'):
            g = f_or(rz, *[h.e.guard for h in final(s, k)])
            ok = f_equiv(s.m.norm(g), True)
            ck.ob('node-' + k, ok, s, 'a node knows the channels on both '
                  'sides, whatever it is [%s]' % k)
        for h in s.returns():
            ck.ob('node-result', h.e.value != NONE, h, 'a node hands a '
                  'tensor on')
    ck.floor('kinds of channel nodes', n, 4)
    # the width of every node that owns a layer is that of the layer
    for c, a, b in (('ConvNode', 'in_channels', 'out_channels'),
                    ('LinearNode', 'in_features', 'out_features'),
                    ('BnNode', 'num_features', 'num_features'),
                    ('GroupNormNode', 'num_channels', 'num_channels')):
        for k, x in (('_in_channels', a), ('_out_channels', b)):
            s = ck.fn('%s.%s' % (c, k))
            ck.ob('layer-width', bool(s.returns()) and all(s.m.match(
                'self.val.' + x, h.e.value) is not None
                for h in s.returns()), s, 'the width of a node is that of '
                'its layer [%s]' % k)
    s = ck.fn('ExpandChannelNode._get_out_channel_by_in_channels')
    ck.ob('expand-width', all(s.m.match(
        'in_channels * self.expand_ratio', h.e.value) is not None
        for h in s.returns()), s, 'an expanding node multiplies the width')
    s = ck.fn('ChannelNode.check_channel', opaque=(
        'in_channels', 'out_channels'))
    ok = False
    for h in s.raises():
        if h.e.loops and whole(s, h.e.loops[-1]) and over(
                s, h.e.loops[-1], 'self.prev_nodes'):
            ok = ok or case(s, h.e.guard if h.e.kind == 'raise' else f_not(
                h.e.value[1]), {'_n.out_channels == self.in_channels':
                                False}) is True
    ck.ob('width-check', ok, s, 'an input of another width is noticed')


def check_mapping(ck):
    import ast
    m = ck.prog.modules['mmrazor.structures.graph.channel_nodes']
    got = {}
    where = None
    for n in ast.walk(m.tree):
        if not isinstance(n, ast.Dict):
            continue
        for k, v in zip(n.keys, n.values):
            if k is None or not isinstance(v, (ast.Name, ast.Attribute)):
                continue
            key = k.value if isinstance(k, ast.Constant) else k.attr if \
                isinstance(k, ast.Attribute) else getattr(k, 'id', None)
            val = v.attr if isinstance(v, ast.Attribute) else v.id
            got.setdefault(key, set()).add(val)
    s = ck.fn('default_channel_node_converter', opaque=('copy_from',))
    want = {}
    for d in (MAP, FMAP, SMAP):
        want.update(d)
    for k, v in want.items():
        if k in got:
            ck.ob('node-type', got[k] == {v}, s, 'operation %s is analysed '
                  'as %s (is %s)' % (k, v, sorted(got[k])))
    # a node is converted by the entry for what it runs
    for h in s.returns():
        for l in h.e.loops:
            it = s.E.loops[l]['iter']
            if it is None or it[0] not in ('param', 'global', 'sub'):
                continue
            nm = show(strip(it))
            kind = 'module' if 'module' in nm else 'function' if \
                'function' in nm else 'name'
            at = [a for a in f_atoms(s.m.norm(h.e.guard)) if s.m.match(
                'isinstance(node.val, ELEM(_))', a) is not None or s.m.match(
                    'node.val == ELEM(_)', a) is not None or s.m.match(
                    'issubclass(type(node.val), ELEM(_))', a) is not None]
            D = {'isinstance(node.val, ELEM(_))': False,
                 'issubclass(type(node.val), ELEM(_))': False,
                 'node.val == ELEM(_)': False}
            ck.ob('convert-match', bool(at) and case(s, h.e.guard, D)
                  is False, h, 'a node is converted by the entry that '
                  'describes it [%s]' % kind)
            ok = s.find(h.e.value, '_m[ELEM(_m)].copy_from(node)')
            ok = ok or s.find(h.e.value, '_c.copy_from(node)')
            ck.ob('convert-own', bool(ok), h, 'what a node runs is kept')
    for nm, d in (('module', {'isinstance(node.val, Module)': True}),
                  ('name', {'isinstance(node.val, Module)': False,
                            'isinstance(node.val, str)': True}),
                  ('function', {'isinstance(node.val, Module)': False,
                                'isinstance(node.val, str)': False})):
        e = dict(d)
        e.update({'isinstance(node.val, ELEM(_))': True,
                  'issubclass(type(node.val), ELEM(_))': True,
                  'node.val == ELEM(_)': True})
        ck.ob('convert-known', any(
            h.e.loops and over(s, h.e.loops[-1], nm + '_mapping') and
            case(s, h.e.guard, e) is True for h in s.returns()), s,
            'known operations are analysed as such [%s]' % nm)
    # unknown operations are element-wise
    for h in s.returns():
        b = s.m.match('BindChannelNode.copy_from(node)', h.e.value)
        c = s.m.match('PassUnionChannelNode.copy_from(node)', h.e.value)
        if c is not None:
            ck.ob('default-one', case(s, h.e.guard, {
                '1 < len(node.prev_nodes)': True}) is False, h,
                'an unknown operation with several inputs ties them')
    ck.need('default-bind', [h for h in s.returns() if s.find(
        h.e.value, 'BindChannelNode.copy_from(node)')], s,
        'an unknown operation with several inputs ties them')


# ------------------------------------------------------------ channel graph
def check_channel_graph(ck):
    s = ck.fn('ChannelGraph.generate_units_config', opaque=(
        'topo_traverse', 'elems_hash_dict', '_reset_channel_elem_cache'))
    resets = s.calls('self._reset_channel_elem_cache()')
    ck.need('fresh-groups', resets, s, 'groups are looked up afresh')
    for side in ('in', 'out'):
        ok = False
        for l, L in s.E.loops.items():
            t = L['iter']
            if t is None or not whole(s, l):
                continue
            for g, x in leaves(s, t, True):
                for y in all_sub(x):
                    if y[0] == 'attr' and y[2] == side + '_channel_tensor' \
                            and s.derives(y, 'self.topo_traverse()') or \
                            s.m.match('ELEM(self).%s_channel_tensor' % side,
                                      y) is not None:
                        ok = True
        ck.ob('walk-' + side, ok, s, 'the %sput channels of every node are '
              'assigned to a group' % side)
    seen = {}
    for h in s.calls('_l.append(_c)'):
        c = h.b['_c']
        if c[0] != 'alloc' or c[1] != 'dict' or not h.e.loops:
            continue
        d = {k[1]: v for k, v in c[2] if k[0] == 'const'}
        if not {'start', 'end', 'name'} <= set(d):
            continue
        it = s.E.loops[h.e.loops[-1]]['iter']
        for g, x in leaves(s, it, h.e.guard):
            b = s.m.match('_n.out_channel_tensor.elems_hash_dict', x)
            side = True
            if b is None:
                b = s.m.match('_n.in_channel_tensor.elems_hash_dict', x)
                side = False
            if b is None:
                continue
            seen.setdefault(side, []).append(h)
            R = ('comp',)
            ck.ob('unit-range', s.m.match('ELEM(_)[0]', d['start'])
                  is not None and s.m.match('ELEM(_)[1]', d['end'])
                  is not None, h, 'a layer joins a group with exactly its '
                  'own range of channels')
            flag = d.get('is_output_channel')
            if flag is not None:
                ck.ob('unit-flag', all(
                    t == const(side) for gg, t in leaves(s, flag, g)
                    if feasible(s, gg)), h, 'the side of a layer is '
                    'recorded')
            for gg, t in leaves(s, h.b['_l'], g):
                if not feasible(s, gg):
                    continue
                want = 'output_related' if side else 'input_related'
                bb = s.m.match("_u[_k]['channels']['%s']" % want, t)
                ck.ob('unit-side', bb is not None, h, 'producers and '
                      'consumers of a group are told apart')
                if bb is None:
                    continue
                ck.ob('unit-key', s.m.match(
                    '%s[ELEM(_)]' % show(strip(x)), bb['_k']) is not None or
                    s.derives(bb['_k'], '_n.elems_hash_dict'), h,
                    'channels of one group belong to one unit')
            for gg, t in leaves(s, d['name'], g):
                m_ = case(s, gg, {'_n.is_module': True,
                                  'isinstance(_n.val, Module)': True})
                if m_ is not False and case(s, gg, {
                        '_n.is_module': False,
                        'isinstance(_n.val, Module)': False}) is False:
                    ck.ob('unit-name', s.m.match('_n.module_name', t)
                          is not None, h, 'a layer is named as in the model')
            ck.ob('unit-all', case(s, h.e.guard, {'_c in _l': False})
                  is True, h, 'every range of every layer joins its group')
    ck.ob('unit-sides', set(seen) == {True, False}, s,
          'producers and consumers are both found')
    for h in s.kind('setitem'):
        if len(h.e.loops) >= 2 and h.e.base[0] == 'alloc' and any(
                s.derives(h.e.attr, '_n.%s_channel_tensor.elems_hash_dict'
                          % k) for k in ('in', 'out')):
            ck.ob('unit-keep', case(s, h.e.guard, {'_k in _d': True})
                  is False, h, 'a group that exists is extended, not '
                  'replaced')
            ck.ob('unit-own', s.find(h.e.value, 'copy.deepcopy(_)') or
                  s.find(h.e.value, 'deepcopy(_)') or
                  h.e.value[0] == 'alloc' and h.e.value[3] not in [
                      0], h, 'groups do not share their records')
    for h in s.returns():
        ck.ob('unit-result', h.e.value != NONE, h, 'the groups are returned')
    tops = [l for l, L in s.E.loops.items() if L['iter'] is not None and (
        s.m.match('self.topo_traverse()', L['iter']) is not None or s.m.match(
            'self', L['iter']) is not None)]
    ck.ob('walk-all', any(whole(s, l) for l in tops), s,
          'every node is looked at')
    s = ck.fn('ChannelGraph.forward', opaque=(
        'topo_traverse', '_merge_same_module', 'ChannelNode.forward',
        'channel_forward', 'reset_channel_tensors'))
    rs = [h for h in s.calls('_n.reset_channel_tensors()')
          if h.e.loops and whole(s, h.e.loops[-1]) and h.unconditional]
    ck.need('reset', rs, s, 'every analysis starts without old channels')
    fw = s.calls('_n.forward(...)')
    ck.ob('forward-all', bool(fw) and f_equiv(case(s, jointly(fw), {}),
                                              True) if False else
          bool(fw) and f_equiv(f_or(*[s.m.norm(h.e.guard) for h in fw]),
                               True) and all(
              whole(s, l) for h in fw for l in h.e.loops), s,
          'every node is analysed, in topological order')
    for h in fw:
        ck.ob('forward-topo', h.e.loops and s.m.match(
            'self.topo_traverse()', s.E.loops[h.e.loops[-1]]['iter']) or
            s.derives(s.E.loops[h.e.loops[-1]]['iter'], 'self.topo_traverse()'),
            h, 'a node is analysed after all its inputs')
        if h.e.args:
            ck.ob('forward-input', case(s, h.e.guard, {
                'len(_n.prev_nodes) == 0': False,
                '_n.prev_nodes': True, '0 < len(_n.prev_nodes)': True})
                is False, h, 'only nodes without predecessors get channels '
                'from outside')
    mg = s.calls('self._merge_same_module()')
    ck.need('merge', [h for h in mg if h.unconditional], s,
            'layers used several times have one set of channels')
    for h in mg:
        for k in fw:
            ck.not_after('merge-late', [h], [k], s, 'after all nodes were '
                         'analysed') if False else ck.ob(
                'merge-late', k.e.seq < h.e.seq, h,
                'after all nodes were analysed')
    s = ck.fn('ChannelGraph._merge_same_module', opaque=('union',))
    for side in ('in', 'out'):
        ok = [h for h in s.calls('_a.%s_channel_tensor.union('
                                 '_b.%s_channel_tensor)' % (side, side))
              if len(h.e.loops) >= 2 and all(but_first(s, l, '_x[_k]', '_x')
                                             for l in h.e.loops)]
        ck.ob('merge-' + side, bool(ok) and any(case(
            s, h.e.guard, {'1 < len(_x)': True}) is True for h in ok), s,
            'all uses of a layer share their channels [%sput]' % side)
    s = ck.fn('ChannelGraph._reset_channel_elem_cache', opaque=(
        'topo_traverse', 'ChannelTensor._reset_channel_elem_cache'))
    for side in ('in', 'out'):
        ck.need('cache-' + side, [h for h in s.calls(
            '_n.%s_channel_tensor._reset_channel_elem_cache()' % side)
            if h.unconditional and h.e.loops and whole(s, h.e.loops[-1])],
            s, 'no stale group is kept')
    s = ck.fn('ChannelElem.reset_cache')
    for a in ('_hash_cache', '_min_elem_set_index_cache'):
        ck.need('cache' + a, [h for h in s.sets('self', a, 'None')
                              if h.unconditional], s,
                'both cached values are dropped')


# ------------------------------------------------------------------ parsers
def check_parsers(ck):
    import ast
    m = ck.prog.modules['mmrazor.models.task_modules.tracer.parsers']
    names = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Dict):
            for v in n.values:
                if isinstance(v, ast.Name) and v.id in m.functions:
                    names.add(v.id)
    for n in m.functions:
        if n.startswith('parse_'):
            names.add(n)
    ck.floor('path parsers', len(names), 2)
    reg = [(k.value, v.id) for d in ast.walk(m.tree)
           if isinstance(d, ast.Dict) for k, v in zip(d.keys, d.values)
           if isinstance(k, ast.Constant) and isinstance(v, ast.Name)]
    for n in sorted(names):
        s = ck.fn(n, opaque=('backward_trace',))
        push = s.calls('cur_path.append(_x)')
        pop = s.calls('cur_path.pop(...)')
        dele = [h for h in s.kind('del') if h.e.base is not None and
                s.m.match('cur_path', h.e.base) is not None]
        fresh = not push
        ck.ob('parser-push', f_equiv(s.m.norm(f_or(
            *[h.e.guard for h in push])), True), s,
            'a traced layer joins the current path [%s]' % n)
        out = pop + dele
        for h in pop:
            a = h.e.args[0] if h.e.args else const(-1)
            ck.ob('parser-last', a == const(-1) or s.m.match('-1', a)
                  is not None, h, 'the last layer leaves the path')
        ck.ob('parser-pop', bool(out) and f_equiv(s.m.norm(f_or(
            *[h.e.guard for h in out])), True), s, 'a layer is on the path '
            'of its own branch only: it leaves when the branch is done '
            '[%s]' % n)
        # once
        for i, a in enumerate(out):
            for b in out[i + 1:]:
                ck.ob('parser-pop-once', not feasible(
                    s, f_and(a.e.guard, b.e.guard)), b, 'a layer leaves '
                    'the path once')
        for i, a in enumerate(push):
            for b in push[i + 1:]:
                ck.ob('parser-push-once', not feasible(
                    s, f_and(a.e.guard, b.e.guard)), b, 'a layer joins '
                    'the path once')
        rec = s.calls('result_paths.append(_p)')
        tr = s.calls('tracer.backward_trace(...)')
        for h in rec:
            v = h.b['_p']
            ck.ob('parser-copy', s.m.match('copy.deepcopy(cur_path)', v)
                  is not None or s.m.match('deepcopy(cur_path)', v) is not
                  None, h, 'a finished path is recorded as a copy')
        for h in rec + [t for t in tr if t.arg(3, 'cur_path') is not None and
                        s.m.match('cur_path', t.arg(3, 'cur_path'))
                        is not None]:
            ck.ob('parser-order', all(
                p.e.seq < h.e.seq or not feasible(s, f_and(
                    p.e.guard, h.e.guard)) for p in push) and all(
                h.e.seq < p.e.seq or not feasible(s, f_and(
                    p.e.guard, h.e.guard)) for p in out), h,
                'while its branch is traced a layer is on the path')
        own = [t for t in tr if not t.e.loops]
        ck.ob('parser-goes-on', f_equiv(s.m.norm(f_or(
            *[h.e.guard for h in rec + own])), True), s, 'every branch is '
            'traced to its end or recorded [%s]' % n)
        vis = s.items('visited', '_n')
        for h in vis:
            pass
        for t in tr:
            v = [h for h in vis if f_implies(s.m.norm(t.e.guard), s.m.norm(
                h.e.guard)) and h.e.seq < t.e.seq]
            ck.ob('parser-visited', bool(v), t, 'a layer counts as visited '
                  'before its inputs are traced')
            if t.e.loops:
                p, r = t.arg(3, 'cur_path'), t.arg(4, 'result_paths')
                for x, c in ((p, 'Path()'), (r, 'PathList()')):
                    inside = x is not None and s.m.match(c, x) is not None
                    made = [e for e in s.ev if e.kind == 'call' and
                            e.term == x]
                    ok = inside and all(e.loops == t.e.loops for e in made)
                    ck.ob('cat-branches', ok, t, 'every input of a '
                          'concatenation has a path of its own')
                ck.ob('cat-all', whole(s, t.e.loops[-1]) and
                      t.unconditional and over(
                          s, t.e.loops[-1], 'grad_fn.next_functions'), t,
                      'all inputs of a concatenation are traced')
        for t in tr:
            skip = [h for h in rec if not f_equiv(s.m.norm(h.e.guard), True)]
            for h in skip:
                ck.ob('parser-stop', case(s, h.e.guard, {
                    'visited[_n]': False}) is False and case(
                        s, h.e.guard, {'_n in shared_module': True})
                    is False, h, 'only a layer that was traced before, and '
                    'is not used twice, ends a path')
        check_identity(ck, s, n)
        ops = {k for k, v in reg if v == n}
        for t in tr:
            if t.e.loops:
                continue
            g = t.arg(0, 'grad_fn')
            idx = {x[2][1] for x in all_sub(full(s, g)) if x[0] == 'sub' and
                   s.m.match('grad_fn.next_functions', x[1]) is not None and
                   x[2][0] == 'const'} if g is not None else set()
            want = {-2} if ops and all('mm' in o.lower() for o in ops) else {0}
            ck.ob('parser-input', idx == want, t, 'the walk goes on with '
                  'the input of the layer, not with its weights')
        for h in push:
            nmt = [b['_n'] for x, b in s.find(h.b['_x'], '_c(_n)') + s.find(
                h.b['_x'], '_c(_n, _)')]
            if not any(t.e.loops for t in tr):
                leaf = [x for y in nmt for x in all_sub(full(s, y))
                        if x[0] == 'sub' and s.m.match(
                            'grad_fn.next_functions', x[1]) is not None]
                ck.ob('parser-layer', s.derives(
                    h.b['_x'], 'module2name[param2module[id(_.variable)]]'),
                    h, 'the layer is found by its weight')
                w = {x[2][1] for x in leaf if x[2][0] == 'const'}
                ck.ob('parser-weight', bool(w) and not w & (
                    {0, -2} if want == {0} else {-2}), h, 'the layer is '
                    'found by its weight, not by its input')
    s = ck.fn('BackwardTracer.backward_trace', opaque=('backward_parser',))
    rec = s.calls('result_paths.append(_p)')
    ck.need('leaf', rec, s, 'a path that reaches an input is recorded')
    for h in rec:
        ck.ob('leaf-copy', s.find(h.b['_p'], 'copy.deepcopy(cur_path)') or
              s.find(h.b['_p'], 'deepcopy(cur_path)'), h,
              'a finished path is recorded as a copy')
    go = [h for h in s.calls('self.backward_trace(_g, ...)') if h.e.loops and
          whole(s, h.e.loops[-1])]
    ck.need('all-parents', go, s, 'an operation without channels leads to '
            'all its inputs')


def check_identity(ck, s, n):
    """names made of object ids stay unique while the trace runs"""
    for h in s.calls('id(_x)'):
        if not any(h.e.term in set(all_sub(full(s, p.e.term)))
                   for p in s.calls('PathConcatNode(...)')):
            continue
        x = h.b['_x']
        kept = [k for k in s.kind('setitem') if same(s, k.e.value, x)] + [
            k for k in s.calls('_l.append(_v)') if same(s, k.b['_v'], x)]
        kept = [k for k in kept if any(
            y[0] in ('param', 'global') for y in all_sub(
                k.e.base if k.e.kind == 'setitem' else k.b['_l']))]
        ck.ob('cat-identity', bool(kept), h, 'the object whose id names a '
              'concatenation is kept alive, so that no other concatenation '
              'gets the same name')


def check_trace(ck):
    s = ck.fn('BackwardTracer.trace', opaque=(
        'backward_trace', '_build_mappings', '_find_share_modules',
        '_set_all_requires_grad', '_restore_requires_grad',
        '_register_share_module_hook', '_remove_share_module_hook'))
    loss = s.calls('self.loss_calculator(model)')
    ck.need('trace-forward', loss, s, 'the model is run once')
    bt = s.calls('self.backward_trace(...)')
    ck.need('trace-walk', [h for h in bt if h.unconditional], s,
            'the recorded operations are walked')
    for h in bt:
        g, p, q = h.arg(0, 'grad_fn'), h.arg(3, 'cur_path'), h.arg(
            4, 'result_paths')
        sh = h.arg(6, 'shared_module')
        ck.ob('trace-start', s.derives(g, 'self.loss_calculator(model)'), h,
              'the walk starts at the output of the model')
        ck.ob('trace-empty', s.m.match('Path()', p) is not None, h,
              'the walk starts with an empty path')
        ck.ob('trace-shared', s.derives(
            sh, 'self._find_share_modules(model)'), h,
            'layers used twice are known to the walk')
        ck.ob('trace-result', any(same(s, r_.e.value, q)
                                  for r_ in s.returns()), h,
              'the paths found are returned')
        for x in s.calls('self._find_share_modules(model)'):
            rm = s.calls('self._remove_share_module_hook(model)')
            ck.ob('shared-counted', all(l.e.seq < x.e.seq for l in loss) and
                  all(x.e.seq < y.e.seq for y in rm), x,
                  'uses are counted during the run')
    s2 = ck.fn('BackwardTracer._find_share_modules')
    for h in s2.calls('_l.append(_n)'):
        ck.ob('shared-twice', f_equiv(case(s2, h.e.guard, {
            '1 < _m._cnt': True, "hasattr(_m, 'weight')": True}), True) and
            case(s2, h.e.guard, {'1 < _m._cnt': False}) is False, h,
            'a layer that runs more than once is shared')
    s2 = ck.fn('BackwardTracer._register_share_module_hook')
    c0 = s2.sets('_m', '_cnt')
    for h in s2.calls('_m.register_forward_hook(...)'):
        ck.ob('shared-from-zero', any(s2.m.match('0', x.e.value) is not None
              and x.e.loops == h.e.loops and f_implies(
                  s2.m.norm(h.e.guard), s2.m.norm(x.e.guard))
              for x in c0), h, 'uses are counted from zero')
    s2 = ck.fn('BackwardTracer._build_mappings')
    vis = s2.items('_d', None, 'False')
    nm = s2.items('_d', '_c')
    ck.ob('map-layers', len(s2.kind('setitem')) >= 3, s2,
          'layers, names and parameters are mapped')
    for h in s2.kind('setitem'):
        ck.ob('map-supported', case(s2, h.e.guard, {
            'isinstance(_c, SUPPORT_MODULES)': True,
            'isinstance(_c, _)': True}) is True, h, 'every supported layer '
            'is known to the walk')
    rec = [h for h in s2.kind('call') if h.e.loops and case(
        s2, h.e.guard, {'isinstance(_c, SUPPORT_MODULES)': False,
                        'isinstance(_c, _)': False}) is True and
        s2.find(h.e.term, 'ELEM(_)')]
    ck.need('map-nested', rec, s2, 'nested layers are known to the walk')
    pairs = (('_set_all_requires_grad', '_restore_requires_grad'),
             ('_register_share_module_hook', '_remove_share_module_hook'))
    for a, b in pairs:
        A, B = s.calls('self.%s(model)' % a), s.calls('self.%s(model)' % b)
        ck.ob('trace' + b, bool(B) and all(h.unconditional for h in B) and
              all(x.e.seq < l.e.seq for x in A for l in loss) and all(
                  l.e.seq < x.e.seq for x in B for l in loss), s,
              'what tracing changes in the model is undone after the run '
              '[%s]' % a)
    s = ck.fn('BackwardTracer._restore_requires_grad')
    ck.need('grad-back', [h for h in s.sets('_p', 'requires_grad')
                          if h.e.loops and whole(s, h.e.loops[-1]) and
                          h.unconditional and s.find(
                              h.e.value,
                              'self._param_requires_grad[id(_)]')], s,
            'every parameter gets its own flag back')
    s = ck.fn('BackwardTracer._set_all_requires_grad')
    sv = [h for h in s.items('self._param_requires_grad', 'id(_p)')
          if h.unconditional and s.find(h.e.value, '_p.requires_grad')]
    st = s.sets('_p', 'requires_grad', 'True')
    ck.ob('grad-saved', bool(sv) and all(
        a.e.seq < b.e.seq for a in sv for b in st), s,
        'the flag is saved before it is changed')
    s = ck.fn('BackwardTracer._remove_share_module_hook')
    ck.need('hooks-removed', [h for h in s.calls('_h.remove()')
                              if h.e.loops and whole(s, h.e.loops[-1]) and
                              h.unconditional], s, 'all hooks are removed')
    s = ck.fn('BackwardTracer._register_share_module_hook')
    regs = s.calls('_m.register_forward_hook(...)')
    for h in regs:
        kept = [i for w in s.sets('self', '_shared_module_hook_handles')
                for i in listed(s, w.e.value)] + [
            i for c in s.calls('self._shared_module_hook_handles.append(_v)')
            for i in [c]]
        ck.ob('hooks-kept', any(
            h.e.term in set(all_sub(full(s, i.value if hasattr(i, 'value')
                                         else i.b['_v']))) for i in kept),
            h, 'every hook can be removed again')


def check_analyze(ck):
    s = ck.fn('ChannelAnalyzer.analyze', opaque=(
        '_fx_trace', '_find_mutable_units', 'trace', 'parse_torch_graph',
        'copy_from', 'forward', 'check', 'generate_units_config',
        'refresh_module_name', 'PathToGraphConverter',
        'FxTracerToGraphConverter'))
    raw = []
    for e in s.ev:
        if e.kind not in ('call', 'setattr', 'setitem', 'del'):
            continue
        if e.kind == 'call':
            if s.m.match('copy.deepcopy(model)', e.term) is not None or \
                    s.m.match('deepcopy(model)', e.term) is not None:
                continue
            roots = list(e.args or ()) + [v for _, v in (e.kwargs or ())]
            if e.func is not None and e.func[0] == 'attr':
                roots.append(e.func[1])
        else:
            roots = [e.base]
        for r in roots:
            if r is not None and bare(r, 'model'):
                raw.append(e)
    for e in raw:
        ck.ob('analyze-copy', False, e, 'the analysed model itself is not '
              'touched')
    ck.ob('analyze-copy', not raw, s, 'only a copy of the model is analysed')
    s = ck.fn('ChannelAnalyzer.analyze', opaque=(
        '_fx_trace', '_find_mutable_units', 'trace', 'parse_torch_graph',
        'copy_from', 'check', 'generate_units_config',
        'refresh_module_name', 'PathToGraphConverter', 'ChannelGraph.forward',
        'FxTracerToGraphConverter'))
    fw = s.calls('_g.forward(...)')
    gen = s.calls('_g.generate_units_config()')
    ck.need('analyze-forward', [h for h in fw if h.unconditional], s,
            'channels are propagated')
    for g in gen:
        ck.ob('analyze-order', any(h.unconditional and h.e.seq < g.e.seq and
                                   same(s, h.b['_g'], g.b['_g'])
                                   for h in fw), g, 'groups are read from '
              'the analysed graph')
    r = s.calls('self._find_mutable_units(_m, _c)')
    for h in r:
        ck.ob('analyze-result', s.derives(h.b['_c'],
                                          '_g.generate_units_config()'), h,
              'the groups found are those of the model')


def bare(t, name):
    """``t`` reaches the parameter without passing through a copy"""
    if t[0] == 'param':
        return t[1] == name
    if t[0] in ('attr', 'sub', 'elem'):
        return bare(t[1], name)
    return False


def check_paths(ck):
    s = ck.fn('PathToGraphConverter._parse_helper', opaque=(
        '_add_or_find_node', '_connect_nexts'))
    rec = s.calls('self._parse_helper(_u, _n)')
    # lists: every path has the same successors
    lst = [h for h in rec if h.e.loops and s.m.match(
        'next_nodes', h.b['_n']) is not None]
    ck.need('paths', [h for h in lst if whole(s, h.e.loops[-1])], s,
            'all paths of a list lead to the same successors')
    seq = [h for h in rec if h.e.loops and h.b['_n'][0] == 'loopvar']
    ck.need('path-chain', [h for h in seq if whole(s, h.e.loops[-1])], s,
            'the nodes of a path follow one another')
    for h in seq:
        st = [v for (l, n), v in s.E.steps.items() if l == h.e.loops[-1]]
        ck.ob('path-next', any(v[0] == 'alloc' and len(v[2]) == 1 and same(
            s, v[2][0], h.e.term) for v in st), h, 'a node feeds the one '
            'before it on the path')
    cat = [h for h in rec if h.e.loops and over(
        s, h.e.loops[-1], 'path_unit.path_lists', 'path_unit')
        and h.b['_n'][0] == 'alloc']
    ck.need('cat-inputs', [h for h in cat if whole(s, h.e.loops[-1]) and
                           len(h.b['_n'][2]) == 1 and s.find(
                               h.b['_n'][2][0],
                               'self._add_or_find_node(path_unit)')], s,
            'all inputs of a concatenation feed it, in order')
    cn = s.calls('self._connect_nexts(_c, next_nodes)')
    D = {'isinstance(path_unit, PathList)': False,
         'isinstance(path_unit, Path)': False,
         'isinstance(path_unit, PathNode)': True}
    for k in (True, False):
        d = dict(D)
        d['isinstance(path_unit, PathConcatNode)'] = k
        ck.ob('path-link', bool(cn) and case(s, f_or(
            *[h.e.guard for h in cn]), d) is True, s, 'every node is linked '
            'to its successors')
    s = ck.fn('PathToGraphConverter._connect_nexts', opaque=('connect',))
    ck.need('link-next', [h for h in s.calls('self.graph.connect(node, _n)')
                          if h.e.loops and whole(s, h.e.loops[-1]) and
                          h.unconditional and s.m.match(
                              'ELEM(nexts)', h.b['_n']) is not None], s,
            'a node is linked to all its successors')
    # appending keeps what is there
    for c, f in (('Path', '_nodes'), ('PathList', '_paths')):
        s = ck.fn(c + '.append')
        ck.need('append-' + c, [h for h in s.calls('self.%s.append(x)' % f)
                                if h.unconditional], s, 'what is appended '
                'is kept')
        s = ck.fn(c + '.__iter__')
        ys = s.kind('yield')
        rs = [h for h in s.returns() if h.e.value != NONE]
        ck.ob('iter-' + c, any(h.e.loops and whole(s, h.e.loops[-1]) and
                               h.unconditional and over(
                                   s, h.e.loops[-1], 'self.' + f)
                               for h in ys) or any(s.find(
                                   h.e.value, 'iter(self.%s)' % f)
                                   for h in rs), s, 'all are visited')
    # node converter of fx graphs
    s = ck.fn('FxTracerToGraphConverter._node_converter', opaque=(
        'is_function', 'is_input', 'is_output', 'is_method', 'is_get_attr',
        'is_module', 'function', 'method', 'module'))
    kinds = (('is_function', 'node.function()'),
             ('is_input', "'input_placeholder'"),
             ('is_output', "'output_placeholder'"),
             ('is_method', 'node.method()'), ('is_module', 'node.module()'))
    for h in s.returns():
        for g, t in leaves(s, h.e.value, h.e.guard):
            b = s.m.match('ModuleNode(node.name, _v)', t)
            ck.ob('fx-node', b is not None, h, 'a traced operation keeps '
                  'its name')
            if b is None:
                continue
            for k, want in kinds:
                d = {'node.%s()' % q: q == k for q, _ in kinds}
                d['node.is_get_attr()'] = False
                for gg, v in leaves(s, b['_v'], g):
                    if case(s, gg, d) is True:
                        ck.ob('fx-kind', s.m.match(want, v) is not None, h,
                              'a traced operation is represented by what it '
                              'runs [%s]' % k)


def check(ck):
    ck.sections(check_edges, check_copy, check_results, check_topo, check_insert,
                check_elem, check_tensor, check_nodes, check_sides,
                check_mapping,
                check_channel_graph, check_parsers, check_trace,
                check_analyze, check_paths)
