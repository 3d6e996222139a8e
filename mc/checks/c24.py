"""C24 execution order."""
import itertools
from mc import lib, probe
from mc.core import expect, expect_eq
from nxt.nxt_layer import LayerReturnTypes as R
from nxt import nxt_node

LEVEL = 'model_checking'
RULE = ('every forest of up to 5 nodes, every child order, every assignment '
        'of enabled/disabled to its nodes, every start node; every graph of '
        'execute-in links between 3 (4) roots including cycles; the same '
        'spread over two layers and below instances; the order is computed '
        'and, with recording code in every node, run; non-trivial = distinct '
        '(document, start)')
ASSUME = ['a start node beneath a disabled node that is not a root is left '
          'out of scope, as is which of two roots that execute in the same '
          'root comes next']

FORESTS = [
    ['/a', '/a/b', '/a/c', '/a/b/d'],
    ['/a', '/a/b', '/a/c', '/a/b/d', '/a/c/e'],
    ['/a', '/a/b', '/a/b/d', '/a/b/d/e'],
    ['/a', '/a/b', '/a/c', '/a/d'],
    ['/a', '/a/b', '/x', '/x/b'],
    ['/a', '/a/aa', '/aa', '/aa/a'],
    ['/a', '/a/b', '/a/bb', '/a/b/bb', '/a/bb/b'],
]


def BOUNDS(tier):
    return {'forests': len(FORESTS), 'enabled_states': 3 if tier != 'quick'
            else 2, 'roots_in_link_graphs': 3 if tier == 'quick' else 4}


def preorder(comp, root):
    out = [root]
    for c in comp.children(root, R.Path, ordered=True):
        out += preorder(comp, c)
    return out


def is_under(p, a):
    return p.startswith(a + '/')


def chains(comp, root):
    """Every admissible order of roots."""
    links = {}
    for p in comp.children('/', R.Path):
        e = getattr(comp.lookup(p), '_execute_in', None)
        if e:
            links.setdefault(e, []).append(p)

    def walk(seq):
        nxt = [p for p in links.get(seq[-1], [])]
        if not nxt:
            yield seq
        for p in nxt:
            if p in seq:
                yield seq
            else:
                for s in walk(seq + [p]):
                    yield s
    return list(walk([root]))


def wanted(comp, start):
    root = '/' + start.split('/')[1]
    off = {p for p in lib.node_paths(comp) if p != '/' and
           nxt_node.get_node_enabled(comp.lookup(p)) is False}
    if any(is_under(start, p) for p in off - {root}):
        return None
    if start != root:
        # a start beneath a root is a choice against its disabled state
        off.discard(root)
    out = []
    for chain in chains(comp, root):
        seq = []
        for r in chain:
            pre = preorder(comp, r)
            if r == root:
                pre = pre[pre.index(start):]
            seq += [p for p in pre if p not in off and
                    not any(is_under(p, o) for o in off)]
        out.append(seq)
    return out


def judge(layers, ctx, run, starts=None):
    stage = lib.mk_stage(layers)
    comp = stage.build_stage()
    key = repr(layers)
    ctx.state(key)
    for start in starts or sorted(lib.node_paths(comp) - {'/'}):
        want = wanted(comp, start)
        if want is None:
            ctx.count('start_below_disabled')
            continue
        got = comp.get_exec_order(start)
        ctx.nontrivial((key, start))
        ctx.transition()
        ctx.trace()
        expect(got in want, 'exec-order', lambda: '%r from %s: got %r want '
               'one of %r' % (layers, start, got, want))
        if run:
            probe.clear()
            rt = stage.execute(start=start)
            ran = list(probe.log)
            expect_eq(ran, got, 'ran', (layers, start))
            cached = [p for p in rt.cache_layer.nodes if p != '/']
            expect_eq(sorted(cached), sorted(got), 'cached', (layers, start))
            probe.clear()
            stage.execute_nodes(got, comp)
            expect_eq(probe.log, got, 'ran-nodes', (layers, start))


CODE = ['from mc import probe', 'probe.add(self._node_path)']


def orders(paths):
    """Child orders to try: document, and reversed for every parent."""
    kids = {}
    for p in paths:
        q = p.rsplit('/', 1)[0]
        if q:
            kids.setdefault(q, []).append(p.rsplit('/', 1)[1])
    opts = []
    for q, k in sorted(kids.items()):
        opts.append([(q, list(o)) for o in itertools.permutations(k)]
                    if len(k) > 1 else [(q, k)])
    return [dict(t) for t in itertools.product(*opts)]


def forests(tier):
    def gen():
        vals = (None, False) if tier == 'quick' else (None, False, True)
        for f in FORESTS:
            for o in orders(f):
                for en in itertools.product(vals, repeat=len(f)):
                    yield f, o, en
    return gen


def forest(case, ctx):
    f, o, en = case
    nodes = {}
    for p, e in zip(f, en):
        nodes[p] = {'code': CODE}
        if e is not None:
            nodes[p]['enabled'] = e
        if p in o:
            nodes[p]['child_order'] = list(o[p])
    judge([{'path': '/v/a.nxt', 'nodes': nodes}], ctx,
          run=en.count(False) <= 1)


def links(tier):
    n = 3 if tier == 'quick' else 4
    roots = ['/a', '/b', '/ab', '/c'][:n]

    def gen():
        opts = [None, '/gone'] + roots
        for t in itertools.product(opts, repeat=n):
            for off in [None] + roots:
                yield roots, t, off
    return gen


def link(case, ctx):
    roots, t, off = case
    nodes = {}
    for r, e in zip(roots, t):
        nodes[r] = {'code': CODE, 'child_order': ['z', 'k']}
        nodes[r + '/k'] = {'code': CODE}
        nodes[r + '/z'] = {'code': CODE}
        if e:
            nodes[r]['execute_in'] = e
        if r == off:
            nodes[r]['enabled'] = False
    # an execute_in on a child never chains
    nodes['/a/k']['execute_in'] = '/a'
    nodes['/a/z']['execute_in'] = '/b'
    judge([{'path': '/v/a.nxt', 'nodes': nodes}], ctx, run=off is None)


def stacked_cases():
    ps = ['/a', '/a/b', '/a/b/d', '/a/c']
    for up in itertools.product((0, 1, 2), repeat=len(ps)):
        # 0: lower only, 1: upper disables, 2: upper enables (lower disabled)
        for inst in (None, '/a', '/a/b'):
            for exec_in in (None, 'low', 'up', 'both'):
                yield ps, up, inst, exec_in


def stacked(case, ctx):
    ps, up, inst, exec_in = case
    lo, hi = {}, {}
    for p, u in zip(ps, up):
        lo[p] = {'code': CODE}
        if u == 1:
            hi[p] = {'enabled': False}
        if u == 2:
            lo[p]['enabled'] = False
            hi[p] = {'enabled': True}
    lo['/a']['child_order'] = ['c', 'b']
    hi['/a/n'] = {'code': CODE}
    if inst:
        hi['/i'] = {'instance': inst, 'code': CODE}
        hi['/i/own'] = {'code': CODE}
    root = '/i' if inst else '/a'
    lo['/q'] = {'code': CODE}
    lo['/r'] = {'code': CODE}
    if exec_in in ('low', 'both'):
        lo['/q']['execute_in'] = root
    if exec_in in ('up', 'both'):
        hi.setdefault('/q', {})['execute_in'] = \
            root if exec_in == 'up' else '/r'
    judge([{'path': '/v/a.nxt', 'nodes': hi},
           {'path': '/v/b.nxt', 'nodes': lo}], ctx, run=True)


def start_point_cases():
    for t in itertools.product((0, 1), repeat=4):
        yield t


def start_points(t, ctx):
    """Without a start the graph starts at a start point, or refuses."""
    ps = ['/a', '/b', '/b/c', '/d']
    nodes = {}
    for p, s in zip(ps, t):
        nodes[p] = {'code': CODE}
        if s:
            nodes[p]['start_point'] = True
    stage = lib.mk_stage([{'path': '/v/a.nxt', 'nodes': nodes}])
    comp = stage.build_stage()
    sp = stage.get_layer_start_nodes(comp)
    expect_eq(sorted(sp), [p for p, s in zip(ps, t) if s], 'start-nodes', t)
    probe.clear()
    ctx.nontrivial(t)
    if not any(t):
        try:
            stage.execute()
        except ValueError:
            expect_eq(probe.log, [], 'ran-something', t)
            return
        expect(False, 'no-start-accepted', t)
    stage.execute()
    expect_eq(probe.log[0] in sp, True, 'started-elsewhere', (t, probe.log))
    expect(probe.log in [w for s in sp for w in wanted(comp, s)], 'ran', t)
    # By index: some order of the start points, each at its own index
    firsts = []
    for i in range(len(sp)):
        probe.clear()
        stage.execute(start=i)
        firsts.append(probe.log[0])
        expect(probe.log in wanted(comp, probe.log[0]), 'ran-index', t)
    expect_eq(sorted(firsts), sorted(sp), 'start-index', t)
    probe.clear()
    try:
        stage.execute(start=len(sp))
        expect(False, 'start-index-accepted', t)
    except IndexError:
        expect_eq(probe.log, [], 'ran-something', t)
    try:
        stage.execute(start='/gone')
    except ValueError:
        return
    expect(False, 'unknown-start-accepted', t)


def parts(tier):
    return [('forests', forests(tier), forest),
            ('links', links(tier), link),
            ('stacked', stacked_cases, stacked),
            ('start-points', start_point_cases, start_points)]
