"""C36 layer queries agree with the set of nodes, after every edit."""
import itertools
from mc import lib
from mc.core import expect, expect_eq
from nxt.nxt_layer import LayerReturnTypes as R
from nxt import nxt_path

LEVEL = 'model_checking'
RULE = ('every sequence of node additions and deletions up to the depth '
        'bound over a node universe with implied parents; after every step '
        'every query of every return type, twice, is compared with the set '
        'of node paths')
ASSUME = ['queries on the spec layers use a node\'s literal parent; in a '
          'freshly composed layer a node whose parent has no opinion anywhere '
          'counts as child of its nearest existing ancestor']
U = ['/aa', '/aa/bb', '/aa/bb/cc', '/aa/bbb', '/ee/aa', '/ee/aa/bb', '/aaa']
# long gaps between a node and its nearest existing ancestor
DEEP = ['/aa', '/aa/bb/cc/dd', '/aa/bb/cc/ddd/ff', '/aa/bbb/cc', '/aaa/bb/cc',
        '/aa/bb/cc']
A = lib.A


def BOUNDS(tier):
    return {'universe': U, 'deep_universe': DEEP, 'depth': 4 if tier == 'quick' else 6}


def T(p):
    return () if p == '/' else tuple(p[1:].split('/'))


def S(t):
    return '/' + '/'.join(t)


def queries(layer, live, comp=False, paths=U + ['/', '/aa/bb/cc/zz', '/ee']):
    live = set(live)
    nodes = {T(p) for p in live if p != '/'}

    def nearest(t):
        for k in range(len(t) - 1, 0, -1):
            if t[:k] in nodes:
                return t[:k]
        return ()

    implied = {t[:k] for t in nodes for k in range(1, len(t))}
    for p in paths:
        t = T(p)
        n = layer.lookup(p)
        expect_eq(bool(n), p in live, 'lookup', p)
        expect_eq(layer.node_exists(p), p in live, 'node_exists', p)
        if n:
            expect_eq(layer.get_node_path(n), p, 'get_node_path')
            if t:
                expect_eq(getattr(n, A.NAME), t[-1], 'name')
                expect_eq(getattr(n, A.PARENT_PATH), S(t[:-1]), 'parent')
        if comp and t and t in nodes:
            kids = {c for c in nodes if nearest(c) == t}
        else:
            kids = {c for c in nodes if c[:-1] == t and c}
        kidp = sorted(map(S, kids))
        imp = {c[:len(t) + 1] for c in nodes
               if len(c) > len(t) and c[:len(t)] == t} | kids
        desc = {c for c in nodes if len(c) > len(t) and c[:len(t)] == t}
        impdesc = {c for c in nodes | implied
                   if len(c) > len(t) and c[:len(t)] == t}
        for _again in (0, 1):
            for o in (False, True):
                got = layer.children(p, R.Path, ordered=o)
                expect_eq(sorted(got), kidp, 'children-path', (p, o))
                got = layer.children(p, R.Node, ordered=o)
                expect_eq(sorted(layer.get_node_path(x) for x in got), kidp,
                          'children-node', (p, o))
                got = layer.children(p, R.NodeTable, ordered=o)
                expect_eq(sorted(x for x, _ in got), kidp, 'children-table',
                          (p, o))
                expect(all(layer.lookup(x) is y for x, y in got),
                       'children-table-nodes')
                expect_eq(bool(layer.children(p, R.Boolean, ordered=o)),
                          bool(kidp), 'children-bool', (p, o))
                got = layer.children(p, R.Path, ordered=o,
                                     include_implied=True)
                expect_eq(sorted(got), sorted(map(S, imp)),
                          'children-implied', (p, o))
            nd = layer.children(p, R.NameDict)
            expect_eq(sorted(nd), sorted({k[-1] for k in kids}),
                      'children-names', p)
            for name, node in nd.items():
                expect(layer.get_node_path(node) in kidp, 'children-name')
            got = layer.descendants(p, R.Path)
            full = desc
            if comp and t and t not in nodes:
                full = kids | {c for c in nodes for k in kids
                               if c[:len(k)] == k}
            elif not comp and t:
                # a spec layer walks literal children
                full, frontier = set(), {t}
                while frontier:
                    frontier = {c for c in nodes if c[:-1] in frontier}
                    full |= frontier
            fullp = sorted(map(S, full))
            expect_eq(sorted(got), fullp, 'descendants-path', p)
            got = layer.descendants(p, R.NodeTable)
            expect_eq(sorted(x for x, _ in got), fullp, 'descendants-table',
                      p)
            got = layer.descendants(p, R.Node)
            expect_eq(sorted(layer.get_node_path(x) for x in got), fullp,
                      'descendants-node', p)
            got = layer.descendants(p, R.Path, include_implied=True)
            expect_eq(sorted(set(got)), sorted(map(S, impdesc)),
                      'descendants-implied', p)
            if not comp:
                expect_eq(len(got), len(set(got)), 'descendants-implied-dup')
            if t:
                got = layer.descendants(p, R.Path, ordered=True)
                expect_eq(sorted(got), fullp, 'descendants-ordered', p)
                for x in got:
                    up = S(nearest(T(x)))
                    expect(up == p or up not in got or
                           got.index(up) < got.index(x),
                           'descendants-parent-first', (p, got))
                got = layer.descendants(p, R.Path, ordered=True,
                                        include_implied=True)
                expect_eq(sorted(set(got)), sorted(map(S, impdesc)),
                          'descendants-ordered-implied', p)
                seen = {p}
                for x in got:
                    expect(comp or S(T(x)[:-1]) in seen,
                           'descendants-implied-first',
                           (p, got))
                    seen.add(x)
        if n:
            anc = [S(t[:k]) for k in range(len(t) - 1, 0, -1)]
            real = [x for x in anc if x in live]
            expect_eq(list(layer.ancestors(p, R.Path)), real,
                      'ancestors-path', p)
            expect_eq([layer.get_node_path(x) for x in
                       layer.ancestors(n, R.Node)], real, 'ancestors-node')
            expect_eq([x for x, _ in layer.ancestors(p, R.NodeTable)], real,
                      'ancestors-table', p)
            expect_eq(bool(layer.ancestors(p, R.Boolean)), bool(real),
                      'ancestors-bool', p)
            expect_eq(list(layer.ancestors(p, R.Path, include_implied=True)),
                      anc, 'ancestors-implied', p)


def deep(case, ctx):
    history(case, ctx, DEEP)


DEEP_PATHS = DEEP + ['/', '/aa/bb', '/aa/bb/cc/ddd', '/aaa/bb', '/aa/bbb']


def history(case, ctx, universe=U):
    """case: sequence of universe indices; each adds or deletes the node."""
    more = () if universe is U else (DEEP_PATHS,)
    stage = lib.mk_stage([{'path': '/doc/l.nxt', 'nodes': {}}])
    layer = stage.top_layer
    live = set()
    for k, i in enumerate(case):
        p = universe[i]
        if p in live:
            ok, _ = stage.delete_node(layer.lookup(p), layer)
            expect(ok, 'delete-refused', p)
            live.discard(p)
        else:
            parent, name = p.rsplit('/', 1)
            nodes, _ = stage.add_node(name, parent=parent or '/',
                                      layer=layer, fix_names=False)
            expect_eq(layer.get_node_path(nodes[0]), p, 'adddd-path')
            live.add(p)
        ctx.transition()
        if k >= len(case) - 1 or k >= 1:
            queries(layer, live, False, *more)
        ctx.state(tuple(sorted(live)))
    comp = stage.build_stage()
    queries(comp, live, True, *more)
    ctx.trace()


def static(case, ctx):
    """every subset, split over two layers, with saved child orders"""
    a, b = case
    layers = []
    for i, ps in enumerate((a, b)):
        nodes = {}
        for p in ps:
            nodes[p] = {}
            if p == '/aa':
                nodes[p]['child_order'] = ['dd', 'bb', 'gone'] if i else [
                    'bb']
        layers.append({'path': '/doc/l%d.nxt' % i, 'nodes': nodes})
    stage = lib.mk_stage(layers)
    comp = stage.build_stage()
    queries(comp, set(a) | set(b), comp=True)
    for l, ps in zip(stage._sub_layers, (a, b)):
        queries(l, set(ps))
    ctx.state(case)
    ctx.transition()
    ctx.trace()


def parts(tier):
    d = 4 if tier == 'quick' else 6

    def hist():
        for n in range(1, d + 1):
            for c in itertools.product(range(len(U)), repeat=n):
                yield c

    def stat():
        for m in range(3 ** len(U)):
            a, b, x = [], [], m
            for p in U:
                if x % 3 == 1:
                    a.append(p)
                elif x % 3 == 2:
                    b.append(p)
                x //= 3
            yield tuple(a), tuple(b)
            yield tuple(a + ['/']), tuple(b + a[:2])

    def deeps():
        for n in range(1, d + 1):
            for c in itertools.product(range(len(DEEP)), repeat=n):
                yield c
    return [('histories', hist, history), ('deep', deeps, deep),
            ('documents', stat, static)]
