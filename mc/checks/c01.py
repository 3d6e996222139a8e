"""C01 layer strength: what a stack of layers says about one node."""
import itertools
from mc import compcheck, lib
from mc.core import expect_eq

LEVEL = 'exploration'
RULE = ('every stack of layers within the bounds in which each layer is '
        'absent from / empty at / has an opinion on each of the nodes; '
        'attributes cover every (ordered) pair of declaring sites; '
        'non-trivial = distinct documents in which at least two layers hold '
        'opinions on the same node')
ASSUME = ['no instances in these documents (C02, C03 cover them)']

VALUES = [None, '', '0', 0, False, 'v', 1, True, ['x'], {'k': 1}, [], 1.5]


def B(tier):
    return dict(layers=3 if tier == 'quick' else 4,
                nodes=['/', '/a', '/a/b', '/a/b/c'], fields=len(OPS),
                values=len(VALUES))


def path(i):
    return '/doc/l%d.nxt' % i


def sites_case(case, ctx):
    """case: per layer, the tuple of node paths present in it."""
    layers = []
    sites = [(i, p) for i, ps in enumerate(case) for p in ps]
    for i, ps in enumerate(case):
        nodes = {}
        for p in ps:
            at = {}
            for k, (j, q) in enumerate(sites):
                if (j, q) == (i, p):
                    at['own%d' % k] = {'value': '%d%s' % (i, p)}
            for k, pair in enumerate(itertools.combinations(sites, 2)):
                if (i, p) in pair:
                    at['pair%d' % k] = {'value': '%d%s' % (i, p)}
            at['all'] = {'value': '%d%s' % (i, p), 'type': 'raw',
                         'comment': 'c%d%s' % (i, p)}
            nodes[p] = {'attrs': at, 'code': ['# %d %s' % (i, p)]}
            if p != '/':
                nodes[p]['comment'] = 'n%d%s' % (i, p)
        layers.append({'path': path(i), 'nodes': nodes})
    if len(sites) > len({p for _i, p in sites}):
        ctx.nontrivial(case)
    compcheck.full(layers, ctx)


def subsets(xs):
    for n in range(len(xs) + 1):
        for c in itertools.combinations(xs, n):
            yield c


# one opinion on one field of node /a
OPS = [{}, {'code': ['x = 1']}, {'code': []}, {'comment': ''},
       {'comment': 'hi'}, {'enabled': True}, {'enabled': False},
       {'execute_in': '/e'}, {'execute_in': ''}, {'start_point': True},
       {'start_point': False}, {'code': ['']},
       {'code': ['y = 2'], 'comment': 'both', 'enabled': False,
        'execute_in': '/f', 'start_point': True}]


def field_case(case, ctx):
    layers = []
    for i, k in enumerate(case):
        if k is None:
            layers.append({'path': path(i), 'nodes': {}})
            continue
        n = {f: (['%s # %d' % (x, i) for x in v] if f == 'code' else
                 v + str(i) if f in ('comment', 'execute_in') and v else v)
             for f, v in OPS[k].items()}
        layers.append({'path': path(i), 'nodes': {'/a': n}})
    if sum(1 for k in case if k) > 1:
        ctx.nontrivial(case)
    compcheck.full(layers, ctx)


# how one layer declares attribute x of /a
DECL = [None, {}, {'value': None}] + [{'value': v} for v in VALUES[1:]] + [
    {'type': 'int', 'value': '5'}, {'comment': 'c'}, {'type': 'raw'},
    {'value': 'z', 'comment': '', 'type': 'raw'}]


def decl_case(case, ctx):
    layers = []
    for i, d in enumerate(case):
        nodes = {}
        if d != -1:
            nodes['/a'] = {'attrs': {}}
            if DECL[d] is not None:
                nodes['/a']['attrs']['x'] = dict(DECL[d])
        layers.append({'path': path(i), 'nodes': nodes})
    if sum(1 for d in case if d > 0) > 1:
        ctx.nontrivial(case)
    compcheck.full(layers, ctx)


LAYOUT = [None, {}, {'/a': 1}, {'/a/b': 2}, {'/a': 0, '/a/b': 3, '/x': 4}]


def layout_case(case, ctx):
    """Where nodes are placed and which are collapsed."""
    layers, want = [], ({}, {})
    for i, kinds in reversed(list(enumerate(case))):
        l = {'path': path(i), 'nodes': {'/a': {}, '/a/b': {}}}
        for key, k, w in zip(('positions', 'collapse'), kinds, want):
            d = LAYOUT[k]
            if d is None:
                continue
            if key == 'positions':
                d = {p: [float(v), -1.5 * i] for p, v in d.items()}
            else:
                d = {p: bool((v + i) % 2) for p, v in d.items()}
            w.update(d)
            if d or k:
                l.setdefault('meta_data', {})[key] = d
        layers.insert(0, l)
    ctx.nontrivial(case)
    stage = lib.mk_stage(layers)
    was = lib.docs(stage)
    comp = stage.build_stage()
    expect_eq(dict(comp.positions), want[0], 'positions', case)
    expect_eq(dict(comp.collapse), want[1], 'collapse', case)
    # They are the view's own
    comp.positions['/a/b'] = [9.0, 9.0]
    comp.collapse['/a/b'] = 'own'
    expect_eq(lib.docs(stage), was, 'document-changed', case)
    again = stage.build_stage()
    expect_eq((dict(again.positions), dict(again.collapse)), want,
              'layout-again', case)


BOUNDS = B


def parts(tier):
    q = tier == 'quick'
    ps = ['/', '/a', '/a/b', '/a/b/c']

    def sites():
        for n in range(1, 4 if q else 5):
            use = ps if n <= 3 else ps[1:]
            for c in itertools.product(list(subsets(use)), repeat=n):
                yield c

    def fieldc():
        ks = [None] + list(range(len(OPS)))
        for n in range(1, 4 if q else 5):
            for c in itertools.product(ks, repeat=n):
                yield c

    def decls():
        ks = [-1] + list(range(len(DECL)))
        for n in range(1, 4):
            for c in itertools.product(ks, repeat=n):
                yield c
    def layouts():
        one = list(itertools.product(range(len(LAYOUT)), repeat=2))
        for n in (1, 2):
            for c in itertools.product(one, repeat=n):
                yield c
        same = [(i, i) for i in range(len(LAYOUT))]
        for c in itertools.product(same, repeat=3):
            yield c
    return [('layout', layouts, layout_case), ('sites', sites, sites_case), ('fields', fieldc, field_case),
            ('declarations', decls, decl_case)]
