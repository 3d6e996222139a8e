"""C03 an instance mirrors its source; composition always terminates."""
import itertools
from mc import compcheck, docgen, lib
from mc.core import expect
from mc.checks.c02 import U5, U4, U6, REL_TARGETS

LEVEL = 'exploration'
RULE = ('every instance skeleton over the node universes (each node absent, '
        'plain, explicitly blank, or instancing any other, itself included), '
        'and every assignment of code/comment/enabled opinions along chains; '
        'non-trivial = distinct documents that contain an instance arc')
ASSUME = ['for cyclic, contradictory or non-linearizable instance graphs '
          'only termination without an exception is decided']
CASE_TIMEOUT = 20


def BOUNDS(tier):
    return {'universes': [U5, U4, DEEP] + ([] if tier == 'quick' else [U6])}


def run(layers, case, ctx):
    if any(n.get('instance') for l in layers for n in l['nodes'].values()):
        ctx.nontrivial(case)
    for i, l in enumerate(layers):
        for p, n in l['nodes'].items():
            n.setdefault('attrs', {'x': {'value': p}})
    m = compcheck.model(layers)
    stage = lib.mk_stage(layers)
    comp = stage.build_stage()
    if isinstance(m, str):
        ctx.count('termination_only_' + m)
        return
    expect(not comp.failure, 'comp-failure', comp.failure)
    compcheck.nodes(stage, comp, m)
    compcheck.fields(stage, comp, m)
    compcheck.children(stage, comp, m)


def one(case, ctx):
    paths, choice = case
    nodes = docgen.skeleton(paths, choice)
    for i, p in enumerate(nodes):
        if i % 2:
            nodes[p]['code'] = ['# ' + p]
        elif i % 3 == 0:
            nodes[p]['comment'] = 'about ' + p
            nodes[p]['enabled'] = False
    run([{'path': docgen.lp(0), 'nodes': nodes}], case, ctx)


def many(case, ctx):
    paths, choices = case
    run([{'path': docgen.lp(i), 'nodes': docgen.skeleton(paths, c)}
         for i, c in enumerate(choices)], case, ctx)


# opinions along a chain /e -> /b -> /a (and their mirrored child)
OPINIONS = [{}, {'code': ['x']}, {'comment': 'c'}, {'enabled': False},
            {'enabled': True}, {'execute_in': '/z'}, {'start_point': True},
            {'comment': '', 'code': ['']}]


def chain(case, ctx):
    ops, child = case
    nodes = {'/a': {}, '/ab': {'instance': '/a'}, '/aba': {'instance': '/ab'}}
    if child:
        nodes = {'/a': {}, '/a/k': {}, '/ab': {'instance': '/a'},
                 '/aba': {'instance': '/ab'}}
        spots = ['/a/k', '/ab/k', '/aba/k']
    else:
        spots = ['/a', '/ab', '/aba']
    for p, o in zip(spots, ops):
        if o is None:
            continue
        n = nodes.setdefault(p, {})
        for k, v in OPINIONS[o].items():
            n[k] = [p] if k == 'code' and v != [''] else v
    run([{'path': docgen.lp(0), 'nodes': nodes}], case, ctx)


DEEP = ['/a', '/a/b/c', '/a/b/c/d', '/i', '/i/b', '/ib', '/i/b/c']


def parts(tier):
    q = tier == 'quick'

    def ones():
        for c in itertools.product(*[docgen.inst_options(U5, p) + ['!', p]
                                     for p in U5]):
            if q and sum(1 for x in c if x == '!') > 1:
                continue
            yield U5, c
        # implied levels, deep mirrored trees
        opts = {'/i': [None, '', '/a', '/a/b', '/ib'],
                '/ib': [None, '', '/a', '/a/b', '/i', '/i/b'],
                '/i/b': [None, '', '!', '/a/b'],
                '/i/b/c': [None, '', '!'],
                '/a': [None, '', '/ib']}
        for c in itertools.product(*[opts.get(p, [None, '', ])
                                     for p in DEEP]):
            yield DEEP, c
        if not q:
            for c in itertools.product(*[docgen.inst_options(U6, p)
                                         for p in U6]):
                yield U6, c

    def manys():
        weak = list(itertools.product(*[docgen.inst_options(U4, p)
                                        for p in U4]))
        mid = list(itertools.product([None, '', '!'], repeat=4))
        for s in mid:
            for w in weak:
                yield U4, (s, w)
        for s in weak:
            for w in weak:
                if sum(1 for x in s + w if x) <= (2 if q else 4):
                    yield U4, (s, w)

    def chains():
        o = [None] + list(range(len(OPINIONS)))
        for child in (0, 1):
            for c in itertools.product(o, repeat=3):
                if not child and None in c:
                    continue
                yield c, child
    return [('one_layer', ones, one), ('layers', manys, many),
            ('chains', chains, chain)]
