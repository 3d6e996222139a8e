"""C02 attribute inheritance order through parents and instances."""
import itertools
from mc import compcheck, docgen, lib
from mc.core import expect

LEVEL = 'exploration'
RULE = ('every instance skeleton over the node universe (each node absent, '
        'plain, or instancing any other) x layers, with one attribute per '
        'pair of declaring sites so that the values read at a node spell the '
        'whole lookup order; non-trivial = distinct in-scope documents where '
        'some node reads an attribute declared elsewhere')
ASSUME = ['documents whose instance arcs are cyclic, contradict each other '
          'below an instance, or have no consistent (C3) linearization are '
          'out of scope: the code reports those as a comp failure']
U5 = ['/a', '/a/c', '/ab', '/ab/c', '/aa']
U4 = ['/a', '/a/c', '/ab', '/ab/c']
U6 = ['/a', '/a/c', '/a/c/d', '/ab', '/ab/c', '/aa']
REL = {'/a': ['../ab', './../ab', 'c', '../aa'], '/a/c': ['../../ab', '../d'],
       '/ab': ['../aa', '/aa/'], '/aa': ['../ab/c']}


def BOUNDS(tier):
    return {'one_layer_nodes': U5 if tier == 'quick' else U6,
            'two_layer_nodes': U4, 'layers': 2 if tier == 'quick' else 3}


def run(layers, case, ctx, masks='pairs'):
    docgen.declare(layers, masks)
    m = compcheck.model(layers)
    if isinstance(m, str):
        ctx.count('out_of_scope_' + m)
        return
    stage = lib.mk_stage(layers)
    comp = stage.build_stage()
    expect(not comp.failure, 'comp-failure', comp.failure)
    compcheck.attrs(stage, comp, m, meta=masks != 'pairs2')
    if any(u != t for t in m.nodes for _i, u in m.order(t)):
        ctx.nontrivial(case)


def one(case, ctx):
    paths, world, choice = case
    nodes = docgen.skeleton(paths, choice)
    if world:
        nodes['/'] = {}
    if nodes:
        run([{'path': docgen.lp(0), 'nodes': nodes}], case, ctx)


def many(case, ctx):
    paths, choices = case
    layers = [{'path': docgen.lp(i), 'nodes': docgen.skeleton(paths, c)}
              for i, c in enumerate(choices)]
    run(layers, case, ctx)


REL_TARGETS = ['../ab', './../ab', '../aa', '../../ab', '../ab/c', 'c', '../c',
               '..', '.', './c', '../a', '../../aa', '../nope', '/nope']


def rel(case, ctx):
    a, b, paths = case
    nodes = {p: {} for p in paths}
    nodes[a[0]]['instance'] = a[1]
    if b:
        nodes[b[0]]['instance'] = b[1]
    run([{'path': docgen.lp(0), 'nodes': nodes}], case, ctx)


def parts(tier):
    q = tier == 'quick'

    def ones():
        for w in (False, True):
            for c in itertools.product(*[docgen.inst_options(U5, p)
                                         for p in U5]):
                yield U5, w, c
        if not q:
            for c in itertools.product(*[docgen.inst_options(U6, p)
                                         for p in U6]):
                yield U6, True, c

    def manys():
        weak = list(itertools.product(*[docgen.inst_options(U4, p)
                                        for p in U4]))
        strong = list(itertools.product([None, '', '!'], repeat=4))
        for s in strong:
            for w in weak:
                yield U4, (s, w)
        # the strong layer brings the instance
        for s in weak:
            if sum(1 for x in s if x) > 2 and q:
                continue
            for w in itertools.product([None, ''], repeat=4):
                yield U4, (s, w)
        if not q:
            for s in itertools.product([None, ''], repeat=4):
                for t in itertools.product([None, '!', ''], repeat=4):
                    for w in weak:
                        if sum(1 for x in w if x) <= 2:
                            yield U4, (s, t, w)

    def rels():
        paths = ('/a', '/a/c', '/ab', '/ab/c', '/aa')
        ones_ = [(p, r) for p in paths for r in REL_TARGETS]
        for a in ones_:
            yield a, None, paths
            for b in ones_:
                if a[0] < b[0]:
                    yield a, b, paths
    return [('one_layer', ones, one), ('layers', manys, many),
            ('relative', rels, rel)]
