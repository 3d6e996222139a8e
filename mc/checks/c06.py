"""C06 child order merging."""
import itertools
from mc import lib
from mc.core import expect, expect_eq
from nxt.nxt_layer import LayerReturnTypes as R

LEVEL = 'exploration'
RULE = ('every child order (ordered selection of names, or none) at every '
        'layer of a node and of its instance source, with every choice of '
        'which children exist where; non-trivial = distinct documents where '
        'two opinions order the same node')
NAMES = ['bb', 'abb', 'bba', 'aa']


def BOUNDS(tier):
    return {'names': 3 if tier == 'quick' else 4, 'layers': 3,
            'instance_chain': 2}


def orders(names):
    out = []
    for r in range(len(names) + 1):
        out += [list(p) for p in itertools.permutations(names, r)]
    return out


def spec_order(order, kids):
    """What a layer alone says: its saved order, then its other children."""
    return order, [k for k in kids if k not in order]


def subseq(xs, ys):
    it = iter(ys)
    return all(x in it for x in xs)


def check_node(stage, comp, path, opinions, kids):
    """opinions: strongest first, [(order, others)]"""
    got = list(stage.get_node_child_order(comp.lookup(path)))
    expect(len(got) == len(set(got)), 'order-duplicates', got)
    seen = []
    for order, others in opinions:
        new = [x for x in order if x not in seen]
        expect(subseq(new, got), 'order-not-kept', lambda: (
            path, got, opinions))
        seen += new + [x for x in others if x not in seen]
    expect(set(got) <= set(seen) | set(kids), 'order-unknown-name',
           lambda: (path, got, opinions))
    expect(set(seen) <= set(got), 'order-name-lost', lambda: (
        path, got, opinions))
    # real children come back in exactly that order
    cp = [p.rsplit('/', 1)[1] for p in comp.children(path, R.Path,
                                                     ordered=True)]
    expect_eq(cp, [k for k in got if k in kids], 'ordered-children', path)
    cn = [getattr(n, lib.A.NAME) for n in comp.children(path, R.Node,
                                                        ordered=True)]
    expect_eq(cn, cp, 'ordered-child-nodes', path)
    expect_eq([p.rsplit('/', 1)[1] for p in comp.descendants(
        path, R.Path, ordered=True)], cp, 'ordered-descendants', path)


def layers_case(case, ctx):
    """case: per layer None or (order, kids)"""
    layers, ops, kids = [], [], set()
    for i, c in enumerate(case):
        nodes = {}
        if c is not None:
            order, ks = c
            nodes['/p'] = {'child_order': list(order)} if order else {}
            for k in ks:
                nodes['/p/' + k] = {}
            ops.append(spec_order(list(order), ks))
            kids |= set(ks)
        layers.append({'path': '/doc/l%d.nxt' % i, 'nodes': nodes})
    if sum(1 for c in case if c and c[0]) > 1:
        ctx.nontrivial(case)
    if not ops:
        return
    stage = lib.mk_stage(layers)
    comp = stage.build_stage()
    check_node(stage, comp, '/p', ops, kids)
    for i, c in enumerate(case):
        if c is not None:
            spec = list(stage.get_node_child_order(
                stage._sub_layers[i].lookup('/p')))
            expect(subseq(c[0], spec), 'spec-order', (spec, c))
            expect_eq(sorted(spec), sorted(set(c[0]) | set(c[1])),
                      'spec-order-names')


def inst_case(case, ctx):
    """/p instances /q, /q instances /r; each (order, kids)"""
    nodes = {}
    paths = ['/p', '/q', '/r'][:len(case)]
    for i, (p, (order, ks)) in enumerate(zip(paths, case)):
        nodes[p] = {'child_order': list(order)} if order else {}
        if i + 1 < len(paths):
            nodes[p]['instance'] = paths[i + 1]
        for k in ks:
            nodes[p + '/' + k] = {}
    ctx.nontrivial(case)
    stage = lib.mk_stage([{'path': '/doc/l.nxt', 'nodes': nodes}])
    comp = stage.build_stage()
    for i, p in enumerate(paths):
        ops = [spec_order(list(o), ks) for o, ks in case[i:]]
        kids = set()
        for _o, ks in case[i:]:
            kids |= set(ks)
        check_node(stage, comp, p, ops, kids)


def parts(tier):
    q = tier == 'quick'
    names = NAMES[:3] if q else NAMES

    def lc():
        one = [None] + [(tuple(o), ks) for o in orders(names)
                        for ks in ((), tuple(names[:1]), tuple(names[1:]),
                                   tuple(names))]
        for c in itertools.product(one, repeat=2):
            yield c
        small = [None] + [(tuple(o), ks) for o in orders(NAMES[:3])
                          for ks in ((), ('bba', 'bb'))]
        for c in itertools.product(small, repeat=3):
            yield c
        wide = [(tuple(o), ()) for o in orders(NAMES)]
        for c in itertools.product(wide, repeat=2):
            yield c

    def ic():
        one = [(tuple(o), ks) for o in orders(names)
               for ks in ((), tuple(names[:2]), tuple(names))]
        for c in itertools.product(one, repeat=2):
            yield c
        small = [(tuple(o), ks) for o in orders(NAMES[:3])
                 for ks in ((), ('abb', 'bba'))]
        for c in itertools.product(small, repeat=3):
            yield c
    return [('layers', lc, layers_case), ('instances', ic, inst_case)]
