"""C37 histories, lower comps and attribute origins are reported truly."""
import itertools
from mc import lib, docgen, refcomp, compcheck
from mc.core import expect, expect_eq
from nxt.stage import get_historical_opinions
from nxt.nxt_layer import get_node_local_attr_names
from nxt.nxt_node import META_ATTRS

LEVEL = 'exploration'
RULE = ('every two layer document over four nodes with nested paths, '
        'instances and every declaring pair of sites; inferred lower nodes '
        'against really composing the lower layers, opinion histories and '
        'attribute origins against the reference order of sources.  '
        'Non-trivial: distinct histories')
ASSUME = ['the lower comp has the same nodes as the upper one (a node that '
          'does not exist lower has no lower comp)']
P = ['/aa', '/aa/bb', '/aaa', '/aaa/bb', '/']
S = refcomp.S


def BOUNDS(tier):
    return {'nodes': P, 'layers': 2 if tier == 'quick' else 3,
            'instances_in_top_layer': tier != 'quick'}


def attrs_of(stage, node):
    if node is None:
        return None
    return {a: (getattr(node, a), stage.get_node_attr_source(node, a))
            for a in stage.get_node_attr_names(node)}


def run(case, ctx):
    layers = [{'path': docgen.lp(i), 'nodes': docgen.skeleton(P, c)}
              for i, c in enumerate(case)]
    docgen.declare(layers)
    for i, l in enumerate(layers):
        for p, n in l['nodes'].items():
            # a falsy opinion is an opinion
            n.setdefault('attrs', {})['zero'] = {'value': 0 if i else ''}
    m = compcheck.model(layers)
    if isinstance(m, str):
        ctx.count('out_of_scope_' + m)
        return
    lows = {}
    for d in range(1, len(layers)):
        lm = compcheck.model(layers[d:])
        if isinstance(lm, str) or lm.nodes != m.nodes:
            continue
        lows[d] = lm
    stage = lib.mk_stage(layers)
    comp = stage.build_stage()
    for d in lows:
        low = stage.build_stage(d)
        for t in m.nodes:
            got = stage.infer_lower_comp(comp.lookup(S(t)), comp, depth=d)
            expect_eq(attrs_of(stage, got),
                      attrs_of(stage, low.lookup(S(t))), 'lower-comp',
                      (S(t), d))
            ctx.count('inferred')
    for t in m.nodes:
        history(stage, comp, m, t, layers, ctx)
        origins(stage, comp, m, t, layers, ctx)


def history(stage, comp, m, t, layers, ctx):
    n = comp.lookup(S(t))
    local = t in m.specs
    order = m.order(t)
    for a in m.attr_names(t):
        want = []
        for i, u in order:
            at = layers[i]['nodes'][S(u)].get('attrs', {}).get(a)
            if at is not None:
                want.append({'source': (layers[i]['path'], S(u)),
                             'value': at['value']})
        got = [{'source': tuple(h[META_ATTRS.SOURCE]),
                'value': h[META_ATTRS.VALUE]} for h in
               get_historical_opinions(n, a, comp, include_local=True)]
        expect(got == want, 'history', lambda: '%s.%s got %r want %r' % (
            S(t), a, got, want))
        ctx.nontrivial(tuple((h['source'], h['value']) for h in want))
        if local and a in set().union(*(
                layers[i]['nodes'][S(t)].get('attrs', {})
                for i in m.specs[t])):
            rest = get_historical_opinions(n, a, comp)
            expect_eq(len(rest), len(want) - 1, 'history-rest', (S(t), a))
        if not local:
            # A mirrored node has no opinion of its own
            rest = get_historical_opinions(n, a, comp)
            expect_eq([(tuple(h[META_ATTRS.SOURCE]), h[META_ATTRS.VALUE])
                       for h in rest], [(h['source'], h['value'])
                                        for h in want],
                      'history-mirrored', (S(t), a))


def origins(stage, comp, m, t, layers, ctx):
    n = comp.lookup(S(t))
    p = S(t)
    local = set()
    for i in m.specs.get(t, ()):
        local |= set(layers[i]['nodes'][p].get('attrs', {}))
    expect_eq(sorted(get_node_local_attr_names(p, stage._sub_layers)),
              sorted(local), 'local-attrs', p)
    inh = stage.get_node_inherited_attr_names(n, comp)
    inst = stage.get_node_instanced_attr_names(n, comp)
    every = m.attr_names(t)
    expect_eq(sorted(local | set(inh) | set(inst)), sorted(every),
              'origins-incomplete', p)
    expect(len(inh) == len(set(inh)) and len(inst) == len(set(inst)),
           'origins-repeat', p)
    expect(not (set(inh) & set(inst)), 'origins-overlap',
           lambda: (p, inh, inst))
    expect(not (set(inh) & local) and not (set(inst) & local),
           'origins-not-local', lambda: (p, inh, inst, local))
    parents, cur = set(), m.parent_of(t)
    while cur is not None:
        for i in m.specs.get(cur, ()):
            parents |= set(layers[i]['nodes'][S(cur)].get('attrs', {}))
        cur = m.parent_of(cur)
    want = [l for l in stage._sub_layers if p in
            layers[stage._sub_layers.index(l)]['nodes']]
    expect_eq(stage.get_layers_with_opinion(p), want, 'layers-with-node', p)
    for a in every | {'nope'}:
        w = [l for l in want if a in layers[stage._sub_layers.index(l)][
            'nodes'][p].get('attrs', {})]
        expect_eq(stage.get_layers_with_opinion(p, attr_name=a), w,
                  'layers-with-attr', (p, a))
    if want:
        expect_eq(stage.get_node_source_layer(n), want[0], 'source-layer', p)


def cases(tier):
    plain = list(itertools.product(*[(None, '')] * 4, (None,)))
    every = list(itertools.product(*([docgen.inst_options(P[:4], p)
                                      for p in P[:4]] + [(None, '')])))
    if tier == 'quick':
        tops = plain
    else:
        tops = every
    for a in tops:
        for b in every:
            if sum(1 for x in b if x) > 2 and tier == 'quick':
                continue
            yield a, b
    if tier != 'quick':
        for a in plain:
            for b in plain:
                for c in every:
                    yield a, b, c
    else:
        for a in plain[::3]:
            for b in plain[::2]:
                for c in every:
                    if sum(1 for x in c if x) <= 1 and c[4] is not None:
                        yield a, b, c


def parts(tier):
    return [('docs', lambda: cases(tier), run)]
