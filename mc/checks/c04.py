"""C04 mute, solo and start layer decide which layers contribute."""
import itertools
from mc import compcheck, docgen, lib, refcomp
from mc.core import expect, expect_eq
from nxt.stage import Stage
from nxt.nxt_layer import get_active_layers

LEVEL = 'exploration'
RULE = ('every combination of local mute/solo flags and of mute/solo '
        'override entries held by each ancestor layer, over a reference '
        'chain/tree of layers, from every start layer; non-trivial = '
        'distinct settings in which at least one layer is left out')
P = ['/doc/l0.nxt', '/doc/l1.nxt', '/doc/l2.nxt', '/doc/l3.nxt']
NODES = [{'/a': {}, '/t0': {}},
         {'/a': {}, '/a/b': {}, '/b': {'instance': '/a'}},
         {'/a': {}, '/b': {'instance': '/c'}, '/c': {}, '/c/k': {}},
         {'/': {}, '/a': {'instance': '/c'}, '/a/b': {'instance': ''}}]
CHAIN = [None, 0, 1, 2]
TREE = [None, 0, 0, 1]


def BOUNDS(tier):
    return {'layers': 3 if tier == 'quick' else 4,
            'override_holders': 'every ancestor', 'start_layers': 'all'}


def ancestors(par, i):
    out = []
    while par[i] is not None:
        i = par[i]
        out.append(i)
    return out


def case_fn(case, ctx):
    n, par, local, overs, setter, frm = case
    layers = [{'path': P[i], 'nodes': {k: dict(v) for k, v in
                                       NODES[i].items()}}
              for i in range(n)]
    docgen.declare(layers)
    stage = Stage(name='mc')
    stage.remove_sublayer(0)
    real = []
    for i, l in enumerate(layers):
        kw = {}
        mine = {P[j]: {k: v for k, v in zip(('mute', 'solo'), o)
                       if v is not None}
                for (h, j), o in overs
                if h == i and o != (None, None)}
        if mine and not setter:
            kw['comp_overrides'] = mine
        kw['parent_layer'] = real[par[i]] if par[i] is not None else None
        d = lib.layer_data(l['nodes'], l['path'], alias='l%d' % i)
        d.update(kw)
        real.append(stage.new_layer(i, d))
    if setter:
        for h, j in sorted((x for x, _ in overs), reverse=True):
            o = dict(overs)[h, j]
            if o[0] is not None:
                real[h].set_mute_over(P[j], o[0])
            if o[1] is not None:
                real[h].set_solo_over(P[j], o[1])
    for i, (m, s) in enumerate(local):
        real[i].set_muted(m)
        real[i].set_soloed(s)
    od = dict(overs)
    eff = []
    for i in range(n):
        m, s = local[i]
        entry = None
        for h in ancestors(par, i):     # outermost entry wins
            e = od.get((h, i))
            if e and any(v is not None for v in e):
                entry = e
        if entry:
            m = m if entry[0] is None else entry[0]
            s = s if entry[1] is None else entry[1]
        expect_eq(bool(real[i].get_muted()), m, 'effective-mute', (i, case))
        expect_eq(bool(real[i].get_soloed()), s, 'effective-solo', (i, case))
        expect_eq((real[i].get_muted(local=True),
                   real[i].get_soloed(local=True)), local[i], 'local-flags')
        eff.append((m, s))
    idx = list(range(frm, n))
    solo = [i for i in idx if eff[i][1]]
    act = [i for i in (solo or idx) if not eff[i][0]]
    expect_eq([x.real_path for x in get_active_layers(real[frm:])],
              [P[i] for i in act], 'active-layers')
    if len(act) < n:
        ctx.nontrivial(case)
    comp = stage.build_stage(from_idx=frm)
    expect(not comp.failure, 'comp-failure', comp.failure)
    m = compcheck.model([layers[i] for i in act])
    if isinstance(m, str):
        ctx.count('out_of_scope_' + m)
        return
    compcheck.nodes(stage, comp, m)
    compcheck.attrs(stage, comp, m, meta=False)
    compcheck.fields(stage, comp, m)


FLAGS = [(m, s) for m in (False, True) for s in (False, True)]
OV = [(m, s) for m in (None, False, True) for s in (None, False, True)]


def parts(tier):
    q = tier == 'quick'

    def flags():
        n = 4
        for par in (CHAIN, TREE):
            for local in itertools.product(FLAGS, repeat=n):
                for frm in range(n):
                    yield n, par, local, (), False, frm

    def overs():
        n = 3
        for par in (CHAIN, TREE):
            slots = [(h, i) for i in range(n) for h in ancestors(par, i)]
            for ov in itertools.product(OV, repeat=len(slots)):
                t = tuple(zip(slots, ov))
                locs = itertools.product(FLAGS, repeat=n) if not q else \
                    [((False, False),) * 3,
                     ((True, False), (False, True), (True, True)),
                     ((False, True), (True, False), (False, False))]
                for local in locs:
                    for frm in ((0,) if q else (0, 1)):
                        yield n, par, tuple(local), t, False, frm

    def setters():
        n = 3
        for par in (CHAIN, TREE):
            # entries held by the top layer, set through the api
            slots = [(0, i) for i in range(1, n)]
            for ov in itertools.product(OV, repeat=len(slots)):
                for local in itertools.product(FLAGS[:3], repeat=n):
                    yield n, par, local, tuple(zip(slots, ov)), True, 0
    return [('flags', flags, case_fn), ('overrides', overs, case_fn),
            ('set_over', setters, case_fn)]
