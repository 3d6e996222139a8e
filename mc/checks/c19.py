"""C19 layer settings: overrides, local values, and what they do."""
import copy
import itertools
import json
import os
from mc import lib
from mc.core import expect, expect_eq
from nxt.stage import Stage
from nxt.nxt_layer import get_active_layers

LEVEL = 'model_checking'
RULE = ''
ASSUME = ['mute and solo overrides are set on the top layer, as the editor '
          'does; a layer\'s own mute, solo and lock are not loaded from '
          'its file']
# top -> mid -> leaf, side
FILES = ['top.nxt', 'mid.nxt', 'leaf.nxt', 'side.nxt']
REFS = {'top.nxt': ['mid.nxt', 'side.nxt'], 'mid.nxt': ['leaf.nxt'],
        'leaf.nxt': [], 'side.nxt': []}
PARENT = {'top.nxt': None, 'mid.nxt': 'top.nxt', 'leaf.nxt': 'mid.nxt',
          'side.nxt': 'top.nxt'}
META = {'alias': 'aliases', 'color': 'colors', 'lock': 'locks'}
STARTS = [
    {},
    {'top.nxt': {'meta_data': {'aliases': {'leaf.nxt': 'T-leaf'},
                               'colors': {'mid.nxt': '#t'},
                               'locks': {'side.nxt': True}},
                 'comp_overrides': {'leaf.nxt': {'mute': True}}}},
    {'mid.nxt': {'meta_data': {'aliases': {'leaf.nxt': 'M-leaf'},
                               'colors': {'leaf.nxt': '#m'},
                               'locks': {'leaf.nxt': True}},
                 'comp_overrides': {'leaf.nxt': {'solo': True}}},
     'side.nxt': {'color': '#s', 'alias': 'SIDE'}},
    {'top.nxt': {'meta_data': {'aliases': {'leaf.nxt': 'T'},
                               'locks': {'leaf.nxt': False}},
                 'comp_overrides': {'leaf.nxt': {'mute': False}}},
     'mid.nxt': {'meta_data': {'aliases': {'leaf.nxt': 'M'},
                               'locks': {'leaf.nxt': True}},
                 'comp_overrides': {'leaf.nxt': {'mute': True,
                                                 'solo': True}}}},
]


def BOUNDS(tier):
    return {'layers': FILES, 'operations': len(ops()), 'starts': len(STARTS),
            'depth_all_operations': 2, 'depth_one_family':
            3 if tier == 'quick' else 4}


def ops():
    out = []
    for f in FILES:
        for v in (None, 'x', 'y'):
            out.append(('over-alias', f, v))
            out.append(('over-color', f, v))
        for v in (None, True, False):
            out.append(('over-lock', f, v))
        for v in (True, False):
            out.append(('over-mute', f, v))
            out.append(('over-solo', f, v))
            out.append(('mute', f, v))
            out.append(('solo', f, v))
            out.append(('lock', f, v))
        out.append(('alias', f, 'loc'))
        out.append(('color', f, '#loc'))
    out.append(('reload', None, None))
    return out


FAMILIES = [('over-alias', 'alias', 'reload'), ('over-color', 'color',
                                                'reload'),
            ('over-lock', 'lock', 'reload'),
            ('over-mute', 'over-solo', 'reload'),
            ('over-mute', 'mute'), ('over-solo', 'solo'), ('mute', 'solo')]


def fresh(start):
    """Model state: per layer local values, and override tables."""
    m = {}
    for f in FILES:
        d = STARTS[start].get(f, {})
        md = d.get('meta_data', {})
        m[f] = {'alias': d.get('alias', f), 'color': d.get('color'),
                'lock': False, 'mute': False, 'solo': False,
                'aliases': dict(md.get('aliases', {})),
                'colors': dict(md.get('colors', {})),
                'locks': dict(md.get('locks', {})),
                'comp': copy.deepcopy(d.get('comp_overrides', {}))}
    return m


def parents(f):
    out = []
    while PARENT[f]:
        f = PARENT[f]
        out.append(f)
    return out


def effective(m, f, k):
    if k in META:
        val = m[f][k]
        for p in [f] + parents(f):
            if f in m[p][META[k]]:
                val = m[p][META[k]][f]
        return val
    entry = {}
    for p in [f] + parents(f):
        entry = m[p]['comp'].get(f, entry)
    return entry.get(k, m[f][k])


def step(m, op):
    kind, f, v = op
    if kind.startswith('over-'):
        k = kind[5:]
        if k in META:
            if f == 'top.nxt':
                return
            t = m['top.nxt'][META[k]]
            if v is None:
                t.pop(f, None)
            else:
                t[f] = v
        else:
            m['top.nxt']['comp'].setdefault(f, {})[k] = v
    elif kind == 'reload':
        for f in FILES:
            m[f].update(lock=False, mute=False, solo=False)
    else:
        m[f][kind] = v


def do(st, op):
    kind, f, v = op
    if kind == 'reload':
        for l in st._sub_layers:
            l.save()
        return Stage.load_from_filepath('top.nxt')
    l = [x for x in st._sub_layers if x.filepath == f][0]
    if kind == 'over-alias':
        l.set_alias_over(v)
    elif kind == 'over-color':
        l.set_color_over(v)
    elif kind == 'over-lock':
        l.set_locked_over(v)
    elif kind == 'over-mute':
        st.top_layer.set_mute_over(f, v)
    elif kind == 'over-solo':
        st.top_layer.set_solo_over(f, v)
    elif kind == 'mute':
        l.set_muted(v)
    elif kind == 'solo':
        l.set_soloed(v)
    elif kind == 'lock':
        l.set_locked(v)
    elif kind == 'alias':
        l.set_alias(v)
    elif kind == 'color':
        l.color = v
    return st


def compare(st, m, case, build):
    ls = {l.filepath: l for l in st._sub_layers}
    expect_eq([l.filepath for l in st._sub_layers], FILES, 'layers')
    for f in FILES:
        l = ls[f]
        expect_eq(l.get_alias(), effective(m, f, 'alias'), 'alias', (case, f))
        expect_eq(l.get_alias(local=True), m[f]['alias'], 'local-alias',
                  (case, f))
        expect_eq(l.get_color(local=False), effective(m, f, 'color'),
                  'color', (case, f))
        expect_eq(l.get_color(local=True), m[f]['color'], 'local-color',
                  (case, f))
        expect_eq(l.get_locked(), effective(m, f, 'lock') or False, 'lock',
                  (case, f))
        expect_eq(l.get_locked(local=True), m[f]['lock'], 'local-lock',
                  (case, f))
        expect_eq(l.get_muted(), effective(m, f, 'mute'), 'mute', (case, f))
        expect_eq(l.get_muted(local=True), m[f]['mute'], 'local-mute',
                  (case, f))
        expect_eq(l.get_soloed(), effective(m, f, 'solo'), 'solo', (case, f))
        expect_eq(l.get_soloed(local=True), m[f]['solo'], 'local-solo',
                  (case, f))
        # nothing but the intended layer's tables changed
        d = lib.plain(l.get_save_data())
        md = d.get('meta_data', {})
        for k in META.values():
            expect_eq(md.get(k) or {}, m[f][k], 'table-' + k, (case, f))
        expect_eq(d.get('comp_overrides', {}), m[f]['comp'], 'table-comp',
                  (case, f))
        expect_eq(d['alias'], m[f]['alias'], 'saved-alias', (case, f))
        expect_eq(d.get('color'), m[f]['color'], 'saved-color', (case, f))
    solo = [f for f in FILES if effective(m, f, 'solo')]
    act = [f for f in (solo or FILES) if not effective(m, f, 'mute')]
    got = [l.filepath for l in get_active_layers(st._sub_layers)]
    expect_eq(got, act, 'active', case)
    by_alias = {}
    for f in FILES:
        by_alias.setdefault(effective(m, f, 'alias'), f)
    for a, f in by_alias.items():
        expect(st.get_layer(a) is ls[f], 'lookup-alias', (case, a))
    if not build:
        return
    comp = st.build_stage()
    n = comp.lookup('/aa')
    if not act:
        expect(n is None, 'muted-shown', case)
        return
    expect_eq(st.get_node_attr_value(n, 'who', comp), act[0], 'strongest',
              case)
    expect_eq(sorted(st.get_node_attr_names(n)),
              sorted(['who'] + ['in_' + f[:-4] for f in act]), 'attrs', case)


def write(start):
    for f in FILES:
        d = {'version': lib.VERSION, 'references': REFS[f],
             'nodes': {'/aa': {'attrs': {'who': {'value': f},
                                         'in_' + f[:-4]: {'value': '1'}}}}}
        d.update(copy.deepcopy(STARTS[start].get(f, {})))
        with open(f, 'w') as fp:
            json.dump(d, fp)


def run_seq(case, ctx):
    start, seq = case
    write(start)
    st = Stage.load_from_filepath('top.nxt')
    m = fresh(start)
    if len(seq) == 1:
        compare(st, m, case, True)
        ctx.state(repr(m))
    for i, op in enumerate(seq):
        st = do(st, op)
        step(m, op)
        ctx.state(repr(m))
        ctx.transition()
        if i == len(seq) - 1:
            compare(st, m, case, True)
    ctx.trace()


def seqs(tier):
    allops = ops()
    for s in range(len(STARTS)):
        for o in allops:
            yield s, (o,)
        for c in itertools.product(allops, repeat=2):
            if s and tier == 'quick' and s % 2 == 0:
                continue
            yield s, c
    d = 3 if tier == 'quick' else 4
    for fam in FAMILIES:
        fops = [o for o in allops if o[0] in fam and
                (o[1] != 'top.nxt' or len(fam) == 2 or d == 4)]
        for s in range(len(STARTS)):
            if tier == 'quick' and s in (1, 2):
                continue
            for c in itertools.product(fops, repeat=d):
                yield s, c


def parts(tier):
    return [('sequences', lambda: seqs(tier), run_seq)]
