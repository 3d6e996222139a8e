"""C13 a saved document loads back to the same document."""
import copy
import itertools
import json
import os
from mc import lib, docgen
from mc.core import expect, expect_eq
from nxt import nxt_io
from nxt.nxt_layer import SpecLayer
from nxt.session import Session
from nxt.stage import Stage

LEVEL = 'exploration'
RULE = ('every combination of field and attribute opinions on a small node '
        'tree, every combination of layer settings, and two layer stacks; '
        'saved, loaded, and compared field by field with the document '
        'described, and view by view with the unsaved stage; every sequence '
        'of edits and saves to several paths.  Non-trivial: '
        'distinct saved files')
ASSUME = ['values are json data (others are documented not to be saved)',
          'a layer\'s own mute, solo and lock flags are session state: a '
          'file\'s are ignored on load']
X = '<absent>'
VALS = ['v', '', 0, False, None, [], {}, 1.5, ['a', {'b': None}], 'l1\nl2',
        u'\u00e9\u2028"\\', '${q}', X]
ATTR = [{'value': v} if v is not X else {} for v in VALS] + [
    {'comment': 'c', 'value': ''}, {'comment': '', 'value': 'v'},
    {'type': 'str', 'value': 'v'}, {'type': '', 'comment': 'c'}]
FIELDS = {
    'code': [X, [], ['x'], ['', ' y', u'\u00e9']],
    'comment': [X, '', 'c\nd'],
    'enabled': [X, True, False],
    'instance': [X, '', '/bb', './../bb'],
    'execute_in': [X, '', '/bb'],
    'start_point': [X, True, False],
    'child_order': [X, [], ['kk'], ['gone', 'kk'], ['jj', 'kk', 'jj']],
}


def BOUNDS(tier):
    return {'attr_shapes': len(ATTR), 'fields': {k: len(v) for k, v in
                                                  FIELDS.items()},
            'attr_tuple': 2 if tier == 'quick' else 3}


def norm_node(path, n, doc):
    """What the document says about a node, with no-opinions left out."""
    out = {'attrs': {}}
    for a, d in n.get('attrs', {}).items():
        out['attrs'][a] = {k: v for k, v in d.items() if v is not None}
    if not out['attrs']:
        del out['attrs']
    for f in FIELDS:
        if path == '/' and f not in ('code', 'comment'):
            continue
        v = n.get(f)
        if f == 'child_order':
            co = []
            for c in v or []:
                if c not in co:
                    co.append(c)
            kids = sorted(p.rpartition('/')[2] for p in doc
                          if p != '/' and
                          (p.rpartition('/')[0] or '/') == path)
            v = co
            out['_kids'] = kids
        if v not in (None, []):
            out[f] = copy.deepcopy(v)
    return out


def same_node(path, got, want):
    want = dict(want)
    kids = want.pop('_kids', [])
    got = dict(got)
    gco, wco = got.pop('child_order', []), want.pop('child_order', [])
    expect_eq(lib.plain(got), lib.plain(want), 'node-content', path)
    expect(typed(got) == typed(want), 'node-types', (path, got))
    if path == '/':
        return
    expect_eq([c for c in gco if c in wco], wco, 'child-order', path)
    expect_eq(sorted(gco), sorted(set(wco) | set(kids)), 'child-order-names',
              path)


def typed(o):
    if isinstance(o, dict):
        return {k: typed(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [typed(v) for v in o]
    return (type(o).__name__, o)


def roundtrip(layers, ctx, meta=None):
    """layers: [{'path':, 'nodes':, + layer settings}], strongest first."""
    stage = lib.mk_stage(layers)
    before = lib.observe_comp(stage, stage.build_stage())
    saved = []
    for spec, layer in zip(layers, stage._sub_layers):
        path = spec['path']
        ret = layer.save(path)
        with open(path) as fp:
            raw = fp.read()
        data = json.loads(raw)
        expect_eq(lib.plain(ret), data, 'save-return')
        expect_eq(sorted(data.get('nodes', {})), sorted(spec['nodes']),
                  'saved-nodes')
        for p, n in spec['nodes'].items():
            same_node(p, data['nodes'][p], norm_node(p, n, spec['nodes']))
        saved.append(raw)
        ctx.nontrivial(raw)
    again = Stage(name='again')
    again.remove_sublayer(0)
    for i, spec in enumerate(layers):
        d = nxt_io.load_file_data(spec['path'])
        expect_eq(d['real_path'], os.path.realpath(spec['path']), 'real-path')
        layer = SpecLayer.load_from_layer_data(d)
        again._sub_layers.append(layer)
        for p, n in spec['nodes'].items():
            expect(layer.lookup(p) is not None, 'node-lost', p)
        out = lib.plain(layer.get_save_data())
        expect_eq(out, json.loads(saved[i]), 'not-a-fixpoint')
    for i, layer in enumerate(again._sub_layers):
        layer._layer_idx = i
    after = lib.observe_comp(again, again.build_stage())
    expect(typed(after) == typed(before), 'view-changed', lambda: next(
        repr((p, k, before[p].get(k), after.get(p, {}).get(k)))
        for p in before for k in before[p]
        if before[p].get(k) != after.get(p, {}).get(k)
        or typed(before[p][k]) != typed(after[p][k])))
    return again


def wd(ctx, name='doc.nxt'):
    return os.path.join(os.getcwd(), name)


def field_case(case, ctx):
    node = {}
    for f, v in zip(sorted(FIELDS), case):
        if v is not X:
            node[f] = copy.deepcopy(v)
    nodes = {'/': {'attrs': {'w': {'value': 'w'}}}, '/aa': node, '/bb': {},
             '/aa/kk': {}, '/aa/jj/deep': {}, '/bb/kk': {}}
    roundtrip([{'path': wd(ctx), 'nodes': nodes}], ctx)


def field_cases():
    return itertools.product(*[FIELDS[f] for f in sorted(FIELDS)])


def attr_case(case, ctx):
    names = ['q', 'zz', 'name', 'value'][:len(case)]
    nodes = {'/': {'attrs': {'q': copy.deepcopy(ATTR[case[0]])}},
             '/aa': {'attrs': {n: copy.deepcopy(ATTR[i])
                               for n, i in zip(names, case)}},
             '/aa/kk': {}}
    low = {'/aa': {'attrs': {n: {'value': 'low', 'comment': 'lc',
                                 'type': 'raw'} for n in names}},
           '/aa/kk': {'attrs': {'q': copy.deepcopy(ATTR[case[-1]])}}}
    roundtrip([{'path': wd(ctx, 'top.nxt'), 'nodes': nodes},
               {'path': wd(ctx, 'low.nxt'), 'nodes': low}], ctx)


def attr_cases(tier):
    for n in range(1, BOUNDS(tier)['attr_tuple'] + 1):
        for c in itertools.product(range(len(ATTR)), repeat=n):
            yield c


def node_cases(tier):
    P = ['/', '/aa', '/aa/kk', '/aa/kk/mm', '/bb', '/cc/kk', '/aa b', '/z.z']
    for n in range(len(P) + 1):
        for c in itertools.combinations(P, n):
            yield c, ()
    for c in itertools.product((0, 1, 2), repeat=5):
        yield (tuple(p for p, k in zip(P, c) if k in (0, 2)),
               tuple(p for p, k in zip(P, c) if k in (1, 2)))


def node_case(case, ctx):
    a, b = case
    ls = [{'path': wd(ctx, 'top.nxt'), 'nodes': {p: {} for p in a}}]
    if b:
        ls.append({'path': wd(ctx, 'low.nxt'), 'nodes': {p: {} for p in b}})
    roundtrip(ls, ctx)


# ------------------------------------------------------- layer level settings
SET = {
    'alias': ['al', '', u'\u00e9'],
    'color': [None, '#fff'],
    'meta_data': [{}, {'positions': {'/aa': [1.0, -2.5]}},
                  {'collapse': {'/aa': True}},
                  {'colors': {'low.nxt': '#111'},
                   'aliases': {'low.nxt': 'LOW'}},
                  {'locks': {'low.nxt': True}, 'custom': [1, {'a': None}]}],
    'comp_overrides': [{}, {'low.nxt': {'mute': True}},
                       {'low.nxt': {'mute': False, 'solo': True},
                        'x.nxt': {}}],
    'references': [[], ['low.nxt'], ['low.nxt', 'low2.nxt']],
    'version': ['1.17', None, '1.17.3'],
}


def settings_case(case, ctx):
    """A file written by hand, loaded, saved elsewhere, loaded again."""
    doc = {'nodes': {'/aa': {'attrs': {'q': {'value': '1'}}}}}
    for k, v in zip(sorted(SET), case):
        if k == 'version':
            v = v and lib.VERSION + v[4:]
        if v is not None:
            doc[k] = copy.deepcopy(v)
    base = os.getcwd()
    for n in ('low.nxt', 'low2.nxt'):
        with open(n, 'w') as fp:
            json.dump({'version': lib.VERSION, 'alias': n[:-4],
                       'nodes': {'/aa': {'attrs': {n[:-4]: {'value': n}}}}},
                      fp)
    with open('hand.nxt', 'w') as fp:
        json.dump(doc, fp)
    st = Session().load_file('hand.nxt')
    top = st._sub_layers[0]
    data = lib.plain(top.get_save_data())
    for k in ('alias', 'color', 'comp_overrides', 'references'):
        expect_eq(data.get(k) or None, doc.get(k) or None, 'setting-' + k)
    md = {k: v for k, v in data.get('meta_data', {}).items() if v}
    expect_eq(md, doc.get('meta_data', {}), 'meta-data')
    expect_eq(data['version'], lib.VERSION, 'version')
    view = lib.observe_comp(st, st.build_stage())
    flags = [(l.get_alias(), l.get_color(local=False), l.get_locked(),
              l.get_muted(), l.get_soloed()) for l in st._sub_layers]
    top.save('hand2.nxt')
    st2 = Session().load_file('hand2.nxt')
    expect_eq(lib.plain(st2._sub_layers[0].get_save_data()), data,
              'not-a-fixpoint')
    flags2 = [(l.get_alias(), l.get_color(local=False), l.get_locked(),
               l.get_muted(), l.get_soloed()) for l in st2._sub_layers]
    expect_eq(flags2, flags, 'effective-settings')
    view2 = json.loads(json.dumps(lib.observe_comp(st2, st2.build_stage())
                                  ).replace('hand2.nxt', 'hand.nxt'))
    expect_eq(view2, json.loads(json.dumps(view)), 'view-changed')
    # after saving to another path every source reported is the new file
    for p in lib.node_paths(top) | {'/aa'}:
        n = top.lookup(p)
        expect_eq(st.get_node_source_layer(n), top, 'source-layer-stale')
        for a in st.get_node_attr_names(n):
            expect_eq(tuple(st.get_node_attr_source(n, a)),
                      (top.real_path, p), 'attr-source-stale')
    ctx.nontrivial(json.dumps(data, sort_keys=True))
    for n in os.listdir(base):
        os.remove(os.path.join(base, n))


def settings_cases():
    return itertools.product(*[SET[k] for k in sorted(SET)])


# ------------------------------------------------------------------ saving as
TARGETS = [None, 'hand.nxt', 'n1.nxt', 'sub/n2.nxt']


def save_as_cases(tier):
    n = 3 if tier == 'quick' else 4
    for start in ('loaded', 'relative', 'new'):
        for k in range(1, n + 1):
            for seq in itertools.product(range(len(TARGETS)), repeat=k):
                if start == 'new' and seq[0] == 0:
                    continue
                yield start, seq


def save_as_case(case, ctx):
    """Any sequence of saves, each after an edit, to any path: the document
    goes to the file asked for (the last one when none is given) and no other,
    and that file is where everything reported comes from."""
    start, seq = case
    base = os.path.realpath(os.getcwd())
    os.makedirs('sub', exist_ok=True)
    paths = ['/', '/aa', '/aa/kk', '/cc/_d']
    if start == 'new':
        st = Stage(name='n')
        top = st.top_layer
        for p in paths[1:]:
            nxt_path = p.rpartition('/')
            st.add_node(nxt_path[2], {'attributes': {
                '_q': {'value': 'v'}, 'q': {'value': 'w'}}},
                parent=nxt_path[0] or '/', layer=top)
        cur = None
    else:
        doc = {'version': lib.VERSION, 'alias': 'al', 'nodes': {
            p: {'attrs': {'q': {'value': p}, '_q': {'value': 'u'},
                          'q__source': {'value': 's'}}} for p in paths}}
        with open('hand.nxt', 'w') as fp:
            json.dump(doc, fp)
        st = Stage.load_from_filepath(
            'hand.nxt' if start == 'relative' else base + '/hand.nxt')
        top = st.top_layer
        cur = base + '/hand.nxt'
    disk = {}
    for i, t in enumerate(seq):
        st.node_setattr_data(top.lookup('/aa'), 'mark', layer=top, create=True,
                             value=str(i))
        if TARGETS[t] is not None:
            cur = os.path.join(base, TARGETS[t])
            top.save(cur)
        else:
            top.save()
        with open(cur) as fp:
            disk[cur] = json.load(fp)
        expect_eq(disk[cur], lib.plain(top.get_save_data()), 'saved-as',
                  (case, i))
        expect_eq(disk[cur]['nodes']['/aa']['attrs']['mark']['value'], str(i),
                  'saved-edit', (case, i))
        for f, d in disk.items():
            with open(f) as fp:
                expect_eq(json.load(fp), d, 'other-file', (case, i, f))
        expect_eq(top.real_path, cur, 'real-path', (case, i))
        expect_eq(top.get_cwd(), os.path.dirname(cur), 'layer-folder',
                  (case, i))
        comp = st.build_stage()
        for where in (top, comp):
            for p in paths:
                n = where.lookup(p)
                if n is None:
                    continue
                expect_eq(st.get_node_source_layer(n), top,
                          'source-layer-stale', (case, i, p))
                for a in disk[cur]['nodes'][p].get('attrs', {}):
                    expect_eq(tuple(st.get_node_attr_source(n, a)), (cur, p),
                              'attr-source-stale', (case, i, p, a))
        again = Stage.load_from_filepath(cur)
        expect_eq(lib.plain(again.top_layer.get_save_data()), disk[cur],
                  'not-a-fixpoint', (case, i))
        ctx.nontrivial(json.dumps(disk[cur], sort_keys=True))
    for f in disk:
        os.remove(f)
    if os.path.exists('hand.nxt'):
        os.remove('hand.nxt')
    os.rmdir('sub')


def parts(tier):
    return [('save-as', lambda: save_as_cases(tier), save_as_case),
            ('fields', field_cases, field_case),
            ('attrs', lambda: attr_cases(tier), attr_case),
            ('nodes', lambda: node_cases(tier), node_case),
            ('settings', settings_cases, settings_case)]
