"""C16 older files load as the documents they were."""
import copy
import itertools
import json
import os
from mc import lib
from mc.core import expect, expect_eq
from nxt import legacy
from nxt.constants import GRAPH_VERSION
from nxt.stage import Stage

LEVEL = 'exploration'
RULE = ('every abstract document of the space written in the layout of every '
        'older version (0.39 to 0.x trees, 1.0 to 1.9 reference records, '
        '1.10 to one before current) and in the current layout, loaded both '
        'ways and compared.  Non-trivial: distinct (document, version)')
ASSUME = ['pre release files list every child in its parent\'s execute_order '
          'and always carry a data block, as that version wrote them']
MI = GRAPH_VERSION.MINOR
OLD = ['0.39', '0.45.0', '0.99.1'] + ['1.%d' % i for i in range(MI)] + \
    ['1.9.3', '1.14.0']


KEY = ['0.39', '0.45.0', '1.0', '1.9', '1.10', '1.14', '1.15',
       '1.%d' % (MI - 1)]


def BOUNDS(tier):
    return {'versions': OLD, 'trees': len(TREES), 'node_shapes': len(SHAPES),
            'reference_records': 'all of 0..2 records'}


TREES = [['/aa'], ['/aa', '/bb'], ['/aa', '/aa/bb'],
         ['/aa', '/aa/bb', '/aa/cc'], ['/aa', '/aa/bb', '/aa/bb/cc', '/dd'],
         ['/bb', '/aa', '/aa/zz', '/aa/bb', '/aaa', '/aa/bb/kk'], []]
SHAPES = [
    {}, {'attrs': {'q': {'value': 'v', 'type': 'raw'}}},
    {'attrs': {'q': {'value': '${b}', 'type': 'int', 'comment': 'c'},
               'a': {'value': None, 'type': 'NoneType'},
               'z': {'value': '', 'type': 'raw'}}},
    {'code': ['x = 1', '', '  y']}, {'comment': 'co'}, {'comment': ''},
    {'enabled': False}, {'enabled': True}, {'instance': '/aa'},
    {'instance': '/gone'}, {'execute_in': '/aa'}, {'execute_in': '/bb'},
    {'start_point': True},
    {'code': ['z'], 'comment': 'd', 'enabled': False, 'start_point': True,
     'execute_in': '/bb', 'attrs': {'n1': {'value': '1', 'type': 'int'}}},
]


def kids(doc, p):
    return [c for c in doc if c.rpartition('/')[0] == p]


def current(doc, head):
    """The document in today's layout."""
    out = {'version': lib.VERSION, 'nodes': {}}
    for p, n in doc.items():
        n = copy.deepcopy(n)
        co = [c.rpartition('/')[2] for c in kids(doc, p)]
        if co:
            n['child_order'] = co
        out['nodes'][p] = n
    out.update(copy.deepcopy({k: v for k, v in head.items()
                              if k in ('alias', 'color')}))
    refs = head.get('refs', [])
    if refs:
        out['references'] = [r['path'] for r in refs]
    ov, al, col = {}, {}, {}
    for r in refs:
        o = {k: r[k] for k in ('mute', 'solo') if k in r}
        if o:
            ov[r['path']] = o
        if 'alias' in r:
            al[r['path']] = r['alias']
        if 'color' in r:
            col[r['path']] = r['color']
    if ov:
        out['comp_overrides'] = ov
    md = {}
    if al:
        md['aliases'] = al
    if col:
        md['colors'] = col
    if head.get('positions'):
        md['positions'] = copy.deepcopy(head['positions'])
    if head.get('collapse'):
        md['collapse'] = copy.deepcopy(head['collapse'])
    if head.get('locks'):
        md['locks'] = copy.deepcopy(head['locks'])
        out['lock'] = True
    if md:
        out['meta_data'] = md
    return out


def written(doc, head, v):
    """The same document as version v wrote it."""
    ma, mi = [int(x) for x in v.split('.')[:2]]
    if ma == 0:
        data = {}
        starts = [p for p, n in doc.items() if n.get('start_point')]
        if starts:
            data['start_nodes'] = starts
        if head.get('positions'):
            data['position_data'] = copy.deepcopy(head['positions'])
        if head.get('collapse'):
            data['collapse_data'] = copy.deepcopy(head['collapse'])

        def node(p):
            n = doc[p]
            d = {}
            for new, old in (('code', 'compute'), ('attrs', 'attributes'),
                             ('instance', 'instance'),
                             ('enabled', 'enabled')):
                if new in n:
                    d[old] = copy.deepcopy(n[new])
            out = {'name': p.rpartition('/')[2], 'data': d,
                   'execute_order': [c.rpartition('/')[2]
                                     for c in kids(doc, p)]}
            for k in ('comment', 'execute_in'):
                if k in n:
                    out[k] = n[k]
            ch = [node(c) for c in kids(doc, p)]
            if ch:
                out['children'] = ch
            return out
        if head.get('locks'):
            data['locks'] = copy.deepcopy(head['locks'])
        out = {'version': v, 'data': data,
               'children': [node(p) for p in doc if p.count('/') == 1],
               'references': copy.deepcopy(head.get('refs', [])),
               'solo': False, 'mute': False}
    else:
        out = current(doc, head)
        out['version'] = v
        if mi < 10:
            out.pop('references', None)
            out.pop('comp_overrides', None)
            md = out.pop('meta_data', {})
            md.pop('aliases', None)
            md.pop('colors', None)
            for a, b in (('positions', 'position_data'),
                         ('collapse', 'collapse_data')):
                if a in md:
                    md[b] = md.pop(a)
            if md:
                out['meta_data'] = md
            if head.get('refs'):
                out['references'] = copy.deepcopy(head['refs'])
        if mi < 15 and not head.get('locks'):
            out['mute'] = False
            out['solo'] = False
            out.setdefault('references', [])
    if head.get('locks'):
        out['lock'] = True
    for k in ('alias', 'color'):
        if k in head:
            out[k] = head[k]
    return out


def look(path):
    st = Stage.load_from_filepath(path)
    comp = st.build_stage()
    out = {'view': lib.observe_comp(st, comp), 'layers': []}
    for l in st._sub_layers:
        out['layers'].append((
            l.get_alias(), l.get_color(local=False), l.get_muted(),
            l.get_soloed(), list(l.get_references()),
            dict(l.positions), dict(l.collapse), dict(l.aliases),
            dict(l.colors), dict(l.locks), l.get_locked(),
            l.get_locked(local=True), sorted(lib.node_paths(l))))
        out.setdefault('docs', []).append(
            tidy(lib.plain(l.get_save_data())))
    return out


def tidy(data):
    # start points moved to the nodes, the old list stays behind unread
    data.get('meta_data', {}).pop('start_nodes', None)
    return {k: v for k, v in data.items() if v not in ({}, [])}


def compare(doc, head, ctx, versions=OLD):
    for n in os.listdir('.'):
        os.remove(n)
    for r in head.get('refs', []):
        with open(r['path'], 'w') as fp:
            json.dump({'version': lib.VERSION, 'alias': 'file',
                       'nodes': {'/aa': {'attrs': {'low' + r['path'][0]: {
                           'value': r['path']}}}}}, fp)
    with open('doc.nxt', 'w') as fp:
        json.dump(current(doc, head), fp)
    want = look('doc.nxt')
    for v in versions:
        old = written(doc, head, v)
        with open('doc.nxt', 'w') as fp:
            json.dump(old, fp)
        got = look('doc.nxt')
        for k in want:
            expect(got[k] == want[k], 'differs-' + k, lambda: '%s %s\n%r' % (
                v, diff(got[k], want[k]), old))
        legacy.cli_file_convert('doc.nxt')
        with open('doc_CONVERTED.nxt') as fp:
            conv = fp.read()
        with open('doc.nxt', 'w') as fp:
            fp.write(conv)
        got = look('doc.nxt')
        for k in want:
            expect(got[k] == want[k], 'converted-' + k, lambda: '%s %s' % (
                v, diff(got[k], want[k])))
        # converting what was converted changes nothing
        again = legacy.FileConverter.get_converted_data(json.loads(conv))
        expect_eq(lib.plain(again), json.loads(conv), 'convert-twice', v)
        ctx.nontrivial((v, json.dumps(old, sort_keys=True)))


def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if a.get(k) != b.get(k):
                return diff(a.get(k), b.get(k), path + '.' + str(k))
    return '%s got %r want %r' % (path, a, b)


def node_case(case, ctx):
    ti, shapes, rev = case
    tree = TREES[ti]
    if rev:
        # children in another order
        tree = sorted(tree, key=lambda p: (p.count('/'),
                                           [-ord(c) for c in p]))
    doc = {p: copy.deepcopy(SHAPES[s]) for p, s in zip(tree, shapes)}
    # neighbours of every converter, and one of the others in turn
    vs = KEY if ctx.tier == 'quick' else OLD
    vs = vs + [OLD[sum(shapes) % len(OLD)]]
    compare(doc, {'alias': 'al'}, ctx, vs)


def node_cases(tier):
    n = len(SHAPES)
    for ti, tree in enumerate(TREES):
        if len(tree) <= 2:
            combos = itertools.product(range(n), repeat=len(tree))
        elif len(tree) == 3 and tier != 'quick':
            combos = itertools.product(range(n), repeat=3)
        else:
            combos = [tuple((a + b * i) % n for i in range(len(tree)))
                      for a in range(n) for b in range(n)]
        for c in combos:
            yield ti, c, False
            if len(tree) > 1 and sum(c) % 3 == 0:
                yield ti, c, True


REF = [{}, {'alias': 'AL'}, {'color': '#123'}, {'mute': True},
       {'solo': True}, {'mute': False, 'solo': False},
       {'mute': True, 'alias': 'x', 'color': '#9'}]
HEAD = {'alias': [None, 'al'], 'color': [None, '#fff'],
        'positions': [None, {'/aa': [1.5, -2.0]}],
        'collapse': [None, {'/aa': True}],
        # and the leaner files without mute and solo keys
        'locks': [None, {'xlow.nxt': True}]}


def head_case(case, ctx):
    hs, refs = case
    head = {k: v for k, v in zip(sorted(HEAD), hs) if v is not None}
    head['refs'] = [dict(REF[r], path='%slow.nxt' % 'xy'[i])
                    for i, r in enumerate(refs)]
    vs = OLD
    if ctx.tier == 'quick' and len(refs) == 2:
        k = sum(refs) + len(head)
        vs = KEY + [OLD[k % len(OLD)], OLD[(k * 5 + 3) % len(OLD)]]
    compare({'/aa': copy.deepcopy(SHAPES[1])}, head, ctx, vs)


def head_cases():
    refs = [()] + [(i,) for i in range(len(REF))] + list(
        itertools.product(range(len(REF)), repeat=2))
    for hs in itertools.product(*[HEAD[k] for k in sorted(HEAD)]):
        for r in refs:
            yield hs, r


def parts(tier):
    return [('nodes', lambda: node_cases(tier), node_case),
            ('settings', head_cases, head_case)]
