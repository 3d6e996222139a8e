"""C18 adding and removing layers keeps the stack and the files in step."""
import itertools
import json
import os
from mc import lib
from mc.core import expect, expect_eq
from nxt import nxt_io
from nxt.nxt_layer import SpecLayer
from nxt.stage import Stage

LEVEL = 'model_checking'
RULE = ''
ASSUME = ['layers are added directly under the layer that will reference '
          'them, or on top of the stack, as the editor does',
          'a stack does not hold the same file twice, the files exist and '
          'do not form a cycle']
# file -> references
POOL = {'aa.nxt': (), 'bb.nxt': (), 'sub/cc.nxt': ('../ee.nxt', 'bb.nxt'),
        'sub/bb.nxt': (), 'ee.nxt': ('ff.nxt',), 'ff.nxt': ()}
START = [('top.nxt', ()), ('top.nxt', ('aa.nxt', 'sub/cc.nxt')),
         ('top.nxt', ('ee.nxt',)), ('top.nxt', ('bb.nxt', 'aa.nxt'))]


def BOUNDS(tier):
    return {'depth': depth(tier), 'files': len(POOL) + 1, 'starts': START}


def depth(tier):
    return 3 if tier == 'quick' else 4


def tag(f):
    return 'dd' if f == 'sub/bb.nxt' else os.path.basename(f)[:-4]


def doc(f, refs):
    return {'version': lib.VERSION, 'alias': tag(f), 'references': list(refs),
            'nodes': {'/aa': {'attrs': {'who': {'value': tag(f)},
                                        'in_' + tag(f): {'value': '1'}}}}}


def norm(owner, ref):
    if os.path.isabs(ref):
        return os.path.relpath(ref)
    return os.path.normpath(os.path.join(os.path.dirname(owner), ref))


def tree(f, table):
    return (f, tuple(tree(norm(f, r), table) for r in table[f]))


def flat(t, parent=None, out=None):
    out = [] if out is None else out
    out.append((t[0], parent))
    for c in t[1]:
        flat(c, t[0], out)
    return out


def replace(t, f, new):
    """Tree with the subtree at f replaced (removed for None)."""
    if t[0] == f:
        return new
    kids = []
    for c in t[1]:
        c2 = replace(c, f, new)
        if c2 is not None:
            kids.append(c2)
    return (t[0], tuple(kids))


def find(t, f):
    if t[0] == f:
        return t
    for c in t[1]:
        r = find(c, f)
        if r:
            return r


TABLE = {}


def ops(t):
    names = [f for f, _ in flat(t)]
    out = []
    for parent in names:
        for f in sorted(POOL):
            new = {x for x, _ in flat(tree(f, POOL))}
            if new & set(names):
                continue
            out.append(('add', parent, f))
        if not any(x in names for x in ('new.nxt',)):
            out.append(('create', parent, 'new.nxt'))
    for f in names[1:]:
        out.append(('remove', f, None))
    out.append(('save', None, None))
    return out


def apply_model(t, op):
    kind, a, b = op
    if kind == 'add':
        p = find(t, a)
        return replace(t, a, (p[0], (tree(b, POOL),) + p[1]))
    if kind == 'create':
        p = find(t, a)
        return replace(t, a, (p[0], ((b, ()),) + p[1]))
    if kind == 'remove':
        return replace(t, a, None)
    return t


def apply_real(st, base, op):
    kind, a, b = op
    at = {os.path.relpath(l.real_path, base): i
          for i, l in enumerate(st._sub_layers)}
    if kind in ('add', 'create'):
        idx = at[a] + 1
        parent = st._sub_layers[idx - 1]
        real = os.path.join(base, b)
        rel = os.path.relpath(real, os.path.dirname(parent.real_path))
        if kind == 'create':
            data = {'parent_layer': parent, 'filepath': rel,
                    'real_path': real, 'alias': 'new'}
        else:
            # the order the editor does it in
            parent.sub_layer_paths.insert(0, rel)
            data = nxt_io.load_file_data(real)
            data.update({'parent_layer': parent, 'filepath': rel,
                         'real_path': real})
        st.new_sublayer(layer_data=data, idx=idx)
    elif kind == 'remove':
        st.remove_sublayer(at[a])
    else:
        for l in st._sub_layers:
            l.save()
        st = Stage.load_from_filepath(os.path.join(base, 'top.nxt'))
    return st


def compare(st, base, t, case, compose=True):
    want = flat(t)
    got = [os.path.relpath(l.real_path, base) for l in st._sub_layers]
    expect_eq(got, [f for f, _ in want], 'stack', case)
    layers = dict(zip(got, st._sub_layers))
    for i, (f, parent) in enumerate(want):
        l = layers[f]
        expect_eq(l.layer_idx(), i, 'layer-index', case)
        expect(l.parent_layer is layers.get(parent), 'parent', (case, f))
        kids = [c[0] for c in find(t, f)[1]]
        for refs in (l.get_references(), l.sub_layer_paths,
                     l.get_save_data().get('references', [])):
            expect_eq([norm(f, r) for r in refs], kids, 'references',
                      (case, f))
    if not compose:
        return
    comp = st.build_stage()
    n = comp.lookup('/aa')
    have = [f for f, _ in want if tag(f) != 'new']
    expect_eq(st.get_node_attr_value(n, 'who', comp), tag(have[0]),
              'strongest', case)
    expect_eq(sorted(st.get_node_attr_names(n)),
              sorted({'who'} | {'in_' + tag(f) for f in have}), 'attrs',
              case)


def run_seq(case, ctx):
    sequence(case, ctx, True)


def lazy_seq(case, ctx):
    """Nothing is composed before the end."""
    sequence(case, ctx, False)
    ctx.count('composed_late')


def sequence(case, ctx, compose):
    start, seq = case
    base = os.getcwd()
    os.makedirs('sub', exist_ok=True)
    for f in ('new.nxt',):
        if os.path.exists(f):
            os.remove(f)
    table = dict(POOL)
    table[START[start][0]] = START[start][1]
    for f, refs in table.items():
        with open(f, 'w') as fp:
            json.dump(doc(f, refs), fp)
    t = tree('top.nxt', table)
    st = Stage.load_from_filepath('top.nxt')
    compare(st, base, t, (case, 0), compose)
    ctx.state(t)
    for i, op in enumerate(seq):
        t = apply_model(t, op)
        st = apply_real(st, base, op)
        compare(st, base, t, (case, i + 1), compose)
        ctx.state(t)
        ctx.transition()
    compare(st, base, t, (case, 'late'))
    # what is saved is what is shown
    st = apply_real(st, base, ('save', None, None))
    compare(st, base, t, (case, 'reload'))
    ctx.trace()


def seqs(tier, most=None):
    most = most or depth(tier)
    for s, (f, refs) in enumerate(START):
        table = dict(POOL)
        table[f] = refs

        def walk(t, seq, n):
            if n == 0:
                yield s, seq
                return
            for op in ops(t):
                if op[0] == 'save' and (not seq or n == 1):
                    continue
                for x in walk(apply_model(t, op), seq + (op,), n - 1):
                    yield x
        for n in range(1, most + 1):
            for x in walk(tree(f, table), (), n):
                # files written by new_sublayer start afresh every time
                if n < most and not x[1]:
                    continue
                yield x


# ------------------------------------------------------- a layer on top of all
def top_case(case, ctx):
    start, drop, where, compose = case
    base = os.getcwd()
    os.makedirs('sub', exist_ok=True)
    table = dict(POOL)
    table[START[start][0]] = START[start][1]
    for f, refs in table.items():
        with open(f, 'w') as fp:
            json.dump(doc(f, refs), fp)
    st = Stage.load_from_filepath('top.nxt')
    if compose:
        st.build_stage()
    t = tree('top.nxt', table)
    names = [f for f, _ in flat(t)]
    if drop >= len(names):
        return
    if drop:
        st = apply_real(st, base, ('remove', names[drop], None))
        t = apply_model(t, ('remove', names[drop], None))
    real = os.path.join(base, where)
    if os.path.exists(real):
        os.remove(real)
    st.new_sublayer(layer_data={'filepath': real, 'real_path': real,
                                'alias': 'new'}, idx=0)
    t = (where, (t,))
    got = [os.path.relpath(l.real_path, base) for l in st._sub_layers]
    expect_eq(got, [f for f, _ in flat(t)], 'stack-top', case)
    for l in st._sub_layers:
        l.save()
    st = Stage.load_from_filepath(real)
    compare(st, base, t, case)
    ctx.state(('top', t))
    ctx.transition()
    ctx.trace()


# ----------------------------------------------------- references by position
def ref_cases(tier):
    n = 3 if tier == 'quick' else 4
    names = ['aa.nxt', 'bb.nxt', 'ee.nxt', 'sub/cc.nxt']
    for have in (0, 1, 2):
        have = ['ff.nxt', 'sub/bb.nxt'][:have]
        for k in range(1, n + 1):
            for at in itertools.product(*[
                    [None] + list(range(len(have) + i + 1))
                    for i in range(k)]):
                for how in itertools.product(('path', 'layer', 'both'),
                                             repeat=k):
                    yield have, names[:k], at, how


def ref_case(case, ctx):
    have, names, at, how = case
    base = os.path.realpath(os.getcwd())
    os.makedirs('sub', exist_ok=True)
    for f in POOL:
        with open(f, 'w') as fp:
            json.dump(doc(f, ()), fp)
    with open('top.nxt', 'w') as fp:
        json.dump(doc('top.nxt', have), fp)
    st = Stage.load_from_filepath(os.path.join(base, 'top.nxt'))
    top = st.top_layer
    want = list(have)
    for f, i, h in zip(names, at, how):
        kw = {}
        if h != 'layer':
            kw['layer_path'] = f
        if h != 'path':
            kw['layer'] = SpecLayer.load_from_filepath(os.path.join(base, f))
        if i is not None:
            kw['insert_idx'] = i
        top.add_reference(**kw)
        want.insert(len(want) if i is None else i,
                    os.path.join(base, f) if h == 'layer' else f)
        for refs in (top.get_references(), top.sub_layer_paths,
                     top.get_save_data()['references']):
            expect_eq(list(refs), want, 'reference-order', case)
        ctx.transition()
    top.save()
    st = Stage.load_from_filepath(os.path.join(base, 'top.nxt'))
    expect_eq([os.path.relpath(l.real_path, base) for l in st._sub_layers],
              ['top.nxt'] + [norm('top.nxt', r) for r in want],
              'stack-reloaded', case)
    ctx.state((tuple(have), tuple(want)))
    ctx.trace()


def parts(tier):
    return [('references', lambda: ref_cases(tier), ref_case),
            ('sequences', lambda: seqs(tier), run_seq),
            ('on top', lambda: itertools.product(range(len(START)),
                                                 range(7), ('new.nxt', 'sub/new.nxt'),
                                                 (True, False)), top_case),
            ('not composed', lambda: seqs(tier, depth(tier) - 1), lazy_seq)]
