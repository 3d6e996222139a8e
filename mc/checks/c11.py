"""C11 node and attribute names."""
import itertools
from mc import editmodel as em, edithist as eh, lib
from mc.core import expect, expect_eq
from nxt import nxt_node, nxt_path
from nxt.stage import Stage

A = nxt_node.INTERNAL_ATTRS
LEVEL = 'exploration'
RULE = ('every string up to the length bound over letters, digits, '
        'separators, blanks and accented letters as a wished name of a node '
        'and of an attribute; every sequence of wished names up to the '
        'length bound below every kind of parent (plain, overriding another '
        'layer, instance, implied), with and without a composed layer to '
        'keep up to date; non-trivial = wishes that are illegal or taken')
ALPHABET = ['ab', '1', '_', '.', '/', '-', ' ', 'é', '²', '$', '\n']
STARTS = eh.starts(['plain', 'layers', 'instance', 'implied'])
PARENTS = {'plain': ['/', '/a', '/ab'], 'layers': ['/', '/a', '/ab'],
           'instance': ['/si', '/s', '/si/k'], 'implied': ['/a', '/b', '/a/b']}


def BOUNDS(tier):
    return {'alphabet': ALPHABET, 'name_length': 3 if tier == 'quick' else 4,
            'sequence_length': 2 if tier == 'quick' else 3}


def names(tier):
    n = BOUNDS(tier)['name_length']
    for k in range(n + 1):
        for t in itertools.product(ALPHABET, repeat=k):
            yield ''.join(t)
    for w in sorted(set(A.PROTECTED) | set(dir(type))):
        yield w
    for m in nxt_node.META_ATTRS.ALL:
        for pre in ('', 'x', 'x1'):
            yield pre + m
            yield pre + m + '1'
    yield '__name__'
    yield None


def one(wish, ctx):
    st = Stage(name='n')
    layer = st.top_layer
    if not (wish and em.legal(wish)):
        ctx.nontrivial(wish)
    if wish:
        got = Stage.legalize_name(wish)
        expect(em.legal(got), 'illegal', (wish, got))
        expect_eq(Stage.legalize_name(got), got, 'not-idempotent', wish)
        if em.legal(wish):
            expect_eq(got, wish, 'legal-name-changed', wish)
    for parent in ('/', '/p'):
        if parent == '/p':
            st.add_node('p', layer=0)
        before = set(lib.node_paths(layer))
        seen = []
        for _ in range(3):
            new, _d = st.add_node(name=wish, parent=parent, layer=0)
            nm = getattr(new[0], A.NAME)
            path = layer.get_node_path(new[0])
            expect(em.legal(nm), 'illegal-node', (wish, nm))
            expect_eq(path, em.join(parent, nm), 'node-path', wish)
            expect(path not in before and path not in seen, 'node-taken',
                   (wish, path))
            seen.append(path)
        if wish and em.legal(wish) and wish != '__name__' and not (
                parent == '/' and wish == 'p'):
            expect_eq(em.name(seen[0]), wish, 'legal-node-renamed', wish)
        d = lib.plain(layer.get_save_data())['nodes']
        expect_eq(sorted(d), sorted(before | set(seen)), 'saved', wish)
        node = layer.lookup(seen[0])
        got = []
        for i in range(3):
            a = st.add_node_attr(node, wish, {'value': 'v%d' % i}, layer)
            expect(em.legal(a), 'illegal-attr', (wish, a))
            expect(a not in got, 'attr-taken', (wish, a))
            expect(a not in A.PROTECTED, 'attr-protected', (wish, a))
            got.append(a)
        d = lib.plain(layer.get_save_data())['nodes'][seen[0]]
        expect_eq({k: v.get('value') for k, v in d['attrs'].items()},
                  {a: 'v%d' % i for i, a in enumerate(got)}, 'attr-saved',
                  wish)
        # the same wish when renaming
        st.add_node_attr(node, 'other', {'value': 'o'}, layer)
        st.rename_node_attr(node, 'other', wish, layer)
        d = lib.plain(layer.get_save_data())['nodes'][seen[0]]['attrs']
        expect_eq(sorted(v.get('value') for v in d.values()),
                  ['o', 'v0', 'v1', 'v2'], 'attr-renamed', wish)
        expect(all(em.legal(a) for a in d), 'illegal-attr-rename', wish)
        # and renaming a node
        other, _d = st.add_node(name='other', parent=parent, layer=0)
        new = st.set_node_name(other[0], wish, layer)
        expect(em.legal(em.name(new)), 'illegal-rename', (wish, new))
        expect(new not in seen and new not in before, 'rename-taken',
               (wish, new))


def wishes(sname, parent):
    m = STARTS[sname]
    taken = em.taken_paths(m)
    kids = sorted({em.name(p) for p in taken if em.parent(p) == parent})
    out = []
    for k in kids or ['kid']:
        out += [k, k + '2', k + '3']
    return out + ['fresh', None]


def seq_cases(tier):
    n = BOUNDS(tier)['sequence_length']
    for sname, m in STARTS.items():
        for parent in PARENTS[sname]:
            ws = wishes(sname, parent)
            for li in range(len(m)):
                for k in range(1, n + 1):
                    for t in itertools.product(ws, repeat=k):
                        for comp in (False, True):
                            yield sname, li, parent, t, comp


def sequence(case, ctx):
    sname, li, parent, ws, with_comp = case
    model = STARTS[sname]
    stage = em.mk(model)
    taken = em.taken_paths(model)
    comp = stage.build_stage() if with_comp else None
    for w in ws:
        new, _ = stage.add_node(name=w, parent=parent, layer=li,
                                comp_layer=comp)
        got = getattr(new[0], A.NAME)
        if w and em.join(parent, w) in taken:
            ctx.nontrivial(case)
        em.judge_name(got, w or '', parent, taken, case)
        taken.add(em.join(parent, got))
    final = lib.node_paths(stage.build_stage())
    expect(taken - {'/'} <= final | {
        p for l in model for p in l['nodes']}, 'lost', case)


def parts(tier):
    return [('names', lambda: names(tier), one),
            ('sequences', lambda: seq_cases(tier), sequence)]
