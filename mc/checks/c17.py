"""C17 references load in order, relative to the file that names them."""
import itertools
import json
import os
import shutil
from mc import lib
from mc.core import expect, expect_eq
from nxt.session import Session
from nxt.stage import Stage

LEVEL = 'exploration'
RULE = ('every reference graph over a few files (repeats, cycles, diamonds '
        'and missing files included), and every way of writing a reference '
        'x placement of the files x search roots x working directory.  '
        'Non-trivial: distinct resulting layer stacks')
ASSUME = ['a reference that cannot be loaded is dropped from its layer (as '
          'the program reports in its log)']
NAMES = ['top.nxt', 'aa.nxt', 'bb.nxt']


def BOUNDS(tier):
    return {'files': 3, 'references_per_file': depth(tier),
            'forms': sorted(FORMS), 'roots': ROOTS}


def depth(tier):
    return 2 if tier == 'quick' else 3


def clean():
    for n in os.listdir('.'):
        (shutil.rmtree if os.path.isdir(n) and not os.path.islink(n)
         else os.remove)(n)


def doc(tag, refs):
    return {'version': lib.VERSION, 'alias': tag, 'references': list(refs),
            'nodes': {'/aa': {'attrs': {'who': {'value': tag},
                                        'in_' + tag: {'value': tag}}}}}


def stack(table, top, resolve):
    """[(file, parent index, kept references)] depth first, parents first."""
    out = []

    def add(path, parent, chain):
        me = len(out)
        rec = [path, parent, []]
        out.append(rec)
        for r in table[path]:
            p = resolve(r, path)
            if p is None or p not in table or p in chain:
                continue
            rec[2].append(r)
            add(p, me, chain + (p,))
    add(top, None, (top,))
    return out


def compare(st, want, tags, ctx, case):
    layers = st._sub_layers
    expect_eq([l.real_path for l in layers], [w[0] for w in want],
              'layer-order', case)
    for i, (l, (path, parent, refs)) in enumerate(zip(layers, want)):
        expect(l.parent_layer is (None if parent is None
                                  else layers[parent]), 'parent', (case, i))
        expect_eq(list(l.get_references()), refs, 'references', (case, i))
        expect_eq(list(l.sub_layer_paths), refs, 'reference-paths', (case, i))
        expect_eq(lib.plain(l.get_save_data()).get('references', []), refs,
                  'saved-references', (case, i))
        expect_eq(l.layer_idx(), i, 'layer-index', case)
    comp = st.build_stage()
    n = comp.lookup('/aa')
    expect_eq(st.get_node_attr_value(n, 'who', comp), tags[want[0][0]],
              'strongest', case)
    expect_eq(sorted(st.get_node_attr_names(n)),
              sorted({'who'} | {'in_' + tags[w[0]] for w in want}),
              'attrs', case)
    for a in st.get_node_attr_names(n):
        if a != 'who':
            src = [w[0] for w in want if 'in_' + tags[w[0]] == a][0]
            expect_eq(tuple(st.get_node_attr_source(n, a)), (src, '/aa'),
                      'source', case)
    ctx.nontrivial(tuple((w[0], w[1]) for w in want))


def graph_case(case, ctx):
    here = os.getcwd()
    table = {}
    for n, refs in zip(NAMES, case):
        table[os.path.join(here, n)] = refs
        with open(n, 'w') as fp:
            json.dump(doc(n[:-4], refs), fp)
    want = stack(table, os.path.join(here, NAMES[0]),
                 lambda r, p: os.path.join(here, r))
    st = Stage.load_from_filepath(NAMES[0])
    expect_eq(os.getcwd(), here, 'cwd')
    compare(st, want, {p: os.path.basename(p)[:-4] for p in table}, ctx, case)


def graph_cases(tier):
    opts = [()]
    for n in range(1, depth(tier) + 1):
        opts += itertools.product(NAMES + ['gone.nxt'], repeat=n)
    return itertools.product(opts, repeat=3)


# ------------------------------------------------------------- path spellings
FORMS = {
    'plain': 'bb.nxt', 'dot': './bb.nxt', 'sub': 'sub/bb.nxt',
    'updown': 'sub/../bb.nxt', 'up': '../bb.nxt', 'var': '$NXTMC_D/bb.nxt',
    'braces': '${NXTMC_D}/bb.nxt', 'home': '~/bb.nxt', 'absolute': None,
    'link': 'lnk.nxt', 'badvar': '$NXTMC_NONE/bb.nxt', 'space': 'b b.nxt',
    'varname': '${NXTMC_N}.nxt', 'middle': 'sub/$NXTMC_N.nxt',
}
ROOTS = [None, '', 'r1', 'gone', 'r1:r2', 'r2:r1', 'gone:r2', 'file:r2',
         'empty', ':r1']
PLACES = ['g', 'g/sub', '.', 'var', 'home', 'r1', 'r2', 'r1/sub']


def setup_worker(ctx):
    ctx.base = os.getcwd()


def form_case(case, ctx):
    form, roots, present, cwd, nested = case
    base = ctx.base
    os.chdir(base)
    clean()
    for d in ('g/sub', 'var', 'home', 'r1/sub', 'r2', 'empty', 'else'):
        os.makedirs(d)
    open('file', 'w').close()
    old_env = {k: os.environ.get(k) for k in ('HOME', 'NXT_FILE_ROOTS',
                                              'NXTMC_D', 'NXTMC_N')}
    j = os.path.join
    os.environ.update(HOME=j(base, 'home'), NXTMC_D=j(base, 'var'),
                      NXTMC_N='bb')
    os.environ.pop('NXT_FILE_ROOTS', None)
    rl = []
    if roots is not None:
        rl = [j(base, r) if r else '' for r in roots.split(':')]
        os.environ['NXT_FILE_ROOTS'] = ':'.join(rl)
    try:
        spell = FORMS[form] or j(base, 'else', 'bb.nxt')
        table, tags = {}, {}
        k = 0
        for place in PLACES + ['else']:
            if place != 'else' and PLACES.index(place) not in present:
                continue
            for n in ('bb.nxt', 'b b.nxt'):
                p = os.path.normpath(j(base, place, n))
                tags[p] = 'f%d' % k
                k += 1
                table[p] = ()
                with open(p, 'w') as fp:
                    json.dump(doc(tags[p], ()), fp)
        if form == 'link' and 1 in present:
            os.symlink(j(base, 'g/sub/bb.nxt'), j(base, 'g/lnk.nxt'))
        top = j(base, 'g/top.nxt')
        if nested:
            # the reference is made by a file in another directory
            mid = j(base, 'g/mid.nxt')
            top = j(base, 'else/top.nxt')
            table[top], table[mid] = ('../g/mid.nxt',), (spell,)
            files = (top, mid)
        else:
            table[top] = (spell,)
            files = (top,)
        for p in files:
            tags[p] = os.path.basename(p)[:-4]
            with open(p, 'w') as fp:
                json.dump(doc(tags[p], table[p]), fp)

        def resolve(r, owner):
            x = r.replace('${NXTMC_D}', j(base, 'var')).replace(
                '$NXTMC_D', j(base, 'var')).replace(
                '${NXTMC_N}', 'bb').replace('$NXTMC_N.', 'bb.')
            if x.startswith('~'):
                x = j(base, 'home') + x[1:]
            for d in [d for d in rl if os.path.isdir(d)] + [
                    os.path.dirname(owner)]:
                p = os.path.realpath(j(d, x))
                if os.path.isfile(p):
                    return p
            return None
        want = stack(table, top, resolve)
        os.chdir(j(base, cwd))
        arg = os.path.relpath(top) if cwd == 'else' else top
        st = Stage.load_from_filepath(arg)
        expect_eq(os.getcwd(), os.path.realpath(j(base, cwd)), 'cwd')
        compare(st, want, tags, ctx, case)
        # and again after saving the top layer elsewhere in the same place
        st.top_layer.save(top)
        again = Stage.load_from_filepath(top)
        expect_eq([l.real_path for l in again._sub_layers],
                  [w[0] for w in want], 'reloaded-order', case)
    finally:
        os.chdir(base)
        for k, v in old_env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def form_cases(tier):
    sets = [()] + [(i,) for i in range(len(PLACES))] + \
        [c for c in itertools.combinations(range(len(PLACES)), 2)] + \
        [tuple(range(len(PLACES)))]
    if tier != 'quick':
        sets = [c for n in range(len(PLACES) + 1)
                for c in itertools.combinations(range(len(PLACES)), n)]
    for form in sorted(FORMS):
        for roots in ROOTS:
            for present in sets:
                for cwd in ('else', 'g'):
                    for nested in (False, True):
                        if tier == 'quick' and (cwd == 'g') != nested and \
                                len(present) > 1:
                            continue
                        yield form, roots, present, cwd, nested


def parts(tier):
    return [('graphs', lambda: graph_cases(tier), graph_case),
            ('spellings', lambda: form_cases(tier), form_case)]
