"""C32 the temp copy of a graph composes to the same graph."""
import itertools
import json
import os
from mc import lib
from mc.core import expect, expect_eq
from nxt import DATA_STATE, nxt_io
from nxt.stage import Stage

LEVEL = 'exploration'
RULE = ('every tree of references over up to four files, every way of '
        'spreading them over directories with equal or different file names, '
        'every way of writing the reference paths, every mute / solo '
        'override and every start layer, with unsaved edits: the returned '
        'file is loaded and its composed view compared with the original '
        'one.  Non-trivial: distinct (tree, places, paths, overrides, edit, '
        'start) tuples')
ASSUME = ['the output directory is empty before']
TREES = {1: [()], 2: [(0,)], 3: [(0, 0), (0, 1)],
         4: [(0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1), (0, 1, 2),
             (0, 0, 2)]}
# (directory, name) of the files that are referenced
PLACES = [('', 'b.nxt'), ('', 'c.nxt'), ('d1', 'b.nxt'), ('d1', 'a.nxt'),
          ('d2', 'b.nxt'), ('d2', 'c.nxt')]
TOPS = [('', 'a.nxt'), ('d1', 'a.nxt')]
WAYS = ['rel', 'abs', 'dots', 'var']
FLAGS = [None, {'mute': True}, {'solo': True}, {'mute': False, 'solo': True},
         {'mute': True, 'solo': True}]
EDITS = ['none', 'value', 'node', 'rename', 'mute top', 'solo one',
         'reference', 'override', 'twice']


def BOUNDS(tier):
    return {'files': 3 if tier == 'quick' else 4, 'places': len(PLACES),
            'paths': len(WAYS), 'edits': len(EDITS)}


def setup_worker(ctx):
    ctx.dir = os.path.realpath(os.getcwd())
    ctx.n = 0


def nodes(i):
    own = 'n%d' % i
    return {'/': {'attrs': {'w%d' % i: {'value': 'w'}}},
            '/aa': {'attrs': {'vv': {'value': 'v%d' % i},
                                   'a%d' % i: {'value': '${vv}',
                                               'type': 'raw'},
                                   'ff': {'value': '${path::x%d.txt}' % i}},
                    'code': ['# %d' % i, 'a = "${file::x.txt}"'],
                    'child_order': ['bb', own][:1 + i % 2]},
            '/aa/' + own: {'comment': 'c%d' % i, 'enabled': bool(i % 2)},
            '/aa/bb': {'execute_in': '/e%d' % i},
            '/' + own: {'instance': '/aa', 'start_point': i == 1}}


def files(root, tree, places, ways, overs):
    out = []
    place = [os.path.join(root, d, n) for d, n in places]
    for i in range(len(places)):
        refs = []
        for j, p in enumerate(tree):
            if p == i:
                refs += [ref_path(root, place[i], place[j + 1], ways[j])]
        data = {'version': lib.VERSION, 'alias': 'al%d' % i, 'mute': False,
                'solo': False, 'references': refs,
                'nodes': nodes(places.index(places[i]))}
        if i == 1:
            data['color'] = '#123456'
        out.append((place[i], data))
    for holder, target, flags in overs:
        d = out[holder][1]
        path = [ref_path(root, place[p], place[target], ways[target - 1])
                for j, p in enumerate(tree) if j + 1 == target][0]
        d.setdefault('comp_overrides', {})[path] = flags
    return out


def ref_path(root, frm, to, way):
    rel = os.path.relpath(to, os.path.dirname(frm))
    if way == 'rel':
        return rel
    if way == 'abs':
        return to
    if way == 'dots':
        return './d/../' + rel
    return '$MCROOT/' + os.path.relpath(to, root)


def observe(stage, comp):
    """The composed view with layers named by their position."""
    obs = lib.observe_comp(stage, comp)
    # By position: the same file can be there twice
    src = {}
    for i, l in enumerate(stage._sub_layers):
        src.setdefault(l.real_path, i)
    for p, o in obs.items():
        n = comp.lookup(p)
        o['attrs'] = {a: (v, t, c, (src.get(s[0], s[0]),) + tuple(s[1:]))
                      for a, (v, t, c, s) in o['attrs'].items()}
        o['resolved'] = {a: stage.get_node_attr_value(n, a, comp)
                         for a in o['attrs']}
        o['code resolved'] = stage.get_node_code_string(
            n, comp, data_state=DATA_STATE.RESOLVED)
    return obs


def snapshot(root, skip=()):
    out = {}
    for d, _, names in os.walk(root):
        for n in names:
            p = os.path.join(d, n)
            with open(p, 'rb') as fp:
                out[os.path.relpath(p, root)] = fp.read()
    return out


def edit(stage, kind, root):
    layers = stage._sub_layers
    last = layers[-1]
    if kind == 'value':
        comp = stage.build_stage()
        stage.node_setattr_data(last.lookup('/aa'), 'vv', last, True,
                                comp_layer=comp, value='unsaved')
    elif kind == 'node':
        stage.add_node('added', {}, '/aa', last, fix_names=False)
    elif kind == 'rename':
        last.set_alias('other')
    elif kind == 'mute top':
        layers[0].set_muted(True)
    elif kind == 'solo one':
        last.set_soloed(True)
    elif kind == 'override':
        layers[0].set_mute_over(last.filepath, True)
    elif kind == 'reference':
        p = os.path.join(root, 'd2', 'extra.nxt')
        nxt_io.save_file_data({'version': lib.VERSION, 'alias': 'extra',
                               'references': [], 'nodes': nodes(7)}, p)
        data = nxt_io.load_file_data(p)
        data['parent_layer'] = layers[0]
        stage.new_layer(len(layers), data)
        layers[0].add_reference(layer=layers[-1])


def run_case(case, ctx):
    tree, places, ways, overs, kind, start = case
    ctx.n += 1
    root = os.path.join(ctx.dir, 'g%d' % ctx.n)
    for d in ('d1', 'd2', 'd', 'out'):
        os.makedirs(os.path.join(root, d))
    for i in range(3):
        for d in ('', 'd1', 'd2'):
            with open(os.path.join(root, d, 'x%d.txt' % i), 'w') as fp:
                fp.write(d)
    with open(os.path.join(root, 'd1', 'x.txt'), 'w') as fp:
        fp.write('x')
    os.environ['MCROOT'] = root
    fs = files(root, tree, places, ways, overs)
    for p, d in fs:
        with open(p, 'w') as fp:
            json.dump(d, fp)
    stage = Stage.load_from_filepath(fs[0][0])
    at = {'files': [(os.path.relpath(p, root), d['references'],
                     d.get('comp_overrides')) for p, d in fs],
          'edit': kind, 'start': start}
    expect_eq(len(stage._sub_layers), len(fs), 'harness-layers', at)
    edit(stage, kind, root)
    if start >= len(stage._sub_layers):
        return
    comp = stage.build_stage(start)
    before_docs, before_files = lib.docs(stage), snapshot(root)
    before_flags = [(l.get_muted(), l.get_soloed(), dict(l.comp_overrides))
                    for l in stage._sub_layers]
    want = observe(stage, comp)
    cwd = os.getcwd()
    out = os.path.join(root, 'out')
    top = stage.save_to_temp(comp, out)
    if kind == 'twice':
        second = Stage.load_from_filepath(top)
        out = os.path.join(root, 'out2')
        os.makedirs(out)
        top = second.save_to_temp(second.build_stage(), out)
    expect_eq(os.path.dirname(top), out, 'where', at)
    expect_eq(os.getcwd(), cwd, 'cwd', at)
    expect_eq(lib.docs(stage), before_docs, 'docs-changed', at)
    expect_eq([(l.get_muted(), l.get_soloed(), dict(l.comp_overrides))
               for l in stage._sub_layers], before_flags, 'flags-changed', at)
    after = snapshot(root)
    expect_eq({p: b for p, b in after.items()
               if not p.startswith('out')}, before_files, 'files-changed', at)
    expect_eq(observe(stage, comp), want, 'comp-changed', at)
    at['temp'] = {p: json.loads(b.decode()).get('references')
                  for p, b in after.items() if p.startswith('out')}
    copy = Stage.load_from_filepath(top)
    expect_eq([l.get_alias(local=True) for l in copy._sub_layers],
              [l.get_alias(local=True) for l in stage._sub_layers[start:]],
              'layers', at)
    got = observe(copy, copy.build_stage())
    for o in got.values():
        o['attrs'] = {a: (v, t, c, (s[0] + start if isinstance(s[0], int)
                                    else s[0],) + tuple(s[1:]))
                      for a, (v, t, c, s) in o['attrs'].items()}
    if len(set(places)) == len(places):
        expect_eq(got, want, 'comp', at)
    else:
        for o in list(got.values()) + list(want.values()):
            o['attrs'] = {a: v[:3] for a, v in o['attrs'].items()}
        expect_eq(got, want, 'comp', at)
    # What a path means has not changed: everything is in its first place
    ctx.nontrivial(json.dumps([tree, places, ways, overs, kind, start]))
    ctx.count('temp_files', len([p for p in after if p.startswith('out')]))


def shapes(n):
    for tree in TREES[n]:
        for top in TOPS:
            for rest in itertools.product(PLACES, repeat=n - 1):
                places = [top] + list(rest)
                bad = False
                for j in range(1, n):
                    # No file above itself
                    p, seen = tree[j - 1], []
                    while True:
                        seen.append(places[p])
                        if p == 0:
                            break
                        p = tree[p - 1]
                    bad |= places[j] in seen
                # A file is written once
                bad |= len(set(places)) < n
                if not bad:
                    yield tree, places


def places_cases(tier):
    def cases():
        for n in (1, 2, 3):
            for tree, places in shapes(n):
                for ways in itertools.product(WAYS, repeat=n - 1):
                    if n == 3 and tier == 'quick' and ways not in (
                            ('rel', 'rel'), ('abs', 'abs'), ('dots', 'var'),
                            ('rel', 'abs')):
                        continue
                    yield tree, places, list(ways), [], 'none', 0
        if tier != 'quick':
            for tree, places in shapes(4):
                for w in ('rel', 'abs'):
                    yield tree, places, [w] * 3, [], 'none', 0
    return cases


SOME = {2: [[('', 'a.nxt'), ('d1', 'b.nxt')], [('d1', 'a.nxt'),
                                               ('', 'b.nxt')]],
        3: [[('', 'a.nxt'), ('d1', 'b.nxt'), ('d2', 'b.nxt')],
            [('d1', 'a.nxt'), ('', 'b.nxt'), ('d2', 'c.nxt')],
            [('', 'a.nxt'), ('', 'b.nxt'), ('', 'c.nxt')]],
        4: [[('', 'a.nxt'), ('d1', 'b.nxt'), ('d2', 'b.nxt'),
             ('', 'b.nxt')]]}


def flag_cases(tier):
    def cases():
        for n in (2, 3):
            for tree in TREES[n]:
                anc = {}
                for j in range(1, n):
                    p = tree[j - 1]
                    anc[j] = [p]
                    while p:
                        p = tree[p - 1]
                        anc[j].append(p)
                slots = [(h, t) for t in anc for h in anc[t]]
                for places in SOME[n]:
                    for way in ('rel', 'abs'):
                        for fl in itertools.product(FLAGS,
                                                    repeat=len(slots)):
                            overs = [(h, t, f) for (h, t), f
                                     in zip(slots, fl) if f]
                            for start in range(n):
                                yield (tree, places, [way] * (n - 1), overs,
                                       'none', start)
    return cases


def edit_cases(tier):
    def cases():
        for n in (1, 2, 3, 4):
            for tree in TREES[n]:
                for places in SOME.get(n, [[('', 'a.nxt')],
                                           [('d1', 'a.nxt')]]):
                    for way in WAYS:
                        for kind in EDITS:
                            for start in range(n):
                                if start and kind == 'twice':
                                    continue
                                yield (tree, places, [way] * (n - 1), [],
                                       kind, start)
    return cases


def diamond_cases(tier):
    """A file that is referenced twice."""
    def cases():
        for tree in ((0, 0, 1, 2), (0, 0, 2), (0, 0), (0, 0, 1, 0)):
            n = len(tree)
            for places in ([('', 'a.nxt'), ('', 'b.nxt'), ('d1', 'c.nxt'),
                            ('d1', 'b.nxt')],
                           [('', 'a.nxt'), ('d1', 'b.nxt'), ('d2', 'c.nxt'),
                            ('', 'c.nxt')]):
                if n == 2:
                    pl = [places[0], places[1], places[1]]
                elif n == 3:
                    pl = [places[0], places[1], places[2], places[1]]
                else:
                    pl = places + [places[-1]]
                for ways in itertools.product(WAYS[:2], repeat=n):
                    if tier == 'quick' and len(set(ways[:-1])) > 1:
                        continue
                    for kind in EDITS:
                        for start in range(n + 1):
                            if start and kind == 'twice':
                                continue
                            yield tree, pl, list(ways), [], kind, start
    return cases


def untitled_case(case, ctx):
    """Layers that were never saved."""
    count, start = case
    ctx.n += 1
    out = os.path.join(ctx.dir, 'u%d' % ctx.n)
    os.makedirs(out)
    stage = Stage(name='mc')
    for i in range(1, count):
        stage.new_layer(i, {'alias': 'u%d' % i, 'nodes': {
            '/aa': {'attrs': {'vv': {'value': str(i)}}}}})
    stage.add_node('aa', {'vv': {'value': '0'}}, '/', stage._sub_layers[0],
                   fix_names=False)
    comp = stage.build_stage(start)
    want = stage.get_node_attr_value(comp.lookup('/aa'), 'vv', comp)
    top = stage.save_to_temp(comp, out)
    copy = Stage.load_from_filepath(top)
    c = copy.build_stage()
    expect_eq(lib.node_paths(c), {'/', '/aa'} & lib.node_paths(comp) |
              {'/aa'}, 'untitled-nodes', case)
    expect_eq(copy.get_node_attr_value(c.lookup('/aa'), 'vv', c), want,
              'untitled-value', case)
    ctx.nontrivial(('untitled',) + tuple(case))


def parts(tier):
    return [('places', places_cases(tier), run_case),
            ('flags', flag_cases(tier), run_case),
            ('edits', edit_cases(tier), run_case),
            ('diamonds', diamond_cases(tier), run_case),
            ('untitled', lambda: [(c, s) for c in (1, 2, 3)
                                  for s in range(c)], untitled_case)]
