"""C23 file tokens search roots and layers in order."""
import itertools
import os
from mc import lib
from mc.core import expect_eq
from mc.checks.c20 import ref_tokens
from nxt import DATA_STATE

LEVEL = 'exploration'
RULE = ('three layers in directories of their own and two search roots; file '
        'names that exist in every subset of the five places; every way the '
        'layers can set the name, every mute / solo state, start layer and '
        'root list; file, filelist, path and contents tokens in values and '
        'code compared with a reference search.  Non-trivial: distinct '
        '(places, setting, state, result) tuples')
ASSUME = ['every node named in a token exists on all layers; no instances '
          '(C37 covers the lower comps themselves)',
          'acyclic references']
LOC = ['r1', 'r2', 'l0', 'l1', 'l2']
SUBSETS = [s for n in range(6) for s in itertools.combinations(LOC, n)]


def fname(s):
    return 'f' + ''.join(x[-2:] for x in s) + '.txt'


def BOUNDS(tier):
    return {'layers': 3, 'places': 5, 'templates': len(TEMPL),
            'roots': [r for r in ROOTS]}


ROOTS = [None, '', 'r1', 'r2:r1', 'gone:r2', 'plain:r1:']
ND = '/aa/bb'
# attrs of /aa/bb (own), /aa and /cc, set on chosen layers.  NN varies.
TEMPL = {
    'plain': ('${file::@}', {}),
    'dots': ('${file::./sub/../@}', {}),
    'var': ('${file::$FNAME}', {}),
    'attr': ('${file::${nn}}', {}),
    'text': ('<${file::${nn}}|${file::@}>', {}),
    'other': ('${file::${/cc.nn}}', {}),
    'rel': ('${file::${../../cc.nn}}', {}),
    'chain': ('${file::${c1}}', {ND: {'c1': '${c2}'}, '/aa': {'c2': '${nn}'}}),
    'far chain': ('${file::${/cc.c1}}', {'/cc': {'c1': '${nn}'}}),
    'dir': ('${file::${d1}/../${nn}}', {ND: {'d1': 'sub'}}),
    'name of attr': ('${file::${${c1}}}', {ND: {'c1': 'nn'}}),
    'nested': ('${file::${file::${nn}}}', {}),
    'nested text': ('${file::${c1}}', {ND: {'c1': './${file::${nn}}'}}),
    'nested two': ('${file::${c1}}', {ND: {'c1': '${d1}${file::${nn}}',
                                           'd1': './'}}),
    'twice': ('${file::${nn}} ${file::${nn}}', {}),
    'none': ('${file::${none}}', {}),
    'no node': ('${file::${/none.nn}}', {}),
    'list': ('${filelist::${nn}}', {}),
    'list plain': ('${filelist::@}', {}),
    'path': ('${path::${nn}}', {}),
    'path plain': ('${path::../@}', {}),
    'contents': ('${contents::${file::${nn}}}', {}),
    'self tokens': ('${file::${c1}}', {ND: {'c1': '${c2}${c3}', 'c2': '$',
                                            'c3': '{nn}'}}),
}


def setup_worker(ctx):
    ctx.dir = os.path.realpath(os.getcwd())
    for d in LOC:
        os.makedirs(os.path.join(ctx.dir, d, 'sub'))
    for s in SUBSETS:
        for d in s:
            with open(os.path.join(ctx.dir, d, fname(s)), 'w') as fp:
                fp.write('in ' + d)
    with open(os.path.join(ctx.dir, 'plain'), 'w') as fp:
        fp.write('a file')


def active(flags, d):
    idx = [i for i in range(d, 3)]
    solo = [i for i in idx if 's' in flags[i]]
    return [i for i in solo or idx if 'm' not in flags[i]]


class Ref(object):
    """attrs: per layer {node: {attr: value}}."""
    def __init__(self, attrs, roots, base, flags):
        self.attrs, self.roots, self.flags = attrs, roots, flags
        self.base = base

    def find(self, act, node, attr):
        while node:
            for i in act:
                if attr in self.attrs[i].get(node, {}):
                    return self.attrs[i][node][attr]
            if node == '/':
                break
            node = node.rpartition('/')[0] or '/'
        return ''

    def lookup(self, rel, attr, node, act):
        if rel.startswith('/'):
            path = rel
        else:
            path = os.path.normpath(node + '/' + rel)
        if path not in self.attrs[0]:
            return '', node
        return self.find(act, path, attr), path

    def attr(self, text, node, act):
        """Attribute (and nested file) tokens of a file token's content."""
        out, cur = '', 0
        for a, b in ref_tokens(text):
            out += text[cur:a]
            cur = b
            c = text[a + 2:b - 1]
            if c.startswith('file::'):
                out += self.file_at(c[6:], node, act)
                continue
            c = self.attr(c, node, act)
            rel, dot, name = c.rpartition('.')
            if dot and rel:
                v, at = self.lookup(rel, name, node, act)
            else:
                v, at = self.find(act, node, c), node
            out += self.attr(v, at, act)
        return out + text[cur:]

    def file_at(self, content, node, act):
        name = self.attr(content, node, act)
        if content and not name:
            name = '<invalid>'
        name = name.replace('$FNAME', os.environ['FNAME'])
        dirs = [r for r in self.roots] + ['l%d' % act[0]]
        for d in dirs:
            p = os.path.normpath(os.path.join(self.base, d, name))
            if os.path.exists(p):
                return p
        return ''

    def files(self, content, node, first):
        out = []
        for d in range(first, 3):
            act = active(self.flags, d)
            if not act:
                continue
            p = self.file_at(content, node, act)
            if p and p not in out:
                out.append(p)
        return out

    def value(self, text, node, first):
        act = active(self.flags, first)
        out, cur = '', 0
        for a, b in ref_tokens(text):
            out += text[cur:a]
            cur = b
            c = text[a + 2:b - 1]
            if c.startswith('file::'):
                f = self.files(c[6:], node, first)
                out += f[0] if f else ''
            elif c.startswith('filelist::'):
                out += str(self.files(c[10:], node, first))
            elif c.startswith('path::'):
                n = self.value(c[6:], node, first)
                d = self.roots[0] if self.roots else 'l%d' % act[0]
                out += os.path.normpath(os.path.join(self.base, d, n))
            elif c.startswith('contents::'):
                n = self.value(c[10:], node, first)
                if os.path.isfile(n):
                    with open(n) as fp:
                        out += fp.read()
            else:
                v = self.find(act, node, c)
                out += self.value(v, node, first)
        return out + text[cur:]


def run(case, ctx):
    tname, sub, setting, roots, flags, first, at = case
    os.environ['FNAME'] = fname(sub)
    text, extra = TEMPL[tname]
    text = text.replace('@', fname(sub))
    attrs = [{ND: {}, '/aa': {}, '/cc': {}, '/': {}} for _ in range(3)]
    for p, d in extra.items():
        attrs[2][p].update(d)
    attrs[at][ND]['tt'] = text
    for i, v in enumerate(setting):
        if v is None:
            continue
        attrs[i][ND]['nn'] = v
        attrs[i]['/cc']['nn'] = v if tname == 'far chain' else v
    if tname == 'far chain':
        # the far node's own value differs from the asking node's
        attrs[2][ND] = dict(attrs[2][ND], nn='nope.txt')
        attrs[0][ND]['nn'] = 'nope.txt'
    layers = []
    for i in range(3):
        nodes = {p: {'attrs': {a: {'value': v} for a, v in d.items()}}
                 for p, d in attrs[i].items()}
        nodes[ND]['code'] = ['x = "%s"' % text]
        layers.append({'path': os.path.join(ctx.dir, 'l%d' % i, 'd%d.nxt' % i),
                       'nodes': nodes})
    if roots is None:
        os.environ.pop('NXT_FILE_ROOTS', None)
        live = []
    else:
        os.environ['NXT_FILE_ROOTS'] = ':'.join(
            os.path.join(ctx.dir, r) if r else '' for r in roots.split(':'))
        live = [r for r in roots.split(':') if r in LOC]
    stage = lib.mk_stage(layers)
    for i, l in enumerate(stage._sub_layers):
        l.solo = 's' in flags[i]
        l.mute = 'm' in flags[i]
    act = active(flags, first)
    if not act:
        ctx.count('nothing_active')
        return
    comp = stage.build_stage(first)
    n = comp.lookup(ND)
    ref = Ref(attrs, live, ctx.dir, flags)
    # what the reader sees is the strongest active opinion on tt
    raw = ref.find(act, ND, 'tt')
    want = ref.value(raw, ND, first)
    here = os.getcwd()
    got = stage.get_node_attr_value(n, 'tt', comp)
    expect_eq(got, want, 'resolved:' + tname)
    got = stage.get_node_code_lines(n, comp, DATA_STATE.RESOLVED)
    expect_eq(got, ['x = "%s"' % ref.value(text, ND, first)],
              'code:' + tname)
    expect_eq(os.getcwd(), here, 'cwd-moved')
    ctx.nontrivial((tname, sub, setting, roots, flags, first,
                    want.replace(ctx.dir, '')))


FULL = ('attr', 'plain', 'list', 'path')
FLAGS = [f for f in itertools.product(('', 'm', 's'), repeat=3)]
FEW = [('', '', ''), ('m', '', ''), ('', 'm', ''), ('', 's', '')]


def cases(tier):
    big = [fname(s) for s in SUBSETS]
    for tname in TEMPL:
        full = tname in FULL or tier == 'thorough'
        for sub in SUBSETS:
            f = fname(sub)
            g = fname(('l1',)) if sub != ('l1',) else fname(('l2', 'r2'))
            settings = [s for s in itertools.product((None, f, g), repeat=3)
                        if f in s or s == (None, None, None)]
            if not full:
                settings = settings[::5]
            if 'nn' not in TEMPL[tname][0] and 'nn' not in str(TEMPL[tname]):
                settings = [(None, None, None)]
            for st in settings:
                for r in (ROOTS if full and tier == 'thorough' else
                            ROOTS[::2] if not full else ROOTS[1:]):
                    yield tname, sub, st, r, FEW[0], 0, 2
                for fl in (FLAGS if tier == 'thorough' else FEW[1:]):
                    yield tname, sub, st, None, fl, 0, 2
                for first in (1, 2):
                    yield tname, sub, st, None, FEW[0], first, 2
    for tname in FULL:
        for sub in SUBSETS if tier == 'thorough' else SUBSETS[::3]:
            for fl in FLAGS:
                for first in (0, 1, 2):
                    for at in (0, 1, 2):
                        for r in (None, 'gone:r2'):
                            yield (tname, sub, (None, fname(sub), None), r,
                                   fl, first, at)


WHERE = ['l0', 'gone', 'l1/sub', None]


def run_where(case, ctx):
    """The folder of the (strongest active) layer may be anywhere."""
    folders, cwds, roots, mute, kind = case
    if roots is None:
        os.environ.pop('NXT_FILE_ROOTS', None)
        live = []
    else:
        os.environ['NXT_FILE_ROOTS'] = os.path.join(ctx.dir, roots)
        live = [roots] if roots in LOC else []
    f = fname(('l0', 'r1'))
    text = {'path': '${path::%s}', 'path attr': '${path::${nn}}',
            'path up': '${path::../%s}', 'file': '${file::%s}',
            'list': '${filelist::%s}'}[kind]
    text = text.replace('%s', f)
    layers = []
    for i, (d, c) in enumerate(zip(folders, cwds)):
        nodes = {ND: {'attrs': {}}}
        if i == len(folders) - 1:
            nodes[ND]['attrs'] = {'tt': {'value': text}, 'nn': {'value': f}}
        l = {'path': os.path.join(ctx.dir, d, 'w%d.nxt' % i) if d else None,
             'nodes': nodes}
        if c:
            l['cwd'] = os.path.join(ctx.dir, c)
        layers.append(l)
    stage = lib.mk_stage(layers)
    for l in stage._sub_layers[:mute]:
        l.mute = True
    here = os.getcwd()

    def place(i):
        d = cwds[i] or folders[i]
        return os.path.join(ctx.dir, d) if d else here
    up = range(mute, len(folders))
    if kind.startswith('path'):
        d = os.path.join(ctx.dir, live[0]) if live else place(mute)
        if not os.path.isdir(d):
            d = here
        want = os.path.normpath(os.path.join(
            d, '../' + f if kind == 'path up' else f))
    else:
        want = []
        for i in up:
            for d in [os.path.join(ctx.dir, r) for r in live] + [place(i)]:
                p = os.path.join(d, f)
                if os.path.isdir(d) and os.path.isfile(p):
                    if p not in want:
                        want.append(p)
                    break
        want = str(want) if kind == 'list' else (want + [''])[0]
    comp = stage.build_stage()
    got = stage.get_node_attr_value(comp.lookup(ND), 'tt', comp)
    expect_eq(got, want, 'resolved-in-folder', case)
    expect_eq(os.getcwd(), here, 'cwd-moved')
    ctx.nontrivial((case, want.replace(ctx.dir, '')))


def where_cases():
    for folders in itertools.product(WHERE, repeat=2):
        for cwds in itertools.product((None, 'r2', 'gone'), repeat=2):
            for roots in (None, 'r1', 'gone'):
                for mute in (0, 1):
                    for kind in ('path', 'path attr', 'path up', 'file',
                                 'list'):
                        yield folders, cwds, roots, mute, kind


def parts(tier):
    return [('search', lambda: cases(tier), run),
            ('folders', where_cases, run_where)]
