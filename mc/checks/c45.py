"""C45 plugins load once, nearest first, and take part in resolving."""
import itertools
import json
import os
import shutil
import subprocess
import sys
from mc import lib
from mc.core import expect, expect_eq

LEVEL = 'model_checking'
RULE = ('every kind of plugin file in the user folder with every kind of the '
        'same name in the site folder, every pair of tokens registered from '
        'the two folders and every pair of reference expanders; each in a '
        'newly started nxt (started twice for the files), compared with a '
        'model of which is found first.  State: what was loaded and how '
        'every text resolved')
ASSUME = ['names of plugin packages hold no dot, reference expanders '
          'return absolute paths',
          'plugins themselves do not raise while they are imported',
          'names of plugins are not those of imported python modules',
          'tokens registered in one folder are registered by one plugin']
CASE_TIMEOUT = 120
KINDS = ['', 'py', 'pkg', 'txt', 'dir', 'py+nxt', 'py+back', 'nxt', 'both',
         'py+txt']
NAMES = ['plain', 'under_score', 'UPPER', 'n1', 'da-sh', 'sp ace', 'do.t']
PREFIXES = ['aa::', 'a', 'aab', 'file::', 'path::', 'ex::', '_nxtpath', 'vv',
            '::']
EXPANDERS = [None, 'here', 'missing', 'empty', 'folder', 'same']
START = r'''
import json, os, sys
import nxt
from nxt import nxt_io
from nxt.stage import Stage
from nxt.constants import DATA_STATE
job = json.loads(sys.argv[1])
out = []
for text in job.get('texts', ()):
    stage = Stage.load_from_filepath(job['file'])
    layer = stage.top_layer
    stage.node_setattr_data(layer.lookup('/aa/bb'), 'tt', layer, create=True,
                            value=text)
    layer.lookup('/cc')
    stage.node_setattr_data(layer.lookup('/cc'), 'far', layer, create=True,
                            value='(${/aa/bb.tt})')
    stage.set_node_code_lines(layer.lookup('/aa/bb'), ['x = """' + text +
                              '"""'], None)
    comp = stage.build_stage()
    got = [stage.get_node_attr_value(comp.lookup('/aa/bb'), 'tt', comp),
           stage.get_node_attr_value(comp.lookup('/cc'), 'far', comp),
           stage.get_node_code_lines(comp.lookup('/aa/bb'), comp,
                                     DATA_STATE.RESOLVED)]
    out.append(got)
for ref in job.get('files', ()):
    try:
        data = nxt_io.load_file_data(ref)
        out.append([data['real_path'], data.get('alias')])
    except (IOError, OSError):
        out.append(None)
    stage = Stage.load_from_filepath(job['top'])
    out.append([l.get_alias() for l in stage._sub_layers])
print('\nRESULT' + json.dumps(out))
'''


def BOUNDS(tier):
    return {'kinds': len(KINDS), 'names': len(NAMES),
            'prefixes': len(PREFIXES), 'expanders': len(EXPANDERS),
            'folders': 2}


def start(ctx, root, job, site=True):
    env = dict(os.environ, NXT_USER_DIR=os.path.join(root, 'user'),
               MC_MARK=os.path.join(root, 'mark'))
    env.pop('NXT_FILE_ROOTS', None)
    env.pop('NXT_SITE_DIR', None)
    if site:
        env['NXT_SITE_DIR'] = os.path.join(root, 'site')
    ctx.count('processes')
    p = subprocess.run([sys.executable, '-c', START, json.dumps(job)],
                       cwd=os.path.join(root, 'work'), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       stdin=subprocess.DEVNULL, timeout=90)
    text = p.stdout.decode('utf-8', 'replace')
    expect('\nRESULT' in text, 'nxt-does-not-start', lambda: (
        job, p.stderr.decode('utf-8', 'replace')[-600:]))
    return json.loads(text.rpartition('\nRESULT')[2])


def case_dir(fn):
    def run(case, ctx):
        root = os.path.join(os.path.realpath(os.getcwd()), 'case')
        shutil.rmtree(root, ignore_errors=True)
        for d in ('user', 'site'):
            os.makedirs(plugins(root, d))
        os.makedirs(os.path.join(root, 'work'))
        try:
            fn(case, ctx, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)
    return run


def plugins(root, where):
    return os.path.join(root, where, 'config', '0', 'plugins')


def put(path, text):
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    with open(path, 'w') as fp:
        fp.write(text)


def marker(label):
    return ('import os\nwith open(os.environ["MC_MARK"], "a") as fp:\n'
            '    fp.write(%r)\n' % (label + '\n'))


def write_kind(d, name, kind, label):
    p = os.path.join(d, name)
    if kind.startswith('py') or kind == 'both':
        put(p + '.py', marker(label))
    if kind in ('pkg', 'both'):
        put(os.path.join(p, '__init__.py'), marker(label))
        put(os.path.join(p, 'inner.py'), marker(label + ' inner'))
    if kind in ('txt', 'py+txt'):
        put(p + '.txt', 'no python')
    if kind in ('nxt', 'py+nxt'):
        put(p + '.nxt', '{}')
    if kind == 'py+back':
        put(p + '.py~', 'no python')
        put(p + '.bak', 'no python')
    if kind == 'dir':
        os.makedirs(p)
        put(os.path.join(p, 'inner.py'), marker(label + ' inner'))


def is_python(kind):
    return kind.startswith('py') or kind in ('pkg', 'both')


def marks(root):
    p = os.path.join(root, 'mark')
    if not os.path.isfile(p):
        return []
    with open(p) as fp:
        got = sorted(fp.read().split('\n')[:-1])
    os.remove(p)
    return got


@case_dir
def run_places(case, ctx, root):
    """case: [(name, user kind, site kind)], whether there is a site."""
    names, site = case
    want = []
    # Neither above the user folder nor of an other version
    write_kind(plugins(root, ''), 'stray', 'py', 'stray')
    write_kind(os.path.join(root, 'user', 'config', '1', 'plugins'), 'stray',
               'py', 'stray')
    for name, u, s in names:
        write_kind(plugins(root, 'user'), name, u, name + ' user')
        write_kind(plugins(root, 'site'), name, s, name + ' site')
        if is_python(u):
            want.append(name + ' user')
        elif is_python(s) and site:
            want.append(name + ' site')
    for again in (0, 1):
        start(ctx, root, {}, site)
        expect_eq(marks(root), sorted(want), 'loaded', again)
        ctx.transition()
    ctx.state((case,))
    ctx.trace()


BUILTIN = ['', 'py', 'pkg', 'txt', 'dir']


@case_dir
def run_builtin(case, ctx, root):
    """A user's plugin takes the place of a builtin one of its name."""
    u, s, name = case
    for where, kind in (('user', u), ('site', s)):
        write_kind(plugins(root, where), name, kind, where)
    if not s:
        shutil.rmtree(os.path.join(root, 'site'))
    f = os.path.join(root, 'work', 'top.nxt')
    put(f, json.dumps({'version': lib.VERSION, 'alias': 'top', 'nodes': {
        '/aa/bb': {}, '/cc': {}}}))
    put(os.path.join(root, 'work', 'there.txt'), 'x')
    got = start(ctx, root, {'file': f, 'texts': [
        '${ex::abc}', '${filelist::there.txt}']})
    replaced = is_python(u) or is_python(s)
    expect_eq(marks(root), [] if not replaced else
              ['user' if is_python(u) else 'site'], 'loaded')
    there = os.path.join(root, 'work', 'there.txt')
    want = ['' if replaced and name == 'example' else 'cba',
            '' if replaced and name == 'file_fallbacks' else str([there])]
    expect_eq([g[0] for g in got], want, 'tokens-of-builtins')
    expect_eq([g[1] for g in got], ['(%s)' % w for w in want],
              'tokens-of-builtins')
    ctx.transition()
    ctx.state(case)
    ctx.trace()


TOKENS = '''
from nxt.tokens import register_token
def make(prefix, label):
    def detect(value):
        return value.startswith(prefix) and label != 'never'
    def resolve(stage, node, value, layer, **kwargs):
        if label == 'none':
            return None
        return '<' + label + ':' + stage.resolve(node, value, layer) + '>'
    register_token(prefix, detect, resolve)
for prefix, label in %r:
    make(prefix, label)
'''
ATTRS = {'vv': 'val', 'aax': 'two', 'x': '${vv}', 'aa': '3', 'tt': None}
TEXTS = ['${aa::x}', '${aa::${vv}}', '${ax}', '${vv}', '${x}', '${aax}',
         '-${aa::x}-${vv}-', '${ex::${vv}}', '${ex::${aa::x}}',
         '${aa::${ex::12}}', '${_nxtpath}', '${aab}', '${aabx}', '${a}',
         '${::q}', '${path::q}', '${file::${aa::x}}', '${aa::}',
         '${/cc.vv}', '${aa::${/cc.x}}', 'none', '${file::q']


def ref_tokens(text):
    """Outermost tokens; none of an unbalanced text."""
    out, depth, i, at = [], 0, 0, 0
    while i < len(text):
        if text[i:i + 2] == '${':
            if not depth:
                at = i
            depth += 1
        elif depth and text[i] == '}':
            depth -= 1
            if not depth:
                out.append((at, i + 1))
        i += 1
    return out if not depth else []


class Skip(Exception):
    pass


def ref(text, regs, attrs, work, node='/aa/bb'):
    out, cur = '', 0
    for a, b in ref_tokens(text):
        out += text[cur:a]
        cur = b
        c = text[a + 2:b - 1]
        for prefix, label in regs:
            if c.startswith(prefix) and label != 'never':
                out += '' if label == 'none' else '<%s:%s>' % (
                    label, ref(c[len(prefix):], regs, attrs, work, node))
                break
        else:
            if c.startswith('ex::'):
                out += ref(c[4:], regs, attrs, work, node)[::-1]
            elif c.startswith('path::'):
                out += os.path.join(work, ref(c[6:], regs, attrs, work, node))
            elif c.startswith(('file::', 'filelist::', 'contents::')):
                if '$' in c:
                    # How file tokens look into their content is C23's
                    raise Skip
            elif c == '_nxtpath':
                out += node
            else:
                c = ref(c, regs, attrs, work, node)
                path, dot, name = c.rpartition('.')
                at = path if dot else node
                v = attrs.get(at, {}).get(name)
                out += ref(v or '', regs, attrs, work, at)
    return out + text[cur:]


@case_dir
def run_tokens(case, ctx, root):
    """case: the tokens of a user's and of a site's plugin, in order"""
    user, site = case
    if user:
        put(os.path.join(plugins(root, 'user'), 'mine.py'),
            TOKENS % (list(user),))
    if site:
        put(os.path.join(plugins(root, 'site'), 'theirs.py'),
            TOKENS % (list(site),))
    regs = list(user) + list(site)
    work = os.path.join(root, 'work')
    attrs = {'/aa/bb': {'x': '${vv}', 'vv': 'val', 'aax': 'two'},
             '/cc': {'vv': 'far', 'x': '${vv}'}}
    f = os.path.join(work, 'top.nxt')
    put(f, json.dumps({'version': lib.VERSION, 'alias': 'top', 'nodes': {
        p: {'attrs': {k: {'value': v} for k, v in d.items()}}
        for p, d in attrs.items()}}))
    got = start(ctx, root, {'file': f, 'texts': TEXTS})
    for text, (own, far, code) in zip(TEXTS, got):
        ctx.transition()
        at = dict(attrs, **{'/aa/bb': dict(attrs['/aa/bb'], tt=text)})
        far_text = '(${/aa/bb.tt})'
        try:
            want = ref(text, regs, at, work)
        except Skip:
            ctx.count('skipped')
            continue
        expect_eq(own, want, 'resolved', text)
        expect_eq(code, ref('x = """' + text + '"""', regs, at,
                            work).split('\n'), 'code', text)
        expect_eq(far, ref(far_text, regs, at, work, '/cc'), 'far', text)
    ctx.state((case, got and [g[0] for g in got][:6]))
    ctx.trace()


EXPAND = '''
import os
from nxt import nxt_io
root = os.environ['NXT_USER_DIR'][:-len('/user')]
def expander(path):
    return {'here': os.path.join(root, %(where)r + 'refs',
                                 os.path.basename(path)),
            'missing': os.path.join(root, 'nowhere', path),
            'empty': '', 'folder': root,
            'same': os.path.abspath(path)}[%(kind)r]
nxt_io.register_reference_path_expander(expander)
'''


@case_dir
def run_expanders(case, ctx, root):
    kinds, default = case
    work = os.path.join(root, 'work')

    def doc(alias, **kw):
        return json.dumps(dict({'version': lib.VERSION, 'alias': alias,
                                'nodes': {}}, **kw))
    want = None
    for where, kind in zip(('user', 'site'), kinds):
        put(os.path.join(root, where + 'refs', 'ref.nxt'), doc(where))
        if kind:
            put(os.path.join(plugins(root, where), 'plug_' + where + '.py'),
                EXPAND % dict(where=where, kind=kind))
    put(os.path.join(root, 'top', 'top.nxt'),
        doc('top', references=['ref.nxt']))
    below = None
    for where, kind in zip(('user', 'site'), kinds):
        if kind == 'here' and want is None:
            want = below = where
        if kind == 'same' and default and want is None:
            want, below = 'work', 'near'
    if default:
        put(os.path.join(work, 'ref.nxt'), doc('work'))
        put(os.path.join(root, 'top', 'ref.nxt'), doc('near'))
        if want in (None, 'work'):
            want, below = 'work', 'near'
    job = {'files': ['ref.nxt'], 'top': os.path.join(root, 'top', 'top.nxt')}
    one, layers = start(ctx, root, job)
    expect_eq(one and one[1], want, 'found', case)
    expect_eq(layers, ['top'] + ([below] if below else []), 'reference',
              case)
    if one:
        expect(os.path.isfile(one[0]), 'path', one)
    ctx.transition(2)
    ctx.state((case, want))
    ctx.trace()


def parts(tier):
    full = tier != 'quick'

    def places():
        grid = list(itertools.product(KINDS, repeat=2))
        for site in (True, False):
            for name in NAMES if full else NAMES[:2]:
                yield [('%s%d' % (name, i), u, s)
                       for i, (u, s) in enumerate(grid)], site
            for name in NAMES:
                for u, s in (('py', 'py'), ('', 'py'), ('pkg', 'py'),
                             ('txt', 'pkg')):
                    if '.' in name and 'pkg' in (u, s):
                        continue
                    yield [(name, u, s)], site

    def builtin():
        for name in ('example', 'file_fallbacks'):
            for u in BUILTIN:
                for s in BUILTIN:
                    yield u, s, name

    def toks():
        P = PREFIXES
        for p in P:
            yield ((p, 'U'),), ()
            yield (), ((p, 'S'),)
            yield ((p, 'none'),), ((p, 'S'),)
            yield ((p, 'never'),), ((p, 'S'),)
        for p, q in itertools.product(P if full else P[:7], repeat=2):
            yield ((p, 'U'),), ((q, 'S'),)
            if full or 'a' in (p, q):
                yield ((p, 'U'), (q, 'V')), ()
        if full:
            for p, q, r in itertools.permutations(P[:6], 3):
                yield ((p, 'U'), (q, 'V')), ((r, 'S'),)

    def exps():
        for kinds in itertools.product(EXPANDERS, repeat=2):
            for default in (True, False):
                yield kinds, default
    return [('places', places, run_places), ('builtin', builtin, run_builtin),
            ('tokens', toks, run_tokens), ('expanders', exps, run_expanders)]
