"""C22 file paths expand from the right place, leaving no trace."""
import itertools
import os
from mc.core import expect, expect_eq
from nxt import nxt_path
from nxt.stage import Stage
from mc import lib

LEVEL = 'exploration'
RULE = ('every string over a fragment alphabet of separators, names, links, '
        '"..", "~" and variables of both platforms, from several start '
        'directories (absent, relative, missing, a file) and working '
        'directories; compared with a reference expansion that scans '
        'variables left to right and walks the path name by name.  '
        'Non-trivial: distinct (start, expanded path) pairs')
ASSUME = ['posix file system; variables hold text without newlines']
FR = ['/', 'aa', '..', '.', 'ln', '$VV', '${VV}', '%VV%', '%V1%', '~',
      '$HH', '$UU', '%UU%', '_x', '1', '%', '$']
CORE = ['/', 'aa', '..', 'ln', '$VV', '%V1%', '${WW}', '~', '%UU%', '.']


def BOUNDS(tier):
    return {'fragments': 4 if tier == 'quick' else 5, 'alphabet': len(FR),
            'deep_fragments': 5 if tier == 'quick' else 6,
            'deep_alphabet': len(CORE)}


ENV = {'VV': 'aa/bb', 'V1': '..', 'WW': '%VV%$VV', 'VV_x': 'vx',
       'HH': '~/aa'}


def setup_worker(ctx):
    ctx.dir = os.path.realpath(os.getcwd())
    for d in ('r/aa/bb', 'r/cc/aa', 'out/aa/bb/cc', 'home/aa'):
        os.makedirs(os.path.join(ctx.dir, d))
    os.symlink('../out/aa', os.path.join(ctx.dir, 'r/ln'))
    os.symlink(os.path.join(ctx.dir, 'r/cc'),
               os.path.join(ctx.dir, 'out/aa/ln'))
    os.symlink('bb', os.path.join(ctx.dir, 'r/aa/ln'))
    with open(os.path.join(ctx.dir, 'r/file'), 'w') as fp:
        fp.write('x')
    os.environ.update(ENV)
    os.environ.pop('UU', None)
    os.environ['HOME'] = os.path.join(ctx.dir, 'home')
    os.chdir(os.path.join(ctx.dir, 'r'))


IDENT = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_'


def ident(s, i):
    j = i
    while j < len(s) and (s[j] in IDENT or (j > i and s[j] in '0123456789')):
        j += 1
    return s[i:j]


def ref_vars(s):
    """Foreign variables become native ones, then one native pass."""
    out, i = '', 0
    while i < len(s):
        if s[i] == '%':
            n = ident(s, i + 1)
            if n and s[i + 1 + len(n):i + 2 + len(n)] == '%':
                out += '${' + n + '}'
                i += len(n) + 2
                continue
        out += s[i]
        i += 1
    s, out, i = out, '', 0
    while i < len(s):
        if s[i] == '$':
            if s[i + 1:i + 2] == '{' and '}' in s[i + 2:]:
                n = s[i + 2:s.index('}', i + 2)]
                full = '${' + n + '}'
            else:
                n = ''
                for c in s[i + 1:]:
                    if c not in IDENT + '0123456789':
                        break
                    n += c
                full = '$' + n
            if n in os.environ:
                out += os.environ[n]
            else:
                out += full
            i += len(full)
            continue
        out += s[i]
        i += 1
    return out


def walk(path, cwd, hops=0):
    """Resolve name by name, following links physically."""
    cur = '' if path.startswith('/') else cwd
    for part in path.split('/'):
        if part in ('', '.'):
            continue
        if part == '..':
            cur = cur.rpartition('/')[0]
            continue
        nxt = cur + '/' + part
        if os.path.islink(nxt):
            assert hops < 20
            nxt = walk(os.readlink(nxt), cur, hops + 1)
        cur = nxt
    return cur or '/'


def ref_expand(s, cwd):
    s = ref_vars(s)
    if s == '~' or s.startswith('~/'):
        s = os.environ['HOME'] + s[1:]
    return walk(s, cwd if cwd != '/' else '')


STARTS = [None, '', 'aa', '/r', '/r/aa/bb', 'ln', '../out']


def case(c, ctx):
    text = ''.join(c)
    here = os.getcwd()
    flat = ref_vars(text)
    if flat[:1] == '~' and flat[1:2] not in ('', '/'):
        ctx.count('other_users_home')
        return
    for st in STARTS:
        start = ctx.dir + st if st and st[0] == '/' else st
        cwd = os.path.realpath(os.path.join(here, start)) if start else here
        want = ref_expand(text, cwd)
        got = nxt_path.full_file_expand(text, start)
        expect_eq(got, want, 'expand', (text, st))
        expect_eq(os.getcwd(), here, 'cwd-moved', (text, st))
        ctx.nontrivial((st, got[len(ctx.dir):] if got.startswith(ctx.dir)
                        else got))
    again = nxt_path.full_file_expand(want)
    if '$' not in want and '%' not in want:
        expect_eq(again, want, 'not-idempotent', text)


def cases(tier):
    b = BOUNDS(tier)
    for n in range(0, b['fragments'] + 1):
        for c in itertools.product(FR, repeat=n):
            yield c
    for c in itertools.product(CORE, repeat=b['deep_fragments']):
        yield c


def bad_case(c, ctx):
    """A start that can't be entered fails and leaves everything alone."""
    text, start = c
    here = os.getcwd()
    try:
        nxt_path.full_file_expand(text, start)
        failed = False
    except OSError:
        failed = True
    expect(failed, 'bad-start-accepted', c)
    expect_eq(os.getcwd(), here, 'cwd-moved', c)
    try:
        nxt_path.full_file_expand('aa\0b' if text == 'aa' else None,
                                  ctx.dir + '/out')
    except (ValueError, TypeError, AttributeError):
        pass
    expect_eq(os.getcwd(), here, 'cwd-moved', 'bad path')


def bad_cases():
    return [(t, s) for t in ('aa', '../aa', '$VV', '')
            for s in ('nope', 'file', 'aa/nope')]


def parts(tier):
    return [('expand', lambda: cases(tier), case),
            ('bad start', bad_cases, bad_case)]
