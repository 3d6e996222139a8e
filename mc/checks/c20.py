"""C20 tokens are parsed and resolved as written."""
import ast
import itertools
import os
from mc import lib
from mc.core import expect, expect_eq
from nxt import tokens, DATA_STATE
from nxt.nxt_layer import LayerReturnTypes as R

LEVEL = 'exploration'
RULE = ('parsing: every string over a fragment alphabet, compared with a '
        'recursive-descent reading; resolving: every assignment of value '
        'templates to the attributes of two or three nodes with acyclic '
        'references, every attribute and code line compared with a reference '
        'resolver; typed values: every string over a literal alphabet.  '
        'Non-trivial: distinct (token list) or (resolved value) results')
ASSUME = ['attribute references are acyclic (a cyclic reference has no value)']
FR = ['${', '}', '$', '{', 'aa', 'file::']
LIT = ['1', "'", '[', ']', '{', '}', ',', ':', 'a', '-', '()', '.']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'parse_len': 7 if q else 8, 'templates': len(TEMPL),
            'literal_len': 4 if q else 5,
            'three_attr_templates': len(SUB[tier])}


# ---------------------------------------------------------------- reference
def ref_tokens(text):
    """Outermost tokens [(start, end)], or [] when the last one is open."""
    out = []
    i = 0
    while i < len(text):
        if text.startswith('${', i):
            depth, j = 1, i + 2
            while j < len(text) and depth:
                if text.startswith('${', j):
                    depth += 1
                    j += 2
                    continue
                if text[j] == '}':
                    depth -= 1
                j += 1
            if depth:
                return []
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def parse_case(case, ctx):
    text = ''.join(case)
    want = [text[a:b] for a, b in ref_tokens(text)]
    got = tokens.get_standalone_tokens(text)
    expect_eq(got, want, 'standalone-tokens', text)
    if want:
        ctx.nontrivial(('p', tuple(want)))
    for t in want:
        c = tokens.get_token_content(t)
        expect_eq(c, t[2:-1], 'token-content', t)
        expect_eq(tokens.make_token_str(c), t, 'make-token', t)
    only = tokens.get_standalone_tokens(text, (tokens.TOKENTYPE.FILE,))
    expect_eq(only, [t for t in want if t.startswith('${file::')],
              'typed-tokens', text)
    b, tok, a = tokens.atomic_token_partition(text)
    k = text.rfind('${')
    e = text.find('}', k) if k >= 0 else -1
    if e < 0:
        expect_eq((b, tok, a), (None, None, None), 'atomic', text)
    else:
        expect_eq((b, tok, a), (text[:k], text[k:e + 1], text[e + 1:]),
                  'atomic', text)
        expect('${' not in tok[2:] and '}' not in tok[:-1], 'atomic-nested',
               text)
    ctx.count('strings')


def parse_cases(tier):
    for n in range(BOUNDS(tier)['parse_len'] + 1):
        for c in itertools.product(FR, repeat=n):
            yield c


# ------------------------------------------------------------------ resolve
class Loop(Exception):
    pass


class Ref(object):
    """layers of {node: {attr: value}} already composed (own + parents)."""
    def __init__(self, attrs, files, cwd):
        self.attrs, self.files, self.cwd = attrs, files, cwd

    def find(self, node, attr):
        t = node
        while t:
            if attr in self.attrs.get(t, {}):
                return self.attrs[t][attr]
            t = t.rpartition('/')[0]
        return ''

    def value(self, node, attr, stack=()):
        if (node, attr) in stack:
            raise Loop()
        stack = stack + ((node, attr),)
        if node not in self.attrs:
            return ''
        return self.resolve(node, str(self.find(node, attr)), stack)

    def resolve(self, node, text, stack=()):
        out, cur = '', 0
        for a, b in ref_tokens(text):
            out += text[cur:a] + self.token(node, text[a + 2:b - 1], stack)
            cur = b
        return out + text[cur:]

    def token(self, node, content, stack):
        if not content:
            return None
        if content.startswith('ex::'):
            return self.resolve(node, content[4:], stack)[::-1]
        if content.startswith('path::'):
            v = self.resolve(node, content[6:], stack)
            return os.path.normpath(os.path.join(self.cwd, v))
        if content.startswith('contents::'):
            v = self.resolve(node, content[10:], stack)
            c = self.files.get(v)
            if c is None:
                return ''
            return self.resolve(node, c, stack)
        if content == '_nxtpath':
            return node
        if content == '_nxtcolor':
            return '#123456'
        ref = self.resolve(node, content, stack)
        path, dot, attr = ref.rpartition('.')
        if not (dot and path and attr):
            return self.value(node, ref, stack)
        if not path.startswith('/'):
            cur = node
            for part in path.split('/'):
                if part == '..':
                    cur = cur.rpartition('/')[0]
                elif part != '.':
                    cur = cur.rstrip('/') + '/' + part
            path = cur or '/'
        return self.value(path, attr, stack)


CW = '/nn'
OTHER = '/nn/kid'
SIB = '/mm'
TEMPL = ['plain', '', '7', '${bb}', '${/mm.bb}', 'x${bb}y${bb}z', '${aa}',
         '${../mm.aa}', '${${bb}}', '${/mm.${cc}}', '${_nxtpath}', '${none}',
         '${/none.aa}', '${ex::ab${cc}}', '${contents::%(d)s/f0}',
         '${contents::%(d)s/${cc}}${bb}', '${path::sub/${cc}}', 'a${open',
         'cl}ose', '$', '${bb}{cc}${cc}', 'bb', 'l1\nl2', '${/nn/kid.cc}',
         '${/nn.aa}', '${_nxtcolor}', 'f0', '{${bb}}', '${./kid.bb}',
         '${cc}${bb}${cc}', '${}']
SUB = {'quick': TEMPL,
       'thorough': TEMPL}
FILES = {'f0': 'file ${bb} ${_nxtpath}', 'plain': 'p${open', 'bb': '${cc}'}


def setup_worker(ctx):
    os.environ.pop('NXT_FILE_ROOTS', None)
    ctx.dir = os.getcwd()
    ctx.files = {}
    for k, v in FILES.items():
        with open(os.path.join(ctx.dir, k), 'w') as fp:
            fp.write(v)
        ctx.files[os.path.join(ctx.dir, k)] = v


def check_doc(attrs, ctx):
    nodes = {p: {'attrs': {a: {'value': v} for a, v in d.items()}}
             for p, d in attrs.items()}
    path = os.path.join(ctx.dir, 'doc.nxt')
    code = ['%s = ${%s}' % (a, a) for a in ('aa', 'bb')] + ['${/mm.aa};${cc}']
    for p in nodes:
        nodes[p]['code'] = code
    ref = Ref(attrs, ctx.files, ctx.dir)
    want = {}
    try:
        for p in attrs:
            for a in ('aa', 'bb', 'cc'):
                want[p, a] = ref.value(p, a)
            lines = []
            for line in code:
                lines += ref.resolve(p, line).split('\n')
            want[p] = lines
    except Loop:
        ctx.count('cyclic_skipped')
        return
    except TypeError:
        ctx.count('empty_token_skipped')
        return
    stage = lib.mk_stage([{'path': path, 'nodes': nodes, 'color': '#123456'}])
    comp = stage.build_stage()
    for p in attrs:
        n = comp.lookup(p)
        for a in ('aa', 'bb', 'cc'):
            got = stage.get_node_attr_value(n, a, comp, resolved=True)
            expect_eq(got, want[p, a], 'resolved-value',
                      lambda: '' if 0 else repr((p, a)))
            ctx.nontrivial(('r', got))
            if a in stage.get_node_attr_names(n):
                real = stage.get_attr_as_real_data_type(n, a, comp)
                w = literal(want[p, a])
                expect(real == w and type(real) is type(w), 'typed-value',
                       lambda: repr((real, w)))
        got = stage.get_node_code_lines(n, comp, DATA_STATE.RESOLVED)
        expect_eq(got, want[p], 'resolved-code', p)
        expect_eq(stage.get_node_code_string(n, comp, DATA_STATE.RESOLVED),
                  '\n'.join(want[p]), 'resolved-code-string', p)
        expect_eq(stage.get_node_code_lines(n, comp), code, 'raw-code', p)
        for a, v in attrs[p].items():
            raw = stage.get_node_attr_value(n, a, comp, resolved=False)
            expect_eq(raw, v, 'raw-value', (p, a))
    ctx.count('documents')


def two_case(case, ctx):
    """aa and bb of one node, bb of another one, children inherit."""
    t = [TEMPL[i] % {'d': ctx.dir} if '%(d)' in TEMPL[i] else TEMPL[i]
         for i in case]
    check_doc({'/': {}, CW: {'aa': t[0], 'bb': t[1], 'cc': 'plain'},
               OTHER: {'cc': 'bb'}, SIB: {'aa': t[2], 'bb': 'm b',
                                          'cc': 'f0'}}, ctx)


def two_cases(tier):
    idx = [TEMPL.index(t) for t in SUB[tier]]
    for i in range(len(TEMPL)):
        for j in idx:
            for k in idx:
                yield i, j, k


# ------------------------------------------------------------- typed values
def literal(text):
    try:
        v = ast.literal_eval(text)
    except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
        return text
    return text if isinstance(v, str) else v


def lit_case(case, ctx):
    text = ''.join(case)
    want = literal(text)
    stage = lib.mk_stage([{'path': '/doc/x.nxt', 'nodes': {
        CW: {'attrs': {'aa': {'value': text}, 'bb': {'value': '${aa}'}}}}}])
    comp = stage.build_stage()
    n = comp.lookup(CW)
    for a in ('aa', 'bb'):
        got = stage.get_attr_as_real_data_type(n, a, comp)
        expect(got == want and type(got) is type(want), 'typed-value',
               lambda: '%r got %r want %r' % (text, got, want))
    if not isinstance(want, str):
        ctx.nontrivial(('l', repr(want)))


def lit_cases(tier):
    for n in range(1, BOUNDS(tier)['literal_len'] + 1):
        for c in itertools.product(LIT, repeat=n):
            yield c


def parts(tier):
    return [('parse', lambda: parse_cases(tier), parse_case),
            ('resolve', lambda: two_cases(tier), two_case),
            ('literal', lambda: lit_cases(tier), lit_case)]
