"""C07 an open view follows edits of values, code and enabled states."""
import itertools
from mc import lib, docgen
from mc.core import expect, expect_eq

LEVEL = 'model_checking'
RULE = ('every stack of one or two layers of instance skeletons over two '
        'hierarchies, with every pattern of code and enabled opinions at its '
        'sites; the composed view is kept, every edit (and every pair of '
        'edits) of an attribute value, comment or name, of code and of an '
        'enabled state at every site is made with the view given, and the '
        'view is compared with composing anew.  State: documents after the '
        'edits')
ASSUME = ['no node instances its ancestor, however indirectly',
          'edits that add, remove, move or instance nodes are followed by a '
          'new composition (see DESIGN.md)']
CASE_TIMEOUT = 120
PATHS = ['/aa', '/aa/cc', '/aaa', '/aaa/cc']


def BOUNDS(tier):
    return {'layers': 2, 'paths': len(PATHS), 'edits': 2,
            'patterns': len(PATTERNS)}


PATTERNS = ['none', 'all', 'strong', 'weak', 'even', 'odd', 'first', 'last']


def has(pattern, i, layer, n):
    return {'none': False, 'all': True, 'strong': layer == 0,
            'weak': layer == 1, 'even': i % 2 == 0, 'odd': i % 2 == 1,
            'first': i == 0, 'last': i == n - 1}[pattern]


def skeletons():
    sources = {'/aa': '/aaa', '/aa/cc': '/aaa', '/aaa': '/aaaa',
               '/aaa/cc': '/aa/cc'}
    return itertools.product(*[(None, '', sources[p]) for p in PATHS])


def nested(skels):
    """A node would come to instance its ancestor."""
    used = {(p, c) for s in skels for p, c in zip(PATHS, s)}
    return ('/aaa/cc', '/aa/cc') in used and (
        ('/aa', '/aaa') in used or ('/aa/cc', '/aaa') in used)


def build(skels, code, enabled):
    layers = []
    sites = [(li, p) for li, s in enumerate(skels)
             for p, c in zip(PATHS, s) if c is not None]
    for li, s in enumerate(skels):
        nodes = docgen.skeleton(PATHS, s)
        for p in nodes:
            i = sites.index((li, p))
            nodes[p]['attrs'] = {'vv': {'value': '%d%s' % (li, p)},
                                 'x%d' % li: {'value': '1', 'type': 'int'}}
            if has(code, i, li, len(sites)):
                nodes[p]['code'] = ['code %d%s' % (li, p)]
            if has(enabled, i, li, len(sites)):
                nodes[p]['enabled'] = i % 3 == 0
        layers.append({'path': docgen.lp(li), 'nodes': nodes})
    # Something to instance whose path starts like another's
    layers[-1]['nodes']['/aaaa'] = {'code': ['code aaaa'], 'enabled': False}
    return layers


EDITS = [('code', ['new']), ('code', []), ('enabled', True),
         ('enabled', False), ('enabled', None), ('attr', 'vv', '5'),
         ('attr', 'vv', ''), ('attr', 'fresh', 'new'), ('delete', 'vv'),
         ('rename', 'vv', 'renamed'), ('comment', 'vv', 'said'), ('comment', 'vv', ''),
         ('node comment', 'said')]


def apply(stage, comp, edit):
    li, p, e = edit
    layer = stage._sub_layers[li]
    node = layer.lookup(p)
    kind = e[0]
    if kind == 'code':
        stage.set_node_code_lines(node, list(e[1]), comp)
    elif kind == 'enabled':
        stage.node_setattr_data(node, lib.A.ENABLED, layer, False, comp,
                                value=e[1])
    elif kind == 'attr':
        stage.node_setattr_data(node, e[1], layer, True, comp, value=e[2])
    elif kind == 'delete':
        stage.delete_node_attr(node, e[1])
    elif kind == 'rename':
        stage.rename_node_attr(node, e[1], e[2], layer)
    elif kind == 'comment':
        stage.node_setattr_comment(node, e[1], layer, e[2], True)
    elif kind == 'node comment':
        stage.set_node_comment(node, e[1], layer)


def run(case, ctx):
    skels, code, enabled, depth = case
    if nested(skels):
        ctx.count('out_of_scope')
        return
    layers = build(skels, code, enabled)
    sites = [(li, p) for li, l in enumerate(layers) for p in
             sorted(l['nodes'])]
    probe = lib.mk_stage(layers)
    try:
        failed = probe.build_stage().failure
    except Exception:
        failed = True
    if failed:
        ctx.count('out_of_scope')
        return
    if depth == 1:
        plans = [((li, p, e),) for li, p in sites for e in EDITS]
    else:
        pick = [e for e in EDITS if e[0] in ('code', 'enabled')]
        plans = [((li, p, a), (lj, q, b)) for a in pick for b in pick
                 if a[0] == b[0] for li, p in sites for lj, q in sites]
    for plan in plans:
        stage = lib.mk_stage(layers)
        comp = stage.build_stage()
        for edit in plan:
            apply(stage, comp, edit)
            ctx.transition()
        got = lib.observe_comp(stage, comp)
        want = lib.observe_comp(stage, stage.build_stage())
        expect_eq(sorted(got), sorted(want), 'nodes', (case, plan))
        for p in want:
            for f in want[p]:
                if f == 'comment':
                    continue
                expect(got[p][f] == want[p][f],
                       'stale-' + f, lambda: '%s got %r want %r %r' % (
                           p, got[p][f], want[p][f], (case, plan)))
        ctx.state(lib.docs(stage))
        ctx.trace()


def run_without(case, ctx):
    """The same edits without a view to keep leave the same documents."""
    skels, code = case
    layers = build(skels, code, code)
    for li, l in enumerate(layers):
        for p in sorted(l['nodes']):
            for e in EDITS:
                out = []
                for view in (True, False):
                    stage = lib.mk_stage(layers)
                    comp = stage.build_stage()
                    apply(stage, comp if view else None, (li, p, e))
                    out.append(lib.docs(stage))
                expect_eq(out[1], out[0], 'documents', (case, li, p, e))
                ctx.state(out[0])
                ctx.transition()
                ctx.trace()


KEY = [('', '', '', ''), ('/aaa', '', '', ''), ('/aaa', None, '', ''),
       (None, '/aaa', '', ''), ('', '/aaa', '', None),
       (None, None, '/aaaa', ''), ('', '', '', '/aa/cc'),
       (None, '', None, ''), ('/aaa', '', '/aaaa', '')]


def cases(tier):
    def gen():
        sk = list(skeletons())
        for s in sk:
            for code, enabled in (('none', 'none'), ('all', 'all'),
                                  ('even', 'odd')) if tier == 'quick' else \
                    itertools.product(PATTERNS, PATTERNS):
                yield (s,), code, enabled, 1
        some = KEY if tier == 'quick' else sk
        for a in some:
            for b in KEY if tier == 'quick' else sk:
                for code, enabled in (('all', 'even'), ('odd', 'weak')) if \
                        tier == 'quick' else zip(PATTERNS, PATTERNS[1:]):
                    yield (a, b), code, enabled, 1
    return gen


def pairs(tier):
    def gen():
        for a in KEY if tier == 'quick' else skeletons():
            for code in ('all', 'odd') if tier == 'quick' else PATTERNS:
                yield (a,), code, code, 2
        if tier != 'quick':
            for a in KEY:
                for b in KEY:
                    for code in ('all', 'odd'):
                        yield (a, b), code, code, 2
    return gen


def parts(tier):
    def without():
        for s in KEY:
            if not nested((s,)):
                yield (s,), 'odd'
    return [('edits', cases(tier), run), ('pairs', pairs(tier), run),
            ('without', without, run_without)]
