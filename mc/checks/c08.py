"""C08 content edits against a document model."""
from mc import editmodel as em, edithist as eh
from mc.core import expect, expect_eq

LEVEL = 'model_checking'
RULE = ('every pair of edits (attribute set, add, delete and rename; code, '
        'comment, execute-in, enabled, start point, instance, child order, '
        'positions, collapse; node add) from documents with implied nodes, '
        'two layers and instances, and every structural edit followed by '
        'every content edit; data given to several nodes at once, and every '
        'structural edit after it; non-trivial = distinct (document, history) that '
        'changes the document')
VALUES = [None, '', '0', ' ', '"q"', '""', '1.5', '(1,)', "'", 'a\nb', 'd\u00e9j\u00e0', '{}', '${', 0, 1, -1.5,
          False, True, [], [0], {}, {'k': [None]}, '/a.x', '\\']
ASSUME = ['data handed to add_node is not used again by the caller (a '
          'test pins that the node keeps the very list)',
          'an attribute is created with a value (a comment alone creates '
          'none)']
START = eh.starts(['plain', 'implied', 'layers', 'instance'])


def add(m, li):
    for op in em.m_add(m, li, ('b', 'new')):
        yield op


def ren(m, li):
    for op in em.m_rename(m, li, ('b',)):
        yield op


def BOUNDS(tier):
    return {'starts': sorted(START), 'length': 2 if tier == 'quick' else 3}


def values(case, ctx):
    """Every kind of value, on a new and on an existing attribute, and put
    back again."""
    sname, li, path, attr, v, w = case
    ops = [('setattr', li, path, attr, {'value': v}, True),
           ('setattr', li, path, attr, {'value': w}, True)]
    eh.play(START[sname], ops[:1], ctx, eh.default_check(ctx))
    eh.play(START[sname], ops, ctx, eh.default_check(ctx))


def value_cases():
    for path, attr in (('/a', 'x'), ('/ab', 'n'), ('/a/b/c', 'n')):
        for v in VALUES:
            for w in VALUES:
                yield 'plain', 0, path, attr, v, w


def comment_only(case, ctx):
    """Commenting on an attribute the node itself does not have yet."""
    sname, li, path = case
    ctx.nontrivial(case)
    stage = em.mk(START[sname])
    layer = stage._sub_layers[li]
    n = layer.lookup(path)
    stage.node_setattr_comment(n, 'fresh', layer, 'hello', create=True)
    nodes, _ = em.read(layer)
    got = nodes[path]['attrs'].get('fresh', {}).get('comment')
    expect(got == 'hello', 'comment-only-attr-not-saved', (case, got))


def comment_cases():
    for sname, m in START.items():
        for li in range(len(m)):
            for p in em.spots(m, li):
                yield sname, li, p


def parts(tier):
    chk = eh.default_check
    quick = tier == 'quick'
    struct = [add, em.m_localize, em.m_paste, em.m_delete, ren,
              em.m_duplicate]
    c = [em.m_content, em.m_instance]
    light = (lambda ctx: chk(ctx, comp=False, reload=False)) if quick else chk

    def near(ops, op):
        """Quick: pairs on one node, or on a node and one beneath it."""
        a, b = ops[-1][2], op[2]
        return a == b or em.is_under(a, b) or em.is_under(b, a)
    out = [('comment-only', comment_cases, comment_only),
           ('values', value_cases, values),
           ('single', eh.prefixes(START, c + [add, em.m_localize, em.m_paste]), eh.just(START, chk)),
           ('pairs', eh.prefixes(START, c),
            eh.extend(START, c, light, near if quick else None)),
           ('after-paste', eh.prefixes(START, [em.m_paste]),
            eh.extend(START, [em.m_delete, add], light)),
           ('after-structure', eh.prefixes(START, struct),
            eh.extend(START, c, light if quick else chk))]
    if not quick:
        def deep():
            for sname, ops in eh.prefixes(START, struct)():
                model = eh.model_after(START[sname], ops)
                for op in eh.menu(model, struct):
                    yield sname, ops + [op]
        out.append(('triples', deep, eh.extend(START, c, lambda ctx: chk(
            ctx, comp=False))))
    return out
