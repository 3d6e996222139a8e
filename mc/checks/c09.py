"""C09 rename and reparent."""
from mc import editmodel as em, edithist as eh

LEVEL = 'model_checking'
RULE = ('every rename and every move of one node, or of two unrelated ones, '
        'to every real or implied place, alone and after every structural '
        'operation, from documents with implied nodes, overrides in another '
        'layer and instances; non-trivial = distinct (document, history) '
        'that changes the document')
ASSUME = ['a node is never moved under itself, a descendant or the parent it '
          'has']
START = eh.starts(['plain', 'implied', 'layers', 'instance', 'clash'], {
    'clash': [{'path': '/v/a.nxt', 'nodes': {
        '/n/c': dict(comment='nc'), '/m': dict(child_order=['c', 'q']),
        '/m/c': dict(comment='mc'), '/m/q/r': dict(code=['mqr']),
        '/m/q/r/t/u': dict(comment='u'),
        '/nn/c': dict(comment='nnc'), '/nn/m/c': dict()},
        'collapse': {'/m': True, '/m/q': False, '/m/q/r': True,
                     '/mm': True}, 'positions': {'/m': [1, 1]}}]})


def ren(m, li):
    for op in em.m_rename(m, li, ('b', 'c', 'n', 'zz')):
        yield op


def ren1(m, li):
    for op in em.m_rename(m, li, ('b',)):
        yield op


def FIRST(tier):
    return ([ren1, em.m_reparent, em.m_delete, em.m_add] if tier == 'quick'
            else [ren, em.m_reparent, em.m_delete, em.m_add, em.m_duplicate])


def BOUNDS(tier):
    return {'starts': sorted(START), 'single': 'renames x4 names, moves of '
            'one and two nodes', 'pairs': 'structural operation, then rename '
            'or move'}


def parts(tier):
    chk = eh.default_check
    single = eh.prefixes(START, [ren, em.m_reparent, em.m_reparent2])
    pairs = eh.prefixes(START, FIRST(tier))
    second = [ren1, em.m_reparent] if tier == 'quick' else \
        [ren, em.m_reparent, em.m_reparent2]
    return [('single', single, eh.just(START, chk)),
            ('pairs', pairs, eh.extend(START, second, lambda ctx: chk(
                ctx, reload=tier != 'quick')))]
