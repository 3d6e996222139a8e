"""C12 duplicating nodes."""
import copy
from mc import editmodel as em, edithist as eh

LEVEL = 'model_checking'
RULE = ('every duplication of a node, alone and with its descendants, after '
        'every structural operation and before every operation on what it '
        'made or copied; non-trivial = distinct (document, history) that '
        'changes the document')
START = eh.starts(['plain', 'implied', 'layers', 'instance', 'rich'], {
    'rich': [{'path': '/v/a.nxt', 'nodes': {
        '/n': dict(attrs={'a': {'value': [1, {'k': [2]}], 'type': 'raw',
                                'comment': 'ca'},
                          'f': {'value': 0}, 'e': {}},
                   code=['x', '', 'y'], comment='c', enabled=False,
                   execute_in='/o', start_point=True,
                   child_order=['m', 'low', 'p']),
        '/n/p': dict(enabled=True, code=['p']),
        '/n/m': dict(instance='/o', attrs={'a': {'value': False}}),
        '/n/m/oo': dict(comment='override'),
        '/o': dict(), '/o/oo': dict(code=['oo']),
        '/n2/w': dict(comment='beneath the next name')},
        'positions': {'/n': [1, 1]}, 'collapse': {'/n': True}}]})


def ren(m, li):
    for op in em.m_rename(m, li, ('b',)):
        yield op


def add(m, li):
    for op in em.m_add(m, li, ('b',)):
        yield op


def BOUNDS(tier):
    return {'starts': sorted(START), 'length': 2 if tier == 'quick' else 3}


def parts(tier):
    chk = eh.default_check
    struct = [em.m_delete, ren, add, em.m_duplicate]
    if tier != 'quick':
        struct.append(em.m_reparent)
    content = [em.m_content, em.m_delete]
    nocomp = (lambda ctx: chk(ctx, comp=False, reload=False)) \
        if tier == 'quick' else chk
    out = [('single', eh.prefixes(START, [em.m_duplicate]),
            eh.just(START, chk)),
           ('then-duplicate', eh.prefixes(START, struct),
            eh.extend(START, [em.m_duplicate], chk)),
           ('independence', eh.prefixes(START, [em.m_duplicate]),
            eh.extend(START, content, nocomp))]
    if tier != 'quick':
        def deep():
            for sname, ops in eh.prefixes(START, struct)():
                model = eh.model_after(START[sname], ops)
                for op in eh.menu(model, [em.m_duplicate]):
                    yield sname, ops + [op]
        out.append(('triples', deep, eh.extend(START, struct, chk)))
    return out
