"""C10 deletion."""
from mc import editmodel as em, edithist as eh

LEVEL = 'model_checking'
RULE = ('every deletion of a node, alone and with its descendants, from '
        'documents with implied nodes, overrides in other layers and '
        'instances; before it every structural operation, after it every '
        'deletion, addition or rename; non-trivial = distinct (document, '
        'history) that changes the document')
START = eh.starts(['plain', 'implied', 'layers', 'instance', 'deep'], {
    'deep': [{'path': '/v/a.nxt', 'nodes': {
        '/n': dict(child_order=['q', 'm']), '/n/m': dict(code=['m']),
        '/n/m/x/y': dict(comment='y'), '/n/m/x/y/z': dict(),
        '/n/q': dict(attrs={'a': {'value': 0}}), '/nm': dict(),
        '/nm/x/y': dict(comment='other')},
        'collapse': {'/n': True, '/n/m': False, '/n/m/x/y': True,
                     '/n/m/x/y/z': True, '/nm': True},
        'positions': {'/n': [1, 1], '/nm': [2, 2], '/n/m': [3, 3]}}]})


def ren(m, li):
    for op in em.m_rename(m, li, ('m',)):
        yield op


def add(m, li):
    for op in em.m_add(m, li, ('b',)):
        yield op


def BOUNDS(tier):
    return {'starts': sorted(START), 'length': 2 if tier == 'quick' else 3,
            'histories': 'structural operation, deletion' + (
                '' if tier == 'quick' else ', structural operation')}


def parts(tier):
    chk = eh.default_check
    struct = [em.m_delete, ren, add, em.m_reparent, em.m_duplicate]
    out = [('single', eh.prefixes(START, [em.m_delete]),
            eh.just(START, chk)),
           ('then-delete', eh.prefixes(START, struct),
            eh.extend(START, [em.m_delete], chk)),
           ('delete-then', eh.prefixes(START, [em.m_delete]),
            eh.extend(START, struct, chk))]
    if tier != 'quick':
        def deep():
            for sname, ops in eh.prefixes(START, struct)():
                model = eh.model_after(START[sname], ops)
                for op in eh.menu(model, [em.m_delete]):
                    yield sname, ops + [op]
        out.append(('triples', deep, eh.extend(START, struct, chk)))
    return out
