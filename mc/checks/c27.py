"""C27 what a node's code leaves behind for the next one."""
import itertools
from mc.refrun import judge

LEVEL = 'model_checking'
RULE = ('every sequence of programs (plain assignment, global statements of '
        'each form, look-alike names, text that only looks like one, exits '
        'and failures) over nodes and world code, on one runtime layer, with '
        'the names every node sees and leaves behind predicted by a '
        'reference interpreter; non-trivial = distinct (document, runs)')
ASSUME = ['a nested execution sees the names of the code that asked for it',
          'assigning a name that already is a global rebinds it']


def BOUNDS(tier):
    return {'programs': len(PROGS), 'nodes_in_sequence': 3, 'worlds':
            len(WORLDS)}


def L(n, v):
    return ('lset', n, v)


PROGS = [
    (),
    (L('g1', '1'),),
    (('gset', 'g1', '2'),),
    (('gset', 'g12', '3'), L('g1', '4')),
    (('gmany', ('g1', 'g2'), '5'), L('g', '0')),
    (('gmany', ('xg1', 'g12', 'g1'), '[6]'), L('g2', '6')),
    (('gfun', 'g1', '7'), L('g2', '7')),
    (('text', 'g1'), L('g1', '8')),
    (L('g2', '9'), ('gset', 'g1', '9'), ('exitnode',)),
    (('gset', 'g1', '10'), L('g2', '10'), ('raise',)),
    (('gif', 'g1', '11'),),
    (('gmulti', 'g1', '12'), L('g3', '1')),
    (('gfun', 'g2', '13'), ('gset', 'g1', '13'), ('exitgraph',)),
    (('semi', 'g1', '14'), L('g2', '14')),
]
WORLDS = [None, (), (L('g1', '"w"'),), (('gset', 'g2', '"w"'), L('g3', '0')),
          (('gfun', 'g1', '"f"'),)]
SEE = tuple(('gget', n) for n in ('g', 'g1', 'g2', 'g12', 'g3', 'xg1'))


def lay(nodes):
    return {'path': '/v/a.nxt', 'nodes': nodes}


def case_gen(tier):
    def gen():
        for w in range(len(WORLDS)):
            for ps in itertools.product(range(len(PROGS)), repeat=3):
                if tier == 'quick' and w > 1 and ps[2] != ps[0]:
                    continue
                if tier == 'quick' and w == 1 and ps[2]:
                    continue
                yield w, ps
    return gen


def case(c, ctx):
    w, ps = c
    n = {}
    for p, k in zip(('/a', '/a/b', '/c'), ps):
        n[p] = {'prog': SEE + PROGS[k]}
    n['/i'] = {'instance': '/a', 'prog': SEE}
    if WORLDS[w] is not None:
        n['/'] = {'prog': WORLDS[w]}
    judge([lay(n)], [('nodes', ['/a', '/a/b', '/c', '/i'], None),
                     ('nodes', ['/i', '/i/b', '/i'], None)], ctx)


def parts(tier):
    return [('sequences', case_gen(tier), case)]
