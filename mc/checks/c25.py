"""C25 runtime values: typed, passed on, isolated."""
import itertools
from mc import refrun
from mc.refrun import judge

LEVEL = 'model_checking'
RULE = ('every assignment of programs (set to each kind of value, append, '
        'delete, swap, new attr) to the nodes of small graphs with children, '
        'instances, tokens and two layers, every placement of own values, '
        'several run orders, and sequences of executions on one runtime '
        'layer; a reference interpreter gives what every node sees and ends '
        'up with, compared after every execution; non-trivial = distinct '
        '(document, runs)')
ASSUME = ['one mutable object is not shared between nodes through a global']


def BOUNDS(tier):
    return {'ops_per_node': len(OPS), 'active_nodes': 3,
            'literals': len(LITERALS),
            'executions_per_runtime_layer': 2 if tier == 'quick' else 3}


LITERALS = ['5', '-5', '+5', '5.0', '1e3', 'True', 'False', 'None', "'q'",
            '"5"', "''", '', ' ', '  5', '5 ', '[1, 2]', '[]', '(1,)', '()',
            '{}', "{'k': [1]}", '{1, 2}', 'abc', 'a b', 'None ', 'true',
            '1+1', '1 + 2j', '0x1F', '007', '1_000', "b'x'", "u'x'",
            '[abc]', "['abc', 5]", 'a=1', '#5', '5 # no', '[1,\n2]',
            'line\nother', '\\n', "'it''s'", 'print', '__import__', 'xx',
            '"unclosed', '[1, 2', '-', '...', 'lambda: 1', '{1: }', '[[]]',
            "('a' 'b')", '5\n', '\t7', 'nan', '1e999', '{[]: 1}', '{{}}']


def attrs(**kw):
    return {k: {'value': v} for k, v in kw.items()}


def lay(nodes, path='/v/a.nxt'):
    return {'path': path, 'nodes': nodes}


def literal_cases():
    for v in LITERALS:
        for how in ('own', 'token', 'inherit', 'instance', 'param', 'set'):
            yield v, how


def literal(case, ctx):
    v, how = case
    see = (('get', 'xx'), ('get', 'yy'))
    n = {'/a': {'attrs': attrs(xx=v, yy='one'), 'prog': see},
         '/a/b': {'prog': see, 'attrs': attrs(yy='${xx}')},
         '/r': {'prog': see, 'attrs': attrs(xx='0', yy='${/a.xx}')},
         '/i': {'prog': see, 'instance': '/a'}}
    run, prm = ['/a', '/a/b', '/r', '/i', '/i/b'], None
    if how == 'token':
        n['/r']['attrs'] = attrs(xx='${/a.xx}', yy='[${/a.xx}, ${/a.yy}]')
    elif how == 'inherit':
        run = ['/a/b', '/i/b', '/a']
    elif how == 'instance':
        run = ['/i/b', '/i', '/r']
    elif how == 'param':
        prm = {'/a.xx': v, '/r.new': v, '/i/b.yy': v}
    elif how == 'set':
        n['/a']['prog'] = (('set', 'xx', repr(v)),) + see
    judge([lay(n)], [('nodes', run, prm), ('nodes', run, None)], ctx)


OPS = [
    (),
    (('set', 'xx', '7'),),
    (('set', 'xx', 'True'),),
    (('app', 'll', '9'),),
    (('nest', 'll', '9'),),
    (('set', 'll', '[[]]'),),
    (('set', 'xx', '"5"'),),
    (('set', 'xx', 'None'), ('set', 'yy', '0')),
    (('set', 'new', '1'), ('set', 'xx', '"${yy}"')),
    (('set', 'yy', 'self.xx'), ('exitnode',)),
    (('del', 'xx'), ('set', 'yy', '"gone"')),
    (('set', 'xx', '2'), ('set', 'xx', '1')),
]
FEW = [0, 1, 3, 4, 6, 8, 9]
SEE = (('get', 'xx'), ('get', 'yy'), ('get', 'll'), ('get', 'new'),
       ('tok', '${xx}|${/a.yy}|${/a/b.ll}'))
ORDERS = [['/a', '/a/b', '/i', '/i/b', '/r'],
          ['/i/b', '/i', '/a/b', '/r', '/a'],
          ['/r', '/a/b', '/a', '/i', '/a/b']]


def flow_cases(tier):
    def gen():
        idx = range(len(OPS)) if tier != 'quick' else FEW
        for ops in itertools.product(idx, repeat=3):
            for own in itertools.product((0, 1), repeat=2):
                for order in range(len(ORDERS)):
                    yield ops, own, order
        if tier == 'quick':
            for k in range(3):
                for o in range(len(OPS)):
                    for own in itertools.product((0, 1), repeat=2):
                        for order in range(len(ORDERS)):
                            ops = [0, 0, 0]
                            ops[k] = o
                            yield tuple(ops), own, order
    return gen


def flow_doc(ops, own):
    a, b, i = (SEE[:1] + OPS[k] for k in ops)
    n = {'/a': {'attrs': attrs(xx='1', yy='${xx}0', ll='[[1]]'),
                'prog': SEE + a},
         '/a/b': {'prog': SEE + b},
         '/i': {'instance': '/a', 'prog': SEE + i},
         '/r': {'attrs': attrs(vv='${/a.xx}', ll='[${/a.ll}, ${/i.xx}]'),
                'prog': SEE + (('get', 'vv'),)}}
    if own[0]:
        n['/a/b']['attrs'] = attrs(xx='2', yy='${/i.xx}')
    if own[1]:
        n['/i']['attrs'] = attrs(xx='3', ll='[[3]]')
    return n


def flow(case, ctx):
    ops, own, order = case
    judge([lay(flow_doc(ops, own))], [('nodes', ORDERS[order], None)], ctx)


def layer_cases(tier):
    def gen():
        for ops in itertools.product(range(len(OPS)), repeat=2):
            for up in itertools.product((0, 1), repeat=3):
                for world in (0, 1, 2):
                    if tier == 'quick' and world and ops[0] not in FEW:
                        continue
                    yield ops, up, world
    return gen


def layered(case, ctx):
    ops, up, world = case
    lo = {'/a': {'attrs': attrs(xx='1', yy='${xx}0', ll='[[1]]'),
                 'prog': SEE + OPS[ops[0]]},
          '/a/b': {'prog': SEE + OPS[ops[1]]}}
    hi = {'/i': {'instance': '/a'}}
    if up[0]:
        hi['/a'] = {'attrs': attrs(xx='11', new='n')}
    if up[1]:
        hi['/a/b'] = {'attrs': attrs(ll='[22]')}
    if up[2]:
        hi['/i'] = {'instance': '/a/b', 'attrs': attrs(yy='y')}
    if world:
        lo['/'] = {'attrs': attrs(new='w', ww='[0]'),
                   'prog': (('sset', 'xx', '"w"'), ('sset', 'ww', '[0, 1]'))}
    if world == 2:
        hi['/'] = {'attrs': attrs(ww='[5]'), 'prog': (('sset', 'll', '[8]'),
                                                      ('get', 'ww'))}
    see = (('get', 'ww'), ('app', 'ww', '2')) if world else (('me',),)
    hi['/s'] = {'prog': SEE + see + (('sset', 'new', '4'),)}
    judge([lay(hi), lay(lo, '/v/b.nxt')],
          [('nodes', ['/s', '/a', '/a/b', '/i', '/s'], None)], ctx)


def session_cases(tier):
    paths = ['/a', '/a/b', '/i', '/i/b', '/r']
    k = 2 if tier == 'quick' else 3

    def gen():
        for ops in itertools.product((1, 3, 4, 6, 9), repeat=2):
            for runs in itertools.product(paths, repeat=k):
                yield ops, runs
    return gen


def session(case, ctx):
    ops, runs = case
    n = flow_doc((ops[0], 0, ops[1]), (0, 0))
    n['/z'] = {'attrs': attrs(zz='${/a.xx}')}
    judge([lay(n)], [('start', p, None) for p in runs] +
          [('nodes', ['/a/b', '/r'], None)], ctx)
    # a fresh execution starts from the document again
    judge([lay(n)], [('start', runs[-1], None)], ctx)


def uncopyable(case, ctx):
    """Values that can't be copied are passed on as they are."""
    from mc import lib, probe
    from mc.core import expect_eq
    make, order = case
    n = {'/a': {'attrs': attrs(xx='1'), 'code': [
        'import threading, types', 'from mc import probe',
        'self.xx = ' + make, 'probe.add(id(self.xx))']},
        '/a/b': {'code': ['from mc import probe',
                          'probe.add(id(self.xx))']},
        '/i': {'instance': '/a', 'code': ['from mc import probe',
                                          'probe.add(id(self.xx))']}}
    stage = lib.mk_stage([lay(n)])
    probe.clear()
    stage.execute_nodes(order, stage.build_stage())
    expect_eq(len(probe.log), len(order), 'ran', case)
    expect_eq(len(set(probe.log)), 1, 'same-object', (case, probe.log))
    ctx.nontrivial(case)
    ctx.state(repr(case))
    ctx.transition()
    ctx.trace()


def uncopyable_cases():
    for make in ('threading.Lock()', 'types', '(v for v in [1])',
                 'open("/dev/null")'):
        for order in (['/a', '/a/b'], ['/a', '/i', '/a/b'], ['/a']):
            yield make, order


def parts(tier):
    return [('literals', literal_cases, literal),
            ('flow', flow_cases(tier), flow),
            ('layers', layer_cases(tier), layered),
            ('sessions', session_cases(tier), session),
            ('uncopyable', uncopyable_cases, uncopyable)]
