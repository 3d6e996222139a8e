"""C28 executing nodes and graphs from node code."""
import itertools
import json
import os
import shutil
import tempfile
from mc import lib, probe, refrun
from mc.core import expect, expect_eq
from mc.refrun import judge, Interp, T

LEVEL = 'model_checking'
RULE = ('every program that executes other nodes (lists, starts, itself, its '
        'parent, its children, with and without parameters, up to three '
        'levels deep, from world code) against a reference interpreter; '
        'every combination of caller attrs, graph-world attrs and programs '
        'for graphs run through the sub graph node; non-trivial = distinct '
        '(document, runs)')
ASSUME = ['nodes do not execute each other without end',
          'a nested execution sees the names of the code that asked for it']


def BOUNDS(tier):
    return {'calls': len(CALLS), 'inner_programs': len(INNER),
            'nesting_depth': 3}


def attrs(**kw):
    return {k: {'value': v} for k, v in kw.items()}


def lay(nodes, path='/v/a.nxt'):
    return {'path': path, 'nodes': nodes}


SEE = (('me',), ('get', 'xx'), ('get', 'll'), ('tok', '${/n.xx} ${/a.xx}'))
CALLS = [
    ('exec', ['/n']), ('exec', ['/n', '/n/k', '/n']), ('start', '/n'),
    ('start', '/n/k'), ('exec', ['/a/b']), ('exec', ['/i']),
    ('exec', ['/off', '/n/k']), ('exec', ['/n'], {'/n.xx': '5'}),
    ('start', '/n', {'/n.xx': [4], '/a.xx': 'par', '/n/k.new': 'n'}),
    ('exec', ['/n'], {'/a.ll': '[0]', '/gone.xx': 1}),
    ('start', '/i', {'/i.xx': '9', '/.ww': 8}), ('rec', 'cc', 2),
    ('start', '/off'), ('exec', ['/n/c2']),
]
INNER = [
    (), (('set', 'xx', '7'),), (('app', 'll', '2'),),
    (('sset', 'ww', '3'), ('exitnode',)), (('set', 'xx', '8'),
                                           ('exitgraph',)),
    (('gset', 'gg', '1'), ('lset', 'loc', '2')),
    (('set', 'll', '[5]'), ('raise',)),
    (('try', ('exec', ['/n/k'], {'/n/k.xx': '"q"'})), ('set', 'xx', '1')),
]


def base(call, after, inner, kid, world=None):
    n = {'/a': {'attrs': attrs(xx='1', ll='[1]', cc='0'),
                'prog': SEE + (('app', 'll', '3'),) + call + SEE + after},
         '/a/b': {'prog': SEE + (('set', 'xx', '"b"'),)},
         '/n': {'attrs': attrs(xx='10', ll='[10]'), 'prog': SEE + inner},
         '/n/k': {'prog': SEE + kid},
         '/n/c2': {'prog': (('exec', ['/n/k']), ('exec', ['/n'])) + SEE},
         '/i': {'instance': '/n', 'prog': SEE},
         '/off': {'enabled': False, 'prog': SEE}}
    if world is not None:
        n['/'] = {'attrs': attrs(ww='w'), 'prog': world}
    return n


def call_cases(tier):
    def gen():
        for c in range(len(CALLS)):
            for i in range(len(INNER)):
                for k in range(len(INNER) - 1):
                    for after in range(3):
                        for tr in (0, 1):
                            yield c, i, k, after, tr
    return gen


AFTER = [(), (('set', 'xx', '"after"'),), (('raise',),)]


def call(case, ctx):
    c, i, k, after, tr = case
    cl = CALLS[c]
    cl = (('try', cl),) if tr else (cl,)
    n = base(cl, AFTER[after], INNER[i], INNER[k])
    judge([lay(n)], [('start', '/a', None), ('nodes', ['/n', '/a/b', '/i'],
                                             None)], ctx)


def world_cases(tier):
    def gen():
        for c, d in itertools.product(range(len(CALLS)), repeat=2):
            if CALLS[c][0] == 'rec' or CALLS[d][0] == 'rec':
                continue
            for i in range(len(INNER)):
                if tier == 'quick' and (c + d + i) % 2:
                    continue
                yield c, d, i
    return gen


def world(case, ctx):
    c, d, i = case
    n = base((CALLS[d],), (), INNER[i], (('sset', 'ww', '4'),),
             world=(('gset', 'ok', '1'), ('sget', 'ww'), CALLS[c],
                    ('sget', 'ww'), ('gget', 'ok')))
    if INNER[i] and INNER[i][-1][0] == 'exitgraph':
        n['/n']['prog'] = SEE
    judge([lay(n)], [('nodes', ['/a', '/n'], None)], ctx)


def pair_cases(tier):
    """Two calls in one program, within two documents."""
    def gen():
        for c, d in itertools.product(range(len(CALLS)), repeat=2):
            if CALLS[c][0] == 'rec' or CALLS[d][0] == 'rec':
                continue
            for i in range(len(INNER)):
                yield c, d, i
    return gen


def pair(case, ctx):
    c, d, i = case
    n = base((CALLS[c], ('me',), ('get', 'll'), CALLS[d]),
             (('set', 'cc', '2'),), INNER[i], ())
    hi = {'/a/b': {'attrs': attrs(xx='up')}, '/n': {'attrs': attrs(xx='nn')}}
    judge([lay(hi), lay(n, '/v/b.nxt')], [('nodes', ['/a', '/a/b', '/i'],
                                           None)], ctx)


# -- graphs run through the sub graph node -----------------------------------
WORLD_ATTRS = [None, {}, {'xx': 'dd'}, {'xx': 'dd', 'oo': '[1]'}]
WORLD_PROG = [(), (('sget', 'xx'), ('sset', 'made', '[1, 2]')),
              (('sset', 'xx', '"w"'),)]
GO = [(('get', 'xx'),), (('sset', 'xx', '77'),),
      (('sset', 'made', '"m"'), ('exitgraph',)),
      (('set', 'xx', '5'), ('sget', 'xx'), ('exitnode',)),
      (('sset', 'made', '1'), ('raise',)),
      (('tok', '${/.xx} ${ll}'), ('gset', 'gg', '1'))]
CALLER = [{}, {'xx': '4'}, {'xx': 'text', 'll': '[1]'}, {'made': 'no'}]
START = [None, '/go', '/other']


def sub_cases(tier):
    for t in itertools.product(range(len(WORLD_ATTRS)),
                               range(len(WORLD_PROG)), range(len(GO)),
                               range(len(CALLER)), range(len(START)),
                               (0, 1)):
        if tier == 'quick' and t[5] and (t[0] + t[1] + t[2] + t[3]) % 2:
            continue
        yield t


_dir = []


def setup_worker(ctx):
    _dir.append(tempfile.mkdtemp(prefix='mc28'))


def finish_worker(ctx):
    shutil.rmtree(_dir.pop(), ignore_errors=True)


def sub(case, ctx):
    wa, wp, go, ca, st, loc = case
    inner = {'/go': {'prog': GO[go], 'start_point': True},
             '/other': {'prog': (('sset', 'other', '1'), ('me',))}}
    if WORLD_ATTRS[wa] is not None:
        inner['/'] = {'attrs': attrs(**WORLD_ATTRS[wa]),
                      'prog': WORLD_PROG[wp]}
    d = _dir[0]
    path = os.path.join(d, 'inner.nxt')
    with open(path, 'w') as f:
        json.dump({'version': lib.VERSION, 'alias': 'inner',
                   'nodes': refrun.doc([lay(inner)])[0]['nodes']}, f)
    names = ('xx', 'll', 'made', 'oo', 'other')
    see = tuple(('get', a) for a in names)
    caller = {'instance': '/_sub_graph', 'attrs': attrs(
        _graph_path=path, **CALLER[ca])}
    if START[st]:
        caller['attrs'].update(attrs(_start=START[st]))
    if loc:
        caller['attrs'].update(attrs(**{a: 'z' for a in names
                                        if a not in caller['attrs']}))
    outer = {'/call': caller, '/call/after': {'code': refrun.code_of(see)},
             '/next': {'code': refrun.code_of((('gget', 'gg'), ('me',)))}}
    top = os.path.join(d, 'outer.nxt')
    with open(top, 'w') as f:
        json.dump({'version': lib.VERSION, 'alias': 'outer', 'references':
                   ['$NXT_BUILTINS/sub_graphs.nxt'], 'nodes': outer}, f)
    from nxt.session import Stage
    from nxt.runtime import GraphError
    # the model: the caller's attrs become world attrs of the graph
    m = Interp.__new__(Interp)
    frame = {k: refrun.real(v['value']) for k, v in caller['attrs'].items()
             if k not in ('_graph_path', '_start')}
    m.comp_real = None
    ended = 'ok'
    m.__init__([lay(inner)], {'/.' + k: v for k, v in frame.items()})
    try:
        m.execute_nodes([START[st] or '/go'])
    except refrun.ExitGraphM:
        pass
    except refrun.ErrorM:
        ended = 'error'
    log = [tuple(x) for x in m.log]
    if ended == 'ok':
        vals = dict(frame)
        for (t, a), v in m.rt.items():
            if t == ():
                vals[a] = v
        for a in names:
            v = vals.get(a) if a in caller['attrs'] else None
            if isinstance(v, str):
                v = refrun.real(v)
            log.append(('get', '/call/after', a, probe.show(v) if a in
                        caller['attrs'] else 'UNDEFINED'))
        log += [('gget', 'gg', "str 'UNDEFINED'"), ('me', '/next')]
    probe.clear()
    stage = Stage.load_from_filepath(top)
    got = 'ok'
    try:
        stage.execute_nodes(['/call', '/call/after', '/next'],
                            stage.build_stage())
    except GraphError:
        got = 'error'
    expect_eq(got, ended, 'sub-ended', case)
    expect_eq(probe.log, log, 'sub-saw', case)
    ctx.state(case)
    ctx.transition()
    ctx.trace()


def parts(tier):
    return [('calls', call_cases(tier), call),
            ('world', world_cases(tier), world),
            ('pairs', pair_cases(tier), pair),
            ('sub-graphs', lambda: sub_cases(tier), sub)]
