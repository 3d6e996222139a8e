"""C41 a snippet runs as the node it is run in."""
import itertools
from mc import lib, probe, refrun
from mc.core import expect, expect_eq
from mc.refrun import judge

LEVEL = 'model_checking'
RULE = ('every sequence of snippets (reading, setting, appending, deleting '
        'and adding attributes, with tokens, globals, exits, failures, nested '
        'executions, blank ones) in the nodes of a graph with children, an '
        'instance, a disabled node and the world, mixed with executions of '
        'nodes, on one runtime layer, in lockstep with a reference '
        'interpreter; and every snippet in a composed view that is not '
        'running.  State: (document, actions so far)')


def attrs(**kw):
    return {k: {'value': v} for k, v in kw.items()}


SEE = (('get', 'xx'), ('get', 'yy'), ('get', 'll'), ('me',))
DOC = {'/': {'prog': (('gset', 'wg', '1'), ('sset', 'ww', '3'))},
       '/a': {'attrs': attrs(xx='1', yy='${xx}0', ll='[[1]]'), 'prog': SEE + (
           ('set', 'xx', 'self.xx + 1'), ('gset', 'ga', '"a"'))},
       '/a/b': {'attrs': attrs(xx='2'), 'prog': SEE + (('gget', 'loc'),)},
       '/i': {'instance': '/a', 'prog': SEE + (('tok', '${yy}'),)},
       '/off': {'enabled': False, 'prog': SEE, 'attrs': attrs(
           xx='9', yy='', ll='[]')}}
SNIPS = [
    (),
    SEE,
    (('set', 'xx', '5'),),
    (('set', 'yy', '"${xx}"'), ('get', 'yy')),
    (('app', 'll', '9'), ('nest', 'll', '8')),
    (('del', 'xx'), ('set', 'new', '1')),
    (('lset', 'loc', '1'), ('gset', 'gg', '"s"'), ('gget', 'ga')),
    (('set', 'xx', '6'), ('exitnode',), ('set', 'xx', '0')),
    (('set', 'xx', '7'), ('exitgraph',)),
    (('set', 'xx', '8'), ('lset', 'loc', '2'), ('raise',)),
    (('raw', ['# first', '']), ('get', 'xx'), ('raise',)),
    (('exec', ['/a', '/i']), ('get', 'xx'), ('me',)),
    (('try', ('exec', ['/gone'])), ('me',)),
    (('sset', 'ww', '4'), ('sget', 'ww')),
    (('tok', '${/a.yy}|${/i.xx}|${xx}|${/.ww}'),),
]
WHERE = ['/a', '/a/b', '/i', '/off', '/gone', '/']
RUNS = [('nodes', ['/a', '/a/b', '/i'], None), ('nodes', ['/i'], None),
        ('start', '/a', None)]


def legal(path, k):
    """Snippets in the world have the attributes the world has only."""
    if path != '/':
        return True
    return not any(op[0] in ('get', 'app', 'nest', 'del', 'set', 'tok', 'me')
                   for op in refrun.flat(SNIPS[k]))


def BOUNDS(tier):
    return {'snippets': len(SNIPS), 'where': WHERE,
            'actions': 2 if tier == 'quick' else 3}


def actions():
    out = [('snippet', (p, SNIPS[k]), None) for p in WHERE
           for k in range(len(SNIPS)) if legal(p, k)]
    return out + RUNS


def cases(tier):
    n = len(actions())
    for a in range(n):
        yield (a,)
    for a, b in itertools.product(range(n), repeat=2):
        yield a, b
    few = [i for i, x in enumerate(actions())
           if x[0] != 'snippet' or x[1][0] in ('/a', '/i') and
           SNIPS.index(x[1][1]) in (1, 2, 5, 6, 9, 11)]
    for c in itertools.product(few if tier == 'quick' else range(n),
                               repeat=3):
        yield c


def history(case, ctx):
    acts = actions()
    judge([{'path': '/v/a.nxt', 'nodes': DOC}],
          [acts[i] for i in case] + [('nodes', ['/i', '/a/b'], None)], ctx)


# --------------------------------------------- in a view that is not running
def idle_cases():
    for p in WHERE:
        for k in range(len(SNIPS)):
            if legal(p, k):
                for nth in (1, 2):
                    yield p, k, nth


def idle(case, ctx):
    """A snippet in a composed view has a runtime of its own."""
    p, k, nth = case
    layers = [{'path': '/v/a.nxt', 'nodes': DOC}]
    stage = lib.mk_stage(refrun.doc(layers))
    comp = stage.build_stage()
    docs, view = lib.docs(stage), lib.observe_comp(stage, comp)
    for _ in range(nth):
        m = refrun.Interp(layers)
        want, where = refrun.drive(m, 'snippet', (p, SNIPS[k]))
        probe.clear()
        ended, _rt, exc = refrun.drive_real(stage, comp, 'snippet',
                                            (p, SNIPS[k]))
        expect_eq(ended, want, 'ended', case)
        expect_eq(probe.log, [tuple(x) for x in m.log], 'saw', case)
        if want == 'GraphError':
            refrun.blame(exc, '/v/a.nxt', where, case)
        expect_eq(lib.docs(stage), docs, 'layers-changed', case)
        expect_eq(lib.observe_comp(stage, comp), view, 'view-changed', case)
        expect(not comp.running and not comp.runtime, 'left-running', case)
        ctx.transition()
    ctx.state(case)
    ctx.trace()
    if legal(p, 1) and p != '/gone':
        # A snippet that resolves to nothing runs nothing
        for text in ('', '\n', '${/a.gone}', ' '):
            probe.clear()
            expect_eq(stage.execute_custom_code(text, p, comp), None,
                      'blank', case)
            expect_eq(probe.log, [], 'blank-ran', (case, text))
    try:
        stage.execute_custom_code('pass', '/a', stage.top_layer)
    except ValueError:
        return
    expect(False, 'ran-in-a-document-layer', case)


def parts(tier):
    return [('idle', idle_cases, idle),
            ('histories', lambda: cases(tier), history)]
