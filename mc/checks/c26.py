"""C26 exits and failures end exactly what they should, and say where."""
import itertools
from mc import lib, probe, refrun
from mc.core import expect, expect_eq
from mc.refrun import judge, PRE

LEVEL = 'model_checking'
RULE = ('every assignment of ending (falls through, ExitNode, ExitGraph, '
        'exception, caught ones, attrs set before) to the nodes of a chain '
        'with nested execution, followed by a second execution on the same '
        'runtime layer, against a reference interpreter; every failing line '
        'of code blocks with comments, blank and token-expanded lines, every '
        'kind of failure; non-trivial = distinct (document, runs)')
ASSUME = []


def BOUNDS(tier):
    return {'chain': 4, 'endings': len(ENDS), 'failures': len(FAILS)}


def attrs(**kw):
    return {k: {'value': v} for k, v in kw.items()}


SET = ('set', 'xx', 'self.xx + [1]')
ENDS = [
    (SET,),
    (SET, ('exitnode',), ('set', 'xx', '0')),
    (SET, ('exitgraph',), ('set', 'xx', '0')),
    (SET, ('gset', 'gg', '1'), ('raise',), ('set', 'xx', '0')),
    (SET, ('try', ('raise',)), ('me',)),
    (('try', ('exitgraph',)), SET),
    (('lset', 'loc', '5'), ('exitnode',)),
    (('lset', 'loc', '5'), ('raise',)),
]
NEST = [('exec', ['/n']), ('start', '/n'), ('try', ('exec', ['/n', '/n/k'])),
        ('exec', ['/gone']), ('try', ('exec', ['/n', '/gone'])), ('exec', []),
        ('start', '/gone'), ('try', ('start', '/n'))]
HEAD = (('me',), ('get', 'xx'), ('gget', 'gg'), ('gget', 'loc'))


def lay(nodes, path='/v/a.nxt'):
    return {'path': path, 'nodes': nodes}


def chain_cases(tier):
    def gen():
        k = 3 if tier == 'quick' else 4
        for ends in itertools.product(range(len(ENDS)), repeat=k):
            yield ends
    return gen


def chain(ends, ctx):
    ps = ['/a', '/a/b', '/a/b/c', '/a/d'][:len(ends)]
    n = {p: {'prog': HEAD + ENDS[e]} for p, e in zip(ps, ends)}
    n['/a']['attrs'] = attrs(xx='[]')
    n['/i'] = {'instance': '/a', 'prog': HEAD}
    judge([lay(n)], [('start', '/a', None), ('nodes', ['/i', '/i/b', '/a/b'],
                                             None)], ctx)


def nested_cases(tier):
    def gen():
        for x in range(len(ENDS)):
            for y in range(len(ENDS)):
                for nest in range(len(NEST)):
                    for after in ((), ('exitnode',), ('raise',),
                                  ('exitgraph',)):
                        for where in (0, 1):
                            yield x, y, nest, after, where
    return gen


def nested(case, ctx):
    x, y, nest, after, where = case
    ps = ['/a', '/a/b']
    n = {p: {'prog': HEAD + (SET,)} for p in ps}
    n['/a']['attrs'] = attrs(xx='[]')
    p = ps[where]
    n[p]['prog'] = HEAD + (SET, NEST[nest], SET, ('me',)) + (
        (after,) if after else ())
    n['/n'] = {'attrs': attrs(xx='[7]'), 'prog': HEAD + ENDS[x]}
    n['/n/k'] = {'prog': HEAD + ENDS[y]}
    judge([lay(n)], [('start', '/a', None), ('nodes', ['/a/b', '/n'], None)],
          ctx)


FAILS = [('raise ValueError("why")', 'ValueError: why'),
         ('int("q")', "ValueError: invalid literal for int()"),
         ('{}["k"]', "KeyError: 'k'"),
         ('import sys; sys.exit(3)', 'SystemExit: 3'),
         ('assert False, "no"', 'AssertionError: no'),
         ('undefined_name', 'NameError:'),
         ('1 / 0', 'ZeroDivisionError:'),
         ('(lambda: 1 / 0)()', 'ZeroDivisionError:'),
         ('bad_func()', 'ZeroDivisionError:'),
         ('execute(["/gone"])', '/gone'),
         ('import json; json.loads("{")', 'JSONDecodeError'),
         ('self.nope', "AttributeError:"),
         ('def (', 'SyntaxError:'),
         ('  x = 1', 'IndentationError:'),
         ('return 5', 'SyntaxError:')]
FILL = ['# comment', '', 'x = 1', 'y = """two', '${nl}', '"text"',
        'if True:', '${/a.one}']


def line_cases(tier):
    fills = [(), ('# comment',), ('',), ('x = 1',), ('"doc"',),
             ('y = """two', 'lines"""'), ('${nl}',), ('z = "${one}"',),
             ('if True:', '    pass'), ('s = \'\'\'', '${nl}\'\'\'')]

    def gen():
        for fail in range(len(FAILS)):
            for a in fills:
                for b in fills:
                    if tier == 'quick' and a and b and fail % 3:
                        continue
                    for where in ('/a', '/a/b', '/i', '/'):
                        yield fail, a, b, where
    return gen


def line(case, ctx):
    fail, a, b, where = case
    text, says = FAILS[fail]
    nl = 'p = 1\nq = 2'
    code = ['def bad_func():', '    return 1 / 0'] + list(a) + [text] + \
        list(b)
    node = {'attrs': attrs(nl=nl, one='1'), 'code': code}
    n = {'/a': {}, '/a/b': {}, '/i': {}}
    n[where] = node
    if where == '/a':
        n['/i'] = {'instance': '/a'}
    stage = lib.mk_stage([lay(n, '/v/top.nxt'),
                          lay({'/a': {'comment': 'c'}}, '/v/low.nxt')])
    from nxt.runtime import GraphError, GraphSyntaxError
    before = lib.docs(stage)
    at = sum(l.replace('${nl}', nl).count('\n') + 1 for l in code[:2 + len(a)])
    src = text
    path = where
    try:
        stage.execute_nodes(['/i' if where == '/' else where],
                            stage.build_stage())
    except GraphError as e:
        syntax = fail >= len(FAILS) - 3
        expect_eq(isinstance(e, GraphSyntaxError), syntax, 'kind', case)
        want = 'File "/v/top.nxt", line %d, in %s\n' % (at + 1, path)
        if fail == len(FAILS) - 2 and a[:1] == ('if True:',):
            want = want     # still the unexpected indent line
        expect(str(e).startswith(want), 'blame', lambda: 'want %r got %s %r'
               % (want, e, case))
        if not syntax:
            expect(str(e).split('\n')[1].strip() == src.strip(), 'line-text',
                   lambda: '%s %r' % (e, case))
        expect(says in str(e), 'says', lambda: '%s %r' % (e, case))
        expect_eq(lib.docs(stage), before, 'layers-changed', case)
        ctx.nontrivial(case)
        ctx.state(repr(case))
        ctx.transition()
        ctx.trace()
        return
    expect(False, 'no-error', case)


def value_cases():
    """Errors while an attr is evaluated name the node they came from."""
    for seq in itertools.product(('/a', '/b', '/gone', '/off', '/b/c'),
                                 repeat=3):
        yield seq


def missing(seq, ctx):
    """Unknown nodes stop the execution, disabled ones are passed over."""
    from nxt.runtime import InvalidNodeError
    n = {p: {'code': PRE + ['probe.add(self._node_path)']}
         for p in ('/a', '/b', '/off', '/b/c')}
    n['/off']['enabled'] = False
    stage = lib.mk_stage([lay(n)])
    probe.clear()
    want = []
    for p in seq:
        if p == '/gone':
            break
        if p != '/off':
            want.append(p)
    ended = 'ok'
    try:
        stage.execute_nodes(list(seq), stage.build_stage())
    except InvalidNodeError as e:
        ended = 'invalid'
        expect('/gone' in str(e), 'names-node', str(e))
    expect_eq(probe.log, want, 'ran', seq)
    expect_eq(ended, 'invalid' if '/gone' in seq else 'ok', 'ended', seq)
    ctx.state(seq)
    ctx.transition()
    ctx.trace()


def custom_cases():
    for code in ('self.xx = 5', 'raise ExitNode("r")', 'raise ExitGraph("r")',
                 'raise ValueError("w")', 'x = 1\n\nraise ValueError("w")',
                 'def (', 'execute(["/b"])',
                 'gg = 1', 'global gg; gg = 1', '${xx}+1'):
        for path in ('/a', '/b', '/i'):
            for fresh in (True, False):
                yield code, path, fresh


def custom(case, ctx):
    """A snippet run on a node ends, and leaves values, like its code."""
    from nxt.runtime import ExitGraph, ExitNode, GraphError
    code, path, fresh = case
    n = {'/a': {'attrs': attrs(xx='1'), 'prog': ()},
         '/b': {'attrs': attrs(xx='2'), 'prog': (('set', 'xx', '9'),)},
         '/i': {'instance': '/a', 'prog': ()}}
    stage = lib.mk_stage(refrun.doc([lay(n)]))
    comp = stage.build_stage()
    if not fresh:
        comp = stage.setup_runtime_layer(comp)
    ended, got = 'ok', None
    try:
        got = stage.execute_custom_code(code, path, comp)
    except GraphError as e:
        ended = 'error'
        if 'ValueError' in code:
            expect('line %d, in %s\n    raise ValueError' % (
                code.count('\n') + 1, path) in str(e), 'blame', str(e))
    want = 'error' if 'ValueError' in code or 'def' in code else 'ok'
    expect_eq(ended, want, 'ended', case)
    kind = ExitNode if 'ExitNode' in code else ExitGraph if 'ExitGraph' \
        in code else type(None)
    expect_eq(type(got), kind, 'result', case)
    if not fresh:
        want = {'/a': '1', '/b': '2', '/i': '1'}
        if code == 'self.xx = 5':
            want[path] = 5
            if path == '/a':
                want['/i'] = 5
        if 'execute' in code:
            want['/b'] = 9
        for p, v in want.items():
            expect_eq(getattr(comp.lookup(p), 'xx'), v, 'value', (p, case))
        expect_eq(comp.running, False, 'running', case)
        expect_eq('gg' in comp._console.globals, 'global' in code, 'globals',
                  case)
    ctx.state(case)
    ctx.transition()
    ctx.trace()


def parts(tier):
    return [('chain', chain_cases(tier), chain),
            ('nested', nested_cases(tier), nested),
            ('lines', line_cases(tier), line),
            ('missing', value_cases, missing),
            ('snippets', custom_cases, custom)]
