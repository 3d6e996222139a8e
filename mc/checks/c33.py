"""C33 the command line executes what was asked for, or nothing."""
import io
import itertools
import json
import os
import sys
from contextlib import redirect_stderr, redirect_stdout
from mc import lib
from mc.core import expect, expect_eq

LEVEL = 'exploration'
RULE = ('every exec command of the grammar (path, start, parameter list or '
        'file, context, verbosity, program prefix) in every order of its '
        'options, with every listed value; every kind of unusable command; '
        'the legacy forms.  The call handed to the session is compared with '
        'the command, and a subset is really executed and its outcome '
        'compared with executing through the api.  Non-trivial: distinct '
        'argument vectors')
ASSUME = ['values that start with a dash and are no negative number can not '
          'be given on a command line (argparse)',
          'the nxt_editor package is not installed']
PATHS = ['g.nxt', './d/g.nxt', '/abs/my graph.nxt', 'no_ext']
STARTS = [None, '/aa', '/aa/bb', '', '0', '/a b']
VALUES = ['5', '-5', '-1.5', '', 'a b', '"q"', "'", '${/aa.xx}', '[1, 2]',
          'x=y', '/aa.xx', '@f', 'é', 'a\nb', '*', 'exec', 'true', '5.nxt']
KEYS = ['/aa.xx', '/.ww', '/aa/bb.yy', '/', '/aa']
VERBOSE = [[], ['-v'], ['-vv'], ['--verbose']]
PRE = [['prog'], ['prog', '-b', '--'], ['prog', 'x.nxt', '-gui', '--'],
       ['prog', '--']]


def BOUNDS(tier):
    return {'paths': len(PATHS), 'starts': len(STARTS),
            'values': len(VALUES), 'keys': len(KEYS), 'pairs':
            2 if tier == 'quick' else 3}


def setup_worker(ctx):
    ctx.dir = os.path.realpath(os.getcwd())
    import nxt.session
    from nxt import cli, nxt_log, legacy
    ctx.calls = []

    class Recorder(object):
        def execute_graph(self, filepath, start=None, parameters=None,
                          context=None):
            ctx.calls.append((filepath, start, dict(parameters or {}),
                              context))
    ctx.recorder = Recorder
    ctx.session = nxt.session.Session
    cli.count_down = lambda t=3: None
    cli.has_editor = False
    cli.nxt_log.set_verbosity = lambda level: ctx.calls.append(
        ('verbose', level))
    cli.legacy.cli_file_convert = lambda path, replace: ctx.calls.append(
        ('convert', path, bool(replace)))
    os.makedirs('params')
    for name, data in FILES.items():
        with open(os.path.join('params', name), 'w') as fp:
            fp.write(data)


FILES = {'one.json': '{"/aa.xx": 5, "/.ww": "text", "/aa.zz": [1, null]}',
         'empty.json': '{}', 'with space.json': '{"/aa.xx": "${/.ww}"}',
         'plain': '{"/aa/bb.yy": true}'}
BAD_FILES = {'bad.json': '{"/aa.xx": 5'}


def call(ctx, argv, session=None):
    """(exit code or exception, recorded calls)."""
    from nxt import cli
    ctx.calls = []
    old = sys.argv, cli.Session, dict(os.environ)
    sys.argv = list(argv)
    cli.Session = session or ctx.recorder
    os.environ.pop('NXT_VERBOSE', None)
    end = 0
    out = io.StringIO()
    try:
        with redirect_stderr(out), redirect_stdout(out):
            try:
                cli.main()
            except SystemExit as e:
                end = e.code or 0
            except Exception as e:
                end = type(e).__name__
    finally:
        sys.argv, cli.Session = old[:2]
        os.environ.clear()
        os.environ.update(old[2])
    return end, [c for c in ctx.calls if c[0] != 'verbose'], [
        c[1] for c in ctx.calls if c[0] == 'verbose']


def command(pre, verbose, path, start, params, context, order):
    """One argument vector; order: of path, start, params and context."""
    blocks = {'path': [path]}
    if start is not None:
        blocks['start'] = [order[1][0], start]
    if params is not None:
        blocks['params'] = [order[1][1]] + params
    if context is not None:
        blocks['context'] = [order[1][2], context]
    out = []
    for b in order[0]:
        out += blocks.get(b, [])
    return pre + verbose + ['exec'] + out


def orders(params):
    for o in itertools.permutations(['path', 'start', 'params', 'context']):
        yield o


NAMES = [('-s', '-p', '-c'), ('--start', '--parameters', '--context')]


def run_exec(case, ctx):
    pre, verbose, path, start, params, context, order = case
    # A list of values ends where the next option starts
    rest = order[0][order[0].index('params') + 1:]
    if params is not None:
        for b in rest:
            if b == 'path':
                return ctx.count('ambiguous')
            if b == 'start' and start is not None:
                break
            if b == 'context' and context is not None:
                break
    argv = command(pre, verbose, path, start, params, context, order)
    end, calls, levels = call(ctx, argv)
    if params is None:
        want = {}
    elif len(params) == 1:
        with open(params[0]) as fp:
            want = json.load(fp)
    else:
        want = dict(zip(params[::2], params[1::2]))
    expect_eq(end, 0, 'refused', argv)
    expect_eq(calls, [(path, start, want, context)], 'call', argv)
    expect_eq(levels, [{'-v': 1, '-vv': 2, '--verbose': 1}[v]
                       for v in verbose], 'verbosity', argv)
    ctx.nontrivial(json.dumps(argv))


def exec_cases(tier):
    deep = tier != 'quick'

    def cases():
        def opts():
            for pre in PRE:
                for verbose in VERBOSE:
                    yield pre, verbose
        few = [None, [], ['/aa.xx', '5'], ['/aa.xx', '-5', '/.ww', 'a b'],
               ['params/one.json']]
        # Everything about the form
        for names in NAMES:
            for o in orders(None):
                for pre, verbose in opts():
                    for start in (None, '/aa'):
                        for context in (None, 'python'):
                            for params in few:
                                yield (pre, verbose, 'g.nxt', start, params,
                                       context, (o, names))
        # Everything about the values
        plain = (('path', 'start', 'params', 'context'), NAMES[0])
        first = (('params', 'start', 'path', 'context'), NAMES[1])
        for path in PATHS:
            for start in STARTS:
                for order in (plain, first):
                    if order is first and start is None:
                        continue
                    for key in KEYS:
                        for v in VALUES:
                            yield (PRE[0], [], path, start, [key, v], None,
                                   order)
                    for f in FILES:
                        yield (PRE[0], [], path, start, ['params/' + f],
                               None, order)
        pairs = [(k, v) for k in KEYS[:4] for v in VALUES]
        for ps in itertools.product(pairs, repeat=2):
            yield (PRE[0], [], 'g.nxt', None, [x for p in ps for x in p],
                   None, plain)
        if deep:
            for ps in itertools.product(pairs[::3], repeat=3):
                yield (PRE[1], [], 'g.nxt', '/aa', [x for p in ps
                                                    for x in p],
                       None, plain)
    return cases


def run_bad(case, ctx):
    end, calls, _ = call(ctx, ['prog'] + case)
    expect_eq(calls, [], 'bad-but-executed', case)
    expect(end != 0, 'bad-but-success', case)
    ctx.nontrivial(json.dumps(case))


def bad_cases(tier):
    def cases():
        keys = ['aa.xx', '.ww', '', 'x=5', 'g.nxt', '5']
        good = ['/aa.xx', '5']
        for form in (['exec', 'g.nxt'], ['-v', 'exec', 'g.nxt', '-s', '/aa'],
                     ['exec', 'g.nxt', '-c', 'python']):
            for k in keys:
                for v in VALUES:
                    yield form + ['-p', k, v]
                    yield form + ['-p'] + good + [k, v]
                    yield form + ['-p', k, v] + good
            # An odd number of values
            for v in VALUES:
                yield form + ['-p'] + good + [v]
                yield form + ['-p'] + good + good + [v]
            for v in VALUES + ['params/none.json', 'params', '']:
                yield form + ['-p', v]
            yield form + ['second.nxt']
            yield form + ['-p'] + good + ['--nope']
            yield form + ['-p'] + good + ['-x', '5']
            yield form + ['--nope', '5']
        for names in ('-c', '--context'):
            for c in ('nope', '', 'Python', 'g.nx'):
                yield ['exec', 'g.nxt', names, c]
        yield ['exec']
        yield ['exec', '-s', '/aa']
        yield ['exec', '-p'] + good
        for x in ('nope', 'g.json', 'run', 'EXEC'):
            yield [x, 'g']
            yield [x]
    return cases


def run_legacy(case, ctx):
    argv, want = case
    end, calls, _ = call(ctx, ['prog'] + argv)
    expect_eq(calls, [tuple(c) for c in want], 'legacy', argv)
    ctx.nontrivial(json.dumps(argv))


def legacy_cases(tier):
    for p in ('g.nxt', './d/g.nxt', '/abs/my graph.nxt', 'legacy.nxt'):
        ex = [(p, None, {}, None)]
        for pre in ([],):
            yield pre + [p], ex
            yield pre + [p, '-v'], ex
            yield pre + ['-v', p], ex
            # No editor is installed: nothing to show and nothing to execute
            yield pre + [p, '-gui'], []
            yield pre + ['-gui', p], []
            yield pre + [p, '--gui'], []
            for c in ('-c', '--convert'):
                yield pre + [p, c], [('convert', p, False)]
                yield pre + [c, p], [('convert', p, False)]
                for r in ('-r', '--replace'):
                    yield pre + [p, c, r], [('convert', p, True)]
                    yield pre + [r, c, p], [('convert', p, True)]
        yield ['convert', p], [('convert', p, False)]


# -- really executing ----------------------------------------------------

def graph():
    code = ['import json', 'out = {}',
            'for k in ("xx", "ww", "new", "zz"):',
            '    out[k] = repr(getattr(self, k, "none"))',
            'with open("out.txt", "a") as fp:',
            '    fp.write(json.dumps([self._node_path__nxt if hasattr(self, '
            '"_node_path__nxt") else "", out], sort_keys=True) + "\\n")']
    attrs = {'xx': {'type': 'int', 'value': '1'}}
    return {'/': {'attrs': {'ww': {'value': 'world'}}},
            '/aa': {'start_point': True, 'attrs': attrs, 'code': code,
                    'child_order': ['bb']},
            '/aa/bb': {'code': code, 'attrs': {'zz': {'value': '${xx}'}}},
            '/cc': {'code': code},
            '/fail': {'code': ['1 / 0'], 'execute_in': None},
            '/after': {'execute_in': '/fail', 'code': code}}


def run_real(case, ctx):
    start, params = case
    with open('g.nxt', 'w') as fp:
        json.dump({'version': lib.VERSION, 'alias': 'g',
                   'nodes': graph()}, fp)
    argv = ['prog', 'exec', 'g.nxt']
    if start is not None:
        argv += ['-s', start]
    if params:
        argv += ['-p'] + [x for kv in params.items() for x in kv]

    def result(fn):
        if os.path.exists('out.txt'):
            os.remove('out.txt')
        end = fn()
        if not os.path.exists('out.txt'):
            return end, []
        with open('out.txt') as fp:
            return end, fp.read().splitlines()

    def api():
        try:
            ctx.session().execute_graph('g.nxt', start, dict(params))
        except Exception as e:
            return type(e).__name__
        return 0
    got = result(lambda: call(ctx, argv, ctx.session)[0])
    want = result(api)
    expect_eq(got, want, 'executed', argv)
    expect(start != '/fail' or got[0] != 0, 'failure-hidden', argv)
    if start is None and not params:
        expect_eq(len(got[1]), 2, 'start-node', got)
    ctx.nontrivial(json.dumps(argv))
    ctx.count('executed')


def real_cases(tier):
    for start in (None, '/aa', '/aa/bb', '/cc', '/fail', '/none'):
        for k in ('/aa.xx', '/.ww', '/aa.new', '/none.a', '/aa/bb.zz'):
            for v in ('5', '-5', 'a b', '', '${/.ww}', '[1, 2]', '"q"',
                      '1.5', 'None'):
                yield start, {k: v}
        yield start, {}
        yield start, {'/aa.xx': '7', '/.ww': 'other'}


def parts(tier):
    return [('exec', exec_cases(tier), run_exec),
            ('unusable', bad_cases(tier), run_bad),
            ('legacy', lambda: legacy_cases(tier), run_legacy),
            ('executed', lambda: real_cases(tier), run_real)]
