"""C42 working with graphs leaves the process as it was."""
import gc
import itertools
import json
import logging
import os
import signal
import sys
import threading
from mc import lib
from mc.core import expect, expect_eq

LEVEL = 'model_checking'
RULE = ('every sequence of operations up to the depth bound out of the list '
        '(loads, saves, temp copies, compositions, executions, snippets, '
        'conversions, expansions, tokens and logs, those that succeed and '
        'those that fail in every way the list has), each once and three '
        'times over; after each the folder, environment, import path, '
        'streams, limits, signal handlers, threads, log handlers and open '
        'files of the process are compared with those before.  State: '
        '(operations done, process state)')
ASSUME = ['the code in the nodes does not itself change the process',
          'a file object that nothing refers to counts as closed']
CASE_TIMEOUT = 120

GOOD = {'version': lib.VERSION, 'references': ['sub/low.nxt'], 'nodes': {
    '/a': {'start_point': True, 'child_order': ['b'], 'code': [
        'self.seen = "${x}"', 'print(self.seen)'],
        'attrs': {'x': {'value': '1', 'type': 'int'},
                  'f': {'value': '${file::../data.txt}'},
                  'g': {'value': '${path::data.txt}'},
                  'c': {'value': '${contents::data.txt}'}}},
    '/a/b': {'code': ['self.y = 3']},
    '/bad': {'start_point': True, 'code': ['z = 1', 'z / 0']},
    '/syntax': {'code': ['def (']},
    '/stop': {'code': ['raise ExitGraph()']},
    '/leave': {'code': ['raise ExitNode()']},
    '/token': {'code': ['self.v = """${contents::gone.txt}"""']},
    '/sub': {'code': ['STAGE.execute(start="/a")']},
    '/subbad': {'code': ['STAGE.execute(start="/bad")']},
    '/base': {'code': ['raise KeyboardInterrupt()']},
    '/inst': {'instance': '/a'}}}
LOW = {'version': lib.VERSION, 'references': ['deep/leaf.nxt'],
       'nodes': {'/a': {'attrs': {'low': {'value': '${file::f.txt}'}}}}}
LEAF = {'version': lib.VERSION, 'nodes': {'/leaf': {}}}
FILES = {
    'good.nxt': GOOD, 'sub/low.nxt': LOW, 'sub/deep/leaf.nxt': LEAF,
    'badref.nxt': {'version': lib.VERSION, 'references': ['sub/torn.nxt'],
                   'nodes': {}},
    'goneref.nxt': {'version': lib.VERSION, 'references': ['sub/refgone.nxt'],
                    'nodes': {}},
    'sub/refgone.nxt': {'version': lib.VERSION,
                        'references': ['deep/nothing.nxt'], 'nodes': {}},
    'cycle.nxt': {'version': lib.VERSION, 'references': ['sub/back.nxt'],
                  'nodes': {}},
    'sub/back.nxt': {'version': lib.VERSION, 'references': ['../cycle.nxt'],
                     'nodes': {}},
    'badnodes.nxt': {'version': lib.VERSION,
                     'references': ['sub/nodes.nxt'], 'nodes': {}},
    'sub/nodes.nxt': {'version': lib.VERSION, 'nodes': {'/a': 5}},
    'new.nxt': {'version': '9.1', 'nodes': {}},
    'old.nxt': {'version': '1.2', 'references': [{'path': 'sub/low.nxt'}],
                'nodes': {'/a': {}}},
    'older.nxt': {'version': '0.1', 'children': []},
    'outer.nxt': {'version': lib.VERSION,
                  'references': ['$NXT_BUILTINS/sub_graphs.nxt'],
                  'nodes': {'/call': {'instance': '/_sub_graph', 'attrs': {
                      '_graph_path': {'value': 'good.nxt'},
                      '_start': {'value': '/a'}}},
                      '/callbad': {'instance': '/_sub_graph', 'attrs': {
                          '_graph_path': {'value': 'good.nxt'},
                          '_start': {'value': '/bad'}}}}},
}


def world(root):
    for name, doc in FILES.items():
        d = os.path.join(root, os.path.dirname(name))
        if not os.path.isdir(d):
            os.makedirs(d)
        with open(os.path.join(root, name), 'w') as fp:
            text = json.dumps(doc).replace('"good.nxt"', json.dumps(
                os.path.join(root, 'good.nxt')))
            fp.write(text)
    for name, text in (('sub/torn.nxt', '{"version": "1.1'),
                       ('data.txt', 'data'), ('x.txt', 'no graph')):
        with open(os.path.join(root, name), 'w') as fp:
            fp.write(text)


def swallow(fn, *a, **k):
    try:
        return fn(*a, **k)
    except BaseException as e:      # the outcome is another property's
        if type(e).__name__ == 'CaseTimeout':
            raise
        return None


def ops(root):
    """name -> function.  Imported here, where the checked code is."""
    from nxt import legacy, nxt_io, nxt_log, nxt_path, execute_graph
    from nxt.nxt_layer import SpecLayer
    from nxt.remote import nxt_socket
    from nxt.session import Session
    from nxt.stage import Stage

    def at(n):
        return os.path.join(root, n)

    def stage():
        return Stage.load_from_filepath(at('good.nxt'))

    def save(path):
        st = stage()
        st.top_layer.save(path)

    def run(start):
        st = stage()
        st.execute(start=start)

    def nodes(paths, name='good.nxt'):
        st = Stage.load_from_filepath(at(name))
        st.execute_nodes(paths, st.build_stage())

    def snippet(lines, where='/a'):
        st = stage()
        rt = st.setup_runtime_layer(st.build_stage())
        st.execute_custom_code('\n'.join(lines), where, rt)

    def values():
        st = stage()
        comp = st.build_stage()
        for p in ('/a', '/inst'):
            for a in ('x', 'f', 'g', 'c', 'low'):
                st.get_node_attr_value(comp.lookup(p), a, comp, resolved=True)

    def session(fn):
        s = Session()
        try:
            fn(s)
        finally:
            nxt_log.stop_session_log(s.log_file)

    def model(cmds):
        m = nxt_socket.SocketClientModel(None)
        m.load(at('good.nxt'))
        m.cache_filepath = at('cache.nxt')
        for c in cmds:
            swallow(*c)

    def temp_copy(out=None):
        st = stage()
        Stage.load_from_filepath(st.save_to_temp(st.build_stage(), out))

    def cli(*args):
        from nxt import cli as c
        argv = sys.argv
        sys.argv = ['nxt'] + list(args)
        try:
            c.main()
        finally:
            sys.argv = argv
    out = {
        'load': stage,
        'one shot': lambda: execute_graph(at('good.nxt'), '/a', {'/a.x': 4}),
        'one shot fails': lambda: execute_graph(at('good.nxt'), '/bad'),
        'one shot gone': lambda: execute_graph(at('gone.nxt')),
        'one shot nowhere': lambda: execute_graph(at('good.nxt'), None, None,
                                                  'nowhere'),
        'cli wrong': lambda: cli('exec', at('good.nxt'), '-p', 'a', 'b'),
        'cli file': lambda: cli('exec', at('good.nxt'), '-p',
                                at('data.txt')),
        'cli convert': lambda: cli('convert', at('old.nxt')),
        'compose': lambda: stage().build_stage(),
        'values': values,
        'expand': lambda: nxt_path.full_file_expand('a/../$HOME/b', root),
        'expand gone': lambda: nxt_path.full_file_expand('a', at('gone')),
        'expand file': lambda: nxt_path.full_file_expand('a', at('x.txt')),
        'expand odd': lambda: nxt_path.full_file_expand(5, at('sub')),
        'temp file': nxt_io.generate_temp_file,
        'temp dir': nxt_io.generate_temp_dir,
        'save data': lambda: nxt_io.save_file_data({'version': '1.1'}),
        'save binary': lambda: nxt_io.save_file_data(
            {'version': '1.1'}, file_format='.nxtb'),
        'save unpicklable': lambda: nxt_io.save_file_data(
            {'version': lambda: 1}, file_format='.nxtb'),
        'save odd': lambda: nxt_io.save_file_data({'v': object()}),
        'save': lambda: save(at('saved.nxt')),
        'save nowhere': lambda: save(at('gone/saved.nxt')),
        'save on folder': lambda: save(at('sub')),
        'save ext': lambda: save(at('saved.txt')),
        'temp copy': temp_copy,
        'temp copy fails': lambda: temp_copy(at('x.txt')),
        'layer': lambda: SpecLayer.load_from_filepath(at('good.nxt')),
        'convert': lambda: legacy.cli_file_convert(at('old.nxt')),
        'convert torn': lambda: legacy.cli_file_convert(at('sub/torn.nxt')),
        'convert gone': lambda: legacy.cli_file_convert(at('gone.nxt')),
        'snippet': lambda: snippet(['self.k = 1']),
        'snippet fails': lambda: snippet(['1/0']),
        'snippet exits': lambda: snippet(['raise ExitGraph()']),
        'session': lambda: session(lambda s: s.execute_graph(
            at('good.nxt'), '/a', {'/a.x': 4})),
        'session fails': lambda: session(lambda s: s.execute_graph(
            at('good.nxt'), '/bad')),
        'session gone': lambda: session(lambda s: s.execute_graph(
            at('gone.nxt'))),
        'session nodes': lambda: session(lambda s: s.execute_nodes(
            at('good.nxt'), ['/a/b', '/bad'])),
        'model': lambda: model([]),
        'model cache': lambda: (lambda m: None)(model([])),
        'paths': lambda: nodes(['/a', '/a/b', '/inst']),
        'graph': lambda: nodes(['/call'], 'outer.nxt'),
        'graph fails': lambda: nodes(['/callbad'], 'outer.nxt'),
        'sub': lambda: nodes(['/sub', '/a']),
    }
    for n in ('badref', 'goneref', 'cycle', 'badnodes', 'new', 'old', 'older',
              'gone'):
        out['load ' + n] = (lambda f: lambda: Stage.load_from_filepath(at(f))
                            )(n + '.nxt')
    out['load no graph'] = lambda: Stage.load_from_filepath(at('x.txt'))
    for n in ('a', 'bad'):
        out['run ' + n] = (lambda p: lambda: run(p))('/' + n)
    for n in ('bad', 'syntax', 'stop', 'leave', 'token', 'subbad', 'gone',
              'base'):
        out['nodes ' + n] = (lambda p: lambda: nodes(['/a', p]))('/' + n)
    out['run'] = lambda: run(None)
    out['run gone'] = lambda: run('/gone')
    return out


NAMES = None


def names():
    global NAMES
    if NAMES is None:
        NAMES = sorted(ops('/'))
    return NAMES


def BOUNDS(tier):
    return {'operations': names(), 'depth': 2 if tier == 'quick' else 3,
            'repeats': 3}


def fds():
    out = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            out[int(n)] = os.readlink('/proc/self/fd/' + n)
        except OSError:
            pass    # the listing's own
    return out


SIGNALS = [getattr(signal, n) for n in (
    'SIGINT', 'SIGTERM', 'SIGPIPE', 'SIGCHLD', 'SIGHUP', 'SIGUSR1')]


def state():
    loggers = {}
    for n in ('', 'nxt', 'nxt.nxt_log', 'nxt.session'):
        lg = logging.getLogger(n)
        loggers[n] = ([id(h) for h in lg.handlers], lg.level, lg.propagate,
                      lg.disabled, [id(f) for f in lg.filters])
    mask = os.umask(0)
    os.umask(mask)
    return {'folder': os.getcwd(), 'environment': dict(os.environ),
            'import-path': list(sys.path), 'argv': list(sys.argv),
            'streams': [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
            'hooks': [id(sys.excepthook), id(sys.displayhook),
                      sys.gettrace(), list(map(id, sys.meta_path))],
            'recursion': sys.getrecursionlimit(), 'gc': gc.isenabled(),
            'umask': mask, 'signals': [signal.getsignal(s) for s in SIGNALS],
            'threads': sorted(t.name for t in threading.enumerate()),
            'loggers': loggers, 'logging-off': logging.root.manager.disable}


def setup_worker(ctx):
    ctx.dir = os.path.realpath(os.getcwd())


def sequence(case, ctx):
    seq, times = case
    home = os.getcwd()
    root = os.path.join(ctx.dir, 'w')
    if not os.path.isdir(root):
        world(root)
    table = ops(root)
    before = state()
    # modules are imported and caches are filled once
    key = ('warm', os.getpid())
    if key not in WARM:
        WARM.add(key)
        for n in names():
            swallow(table[n])
            got = state()
            for k in before:
                expect(got[k] == before[k], 'changed-' + k,
                       lambda: 'first %s: %r, was %r' % (n, got[k],
                                                         before[k]))
    open_before = set(fds().items())
    for _again in range(times):
        for n in seq:
            swallow(table[n])
            got = state()
            for k in before:
                expect(got[k] == before[k], 'changed-' + k, lambda: (
                    '%s in %r: %r, was %r' % (n, seq, got[k], before[k])))
            ctx.transition()
    left = set(fds().items()) - open_before
    if left:
        # whatever nobody refers to any more is closed by now
        for _ in range(3):
            gc.collect()
        left = set(fds().items()) - open_before
    expect_eq(sorted(left), [], 'left-open', seq)
    expect_eq(os.getcwd(), home, 'folder')
    ctx.state((seq, times))
    ctx.trace()


WARM = set()


def parts(tier):
    d = 2 if tier == 'quick' else 3

    def one():
        for n in names():
            yield (n,), 3

    def many():
        for k in range(2, d + 1):
            for s in itertools.product(names(), repeat=k):
                yield s, 1
    return [('repeated', one, sequence), ('sequences', many, sequence)]
