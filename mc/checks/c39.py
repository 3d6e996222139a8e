"""C39 executing in a remote context is executing here."""
import itertools
import json
import os
import subprocess
import sys
import tempfile
from mc import lib
from mc.core import expect, expect_eq

LEVEL = 'exploration'
RULE = ('every combination of a graph from a menu of programs, a start, a '
        'parameter set and a context with or without extra arguments, handed '
        'to the server function: the cache that comes back is compared with '
        'executing in this process; the interpreter is started for a subset, '
        'for the others its command line runs in this process.  Remote sub '
        'graph nodes against sub graph nodes.  Every way an execution that '
        'needs a server can end against what happens to the server.  '
        'Non-trivial: distinct (graph, start, parameters, context)')
ASSUME = ['attributes of the context graph\'s own world node are visible in '
          'the executed graph (its names are not compared)',
          'values json can hold; integers of 32 bits']
CASE_TIMEOUT = 120
OWN = {'cache_file', 'graph_file', 'parameters_file', 'start_node',
       '_cache_file', '_parameters', '_graph_path', '_start', '_context',
       'ret'}
START = {'/': {'attrs': {'ww': {'value': 'world'}, 'items': {
    'type': 'list', 'value': '[1]'}}}}
PROGRAMS = {
    'plain': ['self.yy = self.xx + 1'],
    'world': ['STAGE.ww = "changed"', 'STAGE.fresh = [1, self.xx]'],
    'global': ['global shared', 'shared = self.xx'],
    'token': ['self.yy = "${ww}"', 'self.zz = ${xx}'],
    'exit node': ['self.yy = 1', 'raise ExitNode("done")', 'self.zz = 2'],
    'exit graph': ['self.yy = 1', 'raise ExitGraph("done")'],
    'fail': ['self.yy = 1', '1 / 0'],
    'syntax': ['self.yy = = 1'],
    'system exit': ['import sys', 'sys.exit(3)'],
    'call': ['execute(["/other"])', 'self.yy = 1'],
    'path': ['self.yy = "${path::x.txt}"', 'self.zz = "${file::x.txt}"'],
    'name': ['self.yy = __stage__.top_layer.real_path'],
    'unsaved': ['self.yy = object()', 'self.zz = (1, 2)'],
}
STARTS = [None, '/second', '/first/child', '/exits', '/none', 0, 1, 7,
          '/off']
PARAMS = [{}, {'/first.xx': 5}, {'/first.xx': '[1, 2]', '/.ww': 'p'},
          {'/first.new': 'a b', '/second.xx': -1.5}, {'/none.x': 1},
          {'/.ww': '${/second.xx}', '/.more': None}, {'/first.xx': [1, 'x']},
          {'/.items': {'a': True}, '/first.q': '"quoted" \'text\' é'}]
CONTEXTS = ['python', 'with args']


def BOUNDS(tier):
    return {'programs': len(PROGRAMS), 'starts': len(STARTS),
            'parameter_sets': len(PARAMS), 'contexts': len(CONTEXTS)}


def graph(prog, second='plain'):
    nodes = {p: dict(n) for p, n in START.items()}
    xx = {'type': 'int', 'value': '1'}
    nodes['/first'] = {'start_point': True, 'attrs': {'xx': xx},
                       'code': PROGRAMS[prog], 'child_order': ['child']}
    nodes['/first/child'] = {'code': ['self.cc = repr(self.xx)'],
                             'attrs': {'tt': {'value': '${xx}'}}}
    nodes['/second'] = {'start_point': True, 'attrs': {'xx': dict(xx)},
                        'code': PROGRAMS[second]}
    nodes['/after'] = {'execute_in': '/first', 'instance': '/second',
                       'code': ['self.after = self.xx']}
    nodes['/exits'] = {'code': ['raise ExitGraph("x")']}
    nodes['/other'] = {'code': ['self.oo = 1']}
    nodes['/off'] = {'enabled': False, 'code': ['self.oo = 1']}
    return nodes


def setup_worker(ctx):
    import nxt.session
    import nxt.remote.server
    import nxt.remote.client
    from nxt.remote import contexts
    from nxt import cli
    ctx.dir = os.path.realpath(os.getcwd())
    with open('x.txt', 'w') as fp:
        fp.write('x')
    # Everything temporary is this worker's own, the address of a running
    # server included
    ctx.tmp = os.path.join(ctx.dir, 'tmp')
    os.makedirs(ctx.tmp)
    os.environ['TMPDIR'] = tempfile.tempdir = ctx.tmp
    ctx.call = subprocess.call
    contexts.register_context(contexts.RemoteContext(
        'with args', sys.executable, contexts._context_graph,
        args=('-B', '-s')))
    ctx.argv = []
    ctx.cli = cli
    ctx.quiet = open(os.devnull, 'w')


def in_process(ctx):
    """Stands in for starting an interpreter: runs the command line here."""
    def call(args, *a, **kw):
        ctx.argv.append(list(args))
        at = [i for i, x in enumerate(args) if x.endswith('cli.py')][0]
        rest = [str(x) for x in args[at + 1:]]
        for x in args:
            expect(isinstance(x, str), 'argument-type', args)
        old = sys.argv
        sys.argv = [args[at]] + rest
        try:
            ctx.cli.main()
            return 0
        except SystemExit as e:
            return e.code or 0
        except Exception:
            return 1
        finally:
            sys.argv = old
    return call


def quiet_call(ctx):
    def call(args, *a, **kw):
        ctx.count('interpreters')
        return ctx.call(args, stdout=subprocess.DEVNULL,
                        stderr=subprocess.DEVNULL)
    return call


def write(ctx, nodes, name='g.nxt'):
    path = os.path.join(ctx.dir, name)
    with open(path, 'w') as fp:
        json.dump({'version': lib.VERSION, 'alias': 'g', 'nodes': nodes}, fp)
    return path


def view(cache, drop=OWN):
    """What a cache layer says, as far as json can hold it."""
    out = {}
    for p, n in cache.nodes.items():
        vals = {k: v for k, v in vars(n).items()
                if not k.startswith('_') and k not in drop
                and '__nxt' not in k}
        code = getattr(n, lib.A.CACHED_CODE, None)
        out[p] = vals, code if p != '/' else ''
    return json.loads(json.dumps(out))


def local(ctx, path, start, params):
    from nxt.session import Session
    from nxt.nxt_layer import CacheLayer
    from nxt.runtime import ExitGraph
    end = 'ok'
    try:
        rt = Session().execute_graph(path, start, dict(params))
    except ExitGraph as e:
        rt = e.runtime_layer
    except (Exception, SystemExit):
        return None
    p = os.path.join(ctx.dir, 'local.nxt')
    rt.cache_layer.save(p)
    return CacheLayer.load_from_filepath(p)


def remote(ctx, path, start, params, context):
    from nxt.remote import server
    from nxt.nxt_layer import CacheLayer
    env = dict(os.environ)
    try:
        cache = server.ServerFunctions.exec_in_headless(
            path, start, None, dict(params), context)
        return CacheLayer.load_from_filepath(cache)
    except ValueError:
        # No cache was written
        return None
    finally:
        os.environ.clear()
        os.environ.update(env)


def run_launch(case, ctx):
    prog, start, params, context, real = case
    path = write(ctx, graph(prog))
    with open(path) as fp:
        text = fp.read()
    want = local(ctx, path, start, params)
    server = sys.modules['nxt.remote.server']
    server.subprocess.call = quiet_call(ctx) if real else in_process(ctx)
    try:
        got = remote(ctx, path, start, params, context)
    finally:
        server.subprocess.call = ctx.call
    expect_eq(got is None, want is None, 'remote-outcome', case)
    if want is not None:
        expect_eq(view(got), view(want), 'remote-cache', case)
    with open(path) as fp:
        expect_eq(fp.read(), text, 'graph-changed', case)
    ctx.nontrivial(json.dumps(case))
    for f in os.listdir(ctx.tmp):
        if f.endswith('.nxt'):
            os.remove(os.path.join(ctx.tmp, f))


def launch_cases(tier):
    def cases():
        for prog in PROGRAMS:
            for context in CONTEXTS:
                for start in STARTS:
                    for params in PARAMS:
                        yield prog, start, params, context, False
        if tier != 'quick':
            for prog in PROGRAMS:
                for start in STARTS:
                    for params in PARAMS[:4]:
                        yield prog, start, params, 'python', True
    return cases


def process_cases(tier):
    def cases():
        for i, (prog, start) in enumerate(itertools.product(
                PROGRAMS, (None, '/second', '/exits', 1))):
            if tier == 'quick' and start is not None and \
                    prog not in ('plain', 'world', 'exit graph'):
                continue
            yield (prog, start, PARAMS[i % len(PARAMS)],
                   CONTEXTS[i % 2], True)
    return cases


# -- the remote sub graph node -------------------------------------------

class Marshal(object):
    """The server, reached through what xmlrpc makes of the arguments."""
    def __init__(self, address=None):
        pass

    def exec_in_headless(self, *args):
        from xmlrpc.client import dumps, loads
        from nxt.remote import server
        args, _ = loads(dumps(tuple(args), allow_none=True))
        return server.ServerFunctions.exec_in_headless(*args)


def caller(node, attrs, path, start, ref):
    a = {k: {'value': v} for k, v in attrs.items()}
    a['_graph_path'] = {'value': path}
    if start:
        a['_start'] = {'value': start}
    return {'/call': {'instance': node, 'start_point': True, 'attrs': a,
                      'child_order': ['next']},
            '/call/next': {'code': [
                'self.seen = {k: repr(getattr(self, k, None)) for k in '
                '("ww", "items", "fresh", "own", "aa")}'],
                'attrs': {'aa': {'value': 'kept'}}}}


def run_node(case, ctx):
    prog, start, attrs = case
    path = write(ctx, graph(prog))
    server = sys.modules['nxt.remote.server']
    import nxt.remote.client
    import nxt.session
    from nxt.session import Session
    old = nxt.remote.client.NxtClient
    out = []
    env = dict(os.environ)
    for node, ref in (('/_sub_graph', 'sub_graphs.nxt'),
                      ('/_remote_sub_graph', 'remote_contexts.nxt')):
        top = os.path.join(ctx.dir, 'top.nxt')
        with open(top, 'w') as fp:
            json.dump({'version': lib.VERSION, 'alias': 'top',
                       'references': ['$NXT_BUILTINS/' + ref],
                       'nodes': caller(node, attrs, path, start, ref)}, fp)
        server.subprocess.call = in_process(ctx)
        nxt.remote.client.NxtClient = Marshal
        session = Session()
        session._start_rpc_server = lambda *a, **kw: None
        try:
            rt = session.execute_graph(top)
            n = rt.cache_layer.lookup('/call')
            names = {'ww', 'items', 'fresh', 'own'}
            got = {k: v for k, v in vars(n).items() if k in names}
            out.append((json.loads(json.dumps(got)),
                        rt.cache_layer.lookup('/call/next').seen))
        except Exception as e:
            out.append('failed')
        finally:
            server.subprocess.call = ctx.call
            nxt.remote.client.NxtClient = old
            os.environ.clear()
            os.environ.update(env)
    expect_eq(out[1], out[0], 'remote-node', case)
    ctx.nontrivial(json.dumps(case))


def node_cases():
    for prog in ('plain', 'world', 'exit node', 'exit graph', 'fail', 'call',
                 'token', 'path'):
        for start in (None, '/second', '/exits', '/none'):
            for attrs in ({}, {'own': '5'}, {'ww': 'mine'}, {
                    'ww': '"text"', 'items': '[2, "a"]', 'own': '{"a": 1}'},
                    {'own': '${ww}', 'ww': '1.5'}):
                yield prog, start, attrs


# -- life of the server --------------------------------------------------

class Server(object):
    def __init__(self, log):
        self.log = log

    def terminate(self):
        self.log.append('terminate')


def run_life(case, ctx):
    import nxt.session
    from nxt.session import Session
    entry, doc, prog, context, starts, remote_end = case
    log = []
    path = write(ctx, graph(prog))
    if doc:
        with open(path, 'w') as fp:
            json.dump({'version': lib.VERSION, 'alias': 'g', 'references': [
                '$NXT_BUILTINS/' + doc], 'nodes': graph(prog)}, fp)
    if entry == 'missing':
        path += '.none.nxt'

    class Process(object):
        @classmethod
        def start(cls, **kw):
            log.append('start')
            if starts == 'fails':
                raise OSError('no')
            return Server(log) if starts == 'started' else None

    class Client(Marshal):
        def exec_in_headless(self, *args):
            log.append('call')
            if remote_end == 'raises':
                raise RuntimeError('x')
            if remote_end == 'no file':
                return os.path.join(ctx.dir, 'none.nxt')
            return cache

    cache = os.path.join(ctx.dir, 'life.nxt')
    with open(cache, 'w') as fp:
        json.dump({'version': lib.VERSION, 'nodes': {'/first': {}}}, fp)
    old = nxt.session.RPCServerProcess, nxt.session.NxtClient
    nxt.session.RPCServerProcess = Process
    nxt.session.NxtClient = Client
    session = Session()
    try:
        try:
            if entry == 'nodes':
                session.execute_nodes(path, ['/first'])
            else:
                session.execute_graph(path, context=context)
            end = 'ok'
        except BaseException as e:
            end = type(e).__name__
    finally:
        nxt.session.RPCServerProcess, nxt.session.NxtClient = old
    remote_needed = bool(context) or bool(doc)
    if entry == 'missing':
        expect_eq(log, [], 'server-for-nothing', case)
        expect(end != 'ok', 'missing-ok', case)
        return
    want = []
    if remote_needed:
        want.append('start')
    if context and starts != 'fails':
        want.append('call')
    if remote_needed and starts == 'started':
        want.append('terminate')
    expect_eq(log, want, 'server-life', case)
    expect_eq(session.rpc_server, None, 'server-kept', case)
    if remote_needed and starts == 'fails':
        expect_eq(end, 'OSError', 'start-failure-hidden', case)
    elif context and remote_end != 'ok':
        expect(end != 'ok', 'remote-failure-hidden', case)
    elif context:
        expect_eq(end, 'ok', 'remote-ok', case)
    elif prog in ('fail', 'syntax', 'exit graph', 'system exit'):
        expect(end != 'ok', 'failure-hidden', case)
    else:
        expect_eq(end, 'ok', 'local-ok', case)
    ctx.nontrivial(json.dumps(case))


def life_cases():
    for entry in ('graph', 'nodes', 'missing'):
        for doc in ('', 'sub_graphs.nxt', 'remote_contexts.nxt'):
            for prog in ('plain', 'fail', 'exit graph', 'system exit',
                         'syntax'):
                for context in (None, 'python'):
                    if entry == 'nodes' and context:
                        continue
                    for starts in ('started', 'running', 'fails'):
                        for end in ('ok', 'raises', 'no file'):
                            if end != 'ok' and not context:
                                continue
                            yield entry, doc, prog, context, starts, end


# -- everything real -----------------------------------------------------

def run_rpc(case, ctx):
    # How long a server takes to start is the machine's business
    import nxt.session
    process = nxt.session.RPCServerProcess
    started = []

    class Quiet(object):
        def __getattr__(self, name):
            return getattr(subprocess, name)

        @staticmethod
        def Popen(*args, **kw):
            kw['stdout'] = kw['stderr'] = subprocess.DEVNULL
            started.append(subprocess.Popen(*args, **kw))
            return started[-1]

    env = dict(os.environ)
    old = process.STARTUP_TIMEOUT
    process.STARTUP_TIMEOUT = 40
    nxt.session.subprocess = Quiet()
    try:
        rpc_case(case, ctx)
    finally:
        process.STARTUP_TIMEOUT = old
        nxt.session.subprocess = subprocess
        os.environ.clear()
        os.environ.update(env)
        for p in started:
            p.kill()
            p.wait()


def rpc_case(case, ctx):
    from nxt.session import Session
    kind, prog, start, params = case
    path = write(ctx, graph(prog))
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['NXT_DCC'] = 'standalone'
    os.environ['MC_GRAPHS'] = ctx.dir
    if kind != 'node':
        want = local(ctx, path, start, params)
        session = Session()
        path = {'context': path, 'relative': './g.nxt',
                'variable': '$MC_GRAPHS/g.nxt'}[kind]
        try:
            got = session.execute_graph(path, start, dict(params), 'python')
        except Exception:
            got = None
        expect_eq(got is None, want is None, 'rpc-outcome', case)
        if got is not None:
            expect_eq(view(got), view(want), 'rpc-cache', case)
    else:
        top = os.path.join(ctx.dir, 'top.nxt')
        out = []
        for node, ref in (('/_sub_graph', 'sub_graphs.nxt'),
                          ('/_remote_sub_graph', 'remote_contexts.nxt')):
            with open(top, 'w') as fp:
                json.dump({'version': lib.VERSION, 'alias': 'top',
                           'references': ['$NXT_BUILTINS/' + ref],
                           'nodes': caller(node, params, path, start, ref)},
                          fp)
            session = Session()
            rt = session.execute_graph(top)
            n = rt.cache_layer.lookup('/call')
            out.append({k: v for k, v in vars(n).items()
                        if k in ('ww', 'items', 'fresh', 'own')})
        expect_eq(out[1], out[0], 'rpc-node', case)
    expect_eq(session.rpc_server, None, 'rpc-kept', case)
    from nxt.session import RPCServerProcess
    p = RPCServerProcess()
    expect_eq(p.is_running(), False, 'rpc-still-running', case)
    ctx.nontrivial(json.dumps(case))
    ctx.count('servers')


def rpc_cases(tier):
    yield 'relative', 'world', None, {'/first.xx': 5}
    yield 'variable', 'path', 1, {}
    yield 'context', 'exit graph', '/second', {}
    yield 'context', 'fail', None, {}
    yield 'node', 'world', None, {'own': '5'}
    if tier != 'quick':
        for prog in PROGRAMS:
            yield 'context', prog, None, {'/first.xx': 2}
            yield 'relative', prog, 1, {}


def parts(tier):
    return [('servers', lambda: rpc_cases(tier), run_rpc),
            ('interpreters', process_cases(tier), run_launch),
            ('launch', launch_cases(tier), run_launch),
            ('remote nodes', node_cases, run_node),
            ('server life', life_cases, run_life)]
