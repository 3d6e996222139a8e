"""C43 a server is up when its start says so, and nobody's otherwise."""
import itertools
import json
import os
import socket
import subprocess
import time
import xmlrpc.client
from mc import lib
from mc.core import expect, expect_eq

LEVEL = 'model_checking'
RULE = ('the real session and server process classes against a modelled host '
        '(who listens on the port, when a started server answers, what its '
        'answers are), at the level of the sub process, clock, socket and '
        'xml rpc calls: every start in every state of the host, and every '
        'history of starts, executions and shutdowns of two sessions up to '
        'the depth bound in lockstep with a reference of who owns which '
        'server.  State: (host, owners)')
ASSUME = ['a server that was started answers or dies, and one that is told '
          'to shut down does', 'a session that already owns a server is not '
          'told to start another', 'servers only die by being told to']
LATEST = 5      # seconds a start waits
VERB = 'NXT_VERBOSE'


class Host(object):
    """A host with at most one server on the port."""
    def __init__(self, delay=1, foreign=None):
        self.now = 0
        self.delay = delay
        self.foreign = foreign      # None, 'nxt' or 'other'
        self.procs = []
        self.calls = []
        self.fault = None
        self.logs = 0

    def answering(self):
        if self.foreign == 'nxt':
            return 'foreign'
        for p in self.procs:
            if p.alive and self.now >= p.ready:
                return p
        return None

    # what the code under test calls
    def sleep(self, t):
        expect(t >= 0, 'negative-sleep')
        self.now += t

    def popen(self, args, *a, **k):
        env = k.get('env') or os.environ
        p = Proc(self, args, env.get(VERB), k.get('stdout'), k.get('stderr'))
        self.procs.append(p)
        return p

    def connect_ex(self, *_a):
        return 0 if self.foreign or self.answering() else 111

    def request(self, method, args):
        up = self.answering()
        if self.foreign == 'other':
            raise xmlrpc.client.ProtocolError('x', 501, 'no rpc', {})
        if not up:
            raise ConnectionRefusedError(111, 'Connection refused')
        self.calls.append(method)
        if method == 'is_alive':
            return True
        if method == 'kill':
            if up == 'foreign':
                self.foreign = None
            else:
                up.alive = False
            return None
        if method == 'exec_in_headless':
            if self.fault:
                raise xmlrpc.client.Fault(1, self.fault)
            with open('cache.nxt', 'w') as fp:
                json.dump({'version': lib.VERSION, 'nodes': {}}, fp)
            return os.path.abspath('cache.nxt')
        raise xmlrpc.client.Fault(1, 'method %s is not supported' % method)

    def living(self):
        return [p for p in self.procs if p.alive]


class Proc(object):
    def __init__(self, host, args, verbosity, out, err):
        self.host, self.args, self.verbosity = host, args, verbosity
        self.ready = host.now + host.delay
        self.alive = True
        self.out, self.err = out, err
        self.closed_at_start = bool(getattr(out, 'closed', False))
        self.pid = 4000 + len(host.procs)
        self.returncode = None

    def poll(self):
        return None if self.alive else 0

    def terminate(self):
        self.alive = False

    kill = terminate

    def wait(self, *_a, **_k):
        return 0


class Patched(object):
    def __init__(self, host):
        from nxt import nxt_log
        self.log = nxt_log
        self.host = host

    def __enter__(self):
        h = self.host
        self.saved = (subprocess.Popen, time.sleep, socket.socket.connect_ex,
                      xmlrpc.client.Transport.request,
                      self.log.startup_log_socket,
                      self.log.shutdown_log_socket)

        def request(_self, _host, _handler, body, verbose=False):
            args, method = xmlrpc.client.loads(body)
            return (h.request(method, args),)

        def up(stream_handler=None):
            h.logs += 1

        def down():
            h.logs = 0
        subprocess.Popen = h.popen
        time.sleep = h.sleep
        socket.socket.connect_ex = lambda s, *a: h.connect_ex(*a)
        xmlrpc.client.Transport.request = request
        self.log.startup_log_socket = up
        self.log.shutdown_log_socket = down
        return h

    def __exit__(self, *_a):
        (subprocess.Popen, time.sleep, socket.socket.connect_ex,
         xmlrpc.client.Transport.request, self.log.startup_log_socket,
         self.log.shutdown_log_socket) = self.saved


def setenv(name, value):
    if value is None:
        os.environ.pop(name, None)
    else:
        os.environ[name] = value


def new_session():
    from nxt.session import Session
    return Session()


def done(session):
    from nxt import nxt_log
    nxt_log.stop_session_log(session.log_file)


def start(case, ctx):
    standalone, foreign, delay, verb, slog, out = case
    host = Host(99 if delay is None else delay, foreign)
    setenv('NXT_DCC', 'standalone' if standalone else None)
    setenv(VERB, verb)
    session = new_session()
    path = os.path.abspath('server.out') if out == 'given' else None
    error = None
    with Patched(host):
        try:
            session._start_rpc_server(custom_stdout=out is not None,
                                      rpc_log_filepath=path, socket_log=slog)
        except Exception as e:
            error = e
        owned = session.rpc_server is not None
        expect_eq(os.environ.get(VERB), verb, 'verbosity-after', case)
        can = standalone and foreign is None
        good = can and delay is not None and delay <= LATEST
        if not standalone or foreign == 'nxt':
            expect(error is None, 'start-error', (case, repr(error)))
        elif not good:
            expect(isinstance(error, OSError), 'start-no-error',
                   (case, repr(error)))
        else:
            expect(error is None, 'start-error', (case, repr(error)))
        expect_eq(len(host.procs), int(can), 'processes', case)
        expect_eq(owned, bool(good), 'owns', case)
        expect_eq(len(host.living()), int(good), 'left-running', case)
        expect_eq(host.logs, int(good and out is not None), 'log-receiver',
                  case)
        if can:
            p = host.procs[0]
            expect_eq(p.verbosity, 'socket' if slog else verb,
                      'server-verbosity', case)
            expect('nxt.remote.server' in p.args, 'server-args', p.args)
            if out:
                expect(p.out is not None and p.out is p.err and
                       not p.closed_at_start, 'server-output', case)
                name = os.path.abspath(p.out.name)
                expect_eq(os.path.abspath(p.args[-1]), name, 'server-log',
                          case)
                if path:
                    expect_eq(name, path, 'server-log-given')
            else:
                expect(p.out is None and p.err is None, 'server-output', case)
        if good:
            expect(host.answering() is host.procs[0], 'answers', case)
            expect(host.now <= LATEST, 'waited', host.now)
        kills = host.calls.count('kill')
        expect_eq(kills, 0, 'killed-at-start', case)
        for again in (1, 2):
            session.shutdown_rpc_server()
            expect(session.rpc_server is None, 'still-owns', case)
            expect_eq(host.calls.count('kill'), int(good), 'kills',
                      (case, again))
        expect_eq(len(host.living()), 0, 'after-shutdown', case)
        expect_eq(host.foreign, foreign, 'foreign-killed', case)
        expect_eq(host.logs, 0, 'log-receiver-after', case)
        expect_eq(os.environ.get(VERB), verb, 'verbosity-after-stop', case)
    done(session)
    ctx.state(case)
    ctx.transition()
    ctx.trace()


DOCS = {'plain.nxt': {'/go': {'start_point': True, 'code': ['x = 1']},
                      '/bad': {'code': ['1/0']}},
        'needs.nxt': {'/go': {'start_point': True, 'code': ['x = 1']},
                      '/bad': {'code': ['1/0']},
                      '/_remote_sub_graph': {}},
        'sub.nxt': {'/go': {'start_point': True},
                    '/bad': {'code': ['1/0']}, '/_sub_graph': {}}}
FILES = {}


def setup_worker(ctx):
    for name, nodes in DOCS.items():
        with open(name, 'w') as fp:
            json.dump({'version': lib.VERSION, 'alias': name,
                       'nodes': nodes}, fp)
    with open('over.nxt', 'w') as fp:
        json.dump({'version': lib.VERSION, 'references': ['needs.nxt'],
                   'nodes': {}}, fp)


# (operation, what it needs a server for, how it ends)
RUN = {'plain': ('plain.nxt', '/go', 'ok'), 'plain bad': (
    'plain.nxt', '/bad', 'GraphError'),
    'needs': ('needs.nxt', '/go', 'ok'), 'needs bad': (
        'needs.nxt', '/bad', 'GraphError'),
    'sub': ('sub.nxt', '/go', 'ok'), 'under': ('over.nxt', '/go', 'ok'),
    'gone': ('gone.nxt', '/go', 'FileNotFoundError'),
    'no start': ('needs.nxt', '/none', 'ValueError'),
    'nodes': ('needs.nxt', ['/go'], 'ok'),
    'nodes bad': ('needs.nxt', ['/go', '/bad'], 'GraphError')}
OPS = [(s, o) for s in 'AB' for o in
       ['start', 'stop', 'context', 'context fails'] + sorted(RUN)]
FEW = [(s, o) for s in 'AB' for o in
       ['start', 'stop', 'context', 'context fails', 'plain', 'plain bad',
        'needs', 'needs bad']]


def sessions(case, ctx):
    standalone, foreign, ops = case
    host = Host(1, foreign)
    setenv('NXT_DCC', 'standalone' if standalone else None)
    setenv(VERB, None)
    ss = {'A': new_session(), 'B': new_session()}
    owner = None                # who owns the server the host runs
    with Patched(host):
        for who, op in ops:
            s = ss[who]
            if op == 'start' and owner == who:
                continue
            calls = len(host.calls)
            made = len(host.procs)
            end = 'ok'
            host.fault = 'failed' if op == 'context fails' else None
            try:
                if op == 'start':
                    s._start_rpc_server()
                elif op == 'stop':
                    s.shutdown_rpc_server()
                elif op.startswith('context'):
                    if owner == who:
                        # starts twice
                        continue
                    s.execute_graph('plain.nxt', '/go', None, 'python')
                else:
                    f, at, _ = RUN[op]
                    if owner == who and f != 'plain.nxt' and f != 'gone.nxt':
                        continue
                    if isinstance(at, list):
                        s.execute_nodes(f, at)
                    else:
                        s.execute_graph(f, at)
            except Exception as e:
                end = type(e).__name__
            did = host.calls[calls:]
            starts = stops = 0
            up = foreign == 'nxt' or owner is not None
            want = RUN[op][2] if op in RUN else 'ok'
            need = (op in ('start', 'context', 'context fails') or
                    op in RUN and RUN[op][0] not in ('plain.nxt',
                                                     'gone.nxt'))
            if need and standalone and not up:
                starts = 1
                owner = who
            if op.startswith('context'):
                if up or starts:
                    expect_eq(did.count('exec_in_headless'), 1, 'executions',
                              (case, op))
                    want = 'Fault' if host.fault else 'ok'
                else:
                    want = 'ConnectionRefusedError'
            else:
                expect_eq(did.count('exec_in_headless'), 0, 'executions',
                          (case, op))
            if op not in ('start', 'gone') and owner == who:
                stops = 1
                owner = None
            expect_eq(end, want, 'ends', (case, who, op))
            expect_eq(len(host.procs) - made, starts, 'started',
                      (case, who, op))
            expect_eq(did.count('kill'), stops, 'stopped', (case, who, op))
            expect_eq(len(host.living()), int(owner is not None), 'running',
                      (case, who, op))
            for n, x in ss.items():
                expect_eq(x.rpc_server is not None, owner == n, 'owner',
                          (case, who, op, n))
            expect_eq(os.environ.get(VERB), None, 'verbosity', (case, op))
            ctx.transition()
            ctx.state((standalone, foreign, owner, op))
        expect_eq(host.foreign, foreign, 'foreign-killed', case)
    for s in ss.values():
        done(s)
    ctx.trace()


def BOUNDS(tier):
    return {'seconds_until_it_answers': '0 to 7, never',
            'sessions': 2, 'operations': len(OPS),
            'depth': '%d of all, %d of the main ones' % (
                (2, 3) if tier == 'quick' else (3, 4))}


def parts(tier):
    def starts():
        return itertools.product((True, False), (None, 'nxt', 'other'),
                                 list(range(8)) + [None], (None, '0', '1'),
                                 (False, True), (None, 'made', 'given'))

    def histories():
        d, e = (2, 3) if tier == 'quick' else (3, 4)
        for standalone, foreign in ((True, None), (True, 'nxt'),
                                    (False, None), (False, 'nxt')):
            for n in range(1, d + 1):
                for ops in itertools.product(OPS, repeat=n):
                    yield standalone, foreign, ops
            for ops in itertools.product(FEW, repeat=e):
                yield standalone, foreign, ops
    return [('start', starts, start), ('sessions', histories, sessions)]
