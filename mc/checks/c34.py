"""C34 messages and log records cross a socket whole, whatever it does."""
import itertools
import json
import logging
import os
import pickle
import socket
import logging.handlers
import struct
from mc import lib
from mc.core import expect, expect_eq

LEVEL = 'fault_enumeration'
RULE = ('receiver: every cut of a stream of log records into one, two or '
        'three (four) pieces at every byte, and the connection ending or '
        'breaking at every byte.  Client: every history of <=3 (4) commands '
        'of the socket client, and in each every single socket call failing '
        'in every listed way (all pairs of calls for the short ones), '
        'against what the server gets and what the caller sees.  '
        'Non-trivial: distinct (history, fault) and (stream, cuts)')
ASSUME = ['the other end is a server of nxt: pickles are not hostile',
          'one thread']
CASE_TIMEOUT = 60


def BOUNDS(tier):
    return {'commands': 3 if tier == 'quick' else 4,
            'cuts': 2 if tier == 'quick' else 3, 'faults': list(FAULTS)}


# -- the receiver of log records -----------------------------------------

class Ended(Exception):
    pass


class Feed(object):
    """A connection that hands out pieces, then ends or breaks."""
    def __init__(self, pieces, end):
        self.pieces = [p for p in pieces if p]
        self.end = end
        self.after = 0

    def recv(self, n):
        if n <= 0:
            return b''
        if self.pieces:
            p = self.pieces.pop(0)
            if len(p) > n:
                self.pieces.insert(0, p[n:])
                p = p[:n]
            return p
        self.after += 1
        if self.after > 3:
            raise Ended('still reading after the connection ended')
        if self.end == 'reset':
            raise ConnectionResetError(104, 'reset')
        return b''


class FakeServer(object):
    logname = None


RECORDS = [
    ({'name': 'nxt', 'levelno': 20, 'levelname': 'INFO', 'msg': 'aa'}),
    ({'name': 'nxt.stage', 'levelno': 19, 'levelname': 'NODEOUT',
      'msg': 'é' * 3, 'links': ['/a']}),
    ({'name': 'nxt', 'levelno': 18, 'msg': ''}),
    ({'name': 'nxt', 'levelno': 40, 'levelname': 'ERROR', 'msg': 'x' * 300}),
]


def frame(rec):
    p = pickle.dumps(rec, 1)
    return struct.pack('>L', len(p)) + p


def receive(pieces, end, logname=None):
    from nxt import nxt_log
    got = []
    h = nxt_log.LogRecordStreamHandler.__new__(nxt_log.LogRecordStreamHandler)
    h.connection = Feed(pieces, end)
    h.server = FakeServer()
    h.server.logname = logname

    class Sink(logging.Handler):
        def emit(self, record):
            got.append((record.name, record.levelno,
                        record.levelname if 'None' not in record.levelname
                        else None, record.msg,
                        record.__dict__.get('links')))
    loggers = [logging.getLogger('nxt'), logging.getLogger('mc.other')]
    sink = Sink()
    for l in loggers:
        l.addHandler(sink)
    try:
        try:
            h.handle()
        except ConnectionResetError:
            expect_eq(end, 'reset', 'reset-from-nowhere')
    finally:
        for l in loggers:
            l.removeHandler(sink)
    return got


def expected(recs, logname=None):
    out = []
    for r in recs:
        name = r.get('levelname')
        out.append((r['name'], r['levelno'], name and 'remote.' + name,
                    r['msg'], r.get('links')))
    return out


def run_stream(case, ctx):
    which, cuts, end, logname = case
    recs = [RECORDS[i] for i in which]
    frames = [frame(r) for r in recs]
    data = b''.join(frames)
    edges = [0] + list(cuts) + [len(data)]
    pieces = [data[a:b] for a, b in zip(edges, edges[1:])]
    if end[0] != 'whole':
        pieces = []
        stop = end[1]
        for a, b in zip(edges, edges[1:]):
            pieces.append(data[a:min(b, stop)] if a < stop else b'')
        done, at = 0, 0
        for f in frames:
            at += len(f)
            done += at <= stop
        recs = recs[:done]
    got = receive(pieces, end[0], logname)
    expect_eq([list(g)[1:] for g in got],
              [list(g)[1:] for g in expected(recs)],
              'records-received', case)
    ctx.nontrivial(repr(case))


def stream_cases(tier):
    def cases():
        for which in ((0,), (0, 1), (2, 0), (1, 3)):
            n = sum(len(frame(RECORDS[i])) for i in which)
            for c in range(1, n):
                yield which, (c,), ('whole',), None
            for stop in range(n + 1):
                for end in ('closed', 'reset'):
                    yield which, (), (end, stop), None
                    yield which, (stop // 2,), (end, stop), None
        which = (2, 0)
        n = sum(len(frame(RECORDS[i])) for i in which)
        for cuts in itertools.combinations(range(1, n), 2):
            yield which, cuts, ('whole',), None
        for logname in ('mc.other',):
            for c in range(1, n):
                yield which, (c,), ('whole',), logname
        # byte by byte
        for which in ((0, 1), (2, 0, 2), (1, 3, 0)):
            n = sum(len(frame(RECORDS[i])) for i in which)
            yield which, tuple(range(1, n)), ('whole',), None
        heads = set()
        at = 0
        for i in (0, 1, 2):
            heads |= set(range(max(1, at - 2), at + 7))
            at += len(frame(RECORDS[i]))
        k = 3 if tier == 'quick' else 4
        for cuts in itertools.combinations(sorted(heads), k):
            yield (0, 1, 2), cuts, ('whole',), None
    return cases


# -- the receiver as a server --------------------------------------------

def run_server(case, ctx):
    """A real receiver, real records, real threads; started and stopped."""
    from nxt import nxt_log
    import threading
    rounds = case
    port = None
    old = logging.handlers.DEFAULT_TCP_LOGGING_PORT
    init = nxt_log.LogRecordSocketReceiver.__init__
    got = []

    def on_free_port(self, host='localhost', port=0,
                     handler=nxt_log.LogRecordStreamHandler):
        init(self, host, fixed[0], handler)
        fixed[0] = self.server_address[1]

    class Collect(nxt_log.LogRecordStreamHandler):
        def handle_log_record(self, record):
            got.append(record.getMessage())
            arrived.release()

    arrived = threading.Semaphore(0)
    fixed = [0]
    nxt_log.LogRecordSocketReceiver.__init__ = on_free_port
    before = set(threading.enumerate())
    try:
        sent = []
        for i, n in enumerate(rounds):
            nxt_log.startup_log_socket(Collect)
            h = logging.handlers.SocketHandler('localhost', fixed[0])
            for k in range(n):
                rec = logging.LogRecord('nxt', 20, 'f', 1, '%d %d' % (i, k),
                                        (), None)
                sent.append(rec.getMessage())
                h.emit(rec)
            for k in range(n):
                expect(arrived.acquire(timeout=30), 'record-lost', case)
            h.close()
            nxt_log.shutdown_log_socket()
            for t in set(threading.enumerate()) - before:
                t.join(30)
                expect(not t.is_alive(), 'receiver-still-running', case)
        expect_eq(got, sent, 'server-records', case)
    finally:
        nxt_log.LogRecordSocketReceiver.__init__ = init
        nxt_log.shutdown_log_socket()
    ctx.nontrivial(repr(case))


def server_cases():
    for case in ((1,), (3,), (1, 1), (0, 2), (2, 0, 1)):
        yield case


# -- the client of a dcc --------------------------------------------------

FAULTS = ['errno 10053', 'errno 32', 'no errno', 'timeout', 'empty']


class Sock(object):
    """Records what is sent; the n-th call fails."""
    def __init__(self, plan):
        self.plan = plan
        self.calls = 0
        self.sent = b''
        self.kinds = []
        self.closed = False

    def hit(self, kind):
        n = self.calls
        self.calls += 1
        self.kinds.append(kind)
        if self.calls > 3000:
            raise Ended('endless')
        fault = self.plan.get(n)
        if fault is None or fault == 'empty':
            return fault
        if fault == 'timeout':
            raise socket.timeout('timed out')
        if fault == 'no errno':
            raise ValueError('no errno')
        raise OSError(int(fault.split()[1]), fault)

    def sendall(self, data):
        assert isinstance(data, bytes)
        self.hit('send')
        self.sent += data

    def recv(self, n):
        if self.hit('recv'):
            return b''
        return b'ok'

    def settimeout(self, t):
        pass

    def setblocking(self, t):
        pass

    def connect(self, where):
        self.hit('connect')

    def close(self):
        self.closed = True


def messages(data):
    out = []
    while data:
        head, data = data[:10], data[10:]
        expect(len(head) == 10 and head.strip().isdigit(), 'header', head)
        n = int(head)
        expect(len(data) >= n, 'message-cut', head)
        out.append(pickle.loads(data[:n]))
        data = data[n:]
    return out


class FakeSocketModule(object):
    def __init__(self, make):
        self.make = make

    def socket(self, *a):
        return self.make()

    def __getattr__(self, name):
        return getattr(socket, name)


NODES = {'/': {'attrs': {'ww': {'value': 'w'}}},
         '/good': {'attrs': {'xx': {'type': 'int', 'value': '1'}},
                   'code': ['self.yy = self.xx + 1', 'print("out")']},
         '/bad': {'code': ['1 / 0']}}
COMMANDS = ['load', 'run good', 'run bad', 'refresh', 'ping', 'cache', 'log',
            'close', 'open', 'notify', 'load none', 'params']


def setup_worker(ctx):
    ctx.dir = os.path.realpath(os.getcwd())
    with open('g.nxt', 'w') as fp:
        json.dump({'version': lib.VERSION, 'alias': 'g', 'nodes': NODES}, fp)
    with open('p.json', 'w') as fp:
        json.dump({'/good.xx': '5'}, fp)


def drive(history, plan, ctx):
    """What the server got, and how each command ended."""
    from nxt.remote import nxt_socket as ns
    logger = logging.getLogger('nxt')
    handlers = list(logger.handlers)
    level = logger.level
    socks = []

    def make():
        s = Sock(plan if not socks else {})
        if socks:
            s.calls = 10 ** 6
            s.hit = lambda kind: None
        socks.append(s)
        return s
    ns.socket, old = FakeSocketModule(make), ns.socket
    ends = []
    logger.setLevel(logging.INFO)
    ns.__nxt_server__ = None
    ns.__nxt_model__ = None
    try:
        model = ns.get_nxt_model()
        expect(ns.get_nxt_model() is model, 'one-model')
        model.cache_filepath = os.path.join(ctx.dir, 'cache.nxt')
        for c in ('open',) + tuple(history):
            mark = [len(s.sent) for s in socks]
            try:
                value = None
                if c == 'load':
                    model.load(os.path.join(ctx.dir, 'g.nxt'))
                elif c == 'load none':
                    model.load(os.path.join(ctx.dir, 'none.nxt'))
                elif c.startswith('run'):
                    model.run(['/' + c.split()[1]])
                elif c == 'params':
                    model.param_filepath = os.path.join(ctx.dir, 'p.json')
                elif c == 'cache':
                    value = model.get_cache()
                elif c == 'log':
                    logger.warning('said %s %d', 'é', 5, links=['/good'])
                elif c == 'notify':
                    model.close(notify_server=True)
                else:
                    getattr(model, c)()
                end = 'ok'
            except Ended:
                raise
            except RecursionError:
                raise
            except Exception as e:
                end = type(e).__name__
            news = b''
            for i, s in enumerate(socks):
                news += s.sent[mark[i] if i < len(mark) else 0:]
            ends.append((c, end, messages(news), value))
        return ends, socks
    finally:
        ns.socket = old
        ns.__nxt_server__ = None
        ns.__nxt_model__ = None
        for h in list(logger.handlers):
            if h not in handlers:
                logger.removeHandler(h)
        logger.setLevel(level)


def plain(msgs):
    """Messages without log records."""
    return [m for m in msgs if 'log' not in m]


IN_WAIT = {'load', 'run good', 'run bad', 'refresh', 'ping', 'cache',
           'load none'}


def check_history(history, ctx):
    ends, socks = drive(history, {}, ctx)
    opened = True
    loaded = False
    last_path = None
    ran = {}
    param = False
    for (c, end, msgs, value) in ends[1:]:
        was_open = opened
        p = plain(msgs)
        logs = [m['log'] for m in msgs if 'log' in m]
        waits = [m['wait'] for m in p if 'wait' in m]
        other = [m for m in p if 'wait' not in m]
        if c in ('close', 'notify'):
            opened = False
        if c == 'open':
            opened = True
        if not was_open and c != 'open':
            expect_eq(msgs, [], 'sent-while-closed', (history, c))
        if c in IN_WAIT and was_open:
            depth = 0
            for i, m in enumerate(p):
                if 'wait' in m:
                    depth += 1 if m['wait'] else -1
                expect(depth > 0 or i == len(p) - 1, 'wait-bracket',
                       (history, c, p))
            expect_eq(depth, 0, 'wait-balance', (history, c, p))
            expect(waits, 'no-wait', (history, c))
        want_end, want = 'ok', []
        if c == 'load':
            loaded, last_path, ran = True, 'g', {}
        elif c == 'load none':
            want_end, last_path = ('FileNotFoundError', 'OSError',
                                   'IOError'), 'none'
        elif c == 'refresh':
            if last_path == 'none':
                want_end = ('FileNotFoundError', 'OSError', 'IOError')
            elif last_path:
                ran = {}
        elif c == 'run good' and loaded:
            ran['/good'] = 6 if param else 2
        elif c == 'run bad' and loaded:
            ran['/bad'] = None
            want = [{'error': None}]
        elif c == 'ping':
            want = [{'ping': ''}]
        elif c == 'notify':
            want = [{'shutdown': None}]
        elif c == 'params':
            param = True
        elif c == 'log' and was_open:
            expect_eq(logs, [[30, 'said é 5', ['/good']]], 'log-message',
                      (history, c))
        if c == 'cache':
            if not loaded:
                want_end = 'AttributeError'
            else:
                nodes = value['nodes']
                got = {k: n.get('attrs', {}).get('yy', {}).get('value')
                       for k, n in nodes.items() if k != '/'}
                want = dict(ran)
                expect_eq(got, want, 'cache-nodes', history)
                want = [{'cache': value}]
        expect(end == want_end or end in want_end and
               not isinstance(want_end, str), 'command-end',
               (history, c, end, want_end))
        expect_eq(other, want if was_open else [], 'messages', (history, c))
    return ends, socks


def run_client(case, ctx):
    history, depth = case
    ends, socks = check_history(history, ctx)
    n = socks[0].calls
    kinds = list(socks[0].kinds)
    base = [(c, e) for c, e, m, v in ends]
    plans = [{}]
    for i in range(1, n):
        for f in FAULTS:
            if f == 'empty' and kinds[i] != 'recv':
                continue
            plans.append({i: f})
            if len(history) <= depth:
                for j in range(i + 1, n + 2):
                    plans.append({i: f, j: 'errno 32'})
    for plan in plans[1:]:
        got, gsocks = drive(history, plan, ctx)
        # Nothing the socket does changes how a command ends
        expect_eq([(c, e) for c, e, m, v in got], base, 'fault-reached-user',
                  (history, plan))
        # As long as the server is there every wait is ended
        calls = [k for k in gsocks[0].kinds]
        ctx.count('faults')
        ctx.nontrivial(repr((history, sorted(plan.items()))))
        full = messages(b''.join(s.sent for s in gsocks))
        if not any(f == 'errno 10053' for f in plan.values()) and all(
                calls[k] == 'recv' for k in plan if k < len(calls)):
            bal = sum((1 if m['wait'] else -1) for m in full if 'wait' in m)
            expect(bal <= 0, 'server-kept-waiting', (history, plan, bal))
        for s in gsocks:
            messages(s.sent)
    ctx.nontrivial(repr(history))


def client_cases(tier):
    def cases():
        top = 2 if tier == 'quick' else 3
        for n in range(1, top + 1):
            for h in itertools.product(COMMANDS, repeat=n):
                yield h, 1 if tier == 'quick' else 2
        for tail in itertools.product(COMMANDS, repeat=top - 1):
            for mid in ('run good', 'run bad', 'close', 'notify', 'params'):
                yield ('load', mid) + tail, 0
        for mid in itertools.product(COMMANDS, repeat=2 if tier == 'quick'
                                     else 3):
            yield ('load',) + mid + ('cache',), 0
    return cases


# -- message sizes --------------------------------------------------------

def run_size(case, ctx):
    from nxt.remote import nxt_socket as ns
    kind, n = case
    s = Sock({})
    ns.__nxt_server__ = s
    try:
        if kind == 'pad':
            msg = 'x' * n
        elif kind == 'bytes':
            msg = bytes(bytearray(range(256))) * n
        else:
            msg = {'é' * n: list(range(n)), None: (1.5, {'k': [n]})}
        d = ns.format_msg(msg, ns.COM_TYPE.PING)
        ns.format_msg(n, ns.COM_TYPE.WAIT, d)
        ns.send_to_server(d)
        ns.send_to_server(ns.format_msg(None, ns.COM_TYPE.ERR))
    finally:
        ns.__nxt_server__ = None
    expect_eq(messages(s.sent), [{'ping': msg, 'wait': n}, {'error': None}],
              'framing', case)
    ctx.nontrivial(repr(case))


def size_cases():
    for n in list(range(0, 300)) + [9990, 9999, 10000, 10 ** 5, 10 ** 6]:
        yield 'pad', n
    for n in (0, 1, 4, 40):
        yield 'bytes', n
        yield 'nested', n


def parts(tier):
    return [('stream', stream_cases(tier), run_stream),
            ('server', server_cases, run_server),
            ('sizes', size_cases, run_size),
            ('client', client_cases(tier), run_client)]
