"""C44 nxt processes that start at the same time all start."""
import builtins
import os
import shutil
import tempfile
import time
import types
import greenlet
from mc.core import expect, expect_eq

LEVEL = 'model_checking'
RULE = ('two (three) starts of nxt run against the same user and temp folders '
        'under a controlled scheduler that can switch before every file '
        'system call: the real start up code (the user folders of '
        'constants.py, a session log), from every initial state of the '
        'folders, all schedules up to the preemption bound, depth first.  '
        'State: (initial folders, schedule)')
ASSUME = ['processes meet only in the file system; a file system call is '
          'atomic']
CALLS = ['mkdir', 'stat', 'open', 'chmod', 'remove', 'unlink', 'rename',
         'replace', 'rmdir', 'listdir', 'scandir', 'lstat', 'access']
NOW = 1700000000.25


def BOUNDS(tier):
    q = tier == 'quick'
    return {'processes': '2 and 3', 'preemptions': '%d and %d' % (
        (2, 1) if q else (3, 2)), 'initial_states': sorted(INITIAL)}


# folders that are there already, under the root
INITIAL = {'nothing': [], 'user': ['user'], 'config': ['user/config'],
           'version': ['user/config/V'], 'all': ['user/config/V/plugins'],
           'logs': ['tmp/nxt_logs'],
           'all and logs': ['user/config/V/plugins', 'tmp/nxt_logs'],
           'log of this second': ['tmp/nxt_logs/F']}


class Scheduler(object):
    """Runs greenlets; switch() hands control back before a call."""
    def __init__(self, n, choices):
        self.choices = choices
        self.trail = []         # (running, enabled) at every decision
        self.out = [None] * n
        self.main = greenlet.getcurrent()
        self.procs = []

    def at_call(self):
        g = greenlet.getcurrent()
        if g is not self.main and g in self.procs:
            self.main.switch()

    def run(self, fns):
        self.procs = [greenlet.greenlet(self._body(i, f))
                      for i, f in enumerate(fns)]
        live = list(range(len(fns)))
        cur = 0
        step = 0
        while live:
            if step < len(self.choices):
                pick = self.choices[step]
            else:
                pick = cur if cur in live else live[0]
            self.trail.append((cur if cur in live else None, tuple(live),
                               pick))
            step += 1
            cur = pick
            self.procs[pick].switch()
            if self.procs[pick].dead:
                live.remove(pick)

    def _body(self, i, fn):
        def body():
            try:
                self.out[i] = ('ok', fn())
            except Exception as e:
                self.out[i] = ('failed', e)
        return body


class Calls(object):
    def __init__(self, sched):
        self.sched = sched

    def __enter__(self):
        self.saved = [(os, n, getattr(os, n)) for n in CALLS
                      if hasattr(os, n)]
        self.saved.append((builtins, 'open', builtins.open))
        for mod, name, fn in self.saved:
            setattr(mod, name, self.wrap(fn))
        self.saved.append((time, 'time', time.time))
        time.time = lambda: NOW

    def wrap(self, fn):
        at_call = self.sched.at_call

        def call(*a, **k):
            at_call()
            return fn(*a, **k)
        return call

    def __exit__(self, *_a):
        for mod, name, fn in self.saved:
            setattr(mod, name, fn)


SOURCE = {}


def nxt_start(root):
    """What a process does when it imports nxt and makes a session."""
    from nxt import constants, nxt_log
    path = constants.__file__
    if path not in SOURCE:
        with open(path) as fp:
            SOURCE[path] = compile(fp.read(), path, 'exec')
    mod = types.ModuleType('nxt.constants')
    mod.__file__ = path
    mod.__package__ = 'nxt'
    exec(SOURCE[path], mod.__dict__)
    dirs = [mod.USER_CONFIG_DIR, mod.USER_PLUGIN_DIR]
    return dirs, nxt_log.make_session_log()


def once(initial, n, choices, ctx):
    from nxt import constants, nxt_log
    root = os.path.realpath('w')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, 'tmp'))
    for d in INITIAL[initial]:
        d = d.replace('V', constants.CONFIG_VERSION)
        if d.endswith('/F'):
            os.makedirs(os.path.join(root, d[:-2]))
            with open(os.path.join(root, d[:-1] + 'nxt_session_%d.log' %
                                   int(NOW)), 'w') as fp:
                fp.write('earlier\n')
        else:
            os.makedirs(os.path.join(root, d))
    old = (os.environ.get('NXT_USER_DIR'), tempfile.tempdir,
           nxt_log.USER_DIR)
    os.environ['NXT_USER_DIR'] = os.path.join(root, 'user')
    tempfile.tempdir = os.path.join(root, 'tmp')
    nxt_log.USER_DIR = os.path.join(root, 'user')
    sched = Scheduler(n, choices)
    nxt_start_warm()
    try:
        with Calls(sched):
            sched.run([lambda: nxt_start(root)] * n)
    finally:
        os.environ['NXT_USER_DIR'] = old[0]
        tempfile.tempdir, nxt_log.USER_DIR = old[1:]
        logs = [o[1][1] for o in sched.out if o and o[0] == 'ok']
        for f in logs:
            nxt_log.stop_session_log(f)
    where = (initial, tuple(t[2] for t in sched.trail))
    for o in sched.out:
        expect(o[0] == 'ok', 'start-failed', lambda: (where, repr(o[1])))
        for d in o[1][0]:
            expect(os.path.isdir(d), 'no-folder', (where, d))
        expect(os.path.isfile(o[1][1]), 'no-log', (where, o[1][1]))
    expect_eq(len(set(os.path.realpath(f) for f in logs)), n, 'shared-log',
              where)
    if 'log of' in initial:
        p = os.path.join(root, 'tmp/nxt_logs/nxt_session_%d.log' % int(NOW))
        with open(p) as fp:
            expect_eq(fp.read(), 'earlier\n', 'wrote-to-other-log', where)
    ctx.transition(len(sched.trail))
    return sched.trail


def nxt_start_warm():
    """Everything lazy is imported before the calls are watched."""
    from nxt import constants
    if constants.__file__ not in SOURCE:
        with open(constants.__file__) as fp:
            SOURCE[constants.__file__] = compile(
                fp.read(), constants.__file__, 'exec')


def explore(case, ctx):
    """All schedules with the given first choices."""
    initial, n, bound, first = case
    stack = [list(first)]
    while stack:
        prefix = stack.pop()
        trail = once(initial, n, prefix, ctx)
        if trail[:len(prefix)] and len(trail) < len(prefix):
            continue
        ctx.state((initial, n, tuple(t[2] for t in trail)))
        ctx.trace()
        spent = 0
        for i, (cur, live, pick) in enumerate(trail):
            if i >= len(prefix) and i >= len(first):
                for alt in live:
                    if alt == pick:
                        continue
                    cost = spent + (cur is not None and alt != cur)
                    if cost <= bound:
                        stack.append([t[2] for t in trail[:i]] + [alt])
            spent += cur is not None and pick != cur


def parts(tier):
    q = tier == 'quick'

    def cases():
        for initial in sorted(INITIAL):
            for n, bound in ((2, 2 if q else 3), (3, 1 if q else 2)):
                # the first switch splits the work
                for k in range(1, 120):
                    yield initial, n, bound, k
    return [('starts', cases, split)]


def split(case, ctx):
    """The schedules whose first switch comes after k calls."""
    initial, n, bound, k = case
    trail = once(initial, n, [], ctx)
    free = [i for i, t in enumerate(trail) if len(t[1]) > 1]
    if k - 1 >= len(free):
        return
    i = free[k - 1]
    if k == 1:
        ctx.state((initial, n, 'straight'))
        ctx.trace()
    cur, live, pick = trail[i]
    for alt in live:
        if alt != pick and bound >= 1:
            explore((initial, n, bound, [t[2] for t in trail[:i]] + [alt]),
                    ctx)
