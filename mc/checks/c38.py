"""C38 logs say what happened, once, where asked, and remove only old logs."""
import io
import itertools
import logging
import os
import sys
from mc.core import expect, expect_eq

LEVEL = 'model_checking'
RULE = ('every history of verbosity switches from every initial environment; '
        'every history of sessions (of the same or a later second, with a '
        'generated or a given log file), stops and messages; every set of '
        'tracked logs (missing, fresh, at the age limit, old, linked, a '
        'folder, not removable) with every state of the list of logs, '
        'tracked twice in a row.  State: what is shown, which log gets '
        'messages, which files exist and are tracked')
CASE_TIMEOUT = 60
LEVELS = [('debug', 10), ('socket', 16), ('compinfo', 17), ('execinfo', 18),
          ('nodeout', 19), ('info', 20), ('warning', 30), ('grapherror', 39),
          ('error', 40), ('critical', 50)]


def BOUNDS(tier):
    return {'switches': 3 if tier == 'quick' else 5,
            'session_steps': 5 if tier == 'quick' else 6,
            'tracked': 3 if tier == 'quick' else 4}


def root():
    return logging.getLogger('nxt')


class Clean(object):
    """The handlers and the verbosity of nxt as they were."""
    def __enter__(self):
        from nxt import nxt_log
        self.handlers = list(root().handlers)
        self.verbose = nxt_log.verbose_handler
        self.logs = dict(nxt_log.SESSION_LOG_HANDLERS)
        self.stderr = sys.stderr
        self.time = nxt_log.time
        self.env = os.environ.get('NXT_VERBOSE')
        for h in self.handlers:
            root().removeHandler(h)
        root().addHandler(logging.NullHandler())
        nxt_log.verbose_handler = None
        nxt_log.SESSION_LOG_HANDLERS.clear()
        return nxt_log

    def __exit__(self, *a):
        from nxt import nxt_log
        sys.stderr = self.stderr
        nxt_log.time = self.time
        nxt_log.verbose_handler = self.verbose
        for h in list(root().handlers):
            root().removeHandler(h)
            if isinstance(h, logging.FileHandler):
                h.close()
        for h in self.handlers:
            root().addHandler(h)
        for h in nxt_log.SESSION_LOG_HANDLERS.values():
            h.close()
        nxt_log.SESSION_LOG_HANDLERS.clear()
        nxt_log.SESSION_LOG_HANDLERS.update(self.logs)
        os.environ.pop('NXT_VERBOSE', None)
        if self.env is not None:
            os.environ['NXT_VERBOSE'] = self.env


# -- verbosity ------------------------------------------------------------

def run_verbosity(case, ctx):
    env, history = case
    with Clean() as nxt_log:
        sys.stderr = out = io.StringIO()
        os.environ.pop('NXT_VERBOSE', None)
        if env is not None:
            os.environ['NXT_VERBOSE'] = env
        cls = logging.getLoggerClass()
        logging.setLoggerClass(logging.Logger)
        try:
            nxt_log.initial_setup()
        finally:
            logging.setLoggerClass(cls)
        level = int(env or 0)
        for i, step in enumerate((None,) + tuple(history)):
            if step is not None:
                nxt_log.set_verbosity(step)
                level = int(step)
                ctx.transition()
            out.seek(0)
            out.truncate()
            want = ''
            for name, n in LEVELS:
                for lname in ('nxt', 'nxt.stage'):
                    log = logging.getLogger(lname)
                    text = '%s %s %d' % (lname, name, i)
                    method = getattr(log, name, None)
                    if method is None:
                        # A logger made before nxt was set up
                        continue
                    method(text)
                    if level > 1 or level == 1 and n >= 18:
                        want += '%s: %s\n' % (logging.getLevelName(n), text)
            expect_eq(out.getvalue(), want, 'verbosity', (case, i))
            ctx.state((level, len(root().handlers)))
    ctx.trace()


def verbosity_cases(tier):
    def cases():
        for n in range(0, 4 if tier == 'quick' else 6):
            for h in itertools.product((0, 1, 2, '1', 3), repeat=n):
                for env in (None, '0', '1', '2'):
                    yield env, h
    return cases


# -- session logs ---------------------------------------------------------

class Clock(object):
    def __init__(self):
        import time
        self.now = 1000.0
        self.real = time

    def time(self):
        return self.now

    def __getattr__(self, name):
        return getattr(self.real, name)


def setup_worker(ctx):
    import tempfile
    ctx.dir = os.path.realpath(os.getcwd())
    ctx.tmp = os.path.join(ctx.dir, 'tmp')
    os.makedirs(ctx.tmp)
    os.environ['TMPDIR'] = tempfile.tempdir = ctx.tmp
    from nxt import nxt_log
    ctx.user = os.path.join(ctx.dir, 'user')
    os.makedirs(ctx.user)
    nxt_log.USER_DIR = ctx.user


def wipe(path):
    for d, dirs, files in os.walk(path, topdown=False):
        for f in files:
            os.remove(os.path.join(d, f))
        for f in dirs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                os.remove(p)
            else:
                os.rmdir(p)


def tracked(ctx):
    try:
        with open(os.path.join(ctx.user, '.nxt_meta_log')) as fp:
            return fp.read().split('\n')[:-1]
    except IOError:
        return None


def run_sessions(case, ctx):
    wipe(ctx.tmp)
    wipe(ctx.user)
    logs, live, said, count = [], [], {}, 0
    with Clean() as nxt_log:
        clock = nxt_log.time = Clock()
        for step in case:
            ctx.transition()
            if step == 'tick':
                clock.now += 1
            elif step in ('session', 'named'):
                if step == 'named':
                    name = os.path.join(ctx.tmp, 'n%d.log' % len(logs))
                    got = nxt_log.make_session_log(name)
                    expect_eq(got, name, 'log-name', case)
                else:
                    name = nxt_log.make_session_log()
                expect(name not in logs, 'log-shared', (case, name))
                expect(os.path.isfile(name), 'log-missing', case)
                expect(name in tracked(ctx), 'log-not-tracked', case)
                logs.append(name)
                live.append(name)
                said[name] = []
            elif step == 'say':
                count += 1
                text = 'message number %d' % count
                root().nodeout(text)
                for l in live:
                    said[l].append('NODEOUT: ' + text)
            else:
                i = int(step[-1])
                if i < len(logs):
                    nxt_log.stop_session_log(logs[i])
                    if logs[i] in live:
                        live.remove(logs[i])
                else:
                    nxt_log.stop_session_log('/none')
            for l in logs:
                with open(l) as fp:
                    lines = [x for x in fp.read().split('\n')
                             if 'message number' in x]
                expect_eq(lines, said[l], 'log-content', (case, step))
            ctx.state((tuple(l in live for l in logs),
                       tuple(len(said[l]) for l in logs), clock.now))
    ctx.trace()


def session_cases(tier):
    def cases():
        steps = ('session', 'named', 'say', 'stop0', 'stop1', 'tick')
        for n in range(1, 6 if tier == 'quick' else 7):
            for h in itertools.product(steps, repeat=n):
                if n < 3 or 'say' in h:
                    yield h
    return cases


# -- tracked logs ---------------------------------------------------------

AGE = 48 * 3600
KINDS = ['missing', 'fresh', 'limit', 'old', 'very old', 'link', 'dir old',
         'locked', 'spaced', 'dangling']


def run_track(case, ctx):
    kinds, meta, new, rounds = case
    wipe(ctx.tmp)
    wipe(ctx.user)
    now = 10 ** 9
    paths, targets = [], {}
    bystander = os.path.join(ctx.tmp, 'spaced')
    for p in (bystander, os.path.join(ctx.tmp, 'target')):
        with open(p, 'w') as fp:
            fp.write('mine')
        os.utime(p, (now - 10 * AGE,) * 2)
    old = set()
    for i, k in enumerate(kinds):
        p = os.path.join(ctx.tmp, 'log%d.log' % i)
        if k == 'spaced':
            p = bystander + ' '
        paths.append(p)
        if k == 'missing':
            continue
        age = {'fresh': 60, 'limit': AGE, 'old': AGE + 1,
               'very old': 100 * AGE, 'spaced': 60,
               'locked': 2 * AGE}.get(k)
        if k == 'dir old':
            if not os.path.isdir(p):
                os.mkdir(p)
            with open(os.path.join(p, 'x'), 'w') as fp:
                fp.write('x')
            os.utime(p, (now - 2 * AGE,) * 2)
            continue
        if k in ('link', 'dangling'):
            os.symlink(os.path.join(ctx.tmp, 'target' if k == 'link' else
                                    'nowhere'), p)
            continue
        with open(p, 'w') as fp:
            fp.write('x')
        os.utime(p, (now - age,) * 2)
    listing = os.path.join(ctx.user, '.nxt_meta_log')
    if meta != 'none':
        with open(listing, 'wb') as fp:
            for p in paths:
                fp.write(p.encode() + b'\n')
            if meta == 'cut' and paths:
                fp.seek(-4, 2)
                fp.truncate()
            if meta == 'garbage':
                fp.write(b'\xff\xfe\n')
    elif meta == 'none':
        paths = []
        kinds = ()
    if meta == 'folder':
        os.remove(listing)
        os.mkdir(listing)
    before = snapshot(ctx.tmp)
    removed, denied = [], set(p for p, k in zip(paths, kinds)
                              if k == 'locked')
    remove = os.remove

    def fake_remove(path, *a, **kw):
        removed.append(path)
        if path in denied:
            raise PermissionError(13, 'denied', path)
        return remove(path, *a, **kw)
    name = {'new': os.path.join(ctx.tmp, 'new.log'),
            'again': paths[0] if paths else os.path.join(ctx.tmp, 'n.log'),
            'unicode': os.path.join(ctx.tmp, 'new é.log')}[new]
    usable = meta in ('ok', 'cut')
    with Clean() as nxt_log:
        clock = nxt_log.time = Clock()
        clock.now = float(now)
        nxt_log.os.remove = fake_remove
        try:
            for r in range(rounds):
                nxt_log.track_log_file(name)
                ctx.transition()
        finally:
            nxt_log.os.remove = remove
    after = snapshot(ctx.tmp)
    # What may be gone: tracked files older than two days
    may = set(p for p, k in zip(paths, kinds)
              if k in ('old', 'very old', 'link', 'locked'))
    gone = set(before) - set(after)
    must = set(p for p, k in zip(paths, kinds) if k in ('old', 'very old'))
    if meta == 'cut':
        must.discard(paths[-1] if paths else None)
        if name not in paths:
            may.discard(paths[-1] if paths else None)
    expect(gone <= may, 'removed-too-much', (case, sorted(gone - may)))
    if usable:
        expect(must <= gone, 'old-log-kept', (case, sorted(must - gone)))
    for p in after:
        expect_eq(after[p], before.get(p), 'file-changed', (case, p))
    if meta == 'folder':
        expect(os.path.isdir(listing), 'listing-removed', case)
        ctx.trace()
        return
    got = tracked(ctx)
    expect(name in got, 'not-tracked', (case, got))
    if usable:
        keep = [p for p, k in zip(paths, kinds)
                if k in ('fresh', 'limit', 'spaced', 'locked')]
        if meta == 'cut' and paths and paths[-1] in keep:
            keep.remove(paths[-1])
        for p in keep:
            expect(p in got, 'lost-track', (case, p))
        for p in got:
            expect(p in paths or p == name or meta == 'cut', 'made-up',
                   (case, p))
        if rounds > 1:
            for p, k in zip(paths, kinds):
                if k in ('missing', 'old', 'very old', 'dir old') and \
                        p != name:
                    expect(p not in got, 'stale-tracked', (case, p))
    ctx.state(case)
    ctx.trace()


def snapshot(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for f in files + dirs:
            p = os.path.join(base, f)
            if os.path.islink(p):
                out[p] = os.readlink(p)
            elif os.path.isfile(p):
                with open(p) as fp:
                    out[p] = fp.read()
            else:
                out[p] = 'dir'
    return out


def track_cases(tier):
    def cases():
        for n in range(0, 4 if tier == 'quick' else 5):
            for kinds in itertools.product(KINDS, repeat=n):
                if kinds.count('spaced') > 1:
                    continue
                metas = ('ok', 'none', 'cut', 'garbage', 'folder')
                for meta in metas if n < 3 else ('ok',):
                    for new in ('new', 'again', 'unicode') if n < 3 else (
                            'new',):
                        for rounds in (1, 2):
                            yield kinds, meta, new, rounds
    return cases


def parts(tier):
    return [('verbosity', verbosity_cases(tier), run_verbosity),
            ('sessions', session_cases(tier), run_sessions),
            ('tracked', track_cases(tier), run_track)]
