"""Bounded exhaustive exploration core.

A check module defines

    LEVEL   evidence level (model_checking / exploration / fault_enumeration)
    RULE    one line: how cases are made and what makes one non-trivial
    ASSUME  list of assumptions (optional)
    BOUNDS  fn(tier) -> dict describing the bounds of this run
    parts(tier) -> list of (part_name, case_iterable_factory, case_fn)

`case_iterable_factory()` enumerates *every* case of that part, in a fixed
order; `case_fn(case, ctx)` drives the real code for one case, compares with
the oracle and raises `Violation` when they disagree.  Cases are dealt out to
forked workers by index, so every case of the space is executed exactly once.
Nothing is sampled; VERIF_SEED only selects which cases are written out as
samples.
"""
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback


class Violation(Exception):
    """The real code disagrees with the property."""
    def __init__(self, sig, detail):
        super(Violation, self).__init__('%s: %s' % (sig, detail))
        self.sig = sig
        self.detail = detail


class CaseTimeout(BaseException):
    pass


def _alarm(*_a):
    raise CaseTimeout()


def expect(cond, sig, detail=''):
    if not cond:
        if callable(detail):
            detail = detail()
        raise Violation(sig, detail)


def expect_eq(got, want, sig, detail=''):
    if got != want:
        raise Violation(sig, 'got %r, want %r %s' % (got, want, detail))


def h64(obj):
    """Stable 64 bit hash of a python value (via its repr)."""
    return int.from_bytes(hashlib.blake2b(repr(obj).encode('utf-8', 'replace'),
                                          digest_size=8).digest(), 'big')


class Ctx(object):
    def __init__(self, tier, seed, scratch, known):
        self.tier = tier
        self.seed = seed
        self.scratch = scratch
        self.known = known
        self.counts = {}
        self.sets = {'distinct': set()}
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.incomplete = False
        self._part = None

    # -- counting ---------------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, name, key):
        """Add key to the distinct set `name`; True when it is new."""
        s = self.sets.setdefault(name, set())
        k = key if isinstance(key, int) else h64(key)
        if k in s:
            return False
        s.add(k)
        return True

    def state(self, key):
        return self.seen('states', key)

    def transition(self, n=1):
        self.count('transitions', n)

    def trace(self, n=1):
        """One model trace compared step by step with the implementation."""
        self.count('traces_validated_against_impl', n)

    def nontrivial(self, key):
        return self.seen('distinct', key)

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    # -- running ----------------------------------------------------------
    def run_case(self, part, case, fn, timeout):
        self.count('evaluations')
        self.count('cases_' + part)
        self._part = part
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            try:
                fn(case, self)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Violation as v:
            self._report(part, case, v.sig, str(v.detail))
        except CaseTimeout:
            self._report(part, case, 'TIMEOUT',
                         'did not finish within %s s' % timeout)
        except (Exception, SystemExit) as e:
            tb = traceback.format_exc()
            self._report(part, case, 'EXC:%s' % type(e).__name__, tb[-3500:])

    def _report(self, part, case, sig, detail):
        if sig in self.known:
            hit = self.known_hits.setdefault(sig, [0, None])
            hit[0] += 1
            if hit[1] is None:
                hit[1] = repr(case)[:400]
            return
        self.violations.append({'part': part, 'sig': sig, 'detail': detail,
                                'case': case})


def load_known(home, prop):
    """known_findings.txt: `known: property=<id> sig=<signature> <text>`.
    `fixed:` lines suppress nothing."""
    out = {}
    path = os.path.join(home, 'known_findings.txt')
    if not os.path.exists(path):
        return out
    with open(path) as fp:
        for line in fp:
            line = line.strip()
            if not line.startswith('known:'):
                continue
            f = line.split(None, 3)
            if f[1] != 'property=' + prop:
                continue
            out[f[2][len('sig='):]] = f[3] if len(f) > 3 else ''
    return out


MAX_VIOL = 4


def _worker(parts, wid, n, ctx, deadline, timeout):
    signal.signal(signal.SIGALRM, _alarm)
    for name, factory, fn in parts:
        idx = -1
        for case in factory():
            idx += 1
            if idx % n != wid:
                continue
            if time.time() > deadline:
                ctx.incomplete = True
                break
            if idx in (0, (ctx.seed * 7919) % 5003):
                ctx.sample({'part': name, 'case': jsonable(case)})
            ctx.run_case(name, case, fn, timeout)
            if len(ctx.violations) >= MAX_VIOL:
                ctx.incomplete = True
                return


def jsonable(o, depth=0):
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in o]
    return repr(o)


def run(prop, mod, replay=None):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    home = os.environ['VERIF_HOME']
    scratch = os.environ['VERIF_SCRATCH']
    jobs = max(1, int(os.environ.get('VERIF_JOBS', '8')))
    known = load_known(home, prop)
    sys.setrecursionlimit(3000)
    if replay:
        return run_replay(prop, mod, tier, seed, scratch, replay)
    start = time.time()
    budget = getattr(mod, 'BUDGET', {}).get(
        tier, 780 if tier == 'quick' else 5 * 3600)
    timeout = getattr(mod, 'CASE_TIMEOUT', 30)
    jobs = min(jobs, getattr(mod, 'MAX_JOBS', jobs))
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for wid in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                os.close(r)
                wd = os.path.join(scratch, 'w%d' % wid)
                os.makedirs(wd)
                os.chdir(wd)
                # Folders nxt creates when imported: not shared
                os.environ['NXT_USER_DIR'] = os.path.join(scratch,
                                                          'user%d' % wid)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                ctx = Ctx(tier, seed, wd, known)
                ctx.wid = wid
                err = None
                try:
                    if hasattr(mod, 'setup_worker'):
                        mod.setup_worker(ctx)
                    _worker(mod.parts(tier), wid, jobs, ctx, start + budget,
                            timeout)
                    if hasattr(mod, 'finish_worker'):
                        mod.finish_worker(ctx)
                except BaseException:
                    err = traceback.format_exc()
                out = pickle.dumps((ctx.counts, ctx.sets, ctx.samples,
                                    ctx.violations, ctx.known_hits,
                                    ctx.incomplete, err))
                with os.fdopen(w, 'wb') as fp:
                    fp.write(out)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(rc)
        os.close(w)
        procs.append((pid, r))
    counts, sets, samples, viols, hits = {}, {}, [], [], {}
    incomplete = False
    errors = []
    for pid, r in procs:
        with os.fdopen(r, 'rb') as fp:
            data = fp.read()
        os.waitpid(pid, 0)
        if not data:
            errors.append('worker %d died without a report' % pid)
            continue
        c, s, sm, v, kh, inc, err = pickle.loads(data)
        for k, n in c.items():
            counts[k] = counts.get(k, 0) + n
        for k, st in s.items():
            sets.setdefault(k, set()).update(st)
        samples += sm
        viols += v
        for k, (n, ex) in kh.items():
            cur = hits.setdefault(k, [0, ex])
            cur[0] += n
        incomplete = incomplete or inc
        if err:
            errors.append(err)
    wall = time.time() - start
    if errors and not viols:
        for e in errors:
            sys.stderr.write(e + '\n')
        print('check error: %d worker(s) failed' % len(errors))
        return 2
    coverage = {}
    if mod.LEVEL == 'model_checking':
        coverage['states'] = len(sets.get('states', ()))
        coverage['transitions'] = counts.get('transitions', 0)
        coverage['traces_validated_against_impl'] = counts.get(
            'traces_validated_against_impl', 0)
    else:
        coverage['evaluations'] = counts.get('evaluations', 0)
        coverage['distinct_nontrivial'] = len(sets.get('distinct', ()))
        coverage['rule'] = mod.RULE
    coverage['samples'] = samples[:6]
    coverage['exhaustive'] = not incomplete
    coverage['bounds'] = jsonable(mod.BOUNDS(tier))
    coverage['cases_per_part'] = {k[6:]: n for k, n in sorted(counts.items())
                                  if k.startswith('cases_')}
    extra = {k: n for k, n in counts.items()
             if not k.startswith('cases_') and
             k not in ('evaluations', 'transitions',
                       'traces_validated_against_impl')}
    if extra:
        coverage['counters'] = extra
    if hits:
        coverage['known_findings_hit'] = {k: v[0] for k, v in hits.items()}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
          'coverage': coverage, 'wall_s': round(wall, 2),
          'assumptions': list(getattr(mod, 'ASSUME', [])),
          'violations': len(viols)}
    os.makedirs(os.path.join(home, 'evidence'), exist_ok=True)
    tmp = os.path.join(home, 'evidence', '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as fp:
        json.dump(ev, fp, indent=1)
    os.replace(tmp, os.path.join(home, 'evidence', prop + '.json'))
    for sig, text in sorted(known.items()):
        n = hits.get(sig, [0])[0]
        print('KNOWN-FINDING: property=%s %s (sig=%s, %d cases this run)'
              % (prop, text, sig, n))
    print('%s %s: %s in %.1fs%s' % (
        prop, tier, ', '.join('%s=%s' % (k, coverage[k]) for k in
                              ('evaluations', 'distinct_nontrivial', 'states',
                               'transitions', 'traces_validated_against_impl')
                              if k in coverage), wall,
        '' if not incomplete else ' (INCOMPLETE)'))
    if viols:
        rd = os.path.join(home, 'replays')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for v in viols:
            if v['sig'] in seen:
                continue
            seen.add(v['sig'])
            rp = os.path.join(rd, '%s-%016x.pkl' % (prop, h64((v['sig'],
                                                               v['case']))))
            with open(rp, 'wb') as fp:
                pickle.dump(v, fp)
            with open(rp[:-4] + '.txt', 'w') as fp:
                fp.write('property %s\nsig %s\npart %s\ncase %r\n\n%s\n' % (
                    prop, v['sig'], v['part'], v['case'], v['detail']))
            print('  %s | %s | case %s\n    %s' % (
                v['sig'], v['part'], repr(v['case'])[:600],
                v['detail'][-1500:]))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


def run_replay(prop, mod, tier, seed, scratch, path):
    with open(path, 'rb') as fp:
        v = pickle.load(fp)
    wd = os.path.join(scratch, 'w0')
    os.makedirs(wd)
    os.chdir(wd)
    ctx = Ctx(tier, seed, wd, {})
    ctx.wid = 0
    signal.signal(signal.SIGALRM, _alarm)
    if hasattr(mod, 'setup_worker'):
        mod.setup_worker(ctx)
    fn = dict((n, f) for n, _c, f in mod.parts(tier))[v['part']]
    ctx.run_case(v['part'], v['case'], fn, 60)
    if ctx.violations:
        x = ctx.violations[0]
        print('%s\n%s' % (x['sig'], x['detail']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('replay: no violation')
    return 0
