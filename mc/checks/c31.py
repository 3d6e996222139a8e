"""C31 what an execution leaves in the cache layer."""
import itertools
import json
import os
from mc import lib, probe, refrun
from mc.core import expect, expect_eq
from mc.refrun import Interp

LEVEL = 'model_checking'
RULE = ('every pair of values left on two attrs, every program of the '
        'execution menu on parent, child and instance, run once or twice and '
        'ending normally or not: the cached nodes, values and code are '
        'compared with a reference interpreter, saved, loaded and compared '
        'again; every history of entering and leaving up to three node runs '
        'with every query; non-trivial = distinct (document, runs) or '
        'history')
ASSUME = ['values json can not hold are saved without a value']

EXPRS = ['5', '"5"', '"t\\nu"', 'None', 'True', '2.5', '[1, [2, "x"]]',
         '{"k": [1, None]}', '(1, 2)', '{1: 2}', '{(1, 2): 3}', '{1, 2}',
         'object()', 'print', 'b"x"', '1 + 2j', 'float("inf")', '""', '[]',
         '{}', '"${yy}"', '[object()]', 'type("t", (), {})', 'looped',
         'deep', '"\\ud800"', '10**40', '{"": {"a": ()}}', '"\\u00e9"']


def BOUNDS(tier):
    return {'values': len(EXPRS), 'programs': len(OPS),
            'time_history': 6 if tier == 'quick' else 8}


def attrs(**kw):
    return {k: {'value': v} for k, v in kw.items()}


def setup_worker(ctx):
    ctx.dir = os.path.realpath(os.getcwd())


def reload(cache, ctx):
    from nxt.nxt_layer import CacheLayer
    p = os.path.join(ctx.dir, 'cache.nxt')
    cache.save(p)
    return CacheLayer.load_from_filepath(p)


def names(stage, node):
    return set(stage.get_node_attr_names(node))


def as_saved(v):
    """What json makes of a value, or None."""
    try:
        return json.loads(json.dumps(v))
    except (TypeError, ValueError, RecursionError):
        return None


def compare_loaded(stage, cache, ctx, at):
    got = reload(cache, ctx)
    expect_eq(set(got.nodes), set(cache.nodes), 'loaded-nodes', at)
    for p, node in cache.nodes.items():
        back = got.lookup(p)
        own = {a for a in names(stage, node) if a in vars(node)}
        expect_eq(names(stage, back), own, 'loaded-attrs', (p, at))
        for a in own:
            want = as_saved(getattr(node, a))
            expect(json.dumps(getattr(back, a)) == json.dumps(want),
                   'loaded-value', lambda: '%s.%s got %r want %r %r' % (
                       p, a, getattr(back, a), want, at))
        if p != '/':
            expect_eq(getattr(back, lib.A.CACHED_CODE),
                      getattr(node, lib.A.CACHED_CODE), 'loaded-code', (p,
                                                                        at))
    return got


def value_cases(tier):
    for v, w in itertools.product(range(len(EXPRS)), repeat=2):
        if tier == 'quick' and v != w and (v * 7 + w) % 3:
            continue
        for new in (0, 1):
            yield v, w, new


def values(case, ctx):
    v, w, new = case
    pre = ['looped = []', 'looped.append(looped)', 'deep = cur = []',
           'for n in range(3000):', '    cur.append([])', '    cur = cur[0]']
    name = 'ww' if new else 'yy'
    n = {'/a': {'attrs': attrs(xx='1', yy='2'), 'code': pre + [
        'self.xx = ' + EXPRS[v], 'self.%s = %s' % (name, EXPRS[w])]},
        '/s': {'attrs': attrs(zz='3')}}
    if EXPRS[v] == 'deep' or EXPRS[w] == 'deep':
        n['/a']['code'] = [l.replace('3000', '30') for l in n['/a']['code']]
    stage = lib.mk_stage([{'path': '/v/a.nxt', 'nodes': n}])
    rt = stage.execute_nodes(['/a', '/s'], stage.build_stage())
    cache = rt.cache_layer
    code = '\n'.join(n['/a']['code']).replace('${yy}', '2')
    expect_eq(getattr(cache.lookup('/a'), lib.A.CACHED_CODE), code, 'code',
              case)
    got = compare_loaded(stage, cache, ctx, case)
    expect_eq(getattr(got.lookup('/s'), 'zz'), 3, 'typed', case)
    ctx.state(case)
    ctx.transition()
    ctx.trace()


OPS = [
    (), (('set', 'xx', '7'),), (('app', 'll', '9'), ('set', 'new', '"n"')),
    (('set', 'xx', '"${yy}"'), ('exitnode',)),
    (('set', 'yy', '0'), ('exitgraph',)), (('set', 'll', '[5]'), ('raise',)),
    (('exec', ['/s'], {'/s.xx': '[1]', '/a.yy': '9'}), ('get', 'xx')),
    (('tok', '${xx};${/s.xx}\n${ll}'), ('rec', 'cc', 2)),
    (('sset', 'ww', '[1]'), ('del', 'yy')),
]
RUNS = [['/a', '/a/b', '/i'], ['/i/b', '/a', '/a'], ['/s', '/a/b']]


def program_cases(tier):
    def gen():
        for ops in itertools.product(range(len(OPS)), repeat=3):
            for r in range(len(RUNS)):
                for world in (0, 1):
                    if tier == 'quick' and (sum(ops) + r + world) % 2:
                        continue
                    yield ops, r, world
    return gen


def programs(case, ctx):
    ops, r, world = case
    n = {'/a': {'attrs': attrs(xx='1', yy='${xx}0', ll='[1]', cc='0'),
                'prog': OPS[ops[0]]},
         '/a/b': {'prog': OPS[ops[1]]},
         '/i': {'instance': '/a', 'prog': OPS[ops[2]]},
         '/s': {'attrs': attrs(xx='s'), 'prog': (('set', 'xx', '[self.xx]'),)}}
    if ops[2] == 8:
        del n['/i']['prog']     # what it inherits from /a
    if world:
        n['/'] = {'attrs': attrs(ww='w'), 'prog': (('sset', 'ww', '5'),)}
    m, stage, rt = refrun.judge([{'path': '/v/a.nxt', 'nodes': n}],
                                [('nodes', RUNS[r], None),
                                 ('nodes', RUNS[0], None)], ctx)
    cache = rt.cache_layer
    compare_loaded(stage, cache, ctx, case)
    # every run was timed, one that ran within another lies within it
    count = {}
    for p in m.entered:
        count[p] = count.get(p, 0) + 1
    for p, k in count.items():
        times = cache.node_time_map[p]
        expect_eq(len(times), k, 'runs', (p, case))
        for i, (enter, leave) in enumerate(times):
            expect(leave is not None and enter <= leave, 'times', (p, case))
            expect_eq(cache.get_node_run_time(p, i), leave - enter,
                      'run-time', (p, case))
            for t in (enter, leave):
                expect(cache.was_during_node_exec(t), 'during', (p, case))
    expect_eq(set(cache.node_time_map), set(count), 'timed', case)
    for (a, b), (c, d) in itertools.combinations(cache.node_times, 2):
        expect(b <= c or d <= b or c <= d <= b or a <= c, 'overlap', case)


# -- the clockwork alone -------------------------------------------------
def history_cases(tier):
    k = 6 if tier == 'quick' else 8
    acts = [(x, p) for x in ('enter', 'leave') for p in ('/a', '/a/b')]

    def gen():
        for n in range(1, k + 1):
            for h in itertools.product(range(4), repeat=n):
                if sum(1 for a in h if a < 2) > 4:
                    continue
                yield tuple(acts[a] for a in h)
    return gen


def history(h, ctx):
    from nxt.nxt_layer import CacheLayer
    cache = CacheLayer()
    runs, t = {}, 0
    spans = []
    for act, p in h:
        t += 10
        if act == 'enter':
            cache.set_node_enter_time(p, float(t))
            runs.setdefault(p, []).append([t, None])
            spans.append(runs[p][-1])
            continue
        open_ = [r for r in runs.get(p, []) if r[1] is None]
        try:
            cache.set_node_exit_time(p, float(t))
        except (IndexError, ValueError):
            expect_eq(open_, [], 'exit-refused', h)
            continue
        expect(open_, 'exit-accepted', h)
        open_[-1][1] = t
    ctx.state(h)
    ctx.transition()
    ctx.trace()
    for q in range(5, t + 16, 5):
        want = any(a <= q and (b is None or q <= b) for a, b in spans)
        expect_eq(cache.was_during_node_exec(float(q)), want, 'during', (q,
                                                                         h))
    for p, rs in runs.items():
        for i, (a, b) in enumerate(rs):
            if b is not None:
                expect_eq(cache.get_node_run_time(p, i), b - a, 'run-time',
                          (p, i, h))
        try:
            cache.get_node_run_time(p, len(rs))
        except ValueError:
            continue
        expect(False, 'unknown-run', h)


def parts(tier):
    return [('values', lambda: value_cases(tier), values),
            ('programs', program_cases(tier), programs),
            ('times', history_cases(tier), history)]
