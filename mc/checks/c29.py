"""C29 execution parameters."""
import itertools
import json
import os
from mc import lib, probe, refrun
from mc.core import expect, expect_eq
from mc.refrun import Interp, T

LEVEL = 'model_checking'
RULE = ('every set of one or two parameters over paths of nodes and attrs '
        'that exist, are inherited, instanced, implied or missing, and '
        'malformed ones, times every kind of value, times documents with and '
        'without world code, given to the stage, the session, a continued '
        'runtime layer and through nested execution, against a reference '
        'interpreter; non-trivial = distinct (document, parameters, entry '
        'point)')
ASSUME = ['parameters name attributes, not the internal ones with a leading '
          'underscore']

KEYS = ['/a.xx', '/a.new', '/a/b.xx', '/i.xx', '/i/b.xx', '/.xx', '/.new',
        '/p.xx', '/gone.xx', '/a/gone.xx', '/a', '', 'a.xx', 'xx', 5, None,
        '/a.xx.yy', '/s.tt', '/off.xx', '/p/q.xx']
VALUES = ['5', 5, '', None, True, 2.5, [1, 'two'], {'k': (1,)}, 'text',
          "'quoted'", '${/s.vv}', '${vv}1', 'a b', 'two\nlines', (), '[']
ENTRY = ['stage', 'session', 'continue', 'nodes', 'nested', 'session-nodes']


def BOUNDS(tier):
    return {'keys': len(KEYS), 'values': len(VALUES), 'entry': len(ENTRY),
            'parameters': 2}


def attrs(**kw):
    return {k: {'value': v} for k, v in kw.items()}


SEE = (('me',), ('get', 'xx'), ('get', 'new'), ('get', 'tt'),
       ('tok', '${/a.xx}|${/i/b.xx}|${new}|${/.xx}'))


def document(world):
    lo = {'/a': {'attrs': attrs(xx='1'), 'prog': SEE},
          '/a/b': {'prog': SEE},
          '/a/b/c': {'attrs': attrs(xx='3'), 'prog': SEE},
          '/s': {'attrs': attrs(vv='70', tt='${/a.xx}${/a.new}'),
                 'prog': SEE},
          '/off': {'enabled': False, 'prog': SEE},
          '/p/q': {'prog': SEE}}
    hi = {'/i': {'instance': '/a', 'prog': SEE},
          '/a': {'comment': 'c'}}
    if world:
        lo['/'] = {'attrs': attrs(xx='0', ww='${/a.xx}'),
                   'prog': (('sget', 'xx'), ('sget', 'new'),
                            ('tok', '${/a.xx}')) +
                   ((('sset', 'xx', '"code"'),) if world == 2 else ())}
    if world == 3:
        hi['/'] = {'attrs': attrs(new='${xx}')}
    return [{'path': 'hi.nxt', 'nodes': hi}, {'path': 'lo.nxt', 'nodes': lo}]


RUN = ['/a', '/a/b', '/a/b/c', '/i', '/i/b', '/s', '/off', '/p/q']


def setup_worker(ctx):
    ctx.dir = os.path.realpath(os.getcwd())
    ctx.docs = {}


def load(ctx, world):
    if world not in ctx.docs:
        for l, refs in zip(refrun.doc(document(world)), (['lo.nxt'], [])):
            d = {'version': lib.VERSION, 'alias': l['path'][:2],
                 'references': refs, 'nodes': l['nodes']}
            p = os.path.join(ctx.dir, 'w%s%s' % (world, l['path']))
            if refs:
                d['references'] = ['w%slo.nxt' % world]
            with open(p, 'w') as f:
                json.dump(d, f)
        ctx.docs[world] = os.path.join(ctx.dir, 'w%shi.nxt' % world)
    return ctx.docs[world]


def model(world, entry, params):
    m = Interp.__new__(Interp)
    m.comp_real = None
    early = entry not in ('continue', 'nested')
    m.__init__(document(world), dict(params) if early else None)
    run = RUN
    if entry in ('stage', 'session'):
        run = ['/a', '/a/b', '/a/b/c']
    elif entry == 'nested':
        m.log.append(('me', '/r'))
    m.execute_nodes(run, None if early else dict(params))
    if entry == 'continue':
        m.execute_nodes(['/i', '/s'])
    return m


def one(case, ctx):
    world, entry, params = case
    from nxt.session import Session, Stage
    path = load(ctx, world)
    m = model(world, entry, params)
    prm = dict(params)
    given = dict(prm)
    with open(path) as f:
        text = f.read()
    probe.clear()
    if entry == 'session':
        rt = ctx_session().execute_graph(path, '/a', prm)
    elif entry == 'session-nodes':
        rt = ctx_session().execute_nodes(path, RUN, prm)
    else:
        stage = Stage.load_from_filepath(path)
        before = lib.docs(stage)
        comp = stage.build_stage()
        if entry == 'stage':
            rt = stage.execute('/a', comp, prm)
        elif entry == 'nodes':
            rt = stage.execute_nodes(RUN, comp, prm)
        elif entry == 'continue':
            rt = stage.setup_runtime_layer(comp)
            stage.execute_nodes(RUN, rt, prm)
            rt2 = stage.execute_nodes(['/i', '/s'], rt)
            expect_eq(rt2 is rt, True, 'runtime-layer')
        else:
            rt = stage.setup_runtime_layer(comp)
            probe.stash = (RUN, prm)
            stage.execute_custom_code(
                'from mc import probe\nprobe.add(("me", "/r"))\n'
                'execute(probe.stash[0], parameters=probe.stash[1])',
                '/p/q', rt)
        expect_eq(lib.docs(stage), before, 'layers-changed', case)
    expect_eq(probe.log, [tuple(x) for x in m.log], 'saw', case)
    expect_eq(prm, given, 'parameters-changed', case)
    for p in sorted(m.comp.nodes | {()}):
        want = {a: probe.show(m.raw(p, a)) for a in m.names(p)}
        got = {a: probe.show(getattr(rt.lookup(refrun.S(p)), a))
               for a in Stage().get_node_attr_names(rt.lookup(refrun.S(p)))}
        expect_eq(got, want, 'values', (p, case))
    with open(path) as f:
        expect_eq(f.read(), text, 'file-changed', case)
    ctx.state(case)
    ctx.transition()
    ctx.trace()


_s = []


def ctx_session():
    from nxt.session import Session
    if not _s:
        _s.append(Session())
    return _s[0]


def single_cases(tier):
    for world in range(4):
        for e in ENTRY:
            for k in KEYS:
                for v in range(len(VALUES)):
                    if tier == 'quick' and 's' in e[:1] and e != 'stage' \
                            and v % 3 and world != 1:
                        continue
                    yield world, e, k, v


def single(case, ctx):
    world, e, k, v = case
    one((world, e, ((k, VALUES[v]),)), ctx)


def pair_cases(tier):
    ks = KEYS[:8] + ['/gone.xx', '/a', '/s.tt', 5, '']
    vs = [0, 3, 6, 8, 10] if tier != 'quick' else [0, 10]
    for world in (0, 2):
        for k, q in itertools.permutations(ks, 2):
            for v, w in itertools.product(vs, repeat=2):
                for e in ('stage', 'nodes', 'continue'):
                    if e == 'nodes' and tier == 'quick':
                        continue
                    yield world, e, k, v, q, w


def pair(case, ctx):
    world, e, k, v, q, w = case
    one((world, e, ((k, VALUES[v]), (q, VALUES[w]))), ctx)


def parts(tier):
    return [('single', lambda: single_cases(tier), single),
            ('pairs', lambda: pair_cases(tier), pair)]
