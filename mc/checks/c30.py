"""C30 execution leaves the document as it was."""
import itertools
import json
import os
from mc import lib, probe, refrun
from mc.core import expect, expect_eq

LEVEL = 'model_checking'
RULE = ('every pair of programs (in-place changes of values of every stored '
        'kind, rebinding, deletion, STAGE and parameter changes, globals, '
        'nested runs, failures, exits) on the nodes and world code of a two '
        'layer document, however it is executed, twice; the layers, their '
        'files, the composed view handed in and one built afterwards must '
        'be as before and the second execution must see what the first saw; '
        'non-trivial = distinct (document, programs, entry point)')
ASSUME = ['node code does not use __stage__ to edit the document']

VALS = {'ss': 'text', 'll': '[1, [2]]', 'jl': [1, [2], {'k': 3}],
        'jd': {'k': [1]}, 'ji': 7, 'jb': True, 'jn': None}
OPS = [
    ['pass'],
    ['self.jl.append(5)', 'self.jl[1].append(6)'],
    ['STAGE.jl.append(5)'],
    ['STAGE.jl[2]["k"] = 9', 'STAGE.jd["k"].append(2)'],
    ['self.jd["k"].append(4)', 'self.jd["new"] = 1', 'self.ll[1][0] = 0'],
    ['self.ss = 5', 'self.jl = None', 'STAGE.ss = [1]', 'STAGE.new = [2]'],
    ['del self.ss', 'del self.jl'],
    ['global keep', 'keep = self.jl', 'keep.append(1)'],
    ['if "keep" in globals(): keep.append(2)', 'self.jl.append(3)',
     'raise ExitNode("x")'],
    ['STAGE.jl.append(1)', 'self.jl.append(1)', 'raise ValueError("x")'],
    ['self.jl.append(1)', 'raise ExitGraph("x")'],
    ['execute(["/n"], parameters={"/n.ss": 4, "/.ss": 3, "/n.add": 1})',
     'self.jl += [9]'],
    ['STAGE.jd.clear()', 'STAGE.jl.sort(key=str)', 'self._code = []'],
    ['for k in dir(STAGE):', '    v = getattr(STAGE, k)',
     '    if k[:1] != "_" and isinstance(v, list): v.append("v")'],
]
ENTRY = ['execute', 'nodes', 'runtime', 'session', 'custom']


def BOUNDS(tier):
    return {'programs': len(OPS), 'entry': len(ENTRY), 'executions': 2}


REPORT = ['from mc import probe',
          'probe.add(sorted((k, repr(getattr(self, k))) for k in dir(self) '
          'if k[:1] != "_" and not k.endswith("__nxt")))']


def attrs(**kw):
    return {k: {'value': v} for k, v in kw.items()}


def document(a, b, w):
    lo = {'/a': {'attrs': attrs(**VALS), 'code': REPORT + OPS[a],
                 'child_order': ['k', 'b']},
          '/a/b': {'code': REPORT + OPS[b]}, '/a/k': {'code': REPORT},
          '/n': {'instance': '/a', 'attrs': attrs(add='[0]'),
                 'code': REPORT + ['self.jl.append(7)']}}
    hi = {'/n/b': {'attrs': attrs(jl=[[0]]), 'code': REPORT}}
    if w is not None:
        lo['/'] = {'attrs': attrs(**VALS), 'code': REPORT + [
            l for l in OPS[w] if 'ExitNode' not in l and 'execute' not in l
            and not l.startswith('self._')] + ['stage_seen = STAGE.ss']}
        hi['/'] = {'attrs': attrs(jl=['hi'])}
    return [{'path': 'hi.nxt', 'nodes': hi}, {'path': 'lo.nxt', 'nodes': lo}]


def cases(tier):
    def gen():
        worlds = [None] + list(range(len(OPS)))
        for w in worlds:
            for a, b in itertools.product(range(len(OPS)), repeat=2):
                if w not in (None, 0) and (a and b and tier == 'quick'):
                    continue
                for e in ENTRY:
                    if tier == 'quick' and e != 'execute' and \
                            (a + b + (w or 0)) % 2:
                        continue
                    yield a, b, w, e
    return gen


def setup_worker(ctx):
    ctx.dir = os.path.realpath(os.getcwd())
    from nxt.session import Session
    ctx.session = Session()


def run(stage, comp, entry, ctx, path):
    from nxt.runtime import ExitGraph, GraphError
    probe.clear()
    order = ['/a', '/a/k', '/a/b', '/n', '/n/b']
    try:
        if entry == 'execute':
            stage.execute('/a', comp, {'/a.add': '[1]', '/.add': 2})
        elif entry == 'nodes':
            stage.execute_nodes(order, comp)
        elif entry == 'runtime':
            rt = stage.setup_runtime_layer(stage.build_stage())
            stage.execute_nodes(order[:3], rt)
            stage.execute_nodes(order, rt, {'/n.jl': '[3]'})
        elif entry == 'session':
            ctx.session.execute_graph(path, '/a')
        else:
            stage.execute_custom_code('execute(%r)' % order, '/n', comp)
    except (ExitGraph, GraphError) as e:
        probe.add(type(e).__name__)
    return list(probe.log)


def one(case, ctx):
    a, b, w, entry = case
    layers = document(a, b, w)
    for l, refs in zip(layers, (['lo.nxt'], [])):
        with open(os.path.join(ctx.dir, l['path']), 'w') as f:
            json.dump({'version': lib.VERSION, 'alias': 'x', 'references':
                       refs, 'nodes': l['nodes']}, f)
    path = os.path.join(ctx.dir, 'hi.nxt')
    from nxt.session import Stage
    stage = Stage.load_from_filepath(path)
    comp = stage.build_stage()
    files = snapshot(ctx)
    docs = json.dumps(lib.docs(stage))
    view = lib.observe_comp(stage, comp)
    first = run(stage, comp, entry, ctx, path)
    for n in (1, 2):
        expect_eq(json.dumps(lib.docs(stage)), docs, 'layers-changed', case)
        expect_eq(lib.observe_comp(stage, comp), view, 'view-changed', case)
        expect_eq(comp.runtime, False, 'view-became-runtime', case)
        expect_eq(lib.observe_comp(stage, stage.build_stage()), view,
                  'next-view', case)
        expect_eq(snapshot(ctx), files, 'files-changed', case)
        if n == 1:
            again = run(stage, comp, entry, ctx, path)
            expect_eq(again, first, 'second-execution', case)
    ctx.nontrivial(case)
    ctx.state(case)
    ctx.transition(2)
    ctx.trace(2)


def snapshot(ctx):
    out = {}
    for n in ('hi.nxt', 'lo.nxt'):
        with open(os.path.join(ctx.dir, n)) as f:
            out[n] = f.read()
    return out


def parts(tier):
    return [('programs', cases(tier), one)]
