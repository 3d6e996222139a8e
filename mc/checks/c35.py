"""C35 a created context is available, now and after a restart."""
import itertools
import json
import os
import shutil
import subprocess
import sys
from mc import lib
from mc.core import expect, expect_eq

LEVEL = 'model_checking'
RULE = ('every single creation over names x interpreters, names x graphs and '
        'interpreters x graphs x arguments, and every sequence of creations '
        'of the depth bound over a smaller pool; after each creation the '
        'contexts known are compared with a model, and again in a process '
        'started afterwards from another folder; some contexts are executed '
        'in.  State: contexts and files after the creations')
ASSUME = ['the folder of user plugins can be written',
          'a refusal is a NameError or an OSError']
CASE_TIMEOUT = 120
NAMES = ['good', "it's", 'a"b', 'back\\slash', 'new\nline', 'sp ace', 'a.b',
         '\u00fcn\u00ef', '{xx}', '%s', 'python', '', 'aa/bb', '..', 'tab\tx',
         "'''", 'None', '#c', 'end\\', 'UPPER', '${xx}']
EXES = [None, '/opt/some where/python', "/odd/it's", 'C:\\dir\\new\\py.exe',
        '/apps/maya', '/apps/Blender.exe', '/q/"q"', 'plain', '/end\\']
GRAPHS = [None, 'abs', 'relative', 'deep', 'plugins', "quote'd", 'missing',
          'folder', 'variable', 'sp ace']
ARGS = [(), ('--python',), ['--a', 'b c'], ("it's", '"', '\\n'), ('{x}',)]
DRIVER = r'''
import json, os, sys
import nxt
from nxt import nxt_path, nxt_io
from nxt.remote import contexts
plan = json.loads(sys.argv[1])
out = []
def known():
    got = []
    for name in contexts.iter_context_names():
        c = contexts.find_context_by_name(name)
        got.append([name, c.name, c.exe, c.graph, list(c.args)])
    return got
def files():
    return sorted(os.listdir(nxt.USER_PLUGIN_DIR))
out.append(['start', known(), files()])
def content():
    got = []
    for f in files():
        p = os.path.join(nxt.USER_PLUGIN_DIR, f)
        if os.path.isfile(p):
            with open(p) as fp:
                got.append([f, fp.read()])
    return got
for kw in plan:
    other = kw.pop('_other', None)
    if other:
        # An other nxt does this while this one runs
        import subprocess
        subprocess.check_call(
            [sys.executable, '-c', 'import sys, json, nxt; '
             'nxt.create_context(**json.loads(sys.argv[1]))',
             json.dumps(other)])
        before = content()
    try:
        r = nxt.create_context(**kw)
        end = ['ok', r]
    except (NameError, OSError) as e:
        end = ['refused', type(e).__name__]
    except BaseException as e:
        end = ['error', '%s: %s' % (type(e).__name__, e)]
    out.append([end, known(), files()])
    if other:
        out[-1].append(content() == before)
paths = {}
for row in known():
    p = nxt_path.full_file_expand(row[3])
    paths[row[0]] = [p, os.path.isfile(p)]
    if os.path.isfile(p):
        refs = [nxt_path.full_file_expand(r, os.path.dirname(p))
                for r in nxt_io.load_file_data(p).get('references', [])]
        paths[row[0]].append([[os.path.basename(r), os.path.isfile(r)]
                              for r in refs])
print('\nRESULT' + json.dumps([out, paths]))
'''


def BOUNDS(tier):
    return {'names': len(NAMES), 'interpreters': len(EXES),
            'graphs': len(GRAPHS), 'arguments': len(ARGS),
            'sequence': 2 if tier == 'quick' else 3}


def mk(root):
    work = os.path.join(root, 'work')
    for d in ('user', 'work', 'work/sub', 'other', 'graphs'):
        os.makedirs(os.path.join(root, d))
    doc = json.dumps({'version': lib.VERSION, 'alias': 'ctx',
                      'references': ['$NXT_BUILTINS/_context.nxt'],
                      'nodes': {}})
    plug = os.path.join(root, 'user', 'config', '0', 'plugins')
    given = {'abs': os.path.join(root, 'graphs', 'c.nxt'),
             'relative': 'c.nxt', 'deep': 'sub/c.nxt',
             "quote'd": os.path.join(root, 'graphs', "it's.nxt"),
             'sp ace': os.path.join(root, 'graphs', 'sp ace.nxt'),
             'missing': os.path.join(root, 'graphs', 'none.nxt'),
             'folder': os.path.join(root, 'graphs'),
             'variable': '$MC_ROOT/graphs/c.nxt',
             'plugins': None}
    for f in ('graphs/c.nxt', 'work/c.nxt', 'work/sub/c.nxt',
              "graphs/it's.nxt", 'graphs/sp ace.nxt'):
        with open(os.path.join(root, f), 'w') as fp:
            fp.write(doc)
    return given, doc


def start(ctx, root, plan, cwd, code=DRIVER):
    env = dict(os.environ, NXT_USER_DIR=os.path.join(root, 'user'),
               MC_ROOT=root)
    ctx.count('processes')
    p = subprocess.run([sys.executable, '-c', code, json.dumps(plan)],
                       cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                       timeout=90)
    text = p.stdout.decode('utf-8', 'replace')
    expect('\nRESULT' in text, 'nxt-does-not-start', lambda: (
        plan, p.stderr.decode('utf-8', 'replace')[-600:]))
    return json.loads(text.rpartition('\nRESULT')[2])


def run(case, ctx):
    root = os.path.join(os.getcwd(), 'case')
    shutil.rmtree(root, ignore_errors=True)
    given, doc = mk(root)
    work, other = os.path.join(root, 'work'), os.path.join(root, 'other')
    try:
        decide(case, ctx, root, given, doc, work, other)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def decide(case, ctx, root, given, doc, work, other):
    plan, want = [], []
    for name, exe, graph, args in case:
        kw = {'custom_name': name}
        if exe is not None:
            kw['interpreter_exe'] = exe
        if graph == 'plugins':
            plug = os.path.join(root, 'user', 'own.nxt')
            with open(plug, 'w') as fp:
                fp.write(doc)
            kw['context_graph'] = plug
        elif graph is not None:
            kw['context_graph'] = given[graph]
        if args:
            kw['exe_script_args'] = list(args)
        plan.append(kw)
    (steps, paths) = start(ctx, root, plan, work)
    model = {r[0]: r for r in steps[0][1]}
    files = steps[0][2]
    expect(set(model) == {'python'}, 'contexts-at-start', model)
    where = {}
    for (name, exe, graph, args), kw, (end, known, now) in zip(
            case, plan, steps[1:]):
        ctx.transition()
        expect(end[0] != 'error', 'creating-fails', (case, end))
        names = [r[0] for r in known]
        bad = name in model or not name or graph in ('missing', 'folder')
        if end[0] == 'refused':
            expect(bad or os.sep in name, 'refused', (case, end))
            expect_eq(sorted(names), sorted(model), 'contexts-after-refusal',
                      case)
            expect_eq(now, files, 'files-after-refusal', case)
            continue
        expect(not bad, 'not-refused', (case, end))
        expect_eq(end[1], name, 'returned-name', case)
        expect_eq(sorted(names), sorted(list(model) + [name]),
                  'contexts-known', case)
        row = known[names.index(name)]
        expect_eq(row[1], name, 'found-by-name', case)
        expect_eq(row[2], exe if exe is not None else sys.executable,
                  'interpreter', case)
        expect_eq(row[4], list(args), 'arguments', case)
        model[name] = row
        files = now
        if graph is None:
            where[name] = None
        else:
            g = kw['context_graph'].replace('$MC_ROOT', root)
            where[name] = os.path.join(work, g)
    again, after = start(ctx, root, [], other)
    expect_eq(sorted(r[0] for r in again[0][1]), sorted(model),
              'contexts-after-restart', case)
    for r in again[0][1]:
        expect_eq(r[:3] + r[4:], model[r[0]][:3] + model[r[0]][4:],
                  'context-after-restart', case)
    for name, p in where.items():
        for which in (paths, after):
            got = which[name]
            expect(got[1], 'graph-is-no-file', (case, got))
            if p is not None:
                expect_eq(os.path.realpath(got[0]), os.path.realpath(p),
                          'graph', case)
            expect(got[2:] == [[['_context.nxt', True]]],
                   'graph-references', (case, got))
    ctx.state((sorted(model), files))
    ctx.trace()


def run_two(case, ctx):
    """The second of two creations of one name in two nxts is refused."""
    root = os.path.join(os.getcwd(), 'case')
    shutil.rmtree(root, ignore_errors=True)
    given, doc = mk(root)
    try:
        name, g1, g2, same = case
        kw = {'custom_name': name if same else name + '2'}
        other = {'custom_name': name, 'interpreter_exe': '/opt/other/python'}
        if g1:
            other['context_graph'] = given[g1]
        if g2:
            kw['context_graph'] = given[g2]
        kw['_other'] = other
        work = os.path.join(root, 'work')
        steps, _ = start(ctx, root, [kw], work)
        end, known, now, kept = steps[1]
        names = sorted(r[0] for r in known)
        if same:
            expect_eq(end[0], 'refused', 'not-refused', case)
            expect(kept, 'files-after-refusal', (case, now))
            expect_eq(names, ['python'], 'contexts-after-refusal', case)
        else:
            expect_eq(end, ['ok', kw['custom_name']], 'creating-fails', case)
            expect_eq(names, sorted(['python', kw['custom_name']]),
                      'contexts-known', case)
        again, paths = start(ctx, root, [], os.path.join(root, 'other'))
        model = {r[0]: r for r in again[0][1]}
        expect_eq(sorted(model), sorted({'python', name, kw['custom_name']}),
                  'contexts-after-restart', case)
        expect_eq(model[name][2], '/opt/other/python',
                  'context-after-restart', case)
        expect(paths[name][1], 'graph-is-no-file', (case, paths[name]))
        ctx.transition(2)
        ctx.state((case, names, now))
        ctx.trace()
    finally:
        shutil.rmtree(root, ignore_errors=True)


EXECUTE = r'''
import json, os, sys
import nxt
name, graph = json.loads(sys.argv[1])
from nxt.remote import server
server.ServerFunctions.exec_in_headless(graph, None, None, None, name)
print('\nRESULT' + json.dumps(True))
'''


def run_execute(case, ctx):
    root = os.path.join(os.getcwd(), 'case')
    shutil.rmtree(root, ignore_errors=True)
    given, doc = mk(root)
    try:
        name, graph = case
        kw = {'custom_name': name}
        if graph:
            kw['context_graph'] = given[graph]
        start(ctx, root, [kw], os.path.join(root, 'work'))
        mark = os.path.join(root, 'mark')
        path = os.path.join(root, 'g.nxt')
        with open(path, 'w') as fp:
            json.dump({'version': lib.VERSION, 'alias': 'g', 'nodes': {
                '/aa': {'start_point': True, 'code': [
                    'open(%r, "a").write("x")' % mark]}}}, fp)
        start(ctx, root, [name, path], os.path.join(root, 'other'), EXECUTE)
        expect(os.path.isfile(mark), 'not-executed', case)
        with open(mark) as fp:
            expect_eq(fp.read(), 'x', 'executed-once', case)
        ctx.transition()
        ctx.state(case)
        ctx.trace()
    finally:
        shutil.rmtree(root, ignore_errors=True)


def parts(tier):
    full = tier != 'quick'

    def single():
        for i, name in enumerate(NAMES):
            for exe in EXES if full else (EXES[0], EXES[i % len(EXES)]):
                yield name, exe, None, ()
            for graph in GRAPHS if full else ('abs', GRAPHS[i % len(GRAPHS)]):
                yield name, None, graph, ()
        for exe in EXES:
            for graph in GRAPHS:
                for args in ARGS:
                    yield 'good', exe, graph, args

    def gen():
        # Several creations of different names share their processes
        batch = []
        for name, exe, graph, args in single():
            if name == 'good':
                name += str(len(batch))
            if name in [b[0] for b in batch] or len(batch) == 12:
                yield tuple(batch)
                batch = []
            batch.append((name, exe, graph, args))
        yield tuple(batch)

    def sequences():
        pool = [(n, None, g, ()) for n in ('aa', 'python', "q'q")
                for g in ((None, 'abs', 'missing') if full else
                          (None, 'abs'))]
        for n in (2,) if not full else (2, 3):
            for s in itertools.product(pool, repeat=n):
                yield s

    def executions():
        for name in ('good', "it's", 'sp ace'):
            for graph in (None, 'abs', 'relative', 'sp ace') if full else (
                    None, 'relative'):
                yield name, graph
    def two():
        for name in ('aa', "it's", 'sp ace'):
            for g1 in (None, 'abs'):
                for g2 in (None, 'abs'):
                    for same in (True, False):
                        yield name, g1, g2, same
    return [('single', gen, run), ('sequences', sequences, run),
            ('two processes', two, run_two),
            ('executed', executions, run_execute)]
