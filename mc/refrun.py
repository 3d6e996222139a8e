"""Reference interpreter of graph execution, and its binding to the real one.

A *program* is a tuple of operations; `code_of` turns it into the code lines
of a node and `Interp` runs it on a model of the runtime values.  `judge`
executes the same document with the real stage and compares everything that
can be observed: what the code saw, how the run ended, the values every node
ends up with, the cached frames, the globals left behind.

operations
    ('set', attr, expr)     self.attr = expr        (expr: python text)
    ('get', attr)           report self.attr
    ('app', attr, expr)     self.attr.append(expr)
    ('nest', attr, expr)    self.attr[0].append(expr)
    ('del', attr)           del self.attr
    ('tok', text)           report the resolved text
    ('sset', attr, expr)    STAGE.attr = expr
    ('sget', attr)          report STAGE.attr
    ('gset', name, expr)    global name; name = expr
    ('lset', name, expr)    name = expr
    ('gget', name)          report name
    ('me',)                 report self._node_path
    ('exitnode',) ('exitgraph',) ('raise',)
    ('exec', paths[, params]) ('start', path[, params])   nested execute
    ('try', op)             op, catching every Exception
    ('gmany', names, expr)  global a, b; a = b = expr
    ('gfun', name, expr)    the same from within a function
    ('gif', name, expr)     the same below an if
    ('gmulti', name, expr)  in two lines, with a continued global statement
    ('semi', name, expr)    in one line
    ('text', name)          text that only looks like a global statement
    ('rec', attr, limit)    execute itself with attr + 1 until the limit
    ('if', attr, expr, op)  op when self.attr == expr
    ('raw', lines)          lines without an effect in the model
"""
import ast
import copy
import re

from mc import lib, probe, refcomp
from mc.core import expect, expect_eq
from mc.refcomp import T, S


class ExitNodeM(Exception):
    pass


class ExitGraphM(Exception):
    pass


class ErrorM(Exception):
    """A node failed; carries the chain of (path, line number, line)."""
    def __init__(self, where, kind='GraphError'):
        super(ErrorM, self).__init__(where)
        self.where = where
        self.kind = kind


def op_lines(op):
    k = op[0]
    if k == 'set':
        return ['self.%s = %s' % (op[1], op[2])]
    if k == 'get':
        return ['probe.add(("get", probe.me(self), %r, '
                'probe.of(self, %r)))' % (op[1], op[1])]
    if k == 'app':
        return ['self.%s.append(%s)' % (op[1], op[2])]
    if k == 'nest':
        return ['self.%s[0].append(%s)' % (op[1], op[2])]
    if k == 'del':
        return ['del self.%s' % op[1]]
    if k == 'tok':
        return ["probe.add(('tok', probe.me(self), '''%s.'''))" % op[1]]
    if k == 'sset':
        return ['STAGE.%s = %s' % (op[1], op[2])]
    if k == 'sget':
        return ['probe.add(("sget", %r, probe.of(STAGE, %r)))'
                % (op[1], op[1])]
    if k == 'gset':
        return ['global %s' % op[1], '%s = %s' % (op[1], op[2])]
    if k == 'lset':
        return ['%s = %s' % (op[1], op[2])]
    if k == 'gget':
        return ['probe.add(("gget", %r, probe.show(globals().get(%r, '
                '"UNDEFINED"))))' % (op[1], op[1])]
    if k == 'me':
        return ['probe.add(("me", probe.me(self)))']
    if k == 'exitnode':
        return ['raise ExitNode("bye")']
    if k == 'exitgraph':
        return ['raise ExitGraph("bye")']
    if k == 'raise':
        return ['probe.no_such_thing']
    if k == 'exec':
        return ['execute(%r%s)' % (list(op[1]), ', parameters=%r' % (op[2],)
                                   if len(op) > 2 else '')]
    if k == 'start':
        return ['execute(start=%r%s)' % (op[1], ', parameters=%r' % (op[2],)
                                         if len(op) > 2 else '')]
    if k == 'try':
        return ['try:'] + ['    ' + l for l in op_lines(op[1])] + [
            'except Exception:', '    probe.add(("caught",))']
    if k == 'gmany':
        return ['global ' + ', '.join(op[1]),
                ' = '.join(op[1]) + ' = ' + op[2]]
    if k == 'gfun':
        return ['def fun():', '    global ' + op[1],
                '    %s = %s' % op[1:], 'fun()', 'del fun']
    if k == 'gif':
        return ['if True:', '    global ' + op[1], '    %s = %s' % op[1:]]
    if k == 'gmulti':
        return ['global \\', '    ' + op[1], '%s = %s' % op[1:]]
    if k == 'semi':
        return ['pass; global %s; %s = %s' % (op[1], op[1], op[2])]
    if k == 'text':
        return ['pass # global ' + op[1], '# global ' + op[1],
                '(\'\'\'', 'global ' + op[1], '\'\'\')',
                'probe.of(0, "global %s")' % op[1]]
    if k == 'rec':
        return ['if self.%s < %d: execute([self._node_path], parameters='
                '{self._node_path + ".%s": self.%s + 1})'
                % (op[1], op[2], op[1], op[1])]
    if k == 'if':
        ls = op_lines(op[3])
        return ['if self.%s == %s:' % (op[1], op[2])] + [
            '    ' + l for l in ls]
    if k == 'raw':
        return list(op[1])
    raise KeyError(op)


PRE = ['from mc import probe']


def code_of(prog):
    out = list(PRE)
    for op in prog:
        out += op_lines(op)
    return out


def text(v):
    return '' if v is None else str(v)


def real(resolved):
    try:
        v = ast.literal_eval(resolved)
    except (ValueError, NameError, SyntaxError, TypeError):
        return resolved
    return resolved if isinstance(v, str) else v


TOKEN = re.compile(r'\$\{([^{}]*)\}')


class Interp(object):
    def __init__(self, layers, params=None):
        self.comp = refcomp.Comp(layers)
        self.layers = layers
        self.world = () in self.comp.nodes
        self.rt = {}            # (tuple path, attr) -> value
        self.glob = {}          # globals
        self.log = []
        self.frames = {}        # path -> attrs of the last frame
        self.entered = []       # every frame entered
        self.depth = 0
        if params:
            self.set_params(params)
        self.run_world()

    # -- values ------------------------------------------------------------
    def chain(self, t):
        if t == () and not self.world:
            return [('c', 0, ())]
        return self.comp.mro(('c', 0, t))

    def names(self, t):
        out = set()
        for kind, i, u in self.chain(t):
            if kind == 's':
                out |= set(self.layers[i]['nodes'][S(u)].get('attrs', {}))
            elif kind == 'c':
                out |= {a for (v, a) in self.rt if v == u}
        return out

    def raw(self, t, attr):
        for kind, i, u in self.chain(t):
            if kind == 's':
                a = self.layers[i]['nodes'][S(u)].get('attrs', {})
                if attr in a:
                    return a[attr].get('value')
            elif kind == 'c' and (u, attr) in self.rt:
                return self.rt[u, attr]
        raise AttributeError(attr)

    def resolve(self, t, s):
        def one(m):
            c = m.group(1)
            if c == 'path::':
                return S(t)
            p, dot, a = c.rpartition('.')
            if not dot:
                p, a = '', c
            u = t if p in ('', 'self') else refcomp.expand(p, S(t))
            if u not in self.comp.nodes and u != ():
                return ''
            try:
                v = self.raw(u, a)
            except AttributeError:
                return ''
            return self.resolve(u, text(v))
        return TOKEN.sub(one, s)

    def value(self, t, attr):
        v = self.raw(t, attr)
        if isinstance(v, str):
            return real(self.resolve(t, v))
        return v

    def set_params(self, params):
        for k, v in params.items():
            if not isinstance(k, str):
                continue
            p, _, a = k.rpartition('.')
            t = T(p) if p.startswith('/') else None
            if t is None or (t not in self.comp.nodes and t != ()):
                continue
            if t == () and not self.world and not self.glob.get(' up'):
                pass
            self.rt[t, a] = str(v)

    # -- running -----------------------------------------------------------
    def fields(self, t):
        return self.comp.fields(t)

    def prog(self, t):
        """The program of a node follows its code."""
        for i in self.comp.specs.get(t, ()):
            n = self.layers[i]['nodes'][S(t)]
            if 'prog' in n:
                return n['prog']
        if t in self.comp.inst and self.comp.inst[t] in self.comp.nodes:
            return self.prog(self.comp.inst[t])
        return ()

    def run_world(self):
        frame = World(self)
        try:
            self.body((), self.prog(()), frame)
        except ErrorM:
            raise
        self.keep = set(self.glob)

    def run(self, t, prog=None):
        frame = {a: copy.deepcopy(self.value(t, a)) for a in self.names(t)}
        pre = copy.deepcopy(frame)
        self.frames[S(t)] = frame
        self.entered.append(S(t))
        before = set(self.glob)
        prog = self.prog(t) if prog is None else prog
        declared = {op[1] for op in flat(prog) if op[0] in
                    ('gset', 'gfun', 'gif', 'gmulti', 'semi')}
        for op in flat(prog):
            if op[0] == 'gmany':
                declared |= set(op[1])
        push = True
        try:
            self.body(t, prog, frame)
        except ErrorM:
            push = False
            raise
        finally:
            for k in list(self.glob):
                if k not in before and k not in declared:
                    del self.glob[k]
            if push:
                for a, v in pre.items():
                    if a in frame and not same(frame[a], v):
                        self.rt[t, a] = frame[a]

    def body(self, t, prog, frame):
        line = len(PRE)
        # tokens in the code are resolved before it runs
        prog = [self.pre(t, op) for op in prog]
        for op in prog:
            n = len('\n'.join(op_lines(op)).split('\n'))
            try:
                self.op(t, op, frame)
            except (ExitNodeM, ExitGraphM):
                raise
            except Exception:
                ls = op_lines(op)
                k = len(ls) if op[0] in ('gset', 'gmany', 'if') else 1
                raise ErrorM((S(t), line + k, ls[k - 1]))
            line += n

    def pre(self, t, op):
        if op[0] == 'tok':
            return ('tok', self.resolve(t, op[1]))
        if op[0] in ('set', 'app', 'nest', 'sset', 'gset', 'lset', 'gmany'):
            return op[:2] + (self.resolve(t, op[2]),)
        if op[0] in ('try', 'if'):
            return op[:-1] + (self.pre(t, op[-1]),)
        return op

    def op(self, t, op, frame):
        k = op[0]
        if k == 'set':
            frame[op[1]] = eval(op[2], {'self': NS(frame)})
        elif k == 'get':
            self.log.append(('get', S(t), op[1], probe.show(frame[op[1]])
                             if op[1] in frame else 'UNDEFINED'))
        elif k == 'app':
            frame[op[1]].append(eval(op[2]))
        elif k == 'nest':
            frame[op[1]][0].append(eval(op[2]))
        elif k == 'del':
            del frame[op[1]]
        elif k == 'tok':
            self.log.append(('tok', S(t), op[1] + '.'))
        elif k == 'sset':
            self.rt[(), op[1]] = eval(op[2])
        elif k == 'sget':
            try:
                v = probe.show(self.raw((), op[1]))
            except AttributeError:
                v = 'UNDEFINED'
            self.log.append(('sget', op[1], v))
        elif k in ('gset', 'lset', 'gfun', 'gif', 'gmulti', 'semi'):
            self.glob[op[1]] = eval(op[2])
        elif k == 'gget':
            self.log.append(('gget', op[1], probe.show(
                self.glob.get(op[1], 'UNDEFINED'))))
        elif k == 'me':
            self.log.append(('me', S(t)))
        elif k == 'exitnode':
            raise ExitNodeM()
        elif k == 'exitgraph':
            raise ExitGraphM()
        elif k == 'raise':
            raise ValueError()
        elif k == 'exec':
            if not op[1]:
                raise ValueError()
            self.execute_nodes(op[1], *op[2:])
        elif k == 'start':
            self.execute(op[1], *op[2:])
        elif k == 'try':
            try:
                self.op(t, op[1], frame)
            except Exception:
                self.log.append(('caught',))
        elif k == 'gmany':
            for n in op[1]:
                self.glob[n] = eval(op[2])
        elif k == 'rec':
            if frame[op[1]] < op[2]:
                self.execute_nodes([S(t)], {
                    S(t) + '.' + op[1]: frame[op[1]] + 1})
        elif k == 'if':
            if frame[op[1]] == eval(op[2]):
                self.op(t, op[3], frame)
        elif k in ('raw', 'text'):
            pass
        else:
            raise KeyError(op)

    def execute_nodes(self, paths, params=None):
        if self.depth > 6:
            raise RuntimeError('too deep')
        self.depth += 1
        try:
            if params:
                self.set_params(params)
            for p in paths:
                t = T(p)
                if t not in self.comp.nodes or t == ():
                    raise ErrorM((p, None, None), 'InvalidNodeError')
                if self.fields(t)['enabled'] is False:
                    continue
                try:
                    self.run(t)
                except ExitNodeM:
                    continue
        finally:
            self.depth -= 1

    def execute(self, start, params=None):
        if T(start) not in self.comp.nodes:
            raise ValueError(start)
        self.execute_nodes(self.order(start), params)

    def order(self, start):
        """Depth first order below the root of start, document child order.

        Root links and disabled parents are C24's business.
        """
        t = T(start)
        out = []

        def walk(u):
            if self.fields(u)['enabled'] is False:
                return
            out.append(S(u))
            for c in self.kids(u):
                walk(c)
        walk(t[:1])
        return out[out.index(start):] if start in out else []

    def kids(self, t):
        return [T(c) for c in self.comp_real.children(
            S(t), lib.LayerReturnTypes.Path, ordered=True)]

    comp_real = None


class NS(object):
    def __init__(self, d):
        self.__dict__.update(d)


class World(object):
    """self of the world node's code is the world node itself."""
    def __init__(self, it):
        self.it = it

    def __setitem__(self, k, v):
        self.it.rt[(), k] = v

    def __getitem__(self, k):
        try:
            return self.it.raw((), k)
        except AttributeError:
            raise KeyError(k)

    def __contains__(self, k):
        try:
            self.it.raw((), k)
            return True
        except AttributeError:
            return False


def flat(prog):
    for op in prog:
        while op[0] in ('try', 'if'):
            op = op[-1]
        yield op


def same(a, b):
    return type(a) is type(b) and a == b


def doc(layers):
    """The saved document: programs become code."""
    out = []
    for l in layers:
        l = dict(l)
        nodes = {}
        for p, n in l['nodes'].items():
            n = dict(n)
            if 'prog' in n:
                n['code'] = code_of(n.pop('prog'))
            nodes[p] = n
        l['nodes'] = nodes
        out.append(l)
    return out


# -- binding to the implementation -----------------------------------------
def drive(interp, how, arg, params=None):
    """Run the model; how it ended."""
    try:
        if how == 'nodes':
            interp.execute_nodes(arg, params)
        elif how == 'snippet':
            path, prog = arg
            if T(path) not in interp.comp.nodes | {()}:
                raise ErrorM((path, None, None), 'InvalidNodeError')
            try:
                interp.run(T(path), prog)
            except (ExitNodeM, ExitGraphM) as e:
                return type(e).__name__[:-1], None
        else:
            interp.execute(arg, params)
    except ExitGraphM:
        return 'ExitGraph', None
    except ErrorM as e:
        return e.kind, e.where
    return 'ok', None


def drive_real(stage, comp, how, arg, params=None):
    from nxt.runtime import (ExitGraph, ExitNode, GraphError,
                             InvalidNodeError)
    try:
        if how == 'nodes':
            return 'ok', stage.execute_nodes(arg, comp, params), None
        if how == 'snippet':
            code = '\n'.join(code_of(arg[1])) if arg[1] else ''
            try:
                e = stage.execute_custom_code(code, arg[0], comp)
            except (ExitNode, ExitGraph) as e:
                return 'escaped', None, e
            return 'ok' if e is None else type(e).__name__, None, e
        return 'ok', stage.execute(start=arg, layer=comp,
                                   parameters=params), None
    except ExitGraph as e:
        return 'ExitGraph', e.runtime_layer, e
    except InvalidNodeError as e:
        return 'InvalidNodeError', None, e
    except GraphError as e:
        return 'GraphError', None, e


BASE_GLOBALS = {'STAGE', '__stage__', 'nxt_path', 'w', 'types', 'self',
                'execute', 'ExitNode', 'ExitGraph', '__builtins__', 'probe'}


def node_attrs(stage, node):
    return {a: probe.show(getattr(node, a))
            for a in stage.get_node_attr_names(node)}


def blame(exc, real_path, where, at):
    path, line, src = where
    head = 'File "%s", line %s, in %s\n    %s' % (real_path, line, path,
                                                  src.strip())
    expect(str(exc).startswith(head), 'blame', lambda: 'want %r got '
           '%s %r' % (head, exc, at))


def judge(layers, runs, ctx):
    """Compare one session: several executions on one runtime layer.

    runs: [('nodes', [paths], params) or ('start', path, params)]
    """
    m = Interp.__new__(Interp)
    stage = lib.mk_stage(doc(layers))
    before = lib.docs(stage)
    comp = stage.build_stage()
    m.comp_real = comp
    probe.clear()
    world_err = None
    try:
        m.__init__(layers)
    except ErrorM as e:
        world_err = e
    key = repr((layers, runs))
    ctx.state(key)
    probe.clear()
    rt = None
    try:
        rt = stage.setup_runtime_layer(stage.build_stage())
    except Exception as e:
        expect(world_err is not None, 'world-failed', lambda: '%r %r' % (
            e, layers))
        blame(e, layers[0]['path'], world_err.where, layers)
    expect_eq(probe.log, [tuple(x) for x in m.log], 'world-saw', layers)
    expect_eq(lib.docs(stage), before, 'layers-changed', layers)
    if world_err is not None:
        expect_eq(rt, None, 'world-passed', layers)
        return m, stage, rt
    for n, (how, arg, prm) in enumerate(runs):
        m.log = []
        m.frames_before = dict(m.frames)
        want, where = drive(m, how, arg, prm)
        probe.clear()
        ended, rt2, exc = drive_real(stage, rt, how, arg, prm)
        at = (n, layers, runs)
        expect_eq(ended, want, 'ended', lambda_repr(at, exc))
        expect_eq(probe.log, [tuple(x) for x in m.log], 'saw', at)
        if want == 'GraphError':
            blame(exc, rt.real_path, where, at)
        expect_eq(rt.running, False, 'still-running', at)
        if rt2 is not None:
            expect_eq(rt2 is rt, True, 'runtime-layer', at)
        # the values every node ends up with
        for p in sorted(m.comp.nodes | {()}):
            node = rt.lookup(S(p))
            want_v = {a: probe.show(m.raw(p, a)) for a in m.names(p)}
            expect_eq(node_attrs(stage, node), want_v, 'values',
                      (S(p),) + at)
        # what was cached is what the code left behind
        for p, frame in m.frames.items():
            expect_eq(node_attrs(stage, rt.cache_layer.lookup(p)),
                      {a: probe.show(v) for a, v in frame.items()},
                      'cached', (p,) + at)
        expect_eq(set(rt.cache_layer.nodes), set(m.frames) | {'/'},
                  'cached-nodes', at)
        got_g = {k: probe.show(v) for k, v in rt._console.globals.items()
                 if k not in BASE_GLOBALS}
        expect_eq(got_g, {k: probe.show(v) for k, v in m.glob.items()},
                  'globals', at)
        ctx.transition()
        ctx.trace()
    expect_eq(lib.docs(stage), before, 'layers-changed', (layers, runs))
    return m, stage, rt


class lambda_repr(object):
    def __init__(self, *a):
        self.a = a

    def __repr__(self):
        return repr(self.a)
