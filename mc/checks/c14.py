"""C14 a save that dies or fails leaves a whole document behind."""
import ctypes
import errno
import json
import os
import shutil
import stat
from mc import lib
from mc.core import expect, expect_eq
from nxt import nxt_io, legacy
from nxt.nxt_layer import SpecLayer, CacheLayer
from nxt.session import Session

LEVEL = 'fault_enumeration'
CASE_TIMEOUT = 300
PRELOAD = 'fsfault.c'
RULE = ('every saving operation x kind of target x document size, with the '
        'process killed before and after, or an error returned from, each '
        'call that changes the file system, and every write torn at several '
        'lengths; plus every place a value json cannot write can sit in.  '
        'Non-trivial: distinct (operation, target, fault) that was reached')
ASSUME = ['the process dies, not the machine: what was written before the '
          'death is what is read afterwards',
          'one save at a time per file']
OFF, COUNT, KILL_BEFORE, KILL_AFTER, FAIL, TORN_KILL, TORN_FAIL, SHORT = \
    range(8)
ERRORS = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EINTR]
LIB = ctypes.CDLL(None)
if 'LD_PRELOAD' in os.environ:
    LIB.fsf_trace.restype = ctypes.c_char_p


def BOUNDS(tier):
    return {'operations': sorted(OPS), 'targets': TARGETS,
            'errors': ERRORS, 'torn_lengths': keeps(tier),
            'sizes': sizes(tier)}


def keeps(tier):
    return [0, 1, -1] if tier == 'quick' else [0, 1, 2, 17, -1, 4095, 4096,
                                               8191]


def sizes(tier):
    return [1, 900] if tier == 'quick' else [1, 60, 900, 9000]


def doc(tag, n):
    nodes = {'/': {}, '/aa': {'attrs': {'tag': {'value': tag}},
                     'code': ['line %d %s' % (i, tag) for i in range(n)]},
             '/aa/bb': {'comment': tag}}
    return {'version': lib.VERSION, 'alias': 'al', 'nodes': nodes}


def old_text(n):
    return json.dumps(doc('OLD', n), indent=1)


# every op: prepare(path, n) -> callable that saves the new document to path
def op_layer(path, n):
    """Edit a loaded layer and save it where it came from."""
    src = path
    if not os.path.exists(path):
        src = os.path.join(os.path.dirname(path), 'src.nxt')
        with open(src, 'w') as fp:
            fp.write(old_text(n))
    st = Session().load_file(src)
    layer = st._sub_layers[0]
    comp = st.build_stage()
    node = layer.lookup('/aa')
    st.node_setattr_data(node, 'tag', layer, True, comp, value='NEW')
    st.set_node_code_lines(node, ['l %d NEW' % i for i in range(n)], comp)
    return lambda: layer.save(None if src == path else path)


def op_cache(path, n):
    c = CacheLayer.load_from_layer_data(doc('NEW', n))
    return lambda: c.save(path)


def op_data(path, n):
    d = doc('NEW', n)
    return lambda: nxt_io.save_file_data(d, path)


def op_session(path, n):
    s = Session()
    st = s.new_file()
    layer = st._sub_layers[0]
    st.add_node('aa', {'code': ['z' * 70] * n}, layer=layer)

    def go():
        s.save_layer(layer, path)
        return True
    return go


def op_convert(path, n):
    real = os.path.realpath(path)
    d = doc('OLD', n)
    d['version'] = '1.9'
    d['references'] = [{'path': 'x.nxt', 'alias': 'zz'}]
    with open(real, 'w') as fp:
        json.dump(d, fp)

    def go():
        legacy.cli_file_convert(path, True)
        return True
    return go


OPS = {'layer': op_layer, 'cache': op_cache, 'data': op_data,
       'session': op_session, 'convert': op_convert}
TARGETS = ['present', 'absent', 'link', 'nxtb', 'mode']


class World(object):
    def __init__(self, wd, op, target, n):
        self.dir = os.path.join(wd, 'fs')
        self.op, self.target, self.n = op, target, n

    def fresh(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, 'other'))
        name = 'g.nxtb' if self.target == 'nxtb' else 'g.nxt'
        self.path = os.path.join(self.dir, name)
        real = self.path
        if self.target == 'link':
            real = os.path.join(self.dir, 'other', 'real.nxt')
            os.symlink(real, self.path)
        if self.target != 'absent':
            with open(real, 'w') as fp:
                fp.write(old_text(self.n))
        if self.target == 'mode':
            os.chmod(real, 0o640)
        self.real = real
        self.go = OPS[self.op](self.path, self.n)
        self.old = self.read()
        return self

    def read(self):
        try:
            with open(self.path, 'rb') as fp:
                return fp.read()
        except FileNotFoundError:
            return None

    def arm(self, mode, k, err=0, keep=0):
        LIB.fsf_arm(self.dir.encode(), mode, k, err, ctypes.c_long(keep))

    def forked(self, mode, k, err=0, keep=0):
        pid = os.fork()
        if pid == 0:
            try:
                self.arm(mode, k, err, keep)
                self.go()
            except BaseException:
                os._exit(3)
            os._exit(4)
        _, st = os.waitpid(pid, 0)
        return st


def mask(data):
    """Documents compare as json (node ids and dates are not in them)."""
    return json.loads(data.decode('utf8'))


def fault_case(case, ctx):
    op, target, n = case
    tier = ctx.tier
    w = World(os.getcwd(), op, target, n).fresh()
    w.arm(COUNT, -1)
    r = w.go()
    total = LIB.fsf_disarm()
    trace = [(t.split(':')[0], int(t.split(':')[1]))
             for t in LIB.fsf_trace().decode().split()]
    expect(r is not None, 'save-not-reported', case)
    new = w.read()
    newdoc = mask(new)
    expect(new != w.old, 'nothing-saved')
    expect_eq(os.path.islink(w.path), target == 'link', 'link-kept')
    if target == 'link':
        expect_eq(os.path.realpath(w.path), w.real, 'link-target')
    if target == 'mode':
        expect_eq(stat.S_IMODE(os.stat(w.path).st_mode), 0o640, 'mode-kept')
    expect(total == len(trace) and total > 0, 'trace', (total, trace))

    def whole(how):
        got = w.read()
        if got == w.old:
            return 'old'
        expect(got is not None, 'file-lost', (how, trace))
        try:
            ok = mask(got) == newdoc
        except ValueError:
            ok = False
        expect(ok, 'torn-file', lambda: '%r left %r... (%d bytes) %r' % (
            how, got[:60], len(got), trace))
        return 'new'

    for k in range(total):
        faults = [(KILL_BEFORE, 0, 0), (KILL_AFTER, 0, 0)]
        if trace[k][0] == 'write':
            faults += [(TORN_KILL, 0, kp) for kp in keeps(tier)]
        for mode, err, keep in faults:
            w.fresh()
            st = w.forked(mode, k, err, keep)
            expect(os.WIFSIGNALED(st), 'fault-not-reached', (mode, k, st))
            whole(('kill', mode, k, keep))
            ctx.nontrivial((case, mode, k, err, keep))
            ctx.count('faults')
            # and the file can be saved again afterwards
            if mode == KILL_AFTER:
                OPS['data'](w.path, w.n)()
                expect_eq(mask(w.read()), doc('NEW', w.n), 'save-after-crash')
        faults = [(FAIL, e, 0) for e in ERRORS]
        if trace[k][0] == 'write':
            faults += [(TORN_FAIL, ERRORS[0], kp) for kp in keeps(tier)]
            faults += [(SHORT, 0, kp) for kp in keeps(tier)]
        for mode, err, keep in faults:
            w.fresh()
            w.arm(mode, k, err, keep)
            try:
                ret, exc = w.go(), None
            except Exception as e:
                ret, exc = None, e
            finally:
                LIB.fsf_disarm()
            state = whole(('error', mode, k, err, keep, exc))
            if exc is None and ret is not None:
                expect_eq(state, 'new', 'silent-loss', (mode, k, err, trace))
            ctx.nontrivial((case, mode, k, err, keep))
            ctx.count('faults')
            OPS['data'](w.path, w.n)()
            expect_eq(mask(w.read()), doc('NEW', w.n), 'save-after-error')
    shutil.rmtree(w.dir)


def fault_cases(tier):
    for n in sizes(tier):
        for op in sorted(OPS):
            for t in TARGETS:
                if op == 'convert' and t == 'absent':
                    continue
                if op == 'cache' and t == 'nxtb':
                    pass
                yield op, t, n


# --------------------------------------------------- values json cannot write
BAD = {'object': lambda: object(), 'bytes': lambda: b'x',
       'set': lambda: {1}, 'nested': lambda: {'a': [1, object()]},
       'key': lambda: {(1, 2): 3}}
SITES = ['attr', 'attr-deep', 'world-attr', 'code', 'comment', 'meta',
         'position', 'override', 'alias', 'type']


def bad_case(case, ctx):
    site, bad, op = case
    w = World(os.getcwd(), 'layer', 'present', 3).fresh()
    v = BAD[bad]()
    if op == 'data':
        d = doc('NEW', 3)
        {'attr': lambda: d['nodes']['/aa']['attrs'].update(z={'value': v}),
         'meta': lambda: d.update(meta_data={'zz': v})}.get(
             site, lambda: d.update({site: v}))()
        go = lambda: nxt_io.save_file_data(d, w.path)
    elif op == 'cache':
        c = CacheLayer.load_from_layer_data(doc('NEW', 3))
        setattr(c.nodes['/aa'], 'zz', v)
        go = lambda: c.save(w.path)
    else:
        st = Session().load_file(w.path)
        layer = st._sub_layers[0]
        n = layer.lookup('/aa')
        from nxt import nxt_node
        I = nxt_node.INTERNAL_ATTRS
        if site == 'attr':
            st.node_setattr_data(n, 'q', layer, True, value=v)
        elif site == 'attr-deep':
            st.node_setattr_data(n, 'q', layer, True, value=[{'k': v}])
        elif site == 'world-attr':
            st.add_node_attr(layer.lookup('/'), 'q', {'value': v}, layer)
        elif site == 'code':
            setattr(n, I.COMPUTE, [v])
        elif site == 'comment':
            setattr(n, I.COMMENT, v)
        elif site == 'meta':
            layer.positions['/aa'] = v
        elif site == 'position':
            layer.collapse['/aa'] = v
        elif site == 'override':
            layer.set_mute_over('x.nxt', v)
        elif site == 'alias':
            layer.alias = v
        elif site == 'type':
            setattr(n, 'tag' + nxt_node.META_ATTRS.TYPE, v)
        go = lambda: layer.save(w.path)
    try:
        ret, exc = go(), None
    except Exception as e:
        ret, exc = None, e
    got = w.read()
    if got != w.old:
        try:
            mask(got)
        except ValueError:
            expect(False, 'torn-file', (exc, got[:80]))
        expect(exc is None and ret is not None, 'failed-save-changed-file',
               (exc, got[:80]))
    else:
        expect(exc is not None or ret is None, 'silent-loss', ret)
    ctx.nontrivial((case, type(exc).__name__, got == w.old))


def bad_cases():
    for site in SITES:
        for bad in sorted(BAD):
            for op in ('layer', 'data', 'cache'):
                if op == 'cache' and site != 'attr':
                    continue
                yield site, bad, op


def parts(tier):
    return [('faults', lambda: fault_cases(tier), fault_case),
            ('unwritable', bad_cases, bad_case)]
