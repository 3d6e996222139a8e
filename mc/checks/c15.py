"""C15 only files this version can read are opened, and refusals are clean."""
import itertools
import json
import os
from mc import lib
from mc.core import expect, expect_eq
from nxt import nxt_io, legacy
from nxt.constants import GRAPH_VERSION
from nxt.session import Session
from nxt.stage import Stage
from nxt.nxt_layer import SpecLayer

LEVEL = 'exploration'
RULE = ('every major and minor version in the range, with and without a '
        'patch number, every malformed version, every file extension and '
        'broken content, through every way of loading.  Non-trivial: '
        'distinct (version or content, way, verdict)')
MA, MI = GRAPH_VERSION.MAJOR, GRAPH_VERSION.MINOR
MALFORMED = ['1', 'x', '1.x', 'x.1', '..', '1.', '.1', '1,2', 'v1.2', '1. 2x']
SUFFIX = ['', '.0', '.7', '.1.2', '.x']
WAYS = ['session', 'stage', 'layer', 'data', 'reference', 'convert',
        'replace', 'execute']


def BOUNDS(tier):
    return {'majors': [0, MA + 2], 'minors': [0, mtop(tier)],
            'suffixes': SUFFIX, 'malformed': MALFORMED, 'ways': WAYS}


def mtop(tier):
    return max(50, MI + 5) if tier == 'quick' else max(130, MI + 50)


def verdict(v):
    """'current', 'old' or 'refuse'."""
    if v in (None, ''):
        return 'current'
    f = v.split('.')
    try:
        ma, mi = int(f[0]), int(f[1])
    except (ValueError, IndexError):
        return 'refuse'
    if (ma, mi) > (MA, MI):
        return 'refuse'
    if ma == 0:
        return 'old' if mi >= 39 else 'refuse'
    return 'current' if (ma, mi) == (MA, MI) else 'old'


def document(v, tag='val'):
    if v and v.startswith('0.') and verdict(v) == 'old':
        d = {'alias': 'al', 'data': {}, 'children': [
            {'name': 'aa', 'execute_order': [], 'data': {
                'attributes': {'qq': {'value': tag, 'type': 'raw'}}}}]}
    else:
        d = {'alias': 'al',
             'nodes': {'/aa': {'attrs': {'qq': {'value': tag,
                                                'type': 'raw'}}}}}
    if v is not None:
        d['version'] = v
    return d


def way_case(case, ctx):
    v, way = case
    want = verdict(v)
    if want == 'current' and v in (None, '') and way in ('convert',
                                                         'replace'):
        return  # the converter reads them as pre release files
    for n in os.listdir('.'):
        os.remove(n)
    with open('doc.nxt', 'w') as fp:
        json.dump(document(v), fp)
    with open('top.nxt', 'w') as fp:
        json.dump({'version': lib.VERSION, 'references': ['doc.nxt'],
                   'nodes': {'/top': {}}}, fp)
    before = {n: open(n, 'rb').read() for n in os.listdir('.')}
    cwd = os.getcwd()
    s = Session()
    exc, val, written = None, None, None
    try:
        if way == 'session':
            st = s.load_file('doc.nxt')
        elif way == 'stage':
            st = Stage.load_from_filepath('doc.nxt')
        elif way == 'layer':
            layer = SpecLayer.load_from_filepath('doc.nxt')
            val = getattr(layer.lookup('/aa'), 'qq')
        elif way == 'data':
            d = nxt_io.load_file_data('doc.nxt')
            val = d['nodes']['/aa']['attrs']['qq']['value']
            expect_eq(d['filepath'], 'doc.nxt', 'filepath')
            expect_eq(d['real_path'], os.path.realpath('doc.nxt'),
                      'real-path')
        elif way == 'reference':
            st = s.load_file('top.nxt')
        elif way == 'execute':
            rt = s.execute_graph('doc.nxt', '/aa')
            val = getattr(rt.lookup('/aa'), 'qq')
        else:
            legacy.cli_file_convert('doc.nxt', way == 'replace')
            written = 'doc.nxt' if way == 'replace' else 'doc_CONVERTED.nxt'
            with open(written) as fp:
                d = json.load(fp)
            val = d['nodes']['/aa']['attrs']['qq']['value']
            expect(verdict(d.get('version')) != 'refuse', 'unreadable-output')
            st2 = Session().load_file(written)
            expect_eq(view(st2), ('val', 'raw'), 'converted-view')
        if way in ('session', 'stage', 'reference'):
            val = view(st)
            val = val and val[0]
    except Exception as e:
        exc = e
    refused = want == 'refuse'
    if way == 'reference':
        expect(exc is None or v in MALFORMED or not isinstance(exc, IOError),
               'reference-load', repr(exc))
        refused = refused or exc is not None
        if exc is None:
            expect_eq(val, None if refused else 'val', 'reference-view')
            expect_eq(len(st._sub_layers), 1 if refused else 2,
                      'reference-layers')
            expect(st.build_stage().lookup('/top') is not None, 'top-lost')
        else:
            expect(want == 'refuse', 'refused', repr(exc))
    elif refused:
        expect(exc is not None, 'not-refused', (v, val))
        expect_eq(s.loaded_files, {}, 'half-loaded')
        if v not in MALFORMED:
            expect(isinstance(exc, IOError), 'error-kind', repr(exc))
    else:
        expect(exc is None, 'refused', repr(exc))
        expect_eq(val, 'val', 'value')
    now = os.getcwd()
    os.chdir(cwd)
    expect_eq(now, cwd, 'cwd')
    after = {n: open(n, 'rb').read() for n in os.listdir('.')}
    if written:
        after.pop(written)
        before.pop(written, None)
    expect_eq(after, before, 'files-touched')
    ctx.nontrivial((v, way, want))


def view(st):
    comp = st.build_stage()
    n = comp.lookup('/aa')
    if n is None:
        return None
    d = st.get_node_attr_data(n, 'qq', comp)
    return d['value'], d['type']


def way_cases(tier):
    vs = [None, ''] + MALFORMED
    for ma in range(0, MA + 3):
        for mi in range(0, mtop(tier) + 1):
            vs.append('%d.%d' % (ma, mi))
    for ma, mi in ((MA, MI), (MA, MI - 1), (MA, MI + 1), (0, 38), (0, 39),
                   (0, 45), (MA + 1, 0), (1, 0), (1, 9), (1, 10)):
        for sfx in SUFFIX[1:]:
            vs.append('%d.%d%s' % (ma, mi, sfx))
    return itertools.product(vs, WAYS)


# ------------------------------------------------- extensions and bad content
EXT = ['.nxt', '.nxtb', '.json', '', '.NXT', '.nxt.bak', '.nxt ', '.txt']
CONTENT = {'ok': json.dumps(document('%d.%d' % (MA, MI))), 'empty': '',
           'cut': json.dumps(document('%d.%d' % (MA, MI)))[:-9],
           'list': '[]', 'text': 'hello', 'null': 'null', 'missing': None,
           'dir': None, 'minimal': '{}'}


def content_case(case, ctx):
    ext, content, way = case
    import shutil
    for n in os.listdir('.'):
        (shutil.rmtree if os.path.isdir(n) else os.remove)(n)
    name = 'doc' + ext
    if content == 'dir':
        os.mkdir(name)
    elif content != 'missing':
        with open(name, 'w') as fp:
            fp.write(CONTENT[content])
    with open('top.nxt', 'w') as fp:
        json.dump({'version': lib.VERSION, 'references': [name],
                   'nodes': {'/top': {}}}, fp)
    ok = ext in ('.nxt', '.nxtb') and content in ('ok', 'minimal')
    s = Session()
    cwd = os.getcwd()
    try:
        if way == 'reference':
            st = s.load_file('top.nxt')
        elif way == 'data':
            nxt_io.load_file_data(name)
        else:
            st = s.load_file(name)
        exc = None
    except Exception as e:
        exc = e
    now = os.getcwd()
    os.chdir(cwd)
    expect_eq(now, cwd, 'cwd')
    if way == 'reference':
        if exc is None:
            expect_eq(len(st._sub_layers), 2 if ok else 1, 'layers')
        else:
            expect(not ok and content not in ('missing', 'dir'),
                   'refused', repr(exc))
            expect_eq(s.loaded_files, {}, 'half-loaded')
    else:
        expect_eq(exc is None, ok, 'verdict', repr(exc))
        if not ok:
            expect_eq(s.loaded_files, {}, 'half-loaded')
            if ext not in ('.nxt', '.nxtb') or content in ('missing', 'dir'):
                expect(isinstance(exc, IOError), 'error-kind', repr(exc))
    if content not in ('missing', 'dir'):
        with open(name) as fp:
            expect_eq(fp.read(), CONTENT[content], 'file-touched')
    ctx.nontrivial((case, exc is None))


def content_cases():
    return itertools.product(EXT, sorted(CONTENT), ('session', 'data',
                                                    'reference'))


def parts(tier):
    return [('versions', lambda: way_cases(tier), way_case),
            ('content', content_cases, content_case)]
