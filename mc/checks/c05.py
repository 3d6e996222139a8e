"""C05 composing and asking questions changes nothing."""
import itertools
from mc import lib, docgen
from mc.core import expect, expect_eq
from nxt import DATA_STATE, nxt_node, nxt_path
from nxt.nxt_layer import LayerReturnTypes as R
from nxt.stage import (Stage, get_historical_opinions)
from nxt.nxt_layer import get_node_local_attr_names
from nxt import nxt_layer

LEVEL = 'model_checking'
RULE = ('every two layer document over a nested node universe with '
        'instances, written in several orders; every sequence of composing '
        'from each start layer and switching mute / solo flags up to the '
        'depth bound; every ordered pair of questions about every node: each '
        'composed view and each answer is compared with the one of an '
        'untouched stage, all documents with the written ones')
ASSUME = ['the caller does not write into the answers']
P = ['/aa', '/aa/bb', '/aaa', '/aaa/bb']
UNI = ['/', '/aa', '/aa/bb', '/aaa', '/aaa/bb', '/aaa/dd/ee', '/aa/zz',
       '/none/xx']


def BOUNDS(tier):
    return {'nodes': P, 'history': 3 if tier == 'quick' else 4,
            'questions': len(QUERIES), 'documents': len(DOCS)}


# -- documents -----------------------------------------------------------

def at(**kw):
    return {k: {'value': v} for k, v in kw.items()}


DOCS = {
    'nested': [
        {'/': {'attrs': at(ww='w'), 'code': ['world = 1']},
         '/aa': {'attrs': at(vv='1', tk='${vv}'),
                 'child_order': ['cc', 'bb'], 'start_point': True},
         '/aa/bb': {'attrs': at(own='${../vv}'), 'code': ['print(1)'],
                    'execute_in': '/aaa'},
         '/aaa': {'instance': '/aa', 'attrs': at(vv='2')}},
        {'/aa': {'attrs': at(vv='0', low='l'), 'comment': 'c'},
         '/aa/bb': {'enabled': False, 'attrs': at(bl='[1, 2]')},
         '/aaa/bb': {'attrs': at(cb='${file::x.txt}')}}],
    'chain': [
        {'/aa': {'instance': '/aaa'}, '/aa/bb': {'attrs': at(vv='t')},
         '/aaa': {'child_order': ['dd'], 'attrs': at(vv='${/aa.ii}')}},
        {'/aaa': {'attrs': at(ii='5', xx='')},
         '/aaa/bb': {'instance': '/aaa/dd', 'attrs': at(rr='${dd}')},
         '/aaa/dd/ee': {'code': ['${vv}', 'x = 2'], 'attrs': at(dd='1')},
         '/none/xx': {}}],
    'relative': [
        {'/aa': {'attrs': at(vv='${/aaa.vv}')},
         '/aa/bb': {'instance': '../../aaa', 'comment': 'inst'},
         '/aaa': {'enabled': False, 'execute_in': '/aa'},
         '/aaa/bb': {'attrs': at(path='${path::./y}', vv='3')}},
        {'/aaa': {'attrs': at(vv='9'), 'code': ['low']},
         '/aaa/dd/ee': {'instance': '/aaa/bb', 'start_point': True}},
        {'/': {'attrs': at(ww='${vv}')}, '/aaa/bb': {'comment': 'deep'},
         '/aa': {'instance': '/aaa/dd'}}],
    'blank': [
        {'/aa': {'instance': ''}, '/aaa': {'instance': '/aa',
                                          'child_order': ['none', 'bb']}},
        {'/aa': {'instance': '/none'}, '/aa/bb': {'attrs': at(q='q')},
         '/none/xx': {'attrs': at(n='1'), 'code': ['a']},
         '/aaa/bb': {'instance': ''}}],
    'one': [{'/aa': {'attrs': at(vv='${vv}', s='$', d='${none}'),
                     'code': ['# ${s}', '', 'self.vv']}}],
}


def copy_doc(o):
    return lib.plain(o) if not isinstance(o, dict) else {
        k: copy_doc(v) for k, v in o.items()}


def make(doc, order=None):
    out = []
    for i, nodes in enumerate(doc):
        nodes = {p: copy_doc(n) for p, n in nodes.items()}
        keys = list(nodes)
        if order == 'back':
            keys.reverse()
        elif order == 'turn':
            keys = keys[1:] + keys[:1]
        elif order == 'attrs':
            for n in nodes.values():
                a = n.get('attrs')
                if a:
                    n['attrs'] = {k: a[k] for k in reversed(list(a))}
        if order == 'fields':
            nodes = {p: {k: n[k] for k in reversed(list(n))}
                     for p, n in nodes.items()}
        out.append({'path': docgen.lp(i), 'alias': 'l%d' % i,
                    'nodes': {k: nodes[k] for k in keys}})
    return lib.mk_stage(out)


def observe(stage, comp):
    o = lib.observe_comp(stage, comp)
    o['/dirty'] = {p: sorted(set(comp.get_node_dirties(p)))
                   for p in lib.node_paths(comp) | {'/none', '/none/xx'}}
    return o


def same(got, want, sig, what):
    if got != want:
        diff = [(k, got.get(k), want.get(k)) for k in set(got) | set(want)
                if got.get(k) != want.get(k)]
        expect(False, sig, '%r: %r' % (what, diff[0]))


# -- order and repetition ------------------------------------------------

def skeleton_cases(tier):
    def cases():
        opts = [docgen.inst_options(P, p) for p in P]
        n = 2
        low = [[None, ''], [None, ''], [None, ''], [None, '', '/aa']]
        for up in itertools.product(*opts):
            lows = list(itertools.product(*low)) if tier != 'quick' else \
                [('', None, '', None), (None, '', None, ''),
                 ('', '', '', '/aa')]
            for c in lows:
                yield [list(up), list(c)]
    return cases


def run_skeleton(case, ctx):
    doc = []
    for i, c in enumerate(case):
        nodes = docgen.skeleton(P, c)
        for p, n in nodes.items():
            n['attrs'] = at(vv='%d%s' % (i, p))
            n['attrs']['o%d%s' % (i, p.replace('/', '_'))] = {
                'value': '${vv}'}
        doc.append(nodes)
    stage = make(doc)
    before = lib.docs(stage)
    comp = stage.build_stage()
    want = observe(stage, comp)
    expect_eq(lib.docs(stage), before, 'compose-changes-doc', case)
    low = observe(stage, stage.build_stage(1))
    same(observe(stage, stage.build_stage()), want, 'compose-again',
              case)
    same(observe(stage, comp), want, 'earlier-comp-changed', case)
    same(observe(stage, stage.build_stage(1)), low, 'compose-low-again',
              case)
    for order in ('back', 'turn', 'attrs', 'fields'):
        other = make(doc, order)
        oc = other.build_stage()
        if order in ('attrs', 'fields'):
            expect_eq(lib.docs(other), before, 'harness-order', order)
        same(observe(other, oc), want, 'written-order', (order, case))
    ctx.state(repr(case))
    ctx.trace()
    for _ in range(4):
        ctx.transition()


# -- composing histories -------------------------------------------------

STEPS = ['b0', 'b1', 'b2', 'm0', 'm1', 'm2', 's0', 's1', 's2', 'o1', 'o2']


def apply(stage, s, st):
    i = int(s[1])
    l = stage._sub_layers[i]
    if s[0] == 'm':
        l.set_muted(not l.get_muted(local=True))
    elif s[0] == 's':
        l.set_soloed(not l.get_soloed(local=True))
    elif s[0] == 'o':
        top = stage._sub_layers[0]
        top.set_mute_over(l.filepath, not l.get_muted())


def stage_of(name):
    stage = make(DOCS[name])
    for l in stage._sub_layers[1:]:
        l.parent_layer = stage._sub_layers[0]
    return stage


def run_history(case, ctx):
    name, steps = case
    n = len(DOCS[name])
    stage = stage_of(name)
    before = [d['nodes'] for d in lib.docs(stage)]
    done, seen = [], []
    for s in steps:
        if s[0] == 'b':
            comp = stage.build_stage(int(s[1]))
            got = observe(stage, comp)
            fresh = stage_of(name)
            for d in done:
                apply(fresh, d, None)
            want = observe(fresh, fresh.build_stage(int(s[1])))
            expect_eq(got, want, 'history', (done, s))
            seen.append((comp, got))
        else:
            apply(stage, s, None)
            done.append(s)
        ctx.transition()
    for comp, got in seen:
        same(observe(stage, comp), got, 'earlier-comp-changed', case)
    expect_eq([d['nodes'] for d in lib.docs(stage)], before,
              'doc-changed', case)
    ctx.state(repr((name, done)))
    ctx.trace()


def history_cases(tier):
    k = 3 if tier == 'quick' else 4
    def cases():
        for name in DOCS:
            n = len(DOCS[name])
            steps = [s for s in STEPS if int(s[1]) < n]
            for m in range(1, k + 1):
                for h in itertools.product(steps, repeat=m):
                    if h[-1][0] != 'b':
                        continue
                    yield name, list(h)
    return cases


# -- questions -----------------------------------------------------------

def plain(stage, o, depth=0):
    if isinstance(o, nxt_layer.SpecLayer):
        return '<layer %s>' % o.real_path
    if isinstance(o, type):
        return '<node %s %s>' % (nxt_path.join_node_paths(
            getattr(o, lib.A.PARENT_PATH) or '', getattr(o, lib.A.NAME)),
            len(o.__mro__))
    if isinstance(o, dict):
        return {'dict': sorted(((str(plain(stage, k)), plain(stage, v))
                                for k, v in o.items()), key=repr)}
    if isinstance(o, (list, tuple)):
        return [plain(stage, x) for x in o]
    if isinstance(o, (set, frozenset)):
        return sorted(repr(x) for x in o)
    return o


TYPES = [R.Path, R.Node, R.NodeTable, R.NameDict, R.PathDict, R.Boolean]


def questions():
    q = {}

    def add(name, fn, node=True, spec=False):
        q[name] = (fn, node)
    for r in TYPES:
        for o in (False, True):
            for i in (False, True):
                add('children %s %s %s' % (r, o, i), lambda s, c, p, n, r=r,
                    o=o, i=i: c.children(p, r, ordered=o, include_implied=i))
                add('descendants %s %s %s' % (r, o, i),
                    lambda s, c, p, n, r=r, o=o, i=i: c.descendants(
                        p, r, ordered=o, include_implied=i))
        if r not in (R.Boolean, R.NameDict):
            add('ancestors %s' % r, lambda s, c, p, n, r=r: c.ancestors(p, r)
                if n else None)
    add('lookup', lambda s, c, p, n: c.lookup(p))
    add('exists', lambda s, c, p, n: c.node_exists(p))
    add('exec order', lambda s, c, p, n: c.get_exec_order(p))
    add('root order', lambda s, c, p, n: c.get_root_exec_order(p)
        if n and p != '/' else None)
    add('exec in', lambda s, c, p, n: c.get_exec_in(p) if n else None)
    add('dirties', lambda s, c, p, n: sorted(c.get_node_dirties(p)))
    add('with opinion', lambda s, c, p, n: s.get_layers_with_opinion(p))
    add('unique name', lambda s, c, p, n: s.get_unique_node_name('bb', c, p))
    add('unique name low', lambda s, c, p, n: s.get_unique_node_name(
        'bb', s._sub_layers[-1], p))
    add('unique attr', lambda s, c, p, n: s.get_unique_attr_name(p, c, 'vv'))
    add('specs', lambda s, c, p, n: s.get_specs_at_path(p, s._sub_layers))
    add('top node', lambda s, c, p, n: s.get_top_node(n, c) if n else None)

    def on(name, fn):
        add(name, lambda s, c, p, n: fn(s, c, p, n) if n else None)
    on('attr names', lambda s, c, p, n: s.get_node_attr_names(n))
    on('instanced', lambda s, c, p, n: s.get_node_instanced_attr_names(n, c))
    on('inherited', lambda s, c, p, n: s.get_node_inherited_attr_names(n, c))
    on('local', lambda s, c, p, n: get_node_local_attr_names(
        p, s._sub_layers))
    on('data', lambda s, c, p, n: s.get_node_data(n, c))
    on('data all', lambda s, c, p, n: s.get_node_data(n, c, True))
    on('child order', lambda s, c, p, n: s.get_node_child_order(n))
    on('comment', lambda s, c, p, n: s.get_node_comment(n))
    on('node exec in', lambda s, c, p, n: s.get_node_exec_in(n))
    on('inst sources', lambda s, c, p, n: s.get_instance_sources(n, [], c))
    on('inst targets', lambda s, c, p, n: s.get_instance_targets(p, [], c))
    on('instance', lambda s, c, p, n: s.safe_get_node_instance(n, c))
    on('uncomped', lambda s, c, p, n: s.get_uncomped_opinion(n, 'vv'))
    on('stash', lambda s, c, p, n: s.stash_node(n))
    on('dict', lambda s, c, p, n: nxt_node.get_node_as_dict(n))
    on('spec', lambda s, c, p, n: s.get_node_spec(n))
    on('code sources', lambda s, c, p, n: s.get_node_code_external_sources(
        n, c))
    on('code object', lambda s, c, p, n: s.get_node_code(n, c)[1])
    for st in (DATA_STATE.RAW, DATA_STATE.RESOLVED, DATA_STATE.CACHED):
        on('code %s' % st, lambda s, c, p, n, st=st: s.get_node_code_lines(
            n, c, data_state=st))
        on('code text %s' % st, lambda s, c, p, n, st=st:
           s.get_node_code_string(n, c, data_state=st))

    def every(name, fn):
        on(name, lambda s, c, p, n: [fn(s, c, p, n, a) for a in
                                     s.get_node_attr_names(n) + ['nope']])
    every('value', lambda s, c, p, n, a: s.get_node_attr_value(n, a, c))
    every('raw', lambda s, c, p, n, a: s.get_node_attr_value(n, a, c, False))
    every('source', lambda s, c, p, n, a: s.get_node_attr_source(n, a))
    every('attr data', lambda s, c, p, n, a: s.get_node_attr_data(
        n, a, c, quiet=True))
    every('attr comment', lambda s, c, p, n, a: s.get_node_attr_comment(n, a))
    every('exists attr', lambda s, c, p, n, a: s.node_attr_exists(n, a))
    every('sources', lambda s, c, p, n, a: s.get_node_attr_external_sources(
        n, a, c))
    every('history', lambda s, c, p, n, a: [
        dict(h) for h in get_historical_opinions(n, a, c,
                                                 include_local=True)])
    on('real', lambda s, c, p, n: [
        s.get_attr_as_real_data_type(n, a, c)
        for a in s.get_node_attr_names(n)
        if s.get_node_attr_value(n, a, c, False) in ('1', '2', 't', 'w')])
    for d in (1, 2):
        on('lower %d' % d, lambda s, c, p, n, d=d: attrs(
            s, s.infer_lower_comp(n, c, depth=d)))

    def whole(name, fn):
        q[name] = (fn, False)
    whole('start nodes', lambda s, c, p, n: Stage.get_layer_start_nodes(c))
    whole('stash all', lambda s, c, p, n: s.get_stash_data(c))
    whole('save data', lambda s, c, p, n: lib.docs(s))
    whole('compose', lambda s, c, p, n: observe(s, s.build_stage()))
    whole('compose low', lambda s, c, p, n: observe(
        s, s.build_stage(len(s._sub_layers) - 1)))
    whole('runtime', lambda s, c, p, n: sorted(lib.node_paths(
        s.setup_runtime_layer())))
    whole('saved temp', lambda s, c, p, n: bool(s.save_to_temp(c)))
    whole('totals', lambda s, c, p, n: [l.get_muted() for l in
                                        s._sub_layers])
    return q


def attrs(stage, node):
    if node is None:
        return None
    return {a: (getattr(node, a), stage.get_node_attr_source(node, a))
            for a in stage.get_node_attr_names(node)}


QUERIES = questions()


def asks():
    out = []
    for name, (fn, node) in QUERIES.items():
        for p in (UNI if node else ['/']):
            out.append((name, p))
    return out


def ask(stage, comp, name, p):
    fn, _ = QUERIES[name]
    try:
        return plain(stage, fn(stage, comp, p, comp.lookup(p)))
    except Exception as e:
        return 'raised %s' % type(e).__name__


def answers(name, cache={}):
    """Every question to a stage of its own."""
    if name not in cache:
        got = {}
        for q, p in asks():
            stage = stage_of(name)
            got[q, p] = ask(stage, stage.build_stage(), q, p)
        cache[name] = got
    return cache[name]


def run_pair(case, ctx):
    name, q, p = case
    want = answers(name)
    stage = stage_of(name)
    docs = lib.docs(stage)
    comp = stage.build_stage()
    obs = observe(stage, comp)
    expect_eq(ask(stage, comp, q, p), want[q, p], 'answer', case)
    expect_eq(ask(stage, comp, q, p), want[q, p], 'answer-again', case)
    expect_eq(lib.docs(stage), docs, 'question-changes-doc', case)
    same(observe(stage, comp), obs, 'question-changes-comp', case)
    for (q2, p2), w in want.items():
        if q2 == 'saved temp' and q2 != q:
            continue
        got = ask(stage, comp, q2, p2)
        expect(got == w, 'answer-after', lambda: '%s %s after %s %s: %r, '
               'alone %r' % (q2, p2, q, p, got, w))
        ctx.transition()
    expect_eq(lib.docs(stage), docs, 'questions-change-doc', case)
    same(observe(stage, comp), obs, 'questions-change-comp', case)
    ctx.state(repr(case))
    ctx.trace()


def pair_cases(tier):
    def cases():
        for name in (DOCS if tier != 'quick' else
                     ('nested', 'chain', 'relative')):
            for q, p in asks():
                yield name, q, p
    return cases


def parts(tier):
    return [('orders', skeleton_cases(tier), run_skeleton),
            ('histories', history_cases(tier), run_history),
            ('questions', pair_cases(tier), run_pair)]
