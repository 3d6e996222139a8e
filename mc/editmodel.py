"""A document model of the edit operations of a stage.

A model is a list of layers (strongest first), each
{'path':, 'nodes': {path: node}, 'meta': {'positions': {}, 'collapse': {}}}.
Every operation is a tuple (kind, layer index, node path, ...).  `apply_real`
drives the stage, `apply_model` says what the documents must be afterwards.
Names the stage picks itself are read back and only judged (legal, unused,
the wished name whenever that is legal and free).
"""
import ast
import copy
import re
from mc import lib, refcomp
from mc.core import expect, expect_eq
from nxt.nxt_layer import LayerReturnTypes as R
from nxt.stage import Stage
from nxt import nxt_node

A = nxt_node.INTERNAL_ATTRS
FIELDS = ('code', 'comment', 'enabled', 'instance', 'execute_in',
          'start_point', 'child_order')


def parent(p):
    return p.rsplit('/', 1)[0] or '/'


def name(p):
    return p.rsplit('/', 1)[1]


def join(p, n):
    return '/' + n if p == '/' else p + '/' + n


def is_under(p, a):
    return p != a and p != '/' and (a == '/' or p.startswith(a + '/'))


def depth(p):
    return 0 if p == '/' else p.count('/')


def node(**kw):
    """Spelled like a saved node; returns the canonical form."""
    return canon(kw)


def canon(d):
    out = {'attrs': {}}
    for k, v in (d.get('attrs') or {}).items():
        out['attrs'][k] = {s: v[s] for s in ('value', 'type', 'comment')
                           if v.get(s) is not None}
    for f in FIELDS:
        v = d.get(f)
        out[f] = list(v) if f in ('code', 'child_order') and v else \
            [] if f in ('code', 'child_order') else v
    return out


def saved(n):
    """Canonical node -> document form."""
    d = {}
    if n['attrs']:
        d['attrs'] = copy.deepcopy(n['attrs'])
        for v in d['attrs'].values():
            if v.get('type') == '*':
                v.pop('type')
    for f in FIELDS:
        if n[f] not in (None, []):
            d[f] = copy.deepcopy(n[f])
    return d


def complete(nodes):
    """What loading adds: children missing from their parent's order."""
    for p in sorted(nodes):
        if p == '/':
            continue
        q = parent(p)
        if q != '/' and q in nodes and \
                name(p) not in nodes[q]['child_order']:
            nodes[q]['child_order'].append(name(p))
    return nodes


def start_model(layers):
    """layers: [{'path', 'nodes': {path: kwargs}, 'positions', 'collapse'}]"""
    out = []
    for l in layers:
        nodes = complete({p: canon(n) for p, n in l['nodes'].items()})
        out.append({'path': l['path'], 'nodes': nodes,
                    'meta': {'positions': dict(l.get('positions', {})),
                             'collapse': dict(l.get('collapse', {}))}})
    return out


def as_layers(model):
    return [{'path': l['path'],
             'nodes': {p: saved(n) for p, n in l['nodes'].items()},
             'meta_data': copy.deepcopy(l['meta'])} for l in model]


def mk(model):
    return lib.mk_stage(as_layers(model))


def comp_paths(model):
    """All paths the composed view has (None: out of scope)."""
    try:
        c = refcomp.Comp(as_layers(model))
    except (refcomp.Cycle, refcomp.Conflict, refcomp.C3Error):
        return None
    return {refcomp.S(t) for t in c.nodes}


def type_of(v):
    """The type an attribute has after its value was set."""
    try:
        return type(ast.literal_eval(v)).__name__
    except (ValueError, SyntaxError, TypeError):
        return 'raw'


# -- judging ---------------------------------------------------------------
def legal(n):
    return re.match(r'^\w+\Z', n) is not None and not n[0].isdigit()


def read(layer):
    """Document of a real layer, canonical."""
    d = lib.plain(layer.get_save_data())
    md = d.get('meta_data', {})
    return ({p: canon(n) for p, n in d.get('nodes', {}).items()},
            {'positions': md.get('positions', {}),
             'collapse': md.get('collapse', {})})


def same_node(got, want):
    for f in FIELDS:
        if got[f] != want[f]:
            return '%s got %r want %r' % (f, got[f], want[f])
    if set(got['attrs']) != set(want['attrs']):
        return 'attrs got %r want %r' % (sorted(got['attrs']),
                                         sorted(want['attrs']))
    for a, w in want['attrs'].items():
        g = dict(got['attrs'][a])
        w = dict(w)
        if w.get('type') == '*':
            w.pop('type')
            g.pop('type', None)
        if repr(sorted(g.items())) != repr(sorted(w.items())):
            return 'attr %s got %r want %r' % (a, g, w)
    return None


def compare_docs(stage, model, case):
    for l, m in zip(stage._sub_layers, model):
        nodes, meta = read(l)
        expect(set(nodes) == set(m['nodes']), 'doc-nodes', lambda:
               '%s: extra %r missing %r after %r' % (
                   m['path'], sorted(set(nodes) - set(m['nodes'])),
                   sorted(set(m['nodes']) - set(nodes)), case))
        for p in nodes:
            why = same_node(nodes[p], m['nodes'][p])
            expect(not why, 'doc-node', lambda: '%s %s: %s after %r' % (
                m['path'], p, why, case))
        expect_eq(meta, m['meta'], 'doc-meta', case)


def compare_index(stage, model, case):
    """The layer's own queries agree with its document."""
    for l, m in zip(stage._sub_layers, model):
        nodes = set(m['nodes'])
        for p in nodes:
            n = l.lookup(p)
            expect(n is not None, 'lookup', (p, case))
            expect_eq(l.get_node_path(n), p, 'node-path', case)
            if p != '/':
                expect_eq(getattr(n, A.NAME), name(p), 'name-attr', case)
                expect_eq(getattr(n, A.PARENT_PATH), parent(p),
                          'parent-attr', case)
        real = nodes - {'/'}
        expect_eq(set(l.descendants('/', R.Path)), real, 'all-paths', case)
        implied = set()
        for p in real:
            while p != '/':
                implied.add(p)
                p = parent(p)
        for p in implied | {'/'}:
            kids = {q for q in real if parent(q) == p}
            got = l.children(p, R.Path)
            expect_eq(sorted(got), sorted(kids), 'children', (p, case))
            ik = {q for q in implied if parent(q) == p}
            got = l.children(p, R.Path, include_implied=True)
            expect_eq(sorted(set(got)), sorted(ik), 'implied-children',
                      (p, case))
            for n in l.children(p, R.Node):
                expect(l.get_node_path(n) in kids, 'child-nodes', (p, case))
            if p in m['nodes'] and p != '/':
                co = m['nodes'][p]['child_order']
                want = [n for n in co if join(p, n) in kids]
                got = [name(q) for q in l.children(p, R.Path, ordered=True)]
                expect_eq(got[:len(want)], want, 'ordered-children',
                          (p, case))
        for p in implied:
            under = {q for q in real if is_under(q, p)}
            got = l.descendants(p, R.Path, include_implied=True)
            expect(under <= set(got), 'descendants', (p, case))


def compare_comp(stage, model, ctx, case):
    """The edited stage composes like its documents say, and like a stage
    loaded from those documents."""
    from mc import compcheck
    layers = as_layers(model)
    m = compcheck.model(layers)
    if isinstance(m, str):
        ctx.count('out_of_scope_' + m)
        return False
    comp = stage.build_stage()
    expect(not comp.failure, 'comp-failure', (comp.failure, case))
    compcheck.nodes(stage, comp, m)
    # Attr types are the stage's business where an operation picked them.
    compcheck.attrs(stage, comp, m, meta=False)
    for t in m.nodes:
        p = refcomp.S(t)
        for a in m.attr_names(t):
            d = stage.get_node_attr_data(comp.lookup(p), a, comp)
            _, _, co, src = m.attr(t, a)
            expect_eq(d.get('comment'), co, 'comp-attr-comment', (p, a, case))
            expect_eq(tuple(stage.get_node_attr_source(comp.lookup(p), a)),
                      src, 'comp-attr-source', (p, a, case))
    compcheck.fields(stage, comp, m)
    compcheck.children(stage, comp, m)
    return True


def observe_all(stage, model, case, ctx, comp=True):
    compare_docs(stage, model, case)
    compare_index(stage, model, case)
    if comp:
        compare_comp(stage, model, ctx, case)


def reload_equal(stage, model, case):
    """Load the documents again: same documents, same queries."""
    layers = []
    for l, m in zip(stage._sub_layers, model):
        d = lib.plain(l.get_save_data())
        layers.append({'path': m['path'], 'nodes': d.get('nodes', {}),
                       'meta_data': d.get('meta_data', {})})
    st = lib.mk_stage(layers)
    want = copy.deepcopy(model)
    for m in want:
        complete(m['nodes'])
    compare_docs(st, want, ('reloaded', case))
    compare_index(st, want, ('reloaded', case))


# -- operations ------------------------------------------------------------
def move(nodes, old, new):
    for p in list(nodes):
        if p == old or is_under(p, old):
            q = new + p[len(old):]
            nodes[q] = nodes.pop(p)


def child_gone(nodes, p):
    """Take the name of the just removed or moved p off its parent's order,
    unless something is still beneath that name.  When the parent is implied
    the nearest real ancestor's order loses the branch once it is empty."""
    while True:
        if any(is_under(q, p) for q in nodes):
            return
        q = parent(p)
        if q == '/':
            return
        if q in nodes:
            co = nodes[q]['child_order']
            if name(p) in co:
                co.remove(name(p))
            return
        p = q


def child_new(nodes, p):
    q = parent(p)
    if q != '/' and q in nodes and name(p) not in nodes[q]['child_order']:
        nodes[q]['child_order'].append(name(p))


def judge_name(got, wish, parent_path, taken, case, implied=True):
    """implied: the path of a node that only has descendants may be taken
    (adding a node there makes it real)."""
    def used(p):
        return p in taken or (not implied and
                              any(is_under(q, p) for q in taken))
    expect(legal(got), 'illegal-name', (got, case))
    p = join(parent_path, got)
    expect(not used(p), 'name-taken', (p, case))
    if legal(wish) and not used(join(parent_path, wish)) and \
            wish != '__name__':
        expect_eq(got, wish, 'wished-name', case)


def taken_paths(model):
    """Paths that exist, composed or in any layer (incl. beneath them)."""
    t = comp_paths(model)
    if t is None:
        t = set()
    for l in model:
        t |= set(l['nodes'])
    return t


def occupied(nodes, p):
    return p in nodes or any(is_under(q, p) for q in nodes)


def apply(stage, model, op, case):
    """Perform op on the stage and on the model."""
    kind, li, path = op[:3]
    layer = stage._sub_layers[li]
    m = model[li]
    nodes = m['nodes']
    n = layer.lookup(path)
    if kind == 'add':
        # (add, li, parent, name, data)
        wish, data = op[3], op[4]
        taken = taken_paths(model)
        got, _ = stage.add_node(name=wish, data=copy.deepcopy(data),
                                parent=path, layer=li)
        expect_eq(len(got), 1, 'added-count', case)
        nm = getattr(got[0], A.NAME)
        judge_name(nm, wish, path, taken, case)
        nodes[join(path, nm)] = canon(data)
        child_new(nodes, join(path, nm))
    elif kind == 'delete':
        ok, gone = stage.delete_node(n, layer, delete_descendants=op[3])
        expect(ok, 'delete-refused', case)
        rm = [path] + ([q for q in nodes if is_under(q, path)]
                       if op[3] else [])
        expect_eq(sorted(gone), sorted(rm), 'deleted-paths', case)
        for q in rm:
            del nodes[q]
            for t in m['meta'].values():
                t.pop(q, None)
        if parent(path) in nodes:
            child_gone(nodes, path)
    elif kind == 'rename':
        wish = op[3]
        taken = taken_paths(model)
        new = stage.set_node_name(n, wish, layer)
        expect_eq(parent(new), parent(path), 'rename-parent', case)
        judge_name(name(new), wish, parent(path), taken, case, False)
        rename_model(model, li, path, new)
    elif kind == 'reparent':
        paths, to = path, op[3]
        ns = [layer.lookup(p) for p in paths]
        taken = taken_paths(model)
        res = stage.parent_nodes(ns, to, layer)
        now = list(paths)
        for i in range(len(paths)):
            old = now[i]
            new = layer.get_node_path(ns[i])
            if i:
                taken = taken_paths(model)
            expect_eq(parent(new), to, 'reparent-parent', case)
            judge_name(name(new), name(old), to, taken, case, False)
            move(nodes, old, new)
            child_gone(nodes, old)
            child_new(nodes, new)
            move(m['meta']['collapse'], old, new)
            if li:
                move(model[0]['meta']['collapse'], old, new)
            now = [new + q[len(old):] if q == old or is_under(q, old) else q
                   for q in now]
        expect_eq(sorted(res.values()), sorted(now), 'reparent-result', case)
    elif kind == 'duplicate':
        taken = taken_paths(model)
        made, _ = stage.duplicate_node(n, layer, descendants=op[3])
        made = [layer.get_node_path(x) for x in made]
        src = [path] + ([q for q in nodes if is_under(q, path)]
                        if op[3] else [])
        # Implied ancestors of the copy become real nodes.
        up = []
        q = parent(path)
        while q != '/' and parent(path) not in nodes:
            if q not in nodes:
                up.append(q)
            q = parent(q)
        for q in reversed(up):
            nodes[q] = canon({})
            child_new(nodes, q)
        made = [p for p in made if p not in up]
        new = min(made, key=depth)
        expect_eq(parent(new), parent(path), 'duplicate-parent', case)
        expect(legal(name(new)), 'illegal-name', (new, case))
        expect(new not in taken and not any(is_under(q, new) for q in taken),
               'name-taken', (new, case))
        dst = [new + q[len(path):] for q in src]
        expect_eq(sorted(made), sorted(dst), 'duplicate-paths', case)
        for q, r in zip(src, dst):
            nodes[r] = copy.deepcopy(nodes[q])
        child_new(nodes, new)
        # Copied children that the copied order doesn't list are added to it.
        real, _ = read(layer)
        for r in dst:
            co, got = nodes[r]['child_order'], real[r]['child_order']
            kids = [name(x) for x in dst if parent(x) == r]
            if got[:len(co)] == co and sorted(got[len(co):]) == sorted(
                    k for k in kids if k not in co):
                nodes[r]['child_order'] = list(got)
    elif kind == 'setattr':
        # (setattr, li, path, attr, {sub: value}, create)
        attr, vals, create = op[3:]
        if set(vals) == {'comment'} and attr in nodes[path]['attrs']:
            stage.node_setattr_comment(n, attr, layer, **vals)
        else:
            stage.node_setattr_data(n, attr, layer, create, **vals)
        at = nodes[path]['attrs']
        if attr not in at and not create:
            return
        fresh = attr not in at
        a = at.setdefault(attr, {})
        for k, v in vals.items():
            # Blanking drops the opinion; a new attr takes '' as it is.
            if v is None or isinstance(v, str) and v == '' and not fresh:
                a.pop(k, None)
            else:
                a[k] = v
        if 'value' in vals and 'type' not in vals:
            # On what there is the type follows the value
            a['type'] = '*' if fresh else type_of(vals['value'])
    elif kind == 'addattr':
        wish = op[3]
        got = stage.add_node_attr(n, wish, dict(op[4]), layer)
        at = nodes[path]['attrs']
        expect(got not in at, 'attr-taken', (got, case))
        expect(legal(got), 'illegal-attr', (got, case))
        if wish not in at:
            expect_eq(got, wish, 'wished-attr', case)
        at[got] = dict(op[4])
    elif kind == 'delattr':
        expect_eq(stage.delete_node_attr(n, op[3]), True, 'delattr', case)
        del nodes[path]['attrs'][op[3]]
    elif kind == 'renattr':
        before = dict(nodes[path]['attrs'])
        stage.rename_node_attr(n, op[3], op[4], layer)
        got = set(read(layer)[0][path]['attrs']) - (set(before) - {op[3]})
        expect_eq(len(got), 1, 'renattr', (sorted(got), case))
        new = got.pop()
        expect(new == op[3] or new not in before, 'attr-taken', (new, case))
        expect(legal(new), 'illegal-attr', (new, case))
        if op[4] not in before:
            expect_eq(new, op[4], 'wished-attr', case)
        nodes[path]['attrs'][new] = nodes[path]['attrs'].pop(op[3])
    elif kind == 'code':
        comp = stage.build_stage()
        if op[3]:
            stage.set_node_code_lines(n, list(op[3]), comp)
        else:
            stage.clear_code_lines(n)
        nodes[path]['code'] = list(op[3])
    elif kind == 'comment':
        stage.set_node_comment(n, op[3], layer)
        nodes[path]['comment'] = op[3]
    elif kind == 'exec_in':
        stage.set_node_exec_in(n, op[3], layer)
        nodes[path]['execute_in'] = op[3]
    elif kind == 'enabled':
        comp = stage.build_stage()
        stage.node_setattr_data(n, A.ENABLED, layer, False, comp,
                                value=op[3])
        nodes[path]['enabled'] = op[3]
    elif kind == 'start_point':
        stage.node_setattr_data(n, A.START_POINT, layer, False,
                                value=op[3])
        nodes[path]['start_point'] = op[3]
    elif kind == 'instance':
        stage.set_node_instance_path(n, op[3], layer)
        nodes[path]['instance'] = op[3]
    elif kind == 'order':
        stage.set_node_child_order(n, list(op[3]), layer)
        nodes[path]['child_order'] = list(op[3])
    elif kind == 'localize':
        localize(stage, model, li, path, case)
    elif kind == 'paste':
        paste(stage, model, li, path, op[3], case)
    elif kind in ('positions', 'collapse'):
        getattr(layer, kind)[path] = op[3]
        m['meta'][kind][path] = op[3]
    else:
        raise ValueError(kind)


def localize(stage, model, li, path, case):
    """Copy what the composed view shows of a node into a layer's own node."""
    layer = stage._sub_layers[li]
    nodes = model[li]['nodes']
    comp = stage.build_stage()
    src = comp.lookup(path)
    n = canon({'code': list(getattr(src, A.COMPUTE) or []),
               'comment': stage.get_node_comment(src),
               'enabled': getattr(src, A.ENABLED, None),
               'execute_in': stage.get_node_exec_in(src),
               'start_point': getattr(src, A.START_POINT, None),
               'instance': getattr(src, A.INSTANCE_PATH, None),
               'child_order': list(stage.get_node_child_order(src) or [])})
    local = set()
    for l in model:
        local |= set(l['nodes'].get(path, {}).get('attrs', {}))
    for a in local:
        d = stage.get_node_attr_data(src, a, comp)
        v = stage.get_node_attr_value(src, a, comp, resolved=False)
        n['attrs'][a] = {'type': '*'}
        if v not in ('', None):
            n['attrs'][a]['value'] = v
        if d.get('comment'):
            n['attrs'][a]['comment'] = d['comment']
    if path not in nodes:
        stage.add_node_hierarchy(path.strip('/').split('/'), parent=None,
                                 layer=layer)
        q = ''
        for part in path.strip('/').split('/'):
            q += '/' + part
            if q not in nodes:
                nodes[q] = canon({})
                child_new(nodes, q)
    old = nodes[path]
    for f in FIELDS:
        if n[f] in (None, []) and f != 'enabled':
            n[f] = old[f]
    for a, d in old['attrs'].items():
        n['attrs'].setdefault(a, d)
    nodes[path] = n
    target = layer.lookup(path)
    stage.transfer_node_data(target, layer, src, comp)
    expect(stage.get_node_source_layer(target) is layer,
           'localize-source-layer', case)
    expect_eq(getattr(target, A.PROXY), False, 'localize-proxy', case)


def paste(stage, model, li, path, dsts, case):
    """Give several nodes of a layer the data of one of its nodes."""
    layer = stage._sub_layers[li]
    nodes = model[li]['nodes']
    data = stage.get_node_data(layer.lookup(path), layer)
    src = copy.deepcopy(nodes[path])
    for dst in dsts:
        old = nodes[dst]
        new = copy.deepcopy(src)
        for f in FIELDS:
            if new[f] in (None, []) and f != 'enabled':
                new[f] = old[f]
        for a, d in old['attrs'].items():
            new['attrs'].setdefault(a, d)
        for a in src['attrs']:
            new['attrs'][a] = dict(new['attrs'][a], type='*')
            if new['attrs'][a].get('comment') == '':
                # A blank text set by an edit is no opinion
                new['attrs'][a].pop('comment')
        nodes[dst] = new
        stage.set_node_data(layer.lookup(dst), data, layer)


def rename_model(model, li, path, new):
    m = model[li]
    nodes = m['nodes']
    q = parent(path)
    if q != '/' and q in nodes:
        co = nodes[q]['child_order']
        if name(path) in co:
            co[co.index(name(path))] = name(new)
    move(nodes, path, new)
    move(m['meta']['collapse'], path, new)
    pos = m['meta']['positions']
    if path in pos:
        pos[new] = pos.pop(path)
    if li:
        top = model[0]['meta']
        if path in top['positions']:
            top['positions'][new] = top['positions'].pop(path)
        move(top['collapse'], path, new)


# -- starting documents ----------------------------------------------------
STARTS = {
    'plain': [{'path': '/v/a.nxt', 'nodes': {
        '/a': dict(attrs={'x': {'value': '1', 'type': 'int',
                                'comment': 'cx'}}, code=['pass'],
                   child_order=['bk', 'b'], comment='ca', start_point=True),
        '/a/b': dict(attrs={'y': {'value': 'two'}}, enabled=False),
        '/a/b/c': dict(code=['c = 1', 'd']),
        '/a/bk': dict(execute_in='/ab', attrs={'x': {'value': 'z',
                                                     'comment': 'own'}}),
        '/ab': dict(attrs={'x': {'value': 'dx'}})},
        'positions': {'/a': [1, 2], '/ab': [3, 4]},
        'collapse': {'/a': True, '/a/b': True}}],
    'implied': [{'path': '/v/a.nxt', 'nodes': {
        '/a': dict(attrs={'x': {'value': '1'}}, child_order=['b', 'be']),
        '/a/b/c': dict(code=['c']),
        '/a/b/f': dict(comment='f'),
        '/a/be': dict(attrs={'x': {'value': '2'}}),
        '/b/c': dict(comment='bc')},
        'collapse': {'/a/b/c': True}}],
    'layers': [
        {'path': '/v/a.nxt', 'nodes': {
            '/a/b': dict(attrs={'x': {'value': 'top', 'comment': ''}}),
            '/ab': dict(code=['t'], child_order=['low', 'k']),
            '/ab/k': dict(comment='k')},
         'positions': {'/a': [0, 0]}, 'collapse': {'/ab': False}},
        {'path': '/v/b.nxt', 'nodes': {
            '/a': dict(attrs={'x': {'value': 'low'}},
                       child_order=['bc', 'b']),
            '/a/b': dict(code=['low']), '/a/bc': dict(enabled=True),
            '/ab/low': dict(comment='low')},
         'positions': {'/a': [5, 5]}, 'collapse': {'/a': True}}],
    'instance': [{'path': '/v/a.nxt', 'nodes': {
        '/s': dict(attrs={'x': {'value': 's'}}, child_order=['k', 'km']),
        '/s/k': dict(code=['sk']), '/s/k/q': dict(comment='q'),
        '/s/km': dict(),
        '/si': dict(instance='/s', comment='i'),
        '/si/k': dict(attrs={'o': {'value': 'over'}})}}],
}


# -- operation menus -------------------------------------------------------
def spots(model, li):
    return sorted(p for p in model[li]['nodes'] if p != '/')


def all_dirs(model, li):
    """Every real or implied path of a layer, and the world."""
    out = {'/'}
    for p in spots(model, li):
        while p != '/':
            out.add(p)
            p = parent(p)
    return sorted(out)


NEW_DATA = {'attrs': {'n': {'value': 'new'}}, 'code': ['new']}


def m_add(model, li, wishes=('b', 'new')):
    for p in all_dirs(model, li):
        for w in wishes:
            yield ('add', li, p, w, NEW_DATA if w == 'new' else {})


def m_delete(model, li):
    for p in spots(model, li):
        yield ('delete', li, p, False)
        yield ('delete', li, p, True)


def m_rename(model, li, wishes=('b', 'zz')):
    for p in spots(model, li):
        for w in wishes:
            if w != name(p):
                yield ('rename', li, p, w)


def m_reparent(model, li):
    ps = spots(model, li)
    ds = all_dirs(model, li)
    for p in ps:
        for d in ds:
            if d != parent(p) and d != p and not is_under(d, p):
                yield ('reparent', li, (p,), d)


def m_reparent2(model, li):
    ps = spots(model, li)
    ds = all_dirs(model, li)
    for p in ps:
        for q in ps:
            if p == q or is_under(q, p) or is_under(p, q):
                continue
            for d in ds:
                if all(d != parent(x) and d != x and not is_under(d, x)
                       for x in (p, q)):
                    yield ('reparent', li, (p, q), d)


def m_duplicate(model, li):
    for p in spots(model, li):
        yield ('duplicate', li, p, True)
        yield ('duplicate', li, p, False)


def m_content(model, li):
    for p in spots(model, li):
        n = model[li]['nodes'][p]
        ats = sorted(n['attrs'])
        yield ('setattr', li, p, 'x', {'value': 'X'}, True)
        if 'x' in n['attrs']:
            yield ('setattr', li, p, 'x', {'comment': 'K'}, True)
            yield ('setattr', li, p, 'x', {'type': 'float'}, False)
            yield ('setattr', li, p, 'x', {'value': '3', 'type': 'int',
                                           'comment': ''}, False)
        yield ('setattr', li, p, 'w', {'value': 'W'}, False)
        yield ('addattr', li, p, 'x', {'value': 'A', 'comment': 'ac'})
        for a in ats[:2]:
            yield ('delattr', li, p, a)
            yield ('renattr', li, p, a, 'r')
            yield ('renattr', li, p, a, 'x')
            yield ('setattr', li, p, a, {'value': ''}, False)
            yield ('setattr', li, p, a, {'comment': ''}, False)
        yield ('code', li, p, ('one', 'two'))
        yield ('code', li, p, ())
        yield ('comment', li, p, 'new comment')
        yield ('comment', li, p, None)
        yield ('exec_in', li, p, '/ab')
        yield ('enabled', li, p, False)
        yield ('enabled', li, p, None)
        yield ('start_point', li, p, True)
        kids = [name(q) for q in all_dirs(model, li) if q != '/' and
                parent(q) == p]
        yield ('order', li, p, tuple(reversed(kids)))
        if len(kids) > 1:
            yield ('order', li, p, tuple(kids))
        yield ('positions', li, p, [9, 9])
        yield ('collapse', li, p, True)


def m_instance(model, li):
    for p in spots(model, li):
        for s in spots(model, li):
            if s != p and not is_under(s, p) and not is_under(p, s):
                yield ('instance', li, p, s)
        yield ('instance', li, p, None)
        yield ('instance', li, p, '')


def m_paste(model, li):
    ps = spots(model, li)
    for p in ps:
        rest = [q for q in ps if q != p and not is_under(q, p)]
        yield ('paste', li, p, tuple(rest[:2]))
        if len(rest) > 1:
            yield ('paste', li, p, (rest[-1],))


def m_localize(model, li):
    """Nodes the composed view has, including ones other layers own."""
    for p in sorted(comp_paths(model) or ()):
        if p != '/':
            yield ('localize', li, p)

