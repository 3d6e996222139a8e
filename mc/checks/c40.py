"""C40 an open view follows adding and deleting nodes."""
import itertools
from mc import lib, docgen
from mc.core import expect, expect_eq
from nxt.nxt_layer import LayerReturnTypes as R

LEVEL = 'model_checking'
RULE = ('every stack of one or two (thorough: three) layers of plain nodes '
        'over a hierarchy, with and without a pair of nodes elsewhere that '
        'instance one another; every sequence of additions and deletions, up '
        'to the depth bound, on any layer, made with the composed view '
        'given; after each step the view and its queries are compared with '
        'composing anew.  State: documents after the edits')
ASSUME = ['no node that is edited, nor a relative of it, is instanced or an '
          'instance',
          'the parent of every node is there',
          'order of children is compared in graphs of a single layer']
CASE_TIMEOUT = 120
PATHS = ['/aa', '/aa/cc', '/aa/cc/dd', '/aaa']
SPOTS = [('/', 'aa'), ('/', 'bb'), ('/', 'new'), ('/aa', 'cc'),
         ('/aa', 'new'), ('/aa/cc', 'dd'), ('/aaa', 'cc'),
         ('/aa/cc/dd', 'ee')]
DATA = [{}, {'code': ['fresh'], 'enabled': False,
             'attributes': {'vv': {'value': 'fresh'},
                            'ww': {'value': '1', 'type': 'int'}}},
        {'children': [{'name': 'dd', 'code': ['child']},
                      {'name': 'kid', 'children': [{'name': 'sub'}]}],
         'execute_in': '/aaa', 'comment': 'said'}]
INST = {'/ii': {'code': ['ii'], 'attrs': {'vv': {'value': 'ii'}}},
        '/ii/kk': {}, '/jj': {'instance': '/ii'}}


def BOUNDS(tier):
    return {'paths': len(PATHS), 'layers': 2 if tier == 'quick' else 3,
            'sequence': 2 if tier == 'quick' else 3, 'data': len(DATA)}


def build(skels, inst):
    layers = []
    for li, s in enumerate(skels):
        nodes = docgen.skeleton(PATHS, s)
        for i, p in enumerate(sorted(nodes)):
            nodes[p]['attrs'] = {'vv': {'value': '%d%s' % (li, p)},
                                 'x%d' % li: {'value': '1', 'type': 'int'}}
            if (i + li) % 2 == 0:
                nodes[p]['code'] = ['code %d%s' % (li, p)]
            if (i + li) % 3 == 0:
                nodes[p]['enabled'] = bool(li)
            if (i + li) % 3 == 1:
                nodes[p]['execute_in'] = '/aaa'
                nodes[p]['comment'] = 'c%d%s' % (li, p)
        if inst:
            nodes.update(INST if li == 0 else {'/jj': {'code': ['jj']}})
        layers.append({'path': docgen.lp(li), 'nodes': nodes})
    return layers


def edits(stage):
    for li, layer in enumerate(stage._sub_layers):
        for parent, name in SPOTS:
            p = parent.rstrip('/') + '/' + name
            for k in range(len(DATA)):
                if layer.lookup(p) is None:
                    yield 'add', li, parent, name, k
                elif k == 0:
                    # The name is taken: another is made
                    yield 'add', li, parent, name, k
        for p in PATHS + ['/new', '/aa/new']:
            if layer.lookup(p):
                yield 'delete', li, p, False
                yield 'delete', li, p, True
                if len(stage._sub_layers) == 1:
                    names = sorted(n.rpartition('/')[2] for n in
                                   layer.children(p, R.Path))
                    for order in (names, names[::-1]):
                        if len(names) > 1:
                            yield 'order', li, p, order


def copy_data(d):
    return {k: [copy_data(c) for c in v] if k == 'children' else
            (list(v) if isinstance(v, list) else v) for k, v in d.items()}


def taken(stage, e):
    return e[0] == 'add' and stage._sub_layers[e[1]].lookup(
        e[2].rstrip('/') + '/' + e[3]) is not None


def apply(stage, comp, e):
    layer = stage._sub_layers[e[1]]
    if e[0] == 'add':
        data = copy_data(DATA[e[4]])
        stage.add_node(name=e[3], data=data, parent=e[2], layer=layer,
                       fix_names=taken(stage, e),
                       comp_layer=comp)
    elif e[0] == 'order':
        stage.set_node_child_order(layer.lookup(e[2]), list(e[3]), layer,
                                   comp)
    else:
        stage.delete_node(layer.lookup(e[2]), layer, comp,
                          delete_descendants=e[3])


def view(stage, comp):
    out = lib.observe_comp(stage, comp)
    paths = sorted(out)
    for p in paths:
        q = out[p]
        q['lookup'] = comp.get_node_path(comp.lookup(p))
        q['exists'] = comp.node_exists(p)
        q['children'] = sorted(comp.children(p, R.Path))
        q['children-again'] = sorted(comp.children(p, R.Path))
        q['children-implied'] = sorted(comp.children(p, R.Path,
                                                     include_implied=True))
        q['descendants'] = sorted(comp.descendants(p, R.Path))
        q['ancestors'] = list(comp.ancestors(p, R.Path))
    out['roots'] = {'roots': sorted(comp.children('/', R.Path))}
    out['missing'] = {'missing': [bool(comp.lookup(p)) for p in
                                  PATHS + ['/new', '/aa/new', '/zz']]}
    return out


def run(case, ctx):
    skels, inst, depth = case
    layers = build(skels, inst)

    def replay(plan):
        stage = lib.mk_stage(layers)
        comp = stage.build_stage()
        for e in plan:
            view(stage, comp)       # fill the caches a view keeps
            apply(stage, comp, e)
        return stage, comp

    def explore(plan):
        stage, comp = replay(plan)
        if plan:
            ctx.transition()
            if not check(stage, comp, plan, case, ctx):
                return
            made = lib.docs(stage)
            ctx.state(made)
            if len(plan) == 1:
                without = lib.mk_stage(layers)
                if not taken(without, plan[0]):
                    apply(without, None, plan[0])
                    expect_eq(lib.docs(without), made, 'documents',
                              (case, plan))
        if len(plan) == depth:
            ctx.trace()
            return
        for e in list(edits(stage)):
            if plan and not related(plan[-1], e):
                continue
            explore(plan + (e,))
    if whole(layers_paths(layers)):
        explore(())


KEY = [('', '', '', ''), (None, None, None, None), ('', '', None, None)]


def layers_paths(layers):
    return {p for l in layers for p in l['nodes']}


def related(a, b):
    """Pairs about different families, in a given order, are kept once."""
    fam = [x[2].split('/')[1] or x[3] if x[0] == 'add' else
           x[2].split('/')[1] for x in (a, b)]
    return fam[0] == fam[1] or fam[0] < fam[1]


def check(stage, comp, plan, case, ctx):
    fresh = stage.build_stage()
    want = view(stage, fresh)
    if not whole(want):
        ctx.count('out_of_scope')
        return False
    got = view(stage, comp)
    expect_eq(sorted(got), sorted(want), 'nodes', (case, plan))
    for p in want:
        for f in want[p]:
            if f == 'child_order' and len(stage._sub_layers) > 1:
                continue
            expect(got[p][f] == want[p][f], 'stale-' + f,
                   lambda: '%s got %r want %r %r' % (
                       p, got[p][f], want[p][f], (case, plan)))
    return True


def whole(nodes):
    return all(p.rpartition('/')[0] == '' or p.rpartition('/')[0] in nodes
               for p in nodes)


def parts(tier):
    def gen():
        sk = list(itertools.product(*[(None, '')] * len(PATHS)))
        for s in sk:
            for inst in (False, True):
                yield (s,), inst, 2 if tier == 'quick' else 3
        for a in sk:
            for b in sk:
                for inst in (False, True):
                    yield (a, b), inst, 1 if tier == 'quick' else 2
        for a, b in itertools.product(KEY, KEY):
            if a != b or tier != 'quick':
                yield (a, b), True, 2 if tier == 'quick' else 3
        if tier != 'quick':
            for a in sk:
                for b in sk:
                    for c in sk:
                        yield (a, b, c), True, 1
    return [('edits', gen, run)]
