"""C21 node path algebra against tuples."""
import itertools
from mc.core import expect, expect_eq
from nxt import nxt_path as P

LEVEL = 'exploration'
RULE = ('every absolute node path up to the depth bound over names that are '
        'prefixes/repeats of one another, every pair and (for re-rooting) '
        'triple of them, every relative path up to the directive bound from '
        'every start; non-trivial = distinct (operation, arguments) whose '
        'result is not simply one of the arguments')
ASSUME = ['names contain no separator characters ("/" and "."), which node '
          'naming guarantees (C11)']


def B(tier):
    if tier == 'quick':
        return dict(names=['a', 'b', 'ab', 'aa', 'ba', '_', 'a1'], depth=3,
                    triple_depth=3, triple_names=['a', 'b', 'ab'],
                    directives=5, dir_alphabet=['..', '.', '', 'a', 'ab'])
    return dict(names=['a', 'b', 'ab', 'aa', 'ba', '_'], depth=4,
                triple_depth=3, triple_names=['a', 'b', 'ab', 'aa'],
                directives=7, dir_alphabet=['..', '.', '', 'a', 'ab'])


BOUNDS = B


def tups(names, depth):
    for d in range(depth + 1):
        for t in itertools.product(names, repeat=d):
            yield t


def s(t):
    return '/' + '/'.join(t)


def unary(t, ctx):
    p = s(t)
    if not t:
        expect_eq(P.get_parent_path(p), '', 'parent(world)')
        expect_eq(P.get_path_depth(p), 0, 'depth(world)')
        expect_eq(P.node_name_from_node_path(p), '/', 'name(world)')
        expect_eq(P.all_ancestor_paths(p), [], 'ancestors(world)')
        return
    ctx.nontrivial(p)
    expect_eq(P.get_parent_path(p), s(t[:-1]), 'parent', p)
    expect_eq(P.node_name_from_node_path(p), t[-1], 'name', p)
    expect_eq(P.get_path_depth(p), len(t), 'depth', p)
    expect_eq(P.get_root_path(p), s(t[:1]), 'root', p)
    expect_eq(P.str_path_to_node_namespace(p), list(t), 'namespace', p)
    expect_eq(P.node_namespace_to_str_path(list(t)), p, 'from_namespace', p)
    expect_eq(P.all_ancestor_paths(p),
              [s(t[:i]) for i in range(len(t) - 1, 0, -1)], 'ancestors', p)
    expect_eq(P.join_node_paths(s(t[:-1]), t[-1]), p, 'join', p)
    for k in range(len(t) + 1):
        expect_eq(P.join_node_paths(s(t[:k]), t[k:]),
                  p, 'join_many', (p, k))
    for k in range(len(t) + 2):
        expect_eq(P.trim_to_depth(p, k), s(t[:k]), 'trim', (p, k))
    expect(not P.is_attr_path(p), 'is_attr_path', p)
    expect_eq(P.path_attr_partition(p), (p, None), 'partition_node', p)
    for a in ('a', 'x', t[0], '_'):
        ap = P.make_attr_path(p, a)
        expect_eq(ap, p + '.' + a, 'make_attr_path')
        expect(P.is_attr_path(ap), 'is_attr_path2', ap)
        expect_eq(P.path_attr_partition(ap), (p, a), 'partition_attr', ap)
        expect_eq(P.node_path_from_attr_path(ap), p, 'attr_node', ap)
        expect_eq(P.attr_name_from_attr_path(ap), a, 'attr_name', ap)
        expect_eq(P.str_path_to_node_namespace(ap), list(t), 'attr_ns', ap)


def binary(case, ctx):
    a, b = case
    pa, pb = s(a), s(b)
    want = len(b) < len(a) and a[:len(b)] == b
    expect_eq(bool(P.is_ancestor(pa, pb)), want, 'is_ancestor', (pa, pb))
    if want:
        ctx.nontrivial(case)


def triple(case, ctx):
    a, old, new = case
    if a[:len(old)] == old:
        want = new + a[len(old):]
        ctx.nontrivial(case)
    else:
        want = a
    expect_eq(P.replace_ancestor(s(a), s(old), s(new)), s(want),
              'replace_ancestor', tuple(map(s, case)))


def rel(case, ctx):
    start, ds = case
    text = '/'.join(ds)
    if not text:
        expect_eq(P.expand_relative_node_path(text, s(start)), None,
                  'expand_empty')
        return
    if text.startswith('/'):
        # An absolute path is returned as it is.
        expect_eq(P.expand_relative_node_path(text, s(start)), text,
                  'expand_abs', case)
        return
    cur = list(start)
    for d in ds:
        if d == '..':
            cur = cur[:-1]
        elif d not in ('.', ''):
            cur.append(d)
    ctx.nontrivial(case)
    expect_eq(P.expand_relative_node_path(text, s(start)), s(cur),
              'expand_relative', (text, s(start)))
    # A relative attribute reference keeps its path and name apart.
    if ds[-1] in ('..', 'a', 'ab'):
        expect_eq(P.path_attr_partition(text + '.x'), (text, 'x'),
                  'relative_attr', text)


def parts(tier):
    b = B(tier)
    al = list(tups(b['names'], b['depth']))
    tr = list(tups(b['triple_names'], b['triple_depth']))
    st = list(tups(b['dir_alphabet'][3:], 2))

    def rels():
        for start in st:
            for n in range(1, b['directives'] + 1):
                for ds in itertools.product(b['dir_alphabet'], repeat=n):
                    yield start, ds
    return [('unary', lambda: iter(al), unary),
            ('pairs', lambda: itertools.product(al, al), binary),
            ('triples', lambda: itertools.product(tr, tr, tr), triple),
            ('relative', rels, rel)]
