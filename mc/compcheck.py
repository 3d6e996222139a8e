"""Compare a composed stage with the reference composition model."""
import copy
from mc.core import expect, expect_eq, Violation
from mc import lib, refcomp
from nxt.nxt_layer import LayerReturnTypes as R
from nxt import nxt_node

A = nxt_node.INTERNAL_ATTRS
FIELD_ATTR = {'code': A.COMPUTE, 'comment': A.COMMENT, 'enabled': A.ENABLED,
              'execute_in': A.EXECUTE_IN, 'start_point': A.START_POINT,
              'instance': A.INSTANCE_PATH}
OUT_OF_SCOPE = (refcomp.Cycle, refcomp.Conflict, refcomp.C3Error)


def model(layers):
    """Reference composition, or the name of why it is out of scope."""
    try:
        return refcomp.Comp(layers)
    except OUT_OF_SCOPE as e:
        return type(e).__name__


def nodes(stage, comp, m):
    got = lib.node_paths(comp)
    want = {refcomp.S(t) for t in m.nodes}
    expect(got == want, 'node-set', lambda: 'extra %r missing %r' % (
        sorted(got - want), sorted(want - got)))
    gp = {p for p in got if getattr(comp.lookup(p), A.PROXY)}
    wp = {refcomp.S(t) for t in m.proxies}
    expect_eq(gp, wp, 'proxy-set')


def attrs(stage, comp, m, meta=True):
    for t in m.nodes:
        p = refcomp.S(t)
        n = comp.lookup(p)
        want = m.attr_names(t)
        names = list(stage.get_node_attr_names(n))
        expect_eq(sorted(names), sorted(want), 'attr-names', p)
        for a in want:
            v, ty, co, src = m.attr(t, a)
            g = stage.get_node_attr_value(n, a, comp, resolved=False)
            w = '' if v is None else v if v else str(v)
            expect(g == w and type(g) is type(w), 'attr-value',
                   lambda: '%s.%s got %r want %r; model order %r' % (
                       p, a, g, w, m.order(t)))
            if not meta:
                continue
            d = stage.get_node_attr_data(n, a, comp)
            expect(d['value'] == v and type(d['value']) is type(v),
                   'attr-data-value', lambda: '%s.%s got %r want %r' % (
                       p, a, d['value'], v))
            expect_eq(d.get('type'), ty, 'attr-type', (p, a))
            expect_eq(d.get('comment'), co, 'attr-comment', (p, a))
            expect_eq(tuple(stage.get_node_attr_source(n, a)), src,
                      'attr-source', (p, a))
        expect_eq(stage.get_node_attr_value(n, 'no_such', comp,
                                            resolved=False), '',
                  'undeclared-attr', p)


def fields(stage, comp, m):
    for t in m.nodes:
        p = refcomp.S(t)
        n = comp.lookup(p)
        want = m.fields(t)
        for f, at in FIELD_ATTR.items():
            if not t and f != 'code':
                continue
            g = getattr(n, at, None)
            w = want[f]
            if f == 'code':
                g = list(g or [])
            if f == 'instance' and not g and not w:
                continue
            expect(g == w, 'field-' + f, lambda: '%s got %r want %r' % (
                p, g, w))
        expect_eq(list(stage.get_node_code_lines(n, comp)), want['code'],
                  'code-lines', p)
        if not t:
            continue
        expect_eq(stage.get_node_comment(n), want['comment'], 'comment-api',
                  p)
        expect_eq(nxt_node.get_node_enabled(n), want['enabled'],
                  'enabled-api', p)
        expect_eq(stage.get_node_exec_in(n) or None,
                  want['execute_in'] or None, 'exec-in-api', p)
        expect_eq(getattr(n, A.NAME), t[-1], 'node-name', p)
        expect_eq(getattr(n, A.PARENT_PATH), refcomp.S(t[:-1]),
                  'node-parent', p)


def children(stage, comp, m):
    """Every node is reachable from its (nearest existing) parent, once."""
    for t in m.nodes:
        p = refcomp.S(t)
        if t:
            want = {refcomp.S(c) for c in m.nodes if m.parent_of(c) == t}
        else:
            want = {refcomp.S(c) for c in m.nodes if len(c) == 1}
        for ordered in (False, True):
            got = comp.children(p, R.Path, ordered=ordered)
            expect_eq(sorted(got), sorted(want), 'children', (p, ordered))
        if t:
            wd = {refcomp.S(c) for c in m.nodes
                  if len(c) > len(t) and c[:len(t)] == t}
            got = comp.descendants(p, R.Path)
            expect_eq(sorted(got), sorted(wd), 'descendants', p)


def full(layers, ctx, m=None, meta=True):
    """Build and compare everything.  Returns (stage, comp, model) or None
    when the document is outside the property's scope."""
    m = m or model(layers)
    if isinstance(m, str):
        ctx.count('out_of_scope_' + m)
        return None
    stage = lib.mk_stage(layers)
    comp = stage.build_stage()
    expect(not comp.failure, 'comp-failure', comp.failure)
    nodes(stage, comp, m)
    attrs(stage, comp, m, meta)
    fields(stage, comp, m)
    children(stage, comp, m)
    return stage, comp, m
