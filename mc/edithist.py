"""Run every edit history up to a depth from the starting documents."""
import copy
from mc import editmodel as em
from mc.core import Violation


def menu(model, fns):
    for li in range(len(model)):
        for fn in fns:
            for op in fn(model, li):
                yield op


def starts(names, extra=None):
    src = dict(em.STARTS)
    src.update(extra or {})
    return {n: em.start_model(src[n]) for n in names}


def play(start, ops, ctx, check, known=()):
    """Replay ops on a fresh stage; `check(stage, model, case, last)` after
    each.  Returns the final (stage, model)."""
    model = copy.deepcopy(start)
    stage = em.mk(model)
    # Fill the stage's caches so that stale ones show.
    em.compare_index(stage, model, 'start')
    for i, op in enumerate(ops):
        case = ops[:i + 1]
        before = repr(model)
        em.apply(stage, model, op, case)
        last = i == len(ops) - 1
        if last:
            ctx.transition()
            ctx.trace()
            ctx.state((len(model), repr([(sorted(l['nodes'].items()),
                                          l['meta']) for l in model])))
            if repr(model) != before:
                ctx.nontrivial((repr(start), repr(case)))
        check(stage, model, case, last)
    return stage, model


def default_check(ctx, comp=True, reload=True):
    def check(stage, model, case, last):
        if not last:
            # checked in full by the shorter history
            em.compare_index(stage, model, case)
            return
        em.observe_all(stage, model, case, ctx, comp=comp)
        if reload:
            em.reload_equal(stage, model, case)
    return check


def model_after(start, ops):
    """The model alone cannot pick names, so play on a stage."""
    model = copy.deepcopy(start)
    stage = em.mk(model)
    for i, op in enumerate(ops):
        em.apply(stage, model, op, ops[:i + 1])
    return model


def extend(all_starts, second, check_of, limit=None):
    """case = (start name, prefix ops): the prefix and every extension by one
    operation of `second`."""
    def fn(case, ctx):
        sname, ops = case
        ops = [tuple(o) for o in ops]
        start = all_starts[sname]
        check = check_of(ctx)
        _, model = play(start, ops, ctx, check)
        for op in menu(model, second):
            if limit and not limit(ops, op):
                continue
            ctx.count('histories')
            play(start, ops + [op], ctx, check)
    return fn


def just(all_starts, check_of):
    def fn(case, ctx):
        sname, ops = case
        play(all_starts[sname], [tuple(o) for o in ops], ctx, check_of(ctx))
    return fn


def prefixes(all_starts, first):
    def gen():
        for sname, model in all_starts.items():
            for op in menu(model, first):
                yield sname, [op]
    return gen
