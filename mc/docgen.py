"""Systematic document generators."""
import itertools

ABSENT = None


def lp(i):
    return '/doc/l%d.nxt' % i


def declare(layers, masks='pairs'):
    """Give every declaring site (layer, node) its own attribute, and every
    pair (or subset) of sites a shared one, so the values found at a node
    spell out the complete order in which the sites are consulted."""
    sites = [(i, p) for i, l in enumerate(layers) for p in l['nodes']]
    if masks == 'all':
        groups = [g for n in range(1, len(sites) + 1)
                  for g in itertools.combinations(range(len(sites)), n)]
    else:
        groups = [g for n in (1, 2)
                  for g in itertools.combinations(range(len(sites)), n)]
        groups.append(tuple(range(len(sites))))
    for gi, g in enumerate(groups):
        for k in g:
            i, p = sites[k]
            layers[i]['nodes'][p].setdefault('attrs', {})['x%d' % gi] = {
                'value': '%d%s' % (i, p)}
    return layers


def skeleton(paths, choice):
    """choice[i]: None absent, '' plain, '!' explicit empty instance, else
    the instance path."""
    nodes = {}
    for p, c in zip(paths, choice):
        if c is None:
            continue
        nodes[p] = {}
        if c == '!':
            nodes[p]['instance'] = ''
        elif c:
            nodes[p]['instance'] = c
    return nodes


def inst_options(paths, p, plain=True):
    return [None] + ([''] if plain else []) + [q for q in paths if q != p]
