"""Helpers to drive the real code and observe it through its public api."""
import copy
import json
import os

from nxt import nxt_layer, nxt_node, nxt_path
from nxt.stage import Stage
from nxt.nxt_layer import LayerReturnTypes

A = nxt_node.INTERNAL_ATTRS
VERSION = nxt_layer.GRAPH_VERSION.VERSION_STR


def layer_data(nodes, path, alias='l', **kw):
    d = {'version': VERSION, 'alias': alias, 'filepath': path,
         'real_path': path, 'nodes': json.loads(json.dumps(nodes))}
    d.update(kw)
    return d


def mk_stage(layers):
    """layers: [{'path':, 'nodes':, ...}] strongest first."""
    stage = Stage(name='mc')
    stage.remove_sublayer(0)
    for i, l in enumerate(layers):
        kw = {k: copy.deepcopy(v) for k, v in l.items()
              if k not in ('path', 'nodes')}
        stage.new_layer(i, layer_data(l['nodes'], l['path'], **kw))
    for i, layer in enumerate(stage._sub_layers):
        layer._layer_idx = i
    return stage


def docs(stage):
    """Save data of every layer, as plain data."""
    return [plain(l.get_save_data()) for l in stage._sub_layers]


def plain(o):
    if isinstance(o, dict):
        return {k: plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    return o


def node_paths(layer):
    return set(layer.descendants('/', LayerReturnTypes.Path)) | (
        {'/'} if layer.lookup('/') else set())


def raw_value(stage, comp, path, attr):
    return stage.get_node_attr_value(comp.lookup(path), attr, comp,
                                     resolved=False)


def observe_comp(stage, comp, attrs=None, order=True):
    """Everything a user can see of a composed layer, as plain data."""
    out = {}
    for p in sorted(node_paths(comp)):
        n = comp.lookup(p)
        o = {}
        names = [a for a in stage.get_node_attr_names(n)]
        o['attrs'] = {}
        for a in sorted(names):
            d = stage.get_node_attr_data(n, a, comp)
            o['attrs'][a] = (d.get('value'), d.get('type'),
                             d.get('comment'),
                             tuple(stage.get_node_attr_source(n, a)))
        o['code'] = list(stage.get_node_code_lines(n, comp))
        o['comment'] = stage.get_node_comment(n)
        o['enabled'] = nxt_node.get_node_enabled(n)
        o['execute_in'] = stage.get_node_exec_in(n)
        o['start_point'] = getattr(n, A.START_POINT, None)
        o['instance'] = getattr(n, A.INSTANCE_PATH, None)
        o['proxy'] = bool(getattr(n, A.PROXY, False))
        o['name'] = getattr(n, A.NAME)
        o['parent_path'] = getattr(n, A.PARENT_PATH)
        if order:
            o['child_order'] = list(stage.get_node_child_order(n))
        out[p] = o
    return out
