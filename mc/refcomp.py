"""Reference model of layer composition, written from the documented rules.

A *document* is a list of layers, strongest first.  A layer is a dict
    {'path': real file path, 'nodes': {node_path: node}}
and a node is the saved-file dict: attrs{name:{value,type,comment}}, code,
comment, enabled, execute_in, start_point, instance, child_order.

Nothing here imports the code under test.
"""
FIELDS = ('code', 'comment', 'enabled', 'execute_in', 'start_point',
          'instance')


def T(path):
    return () if path == '/' else tuple(path[1:].split('/'))


def S(t):
    return '/' + '/'.join(t)


def has_op(v):
    return v is not None and v != []


def expand(rel, path):
    """Absolute tuple for the (possibly relative) node path text."""
    if rel.startswith('/'):
        return T(rel)
    cur = list(T(path))
    for d in rel.split('/'):
        if d == '..':
            cur = cur[:-1]
        elif d not in ('', '.'):
            cur.append(d)
    return tuple(cur)


class Cycle(Exception):
    """The instance graph has a cycle or instances an ancestor."""


class Conflict(Exception):
    """A node below an instance names a different instance source itself."""


class C3Error(Exception):
    pass


def merge(seqs):
    seqs = [list(s) for s in seqs if s]
    out = []
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in o[1:] for o in seqs):
                break
        else:
            raise C3Error()
        out.append(h)
        seqs = [[x for x in s if x != h] for s in seqs]
        seqs = [s for s in seqs if s]
    return out


class Comp(object):
    """Composed view of a list of layers (strongest first)."""
    def __init__(self, layers):
        self.layers = layers
        self.specs = {}     # tuple path -> [layer index], strongest first
        for i, l in enumerate(layers):
            for p in l['nodes']:
                self.specs.setdefault(T(p), []).append(i)
        self.nodes = set(self.specs)
        self.field = {}
        for t in self.specs:
            for f in FIELDS:
                v = None
                for i in self.specs[t]:
                    v = self.layers[i]['nodes'][S(t)].get(f)
                    if has_op(v):
                        break
                    v = None
                self.field[t, f] = v
        if any(v == '' for (t, f), v in self.field.items()
               if f == 'instance'):
            # A blank instance path only cuts mirroring short; a graph that
            # would be cyclic without the cut is out of scope too.
            self._discover(ignore_blank=True)
        self._discover()
        self._linearize()

    # -- instances --------------------------------------------------------
    def _discover(self, ignore_blank=False):
        """Close the node set under 'an instance mirrors its source'."""
        self.inst, self.blocked, self.proxies = {}, set(), set()
        self.nodes = set(self.specs)
        implied = set()     # mirrored paths that exist only by implication
        for t in self.specs:
            v = self.field[t, 'instance']
            if v:
                self.inst[t] = expand(v, S(t))
            elif v == '' and not ignore_blank:
                self.blocked.add(t)
        explicit = dict(self.inst)
        changed = True
        rounds = 0
        while changed:
            rounds += 1
            if rounds > 60 or any(len(t) > 9 for t in self.inst):
                raise Cycle()   # unbounded mirroring
            changed = False
            self._check_acyclic()
            every = self.nodes | implied
            imp_every = set()
            for t in every:
                for k in range(1, len(t) + 1):
                    imp_every.add(t[:k])
            for t, src in sorted(self.inst.items()):
                for c in sorted(imp_every):
                    if len(c) != len(src) + 1 or c[:-1] != src:
                        continue
                    tgt = t + (c[-1],)
                    if tgt in self.blocked:
                        continue
                    if tgt in explicit and explicit[tgt] != c:
                        raise Conflict()
                    if self.inst.get(tgt) != c:
                        if tgt in self.inst:
                            raise Conflict()
                        self.inst[tgt] = c
                        changed = True
                    if c in self.nodes:
                        if tgt not in self.nodes:
                            self.nodes.add(tgt)
                            self.proxies.add(tgt)
                            implied.discard(tgt)
                            changed = True
                    elif tgt not in self.nodes and tgt not in implied:
                        implied.add(tgt)
                        changed = True
        self.implied = implied

    def _check_acyclic(self):
        for t in self.inst:
            seen = set()
            cur = t
            while cur in self.inst:
                if cur in seen:
                    raise Cycle()
                seen.add(cur)
                src = self.inst[cur]
                if cur[:len(src)] == src or t[:len(src)] == src or \
                        src[:len(t)] == t:
                    raise Cycle()
                cur = src

    # -- attribute lookup order -------------------------------------------
    def parent_of(self, t):
        """Nearest existing ancestor, the world node when there is one."""
        if not t:
            return None
        for k in range(len(t) - 1, -1, -1):
            if t[:k] in self.nodes:
                return t[:k]
        return None

    def depth(self, t):
        n = 0
        while t in self.inst and self.inst[t] in self.nodes:
            t = self.inst[t]
            n += 1
        return n

    def _linearize(self):
        self.bases = {}
        for t in self.nodes:
            b = [('s', i, t) for i in self.specs.get(t, ())]
            if not b:
                b = [('p', 0, t)]
            p = self.parent_of(t)
            if p is not None:
                b.append(('c', 0, p))
            self.bases[t] = b
        for t in sorted(self.nodes, key=lambda x: (self.depth(x), x)):
            src = self.inst.get(t)
            if src is None or src not in self.nodes or src == ():
                continue
            base = ('c', 0, src)
            if base in self.bases[t]:
                continue
            reach = set()
            for b in self.bases[src]:
                reach |= set(self.mro(b))
            self.bases[t] = [b for b in self.bases[t]
                             if b not in reach] + [base]
            self.mro(('c', 0, t))
        for t in self.nodes:
            self.mro(('c', 0, t))

    def mro(self, item, _stack=()):
        if item[0] != 'c':
            return [item]
        if item in _stack:
            raise Cycle()       # a node would inherit from itself
        b = self.bases[item[2]]
        return [item] + merge([self.mro(x, _stack + (item,)) for x in b] +
                              [b])

    def order(self, t):
        """[(layer index, node tuple)] consulted for attributes of t."""
        return [(x[1], x[2]) for x in self.mro(('c', 0, t)) if x[0] == 's']

    # -- observations -----------------------------------------------------
    def attr_names(self, t):
        out = set()
        for i, u in self.order(t):
            out |= set(self.layers[i]['nodes'][S(u)].get('attrs', {}))
        return out

    def attr(self, t, name):
        """(value, type, comment, (layer path, node path)) or None."""
        val = src = typ = com = None
        found = False
        for i, u in self.order(t):
            a = self.layers[i]['nodes'][S(u)].get('attrs', {}).get(name)
            if a is None:
                continue
            if not found:
                found = True
                val = a.get('value')
                src = (self.layers[i]['path'], S(u))
            if typ is None and 'type' in a:
                typ = a['type']
            if com is None and 'comment' in a:
                com = a['comment']
        return (val, typ, com, src) if found else None

    def fields(self, t):
        out = {}
        for f in FIELDS:
            out[f] = self.field.get((t, f))
        out['instance'] = S(self.inst[t]) if t in self.inst else \
            self.field.get((t, 'instance'))
        for f in ('code', 'comment', 'enabled'):
            cur, hops = t, 0
            while not has_op(out[f]) and cur in self.inst and \
                    self.inst[cur] in self.nodes:
                cur = self.inst[cur]
                out[f] = self.field.get((cur, f))
                hops += 1
        if out['code'] is None:
            out['code'] = []
        return out
