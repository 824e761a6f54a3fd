"""Independent Merkle Search Tree, from the atproto repository spec.

* build(): canonical tree for a mapping, straight from the definition.
* read_tree(): decodes a stored tree and checks it is the canonical one.
* Partial: tree over an incomplete block set, with insert / delete / update, to
  play a sync 1.1 consumer that inverts a commit's operations.
"""
import hashlib
import sys

from .cario import Link, cid_of, cid_str, decode, encode

sys.setrecursionlimit(max(sys.getrecursionlimit(), 5000))


def layer_of(key):
    h = hashlib.sha256(key.encode()).digest()
    n = 0
    for byte in h:
        if byte == 0:
            n += 4
            continue
        if byte < 4:
            n += 3
        elif byte < 16:
            n += 2
        elif byte < 64:
            n += 1
        break
    return n


def _prefix(a, b):
    n = 0
    for x, y in zip(a, b):
        if x != y:
            break
        n += 1
    return n


def encode_node(left, entries):
    """entries: [(key str, value cid, right cid or None)]"""
    out, last = [], b''
    for key, val, right in entries:
        kb = key.encode()
        p = _prefix(last, kb)
        out.append({'p': p, 'k': kb[p:], 'v': Link(val),
                    't': Link(right) if right else None})
        last = kb
    return encode({'l': Link(left) if left else None, 'e': out})


def build(mapping):
    """{key str: cid bytes} -> (root cid, {cid: node bytes})"""
    keys = sorted(mapping, key=str.encode)
    blocks = {}
    layers = {k: layer_of(k) for k in keys}

    def put(data):
        cid = cid_of(data)
        blocks[cid] = data
        return cid

    def node(keys, layer):
        subs, here, cur = [], [], []
        for k in keys:
            if layers[k] == layer:
                subs.append(cur)
                here.append(k)
                cur = []
            else:
                cur.append(k)
        subs.append(cur)
        ptrs = [node(s, layer - 1) if s else None for s in subs]
        return put(encode_node(ptrs[0], [(k, mapping[k], ptrs[i + 1])
                                         for i, k in enumerate(here)]))

    root = node(keys, max(layers.values()) if keys else 0)
    return root, blocks


class Invalid(ValueError):
    pass


class Missing(Invalid):
    def __init__(self, cid, why=''):
        self.cid = cid
        super().__init__(f'missing block {cid_str(cid)} {why}')


def parse_node(data):
    """-> (left cid or None, [(key, value cid, right cid or None)])"""
    obj = decode(data)
    if not isinstance(obj, dict) or set(obj) != {'l', 'e'}:
        raise Invalid(f'not an MST node: {obj}')
    last, entries = b'', []
    for e in obj['e']:
        if set(e) != {'p', 'k', 'v', 't'}:
            raise Invalid(f'bad entry {e}')
        if e['p'] > len(last):
            raise Invalid('prefix longer than previous key')
        kb = last[:e['p']] + e['k']
        if _prefix(last, kb) != e['p'] or (entries and kb <= last):
            raise Invalid(f'prefix not maximal or keys unsorted: {last} {kb}')
        entries.append((kb.decode(), e['v'].cid, e['t'].cid if e['t'] else None))
        last = kb
    return (obj['l'].cid if obj['l'] else None), entries


def path_to(mapping, key):
    """CIDs of the nodes from the root down to where key is or would be, then its value's."""
    cid, blocks = build(mapping)
    out = []
    while cid:
        out.append(cid)
        nxt, entries = parse_node(blocks[cid])
        for k, v, right in entries:
            if k == key:
                return out + [v]
            if k > key:
                break
            nxt = right
        cid = nxt
    return out


def read_tree(root, get):
    """Walks a stored tree.

    get(cid) -> bytes or None. Returns (mapping, set of node cids). Raises
    Invalid if it isn't the canonical tree of its mapping.
    """
    mapping, nodes = {}, set()

    def walk(cid):
        data = get(cid)
        if data is None:
            raise Missing(cid, '(MST node)')
        if cid_of(data) != cid:
            raise Invalid(f'node bytes do not hash to {cid_str(cid)}')
        nodes.add(cid)
        left, entries = parse_node(data)
        if left:
            walk(left)
        for k, v, right in entries:
            if k in mapping:
                raise Invalid(f'duplicate key {k}')
            mapping[k] = v
            if right:
                walk(right)

    walk(root)
    want, blocks = build(mapping)
    if want != root or set(blocks) != nodes:
        raise Invalid(f'tree is not canonical for its {len(mapping)} keys: root '
                      f'{cid_str(root)}, expected {cid_str(want)}')
    return mapping, nodes


class Partial:
    """Mutable tree over a block set that may lack subtrees.

    A subtree is None, ('stub', cid), or ['node', items] where items alternates
    subtree, (key, value), subtree, ..., subtree.
    """

    def __init__(self, root, blocks):
        self.blocks = blocks
        self.root = self._open(('stub', root))
        self.layer = self._layer(self.root)
        self.opened = 0

    def _open(self, sub):
        if sub is None or sub[0] == 'node':
            return sub
        cid = sub[1]
        data = self.blocks.get(cid)
        if data is None:
            raise Missing(cid, '(needed by consumer)')
        left, entries = parse_node(data)
        items = [('stub', left) if left else None]
        for k, v, right in entries:
            items += [(k, v), ('stub', right) if right else None]
        self.opened = getattr(self, 'opened', 0) + 1
        return ['node', items]

    def _layer(self, node):
        """Layer of the root. An entry-less root can only be the empty tree."""
        items = node[1]
        if len(items) == 1:
            if items[0] is not None:
                raise Invalid('root node has no entries but has a child')
            return 0
        return layer_of(items[1][0])

    def get(self, key):
        node = self.root
        while node is not None:
            node = self._open(node)
            items = node[1]
            for i in range(1, len(items), 2):
                if items[i][0] == key:
                    return items[i][1]
                if items[i][0].encode() > key.encode():
                    node = items[i - 1]
                    break
            else:
                node = items[-1]
        return None

    # path-copying is unnecessary: each consumer owns its tree
    def _split(self, sub, key):
        if sub is None:
            return None, None
        items = self._open(sub)[1]
        kb = key.encode()
        i = 1
        while i < len(items) and items[i][0].encode() < kb:
            i += 2
        l, r = self._split(items[i - 1], key)
        return self._norm(items[:i - 1] + [l]), self._norm([r] + items[i:])

    @staticmethod
    def _norm(items):
        return None if len(items) == 1 and items[0] is None else ['node', items]

    def _merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        ai, bi = self._open(a)[1], self._open(b)[1]
        return ['node', ai[:-1] + [self._merge(ai[-1], bi[0])] + bi[1:]]

    def insert(self, key, val):
        layer = layer_of(key)
        empty = self.root[1] == [None]
        if empty:
            self.root, self.layer = ['node', [None, (key, val), None]], layer
            return
        if layer > self.layer:
            l, r = self._split(self.root, key)
            for _ in range(layer - self.layer - 1):
                l = ['node', [l]] if l else None
                r = ['node', [r]] if r else None
            self.root, self.layer = ['node', [l, (key, val), r]], layer
            return
        self.root = self._insert(self.root, self.layer, key, val, layer)

    def _insert(self, sub, at, key, val, layer):
        if sub is None:
            node = ['node', [None, (key, val), None]]
            for _ in range(at - layer):
                node = ['node', [node]]
            return node
        items = list(self._open(sub)[1])
        kb = key.encode()
        i = 1
        while i < len(items) and items[i][0].encode() < kb:
            i += 2
        if i < len(items) and items[i][0] == key:
            raise Invalid(f'insert of existing key {key}')
        if at == layer:
            l, r = self._split(items[i - 1], key)
            items[i - 1:i] = [l, (key, val), r]
        else:
            items[i - 1] = self._insert(items[i - 1], at - 1, key, val, layer)
        return ['node', items]

    def delete(self, key):
        """Removes key, returns its value."""
        self.root, val = self._delete(self.root, key)
        if self.root is None:
            self.root, self.layer = ['node', [None]], 0
            return val
        self.root = self._open(self.root)
        while len(self.root[1]) == 1 and self.root[1][0] is not None:
            self.root = self._open(self.root[1][0])
            self.layer -= 1
        if self.root[1] == [None]:
            self.layer = 0
        return val

    def _delete(self, sub, key):
        if sub is None:
            raise Invalid(f'delete of missing key {key}')
        items = list(self._open(sub)[1])
        kb = key.encode()
        i = 1
        while i < len(items) and items[i][0].encode() < kb:
            i += 2
        if i < len(items) and items[i][0] == key:
            val = items[i][1]
            items[i - 1:i + 2] = [self._merge(items[i - 1], items[i + 1])]
        else:
            items[i - 1], val = self._delete(items[i - 1], key)
        return self._norm(items), val

    def update(self, key, val):
        self.root = self._update(self.root, key, val)

    def _update(self, sub, key, val):
        if sub is None:
            raise Invalid(f'update of missing key {key}')
        items = list(self._open(sub)[1])
        kb = key.encode()
        i = 1
        while i < len(items) and items[i][0].encode() < kb:
            i += 2
        if i < len(items) and items[i][0] == key:
            items[i] = (key, val)
        else:
            items[i - 1] = self._update(items[i - 1], key, val)
        return ['node', items]

    def root_cid(self):
        def cid(sub):
            if sub is None:
                return None
            if sub[0] == 'stub':
                return sub[1]
            items = sub[1]
            return cid_of(encode_node(cid(items[0]), [
                (items[i][0], items[i][1], cid(items[i + 1]))
                for i in range(1, len(items), 2)]))
        return cid(self.root)
