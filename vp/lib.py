"""Shared workload generation and worlds (storage set-ups). Importing this module
does not import arroba; call its functions only after ``boot()``."""
import contextlib
import hashlib
import random

from . import cario, refmst

NSIDS = ['app.bsky.feed.post', 'app.bsky.feed.like', 'app.bsky.graph.follow',
         'app.bsky.actor.profile', 'com.example.a', 'com.example.aa', 'com.example.b',
         'x.y.z', 'com.exam-ple.a', 'com.example.a.b']
RKEY_CHARS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-:.~'

# keys in layers 10 to 12
SKY = [f'com.example.rec/deep{k}' for k in (
    '2x2261317', '3x588287', '3x10794568', '2x4335558', '1x5228168', '0x6436402',
    '3x9313025', '3x9028185', '3x7415545')]

_pools = {}


def boot(**env):
    """Environment and arroba imports for a worker."""
    from . import env as e
    e.setup(**env)
    import arroba.datastore_storage  # noqa: first, arroba's imports are circular


# keys
def rkey(rng, n=None):
    n = n or rng.choice((1, 2, 3, 5, 8, 13, 13, 13, 20, 60))
    out = ''.join(rng.choice(RKEY_CHARS) for _ in range(n))
    return out if out not in ('.', '..') else 'a' + out


def layer_pool(layer, count=40):
    """Keys of exactly this layer, deterministic."""
    if not _pools:
        for i in range(90000):
            k = f'{NSIDS[i % 4]}/3k{i:05d}'
            _pools.setdefault(refmst.layer_of(k), []).append(k)
    return _pools.get(layer, [])[:count]


def max_layer():
    layer_pool(0)
    return max(_pools)


def key_universe(rng, n, style=None):
    """n distinct valid keys with a chosen mix of layers."""
    style = style or rng.choice(('plain', 'layers', 'tall', 'dense', 'prefix', 'two', 'wide', 'sky', 'long'))
    prefix = rng.choice(NSIDS) + '/' + ''.join(rng.choice(RKEY_CHARS) for _ in range(rng.choice((60, 130, 200))))
    if style == 'wide':
        base = rng.choice((1, 1, 2))
        low, per = layer_pool(0, 2 * n + 10), rng.choice((.05, .2, .5))
    out = set()
    while len(out) < n:
        if style == 'plain':
            out.add(f'{rng.choice(NSIDS)}/{rkey(rng)}')
        elif style == 'layers':
            out.add(rng.choice(layer_pool(rng.randrange(max_layer() + 1), 400)))
        elif style == 'tall':
            top = max_layer()
            out.add(rng.choice(layer_pool(rng.choice((0, 0, 0, 1, top, top - 1, top - 2)), 300)))
        elif style == 'dense':
            out.add(rng.choice(layer_pool(rng.choice((0, 1)), 2 * n + 10)))
        elif style == 'wide':   # many keys in one node, few below
            out.add(rng.choice(low) if rng.random() < per else rng.choice(layer_pool(base, n + 20)))
        elif style == 'sky':    # very tall: keys whose hashes start with over 20 zero bits
            out.add(rng.choice(SKY if rng.random() < max(.1, 3 / n) and not set(SKY) <= out
                               else layer_pool(rng.choice((0, 0, 0, 1, 2)), 2 * n + 10)))
        elif style == 'long':   # up to the longest keys allowed, sharing long prefixes
            keep = rng.choice((len(prefix), len(prefix), rng.randrange(prefix.index('/') + 1, len(prefix))))
            tail = rng.choice((256 - keep, rng.randrange(1, min(257 - keep, 30))))
            out.add(prefix[:keep] + ''.join(rng.choice(RKEY_CHARS) for _ in range(tail)))
        elif style == 'two':
            out.add(rng.choice(layer_pool(rng.choice((0, 3)), 2 * n + 10)))
        else:
            out.add(f'{rng.choice(NSIDS[4:])}/' + 'a' * rng.randrange(1, 30) + rng.choice('ab1_'))
    return sorted(out)


def sparse_keys(rng, n):
    """About n keys in nodes of one or two keys each, so that a tree of them has as
    many nodes as possible."""
    layer_pool(0)
    every = sorted((k, min(layer, 2)) for layer, ks in _pools.items() for k in ks)
    out, start, have = [], rng.randrange(len(every) // 2), set()
    for k, layer in every[start:] + every[:start]:
        if layer == 2:
            out.append(k)
            have = set()
        elif layer not in have and (layer == 1 or rng.random() < .5):
            out.append(k)
            have.add(layer)
        if len(out) >= n:
            return out


def val_cid(i):
    """Distinct value CIDs as bytes."""
    return cario.cid_of(b'value %d' % i)


def acid(cid):
    """bytes -> the library's CID object."""
    from multiformats import CID
    return CID.decode(cid)


def bcid(cid):
    return None if cid is None else bytes(cid)


# records
def text(rng, n=None):
    n = rng.randrange(0, 12) if n is None else n
    return ''.join(rng.choice('abc xyz09é☃😀\n"\\/') for _ in range(n))


def value(rng, depth=0):
    kind = rng.randrange(9 if depth < 3 else 6)
    if kind == 0:
        return rng.choice((0, 1, -1, 23, 24, 255, 256, 65536, 2**32, 2**53 - 1, -2**53 + 1, rng.randrange(10**6)))
    if kind == 1:
        return text(rng)
    if kind == 2:
        return rng.choice((True, False, None))
    if kind == 3:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(12)))
    if kind == 4:
        return acid(val_cid(rng.randrange(10**6)))
    if kind == 5:
        return text(rng, 3)
    if kind in (6, 7):
        return {text(rng, rng.randrange(1, 6)): value(rng, depth + 1) for _ in range(rng.randrange(4))}
    return [value(rng, depth + 1) for _ in range(rng.randrange(4))]


def record(rng, i=None, simple=None):
    """A record for an unknown (so unvalidated) or a known lexicon."""
    simple = rng.random() < .5 if simple is None else simple
    rec = {'$type': 'com.example.rec'}
    if i is not None:
        rec['i'] = i
    if not simple:
        for _ in range(rng.randrange(4)):
            rec[text(rng, rng.randrange(1, 6)) or 'k'] = value(rng)
    return rec


def enc(obj):
    """Independent encoding of a record; its CID."""
    return cario.encode(cario.plain(obj))


def rec_cid(obj):
    return cario.cid_of(enc(obj))


def rng_of(*parts):
    return random.Random(hashlib.sha256(repr(parts).encode()).digest())


# worlds
class World:
    """A storage backend under test, installed as ``server.storage``."""

    def __init__(self, kind, sequences=None, memory_class=None, **ds_kwargs):
        from arroba import server
        from arroba.storage import MemoryStorage
        self.kind = kind
        self.clients = []
        if kind == 'memory':
            self.storage = (memory_class or MemoryStorage)(sequences=sequences)
        else:
            from . import fakeds
            self.client, self.store = fakeds.install(**ds_kwargs)
            if sequences == 'memcache':
                from . import fakemc
                self.mc = fakemc.Server()
                sequences = self.memcache_sequences()
            self.storage = self.new_storage(sequences)
        server.storage = self.storage

    def memcache_sequences(self):
        from arroba.datastore_storage import MemcacheSequences
        return MemcacheSequences(memcache=self.mc.client(), ndb_client=self.client,
                                 ndb_context_kwargs={'cache_policy': lambda key: False})

    def new_storage(self, sequences=None):
        """As another process would open it."""
        from arroba.datastore_storage import DatastoreStorage
        return DatastoreStorage(ndb_client=self.client, sequences=sequences,
                                ndb_context_kwargs={'cache_policy': lambda key: False})

    @contextlib.contextmanager
    def ctx(self):
        """The surrounding database context a request would run in."""
        if self.kind == 'memory':
            yield
        else:
            from google.cloud import ndb
            from google.cloud.ndb import context
            cur = context.get_context(raise_context_error=False)
            if cur:
                yield
            else:
                with self.client.context(cache_policy=lambda key: False):
                    yield

    def blocks(self):
        """{cid bytes: (bytes, seq, repo did)} of everything stored, read behind
        the library's back for the datastore."""
        if self.kind == 'memory':
            return {bytes(c): (bytes(b.encoded), b.seq, b.repo) for c, b in self.storage.blocks.items()}
        out = {}
        for name, props in self.ds_blocks().items():
            out[cario.cid_bytes(name)] = props
        return out

    def ds_blocks(self):
        out = {}
        for pb in self.store.entities('AtpBlock'):
            p = pb.properties
            repo = p['repo'].key_value.path[-1].name if 'repo' in p else None
            out[pb.key.path[-1].name] = (bytes(p['encoded'].blob_value), p['seq'].integer_value, repo)
        return out


_keys = {}


def privkey(i):
    from arroba import util
    if i not in _keys:
        _keys[i] = util.new_key(seed=int(hashlib.sha256(b'key %d' % i).hexdigest(), 16) >> 2)
    return _keys[i]


def did(i):
    return f'did:plc:{hashlib.sha256(str(i).encode()).hexdigest()[:24]}'


def did_doc(i, key=None, handle=None):
    """What the directory would resolve did(i) to."""
    from cryptography.hazmat.primitives import serialization as ser
    pub = (key or privkey(i)).public_key().public_bytes(ser.Encoding.X962, ser.PublicFormat.CompressedPoint)
    return {'@context': ['https://www.w3.org/ns/did/v1'], 'id': did(i), 'alsoKnownAs': [f'at://{handle or f"h{i}.example.com"}'],
            'verificationMethod': [{'id': did(i) + '#atproto', 'type': 'Multikey', 'controller': did(i),
                                    'publicKeyMultibase': 'z' + b58(b'\xe7\x01' + pub)}],
            'service': [{'id': '#atproto_pds', 'type': 'AtprotoPersonalDataServer', 'serviceEndpoint': 'https://old.example.com'}]}


def b58(data):
    n, out = int.from_bytes(data, 'big'), ''
    while n:
        n, r = divmod(n, 58)
        out = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'[r] + out
    return '1' * (len(data) - len(data.lstrip(b'\0'))) + out


class Cb:
    """Repo callback that records what it is told."""

    def __init__(self, and_then=None):
        self.data, self.lost, self.and_then = [], [], and_then

    def __call__(self, data=None, lost_seq=None):
        if data is not None:
            self.data.append(data)
        if lost_seq is not None:
            self.lost.append(lost_seq)
        if self.and_then:
            self.and_then(data=data, lost_seq=lost_seq)


def create_repo(world, i, handle=None, callback=None, **kwargs):
    from arroba.repo import Repo
    return Repo.create(world.storage, did(i), handle=handle or f'h{i}.example.com',
                       signing_key=privkey(i), rotation_key=privkey(i + 500),
                       callback=callback, **kwargs)


def writes_for(rng, contents, n, universe, rec_i, noop=False):
    """A valid batch of n writes against contents (path -> record); returns
    (writes, new contents). A path may be touched more than once."""
    from arroba.repo import Write
    from arroba.storage import Action
    cur, out, made = dict(contents), [], []
    for _ in range(n):
        path = rng.choice(universe)
        if made and rng.random() < .1:
            path = rng.choice(made)[0]      # again
        coll, rk = path.split('/')
        if path not in cur:
            # sometimes a record that this batch has written elsewhere
            rec = rng.choice(made)[1] if made and rng.random() < .15 else record(rng, next(rec_i))
            made.append((path, rec))
            out.append(Write(Action.CREATE, coll, rk, rec))
            cur[path] = rec
        elif rng.random() < .5:
            out.append(Write(Action.DELETE, coll, rk))
            del cur[path]
        else:
            rec = cur[path] if noop and rng.random() < .2 else record(rng, next(rec_i))
            out.append(Write(Action.UPDATE, coll, rk, rec))
            cur[path] = rec
    return out, cur


def expected_tree(contents):
    return refmst.build({p: rec_cid(r) for p, r in contents.items()})


class Mix:
    """Random commit batches over several repos, with the model contents."""

    def __init__(self, rng, repos, universe, p_bad=0.12, sizes=(1, 1, 1, 2, 5, 30)):
        import itertools
        self.rng, self.universe, self.p_bad, self.sizes = rng, universe, p_bad, sizes
        self.contents = {i: {} for i in repos}
        self.past = {i: [{}] for i in repos}
        self.rec_i = itertools.count()
        self.pool = [record(rng, 10**6 + j) for j in range(4)]
        self.kinds = set()

    def edits(self, cur, target):
        """Writes that turn cur into (at most 190 steps towards) target."""
        from arroba.repo import Write
        from arroba.storage import Action
        ws = []
        for p in sorted(set(cur) | set(target)):
            if p not in target:
                ws.append(Write(Action.DELETE, *p.split('/')))
            elif p not in cur:
                ws.append(Write(Action.CREATE, *p.split('/'), target[p]))
            elif cur[p] is not target[p]:
                ws.append(Write(Action.UPDATE, *p.split('/'), target[p]))
        self.rng.shuffle(ws)
        ws = ws[:self.rng.choice((1, 3, 190))]
        new = dict(cur)
        for x in ws:
            p = f'{x.collection}/{x.rkey}'
            new.pop(p, None)
            if x.record:
                new[p] = x.record
        return ws, new

    def bad(self, cur):
        """A batch that must fail, after some good writes."""
        from arroba.repo import Write
        from arroba.storage import Action
        rng = self.rng
        ws, new = writes_for(rng, cur, rng.choice((0, 1, 4)), self.universe, self.rec_i)
        kind = rng.choice(('missing', 'delmissing', 'key', 'size', 'resize', 'count', 'dup', 'invalid', 'deep', 'event'))
        absent = next(p for p in (f'x.y.z/none{k}' for k in range(10**6)) if p not in new).split('/')
        if kind == 'missing':
            ws.append(Write(Action.UPDATE, *absent, {'$type': 'x.y.z', 'a': 1}))
        elif kind == 'delmissing':
            ws.append(Write(Action.DELETE, *absent))
        elif kind == 'key':
            ws.append(Write(Action.CREATE, 'x.y.z', rng.choice(('a b', '', 'a/b', 'é', 'x' * 300)), {'$type': 'x.y.z'}))
        elif kind == 'size':
            ws.append(Write(Action.CREATE, *absent, {'$type': 'x.y.z', 'big': 'x' * 1_000_001}))
        elif kind == 'resize':
            ws += [Write(Action.CREATE, *absent, {'$type': 'x.y.z'}),
                   Write(Action.UPDATE, *absent, {'$type': 'x.y.z', 'big': 'é' * 500_001})]
        elif kind == 'invalid':   # by its lexicon
            ws.append(Write(Action.CREATE, *absent, {'$type': 'app.bsky.feed.post', **rng.choice((
                {}, {'text': 3, 'createdAt': '2024-01-02T03:04:05Z'}, {'text': 'x', 'createdAt': 'tomorrow'}))}))
        elif kind == 'deep':
            rec = []
            for _ in range(rng.choice((400, 3000))):
                rec = [rec]
            ws.append(Write(Action.CREATE, *absent, {'$type': 'x.y.z', 'x': rec}))
        elif kind == 'event':
            ws.append(Write(Action.CREATE, *absent, {'$type': 'com.atproto.sync.subscribeRepos#account', 'did': did(0)}))
        elif kind == 'count':
            ws = [Write(Action.CREATE, 'x.y.z', f'many{k}', {'$type': 'x.y.z', 'k': k}) for k in range(201)]
        else:
            ws += [Write(Action.CREATE, *absent, {'$type': 'x.y.z', 'd': k}) for k in range(2)]
        if kind != 'count':
            more, _ = writes_for(rng, new, rng.choice((0, 2)), self.universe, self.rec_i)
            ws += more
        return ws, kind

    def next(self, i):
        """(writes, new contents or None if it must fail, kind)"""
        rng, cur = self.rng, self.contents[i]
        from arroba.repo import Write
        from arroba.storage import Action
        r = rng.random()
        if r < self.p_bad:
            ws, kind = self.bad(cur)
            self.kinds.add('bad-' + kind)
            return ws, None, 'bad-' + kind
        r = rng.random()
        if r < .07:
            ws, new, kind = [], dict(cur), 'empty'
        elif r < .25 and len(self.past[i]) > 1:
            ws, new = self.edits(cur, rng.choice(self.past[i]))
            kind = 'recur'
        elif r < .35:
            p, rec = rng.choice(self.universe), rng.choice(self.pool)
            ws = [Write(Action.UPDATE if p in cur else Action.CREATE, *p.split('/'), rec)]
            new, kind = {**cur, p: rec}, 'shared'
        elif r < .45:
            few = rng.sample(self.universe, min(3, len(self.universe)))
            ws, new = writes_for(rng, cur, rng.choice((4, 8)), few, self.rec_i, noop=True)
            kind = 'multi'
        elif r < .52 and cur:
            p = rng.choice(sorted(cur))
            ws, new, kind = [Write(Action.UPDATE, *p.split('/'), cur[p])], dict(cur), 'noop'
        else:
            ws, new = writes_for(rng, cur, rng.choice(self.sizes), self.universe, self.rec_i)
            kind = 'batch' if len(ws) > 1 else 'one'
        self.kinds.add(kind)
        return ws, new, kind

    def done(self, i, new):
        self.contents[i] = new
        self.past[i].append(new)


def os_repo():
    from . import env
    return env.REPO + '/arroba/'
