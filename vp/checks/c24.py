"""C24: private keys are stored only encrypted and survive unchanged."""
import base64
import contextlib
import re
import zlib

from vp import cario, lib, sigs, web
from vp.checks import c19

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: every request sent to the database during whole repo lives, also failed ones, is scanned for the private keys in every '
             'usual and several obfuscated forms; stored ciphertexts are compared with each other; every load is compared with the key created')
NOTE = ('Creation, commits, retried and failed transactions, status, handle and import through the fake Datastore, memcache and HTTP. Forms searched: raw, '
        'hex, base64 at any alignment, base58, base32, decimal, DER, PEM and JWK, plain, reversed, complemented, XORed with a byte, or compressed.')
RULE = ('random repo lives x keys of both curves x with or without rotation key x faults; all requests and memcache contents scanned. '
        'Distinct: (curve, rotation, operation, load path).')
REQUIRED = ('requests_scanned', 'forms', 'loads', 'loads_after_commit', 'loads_after_status', 'ciphertexts', 'same_key_pairs', 'faults', 'other_key_refused', 'imports', 'no_rotation',
            'self_test')
ISOLATE = True
CASE_TIMEOUT = 240


def cases(tier, seed):
    n = 48 if tier == 'quick' else 1500
    return [{'seed': f'{seed}.{i}', 'mode': 'life'} for i in range(n)]


def setup():
    lib.boot(PDS_HOST='pds.example.com', REPO_TOKEN=c19.TOKEN)
    web.app()


def diffs(b):
    """Invariant under XOR with one byte."""
    return bytes(x ^ y for x, y in zip(b, b[1:]))


def forms(key):
    """name -> bytes that give the key away."""
    from cryptography.hazmat.primitives import serialization as ser
    n = key.private_numbers().private_value
    raw = n.to_bytes(32, 'big')
    out = {'raw': raw, 'hex': raw.hex().encode(), 'HEX': raw.hex().upper().encode(), 'decimal': str(n).encode(), 'b58': lib.b58(raw).encode(),
           'b58 tagged': lib.b58(b'\x81\x26' + raw).encode()[4:], 'b32': base64.b32encode(raw)[:50], 'b32 lower': base64.b32encode(raw)[:50].lower()}
    for off in range(3):
        for alt in (base64.b64encode, base64.urlsafe_b64encode):
            out[f'{alt.__name__} {off}'] = alt(b'\0' * off + raw)[4:40]
    for k in list(out):
        out[k + ' reversed'] = out[k][::-1]
    return out


class Scan:
    """Everything that went to the database."""

    def __init__(self, ctx):
        self.ctx, self.forms, self.seen = ctx, {}, set()
        self.bad = None

    def add(self, name, key):
        for form, b in forms(key).items():
            self.forms[(name, form)] = b
            self.ctx.count('forms')
        raw = self.forms[(name, 'raw')]
        self.forms[(name, 'xored')] = ('x', diffs(raw))
        self.forms[(name, 'base64 xored')] = ('x', diffs(base64.b64encode(raw)[:40]))
        self.forms[(name, 'hex xored')] = ('x', diffs(raw.hex().encode()))

    def look(self, blob, where, deep=2):
        x = diffs(blob)
        for (name, form), b in self.forms.items():
            hit = b[1] in x if isinstance(b, tuple) else b in blob
            if hit:
                self.bad = f'{where}: the {name} key is in it ({form})'
                return
        if deep:
            for magic in (b'\x78[\x01\x5e\x9c\xda]', b'\x1f\x8b\x08'):     # compressed
                for m in re.finditer(magic, blob):
                    for wbits in (47,):
                        try:
                            plain = zlib.decompressobj(wbits).decompress(blob[m.start():], 10**6)
                        except zlib.error:
                            continue
                        if len(plain) > 31:
                            self.look(plain, where + ', decompressed', deep - 1)
            for run in re.findall(rb'[A-Za-z0-9+/_-]{40,}', blob):          # text that is an encoding of something else
                if len(run) > 8000:
                    continue
                for off in range(4):
                    try:
                        part = run[off:].replace(b'-', b'+').replace(b'_', b'/')
                        self.look(base64.b64decode(part[:len(part) // 4 * 4]), where + ', decoded', deep - 2 if deep > 1 else 0)
                    except ValueError:
                        pass


def life(case, ctx):
    from cryptography.hazmat.primitives.asymmetric import ec
    from google.api_core import exceptions as core_exc
    from google.cloud.ndb import _retry
    from arroba.repo import Repo, Write
    from arroba.storage import Action
    import webutil.models
    _retry._DEFAULT_INITIAL_DELAY = _retry._DEFAULT_MAXIMUM_DELAY = 0
    rng = lib.rng_of(case['seed'])
    arc = c19.Archive(rng)
    w = lib.World('datastore', sequences=rng.choice((None, 'memcache')))
    scan = Scan(ctx)
    sent = []
    plan = {'fail': 0}

    def hook(phase, rpc, req, info):
        if phase == 'before':
            sent.append((rpc, req.SerializeToString()))
        if rpc == 'commit' and phase == plan.get('phase') and plan['fail'] > 0:
            plan['fail'] -= 1
            ctx.count('faults')
            raise core_exc.Aborted('try again') if phase == 'before' else core_exc.DeadlineExceeded('lost')
    w.store.hook = hook

    # the scanner sees what it should
    test = ec.derive_private_key(rng.randrange(2**200, 2**255), ec.SECP256K1())
    raw = test.private_numbers().private_value.to_bytes(32, 'big')
    for name, blob in {'raw': raw, 'b64': base64.b64encode(b'abc ' + raw), 'zlib': zlib.compress(b'key: ' + raw), 'xor': bytes(b ^ 0x5a for b in raw), 'reversed': raw[::-1],
                       'jwk': b'{"d":"%s"}' % base64.urlsafe_b64encode(raw).rstrip(b'='), 'complement': bytes(255 - b for b in raw),
                       'b64 of b64': base64.b64encode(base64.b64encode(raw))}.items():
        s = Scan(ctx)
        s.add('test', test)
        s.look(b'prefix' + blob + b'suffix', name)
        assert s.bad, f'scanner misses {name}'
        ctx.count('self_test')

    def new_key(curve=None):
        return ec.derive_private_key(rng.randrange(2**200, 2**255), curve or ec.SECP256K1())
    keys = {}
    shared = new_key()
    ids = [0, 1, 2]
    for i in ids:
        sk = shared if i != 1 and rng.random() < .6 else new_key()
        rk = rng.choice((None, sk, shared, new_key(), new_key(ec.SECP256R1())))
        keys[lib.did(i)] = (sk, rk)
        scan.add(f'signing {i}', sk)
        if rk:
            scan.add(f'rotation {i}', rk)
        ctx.count('no_rotation', rk is None)

    def num(k):
        return k and (k.curve.name, k.private_numbers().private_value)

    def drain(what):
        for rpc, b in sent:
            ctx.count('requests_scanned')
            scan.look(b, f'{what}: a {rpc} request')
        sent.clear()
        if hasattr(w, 'mc') and w.mc:
            for k, item in list(w.mc.data.items()):
                scan.look(bytes(item[0]), f'{what}: memcache {k}')
        return ctx.check(not scan.bad, scan.bad)

    def load(what):
        """Every way of loading a repo."""
        storage = w.new_storage() if rng.random() < .5 else w.storage
        inside = rng.random() < .5
        with w.ctx() if inside else contextlib.nullcontext():
            got = [('load_repos', r) for r in storage.load_repos()]
            for d in keys:
                got.append(('load_repo', storage.load_repo(d)))
                h = got[-1][1] and got[-1][1].handle
                if h:
                    got.append(('load_repo by handle', storage.load_repo(h)))
        for path, r in got:
            if not ctx.check(r is not None, f'{what}: {path} finds no repo'):
                return False
            ctx.count('loads')
            sk, rk = keys[r.did]
            ctx.sig(num(sk)[0], rk and num(rk)[0], path, what.split(' ')[0])
            if not (ctx.check(num(r.signing_key) == num(sk), f'{what}: {path} gives another signing key')
                    and ctx.check(num(r.rotation_key) == num(rk), f'{what}: {path} gives {"no" if not r.rotation_key else "another"} rotation key, created with {"none" if not rk else "one"}')):
                return False
        return True

    objs = {}
    with w.ctx():
        for i in ids:
            sk, rk = keys[lib.did(i)]
            objs[i] = Repo.create(w.storage, lib.did(i), handle=f'h{i}.example.com', signing_key=sk, rotation_key=rk)
    if not (drain('creating repos') and load('created')):
        return
    # the same key, encrypted twice
    stored = []
    for pb in w.store.entities('AtpRepo'):
        for name, p in pb.properties.items():
            if p.WhichOneof('value_type') == 'blob_value':
                stored.append((pb.key.path[-1].name, name, bytes(p.blob_value)))
    ctx.count('ciphertexts', len(stored))
    for a in range(len(stored)):
        for b in range(a):
            if len(stored[a][2]) < 32 or len(stored[b][2]) < 32:
                continue
            same = {stored[a][2][k:k + 16] for k in range(0, len(stored[a][2]) - 15)} & {stored[b][2][k:k + 16] for k in range(len(stored[b][2]) - 15)}
            ctx.count('same_key_pairs')
            if not ctx.check(not same, f'{stored[a][:2]} and {stored[b][:2]} are stored with {len(same)} equal 16 byte runs'):
                return
    if not ctx.check(len(stored) >= len(ids) + sum(k[1] is not None for k in keys.values()), f'{len(stored)} encrypted values stored'):
        return

    for step in range(rng.choice((6, 10))):
        i = rng.choice(ids)
        d = lib.did(i)
        op = rng.choice(('commit', 'commit', 'status', 'handle', 'again', 'read', 'faulty commit', 'event'))
        plan.update(fail=rng.choice((0, 0, 0, 1)), phase=rng.choice(('before', 'after')))
        if op == 'faulty commit':
            plan['fail'] = rng.choice((1, 2, 40))
        with w.ctx():
            repo = objs[i] = w.storage.load_repo(d) if rng.random() < .6 else objs[i]
            try:
                if op in ('commit', 'faulty commit'):
                    data = w.storage.commit(repo, [Write(Action.CREATE, 'com.example.a', f'k{step}-{i}', {'$type': 'com.example.a', 'n': rng.randrange(9)})])
                    bad = sigs.verify(cario.decode(bytes(data.commit.encoded)), keys[d][0].public_key())
                    if not ctx.check(not bad, f'{op}: {bad}'):
                        return
                elif op == 'status':
                    rng.choice((w.storage.deactivate_repo, w.storage.activate_repo))(repo)
                elif op == 'handle':
                    repo = w.storage.load_repo(d)
                    repo.handle = rng.choice((f'n{step}.example.com', f'h{i}.example.com', None))
                    w.storage.store_repo(repo)
                elif op == 'again':
                    w.storage.create_repo(w.storage.load_repo(d))
                elif op == 'event':
                    w.storage.write_event(repo, 'identity', handle='e.example.com')
                else:
                    web.get('com.atproto.sync.getRepo', did=d)
                    web.get('com.atproto.repo.describeRepo', repo=d)
                    web.get('com.atproto.sync.listRepos')
                done = True
            except Exception as e:
                done = False
                from arroba.util import InactiveRepo
                if plan['phase'] and not isinstance(e, (InactiveRepo, core_exc.GoogleAPICallError)) and 'retr' not in str(e).lower():
                    raise
        plan['fail'] = 0
        what = f'{op} {"done" if done else "failed"} at step {step}'
        if not (drain(what) and load(what)):
            return
        ctx.count('loads_after_commit', 'commit' in op)
        ctx.count('loads_after_status', op == 'status')

    # imported repos get keys too
    c19.resolve_from({arc.did: c19.doc_for(arc.did, arc.key, arc.handle, rng)})
    resp = c19.post(arc.car())
    if not ctx.check(resp.status == 200, f'import: {resp}'):
        return
    with w.ctx():
        r = w.storage.load_repo(arc.did)
        keys[arc.did] = (r.signing_key, r.rotation_key)
        scan.add('imported signing', r.signing_key)
        scan.add('imported rotation', r.rotation_key)
        ctx.count('imports')
        if not ctx.check(num(r.signing_key) != num(r.rotation_key), 'imported repo has one key for both'):
            return
        w.storage.activate_repo(r)
        w.storage.commit(w.storage.load_repo(arc.did), [Write(Action.CREATE, 'com.example.a', 'new', {'$type': 'com.example.a'})])
    if not (drain('import') and load('imported')):
        return

    # not without the encryption key
    from cryptography.hazmat.primitives.ciphers.aead import AESGCM
    saved = webutil.models.ENCRYPTED_PROPERTY_KEYS
    for others in ((AESGCM(b'\7' * 32),), ()):
        webutil.models.ENCRYPTED_PROPERTY_KEYS = others
        try:
            with w.ctx():
                r = w.new_storage().load_repo(lib.did(0))
            got = num(r.signing_key)
        except Exception:
            got = None
        finally:
            webutil.models.ENCRYPTED_PROPERTY_KEYS = saved
        ctx.count('other_key_refused')
        if not ctx.check(got is None, f'a repo loads its key {"with another" if others else "without any"} encryption key'):
            return
    load('at the end')
    ctx.sample({'keys': [(num(a)[0], b and num(b)[0]) for a, b in keys.values()], 'blobs': len(stored)})


def run_case(case, ctx):
    life(case, ctx)
