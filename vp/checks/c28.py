"""C28: signatures verify, are low-S and are tamper-evident."""
import base64
import json
from datetime import datetime, timedelta, timezone

from vp import cario, lib, sigs

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: signatures of objects, commits and service tokens are verified by an independent encoder and verifier, tampered copies must fail; the verifier is '
             'also fed independently made signatures')
NOTE = 'Both curves for objects, K-256 for tokens. Tokens are checked byte by byte and by PyJWT; base64 spelling of the same bytes is not tampering. Time is webutil.util.now.'
RULE = ('random keys x objects (nested, empty, already signed) x every single change: each bit region of the signature, each field added, removed, changed or retyped, keys; '
        'claims x expirations. Distinct: (tampering, curve), claim sets.')
REQUIRED = ('signed', 'verified', 'resigned', 'tampered_object', 'tampered_signature', 'other_key', 'high_s', 'external', 'tokens', 'claims', 'expired', 'commits', 'odd_signature')
CASE_TIMEOUT = 240


def cases(tier, seed):
    q = tier == 'quick'
    out = [{'seed': f'{seed}.o{i}', 'mode': 'objects'} for i in range(160 if q else 4000)]
    out += [{'seed': f'{seed}.j{i}', 'mode': 'tokens'} for i in range(40 if q else 1000)]
    out += [{'seed': f'{seed}.c{i}', 'mode': 'commits'} for i in range(12 if q else 200)]
    return out


def setup():
    lib.boot()


def value(rng, depth=0):
    from multiformats import CID
    kind = rng.choice(('int', 'int', 'str', 'bytes', 'bool', 'none', 'cid', 'float') + (('list', 'map', 'map') if depth < 3 else ()))
    if kind == 'int':
        return rng.choice((0, 1, -1, 23, 24, 255, 256, 65535, 65536, 2**32, 2**53, -2**31, rng.randrange(-10**9, 10**9)))
    if kind == 'str':
        return rng.choice(('', 'a', 'é', '字' * 9, '\0', 'x' * 300, f's{rng.random()}'))
    if kind == 'bytes':
        return bytes(rng.randrange(256) for _ in range(rng.choice((0, 1, 32, 64, 300))))
    if kind == 'bool':
        return rng.random() < .5
    if kind == 'none':
        return None
    if kind == 'float':
        return rng.choice((0.5, -1.25, 1e300, rng.random()))
    if kind == 'cid':
        return CID.decode(lib.val_cid(rng.randrange(999)))
    if kind == 'list':
        return [value(rng, depth + 1) for _ in range(rng.choice((0, 1, 3)))]
    return {k: value(rng, depth + 1) for k in rng.sample(('a', 'b', 'aa', 'sig', 'é', '', 'did', '$type', 'x' * 30), rng.choice((0, 1, 3)))}


def obj_of(rng):
    if rng.random() < .3:
        return {'version': 3, 'did': lib.did(1), 'data': value_cid(rng), 'rev': '3jzfcijpj2z2a', 'prev': None}
    o = {k: value(rng) for k in rng.sample(('a', 'b', 'aa', 'é', 'did', '$type', 'sigs', 'Sig', 'prev'), rng.choice((0, 1, 2, 5)))}
    return o


def value_cid(rng):
    from multiformats import CID
    return CID.decode(lib.val_cid(rng.randrange(999)))


def plainer(v):
    """For the independent encoder."""
    from multiformats import CID
    if isinstance(v, CID):
        return cario.Link(bytes(v))
    if isinstance(v, dict):
        return {k: plainer(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plainer(x) for x in v]
    return v


def changed(rng, v):
    """Something else of about the same kind."""
    if isinstance(v, bool) or v is None:
        return rng.choice([x for x in (True, False, None, 0) if x is not v and not (x == 0 and v is False and isinstance(x, bool))])
    if isinstance(v, int):
        return rng.choice((v + 1, v - 1, -v - 1, str(v)))
    if isinstance(v, float):
        return v * 2 + 1
    if isinstance(v, str):
        return rng.choice((v + 'x', v.upper() + '!', v.encode() + b'.', v + '\0'))
    if isinstance(v, bytes):
        return rng.choice((v + b'\0', v[:-1] + b'zz', v.hex() + 'x'))
    if isinstance(v, list):
        return v + [None]
    if isinstance(v, dict):
        return {**v, 'new': 1}
    return lib.val_cid(5000)


def objects(case, ctx):
    from cryptography.hazmat.primitives.asymmetric import ec
    from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
    from arroba import util
    rng = lib.rng_of(case['seed'])
    for _ in range(8):
        curve = rng.choice((ec.SECP256K1(), ec.SECP256K1(), ec.SECP256R1()))
        order = sigs.ORDER[curve.name]
        key = ec.derive_private_key(rng.choice((1, 2, order - 1, rng.randrange(1, order), rng.randrange(1, order))), curve)
        if curve.name == 'secp256k1' and rng.random() < .3:
            key = util.new_key(rng.choice((None, rng.randrange(1, 2**64))))
        pub = key.public_key()
        obj = obj_of(rng)
        before = {k: cario.encode(plainer(v)) for k, v in obj.items()}
        if rng.random() < .3:
            obj['sig'] = rng.choice((b'', b'x' * 64, None, 'old'))
            ctx.count('resigned')
        signed = util.sign(obj, key)
        ctx.count('signed')
        what = f'{curve.name}, fields {sorted(before)}'
        if not ctx.check(set(signed) == set(before) | {'sig'} and {k: cario.encode(plainer(v)) for k, v in signed.items() if k != 'sig'} == before, f'{what}: signing changed the object'):
            return
        why = sigs.verify(plainer(signed), pub)
        if not ctx.check(not why, f'{what}: {why}'):
            return
        if not ctx.check(util.verify_sig(signed, pub) is True, f'{what}: verify_sig says no'):
            return
        ctx.count('verified')
        again = util.sign(dict(signed), key)
        if not ctx.check(util.verify_sig(again, pub) is True and not sigs.verify(plainer(again), pub), f'{what}: signing twice does not verify'):
            return
        ctx.count('resigned')

        def refuse(kind, o, p=pub):
            ctx.sig(kind, curve.name)
            got = util.verify_sig(o, p)
            return ctx.check(got is False, f'{what}: verifies after tampering: {kind}')
        sig = signed['sig']
        # signature
        for i in range(64):
            ctx.count('tampered_signature')
            b = bytearray(sig)
            b[i] ^= 1 << rng.randrange(8)
            if not refuse(f'bit of byte {i}', {**signed, 'sig': bytes(b)}):
                return
        r, s = sig[:32], sig[32:]
        flipped = (order - int.from_bytes(s, 'big')).to_bytes(32, 'big')
        ctx.count('high_s')
        for kind, x in {'short': sig[:-1], 'long': sig + b'\0', 'longer': b'\0' + sig, 'empty': b'', 'zero': bytes(64), 'zero s': r + bytes(32), 'zero r': bytes(32) + s, 'swapped': s + r,
                        'high-S': r + flipped, 'r twice': r + r, 'double': sig + sig, 'all ones': b'\xff' * 64, 'order': order.to_bytes(32, 'big') * 2,
                        'shifted': sig[1:] + sig[:1], 'zero between': r + b'\0' + s, 'zeros around': b'\0' + r + b'\0' + s, 'padded': b'\0' * 32 + sig, 'DER': encode_dss_signature(int.from_bytes(r, 'big'), int.from_bytes(s, 'big'))}.items():
            ctx.count('tampered_signature')
            if not refuse(kind, {**signed, 'sig': x}):
                return
        for kind, x in {'none': None, 'text': sig.hex(), 'latin': sig.decode('latin-1'), 'number': 5, 'list': list(sig), 'nested': {'$bytes': base64.b64encode(sig).decode()},
                        'array': bytearray(sig[:-1] + b'\0')}.items():
            ctx.count('odd_signature')
            if not refuse(f'signature is {kind}', {**signed, 'sig': x}):
                return
        # object
        for k in before:
            ctx.count('tampered_object')
            if not (refuse('changed', {**signed, k: changed(rng, signed[k])}) and refuse('removed', {x: y for x, y in signed.items() if x != k})
                    and refuse('renamed', {(x + '_' if x == k else x): y for x, y in signed.items()})):
                return
        for k in ('new', '', 'sig2', 'SIG'):
            if k not in signed and not refuse('added', {**signed, k: rng.choice((None, 0, '', []))}):
                return
        nums = [k for k in before if type(signed[k]) in (int, bool)]
        # key
        for other in (ec.derive_private_key(rng.randrange(1, 2**200), curve), ec.derive_private_key(rng.randrange(1, 2**200), ec.SECP256R1()),
                      ec.derive_private_key(rng.randrange(1, 2**200), ec.SECP256K1())):
            ctx.count('other_key')
            if not refuse('other key', signed, other.public_key()):
                return
        # signatures made elsewhere
        base = {k: v for k, v in signed.items() if k != 'sig'}
        ext = {**base, 'sig': sigs.sign(plainer(base), key)['sig']}
        ctx.count('external')
        if not ctx.check(util.verify_sig(ext, pub) is True, f'{what}: an independent signature does not verify'):
            return
        if not refuse('independent high-S', {**base, 'sig': sigs.sign(plainer(base), key, high=True)['sig']}):
            return
    try:
        util.verify_sig({'a': 1}, pub)
    except KeyError:
        pass
    else:
        ctx.check(False, 'an unsigned object does not raise KeyError')


def unb64(s):
    return base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))


def tokens(case, ctx):
    import jwt
    import webutil.util
    from cryptography.hazmat.primitives.asymmetric import ec
    from arroba import util
    rng = lib.rng_of(case['seed'])
    for _ in range(12):
        real = datetime.now(timezone.utc)
        now = rng.choice((real, datetime(2026, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=rng.randrange(10**8) + rng.random())))
        webutil.util.now = lambda tz=timezone.utc, **_: now.astimezone(tz) if tz else now.replace(tzinfo=None)
        key = ec.derive_private_key(rng.randrange(1, sigs.ORDER['secp256k1']), ec.SECP256K1())
        did = rng.choice((lib.did(rng.randrange(5)), 'did:web:é.example'))
        host = rng.choice(('bsky.network', 'localhost:3000', 'a.b.c'))
        aud = rng.choice((None, None, 'did:plc:aud', f'did:web:{host}#svc'))
        secs = rng.choice((None, 1, 30, 600, 3600, 86400 * 400, 2.5))
        claims = rng.choice(({}, {}, {'lxm': 'com.example.method'}, {'lxm': 'x', 'jti': 'ü', 'n': 5}, {'nested': {'a': [1, None]}}, {'n': 0, 'e': '', 'f': False, 'z': None, 'l': []}))
        kwargs = {**claims}
        if aud:
            kwargs['aud'] = aud
        if secs is not None:
            kwargs['expiration'] = timedelta(seconds=secs)
        token = util.service_jwt(host, did, key, **kwargs)
        ctx.count('tokens')
        ctx.count('claims', bool(claims))
        what = f'token for {host}, aud {aud}, {secs} s, {claims}'
        parts = token.split('.')
        if not ctx.check(len(parts) == 3 and '=' not in token, f'{what}: {token}'):
            return
        head, body, sig = json.loads(unb64(parts[0])), json.loads(unb64(parts[1])), unb64(parts[2])
        want = {'iss': did, 'aud': aud or f'did:web:{host}', **claims}
        if not (ctx.check(head.get('alg') == 'ES256K', f'{what}: header {head}') and ctx.check(want.items() <= body.items(), f'{what}: {body}')):
            return
        ends = now.timestamp() + (600 if secs is None else secs)
        if not ctx.check(ends - 1 <= body['exp'] <= ends, f'{what}: expires at {body["exp"]}, not {ends}'):
            return
        if 'iat' in body and not ctx.check(abs(body['iat'] - now.timestamp()) < 2, f'{what}: issued at {body["iat"]}'):
            return
        why = sigs.verify_raw('.'.join(parts[:2]).encode(), sig, key.public_key()) if len(sig) == 64 else f'signature has {len(sig)} bytes'
        if not ctx.check(not why, f'{what}: {why}'):
            return
        ctx.sig('token', host, aud, secs, sorted(claims))

        def ok(t, k=key, at=now, **kw):
            try:
                opts = {'verify_exp': False, 'verify_aud': False, 'verify_iat': False}
                return jwt.decode(t, k.public_key(), algorithms=['ES256K'], options=opts, **kw)
            except jwt.PyJWTError:
                return None
        if not ctx.check(ok(token) == body, f'{what}: PyJWT does not accept it'):
            return
        b = bytearray(unb64(parts[1]))
        i = rng.randrange(len(b))
        b[i] ^= 1
        bad = [f'{parts[0]}.{base64.urlsafe_b64encode(bytes(b)).rstrip(b"=").decode()}.{parts[2]}']
        g = bytearray(sig)
        g[rng.randrange(64)] ^= 1 << rng.randrange(8)
        bad.append(f'{parts[0]}.{parts[1]}.{base64.urlsafe_b64encode(bytes(g)).rstrip(b"=").decode()}')
        ctx.count('tampered_signature')
        if not ctx.check(all(ok(t) is None for t in bad) and ok(token, ec.derive_private_key(7, ec.SECP256K1())) is None, f'{what}: verifies after tampering'):
            return
        if now is real:
            # valid now, not after it ends
            try:
                jwt.decode(token, key.public_key(), algorithms=['ES256K'], audience=want['aud'])
            except jwt.ExpiredSignatureError:
                if not ctx.check(secs is not None and secs < 5, f'{what}: already expired'):
                    return
        for past in (timedelta(seconds=-1), timedelta(days=-3)):
            # made when it is in the past by now
            then = real + past - timedelta(seconds=601)
            old, now = now, then
            t = util.service_jwt(host, did, key, **{**kwargs, 'expiration': timedelta(minutes=10)})
            now = old
            try:
                jwt.decode(t, key.public_key(), algorithms=['ES256K'], audience=want['aud'])
            except jwt.ExpiredSignatureError:
                ctx.count('expired')
            else:
                ctx.check(False, f'{what}: valid {-past} after expiry')
                return


def commits(case, ctx):
    rng = lib.rng_of(case['seed'])
    w = lib.World(rng.choice(('memory', 'datastore')))
    mix = lib.Mix(rng, [0, 1], lib.key_universe(rng, 10), p_bad=0)
    from arroba import util
    with w.ctx():
        objs = {i: lib.create_repo(w, i) for i in (0, 1)}
        for _ in range(10):
            i = rng.choice((0, 1))
            ws, new, _ = mix.next(i)
            w.storage.commit(objs[i], ws)
            mix.done(i, new)
            repo = w.storage.load_repo(lib.did(i))
            commit = cario.decode(bytes(repo.head.encoded))
            ctx.count('commits')
            why = sigs.verify(commit, lib.privkey(i).public_key())
            if not ctx.check(not why, f'commit: {why}'):
                return
            if not ctx.check(sigs.verify(commit, lib.privkey(1 - i).public_key()) != '', 'commit verifies with another repo\'s key'):
                return
            ctx.check(util.verify_sig(repo.head.decoded, lib.privkey(i).public_key()) is True, 'verify_sig refuses a commit')


def run_case(case, ctx):
    {'objects': objects, 'tokens': tokens, 'commits': commits}[case['mode']](case, ctx)
