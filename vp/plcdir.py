"""A did:plc directory that enforces the rules, independent of arroba.did.

https://web.plc.directory/spec/v0.1/did-plc
"""
import base64
import copy
import hashlib
import json

from vp import cario, lib, sigs

FIELDS = {'type', 'rotationKeys', 'verificationMethods', 'alsoKnownAs', 'services', 'prev', 'sig'}


def did_key(pub):
    from cryptography.hazmat.primitives import serialization as ser
    pub = getattr(pub, 'public_key', lambda: pub)()
    point = pub.public_bytes(ser.Encoding.X962, ser.PublicFormat.CompressedPoint)
    return 'did:key:z' + lib.b58({'secp256k1': b'\xe7\x01', 'secp256r1': b'\x80\x24'}[pub.curve.name] + point)


def un58(s):
    n = 0
    for c in s:
        n = n * 58 + '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'.index(c)
    return b'\0' * (len(s) - len(s.lstrip('1'))) + n.to_bytes((n.bit_length() + 7) // 8, 'big')


def pub_of(key):
    from cryptography.hazmat.primitives.asymmetric import ec
    assert isinstance(key, str) and key.startswith('did:key:z'), key
    raw = un58(key[9:])
    curve = {b'\xe7\x01': ec.SECP256K1(), b'\x80\x24': ec.SECP256R1()}[raw[:2]]
    return ec.EllipticCurvePublicKey.from_encoded_point(curve, raw[2:])


def cid_of(op):
    return cario.cid_str(cario.cid_of(cario.encode(op)))


def did_of(op):
    return 'did:plc:' + base64.b32encode(hashlib.sha256(cario.encode(op)).digest()).decode().lower()[:24]


def sign(op, key):
    op = {k: v for k, v in op.items() if k != 'sig'}
    return {**op, 'sig': base64.urlsafe_b64encode(sigs.sign(op, key)['sig']).decode().rstrip('=')}


def signer(op, keys):
    """Index of the key in keys that signed op, or -1."""
    s = op['sig']
    if not isinstance(s, str) or set(s) & set('=+/'):
        return -1
    try:
        raw = base64.b64decode(s + '=' * (-len(s) % 4), altchars=b'-_', validate=True)
    except ValueError:
        return -1
    if len(raw) != 64:
        return -1
    msg = cario.encode({k: v for k, v in op.items() if k != 'sig'})
    for i, key in enumerate(keys):
        if not sigs.verify_raw(msg, raw, pub_of(key)):
            return i
    return -1


def doc_of(did, op):
    return {'@context': ['https://www.w3.org/ns/did/v1', 'https://w3id.org/security/multikey/v1'],
            'id': did, 'alsoKnownAs': op['alsoKnownAs'],
            'verificationMethod': [{'id': f'{did}#{k}', 'type': 'Multikey', 'controller': did,
                                    'publicKeyMultibase': v.removeprefix('did:key:')} for k, v in op['verificationMethods'].items()],
            'service': [{'id': f'#{k}', 'type': v['type'], 'serviceEndpoint': v['endpoint']} for k, v in op['services'].items()]}


def reply(status, body):
    import requests
    r = requests.Response()
    r.status_code = status
    r.reason = {200: 'OK'}.get(status, 'No')
    r._content = (body if isinstance(body, str) else json.dumps(body)).encode()
    r.headers['Content-Type'] = 'application/json'
    r.encoding = 'utf-8'
    return r


class Directory:
    def __init__(self, host='plc.example'):
        self.base = f'https://{host}/'
        self.logs, self.gets, self.posts, self.refusals = {}, [], [], []
        self.get_fault = self.post_fault = self.before_post = None

    def head(self, did):
        return self.live(did)[-1]

    def live(self, did):
        return [e for e in self.logs[did] if not e['nullified']]

    def shape(self, op):
        if not isinstance(op, dict) or set(op) != FIELDS:
            return f'fields {sorted(op)}'
        if op['type'] != 'plc_operation':
            return f'type {op["type"]!r}'
        keys = op['rotationKeys']
        if not isinstance(keys, list) or not 1 <= len(keys) <= 5 or len(set(keys)) != len(keys):
            return f'rotationKeys {keys!r}'
        if not isinstance(op['verificationMethods'], dict) or not isinstance(op['services'], dict):
            return 'not an object'
        for key in [*keys, *op['verificationMethods'].values()]:
            try:
                pub_of(key)
            except (AssertionError, KeyError, ValueError):
                return f'key {key!r}'
        if not isinstance(op['alsoKnownAs'], list) or not all(isinstance(a, str) for a in op['alsoKnownAs']):
            return f'alsoKnownAs {op["alsoKnownAs"]!r}'
        for s in op['services'].values():
            if not isinstance(s, dict) or set(s) != {'type', 'endpoint'} or not all(isinstance(v, str) for v in s.values()):
                return f'service {s!r}'
        return ''

    def submit(self, did, op):
        """'' if op is accepted, else why not."""
        op = json.loads(json.dumps(op))
        why = self.shape(op)
        if why:
            return why
        log = self.logs.get(did)
        if log is None:
            if op['prev'] is not None:
                return 'genesis with prev'
            if signer(op, op['rotationKeys']) < 0:
                return 'not signed by one of its rotation keys'
            if did_of(op) != did:
                return f'DID should be {did_of(op)}'
            self.logs[did] = [self.entry(did, op)]
            return ''
        at = next((i for i, e in enumerate(log) if e['cid'] == op['prev'] and not e['nullified']), None)
        if at is None:
            return f'prev {op["prev"]} is not an operation of {did}'
        keys = log[at]['operation']['rotationKeys']
        if (who := signer(op, keys)) < 0:
            return 'not signed by a rotation key of the previous operation'
        later = [e for e in log[at + 1:] if not e['nullified']]
        if later:
            first = signer(later[0]['operation'], keys)
            if who >= first:
                return 'prev is not the last operation'
            for e in later:
                e['nullified'] = True
        log.append(self.entry(did, op))
        return ''

    def entry(self, did, op):
        return {'did': did, 'operation': op, 'cid': cid_of(op), 'nullified': False, 'createdAt': '2026-01-01T00:00:00.000Z'}

    # HTTP
    def get(self, url, **kwargs):
        self.gets.append(url)
        if self.get_fault:
            fault, self.get_fault = self.get_fault, None
            return fault(url)
        if not url.startswith(self.base):
            return reply(502, {'message': 'wrong host'})
        did, _, rest = url.removeprefix(self.base).partition('/')
        if did not in self.logs:
            return reply(404, {'message': f'DID not registered: {did}'})
        body = {'': lambda: doc_of(did, self.head(did)['operation']), 'log/audit': lambda: self.logs[did],
                'log': lambda: [e['operation'] for e in self.live(did)],
                'log/last': lambda: self.head(did)['operation']}.get(rest)
        return reply(200, copy.deepcopy(body())) if body else reply(404, {'message': 'not found'})

    def post(self, url, json=None, **kwargs):
        self.posts.append((url, copy.deepcopy(json)))
        if self.before_post:
            hook, self.before_post = self.before_post, None
            hook()
        fault, self.post_fault = self.post_fault, None
        if fault and not fault.applied:
            return fault(url)
        if not url.startswith(self.base):
            return reply(502, {'message': 'wrong host'})
        why = self.submit(url.removeprefix(self.base), json)
        if why:
            self.refusals.append(why)
            return reply(400, {'message': why})
        return fault(url) if fault else reply(200, 'OK')


class Fault:
    """kind: a status, or an exception. applied: whether a posted operation took effect anyway."""

    def __init__(self, kind, applied=False):
        self.kind, self.applied = kind, applied

    def __call__(self, url):
        import requests
        if isinstance(self.kind, int):
            return reply(self.kind, [] if self.kind == 503 else {'message': 'injected'})
        raise getattr(requests, self.kind)('injected')
