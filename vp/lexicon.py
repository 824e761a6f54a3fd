"""Independent validator for the protocol's schemas (the lexicon files that lexrpc bundles)."""
import base64
import importlib.util
import json
import os
import re

from . import cario

KNOWN_NSIDS = None
_docs = {}

DID = re.compile(r'did:[a-z]+:[a-zA-Z0-9._:%-]*[a-zA-Z0-9._-]')
HANDLE = re.compile(r'([a-zA-Z0-9]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?\.)+[a-zA-Z]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?')
NSID = re.compile(r'[a-zA-Z]([a-zA-Z0-9-]{0,62}[a-zA-Z0-9])?(\.[a-zA-Z0-9]([a-zA-Z0-9-]{0,62}[a-zA-Z0-9])?)+(\.[a-zA-Z][a-zA-Z0-9]{0,62})')
RKEY = re.compile(r'[A-Za-z0-9._~:-]{1,512}')
TID = re.compile(r'[234567abcdefghij][234567abcdefghijklmnopqrstuvwxyz]{12}')
DATETIME = re.compile(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d{1,20})?(Z|[+-]\d\d:\d\d)')


class Invalid(ValueError):
    pass


def root():
    return os.path.join(os.path.dirname(importlib.util.find_spec('lexrpc').origin), 'lexicons')


def doc(nsid):
    if nsid not in _docs:
        path = os.path.join(root(), *nsid.split('.')) + '.json'
        _docs[nsid] = json.load(open(path)) if os.path.isfile(path) else None
    return _docs[nsid]


def defn(ref, base):
    """(definition, NSID it's from)"""
    if ref.startswith('#'):
        ref = base + ref
    nsid, _, name = ref.partition('#')
    d = doc(nsid)
    if d is None:
        raise LookupError(f'no lexicon {nsid}')
    return d['defs'][name or 'main'], nsid


def nsid_of(s):
    return bool(NSID.fullmatch(s)) and len(s) <= 317


def rkey(s):
    return bool(RKEY.fullmatch(s)) and s not in ('.', '..')


def identifier(s):
    return bool(DID.fullmatch(s)) or handle(s)


def handle(s):
    return bool(HANDLE.fullmatch(s)) and len(s) <= 253


def datetime_of(s):
    m = DATETIME.fullmatch(s)
    if not m or s.endswith('-00:00') or m[1] == '0000':
        return False
    import datetime
    try:
        datetime.datetime(*(int(x) for x in m.groups()[:6]))
    except ValueError:
        return False
    return True


def cid(s):
    try:
        raw = cario.cid_bytes(s)
    except (ValueError, KeyError, IndexError):
        return False
    return len(raw) == 36 and raw[:4] in (b'\x01\x71\x12\x20', b'\x01\x55\x12\x20')


def at_uri(s):
    if not s.startswith('at://') or len(s) > 8192:
        return False
    parts = s[5:].split('/')
    return (1 <= len(parts) <= 3 and identifier(parts[0]) and all(nsid_of(p) for p in parts[1:2])
            and all(rkey(p) for p in parts[2:3]))


FORMATS = {'did': lambda s: bool(DID.fullmatch(s)) and len(s) <= 2048, 'handle': handle, 'nsid': nsid_of, 'tid': lambda s: bool(TID.fullmatch(s)),
           'datetime': datetime_of, 'at-identifier': identifier, 'record-key': rkey, 'cid': cid, 'at-uri': at_uri,
           'uri': lambda s: bool(re.fullmatch(r'[a-zA-Z][a-zA-Z0-9+.-]*:\S+', s)), 'language': lambda s: bool(re.fullmatch(r'[a-zA-Z0-9-]+', s))}


class Json:
    """How the data model's own types look in JSON."""
    @staticmethod
    def link(v):
        return isinstance(v, dict) and set(v) == {'$link'} and isinstance(v['$link'], str) and cid(v['$link'])

    @staticmethod
    def size(v):
        if not (isinstance(v, dict) and set(v) == {'$bytes'} and isinstance(v['$bytes'], str)):
            return None
        try:
            return len(base64.b64decode(v['$bytes'] + '=' * (-len(v['$bytes']) % 4), validate=True))
        except ValueError:
            return None


class Cbor:
    @staticmethod
    def link(v):
        return isinstance(v, cario.Link) and len(v.cid) == 36

    @staticmethod
    def size(v):
        return len(v) if isinstance(v, bytes) else None


def validate(val, schema, base, enc, at=''):
    """Raises Invalid unless val conforms."""
    def need(cond, msg):
        if not cond:
            raise Invalid(f'{at or "value"} {msg}: {val!r:.120}')
    t = schema['type']
    if t == 'ref':
        d, base = defn(schema['ref'], base)
        return validate(val, d, base, enc, at)
    if t == 'union':
        need(isinstance(val, dict) and isinstance(val.get('$type'), str), 'is no typed object')
        return
    if t == 'object':
        need(isinstance(val, dict) and not enc.link(val) and enc.size(val) is None, 'is no object')
        for k in schema.get('required', ()):
            need(k in val, f'lacks {k}')
        for k, v in val.items():
            sub = schema.get('properties', {}).get(k)
            if v is None and k in schema.get('nullable', ()):
                continue
            if sub is None:
                if k != '$type':
                    need(False, f'has undefined field {k}')
                continue
            validate(v, sub, base, enc, f'{at}.{k}')
    elif t == 'array':
        need(isinstance(val, list), 'is no array')
        need(len(val) <= schema.get('maxLength', 10**9) and len(val) >= schema.get('minLength', 0), f'has {len(val)} items')
        for i, v in enumerate(val):
            validate(v, schema['items'], base, enc, f'{at}[{i}]')
    elif t == 'string':
        need(isinstance(val, str), 'is no string')
        n = len(val.encode())
        need(n <= schema.get('maxLength', 10**9) and n >= schema.get('minLength', 0), f'is {n} bytes long')
        if f := schema.get('format'):
            need(FORMATS[f](val), f'is no {f}')
        need(val in schema.get('enum', (val,)), 'is not one of the values')
    elif t == 'integer':
        need(type(val) is int, 'is no integer')
        need(schema.get('minimum', val) <= val <= schema.get('maximum', val), 'is out of range')
    elif t == 'boolean':
        need(type(val) is bool, 'is no boolean')
    elif t == 'cid-link':
        need(enc.link(val), 'is no CID link')
    elif t == 'bytes':
        n = enc.size(val)
        need(n is not None, 'are no bytes')
        need(n <= schema.get('maxLength', 10**9), f'are {n} bytes')
    elif t == 'unknown':
        need(isinstance(val, dict), 'is no object')
        if enc is Json:
            model(val, at)
    else:
        raise LookupError(f'type {t}')


def model(v, at):
    """JSON that's in the data model."""
    if isinstance(v, dict):
        if '$link' in v or '$bytes' in v:
            if not Json.link(v) and Json.size(v) is None:
                raise Invalid(f'{at} is outside the data model: {v!r:.100}')
            return
        for k, x in v.items():
            model(x, f'{at}.{k}')
    elif isinstance(v, list):
        for i, x in enumerate(v):
            model(x, f'{at}[{i}]')


MESSAGES = {'#commit', '#sync', '#identity', '#account', '#info'}
SUBSCRIBE = 'com.atproto.sync.subscribeRepos'


def message(frame):
    """One frame of the stream, as the bytes on the wire. Returns its header and payload."""
    try:
        h, end = cario._dec(frame, 0)
        p, end = cario._dec(frame, end)
    except (cario.Bad, ValueError, IndexError) as e:
        raise Invalid(f'not two CBOR items: {e!r}')
    if end != len(frame):
        raise Invalid('more than two CBOR items')
    if not isinstance(h, dict) or not isinstance(p, dict):
        raise Invalid(f'no maps: {h!r:.50} {p!r:.50}')
    if cario.encode(h) + cario.encode(p) != frame:
        raise Invalid('not encoded canonically')
    if h.get('op') == -1:
        if set(h) != {'op'}:
            raise Invalid(f'header {h}')
        if not isinstance(p.get('error'), str) or not isinstance(p.get('message', ''), str) or set(p) - {'error', 'message'}:
            raise Invalid(f'error {p}')
        names = {e['name'] for e in doc(SUBSCRIBE)['defs']['main']['errors']}
        if p['error'] not in names:
            raise Invalid(f'error {p["error"]} is none of {names}')
        return h, p
    if set(h) != {'op', 't'} or h['op'] != 1:
        raise Invalid(f'header {h}')
    if h['t'] == '#tombstone':       # from before #account
        validate(p, {'type': 'object', 'required': ['seq', 'did', 'time'], 'properties': {
            'seq': {'type': 'integer', 'minimum': 1}, 'did': {'type': 'string', 'format': 'did'}, 'time': {'type': 'string', 'format': 'datetime'}}}, SUBSCRIBE, Cbor)
        return h, p
    if h['t'] not in MESSAGES:
        raise Invalid(f'unknown message {h["t"]}')
    validate(p, {'type': 'ref', 'ref': h['t']}, SUBSCRIBE, Cbor)
    if 'seq' in p and p['seq'] < 1:
        raise Invalid(f'seq {p["seq"]}')
    if h['t'] == '#account':
        known = defn('#account', SUBSCRIBE)[0]['properties']['status']['knownValues']
        if p['active'] and p.get('status') or not p['active'] and p.get('status', 'deactivated') not in known:
            raise Invalid(f'active {p["active"]} with status {p.get("status")}')
    elif h['t'] == '#info':
        if p['name'] not in defn('#info', SUBSCRIBE)[0]['properties']['name']['knownValues']:
            raise Invalid(f'info {p}')
    elif h['t'] == '#commit':
        for op in p['ops']:
            a = op['action']
            if (a not in ('create', 'update', 'delete') or (op['cid'] is None) != (a == 'delete') or ('prev' in op) != (a != 'create')):
                raise Invalid(f'operation {op!r:.200}')
            coll, _, key = op['path'].partition('/')
            if not nsid_of(coll) or not rkey(key):
                raise Invalid(f'path {op["path"]}')
        if p['rebase'] or p['tooBig']:
            raise Invalid('deprecated flags are set')
    if 'rev' in p and not TID.fullmatch(p['rev']):
        raise Invalid(f'rev {p["rev"]}')
    return h, p
