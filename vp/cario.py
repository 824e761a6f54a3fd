"""Independent DAG-CBOR, CID and CAR codecs (no dag_cbor, multiformats, libipld or carbox).

CIDs are raw bytes: 0x01 codec 0x12 0x20 digest. In decoded values a link is a
``Link`` instance wrapping those bytes.
"""
import base64
import hashlib
import struct

DAG_CBOR, RAW = 0x71, 0x55


class Bad(ValueError):
    """Malformed bytes."""


class Link:
    __slots__ = ('cid',)

    def __init__(self, cid):
        self.cid = bytes(cid)

    def __eq__(self, other):
        return isinstance(other, Link) and self.cid == other.cid

    def __hash__(self):
        return hash(self.cid)

    def __repr__(self):
        return f'Link({cid_str(self.cid)})'


def cid_of(data, codec=DAG_CBOR):
    return bytes([1, codec, 0x12, 0x20]) + hashlib.sha256(data).digest()


def cid_str(cid):
    return 'b' + base64.b32encode(bytes(cid)).decode().lower().rstrip('=')


def cid_bytes(s):
    """From a base32 string, or anything with a bytes() form (eg multiformats.CID)."""
    if isinstance(s, str):
        if not s.startswith('b'):
            raise Bad(f'not a base32 CID: {s}')
        s = s[1:].upper()
        return base64.b32decode(s + '=' * (-len(s) % 8))
    return bytes(s)


# DAG-CBOR
def encode(v):
    out = bytearray()
    _enc(v, out)
    return bytes(out)


def _head(major, n, out):
    if n < 24:
        out.append(major << 5 | n)
    elif n < 1 << 8:
        out += bytes([major << 5 | 24, n])
    elif n < 1 << 16:
        out.append(major << 5 | 25)
        out += struct.pack('>H', n)
    elif n < 1 << 32:
        out.append(major << 5 | 26)
        out += struct.pack('>I', n)
    else:
        out.append(major << 5 | 27)
        out += struct.pack('>Q', n)


def _enc(v, out):
    if v is None:
        out.append(0xf6)
    elif v is True:
        out.append(0xf5)
    elif v is False:
        out.append(0xf4)
    elif isinstance(v, int):
        _head(0, v, out) if v >= 0 else _head(1, -1 - v, out)
    elif isinstance(v, float):
        out.append(0xfb)
        out += struct.pack('>d', v)
    elif isinstance(v, (bytes, bytearray)):
        _head(2, len(v), out)
        out += v
    elif isinstance(v, str):
        b = v.encode('utf-8')
        _head(3, len(b), out)
        out += b
    elif isinstance(v, (list, tuple)):
        _head(4, len(v), out)
        for x in v:
            _enc(x, out)
    elif isinstance(v, dict):
        _head(5, len(v), out)
        for k in sorted(v, key=lambda k: (len(k.encode()), k.encode())):
            _enc(k, out)
            _enc(v[k], out)
    elif isinstance(v, Link):
        out += b'\xd8\x2a'
        _enc(b'\0' + v.cid, out)
    else:
        # multiformats.CID and friends
        out += b'\xd8\x2a'
        _enc(b'\0' + bytes(v), out)


def decode(data):
    v, pos = _dec(bytes(data), 0)
    if pos != len(data):
        raise Bad('trailing bytes')
    return v


def _dec(b, i):
    if i >= len(b):
        raise Bad('truncated')
    ib = b[i]
    major, low = ib >> 5, ib & 31
    i += 1
    if major == 7:
        if ib == 0xf4:
            return False, i
        if ib == 0xf5:
            return True, i
        if ib == 0xf6:
            return None, i
        if ib == 0xfb:
            return struct.unpack('>d', b[i:i + 8])[0], i + 8
        raise Bad(f'simple value {ib:x}')
    if low < 24:
        n = low
    elif low <= 27:
        size = 1 << (low - 24)
        if i + size > len(b):
            raise Bad('truncated')
        n = int.from_bytes(b[i:i + size], 'big')
        i += size
        if n < (24 if size == 1 else 1 << (8 * size // 2)):
            raise Bad('non-minimal integer')
    else:
        raise Bad('indefinite length')
    if major == 0:
        return n, i
    if major == 1:
        return -1 - n, i
    if major in (2, 3):
        if i + n > len(b):
            raise Bad('truncated')
        s = b[i:i + n]
        return (s if major == 2 else s.decode('utf-8')), i + n
    if major == 4:
        out = []
        for _ in range(n):
            v, i = _dec(b, i)
            out.append(v)
        return out, i
    if major == 5:
        out, last = {}, None
        for _ in range(n):
            k, i = _dec(b, i)
            if not isinstance(k, str):
                raise Bad('non-string key')
            ks = (len(k.encode()), k.encode())
            if last is not None and ks <= last:
                raise Bad('unsorted map')
            last = ks
            out[k], i = _dec(b, i)
        return out, i
    if major == 6:
        if n != 42:
            raise Bad(f'tag {n}')
        v, i = _dec(b, i)
        if not isinstance(v, bytes) or v[:1] != b'\0':
            raise Bad('bad link')
        return Link(v[1:]), i
    raise Bad('?')


def plain(v):
    """Replaces CID-like leaves with Link so values compare across libraries."""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (str, int, float, bool, bytes, type(None), Link)):
        return v
    return Link(bytes(v))


# CAR v1
def varint(b, i):
    n = shift = 0
    while True:
        if i >= len(b):
            raise Bad('truncated varint')
        n |= (b[i] & 0x7f) << shift
        i += 1
        if not b[i - 1] & 0x80:
            return n, i
        shift += 7


def put_varint(n):
    out = bytearray()
    while n >= 0x80:
        out.append(n & 0x7f | 0x80)
        n >>= 7
    out.append(n)
    return bytes(out)


def _cid_at(b, i):
    """Length of the CIDv1 at i."""
    start = i
    ver, i = varint(b, i)
    if ver != 1:
        raise Bad(f'CID version {ver}')
    codec, i = varint(b, i)
    mh, i = varint(b, i)
    n, i = varint(b, i)
    return b[start:i + n], i + n, codec, mh


class Car:
    """roots: [cid]; blocks: {cid: bytes}; order: [cid, ...] as they appear."""

    def __init__(self, data, verify=True):
        data = bytes(data)
        n, i = varint(data, 0)
        header = decode(data[i:i + n])
        i += n
        if header.get('version') != 1:
            raise Bad('CAR version')
        self.roots = [l.cid for l in header['roots']]
        self.blocks = {}
        self.order = []
        while i < len(data):
            n, i = varint(data, i)
            if i + n > len(data):
                raise Bad('truncated CAR section')
            cid, j, codec, mh = _cid_at(data, i)
            body = data[j:i + n]
            if verify:
                if mh != 0x12 or cid[-32:] != hashlib.sha256(body).digest():
                    raise Bad(f'CAR block does not match its CID {cid_str(cid)}')
            self.blocks[cid] = body
            self.order.append(cid)
            i += n


def write_car(roots, blocks):
    """blocks: iterable of (cid, bytes)."""
    header = encode({'version': 1, 'roots': [Link(r) for r in roots]})
    out = bytearray(put_varint(len(header)) + header)
    for cid, body in blocks:
        out += put_varint(len(cid) + len(body)) + cid + body
    return bytes(out)
