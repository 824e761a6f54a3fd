"""Independent commit signature verification (secp256k1, low-S)."""
from . import cario

ORDER = {'secp256k1': 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141,
         'secp256r1': 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551}


def verify(obj, pub):
    """'' if obj's sig is a valid low-S signature by pub over the rest, else why not."""
    from cryptography.exceptions import InvalidSignature
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import ec
    from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
    sig = obj.get('sig')
    if not isinstance(sig, bytes) or len(sig) != 64:
        return f'signature is not 64 bytes: {sig!r}'
    return verify_raw(cario.encode({k: v for k, v in obj.items() if k != 'sig'}), sig, pub)


def verify_raw(msg, sig, pub):
    from cryptography.exceptions import InvalidSignature
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import ec
    from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
    r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
    if s > ORDER[pub.curve.name] // 2:
        return 'high-S'
    if not r or not s:
        return 'zero'
    try:
        pub.verify(encode_dss_signature(r, s), msg, ec.ECDSA(hashes.SHA256()))
    except InvalidSignature:
        return 'does not verify'
    return ''


def sign(obj, key, high=False):
    """obj with an independent signature; high: the other, non-canonical form."""
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import ec
    from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature
    r, s = decode_dss_signature(key.sign(cario.encode(obj), ec.ECDSA(hashes.SHA256())))
    n = ORDER[key.curve.name]
    if (s > n // 2) != high:
        s = n - s
    return {**obj, 'sig': r.to_bytes(32, 'big') + s.to_bytes(32, 'big')}
