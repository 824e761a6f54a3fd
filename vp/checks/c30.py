"""C30: DIDs, handles, keys and URIs resolve and round-trip correctly."""
import json
import threading
from urllib.parse import urlsplit

from vp import lib, plcdir

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: a scripted network under requests and under the real dnspython resolver records every host asked and answers; results of resolution, and of the codecs and '
             'document readers, are compared with an independent reading of the identifiers, documents and keys')
NOTE = ('Short did:plc ids are accepted, as the tests need. DNS answers reached through an alias may or may not count, and with several DIDs in DNS any of them, the HTTPS one or none '
        'does. Malformed keys in documents: none or ValueError. Redirects and the six-hour cache\'s expiry are not exercised.')
RULE = ('random keys on both curves, URIs, documents with unrelated and malformed entries, valid and malformed identifiers, DNS and HTTPS answers. '
        'Distinct: (function, kind of input, kind of answers).')
REQUIRED = ('keys', 'bad_keys', 'uris', 'bad_uris', 'handles_read', 'keys_read', 'no_handle', 'no_key', 'plc', 'web', 'web_path', 'web_port', 'bad_dids', 'bad_handles', 'dns', 'https',
            'dns_split', 'dns_other', 'dns_alias', 'neither', 'errors', 'cached', 'concurrent')
CASE_TIMEOUT = 240


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for mode, n in (('codec', 40), ('docs', 80), ('dids', 120), ('handles', 160)):
        out += [{'seed': f'{seed}.{mode}{i}', 'mode': mode} for i in range(n if q else n * 25)]
    return out


class Net:
    """Everything the resolver code can reach."""

    def __init__(self):
        self.lock = threading.Lock()
        self.http, self.dns = {}, {}
        self.clear()

    def clear(self):
        self.asked, self.names = [], []

    def send(self, request, **kwargs):
        import requests
        with self.lock:
            self.asked.append((request.method, request.url))
            answer = self.http.get(request.url, (404, 'not found'))
        if isinstance(answer, str):
            raise getattr(requests, answer)('injected')
        r = plcdir.reply(*answer)
        r.url, r.request = request.url, request
        return r


NET = None


def setup():
    global NET
    lib.boot()
    import dns.exception
    import dns.flags
    import dns.message
    import dns.nameserver
    import dns.rcode
    import dns.resolver
    import dns.rrset
    import requests
    from requests.adapters import BaseAdapter
    from webutil import util as wutil
    NET = Net()

    class Adapter(BaseAdapter):
        def send(self, request, **kwargs):
            return NET.send(request, **kwargs)

        def close(self):
            pass

    class Nameserver(dns.nameserver.Nameserver):
        def __str__(self):
            return 'scripted'

        def kind(self):
            return 'scripted'

        def is_always_max_size(self):
            return True

        def answer_nameserver(self):
            return 'scripted'

        def answer_port(self):
            return 53

        def query(self, request, timeout, source, source_port, max_size, one_rr_per_rrset=False, ignore_trailing=False):
            q = request.question[0]
            name = q.name.to_text()
            with NET.lock:
                NET.names.append((name, dns.rdatatype.to_text(q.rdtype)))
                script = NET.dns.get(name.lower())
            if script == 'timeout':
                raise dns.exception.Timeout
            resp = dns.message.make_response(request)
            resp.flags |= dns.flags.RA
            if script is None:
                resp.set_rcode(dns.rcode.NXDOMAIN)
                return resp
            owner = name
            if script.get('alias'):
                resp.answer.append(dns.rrset.from_text(owner, 300, 'IN', 'CNAME', script['alias']))
                owner = script['alias']
            if script['texts']:
                resp.answer.append(dns.rrset.from_text(owner, 300, 'IN', 'TXT', *script['texts']))
            return dns.message.from_wire(resp.to_wire())

    resolver = dns.resolver.Resolver(configure=False)
    resolver.nameservers = [Nameserver()]
    resolver.search = [dns.name.from_text('evil.example.')]
    resolver.lifetime = .05
    dns.resolver.default_resolver = resolver
    dns.resolver.override_system_resolver  # loads
    for prefix in ('http://', 'https://'):
        wutil.session.mount(prefix, Adapter())


def run_case(case, ctx):
    from arroba import did
    rng = lib.rng_of('c30', case['seed'])
    for f in (did.resolve_plc, did.resolve_web, did.resolve_handle):
        getattr(f, 'cache', {}).clear()
    NET.http.clear()
    NET.dns.clear()
    NET.clear()
    {'codec': codec, 'docs': docs, 'dids': dids, 'handles': handles}[case['mode']](rng, ctx)
    ctx.ran()


def new_key(rng):
    from cryptography.hazmat.primitives.asymmetric import ec
    return ec.derive_private_key(rng.choice((1, 2, 3, rng.randrange(1, 2**30), rng.randrange(1, 2**250))), rng.choice((ec.SECP256K1(), ec.SECP256R1()))).public_key()


def caught(fn, *args, **kwargs):
    try:
        return fn(*args, **kwargs), None
    except Exception as e:
        return None, e


def nsid(rng):
    return '.'.join(rng.sample(('app', 'bsky', 'com', 'a-b', 'feed', 'x0', 'co'), rng.choice((2, 3, 5)))) + '.' + rng.choice(('post', 'likeOf', 'p'))


def rkey(rng):
    return rng.choice(('self', '3jzfcijpj2z2a', 'a', 'x' * 512, 'a:b', 'a.b', '~x', '_-_', 'did:plc:abc', 'example.com', 'A~b:c.d_e-f', '1', lib.rkey(rng)))


def a_did(rng):
    if rng.random() < .5:
        return 'did:plc:' + ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz234567') for _ in range(24))
    return 'did:web:' + host(rng) + rng.choice(('', '', '%3A8080', ':u:alice'))


def host(rng):
    return '.'.join(rng.sample(('alice', 'bob', 'x', 'a-b', '1up', 'Mixed', 'xn--bcher-kva', 'l' * 63), rng.choice((1, 2, 3)))) + rng.choice(('.example', '.org', '.co-op'))


# codecs
def codec(rng, ctx):
    from arroba import did, util
    from cryptography.hazmat.primitives.asymmetric import ec
    for _ in range(12):
        pub = new_key(rng)
        text = did.encode_did_key(pub)
        ctx.check(text == plcdir.did_key(pub), f'key encoded as {text}, should be {plcdir.did_key(pub)}', 'encode-key')
        back, err = caught(did.decode_did_key, plcdir.did_key(pub))
        ctx.check(err is None and back == pub and back.curve.name == pub.curve.name, f'{text} decoded to another key or {err!r}', 'decode-key')
        ctx.count('keys')
        ctx.sig(('key', pub.curve.name))
        # not keys
        raw = plcdir.un58(text[9:])
        kind, bad = rng.choice((
            ('empty', ''), ('empty', 'did:key:'), ('empty', 'did:key:z'), ('truncated', 'did:key:z' + lib.b58(raw[:-1])), ('long', 'did:key:z' + lib.b58(raw + b'\0')),
            ('codec', 'did:key:z' + lib.b58(b'\xed\x01' + raw[2:])), ('codec', 'did:key:z' + lib.b58(b'\x81\x24' + raw[2:])), ('alphabet', text[:-1] + '0'), ('alphabet', text[:20] + 'l' + text[21:]),
            ('prefix', text[9:]), ('point', 'did:key:z' + lib.b58(raw[:2] + b'\5' + raw[3:])), ('point', 'did:key:z' + lib.b58(raw[:2] + b'\2' + b'\xff' * 32)),
            ('type', None), ('type', 7)))
        got, err = caught(did.decode_did_key, bad)
        ctx.check(isinstance(err, ValueError), f'malformed key {bad!r} ({kind}) decoded to {got!r} or raised {err!r}', 'bad-key')
        ctx.count('bad_keys')
        ctx.sig(('bad key', kind, bad if not bad else None))
    for curve in (ec.SECP384R1(), ec.SECP521R1(), ec.BrainpoolP256R1()):
        got, err = caught(did.encode_did_key, ec.derive_private_key(5, curve).public_key())
        ctx.check(isinstance(err, ValueError), f'{curve.name} key encoded as {got!r}', 'bad-curve')
    for _ in range(20):
        parts = (a_did(rng) if rng.random() < .8 else host(rng), nsid(rng), rkey(rng))
        want = '/'.join(('at:/', *parts))
        uri, err = caught(util.at_uri, *parts)
        ctx.check(uri == want, f'at_uri of {parts} is {uri!r} or raised {err!r}', 'at-uri')
        for tail in ('', '/', '#/text', '?x=y'):
            got, err = caught(util.parse_at_uri, want + tail)
            ctx.check(got is not None and tuple(got) == parts, f'{want + tail} parsed into {got!r} or raised {err!r}', 'parse-uri')
        for n, tail in ((1, ''), (1, '/'), (2, ''), (2, '/')):
            short = 'at://' + '/'.join(parts[:n]) + tail
            got, err = caught(util.parse_at_uri, short)
            ctx.check(got is not None and tuple(got) == parts[:n] + ('',) * (3 - n), f'{short} parsed into {got!r} or raised {err!r}', 'parse-uri')
        ctx.count('uris')
        bad = rng.choice((None, '', parts[0], f'http://{parts[0]}/{parts[1]}/{parts[2]}', 'at:' + parts[0], 'at:/' + parts[0], want[1:], 'x' + want, ' ' + want, 'xat://a/b/c'))
        got, err = caught(util.parse_at_uri, bad)
        ctx.check(isinstance(err, ValueError), f'{bad!r} parsed into {got!r} or raised {err!r}', 'bad-uri')
        bads = [list(parts) for _ in range(3)]
        for i in range(3):
            bads[i][i] = rng.choice((None, ''))
            got, err = caught(util.at_uri, *bads[i])
            ctx.check(err is not None, f'at_uri of {bads[i]} is {got!r}', 'at-uri-missing')
        ctx.count('bad_uris')


# documents
def docs(rng, ctx):
    from arroba import did
    for _ in range(25):
        me, other = a_did(rng), a_did(rng)
        handle, pub = host(rng), new_key(rng)
        akas = [f'https://{host(rng)}/', 'acct:a@b', f'http://{host(rng)}', 'at:nope', 'xat://nope.example', ' at://spaced.example', 'AT', '', f'did:web:{host(rng)}']
        akas = rng.sample(akas, rng.randrange(len(akas)))
        if rng.random() < .3:
            akas.insert(rng.randrange(len(akas) + 1), rng.choice((None, 3, {}, [], ['at://list.example'], {'at://x.example': 1}, 'at://', 'at:///x')))
        want_handle = None
        if rng.random() < .75:
            akas.insert(rng.randrange(len(akas) + 1), f'at://{handle}')
            want_handle = handle
            if rng.random() < .3:
                akas.append(f'at://{host(rng)}.second.example')
        mb = plcdir.did_key(pub).removeprefix('did:key:')
        decoy = plcdir.did_key(new_key(rng)).removeprefix('did:key:')
        methods = []
        for vid in rng.sample((f'{me}#other', f'{other}#atproto', f'{me}#atproto_label', '#atproto_label', '#other', f'{me}', 'atproto', f'{me}#ATPROTO', f'{me}#', f'x{me}#atproto', None,
                               f'{me}#atproto#atproto', f'{me}x#atproto', f'{me}/#atproto', '#'), rng.choice((0, 1, 3, 8))):
            m = {'id': vid, 'type': 'Multikey', 'controller': me, 'publicKeyMultibase': rng.choice((decoy, decoy, 'garbage'))}
            if vid is None:
                m.pop('id')
            methods.append(m)
        if rng.random() < .25:
            methods.insert(rng.randrange(len(methods) + 1), rng.choice((None, 'did:plc:x#atproto', 5, [], {})))
        want_key = None
        kind = rng.choice(('full', 'full', 'relative', 'none', 'no key', 'bad key', 'did:key', 'controller'))
        if kind != 'none':
            m = {'id': '#atproto' if kind == 'relative' else f'{me}#atproto', 'type': 'Multikey', 'controller': other if kind == 'controller' else me, 'publicKeyMultibase': mb}
            want_key = plcdir.did_key(pub)
            if kind == 'no key':
                m.pop('publicKeyMultibase')
                m['publicKeyJwk'] = {}
                want_key = None
            elif kind == 'bad key':
                m['publicKeyMultibase'] = rng.choice(('z', mb[:-1] + '0', mb[1:], 'garbage', 'z' + mb, ''))
                want_key = None
            elif kind == 'did:key':
                m['publicKeyMultibase'] = 'did:key:' + mb
            methods.insert(rng.randrange(len(methods) + 1), m)
        doc = {'id': me, 'alsoKnownAs': akas, 'verificationMethod': methods, 'service': []}
        if rng.random() < .1:
            field = rng.choice(('alsoKnownAs', 'verificationMethod'))
            if rng.random() < .5:
                del doc[field]
            else:
                doc[field] = None
            if field == 'alsoKnownAs':
                want_handle = None
            else:
                want_key, kind = None, 'none'
        elif rng.random() < .05:
            del doc['id']
            want_key, kind = None, 'no id'
        doc = json.loads(json.dumps(doc))
        before = json.dumps(doc)
        got, err = caught(did.get_handle, doc)
        ctx.check(err is None and got == want_handle, f'handle of {doc.get("alsoKnownAs")} is {got!r} or raised {err!r}, should be {want_handle!r}', 'get-handle')
        ctx.count('handles_read' if want_handle else 'no_handle')
        got, err = caught(did.get_signing_key, doc)
        got = got and plcdir.did_key(got)
        ctx.check(got == want_key and (err is None or kind == 'bad key' and isinstance(err, ValueError)),
                  f'signing key ({kind}) of {doc.get("id")} with {doc.get("verificationMethod")} is {got!r} or raised {err!r}, should be {want_key!r}', 'get-key')
        ctx.count('keys_read' if want_key else 'no_key')
        ctx.check(json.dumps(doc) == before, f'document changed from {before} to {doc}', 'mutated')
        ctx.sig(('doc', kind, want_handle is None))
        # from operations
        op = {'type': 'plc_operation', 'did': me, 'rotationKeys': [plcdir.did_key(pub)], 'alsoKnownAs': [a for a in akas if isinstance(a, str)], 'prev': None,
              'verificationMethods': {'atproto': plcdir.did_key(pub)}, 'services': {'atproto_pds': {'type': 'AtprotoPersonalDataServer', 'endpoint': f'https://{host(rng)}'}}}
        for extra in rng.sample(('atproto_label', 'other'), rng.choice((0, 1))):
            op['verificationMethods'][extra] = 'did:key:' + decoy
            op['services'][extra] = {'type': 'Other', 'endpoint': 'https://other'}
        got, err = caught(did.plc_operation_to_did_doc, op)
        from vp.checks.c29 import norm
        want = plcdir.doc_of(me, op)
        ctx.check(got is not None and norm(got) == norm(want), f'operation {op} became {got} or raised {err!r}, should be {want}', 'op-doc')


# DIDs
BAD_DIDS = ['', 'did', 'did:', 'did:plc', 'did:web', 'did:plc:', 'did:web:', 'did:key:zQ3sh', 'did:foo:bar', 'DID:plc:abc', 'did:PLC:abc', 'plc:abc', None, 1, b'did:plc:abc', 2.5, True,
            'did:plc:abc/../../x', 'did:plc:../x', 'did:plc:a/log/audit', 'did:plc:a?x', 'did:plc:a#x', 'did:plc:a b', 'did:plc:abc\n', ' did:plc:abc', 'did:plc:abc ', 'did:plc:a%2Fb', 'did:plc:é',
            'did:plc:a\\b', 'did:plc:a@evil.example', 'did:plc:\0', 'did:web:/', 'did:web:a.example/', 'did:web:a.example/x', 'did:web:a.example%2Fx', 'did:web:evil.example%2F..', 'did:web:a.example?x',
            'did:web:a.example%3Fx', 'did:web:a.example#x', 'did:web:a.example%23', 'did:web:me@evil.example', 'did:web:me%40evil.example', 'did:web:a.example%3Apw%40evil.example',
            'did:web:a.example%3A80%40evil.example', 'did:web:a b.example', 'did:web:a.example\n', 'did:web:a.example%0A', 'did:web::', 'did:web::a', 'did:web:a.example:', 'did:web:a.example::x',
            'did:web:a.example%3Ax', 'did:web:a.example%3A', 'did:web:%3A80', 'did:web:.a.example', 'did:web:a..example', 'did:web:a.example%5Cx', 'did:web:a.example\\x', 'did:web:é.example',
            'did:web:a.example:u%', 'did:web:a.example:u%2', 'did:web:a.example:u%zz', 'did:web:a.example:u/x', 'did:web:a.example:u?x', 'did:web:a.example:u#x', 'did:web:[::1]', 'did:web:a.example%',
            'did:web:%2e%2e', 'did:web:a.example%252Fx', 'did:web:https://a.example', 'did:web:a.example: ']


def url_for(d):
    """Where a DID's document is, and nowhere else."""
    if d.startswith('did:plc:'):
        return f'https://plc.example/{d}'
    name, *path = d.removeprefix('did:web:').split(':')
    name, _, port = name.replace('%3a', '%3A').partition('%3A')
    return f'https://{name.lower()}{":" + port if port else ""}/{"/".join(path) or ".well-known"}/did.json'


def getter(rng):
    """({} or {'get_fn': ...}, so the session is used as default or given)."""
    if rng.random() < .4:
        return {}
    from webutil import util as wutil
    return {'get_fn': lambda url, **kw: wutil.session.get(url, **kw)}


def dids(rng, ctx):
    from arroba import did
    import requests
    get = getter(rng)
    known = {}
    for _ in range(10):
        d = a_did(rng) if rng.random() < .7 else rng.choice(('did:plc:a', 'did:plc:a2', 'did:web:localhost', 'did:web:localhost%3A3000', 'did:web:localhost%3a4000', 'did:web:a.example', 'did:web:a.example:b', 'did:web:b.a.example', 'did:web:a.example:b:c',
                            'did:web:a.example%3A8443:b', 'did:web:a.example:user%20x', 'did:web:a.example:u%2Fv', 'did:web:a.example:u%3Fv', 'did:web:a.example:u%23v', 'did:web:a.example:x%3Ay', 'did:web:1.example'))
        known[d] = rng.choice(((200, {'id': d, 'n': len(known)}), (200, {'id': d, 'n': len(known)}), (200, {'id': d, 'didDocument': {'id': d}, 'document': 1, 'service': [], 'deactivated': True}), (200, {'id': d, 'x': [None, {'é': 1.5}]})) + ((404, {'message': 'no'}), (500, {'id': d}), (410, {'message': 'tombstone'}), (200, 'not JSON'), 'ConnectionError', 'Timeout'))
        NET.http[url_for(d)] = known[d]
    for d, answer in known.items():
        fns = [did.resolve, did.resolve_plc if d.startswith('did:plc:') else did.resolve_web]
        fn = rng.choice(fns)
        NET.clear()
        got, err = caught(fn, d, **get)
        asked = [u for _, u in NET.asked]
        ctx.check(asked == [url_for(d)], f'{d} asked {NET.asked}, should be {url_for(d)}', 'asked')
        ctx.check(not NET.names, f'{d} looked up {NET.names}', 'asked')
        if not isinstance(answer, str) and answer[0] == 200 and isinstance(answer[1], dict):
            ctx.check(got == answer[1], f'{d} resolved to {got!r} or raised {err!r}, the answer was {answer}', 'answer')
            again, err = caught(rng.choice(fns), d, **get)
            ctx.check(again == answer[1], f'{d} resolved to {again!r} or raised {err!r} the second time', 'answer')
            ctx.count('cached')
        else:
            ctx.check(isinstance(err, (requests.RequestException, ValueError)), f'{d} resolved to {got!r} or raised {err!r}, the answer was {answer}', 'error')
            # it must not stick
            NET.http[url_for(d)] = known[d] = (200, {'id': d, 'later': True})
            got, err = caught(fn, d, **get)
            ctx.check(got == known[d][1], f'{d} resolved to {got!r} or raised {err!r} after failing before', 'sticky')
            ctx.count('errors')
        ctx.count('plc' if d.startswith('did:plc:') else 'web')
        if d.startswith('did:web:'):
            ctx.count('web_path', d.count(':') > 2)
            ctx.count('web_port', '%3a' in d.lower())
        ctx.sig(('did', d.split(':')[1], d.count(':'), '%3a' in d.lower(), answer if isinstance(answer, str) else answer[0]))
        wrong = did.resolve_web if d.startswith('did:plc:') else did.resolve_plc
        refused(ctx, wrong, d, get)
    for bad in rng.sample(BAD_DIDS, 25):
        refused(ctx, rng.choice((did.resolve, did.resolve_plc, did.resolve_web)), bad, get)
        ctx.count('bad_dids')
        ctx.sig(('bad did', repr(bad)))
    # concurrently, from a cold cache
    for f in (did.resolve_plc, did.resolve_web):
        getattr(f, 'cache', {}).clear()
    good = [d for d, a in known.items() if a[0] == 200 and isinstance(a[1], dict)] * 3
    rng.shuffle(good)
    parallel(ctx, good, lambda d: did.resolve(d, **get), lambda d: known[d][1])


def parallel(ctx, inputs, fn, want):
    results = {}

    def work(i, x):
        results[i] = caught(fn, x)

    threads = [threading.Thread(target=work, args=(i, x)) for i, x in enumerate(inputs)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    for i, x in enumerate(inputs):
        got, err = results[i]
        ctx.check(err is None and got == want(x), f'concurrently, {x} resolved to {got!r} or raised {err!r}, should be {want(x)!r}', 'concurrent')
        ctx.count('concurrent')


def refused(ctx, fn, bad, get):
    NET.clear()
    got, err = caught(fn, bad, **get)
    ctx.check(isinstance(err, ValueError) and not hasattr(err, 'request'), f'{fn.__name__}({bad!r}) returned {got!r} or raised {err!r}', 'bad-accepted')
    ctx.check(not NET.asked and not NET.names, f'{fn.__name__}({bad!r}) asked {NET.asked} {NET.names}', 'bad-asked')


# handles
BAD_HANDLES = ['', None, 1, b'a.example', 'nope', 'localhost', 'a b.example', 'c_d.example', '.x.example', 'x..example', 'x.example.', 'x.example\n', 'x.example ', '-a.example', 'a-.example', 'a.-example', 'did:plc:abc',
               'a.example/x', 'a.example?x', 'a.example#x', 'a.example:80', 'me@a.example', '@a.example', 'at://a.example', 'ünï.example', 'a.123', 'a.1x', 'a.exa mple', 'a\0.example', 'l' * 64 + '.example',
               '.'.join(['l' * 63] * 4) + '.example', 'a.%65xample', 'a.example%2Fx', '127.0.0.1', '*.example', 'a,b.example', 'a.example\\x', '．example']


def handles(rng, ctx):
    from arroba import did
    get = getter(rng)
    want, used = {}, set()
    for _ in range(10):
        h = rng.choice((host(rng), '1.2.three', 'x.y', 'a.b-c', '.'.join(['l' * 63] * 3) + '.' + 'x' * 50 + '.example'))
        if h.lower() in {u.lower() for u in used}:
            continue
        used.add(h)
        dns_did, https_did, other = a_did(rng), a_did(rng), a_did(rng)
        name, url = f'_atproto.{h}.'.lower(), f'https://{h.lower()}/.well-known/atproto-did'
        kind = rng.choice(('one', 'one', 'split', 'others', 'wrong', 'alias', 'several', 'nxdomain', 'nxdomain', 'empty', 'timeout', 'malformed'))
        decoys = ['"v=spf1 -all"', f'"xdid={other}"', f'"did ={other}"', f'"{other}"', '"did="', '"did=nope"', '"DID=did:plc:x"', f'"did=\\"{other}\\""']
        texts, ok = [], set()
        if kind == 'one':
            texts, ok = [f'"did={dns_did}"'], {dns_did}
        elif kind == 'split':
            i = rng.randrange(1, len(dns_did))
            whole = f'did={dns_did}'
            i = rng.randrange(1, len(whole))
            texts, ok = [f'"{whole[:i]}" "{whole[i:]}"'], {dns_did}
            ctx.count('dns_split')
        elif kind == 'others':
            texts, ok = rng.sample(decoys, 4), {dns_did}
            texts.insert(rng.randrange(5), f'"did={dns_did}"')
            ctx.count('dns_other')
        elif kind == 'wrong':
            texts = rng.sample(decoys, 3)
        elif kind == 'malformed':
            texts = [f'"did={rng.choice(("did:plc:a b", "did:plc:", "did:", "did:plc:a/b", dns_did + " x", "did:plc:é", "did:PLC:a", "did:web:a" + chr(9)))}"']
        elif kind == 'alias':
            texts = [f'"did={dns_did}"']
            ctx.count('dns_alias')
        elif kind == 'several':
            texts = [f'"did={dns_did}"', f'"did={other}"']
        if kind == 'timeout':
            NET.dns[name] = 'timeout'
        elif kind != 'nxdomain':
            NET.dns[name] = {'texts': [''.join(chr(b) if b < 128 else f'\\{b}' for b in t.encode()) for t in texts], 'alias': 'txt.other.example.' if kind == 'alias' else None}
        answer = rng.choice(((200, https_did),) * 3 + ((200, f'  {https_did}\n'), (404, https_did), (500, 'did:plc:x'), (200, 'nope'), (200, '<html>did:plc:x</html>'), (200, ''), (200, f'{https_did} {other}'),
                            (200, f'{https_did}\n{other}'), (200, 'did:plc:a/b'), (200, 'did:plc:<b>'), (200, f'x{https_did}'), 'ConnectionError', 'Timeout'))
        NET.http[url] = answer
        https_ok = https_did if answer[0] == 200 and answer[1].strip() == https_did else None
        if kind == 'alias':
            ok = {dns_did, https_ok}
        elif kind == 'several':
            ok = {dns_did, other, https_ok, None}
        elif not ok:
            ok = {https_ok}
        too_long = len(h) > 244  # no room for _atproto.
        NET.clear()
        got, err = caught(did.resolve_handle, h, **get)
        asked = [u for _, u in NET.asked]
        if too_long:
            ok = {https_ok}
        ctx.check(set(NET.names) == (set() if too_long else {(f'_atproto.{h}.', 'TXT')}), f'{h} looked up {NET.names}', 'asked-dns')
        ctx.check(asked in ([], [url]), f'{h} asked {asked}', 'asked')
        ctx.check(err is None and got in ok, f'{h} resolved to {got!r} or raised {err!r}; DNS had {kind} {texts}, HTTPS {answer}, so it is one of {ok}', 'answer')
        if len(ok) == 1:
            want[h] = got
        ctx.count('dns' if got == dns_did else 'https' if got == https_did else 'neither')
        ctx.sig(('handle', kind, answer if isinstance(answer, str) else answer[0], got == dns_did, got == https_did))
    for bad in rng.sample(BAD_HANDLES, 15):
        refused(ctx, did.resolve_handle, bad, get)
        ctx.count('bad_handles')
        ctx.sig(('bad handle', repr(bad)))
    getattr(did.resolve_handle, 'cache', {}).clear()
    inputs = [h for h in want if NET.dns.get(f'_atproto.{h}.'.lower()) != 'timeout'] * 2
    rng.shuffle(inputs)
    parallel(ctx, inputs, lambda h: did.resolve_handle(h, **get), lambda h: want[h])
