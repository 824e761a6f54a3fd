"""C17: nothing is written or revealed without the configured token."""
import base64
import json
import string

from vp import lib, web

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: full snapshots of stored state around requests of every kind with every sort of wrong credential; scan of every '
             'response for private keys and the token in any usual encoding')
NOTE = ('Every registered method over HTTP with bodies that would succeed if authorised, on both backends, with and without a configured token. '
        'The demo app and its proxying are not run. Writes with the right token are shown to succeed, so refusals are not vacuous.')
RULE = ('methods x HTTP verbs x credential variants (absent, empty, wrong scheme, near misses, other configured secrets, tokens in other '
        'headers, query or body) x token configured, empty or unset; createSession with right and wrong passwords; reads of everything. '
        'Distinct: (method, verb, credential variant, configured).')
REQUIRED = ('refused', 'unconfigured_refused', 'authorised_writes', 'sessions_refused', 'sessions_granted', 'scanned', 'imports_refused')
ISOLATE = True
TOKEN_CHARS = string.ascii_letters + string.digits


def cases(tier, seed):
    n = 64 if tier == 'quick' else 1200
    return [{'seed': f'{seed}.{i}', 'kind': ('memory', 'datastore')[i % 2]} for i in range(n)]


def setup():
    lib.boot(REPO_TOKEN='x', PDS_HOST='pds.example.com', PLC_HOST='plc.example.com', GETREPO_TOKEN='get-repo-token-1')
    web.app()


def secrets(i_list):
    """Private key material in every usual form."""
    from cryptography.hazmat.primitives import serialization as ser
    out = {}
    for i in i_list:
        for k in (i, i + 500):
            key = lib.privkey(k)
            n = key.private_numbers().private_value
            raw = n.to_bytes(32, 'big')
            der = key.private_bytes(ser.Encoding.DER, ser.PrivateFormat.PKCS8, ser.NoEncryption())
            forms = {'raw': raw, 'hex': raw.hex().encode(), 'HEX': raw.hex().upper().encode(),
                     'b64': base64.b64encode(raw).rstrip(b'='), 'b64url': base64.urlsafe_b64encode(raw).rstrip(b'='),
                     'decimal': str(n).encode() if n > 10**12 else None,
                     'der': der, 'derhex': der.hex().encode()}
            for off in range(3):   # any alignment inside a larger base64
                e = base64.b64encode(b'\0' * off + der)
                forms[f'pem{off}'] = e[8:-8]
            pem = key.private_bytes(ser.Encoding.PEM, ser.PrivateFormat.PKCS8, ser.NoEncryption())
            forms['pemline'] = pem.splitlines()[2]
            out.update({(k, name): v for name, v in forms.items() if v})
    return out


def snapshot(w):
    if w.kind == 'memory':
        s = w.storage
        return (sorted((d, bytes(r.head.cid), r.status, r.handle) for d, r in s.repos.items()),
                sorted((bytes(c), b.seq) for c, b in s.blocks.items()), s.sequences.last('com.atproto.sync.subscribeRepos'))
    out = []
    for (ns, kind), tab in sorted(w.store.kinds.items()):
        for pb in w.store.entities(kind, ns):
            out.append(pb.SerializeToString(deterministic=True))
    return sorted(out)


def credentials(rng, token):
    """(name, headers, query, body extras) that are not exactly the bearer token."""
    t = token or 'None'
    flip = t[:-1] + ('a' if t[-1] != 'a' else 'b')
    A = 'Authorization'
    return [
        ('none', {}, {}, {}), ('empty', {A: ''}, {}, {}), ('scheme', {A: 'Bearer'}, {}, {}), ('scheme space', {A: 'Bearer '}, {}, {}),
        ('wrong', {A: 'Bearer nope'}, {}, {}), ('flip', {A: f'Bearer {flip}'}, {}, {}), ('prefix', {A: f'Bearer {t[:-1]}'}, {}, {}),
        ('longer', {A: f'Bearer {t}x'}, {}, {}), ('tail', {A: f'Bearer {t[1:]}'}, {}, {}), ('swapcase', {A: f'Bearer {t.swapcase()}'}, {}, {}),
        ('raw', {A: t}, {}, {}), ('basic', {A: 'Basic ' + base64.b64encode(f':{t}'.encode()).decode()}, {}, {}),
        ('basic raw', {A: f'Basic {t}'}, {}, {}), ('twice', {A: f'Bearer Bearer {t}'}, {}, {}), ('list', {A: f'Bearer nope, Bearer {t}'}, {}, {}),
        ('more words', {A: f'Bearer {t} extra'}, {}, {}), ('comma', {A: f'Bearer {t},x'}, {}, {}), ('first wrong', {A: f'Bearer x {t}'}, {}, {}),
        ('semicolon', {A: f'Bearer {t};q=1'}, {}, {}), ('colon', {A: f'Bearer {t}:'}, {}, {}), ('other scheme', {A: f'Token {t}'}, {}, {}),
        ('None', {A: 'Bearer None'}, {}, {}), ('star', {A: 'Bearer *'}, {}, {}), ('regex', {A: 'Bearer .*'}, {}, {}),
        ('getrepo', {A: 'Bearer get-repo-token-1'}, {}, {}), ('password', {A: 'Bearer the-password-7'}, {}, {}),
        ('x-auth', {'X-Authorization': f'Bearer {t}'}, {}, {}), ('proxy', {'Proxy-Authorization': f'Bearer {t}'}, {}, {}),
        ('cookie', {'Cookie': f'token={t}; Authorization=Bearer {t}; session={t}'}, {}, {}), ('token header', {'Token': t, 'X-Token': t}, {}, {}),
        ('query', {}, {'token': t, 'access_token': t, 'Authorization': f'Bearer {t}', 'accessJwt': t}, {}),
        ('body', {}, {}, {'token': t, 'access_token': t, 'Authorization': f'Bearer {t}', 'accessJwt': t}),
        ('both wrong', {A: f'Bearer {t}'[::-1]}, {'token': t}, {'token': t}),
    ]


def run_case(case, ctx):
    import os
    import requests
    from arroba import xrpc_sync, server
    from arroba.repo import Write
    from arroba.storage import Action
    from arroba.util import service_jwt
    import webutil.util
    rng = lib.rng_of(case['seed'])
    mode = rng.choice(('set', 'set', 'set', 'unset', 'empty'))
    token = ''.join(rng.choice(TOKEN_CHARS) for _ in range(rng.choice((8, 20, 40)))) if mode == 'set' else None
    os.environ.pop('REPO_TOKEN', None)
    if token:
        os.environ['REPO_TOKEN'] = token
    elif mode == 'empty':
        os.environ['REPO_TOKEN'] = ''
    password = rng.choice(('the-password-7', 'pä ss', None))
    os.environ.pop('REPO_PASSWORD', None)
    if password:
        os.environ['REPO_PASSWORD'] = password

    # an importable archive, made elsewhere
    src = lib.World('memory')
    far = lib.create_repo(src, 7)
    src.storage.commit(far, [Write(Action.CREATE, 'com.example.a', 'k', {'$type': 'com.example.a'})])
    car = server.server.call('com.atproto.sync.getRepo', {}, did=lib.did(7))

    w = lib.World(case['kind'])
    docs = {lib.did(i): lib.did_doc(i) for i in (0, 1, 7)}

    class R:
        status_code, ok, headers, content, text = 200, True, {}, b'', ''

        def __init__(self, doc):
            self.doc = doc

        def raise_for_status(self):
            pass

        def json(self):
            return self.doc

    def get(url, **kw):
        d = url.rsplit('/', 1)[-1]
        if d not in docs:
            raise requests.ConnectionError(url)
        return R(docs[d])
    webutil.util.session.get = get
    from arroba import did as did_mod
    getattr(did_mod.resolve_plc, 'cache', {}).clear()

    with w.ctx():
        for i in (0, 1):
            repo = lib.create_repo(w, i)
            w.storage.commit(repo, [Write(Action.CREATE, 'com.example.a', 'base', {'$type': 'com.example.a', 'i': i})])
            if i == 1:
                w.storage.deactivate_repo(repo)
        server.repo = w.storage.load_repo(lib.did(0))   # what the session methods describe
    d = lib.did(0)
    jwt = service_jwt('pds.example.com', d, lib.privkey(0))
    secret = secrets((0, 1))
    rec = {'$type': 'com.example.a', 'n': 1}

    def methods():
        """name -> (JSON body or None, raw body)"""
        r = {'repo': rng.choice((d, 'h0.example.com'))}
        k = {**r, 'collection': 'com.example.a', 'rkey': 'base'}
        return {
            'com.atproto.repo.createRecord': ({**r, 'collection': 'com.example.a', 'rkey': 'new', 'record': rec}, None),
            'com.atproto.repo.putRecord': ({**k, 'record': rec}, None),
            'com.atproto.repo.deleteRecord': (k, None),
            'com.atproto.repo.applyWrites': ({**r, 'writes': []}, None),
            'com.atproto.repo.uploadBlob': (None, b'blobby'),
            'com.atproto.repo.importRepo': (None, car),
            'com.atproto.server.getSession': ({}, None),
            'com.atproto.server.refreshSession': ({}, None),
        }

    def scan(what, resp, may_token=False):
        ctx.count('scanned')
        blob = resp.data + json.dumps(resp.headers).encode()
        for (k, form), val in secret.items():
            if not ctx.check(val not in blob, f'{what}: private key {k} appears in the response ({form})'):
                return False
        if token and not may_token:
            for form in (token.encode(), base64.b64encode(token.encode()).rstrip(b'=')):
                if not ctx.check(form not in blob, f'{what}: the token appears in the response: {resp}'):
                    return False
        return True

    def send(verb, nsid, body, raw, headers, query, extra):
        with web.app().test_client() as c:
            if raw is None:
                data, ctype = json.dumps({**body, **extra}).encode(), 'application/json'
            else:
                data, ctype = raw, {'com.atproto.repo.importRepo': 'application/vnd.ipld.car'}.get(nsid, '*/*')
            return web.Resp(c.open(f'/xrpc/{nsid}', method=verb, data=data, content_type=ctype, headers=headers, query_string=query))

    before = snapshot(w)
    creds = credentials(rng, token) + [('service jwt', {'Authorization': f'Bearer {jwt}'}, {}, {})]
    todo = [(nsid, cred, verb) for nsid in methods() for cred in creds
            for verb in (('GET' if 'getSession' in nsid else 'POST'), rng.choice(('GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'HEAD', 'OPTIONS')))]
    rng.shuffle(todo)
    for nsid, (cname, headers, query, extra), verb in todo[:220]:
        body, raw = methods()[nsid]
        resp = send(verb, nsid, body, raw, headers, query, extra)
        what = f'{verb} {nsid} with credential "{cname}" (token {mode})'
        ctx.count('refused')
        ctx.count('imports_refused', 1 if 'import' in nsid else 0)
        if not token:
            ctx.count('unconfigured_refused')
        if verb != 'OPTIONS' and not ctx.check(resp.status >= 400, f'{what}: {resp}'):
            return
        if not (scan(what, resp) and ctx.check(snapshot(w) == before, f'{what}: stored state changed ({resp.status})')):
            return
        ctx.sig(nsid, verb, cname, mode)

    # sessions
    for name, pw in (('none', None), ('wrong', 'nope'), ('empty', ''), ('null', 'null'), ('list', ['x']), ('true', True), ('token', token or 'x'),
                     ('prefix', (password or 'xx')[:-1]), ('case', (password or 'xx').swapcase()), ('did', d), ('right', password)):
        for ident in (d, 'h0.example.com', lib.did(1), 'nobody.example.com'):
            if pw is None and name == 'right':
                continue
            body = {'identifier': ident, **({} if pw is None else {'password': pw})}
            resp = web.post('com.atproto.server.createSession', body)
            what = f'createSession of {ident} with {name} password (token {mode}, password {"set" if password else "unset"})'
            right = password is not None and pw == password and ident != 'nobody.example.com'
            if right and token:
                if not ctx.check(resp.status == 200 and resp.json.get('accessJwt') == token or ident == lib.did(1), f'{what}: {resp}'):
                    return
                ctx.count('sessions_granted')
            else:
                ctx.count('sessions_refused')
                if not ctx.check(resp.status >= 400, f'{what}: {resp}'):
                    return
            if not (scan(what, resp, right) and ctx.check(snapshot(w) == before, f'{what}: stored state changed')):
                return
            ctx.sig('session', name, mode, bool(password))

    # reads
    head = None
    r, s = 'com.atproto.repo.', 'com.atproto.sync.'
    for dd in (d, lib.did(1)):
        with w.ctx():
            stored = w.storage.load_repo(dd)
            head = stored.head.cid.encode('base32')
            data = stored.head.decoded['data'].encode('base32')
        for nsid, params in [(r + 'getRecord', dict(repo=dd, collection='com.example.a', rkey='base')),
                             (r + 'listRecords', dict(repo=dd, collection='com.example.a')), (r + 'describeRepo', dict(repo=dd)),
                             (s + 'getRepo', dict(did=dd)), (s + 'getCheckout', dict(did=dd)), (s + 'getHead', dict(did=dd)),
                             (s + 'getLatestCommit', dict(did=dd)), (s + 'getRepoStatus', dict(did=dd)), (s + 'listRepos', {}),
                             (s + 'getRecord', dict(did=dd, collection='com.example.a', rkey='base')),
                             (s + 'getBlocks', dict(did=dd, cids=[head, data])), (s + 'getBlob', dict(did=dd, cid=head)),
                             (s + 'listBlobs', dict(did=dd)), ('com.atproto.server.describeServer', {}),
                             ('com.atproto.server.getAccountInviteCodes', {}), ('com.atproto.server.listAppPasswords', {})]:
            if w.kind == 'memory' and 'Blob' in nsid:
                continue
            ctxm = w.ctx() if 'Blob' in nsid else None
            if ctxm:
                with ctxm:
                    resp = web.get(nsid, **params)
            else:
                resp = web.get(nsid, **params)
            if not scan(f'{nsid} {params}', resp):
                return
            resp = web.get(nsid, did='x' * 400, repo={'$': 1}, cids=['zz'], cursor='', limit='')
            if not scan(f'{nsid} malformed', resp):
                return
    if not ctx.check(snapshot(w) == before, 'reads changed stored state'):
        return

    # the right token works
    if token:
        for nsid, (body, raw) in methods().items():
            verb = 'GET' if 'getSession' in nsid else 'POST'
            resp = send(verb, nsid, body or {}, raw, {'Authorization': f'Bearer {token}'}, {}, {})
            if nsid.rsplit('.', 1)[-1] in ('createRecord', 'putRecord', 'deleteRecord', 'importRepo', 'getSession', 'refreshSession'):
                ctx.count('authorised_writes')
                if not ctx.check(resp.status == 200, f'{nsid} with the right token: {resp}'):
                    return
            if not scan(f'{nsid} with the right token', resp, True):
                return
        ctx.check(snapshot(w) != before, 'authorised writes changed nothing')
    ctx.sample({'backend': case['kind'], 'token': mode, 'password': bool(password)})
