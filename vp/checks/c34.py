"""C34: the bundled PDS app (app.py)."""
import contextlib
import importlib.util
import json
import os
import shutil
import sys
import tempfile
import threading
import time
import types
from urllib.parse import parse_qsl, urlencode, urlsplit

from vp import lib, web

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: app.py is started for real, over and over on one Datastore, with outbound HTTP recorded; its answers, what it sends to the AppView and relay, and what is stored after each '
             'start are checked against the configuration files and the writes made over HTTP so far')
NOTE = ('Datastore is the in-process stand-in; outbound requests are recorded and answered by the harness. Websocket transport is not installed here, so the stream is read from the subscribeRepos '
        'handler. Bodies of proxied POSTs and waking up live subscribers are not claimed.')
RULE = ('lives of the app on one database: configuration from files, from the environment, or mixed, on a fresh or used database, with new handle, local or on App Engine; in each, writes, sessions, proxied calls '
        'with random queries and answers, preflights, preferences and health checks. Distinct: (life, configuration, kinds of call).')
REQUIRED = ('lives', 'restarts', 'created', 'writes', 'refused_writes', 'proxied', 'proxied_post', 'proxied_errors', 'preflights', 'preferences', 'health', 'sessions', 'env_config', 'file_config',
            'handle_changed', 'prod', 'crawls', 'streams', 'events', 'foreign_repos')
ISOLATE = True
CASE_TIMEOUT = 240
COLL = 'com.example.coll'
CONFIG = ('PDS_HOST', 'REPO_PRIVKEY', 'REPO_PASSWORD', 'REPO_TOKEN', 'REPO_DID', 'REPO_HANDLE')


def cases(tier, seed):
    return [{'seed': f'{seed}.{i}', 'lives': 3 if tier == 'quick' else 6} for i in range(40 if tier == 'quick' else 700)]


def setup():
    lib.boot()
    web.stubs()


class Http:
    """The outside world."""
    def __init__(self, rng):
        self.rng, self.calls, self.answer = rng, [], None

    def __call__(self, method, url, **kw):
        import requests
        self.calls.append((method.upper(), url, kw))
        status, headers, body = self.answer or (200, {'Content-Type': 'application/json'}, b'{}')
        r = requests.Response()
        r.status_code, r._content, r.url = status, body, url
        r.headers.update(headers)
        r.request = requests.Request(method, url).prepare()
        return r


@contextlib.contextmanager
def replaced(*what):
    old = [(o, n, getattr(o, n)) for o, n, _ in what]
    for o, n, v in what:
        setattr(o, n, v)
    try:
        yield
    finally:
        for o, n, v in old:
            setattr(o, n, v)


class Life:
    def __init__(self, dir, client, http, vals, env, prod, real):
        import google.cloud.logging
        import requests
        from google.cloud import ndb
        from arroba import firehose, util
        self.http, self.timers, self.started = http, [], []
        for k in CONFIG + ('APPVIEW_HOST', 'RELAY_HOST', 'BGS_HOST', 'PLC_HOST', 'GAE_INSTANCE', 'APPVIEW_JWT'):
            os.environ.pop(k, None)
        os.environ.update(env)
        if prod:
            os.environ['GAE_INSTANCE'] = 'one'
        me = self

        class Timer:
            def __init__(self, interval, function, args=None, kwargs=None):
                self.interval, self.function = interval, lambda: function(*(args or ()), **(kwargs or {}))

            def start(self):
                me.timers.append(self)

        swaps = [(threading, 'Timer', Timer), (ndb, 'Client', lambda *a, **kw: client),
                 (google.cloud.logging, 'Client', lambda *a, **kw: types.SimpleNamespace(setup_logging=lambda **kw: None))]
        if not real:
            swaps.append((firehose, 'start', lambda *a, **kw: me.started.append(1)))
        spec = importlib.util.spec_from_file_location('app', os.path.join(dir, 'app.py'))
        self.mod = importlib.util.module_from_spec(spec)
        with replaced(*swaps):
            spec.loader.exec_module(self.mod)
        self.app = self.mod.app
        self.app.config['PROPAGATE_EXCEPTIONS'] = False

    def call(self, method, path, **kw):
        n = len(self.http.calls)
        with self.app.test_client(use_cookies=False) as c:
            r = c.open(path, method=method, **kw)
            body = r.get_data()
        return r, body, self.http.calls[n:]


def run_case(case, ctx):
    import requests
    rng = lib.rng_of('c34', case['seed'])
    from vp import fakeds
    client, store = fakeds.install()
    dir = tempfile.mkdtemp(prefix='vp-c34-')
    cwd, http = os.getcwd(), Http(rng)
    try:
        with replaced((requests, 'request', http), (requests, 'get', lambda url, **kw: http('GET', url, **kw)), (requests, 'post', lambda url, **kw: http('POST', url, **kw)),
                      (requests.Session, 'request', lambda self, method, url, **kw: http(method, url, **kw))):
            lives(case, ctx, rng, client, store, dir, http)
    finally:
        os.chdir(cwd)
        shutil.rmtree(dir, ignore_errors=True)
    ctx.ran()


def snapshot(client, did):
    """(head, {path: record}, [event]) of a repo, as another process sees it."""
    from arroba.datastore_storage import DatastoreStorage
    with client.context(cache_policy=lambda key: False):
        st = DatastoreStorage(ndb_client=client, ndb_context_kwargs={'cache_policy': lambda key: False})
        repo = st.load_repo(did)
        if repo is None:
            return None
        recs = {f'{c}/{k}': r for c, ks in repo.get_contents().items() for k, r in ks.items()}
        events = [e for e in st.read_events_by_seq(start=0)]
        return repo, bytes(repo.head.cid).hex(), recs, [getattr(e, 'commit', None) and bytes(e.commit.cid).hex() or e['$type'] + e['did'] for e in events], events


def lives(case, ctx, rng, client, store, dir, http):
    from cryptography.hazmat.primitives import serialization as ser
    from vp import env
    i = rng.randrange(1, 50)
    key = lib.privkey(i)
    tok = ''.join(rng.choice('abcdefXYZ0189-_.~') for _ in range(rng.randrange(4, 40)))
    vals = {'PDS_HOST': rng.choice(('pds.example', 'my-pds.example.co.uk')), 'REPO_PASSWORD': 'pw ' + tok[::-1], 'REPO_TOKEN': 'tok' + tok, 'REPO_DID': lib.did(i), 'REPO_HANDLE': f'h{i}.example.com',
            'REPO_PRIVKEY': key.private_bytes(ser.Encoding.PEM, ser.PrivateFormat.PKCS8, ser.NoEncryption()).decode().strip()}
    shutil.copy(os.path.join(env.REPO, 'app.py'), dir)
    end = rng.choice(('', '\n', ' \n\n'))
    for name, val in (('pds_host', vals['PDS_HOST']), ('privkey.pem', vals['REPO_PRIVKEY']), ('repo_password', vals['REPO_PASSWORD']), ('repo_token', vals['REPO_TOKEN']),
                      (vals['REPO_DID'] + '.json', json.dumps(lib.did_doc(i)))):
        with open(os.path.join(dir, name), 'w') as f:
            f.write(val + end)
    os.chdir(dir)

    if rng.random() < .3:      # the database already has other repos
        from arroba.datastore_storage import DatastoreStorage
        from arroba.repo import Repo
        with client.context():
            st = DatastoreStorage(ndb_client=client)
            Repo.create(st, lib.did(77), handle=rng.choice(('x.example.com', 'h77.example.com')), signing_key=lib.privkey(77), rotation_key=lib.privkey(77))
        ctx.count('foreign_repos')
    foreign = (snapshot(client, lib.did(77)) or [None, None, None, []])
    model, prev = {}, None
    for n in range(case['lives']):
        last = n == case['lives'] - 1
        mode = rng.choice(('files', 'files', 'env', 'mixed'))
        conf = dict(vals)
        environ = {}
        if mode != 'files':
            for k in CONFIG:
                if mode == 'env' or rng.random() < .4:
                    if k in ('REPO_TOKEN', 'REPO_PASSWORD', 'PDS_HOST'):
                        conf[k] = f'env-{n}-' + vals[k].replace(' ', '')
                    environ[k] = conf[k]
        if n and rng.random() < .25:
            environ['REPO_HANDLE'] = conf['REPO_HANDLE'] = f'new{n}.example.com'
            ctx.count('handle_changed')
        hosts = {}
        if rng.random() < .5:
            hosts['APPVIEW_HOST'] = f'appview{n}.example'
        relay = 'bgs.bsky-sandbox.dev'
        if rng.random() < .5:
            relay = f'relay{n}.example'
            hosts[rng.choice(('RELAY_HOST', 'BGS_HOST'))] = relay
        appview = hosts.get('APPVIEW_HOST', 'api.bsky-sandbox.dev')
        prod = rng.random() < .4
        ctx.count('env_config' if environ else 'file_config')
        calls = len(http.calls)
        try:
            life = Life(dir, client, http, conf, {**environ, **hosts}, prod, last)
        except Exception as e:
            import traceback
            ctx.viol(f'app did not start (start {n + 1}): {e!r:.300} {"".join(traceback.format_exception(e))[-600:]}', 'start')
            return
        ctx.count('lives')
        ctx.count('restarts', n > 0)
        ctx.sig(n, mode, prod, sorted(hosts), bool(foreign[1]))
        ctx.check(len(http.calls) == calls, f'app made HTTP requests while starting: {http.calls[calls:]!r:.300}', 'start-requests')
        from arroba import firehose, server
        ctx.check(bool(life.started) or last, 'app did not start the firehose, so subscribeRepos serves nothing', 'no-firehose')
        snap = snapshot(client, conf['REPO_DID'])
        if not ctx.check(snap is not None, 'app has started, but the configured repo does not exist', 'no-repo'):
            return
        repo, head, recs, evs, _ = snap
        if prev is None:
            ctx.count('created')
            ctx.check(repo.handle == vals['REPO_HANDLE'] and not recs, f'repo was created with handle {repo.handle} and records {list(recs)}; want handle {vals["REPO_HANDLE"]}', 'created-wrong')
            ctx.check(pub(repo.signing_key) == pub(key), 'repo was created with another signing key than the configured one', 'created-key')
            ctx.check(len(evs) == len(foreign[3]) + 4, f'creating the repo emitted {len(evs) - len(foreign[3])} events, not 4', 'created-events')
        else:
            ctx.check((head, recs, evs) == prev, f'restart {n} changed the repo, its records or the stream: head {prev[0]} => {head}, records {sorted(prev[1])} => {sorted(recs)}, {len(prev[2])} => {len(evs)} events', 'restart-changed')
        ctx.check(server.repo.did == conf['REPO_DID'] and bytes(server.repo.head.cid).hex() == head, f'the app runs {server.repo.did} at {server.repo.head.cid}, want {conf["REPO_DID"]} at {head}', 'other-repo')
        if last:
            stream(ctx, client, snap[4])

        for step in range(rng.randrange(6, 14)):
            what = rng.choice(('write', 'write', 'write', 'proxy', 'proxy', 'proxy', 'preflight', 'prefs', 'health', 'session', 'bad write'))
            if step == 0:
                what = 'write'
            globals()['do_' + what.replace(' ', '_')](life, ctx, rng, conf, model, appview, key, n, step)
        repo, head, recs, evs, _ = snapshot(client, conf['REPO_DID'])
        ctx.check(recs == model, f'after life {n + 1}: records {sorted(recs)}, want {sorted(model)}', 'records')
        prev = (head, recs, evs)
        now = snapshot(client, lib.did(77))
        if now:
            ctx.check((now[1], now[2]) == (foreign[1], foreign[2]), 'another repo in the same database changed', 'foreign')

        for t in life.timers:
            if t.interval < 30:
                continue
            at = len(http.calls)
            http.answer = None
            try:
                t.function()
            except Exception as e:
                ctx.viol(f'asking the relay to crawl failed: {e!r:.300}', 'crawl')
                continue
            sent = http.calls[at:]
            ok = len(sent) == 1 and sent[0][0] == 'POST' and sent[0][1].split('?')[0] == f'https://{relay}/xrpc/com.atproto.sync.requestCrawl'
            ctx.check(ok and (sent[0][2].get('json') or json.loads(sent[0][2].get('data') or '{}')) == {'hostname': conf['PDS_HOST']}, f'want one requestCrawl for {conf["PDS_HOST"]} at {relay}, got {sent!r:.400}', 'crawl')
            ctx.count('crawls')
        if prod:
            ctx.count('prod')
            ctx.check(bool(life.timers), 'no requestCrawl was scheduled in production', 'no-crawl')
        elif life.timers:
            ctx.viol('requestCrawl was scheduled outside production', 'crawl-local')


def pub(key):
    n = key.public_key().public_numbers()
    return n.x, n.y


def auth(conf):
    return {'Authorization': 'Bearer ' + conf['REPO_TOKEN']}


def do_write(life, ctx, rng, conf, model, appview, key, n, step):
    rec = {'$type': COLL, 'n': n, 'step': step, 't': lib.text(rng)}
    have = [p for p in model]
    op = rng.choice(('create', 'put', 'put', 'delete')) if have else 'create'
    rkey = rng.choice(have).split('/')[1] if have and op != 'create' else f'r{n}-{step}'
    body = {'repo': conf['REPO_DID'], 'collection': COLL, 'rkey': rkey}
    if op != 'delete':
        body['record'] = rec
    r, data, sent = life.call('POST', f'/xrpc/com.atproto.repo.{op}Record', json=body, headers=auth(conf))
    if not ctx.check(r.status_code == 200, f'{op}Record with the configured token: {r.status_code} {data!r:.200}', 'write'):
        return
    ctx.check(not sent, f'{op}Record was sent elsewhere: {sent!r:.200}', 'write-proxied')
    if op == 'delete':
        model.pop(f'{COLL}/{rkey}', None)
    else:
        model[f'{COLL}/{rkey}'] = rec
    ctx.count('writes')
    r, data, _ = life.call('GET', f'/xrpc/com.atproto.repo.listRecords?repo={conf["REPO_DID"]}&collection={COLL}&limit=100')
    got = {x['uri'].split('/', 3)[3]: x['value'] for x in json.loads(data).get('records', [])} if r.status_code == 200 else None
    ctx.check(got == model or len(model) > 100, f'after {op}Record {rkey}, listRecords has {got!r:.300}, want {model!r:.300}', 'read-back')


def do_bad_write(life, ctx, rng, conf, model, appview, key, n, step):
    headers = rng.choice(({}, {'Authorization': 'Bearer x'}, {'Authorization': conf['REPO_TOKEN']}, {'Authorization': 'Bearer ' + conf['REPO_TOKEN'] + 'x'}, {'Authorization': 'Bearer ' + conf['REPO_PASSWORD']},
                          {'Authorization': 'Bearer ' + os.environ.get('APPVIEW_JWT', '')}))
    r, data, _ = life.call('POST', '/xrpc/com.atproto.repo.createRecord', json={'repo': conf['REPO_DID'], 'collection': COLL, 'record': {'$type': COLL}}, headers=headers)
    ctx.check(r.status_code >= 400, f'createRecord with {headers} was accepted', 'bad-token')
    ctx.count('refused_writes')


def do_proxy(life, ctx, rng, conf, model, appview, key, n, step):
    path = rng.choice(('com.atproto.identity.resolveHandle', 'app.bsky.actor.getProfile', 'app.bsky.feed.getTimeline', 'app.bsky.graph.getFollows', 'app.bsky.unspecced.x' + str(rng.randrange(99)),
                       'app.bsky.actor.getPreferencesx', 'app.bsky.feed.post'))
    method = 'GET' if path.startswith('com.') or rng.random() < .6 else 'POST'
    query = [(rng.choice(('handle', 'limit', 'cursor', 'a b', 'actors', 'é')), lib.text(rng)) for _ in range(rng.choice((0, 1, 1, 2, 4)))]
    query = [(k, v.encode('utf-8', 'replace').decode()) for k, v in query]
    status = rng.choice((200, 200, 200, 201, 204, 400, 401, 404, 429, 500, 502, 503))
    body = b'' if status == 204 else rng.choice((b'{}', json.dumps({'error': 'X', 'message': 'y\u00e9'}).encode(), b'\x00\xff' * rng.randrange(1, 999), b'not json'))
    headers = {'Content-Type': rng.choice(('application/json', 'application/json; charset=utf-8', 'application/vnd.ipld.car', 'text/plain')), 'X-Odd': f'v{step}'}
    if status == 429:
        headers['Retry-After'] = '17'
    if rng.random() < .3:
        headers['Content-Encoding'] = 'gzip'      # requests has already decoded it
    if rng.random() < .3:
        headers['transfer-encoding'] = 'chunked'
    life.http.answer = (status, headers, body)
    secret = 'client-' + str(rng.randrange(10**9))
    token = rng.choice((None, secret, conf['REPO_TOKEN']))
    url = f'/xrpc/{path}' + ('?' + urlencode(query) if query else '')
    kw = {'json': {'x': 1}} if method == 'POST' else {}
    r, data, sent = life.call(method, url, headers={'Authorization': f'Bearer {token}', 'Cookie': 'c=' + secret} if token else {}, **kw)
    life.http.answer = None
    ctx.count('proxied')
    ctx.count('proxied_post', method == 'POST')
    ctx.count('proxied_errors', status >= 400)
    ctx.sig('proxy', path.split('.')[0], method, status, len(query), bool(token))
    if not ctx.check(len(sent) == 1, f'{method} {path} was sent to the AppView {len(sent)} times; answer {r.status_code} {data!r:.200}', 'proxy-count'):
        return
    m, u, kw = sent[0]
    p = urlsplit(u)
    ctx.check((m, p.scheme, p.netloc, p.path) == (method, 'https', appview, f'/xrpc/{path}'), f'{method} {path} was proxied as {m} {u}, want host {appview}', 'proxy-url')
    got = parse_qsl(p.query, keep_blank_values=True) + list((kw.get('params') or {}).items())
    ctx.check(got == query, f'{method} {path}: query {query} was proxied as {got}', 'proxy-query')
    hs = {k.lower(): v for k, v in (kw.get('headers') or {}).items()}
    ctx.check(conf['REPO_TOKEN'] not in repr((u, kw)) and conf['REPO_PASSWORD'] not in repr((u, kw)) and secret not in repr((u, kw)),
              f'{method} {path} sent credentials meant for this server to the AppView: {hs}', 'proxy-leak')
    jwt_ok(ctx, hs.get('authorization', ''), conf, appview, key)
    ctx.check((r.status_code, data) == (status, body), f'{method} {path}: AppView answered {status} {body!r:.80}, client got {r.status_code} {data!r:.80}', 'proxy-answer')
    ctx.check(r.headers.get('Content-Type') == headers['Content-Type'] and r.headers.get('X-Odd') == f'v{step}' and (status != 429 or r.headers.get('Retry-After') == '17'), f'{path}: headers {dict(r.headers)}, want {headers}', 'proxy-headers')
    ctx.check('Content-Encoding' not in r.headers and 'Transfer-Encoding' not in r.headers, f'{path}: the body is decoded, but the answer says {dict(r.headers)}', 'proxy-encoding')
    ctx.check(r.headers.get('Access-Control-Allow-Origin') == '*', f'{path}: no CORS header', 'cors')


def jwt_ok(ctx, header, conf, appview, key):
    import jwt
    try:
        got = jwt.decode(header.removeprefix('Bearer '), key.public_key(), algorithms=['ES256K'], audience=f'did:web:{appview}', issuer=conf['REPO_DID'])
        ok = header.startswith('Bearer ')
    except Exception as e:
        ok, got = False, repr(e)
    ctx.check(ok, f'AppView token does not verify for {appview} as {conf["REPO_DID"]}: {got}', 'proxy-jwt')


def do_preflight(life, ctx, rng, conf, model, appview, key, n, step):
    path = rng.choice(('com.atproto.identity.resolveHandle', 'app.bsky.actor.getPreferences', 'app.bsky.actor.putPreferences', 'app.bsky.actor.getProfile', 'app.bsky.feed.getTimeline', 'com.atproto.repo.createRecord'))
    r, data, sent = life.call('OPTIONS', f'/xrpc/{path}', headers={'Origin': 'https://client.example', 'Access-Control-Request-Headers': 'authorization'})
    hs = r.headers.get('Access-Control-Allow-Headers', '')
    ctx.check(r.status_code in (200, 204) and not sent and r.headers.get('Access-Control-Allow-Origin') == '*' and 'authorization' in hs.lower(), f'preflight of {path}: {r.status_code} {dict(r.headers)}, sent on: {sent!r:.100}', 'preflight')
    ctx.count('preflights')


def do_prefs(life, ctx, rng, conf, model, appview, key, n, step):
    for method, name in (('GET', 'get'), ('POST', 'put')):
        kw = {'json': {'preferences': []}} if method == 'POST' else {}
        r, data, sent = life.call(method, f'/xrpc/app.bsky.actor.{name}Preferences', headers=auth(conf), **kw)
        want = {'preferences': []} if method == 'GET' else {}
        ctx.check(r.status_code == 200 and json.loads(data) == want and not sent and r.headers.get('Access-Control-Allow-Origin') == '*', f'{name}Preferences: {r.status_code} {data!r:.100}, sent on: {sent!r:.100}', 'prefs')
    ctx.count('preferences')


def do_health(life, ctx, rng, conf, model, appview, key, n, step):
    path = rng.choice(('/liveness_check', '/readiness_check', '/'))
    r, data, sent = life.call('GET', path)
    ctx.check(r.status_code == 200 and data and not sent, f'{path}: {r.status_code}', 'health')
    ctx.count('health')


def do_session(life, ctx, rng, conf, model, appview, key, n, step):
    from arroba import server
    good = rng.random() < .6
    pw = conf['REPO_PASSWORD'] if good else rng.choice(('', 'x', conf['REPO_TOKEN'], conf['REPO_PASSWORD'] + 'x', conf['REPO_PASSWORD'][:-1]))
    r, data, sent = life.call('POST', '/xrpc/com.atproto.server.createSession', json={'identifier': rng.choice((conf['REPO_DID'], server.repo.handle)), 'password': pw})
    if good:
        got = json.loads(data)
        ctx.check(r.status_code == 200 and got.get('did') == conf['REPO_DID'] and got.get('accessJwt') == conf['REPO_TOKEN'], f'createSession with the configured password: {r.status_code} {data!r:.200}', 'session')
    else:
        ctx.check(r.status_code >= 400 and conf['REPO_TOKEN'].encode() not in data, f'createSession with password {pw!r}: {r.status_code} {data!r:.200}', 'session-bad')
    ctx.count('sessions')


def stream(ctx, client, events):
    """The last life runs the real firehose."""
    from arroba import firehose
    from vp import fh
    deadline = time.time() + 30
    while not firehose.started.is_set() and time.time() < deadline:
        time.sleep(.01)
    if not ctx.check(firehose.started.is_set(), 'app did not start the firehose, so subscribeRepos serves nothing', 'no-firehose'):
        return
    want = [e.commit.seq if getattr(e, 'commit', None) else e['seq'] for e in events]
    got, done = [], threading.Event()

    def consume():
        with client.context(cache_policy=lambda key: False):
            for header, payload in firehose.subscribe(cursor=0):
                got.append((header, payload))
                if len(got) >= len(want):
                    break
        done.set()

    threading.Thread(target=consume, daemon=True).start()
    done.wait(40)
    seqs = [p.get('seq') for _, p in got]
    ctx.check(seqs == want, f'subscribeRepos from cursor 0 gave seqs {seqs}, want {want}', 'stream')
    ctx.count('streams')
    ctx.count('events', len(seqs))
