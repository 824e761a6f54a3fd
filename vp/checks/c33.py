"""C33: whatever is sent conforms to the protocol's published schemas."""
import itertools
import json
import random

from vp import cario, fh, lexicon, lib, web
from vp.checks import c18, c19, c32
from vp.sched import Inconclusive

TECHNIQUE = 'online monitor over every stream frame and HTTP response of randomized server histories, against an independent validator of the protocol schemas'
LEVEL = 'statistical'
NOTE = ('Schemas are the lexicon files bundled with lexrpc, read by an own validator; #tombstone, which they no longer define, has its old form. A commit whose blocks '
        'pass the schema\'s 2 MB is a known finding. Request bodies that are no JSON at all, and the websocket framing itself, are lexrpc\'s and not exercised.')
RULE = ('Per case (backend, seed): accounts with and without handles are created, imported, written to, deactivated, deleted and tombstoned while subscribers come and go with '
        'every kind of cursor, and every endpoint is asked with valid, borderline and hostile parameters. Every frame (as encoded for the wire) and every response '
        'is validated. Distinct: (message kind, shape of its fields), (method, status, error name).')
REQUIRED = ('frames', 'commit_frames', 'sync_frames', 'identity_frames', 'account_frames', 'tombstone_frames', 'info_frames', 'error_frames', 'responses', 'ok_json', 'ok_car', 'refusals',
            'handleless', 'unimplemented', 'deletes_seen', 'updates_seen', 'restarts', 'imports', 'redirects', 'big_commits', 'archives', 'odds')
ASSUMPTIONS = ['the lexicon files bundled with lexrpc are the protocol\'s']
ISOLATE = True
CASE_TIMEOUT = 240
TOKEN = c19.TOKEN
AUTH = {'Authorization': f'Bearer {TOKEN}'}
CAR = 'application/vnd.ipld.car'


def cases(tier, seed):
    n = 60 if tier == 'quick' else 2000
    out = [{'mode': 'hist', 'seed': f'{seed}.{i}', 'kind': ('datastore', 'memory')[i % 2]} for i in range(n)]
    out += [{'mode': 'archives', 'seed': f'{seed}.a{i}', 'kind': ('memory', 'datastore')[i % 2]} for i in range(n // 15)]
    out += [{'mode': 'odds', 'seed': f'{seed}.o', 'kind': ('memory', 'datastore')[i % 2], 'part': i // 2, 'of': 4} for i in range(8)]
    return [{'mode': 'big', 'seed': f'{seed}.b', 'kind': 'memory'}] + out


def setup():
    lib.boot(REPO_TOKEN=TOKEN, REPO_PASSWORD='sekret', PDS_HOST='pds.example.com', PLC_HOST='plc.example.com')
    web.app()


def run_case(case, ctx):
    globals()[case['mode']](case, ctx)


class Quiet:
    """The workload's own judgements belong to C32."""
    violations = ()

    def check(self, cond, *a, **k):
        return cond

    def count(self, *a, **k):
        pass
    sample = sig = count


def shape(p):
    return tuple(sorted((k, type(v).__name__) for k, v in p.items()))


def frame(ctx, event, key=None):
    """One event of a subscriber, encoded as for the wire."""
    import dag_cbor
    try:
        raw = dag_cbor.encode(event[0]) + dag_cbor.encode(event[1])
    except Exception as e:
        return ctx.check(False, f'a frame can\'t be encoded: {e!r} {event!r:.300}')
    try:
        h, p = lexicon.message(raw)
    except lexicon.Invalid as e:
        return ctx.check(False, f'frame {event[0]} {event[1].get("seq")}: {e}', key)
    ctx.check(True, '')
    t = h.get('t', '#error')[1:]
    ctx.count('frames')
    ctx.count(t + '_frames')
    ctx.sig(t, shape(p))
    for op in p.get('ops', ()):
        ctx.count(op['action'] + 's_seen')
    if t in ('commit', 'sync'):
        try:
            car = cario.Car(p['blocks'])
            root, = car.roots
            commit = cario.decode(car.blocks[root])
            link = p['commit'].cid if t == 'commit' else root
            good = root == link and commit['did'] == p.get('repo', p.get('did')) and commit['rev'] == p['rev']
        except (cario.Bad, ValueError, LookupError, TypeError, AttributeError) as e:
            return ctx.check(False, f'{t} {p["seq"]}: blocks are no archive of the commit: {e!r}')
        return ctx.check(good, f'{t} {p["seq"]}: rooted at another commit than {p.get("commit")} {p["rev"]}')
    return True


def response(ctx, method, params, resp, asked):
    what = f'{method} {asked!r:.200}'
    ctx.count('responses')
    d = lexicon.doc(method)
    main = d and d['defs']['main']
    ctx.sig(method, resp.status, resp.error if resp.status != 200 else None)
    ctype = resp.headers.get('Content-Type', '').split(';')[0]
    if not ctx.check(resp.status == 301 or resp.headers.get('Access-Control-Allow-Origin') == '*', f'{what}: no CORS header: {resp} {resp.headers}'):
        return
    if resp.status == 200:
        out = (main or {}).get('output') or {}
        enc = out.get('encoding')
        if enc == CAR:
            ctx.count('ok_car')
            try:
                car = cario.Car(resp.data)
                ok = len(car.roots) == 1 and all(cario.cid_of(b) == c for c, b in car.blocks.items())
            except (cario.Bad, ValueError, IndexError) as e:
                ok = False
            ctx.check(ok, f'{what}: no archive with one root: {resp.data[:80]!r}')
            return
        if enc == 'application/json':
            ctx.count('ok_json')
            if not ctx.check(ctype == enc and resp.json is not None, f'{what}: {ctype} {resp}'):
                return
            if resp.json == '' and not out['schema'].get('required'):
                return      # how lexrpc writes {}
            try:
                lexicon.validate(resp.json, out['schema'], method, lexicon.Json)
            except lexicon.Invalid as e:
                ctx.check(False, f'{what}: {e}')
            return
        ctx.check(not resp.data or resp.data in (b'""', b'{}', b'null'), f'{what} has no output: {resp}')
        return
    if resp.status == 301:
        ctx.count('redirects')
        ctx.check(method.endswith('getBlob') and resp.headers.get('Location', '').startswith('http'), f'{what}: {resp} {resp.headers}')
        return
    ctx.count('refusals')
    err = resp.json
    ctx.check(resp.status in (400, 401, 403, 404, 501) and isinstance(err, dict) and isinstance(err.get('error'), str) and err['error'] and ' ' not in err['error']
              and isinstance(err.get('message', ''), str) and not set(err) - {'error', 'message'}, f'{what}: {resp}')
    if method in UNIMPLEMENTED and asked[-1] == 'valid':
        ctx.count('unimplemented')
        ctx.check(resp.status == 501 and resp.error == 'MethodNotImplemented', f'{what} is not implemented, but answers {resp}')


UNIMPLEMENTED = ('com.atproto.repo.applyWrites', 'com.atproto.repo.uploadBlob', 'com.atproto.sync.notifyOfUpdate', 'com.atproto.server.createAccount')
ODD = ('', ' ', 'x', '..', 'at://', 'did:', 'did:plc:', 'did:plc:' + 'a' * 24, 'did:web:example.com', 'nobody.example.com', 'a/b', 'é☃', '0', '-1', 'null', '%00', '\0', '[]', '{}',
       'x' * 3000, '3kaaaaaaaaaaa', '222222222222222', 'bafyreigh2akiscaildcqabsyg3dfr6chu3fgpregiymsck7e7aqa4s52zy', 'bafkreihdwdcefgh4dqkjv67uzcmw7ojee6xedzdetojuzjevtenxquvyku',
       'zdpuAzCtxGPR5sSeVt1VFq7JVcDnFPXHWpoh3V1NceBE6teQW', 'Qmfoo', 'com.example.a', 'at://did:plc:' + 'a' * 24 + '/com.example.a/x')

ODDER = (None, 5, -1, True, [], {}, ['x'], {'$type': 'x'}, {'$link': 'bafyreigh2akiscaildcqabsyg3dfr6chu3fgpregiymsck7e7aqa4s52zy'}, 2**63)
WRITES = ('com.atproto.repo.createRecord', 'com.atproto.repo.putRecord', 'com.atproto.repo.deleteRecord')


def menu(s, rng, d=None):
    """Every kind of request, with sensible parameters: GETs and POSTs."""
    dids = sorted(s.n)
    d = d or rng.choice(dids)
    with s.w.ctx():
        repo = s.w.storage.load_repo(d)
        head = cario.cid_str(bytes(repo.head.cid))
        rev = cario.decode(bytes(repo.head.encoded))['rev']
        cur = s.mix.contents[s.n[d]]
    name = rng.choice((d, d, repo.handle or d))
    path = rng.choice(sorted(cur) or s.universe) if rng.random() < .8 else rng.choice(s.universe)
    coll, rk = path.split('/')
    cids = [cario.cid_str(lib.rec_cid(r)) for r in list(cur.values())[:4]] + [head]
    rec = {'$type': coll, 'n': 1}
    R, S, V = 'com.atproto.repo.', 'com.atproto.sync.', 'com.atproto.server.'
    gets = [(R + 'getRecord', dict(repo=name, collection=coll, rkey=rk)), (R + 'listRecords', dict(repo=name, collection=coll)),
            (R + 'listRecords', dict(repo=name, collection=coll, limit=rng.choice((1, 2, 100)))),
            (R + 'listRecords', dict(repo=name, collection=coll, limit=1, cursor=path)), (R + 'describeRepo', dict(repo=name)),
            (S + 'getRecord', dict(did=d, collection=coll, rkey=rk)), (S + 'getRepo', dict(did=d)), (S + 'getRepo', dict(did=d, since=rev)),
            (S + 'getCheckout', dict(did=d)), (S + 'getRepoStatus', dict(did=d)), (S + 'listRepos', dict()), (S + 'listRepos', dict(limit=rng.choice((1, 2, 1000)))),
            (S + 'listRepos', dict(limit=1, cursor=d)), (S + 'getBlocks', dict(did=d, cids=rng.sample(cids, rng.randrange(1, len(cids) + 1)))),
            (S + 'getHead', dict(did=d)), (S + 'getLatestCommit', dict(did=d)), (S + 'listBlobs', dict(did=d)), (S + 'listBlobs', dict(did=d, limit=1)),
            (S + 'getBlob', dict(did=d, cid=rng.choice(s.blobs or cids))),
            (V + 'describeServer', {}), (V + 'getSession', {}), (V + 'listAppPasswords', {}), (V + 'getAccountInviteCodes', {}), (S + 'notifyOfUpdate', {})]
    if s.w.kind == 'memory':
        gets = [g for g in gets if 'Blob' not in g[0]]
    posts = [(V + 'createSession', dict(identifier=name, password=rng.choice(('sekret', 'sekret', 'x')))), (V + 'refreshSession', {}),
             (R + 'applyWrites', dict(repo=d, writes=[])), (R + 'uploadBlob', b'blob'), (R + 'importRepo', b'no car'), (V + 'createAccount', dict(handle='x.example.com')),
             (R + 'createRecord', dict(repo=name, collection=coll, record=rec)), (R + 'putRecord', dict(repo=name, collection=coll, rkey=rk, record=rec)),
             (R + 'deleteRecord', dict(repo=name, collection=coll, rkey=rk))]
    return d, gets, posts


def ask(ctx, s, rng):
    """One request, with mostly sensible parameters."""
    d, gets, posts = menu(s, rng)
    is_get = rng.random() < .7
    method, params = rng.choice(gets if is_get else posts)
    kind = 'valid'
    if rng.random() < .35:
        kind = 'odd'
        if isinstance(params, bytes):
            params = rng.choice((b'', b'\x00', b'\xff' * 40, b'{}'))
        else:
            params = dict(params)
            vals = ODD if is_get else ODD + ODDER
            for k in rng.sample(sorted(params), min(len(params), rng.choice((1, 1, 2)))):
                r = rng.random()
                if r < .2:
                    del params[k]
                else:
                    params[k] = rng.choice(vals)
            if rng.random() < .3:
                params[rng.choice(('limit', 'cursor', 'since', 'reverse', 'cid', 'swapCommit', 'validate', 'rkey', 'bogus'))] = rng.choice(vals)
    headers = dict(AUTH) if rng.random() < .85 else rng.choice(({}, {'Authorization': 'Bearer x'}, {'Authorization': ''}))
    send(ctx, s, d, method, is_get, params, headers, kind)


def send(ctx, s, d, method, is_get, params, headers, kind):
    auth = headers == AUTH
    with s.w.ctx():
        if is_get:
            resp = web.get(method, headers=headers, **params)
        elif isinstance(params, bytes):
            resp = web.post(method, data=params, ctype=(CAR, 'image/png', 'application/octet-stream')[len(params) % 3], headers=headers)
        else:
            resp = web.post(method, params, headers=headers)
    response(ctx, method, params, resp, (params, 'auth' if auth else 'no auth', kind if auth else 'unauthorized'))
    if resp.status == 200 and method in WRITES:
        with s.w.ctx():
            got = s.w.storage.load_repo(d).get_contents()
            s.mix.contents[s.n[d]] = {f'{c}/{k}': v for c, rs in got.items() for k, v in rs.items()}
        s.commits[d] += 1


def subscribe(cursor):
    """As the websocket handler does."""
    from arroba import server
    return server.server.call(lexicon.SUBSCRIBE, **({} if cursor is None else {'cursor': cursor}))


def handleless(ctx, s, i):
    """An account without a handle."""
    from arroba.repo import Repo
    d = lib.did(i)
    s.known.add(d)
    s.n[d], s.handle[d], s.commits[d], s.status[d] = i, d, 0, None
    s.mix.contents[i], s.mix.past[i] = {}, [{}]
    with s.w.ctx():
        Repo.create(s.w.storage, d, signing_key=lib.privkey(i), rotation_key=lib.privkey(i + 500), callback=s.callback)
    ctx.count('handleless')


def blobs(s, rng):
    from webutil.util import now
    from arroba.datastore_storage import AtpRemoteBlob, AtpRepo
    with s.w.ctx():
        for k in range(3):
            c = cario.cid_str(cario.cid_of(b'blob %d' % k, codec=0x55))
            url = f'https://b.example.com/{k}.png'
            AtpRemoteBlob(id=url, url=url, cid=c, size=6, mime_type='image/png', repos=[AtpRepo(id=d).key for d in s.n], last_fetched=now()).put()
            s.blobs.append(c)


def extreme(s, rng):
    """Long paths, many operations, every kind of value."""
    from arroba.repo import Write
    from arroba.storage import Action
    d = rng.choice([d for d in sorted(s.n) if not s.status[d]])
    i = s.n[d]
    new = dict(s.mix.contents[i])
    ws = []

    def put(path, rec):
        ws.append(Write(Action.UPDATE if path in new else Action.CREATE, *path.split('/'), rec))
        new[path] = rec
    coll = 'com.example.' + 'x' * 60
    put(f'{coll}/' + ''.join(rng.choice('aZ09._~:-') for _ in range(255 - len(coll))), {'$type': coll, 'n': 1})
    link = lib.acid(cario.cid_of(b'x'))
    put(f'com.example.rec/values', {'$type': 'com.example.rec', 'l': link, 'b': b'\0\xff' * 5, 'z': [{'$x': None}, -2**63, 2**63 - 1, True, '\0é☃'], 'e': {}, 'n': {'l': [link]}})
    for k in range(rng.choice((1, 150))):
        put(f'com.example.many/{k}', {'$type': 'com.example.many', 'k': k})
    with s.w.ctx():
        s.w.storage.commit(s.repo(d), ws)
        s.done(d, i, new)
        gone = rng.sample(sorted(new), rng.choice((1, len(new) // 2)))
        s.w.storage.commit(s.repo(d), [Write(Action.DELETE, *p.split('/')) for p in gone][:200])
        s.done(d, i, {p: r for p, r in new.items() if p not in gone[:200]})


def big(case, ctx):
    """The schema's size limits, from both sides."""
    from arroba.repo import Write
    from arroba.storage import Action
    rng = lib.rng_of('c33' + case['seed'])
    for n, each, known in ((2, 990_000, None), (190, 9_000, None), (1, 1_000_000 - 60, None), (3, 990_000, 'big-commit')):
        w = lib.World('memory')
        repo = lib.create_repo(w, 0)
        w.storage.commit(repo, [Write(Action.CREATE, 'com.example.big', f'k{j}', {'$type': 'com.example.big', 'x': chr(97 + j % 26) * each, 'j': j}) for j in range(n)])
        st = fh.Stream()
        if not ctx.check(c32.started(st, 1), 'firehose did not start'):
            return
        sub = st.sub(0, fn=subscribe, take=w.storage.sequences.last(lexicon.SUBSCRIBE))
        st.settle()
        # the collector waits for one more event
        with w.ctx():
            w.storage.write_event(repo=repo, type='identity', handle=repo.handle)
        st.settle()
        ctx.count('big_commits')
        for e in sub.events:
            size = len(e[1].get('blocks', b''))
            frame(ctx, e, key=known if size > 2_000_000 else None)


def world(case, ctx, rng):
    """A server with all kinds of accounts and records."""
    from arroba import server
    quiet = Quiet()
    src = c32.Server({**case, 'kind': 'memory'}, quiet, rng)
    src.elsewhere(1)
    s = c32.Server(case, quiet, rng)
    s.archives, s.blobs = src.archives, []
    for _ in range(rng.choice((1, 4, 10))):
        s.act()
    if not s.n:
        s.new()
    handleless(ctx, s, 30)
    with s.w.ctx():
        server.repo = s.w.storage.load_repo(sorted(s.n)[0])
    if s.w.kind == 'datastore':
        blobs(s, rng)
    extreme(s, rng)
    return s


def hist(case, ctx):
    rng = lib.rng_of('c33' + case['seed'])
    s = world(case, ctx, rng)
    lives = rng.choice((1, 2, 3))
    for life in range(lives):
        if life:
            ctx.count('restarts')
        st = s.stream = fh.Stream(rollback=rng.choice((2, 5, 50000)), preload=rng.choice((1, 4, 50000)))
        for q in s.lost:
            st.callback(lost_seq=q)
        limit = None if life == lives - 1 else rng.choice((2, 6, 12))
        if not ctx.check(c32.started(st, limit), 'firehose did not start'):
            return
        subs = []
        for step in range(400):
            if limit is None and step >= 40:
                break
            if limit is not None:
                st.settle()
                if not st.fh.collector.is_alive():
                    break
            r = rng.random()
            if r < .3 or limit and step > 50:
                s.act()
            elif r < .85:
                ask(ctx, s, rng)
            else:
                last = s.last()
                cursor = rng.choice((None, 0, 0, 1, last, last + 1, last + 10**6, max(last - 3, 0)))
                subs.append(st.sub(cursor, fn=subscribe))
            if ctx.violations:
                return
        else:
            raise Inconclusive('a server life never ended')
        if limit is None:
            d = rng.choice(sorted(set(s.n) - s.tomb) or sorted(s.n))
            with s.w.ctx():
                s.w.storage.tombstone_repo(s.repo(d))
            subs.append(st.sub(0, fn=subscribe))
        st.settle()
        for sub in subs:
            for e in list(sub.events):
                if not frame(ctx, e):
                    return
            if sub.error is not None:
                ctx.check(False, f'subscription from {sub.cursor} ended: {sub.error!r} {sub.tb[-600:]}')
                return
    ctx.count('imports', len(s.imported))
    ctx.sample({'backend': case['kind'], 'accounts': len(s.n), 'seq': s.last()})


def archives(case, ctx):
    """The damaged archives of C19."""
    orig, orig_from = c19.post, c19.resolve_from
    there = []

    def resolve_from(docs):
        there[:] = [all(docs.values())]
        orig_from(docs)

    def post(car, **kw):
        resp = orig(car, **kw)
        if there[0]:        # otherwise the PLC directory is down, which may be a 5xx
            response(ctx, 'com.atproto.repo.importRepo', None, resp, (car[:60], len(car), 'archive'))
            ctx.count('archives')
        return resp
    c19.post, c19.resolve_from = post, resolve_from
    try:
        c19.bad(case, Quiet())
    finally:
        c19.post, c19.resolve_from = orig, orig_from


def odds(case, ctx):
    """Every parameter of every method with every odd value, alone."""
    rng = lib.rng_of(case['seed'])
    s = world(case, ctx, rng)
    s.new()
    d = max(s.n, key=lambda x: s.n[x] if s.handle[x] != x else -1)
    d, gets, posts = menu(s, rng, d)
    todo = []
    for is_get, menu_ in ((True, gets), (False, posts)):
        for method, params in {m: p for m, p in menu_}.items():
            if isinstance(params, bytes):
                continue
            for k in sorted(params) + ['limit', 'cursor', 'cid', 'rkey', 'since']:
                todo += [(method, is_get, k, params, v) for v in ODD + (() if is_get else ODDER)]
    for n, (method, is_get, k, params, v) in enumerate(todo):
        if n % case['of'] == case['part']:
            ctx.count('odds')
            send(ctx, s, d, method, is_get, {**params, k: v}, dict(AUTH), 'odd')
