"""C16: the record API behaves as a map per repo."""
import base64
import contextlib
import itertools

from vp import cario, lib, web

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: every response of random record API histories over HTTP compared with a dictionary per repo, kept and encoded '
             'independently; state and event log compared around every refused request')
NOTE = ('Random histories over two repos on both backends, with prefix-sharing collections, tall and dense trees, hostile values, every page '
        'size and modification during paging. Values are compared in the JSON form of the protocol.')
RULE = ('create, put, get, delete, list walks with and without concurrent changes, malformed and unsupported requests, allow lists. Distinct: '
        '(backend, operation, existing or not, outcome, allow list).')
REQUIRED = ('creates', 'create_existing', 'updates', 'gets', 'missing_gets', 'deletes', 'missing_deletes', 'walks', 'pages', 'live_walks',
            'refused', 'outside_list', 'generated_rkeys', 'empty_records', 'repeated_records', 'filled')
ISOLATE = True
CASE_TIMEOUT = 240
TOKEN = 'towkin'
R = 'com.atproto.repo.'


def cases(tier, seed):
    n = 120 if tier == 'quick' else 2500
    return [{'seed': f'{seed}.{i}', 'kind': ('memory', 'datastore', 'memory')[i % 3]} for i in range(n)]


def setup():
    lib.boot(REPO_TOKEN=TOKEN, PDS_HOST='pds.example.com')
    web.app()


def to_json(x):
    """The protocol's JSON form of a value."""
    from multiformats import CID
    if isinstance(x, bytes):
        return {'$bytes': base64.b64encode(x).decode().rstrip('=')}
    if isinstance(x, CID):
        return {'$link': 'b' + base64.b32encode(bytes(x)).decode().lower().rstrip('=')}
    if isinstance(x, dict):
        return {k: to_json(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [to_json(v) for v in x]
    return x


def plain_json(x):
    """Whether the value's JSON form is unambiguous (an object with just '/' means a link in other dialects)."""
    if isinstance(x, dict):
        return '/' not in x and all(map(plain_json, x.values()))
    return all(map(plain_json, x)) if isinstance(x, list) else True


def cid_str(rec):
    return 'b' + base64.b32encode(lib.rec_cid(rec)).decode().lower().rstrip('=')


def same(a, b):
    return a == b and type(a) is type(b) if not isinstance(a, (dict, list)) else (
        isinstance(b, type(a)) and len(a) == len(b) and
        (all(k in b and same(v, b[k]) for k, v in a.items()) if isinstance(a, dict) else all(same(x, y) for x, y in zip(a, b))))


def plain(rng, rec_i):
    rec = None
    while rec is None or not plain_json(rec):
        rec = lib.record(rng, next(rec_i))
    return rec


def run_case(case, ctx):
    from arroba import xrpc_repo
    rng = lib.rng_of(case['seed'])
    w = lib.World(case['kind'])
    ids = [0, 1]
    with w.ctx():
        for i in ids:
            lib.create_repo(w, i)
    universe = lib.key_universe(rng, rng.choice((4, 10, 30, 60)), style=rng.choice(('plain', 'layers', 'dense', 'prefix', 'tall')))
    universe += [f'{c}/{k}' for c in ('com.example.a', 'com.example.aa', 'com.example.a.b', 'com.example.A')
                 for k in ('1', '10', '1:', 'a-b_c.d', '2', '1-', '10--', 'z.', 'z_')]
    colls = sorted({p.split('/')[0] for p in universe})
    allowed = set(rng.sample(colls, rng.randrange(1, len(colls)))) if rng.random() < .25 else set()
    xrpc_repo.SUPPORTED_COLLECTIONS = frozenset(allowed)
    model = {i: {} for i in ids}
    rec_i = itertools.count()
    open_ctx = w.ctx() if rng.random() < .5 else contextlib.nullcontext()

    def ok_coll(p):
        return not allowed or p.split('/')[0] in allowed

    def name(i):
        return rng.choice((lib.did(i), lib.did(i), f'h{i}.example.com'))

    def state():
        with w.ctx():
            return ([w.storage.load_repo(lib.did(i)).head.cid for i in ids],
                    len(list(w.storage.read_events_by_seq())))

    def expect_refused(what, resp, before):
        ctx.count('refused')
        return (ctx.check(resp.status >= 400, f'{what}: {resp}')
                and ctx.check(state() == before, f'{what}: refused with {resp.status}, but had an effect'))

    if rng.random() < .7:       # collections of several pages, with repeated records
        from arroba.repo import Write
        from arroba.storage import Action
        big = rng.choice(('com.example.a', 'com.example.big')) if not allowed else rng.choice(sorted(allowed))
        for i in ids:
            paths = [p for p in universe if ok_coll(p) and rng.random() < .7]
            if rng.random() < .12:
                paths += [f'{big}/{n}' for n in range(rng.choice((49, 50, 51, 52, 99, 100, 101, 110)))]
            pool = [plain(rng, rec_i) for _ in range(rng.choice((1, 2, 5, 100)))]
            model[i] = {p: rng.choice(pool) for p in paths}
            with w.ctx():
                if paths:
                    w.storage.commit(w.storage.load_repo(lib.did(i)), [Write(Action.CREATE, *p.split('/'), r) for p, r in model[i].items()])
            ctx.count('filled', len(model[i]))

    with open_ctx:
        for step in range(rng.choice((25, 45))):
            i = rng.choice(ids)
            d, m = lib.did(i), model[i]
            path = rng.choice(sorted(m)) if m and rng.random() < .4 else rng.choice(universe)
            coll, rk = path.split('/')
            rec = {} if rng.random() < .05 else lib.record(rng, next(rec_i))
            while not plain_json(rec):
                rec = lib.record(rng, next(rec_i))
            if rng.random() < .3 and m:
                rec = m[rng.choice([p for p in sorted(m) if p.split('/')[0] == coll] or sorted(m))]
                ctx.count('repeated_records')
            op = rng.choice(('create', 'create', 'put', 'put', 'get', 'get', 'delete', 'list', 'list', 'gen', 'bad', 'nolist', 'live'))
            what = f'step {step}: {op} {coll}/{rk} in repo {i} (have {path in m}, allowed {sorted(allowed)})'
            before = state() if op in ('bad',) or not ok_coll(path) or op in ('create', 'delete', 'put', 'gen') else None
            out = None
            if op in ('create', 'put', 'gen'):
                body = {'repo': name(i), 'collection': coll, 'record': to_json(rec)}
                if op != 'gen':
                    body['rkey'] = rk
                resp = web.post(R + ('putRecord' if op == 'put' else 'createRecord'), body, token=TOKEN)
                out = resp.status
                if not ok_coll(path):
                    ctx.count('outside_list')
                    if not expect_refused(what, resp, before):
                        return
                elif op == 'create' and path in m:
                    ctx.count('create_existing')
                    if not expect_refused(what, resp, before):
                        return
                elif rec == {} and resp.status >= 400:   # records need a $type; refusing one without is fine
                    ctx.count('empty_records')
                    if not expect_refused(what, resp, before):
                        return
                else:
                    if not ctx.check(resp.status == 200, f'{what}: {resp}'):
                        return
                    uri = resp.json.get('uri', '')
                    if op == 'gen':
                        ctx.count('generated_rkeys')
                        rk = uri.rsplit('/', 1)[-1]
                        path = f'{coll}/{rk}'
                        if not ctx.check(path not in m and len(rk) == 13, f'{what}: generated key gives {uri}'):
                            return
                    ctx.count('updates' if path in m else 'creates')
                    if not ctx.check(uri == f'at://{d}/{coll}/{rk}' and resp.json.get('cid') == cid_str(rec),
                                     f'{what}: answered {resp}, should be cid {cid_str(rec)}'):
                        return
                    m[path] = rec
            elif op == 'get':
                resp = web.get(R + 'getRecord', repo=name(i), collection=coll, rkey=rk)
                if not ok_coll(path):
                    ctx.count('outside_list')
                    if not expect_refused(what, resp, before):
                        return
                elif not got(ctx, what, resp, d, path, m):
                    return
            elif op == 'delete':
                resp = web.post(R + 'deleteRecord', {'repo': name(i), 'collection': coll, 'rkey': rk}, token=TOKEN)
                if not ok_coll(path):
                    ctx.count('outside_list')
                    if not expect_refused(what, resp, before):
                        return
                else:
                    if not ctx.check(resp.status == 200, f'{what}: {resp}'):
                        return
                    if path in m:
                        ctx.count('deletes')
                        del m[path]
                    else:
                        ctx.count('missing_deletes')
                        if not ctx.check(state() == before, f'{what}: deleting nothing had an effect'):
                            return
            elif op in ('list', 'live', 'nolist'):
                if op == 'nolist':
                    coll = rng.choice(('com.example.none', 'app.bsky.feed', 'zz.zz.zz', 'a.a.a'))
                if not walk(w, ctx, rng, what, name(i), i, m, coll, allowed, op == 'live', rec_i, universe):
                    return
            else:
                if not bad(ctx, rng, what, name(i), coll, rk, rec, expect_refused, before, m):
                    return
            ctx.sig(case['kind'], op, path in m, out, bool(allowed))
        # the model in full
        for i in ids:
            with w.ctx():
                contents = w.storage.load_repo(lib.did(i)).get_contents()
            flat = {f'{c}/{r}': v for c, rs in contents.items() for r, v in rs.items()}
            if not ctx.check(set(flat) == set(model[i]) and all(lib.enc(flat[p]) == lib.enc(model[i][p]) for p in flat),
                             f'repo {i} holds {sorted(flat)}, should hold {sorted(model[i])}'):
                return
            for p in rng.sample(universe, min(8, len(universe))):
                if ok_coll(p):
                    c, r = p.split('/')
                    resp = web.get(R + 'getRecord', repo=name(i), collection=c, rkey=r)
                    if not got(ctx, f'finally get {p} of repo {i}', resp, lib.did(i), p, model[i]):
                        return
    ctx.sample({'backend': case['kind'], 'records': [len(m) for m in model.values()], 'allowed': sorted(allowed)})


def got(ctx, what, resp, d, path, m):
    if path not in m:
        ctx.count('missing_gets')
        return ctx.check(resp.status >= 400, f'{what}: found a record that is not there: {resp}')
    ctx.count('gets')
    return (ctx.check(resp.status == 200, f'{what}: {resp}')
            and ctx.check(same(resp.json, {'uri': f'at://{d}/{path}', 'cid': cid_str(m[path]), 'value': to_json(m[path])}),
                          f'{what}: got {resp}, should be {to_json(m[path])} {cid_str(m[path])}'))


def walk(w, ctx, rng, what, name, i, m, coll, allowed, live, rec_i, universe):
    limit = rng.choice((None, 1, 1, 2, 3, 5, 100) if len(m) < 60 else (None, 9, 50, 100))
    pages, items, cursor = 0, [], None
    started, ever, stable = dict(m), dict(m), set(m)
    while True:
        resp = web.get(R + 'listRecords', repo=name, collection=coll, limit=limit, cursor=cursor)
        pages += 1
        if not ctx.check(resp.status == 200, f'{what}: listRecords: {resp}'):
            return False
        recs = resp.json['records']
        if not ctx.check(len(recs) <= (limit or 50), f'{what}: {len(recs)} records with limit {limit}'):
            return False
        items += [(r['uri'], r['cid'], r['value'], dict(ever)) for r in recs]
        cursor = resp.json.get('cursor')
        if cursor is None:
            break
        if not ctx.check(pages <= 2 * len(ever) + 5, f'{what}: cursors never end (limit {limit}, {pages} pages, cursor {cursor})'):
            return False
        if live and rng.random() < .5:
            path = rng.choice([p for p in universe if not allowed or p.split('/')[0] in allowed] or [None])
            if path:
                c, r = path.split('/')
                if path in m and rng.random() < .7:
                    resp = web.post(R + 'deleteRecord', {'repo': name, 'collection': c, 'rkey': r}, token=TOKEN)
                    stable.discard(path)
                    del m[path]
                else:
                    rec = lib.record(rng, next(rec_i), simple=True)
                    resp = web.post(R + 'putRecord', {'repo': name, 'collection': c, 'rkey': r, 'record': to_json(rec)}, token=TOKEN)
                    m[path] = rec
                    ever[path] = rec
                if not ctx.check(resp.status == 200, f'{what}: change while paging: {resp}'):
                    return False
    ctx.count('walks')
    ctx.count('pages', pages)
    ctx.count('live_walks', 1 if live and pages > 1 else 0)
    d = lib.did(i)
    if allowed and coll not in allowed:
        ctx.count('outside_list')
        return ctx.check(items == [], f'{what}: listed {len(items)} records of a collection outside the allow list')
    uris = [x[0] for x in items]
    order = sorted(uris, key=lambda u: u.encode())
    if not ctx.check(uris == order and len(set(uris)) == len(uris), f'{what}: limit {limit} visits {uris}, not each once in order'):
        return False
    paths = [u.removeprefix(f'at://{d}/') for u in uris]
    want = {p for p in stable if p.split('/')[0] == coll}
    if not ctx.check(want <= set(paths) and all(p in e and p.split('/')[0] == coll for p, (_, _, _, e) in zip(paths, items)),
                     f'{what}: limit {limit} visits {paths}, should visit {sorted(want)}'):
        return False
    for p, (uri, cid, value, then) in zip(paths, items):
        if not ctx.check(cid == cid_str(then[p]) and same(value, to_json(then[p])), f'{what}: shows {uri} as {cid} {value}'):
            return False
    if not live:
        return ctx.check(set(paths) == want, f'{what}: limit {limit} visits {paths}, should visit {sorted(want)}')
    return True


def bad(ctx, rng, what, name, coll, rk, rec, expect_refused, before, m):
    j = to_json(rec)
    full = {'repo': name, 'collection': coll, 'rkey': rk, 'record': j}
    cid = cid_str({'x': 1})
    reqs = []
    for method in ('createRecord', 'putRecord'):
        for swap in ('swapCommit',) + (('swapRecord',) if method == 'putRecord' else ()):
            reqs.append((method, {**full, swap: cid}))
        for miss in ('repo', 'collection', 'record') + (('rkey',) if method == 'putRecord' else ()):
            reqs.append((method, {k: v for k, v in full.items() if k != miss}))
        reqs += [(method, {**full, 'repo': 'did:plc:' + 'z' * 24}), (method, {**full, 'repo': 'nobody.example.com'}),
                 (method, {**full, 'record': 'str'}), (method, {**full, 'record': 7}), (method, {**full, 'record': None}),
                 (method, {**full, 'collection': 'not an nsid'}), (method, {**full, 'collection': coll + '/x'}),
                 (method, {**full, 'rkey': 'a/b'}), (method, {**full, 'rkey': 'a b'}), (method, {**full, 'rkey': ''}),
                 (method, {**full, 'rkey': '.'}), (method, {**full, 'rkey': '..'}), (method, {**full, 'rkey': 'é'}),
                 (method, {**full, 'rkey': 'x' * 600}), (method, {**full, 'record': {'$type': 'app.bsky.feed.post', 'text': 3}}),
                 (method, {**full, 'record': {'$type': 'app.bsky.feed.post'}}), (method, {**full, 'repo': ''}),
                 (method, {**full, 'repo': 5})]
    dele = {'repo': name, 'collection': coll, 'rkey': rk}
    reqs += [('deleteRecord', {**dele, 'swapCommit': cid}), ('deleteRecord', {**dele, 'swapRecord': cid})]
    reqs += [('deleteRecord', {k: v for k, v in dele.items() if k != miss}) for miss in dele]
    reqs += [('applyWrites', {'repo': name, 'writes': [{'$type': 'com.atproto.repo.applyWrites#create', 'collection': coll, 'rkey': 'aw', 'value': j}]})]
    gets = [('getRecord', dict(repo=name, collection=coll, rkey=rk, cid=cid)), ('getRecord', dict(repo=name, collection=coll)),
            ('getRecord', dict(repo=name, rkey=rk)), ('getRecord', dict(collection=coll, rkey=rk)),
            ('getRecord', dict(repo='nobody.example.com', collection=coll, rkey=rk)),
            ('listRecords', dict(repo='nobody.example.com', collection=coll)),
            ('listRecords', dict(repo=name)), ('listRecords', dict(repo=name, collection=coll, reverse=True)),
            ('listRecords', dict(repo=name, collection=coll, limit=0)), ('listRecords', dict(repo=name, collection=coll, limit=-1)),
            ('listRecords', dict(repo=name, collection=coll, limit=101)), ('listRecords', dict(repo=name, collection=coll, limit='x')),
            ('describeRepo', dict()), ('describeRepo', dict(repo='nobody.example.com'))]
    for method, body in rng.sample(reqs, 3):
        resp = web.post(R + method, body, token=TOKEN)
        ctx.sig('bad', method, tuple(sorted(body)), resp.status)
        if not expect_refused(f'{what}: {method} {str(body)[:300]}', resp, before):
            return False
    for method, params in rng.sample(gets, 2):
        resp = web.get(R + method, **params)
        ctx.sig('bad', method, tuple(sorted(params)), resp.status)
        from arroba import xrpc_repo
        if method == 'listRecords' and xrpc_repo.SUPPORTED_COLLECTIONS and params.get('collection') not in xrpc_repo.SUPPORTED_COLLECTIONS \
                and resp.status == 200 and resp.json.get('records') == []:
            continue
        if not expect_refused(f'{what}: {method} {params}', resp, before):
            return False
    return True
