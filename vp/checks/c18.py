"""C18: a repo export is complete, minimal and correctly gated."""
import datetime

from vp import cario, lib, refmst, web

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: every export over HTTP parsed by an independent CAR reader and compared block for block with the set computed '
             'from a model of the repo; gating decided against a table over account ages, settings and credentials')
NOTE = ('Random histories of two repos with shared, recurring and reverted records, trees up to thousands of records, both backends, deferred '
        'and split database reads. Age gating applies to the Datastore only: repos in memory have no creation time. The exact instant of 12 '
        'hours may go either way.')
RULE = ('histories, then getRepo and getCheckout of every repo by other and own callers; ages around 12 hours x disabled or not x token '
        'configured or not x credentials. Distinct: (backend, size class, height, endpoint) and (age class, disabled, token, credential).')
REQUIRED = ('exports', 'checkouts', 'shared_blocks', 'past_blocks_absent', 'gated', 'token_allowed', 'young_allowed', 'big', 'record_is_node', 'deferred')
ISOLATE = True
CASE_TIMEOUT = 240


def cases(tier, seed):
    n, m, b = (72, 12, 3) if tier == 'quick' else (1000, 600, 30)
    return ([{'seed': f'{seed}.b{i}', 'mode': 'big', 'kind': ('datastore', 'memory')[i % 2]} for i in range(b)]
            + [{'seed': f'{seed}.{i}', 'mode': 'hist', 'kind': ('datastore', 'memory')[i % 2]} for i in range(n)]
            + [{'seed': f'{seed}.g{i}', 'mode': 'gate', 'kind': 'datastore'} for i in range(m)])


def setup():
    lib.boot(REPO_TOKEN='repo-token-9', PDS_HOST='pds.example.com')
    web.app()


def exported(ctx, w, what, i, contents, past, endpoint='getRepo', headers=None):
    """One export against the model. past: every CID ever stored for any repo."""
    with w.ctx():
        head = w.storage.load_repo(lib.did(i)).head
    resp = web.get('com.atproto.sync.' + endpoint, did=lib.did(i), headers=headers)
    if not ctx.check(resp.status == 200, f'{what}: {resp}'):
        return
    try:
        car = cario.Car(resp.data)
    except (cario.Bad, ValueError, IndexError, KeyError) as e:
        return ctx.check(False, f'{what}: not a valid archive: {e}')
    root, nodes = refmst.build({p: lib.rec_cid(r) for p, r in contents.items()})
    commit = bytes(head.cid)
    records = {lib.rec_cid(r): lib.enc(r) for r in contents.values()}
    want = {commit: bytes(head.encoded), **nodes, **records}
    ok = (ctx.check(car.roots == [commit], f'{what}: archive is rooted at {[cario.cid_str(c) for c in car.roots]}, not the head')
          and ctx.check(cario.decode(bytes(head.encoded))['data'].cid == root, f'{what}: head has another data root')
          and ctx.check(len(car.order) == len(set(car.order)), f'{what}: {len(car.order) - len(set(car.order))} blocks are in the archive twice')
          and ctx.check(not want.keys() - car.blocks.keys(), f'{what}: archive of {len(car.blocks)} blocks lacks {len(want.keys() - car.blocks.keys())}: '
                        + str([('node' if c in nodes else 'record' if c in records else 'commit') for c in want.keys() - car.blocks.keys()][:5]))
          and ctx.check(not car.blocks.keys() - want.keys(), f'{what}: archive has {len(car.blocks.keys() - want.keys())} blocks the repo does not use')
          and ctx.check(all(bytes(car.blocks[c]) == want[c] for c in want), f'{what}: archive has wrong bytes for a block'))
    if ok:
        ctx.count('exports' if endpoint == 'getRepo' else 'checkouts')
        ctx.count('past_blocks_absent', len(past - want.keys()))
    return ok


def defer(rng, ctx):
    def pick(keys):
        idx = list(range(len(keys)))
        rng.shuffle(idx)
        k = rng.randrange(1, len(idx) + 1) if len(idx) > 1 else 1
        if k < len(idx):
            ctx.count('deferred')
        return idx[:k], idx[k:]
    return pick


def run_case(case, ctx):
    globals()[case['mode']](case, ctx)


def hist(case, ctx):
    from arroba.repo import Write
    from arroba.storage import Action
    rng = lib.rng_of(case['seed'])
    w = lib.World(case['kind'])
    ids = [0, 1]
    universe = lib.key_universe(rng, rng.choice((3, 8, 25, 60)))
    mix = lib.Mix(rng, ids, universe)
    if case['kind'] == 'datastore' and rng.random() < .5:
        w.store.defer = defer(rng, ctx)
    with w.ctx():
        repos = {i: lib.create_repo(w, i) for i in ids}
    past = set()
    for step in range(rng.choice((6, 14))):
        i = rng.choice(ids)
        ws, new, kind = mix.next(i)
        with w.ctx():
            repo = repos[i] if case['kind'] == 'memory' else w.storage.load_repo(lib.did(i))
            try:
                w.storage.commit(repo, ws)
                mix.done(i, new)
            except Exception:
                if new is not None:
                    raise
        if rng.random() < .08:   # a record that is byte for byte one of the tree's nodes
            nodes = [n for n in refmst.build({p: lib.rec_cid(r) for p, r in mix.contents[i].items()})[1].values()]
            rec = lib_plain(cario.decode(rng.choice(nodes)))
            path = f'com.example.zz/n{step}'
            with w.ctx():
                repo = repos[i] if case['kind'] == 'memory' else w.storage.load_repo(lib.did(i))
                w.storage.commit(repo, [Write(Action.CREATE, *path.split('/'), rec)])
            mix.done(i, {**mix.contents[i], path: rec})
            ctx.count('record_is_node')
        past |= set(w.blocks())
        for j in ids if rng.random() < .4 else [i]:
            if not exported(ctx, w, f'step {step} ({kind}): export of repo {j}, {len(mix.contents[j])} records', j, mix.contents[j], past,
                            rng.choice(('getRepo', 'getRepo', 'getCheckout'))):
                return
            root = max(map(refmst.layer_of, mix.contents[j]), default=0)
            ctx.sig(case['kind'], min(len(mix.contents[j]), 20), root, kind)
        a, b = ({lib.rec_cid(r) for r in mix.contents[j].values()} for j in ids)
        ctx.count('shared_blocks', len(a & b))
    ctx.sample({'backend': case['kind'], 'records': [len(c) for c in mix.contents.values()], 'blocks_stored': len(past)})


def lib_plain(v):
    """cario's decoded form back to the library's."""
    if isinstance(v, cario.Link):
        return lib.acid(v.cid)
    if isinstance(v, dict):
        return {k: lib_plain(x) for k, x in v.items()}
    return [lib_plain(x) for x in v] if isinstance(v, list) else v


def big(case, ctx):
    from arroba.repo import Write
    from arroba.storage import Action
    rng = lib.rng_of(case['seed'])
    w = lib.World(case['kind'])
    n = rng.choice((1001, 1300, 2100))
    contents = {}
    with w.ctx():
        repo = lib.create_repo(w, 0)
        done = 0
        while done < n:
            ws = []
            for k in range(min(200, n - done)):
                rec = {'$type': 'x.y.z', 'i': done + k if rng.random() < .95 else 5}
                path = f'{lib.NSIDS[(done + k) % 4]}/3k{rng.randrange(10**9):09d}{k}'
                ws.append(Write(Action.CREATE, *path.split('/'), rec))
                contents[path] = rec
            w.storage.commit(repo, ws)
            done += len(ws)
    if case['kind'] == 'datastore':
        w.store.defer = defer(rng, ctx)
    ctx.count('big')
    exported(ctx, w, f'export of {n} records', 0, contents, set(w.blocks()))
    ctx.sig('big', case['kind'], n)


def gate(case, ctx):
    from arroba import util
    from arroba.repo import Write
    from arroba.storage import Action
    import webutil.util
    rng = lib.rng_of(case['seed'])
    w = lib.World('datastore')
    with w.ctx():
        repo = lib.create_repo(w, 0)
        rec = {'$type': 'com.example.a', 'x': 1}
        w.storage.commit(repo, [Write(Action.CREATE, 'com.example.a', 'k', rec)])
        created = w.storage.load_repo(lib.did(0)).created
        w.storage.commit(repo, [Write(Action.UPDATE, 'com.example.a', 'k', rec)])
        w.storage.deactivate_repo(repo)
        w.storage.activate_repo(w.storage.load_repo(lib.did(0)))
        if not ctx.check(w.storage.load_repo(lib.did(0)).created == created, 'the creation time changed after a commit or status change'):
            return
    contents = {'com.example.a/k': rec}
    past = set(w.blocks())
    real_now = webutil.util.now
    skew = datetime.timedelta(seconds=5)
    ages = [datetime.timedelta(**a) for a in (dict(seconds=0), dict(hours=1), dict(hours=11, minutes=59), dict(hours=12, minutes=1), dict(hours=13),
                                              dict(hours=23, minutes=59), dict(days=1, hours=1), dict(days=1), dict(days=40), dict(days=400))]
    ages += [datetime.timedelta(hours=12) - skew, datetime.timedelta(hours=12) + skew, datetime.timedelta(days=rng.randrange(1, 900), hours=rng.randrange(24))]
    try:
        for age in ages:
            webutil.util.now = lambda *a, **k: created + age
            for disabled in (False, True):
                for token in (None, '', 'export-tok-5'):
                    util.DISABLE_GETREPO, util.GETREPO_TOKEN = disabled, token
                    for cred, good in rng.sample([(None, 0), ('Bearer ', 0), ('', 0), ('Bearer nope', 0), ('Bearer export-tok-5', 1),
                                                  ('Bearer export-tok-', 0), ('Bearer export-tok-55', 0), ('Bearer repo-token-9', 0),
                                                  ('Basic export-tok-5', 0), ('Bearer None', 0), ('Bearer EXPORT-TOK-5', 0)], 2) + [('Bearer export-tok-5', 1)]:
                        for endpoint in ('getRepo', 'getCheckout'):
                            allowed = not disabled or age < datetime.timedelta(hours=12) or (bool(good) and bool(token))
                            headers = {} if cred is None else {'Authorization': cred}
                            what = f'{endpoint} at age {age}, exports {"disabled" if disabled else "on"}, token {token!r}, credential {cred!r}'
                            ctx.sig(str(age), disabled, token, cred, endpoint)
                            if allowed:
                                ctx.count('token_allowed', int(disabled and age > datetime.timedelta(hours=12)))
                                ctx.count('young_allowed', int(disabled and age < datetime.timedelta(hours=12)))
                                if not exported(ctx, w, what, 0, contents, past, endpoint, headers):
                                    return
                            else:
                                ctx.count('gated')
                                resp = web.get('com.atproto.sync.' + endpoint, did=lib.did(0), headers=headers)
                                if not ctx.check(resp.status >= 400 and b'com.example' not in resp.data, f'{what}: not refused: {resp}'):
                                    return
    finally:
        webutil.util.now = real_now
