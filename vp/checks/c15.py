"""C15: account status governs writes, reads and events."""
import itertools

from vp import cario, lib, sched, web

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: model of each account\'s status checked against every endpoint over HTTP, commits through fresh and stale repo objects '
             'and the stored event log after each operation of random histories; stepped schedules of commits racing status changes with a '
             'checker over every stored version')
NOTE = ('Random status histories of two accounts on both backends; the race schedules interleave at every Datastore RPC. Blob redirects are '
        'not tied to a repo\'s status; an object that was made stale by a reactivation may still refuse to commit.')
RULE = ('random deactivate, activate, tombstone, commit through fresh, old and other-process objects, then all endpoints by DID and handle; '
        'two-thread schedules of commit or HTTP write against status change. Distinct: (backend, transition, object age, status) and schedules.')
REQUIRED = ('transitions', 'stale_refused', 'http_refused', 'reactivated_same', 'tombstones', 'noop_activate', 'creation_orders', 'race_commit_ok',
            'race_commit_refused', 'race_numbers_later', 'in_force_when_announced', 'status_reports', 'fresh_process',
            'empty_commits', 'young')
CASE_TIMEOUT = 240
ISOLATE = True
TOKEN = 'towkin'


def cases(tier, seed):
    n, m, per = (64, 60, 3) if tier == 'quick' else (1600, 800, 8)
    return ([{'seed': f'{seed}.{i}', 'kind': ('datastore', 'memory')[i % 2]} for i in range(n)]
            + [{'seed': f'{seed}.r{i}', 'kind': 'race', 'runs': per} for i in range(m)])


def setup():
    lib.boot(REPO_TOKEN=TOKEN, PDS_HOST='pds.example.com')
    web.app()


def run_case(case, ctx):
    if case['kind'] == 'race':
        for r in range(case['runs']):
            race(case, r, ctx)
            if ctx.violations:
                return
    else:
        history(case, ctx)


def plain_event(e):
    if isinstance(e, dict):
        return (e['$type'].split('#')[1], e['seq'], e['did'], {k: v for k, v in e.items() if k not in ('$type', 'seq', 'did', 'time')})
    return ('commit', e.commit.seq, e.commit.decoded['did'], {})


def events(w, start=0):
    return [plain_event(e) for e in w.storage.read_events_by_seq(start)]


def export(did):
    from arroba import server, xrpc_sync  # noqa
    return server.server.call('com.atproto.sync.getRepo', {}, did=did)


class FakeResp:
    status_code, ok = 200, True
    headers = {}

    def __init__(self, did):
        self.did = did

    def raise_for_status(self):
        pass

    def json(self):
        return {'id': self.did, 'alsoKnownAs': []}


def reads(d, coll, rk, cid):
    """Everything that reads a repo, as (nsid, params)."""
    r, s = 'com.atproto.repo.', 'com.atproto.sync.'
    return [(r + 'getRecord', dict(repo=d, collection=coll, rkey=rk)),
            (r + 'listRecords', dict(repo=d, collection=coll)),
            (r + 'describeRepo', dict(repo=d)),
            (s + 'getRepo', dict(did=d)), (s + 'getCheckout', dict(did=d)),
            (s + 'getHead', dict(did=d)), (s + 'getLatestCommit', dict(did=d)),
            (s + 'getRecord', dict(did=d, collection=coll, rkey=rk)),
            (s + 'getBlocks', dict(did=d, cids=[cid]))]


def history(case, ctx):
    from arroba.repo import Write
    from arroba.storage import Action
    import webutil.util
    rng = lib.rng_of(case['seed'])
    w = lib.World(case['kind'])
    webutil.util.session.get = lambda url, **kw: FakeResp(url.rsplit('/', 1)[-1])
    ids = [0, 1]
    status = {i: None for i in ids}
    dead = {i: False for i in ids}          # ever tombstoned
    contents = {i: {} for i in ids}
    old = {i: [] for i in ids}              # repo objects of every age
    count = itertools.count()
    seen = []
    with w.ctx():
        for i in ids:
            cb = lib.Cb()
            before = len(events(w))
            repo = lib.create_repo(w, i, callback=cb)
            new = events(w)[before:]
            ctx.count('creation_orders')
            if not ctx.check([e[0] for e in new] == ['commit', 'identity', 'account', 'sync'] and all(e[2] == lib.did(i) for e in new)
                             and new[2][3].get('active') is True and new[1][3].get('handle') == repo.handle,
                             f'creating a repo emitted {new}'):
                return
            seqs = [e[1] for e in new]
            if not ctx.check(seqs == sorted(set(seqs)), f'creation events numbered {seqs}'):
                return
            old[i].append(repo)
            w.storage.commit(repo, [Write(Action.CREATE, 'com.example.a', 'base', {'$type': 'com.example.a', 'x': i})])
            contents[i]['base'] = {'$type': 'com.example.a', 'x': i}
    seen = []
    frozen = {}

    def obj(i, age):
        if case['kind'] == 'memory':
            return old[i][0]
        if age == 'old':
            return rng.choice(old[i])
        storage = w.new_storage() if age == 'process' else w.storage
        repo = storage.load_repo(rng.choice((lib.did(i), f'h{i}.example.com')))
        old[i].append(repo)
        return repo

    for step in range(rng.choice((8, 14))):
        i = rng.choice(ids)
        d = lib.did(i)
        age = rng.choice(('fresh', 'old', 'old', 'process')) if case['kind'] != 'memory' else 'shared'
        op = rng.choice(('commit', 'deactivate', 'activate', 'activate', 'tombstone', 'deactivate', 'commit')
                        if rng.random() < .5 else ('commit', 'deactivate', 'activate'))
        if op == 'deactivate' and dead[i]:
            op = 'activate'
        what = f'step {step} {op} repo {i} ({age} object, {status[i]})'
        with w.ctx():
            before = events(w)
            head_before = w.storage.load_repo(d).head.cid
            repo = obj(i, age)
            stale = repo.status != status[i]
            cb = repo.callback = lib.Cb()
            snap = export(d) if not status[i] else None
            if op == 'commit':
                rk = f'k{next(count)}'
                rec = {'$type': 'com.example.a', 'n': rk}
                batch = rng.choice(([Write(Action.CREATE, 'com.example.a', rk, rec)], Write(Action.CREATE, 'com.example.a', rk, rec), [], []))
                if batch == []:     # just a new commit with the same contents
                    rec = None
                    ctx.count('empty_commits')
                err = None
                try:
                    (w.storage if age != 'process' else repo.storage).commit(repo, batch)
                except Exception as e:
                    err = e
                if status[i]:
                    if stale:
                        ctx.count('stale_refused')
                    if not ctx.check(err is not None, f'{what}: succeeded'):
                        return
                elif err is None:
                    if rec:
                        contents[i][rk] = rec
                elif not stale:
                    raise err
                if err is not None:
                    if not ctx.check(w.storage.load_repo(d).head.cid == head_before, f'{what}: failed but the head moved'):
                        return
                    if not ctx.check(events(w) == before, f'{what}: failed but emitted an event'):
                        return
            else:
                want = {'deactivate': 'deactivated', 'activate': None, 'tombstone': 'tombstoned'}[op]
                if op == 'activate' and dead[i]:
                    want = status[i]
                    ctx.count('noop_activate')
                at_event = []
                cb.and_then = lambda **kw: at_event.append(w.storage.load_repo(d).status)
                getattr(w.storage, op + '_repo')(repo)
                new = events(w)[len(before):]
                changed = want != status[i]
                noop = op == 'activate' and dead[i]
                kind = ('tombstone', {}) if op == 'tombstone' else \
                    ('account', {'active': False, 'status': 'deactivated'} if op == 'deactivate' else {'active': True})
                if not ctx.check(events(w)[:len(before)] == before, f'{what}: changed earlier events'):
                    return
                if noop:
                    if not ctx.check(new == [], f'{what}: emitted {new}'):
                        return
                elif not ctx.check(len(new) <= 1 if not changed else len(new) == 1, f'{what}: emitted {new}, should be one event'):
                    return
                for e in new:
                    if not ctx.check((e[0], e[2], e[3]) == (kind[0], d, kind[1]), f'{what}: emitted {e}, should be {kind}'):
                        return
                    if not ctx.check(e[1] not in {x[1] for x in before}, f'{what}: event {e} reuses a sequence number'):
                        return
                    told = [plain_event(x)[1] for x in cb.data]
                    if not ctx.check(told == [e[1]], f'{what}: callback was told {told}, not [{e[1]}]'):
                        return
                if not ctx.check(at_event == [want] * len(new), f'{what}: announced while the stored status was {at_event}, not {want}'):
                    return
                ctx.count('in_force_when_announced', len(new))
                if not noop and not ctx.check(repo.status == want, f'{what}: object shows {repo.status}'):
                    return
                ctx.count('transitions', 1 if changed else 0)
                ctx.count('tombstones', 1 if op == 'tombstone' else 0)
                if changed and status[i] is None:
                    frozen[i] = snap
                dead[i] = dead[i] or op == 'tombstone'
                came_back = changed and want is None
                status[i] = want
                if came_back:
                    ctx.count('reactivated_same')
                    got = cario.Car(export(d))
                    ref = cario.Car(frozen[i])
                    if not ctx.check(got.roots == ref.roots and got.blocks == ref.blocks, f'{what}: the export differs from before deactivation'):
                        return
            ctx.sig(case['kind'], op, age, stale, str(status[i]))
        if not look(w, case, rng, ctx, what, status, contents, count):
            return
    young(w, case, rng, ctx)
    ctx.sample({'backend': case['kind'], 'final': {i: str(s) for i, s in status.items()}})


def young(w, case, rng, ctx):
    """The same for an account that has only its initial commit."""
    from arroba.util import InactiveRepo
    status, i = None, 2
    with w.ctx():
        repo = lib.create_repo(w, i)
        old = w.storage.load_repo(lib.did(i))
        ops = rng.choice((['tombstone', 'activate', 'commit'], ['deactivate', 'commit', 'activate', 'commit'], ['deactivate', 'tombstone', 'activate', 'commit']))
        for op in ops:
            what = f'{op} in {ops} of a repo without records ({status})'
            o = rng.choice((old, w.storage.load_repo(lib.did(i)))) if op != 'commit' or status else w.storage.load_repo(lib.did(i))
            before = events(w)
            if op == 'commit':
                try:
                    w.storage.commit(o, [])
                    ok = True
                except InactiveRepo:
                    ok = False
                if not ctx.check(ok == (not status), f'{what}: {"succeeded" if ok else "refused"}'):
                    return
                want = [('commit', {})] if ok else []
            else:
                getattr(w.storage, op + '_repo')(o)
                want = {'tombstone': [('tombstone', {})], 'deactivate': [('account', {'active': False, 'status': 'deactivated'})],
                        'activate': [] if status == 'tombstoned' else [('account', {'active': True})]}[op]
                status = {'tombstone': 'tombstoned', 'deactivate': 'deactivated', 'activate': status if status == 'tombstoned' else None}[op]
            new = [(e[0], e[3]) for e in events(w)[len(before):]]
            now = w.storage.load_repo(lib.did(i)).status
            if not ctx.check(new == want and now == status, f'{what}: emitted {new}, status {now}; should be {want}, {status}'):
                return
    ctx.count('young')


def look(w, case, rng, ctx, what, status, contents, count):
    """All endpoints, as requests of their own would see them."""
    with w.ctx():
        storages = [w.storage]
        if case['kind'] != 'memory':
            storages.append(w.new_storage())
            ctx.count('fresh_process')
        for st in storages:
            for i, s in status.items():
                repo = st.load_repo(lib.did(i))
                if not ctx.check(repo.status == s, f'{what}: stored status of repo {i} is {repo.status}, should be {s}'):
                    return False
            listed = {r.did: r.status for r in st.load_repos()}
            if not ctx.check(listed == {lib.did(i): s for i, s in status.items()}, f'{what}: load_repos says {listed}'):
                return False
        heads = {i: w.storage.load_repo(lib.did(i)).head for i in status}
        listing = web.get('com.atproto.sync.listRepos')
        by = {r['did']: r for r in listing.json['repos']}
        for i, s in status.items():
            ctx.count('status_reports')
            d = lib.did(i)
            if not ctx.check(d in by and by[d]['active'] is (s is None) and (s is None) == ('status' not in by[d])
                             and by[d].get('status') == ('deactivated' if s else None) and by[d]['head'] == heads[i].cid.encode('base32'),
                             f'{what}: listRepos shows repo {i} ({s}) as {by.get(d)}'):
                return False
            for name in (d, f'h{i}.example.com'):
                stat = web.get('com.atproto.sync.getRepoStatus', did=name) if name == d else None
                if stat is not None and not ctx.check(
                        stat.status == 200 and stat.json['active'] is (s is None) and stat.json['did'] == d
                        and stat.json.get('status') == ('deactivated' if s else None),
                        f'{what}: getRepoStatus of repo {i} ({s}) is {stat}'):
                    return False
                cid = heads[i].cid.encode('base32')
                for nsid, params in reads(name, 'com.example.a', 'base', cid):
                    if '.sync.' in nsid and name != d:
                        continue
                    resp = web.get(nsid, **params)
                    if s:
                        ctx.count('http_refused')
                        if not ctx.check(resp.status >= 400 and b'base' not in resp.data.replace(b'com.example', b''),
                                         f'{what}: {nsid} of {s} repo {i} by {name}: {resp}'):
                            return False
                    elif not ctx.check(resp.status == 200, f'{what}: {nsid} of active repo {i} by {name}: {resp}'):
                        return False
                if s:
                    ev = events(w)
                    rk = f'h{next(count)}'
                    rec = {'$type': 'com.example.a', 'n': rk}
                    for m, body in (('createRecord', dict(repo=name, collection='com.example.a', rkey=rk, record=rec)),
                                    ('putRecord', dict(repo=name, collection='com.example.a', rkey='base', record=rec)),
                                    ('deleteRecord', dict(repo=name, collection='com.example.a', rkey='base'))):
                        resp = web.post('com.atproto.repo.' + m, body, token=TOKEN)
                        if not ctx.check(resp.status >= 400, f'{what}: {m} to {s} repo {i}: {resp}'):
                            return False
                    after = w.storage.load_repo(d)
                    if not ctx.check(after.head.cid == heads[i].cid and events(w) == ev, f'{what}: refused writes to {s} repo {i} changed it'):
                        return False
            if case['kind'] != 'memory':
                resp = web.get('com.atproto.sync.listBlobs', did=d)
                if not ctx.check((resp.status >= 400) is bool(s), f'{what}: listBlobs of repo {i} ({s}): {resp}'):
                    return False
        for i, s in status.items():
            if not s:
                got = w.storage.load_repo(lib.did(i)).get_contents()
                if not ctx.check(dict(got['com.example.a']) == contents[i], f'{what}: repo {i} holds {dict(got)}'):
                    return False
    return True


def race(case, r, ctx):
    from arroba.repo import Write
    from arroba.storage import Action
    from arroba.util import InactiveRepo
    from google.cloud.ndb import _retry
    rng = lib.rng_of(case['seed'], r)
    w = lib.World('datastore')
    _retry._DEFAULT_INITIAL_DELAY = _retry._DEFAULT_MAXIMUM_DELAY = 0
    d = lib.did(0)
    with w.ctx():
        repo = lib.create_repo(w, 0)
        w.storage.commit(repo, [Write(Action.CREATE, 'com.example.a', 'base', {'$type': 'com.example.a'})])
        before = events(w)
    w.store.keep_history = True
    w.store.history.clear()
    names = ['c', 's']
    change = rng.choice(('deactivate', 'deactivate', 'tombstone', 'cycle'))
    if rng.random() < .5:
        a = rng.randrange(0, 22)
        first = rng.choice(names)

        def choose(ready, step):
            other = 's' if first == 'c' else 'c'
            want = first if step < a else other
            return want if want in ready else ready[0]
    else:
        choose = sched.pct(rng, names, 40, rng.choice((2, 3, 5)))
    stepper = sched.Stepper(choose)

    def hook(phase, rpc, req, info):
        if phase == 'before':
            stepper.hook(rpc)
    w.store.hook = hook
    out = {}

    def committer():
        st = w.new_storage()
        oks = []
        with w.client.context(cache_policy=lambda key: False):
            mine = st.load_repo(d)
            for k in range(2):
                try:
                    data = st.commit(mine, [Write(Action.CREATE, 'com.example.a', f'k{k}', {'$type': 'com.example.a', 'k': k})])
                    oks.append(data.commit.seq)
                except InactiveRepo:
                    out['refused'] = out.get('refused', 0) + 1
        out['oks'] = oks

    def changer():
        st = w.new_storage()
        with w.client.context(cache_policy=lambda key: False):
            mine = st.load_repo(d)
            if change == 'tombstone':
                st.tombstone_repo(mine)
            else:
                st.deactivate_repo(mine)
                if change == 'cycle':
                    st.activate_repo(mine)
                    st.deactivate_repo(mine)
    res = stepper.run({'c': committer, 's': changer})
    w.store.hook = None
    what = f'run {r} ({change} racing commits)'
    if not ctx.check(not stepper.deadlocked, f'{what}: blocked forever'):
        return
    for n, (kind, val) in res.items():
        if kind == 'exc':
            raise val
    ctx.count('race_commit_ok', len(out['oks']))
    ctx.count('race_commit_refused', out.get('refused', 0))
    # every stored version of the repo: no head change while inactive
    prev = None
    for version, applied in w.store.history:
        for key, pb in applied:
            if pb is None or 'AtpRepo' not in str(key):
                continue
            head = pb.properties['head'].string_value
            st = pb.properties['status'].string_value if 'status' in pb.properties else ''
            if prev and prev[1] and head != prev[0]:
                ctx.viol(f'{what}: head moved to {head} while the repo was {prev[1]}')
                return
            prev = (head, st)
    with w.ctx():
        now = w.storage.load_repo(d)
        want = {'tombstone': 'tombstoned'}.get(change, 'deactivated')
        if not ctx.check(now.status == want, f'{what}: ended up {now.status}'):
            return
        new = [e for e in events(w) if e not in before]
        acct = [(e[0], e[3].get('active')) for e in new if e[0] != 'commit']
        exp = {'tombstone': [('tombstone', None)], 'deactivate': [('account', False)],
               'cycle': [('account', False), ('account', True), ('account', False)]}[change]
        if not ctx.check(acct == exp, f'{what}: status events {acct}'):
            return
        # once the last inactive status is announced, nothing more is committed
        gone = max(e[1] for e in new if e[0] != 'commit')
        ctx.count('race_numbers_later', w.storage.sequences.last('com.atproto.sync.subscribeRepos') - gone)
        if not ctx.check(all(q < gone for q in out['oks']), f'{what}: commits {out["oks"]}, but {change} was announced as event {gone}'):
            return
        ctx.check([e[1] for e in new if e[0] == 'commit'] == sorted(out['oks']),
                  f'{what}: commit events {[e for e in new if e[0] == "commit"]}, acknowledged {out["oks"]}')
    ctx.sig('race', change, tuple(n for n, _ in stepper.trace))
