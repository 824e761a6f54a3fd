"""C21: sync read endpoints agree with the stored state and paginate completely."""
import hashlib

from vp import cario, lib, refmst, web

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: every sync read endpoint over HTTP compared with a model of each repo\'s head, rev and status after random histories; '
             'whole paginations of repos and blobs with every page size compared with the model, also while repos change between pages')
NOTE = ('Both backends (blobs: Datastore only), random sets of repos in every status, imported ones included, page sizes 1 to over the number of repos, '
        'made-up cursors. An inactive blob may be listed or not, and a CID that several URLs serve may be listed once for each.')
RULE = ('sets of repos x statuses x page sizes x cursors x changes between pages; getBlocks of present, foreign, absent, repeated and malformed CIDs. '
        'Distinct: (backend, endpoint, status), (backend, repos, page size bucket, changed), (getBlocks mix).')
REQUIRED = ('heads', 'statuses', 'missing_repos', 'repo_listings', 'pages', 'changed_between_pages', 'blob_listings', 'blob_pages', 'blocks_served',
            'blocks_refused', 'cursors', 'deactivated_listed', 'imported_listed', 'default_limit', 'deleted_listed')
ISOLATE = True
CASE_TIMEOUT = 240


def cases(tier, seed):
    n, b, k = (40, 24, 24) if tier == 'quick' else (900, 500, 500)
    return ([{'seed': f'{seed}.many{i}', 'mode': 'many', 'kind': ('datastore', 'memory')[i]} for i in range(2)]
            + [{'seed': f'{seed}.{i}', 'mode': 'repos', 'kind': ('datastore', 'memory')[i % 2]} for i in range(n)]
            + [{'seed': f'{seed}.b{i}', 'mode': 'blobs', 'kind': 'datastore'} for i in range(b)]
            + [{'seed': f'{seed}.k{i}', 'mode': 'blocks', 'kind': ('memory', 'datastore')[i % 2]} for i in range(k)])


def setup():
    lib.boot(PDS_HOST='pds.example.com', REPO_TOKEN='t')
    web.app()


def run_case(case, ctx):
    globals()[case['mode']](case, ctx)


SYNC = 'com.atproto.sync.'


class State:
    """The repos of a server, and what is known of each."""

    def __init__(self, w, rng):
        self.w, self.rng = w, rng
        self.repos, self.model, self.n, self.objs = {}, {}, 0, {}

    def did(self, i):
        h = hashlib.sha256(f'{i} {self.rng.random()}'.encode()).hexdigest()
        kind = self.rng.randrange(4)
        if kind == 0:
            return f'did:web:{h[:self.rng.choice((3, 8))]}.example.com'
        plc = ''.join('234567abcdefghijklmnopqrstuvwxyz'[int(h[k:k + 2], 16) % 32] for k in range(0, 48, 2))
        if kind == 1 and self.model:      # near another
            other = self.rng.choice(sorted(self.model))
            if other.startswith('did:plc:'):
                return other[:-2] + plc[:2]
        return f'did:plc:{plc}'

    def new(self, imported=False):
        from arroba.repo import Repo
        i, self.n = self.n, self.n + 1
        d = self.did(i)
        if d in self.model:
            return
        with self.w.ctx():
            if imported:
                from vp import sigs
                from arroba.storage import Block
                from arroba.mst import MST
                root, nodes = refmst.build({})
                commit = sigs.sign({'version': 3, 'did': d, 'rev': f'3kimport{i:05d}'.replace('0', 'a').replace('1', 'b').replace('8', 'c').replace('9', 'd'),
                                    'prev': None, 'data': cario.Link(root)}, lib.privkey(0))
                data = cario.encode(commit)
                head = Block(cid=lib.acid(cario.cid_of(data)), encoded=data, seq=0, repo=d)
                self.w.storage.write_blocks([head] + [Block(cid=lib.acid(c), encoded=b, seq=0, repo=d) for c, b in nodes.items()])
                repo = Repo(storage=self.w.storage, mst=MST.load(storage=self.w.storage, cid=lib.acid(root)), head=head, handle=f'i{i}.example.com',
                            status='deactivated', signing_key=lib.privkey(0), rotation_key=lib.privkey(500))
                self.w.storage.create_repo(repo)
                self.model[d] = (cario.cid_str(bytes(head.cid)), commit['rev'], 'deactivated')
            else:
                repo = Repo.create(self.w.storage, d, handle=f'r{i}.example.com', signing_key=lib.privkey(0), rotation_key=lib.privkey(500))
                self.note(repo, None)
        self.objs[d] = repo
        return d

    def note(self, repo, status):
        self.model[repo.did] = (cario.cid_str(bytes(repo.head.cid)), cario.decode(bytes(repo.head.encoded))['rev'], status)

    def change(self, d=None):
        """A commit or a status change of some repo."""
        from arroba.repo import Write
        from arroba.storage import Action
        rng = self.rng
        d = d or rng.choice(sorted(self.model))
        head, rev, status = self.model[d]
        with self.w.ctx():
            repo = self.objs[d] if self.w.kind == 'memory' else self.w.storage.load_repo(d)
            if status in ('tombstoned', 'deleted'):
                return
            if status == 'deactivated':
                if rng.random() < .7:
                    self.w.storage.activate_repo(repo)
                    self.note(repo, None)
                return
            op = rng.random()
            if op < .65:
                self.w.storage.commit(repo, [Write(Action.CREATE, 'com.example.a', f'k{rng.randrange(10**9)}', {'$type': 'com.example.a'})])
                self.note(repo, None)
            elif op < .82:
                self.w.storage.deactivate_repo(repo)
                self.note(repo, 'deactivated')
            elif op < .9:
                repo.status = 'deleted'
                self.w.storage.store_repo(repo)
                self.note(repo, 'deleted')
            else:
                self.w.storage.tombstone_repo(repo)
                self.note(repo, 'tombstoned')


def entry(d, m):
    head, rev, status = m
    return {'did': d, 'head': head, 'rev': rev, 'active': status is None, **({'status': 'deleted' if status == 'deleted' else 'deactivated'} if status else {})}


def endpoints(ctx, st, d, what):
    w = st.w
    m = st.model.get(d)
    gone = ctx.check
    for nsid, want in (('getHead', m and {'root': m[0]}), ('getLatestCommit', m and {'cid': m[0], 'rev': m[1]})):
        resp = web.get(SYNC + nsid, did=d)
        if m is None:
            ctx.count('missing_repos')
            ok = gone(resp.status == 400 and resp.error == 'RepoNotFound', f'{what}: {nsid} of a repo that does not exist: {resp}')
        elif m[2]:
            ok = gone(resp.status == 400 and resp.error == 'RepoDeactivated', f'{what}: {nsid} of a {m[2]} repo: {resp}')
        else:
            ctx.count('heads')
            ok = gone(resp.status == 200 and resp.json == want, f'{what}: {nsid} answers {resp}, stored {want}')
        if not ok:
            return False
    resp = web.get(SYNC + 'getRepoStatus', did=d)
    if m is None:
        return gone(resp.status == 400 and resp.error == 'RepoNotFound', f'{what}: status of a repo that does not exist: {resp}')
    ctx.count('statuses')
    want = {'did': d, 'active': m[2] is None, **({'status': 'deactivated'} if m[2] else {})}
    got = dict(resp.json or {})
    rev = got.pop('rev', None)
    return (gone(resp.status == 200 and got == want, f'{what}: getRepoStatus answers {resp}, is {m[2]}')
            and gone(rev in (None, m[1]), f'{what}: getRepoStatus rev {rev}, is {m[1]}'))


def listing(ctx, st, limit, what, between=None, start=None):
    """One whole pagination against the model."""
    cursor, got, first = start, [], set(st.model)
    for page in range(10**4):
        params = {} if limit is None else {'limit': limit}
        resp = web.get(SYNC + 'listRepos', cursor=cursor, **params)
        ctx.count('pages')
        if not ctx.check(resp.status == 200, f'{what}: page {page}: {resp}'):
            return False
        repos = resp.json['repos']
        if not ctx.check(len(repos) <= (limit or 500), f'{what}: page {page} has {len(repos)}'):
            return False
        for r in repos:
            want = st.model.get(r['did'])
            if not ctx.check(want is not None and r == entry(r['did'], want), f'{what}: listed {r}, stored {want}'):
                return False
            ctx.count('deactivated_listed', bool(want[2]))
            ctx.count('deleted_listed', want[2] == 'deleted')
            ctx.count('imported_listed', want[1].startswith('3kimport'))
        got += [r['did'] for r in repos]
        cursor = resp.json.get('cursor')
        if not cursor:
            break
        if not ctx.check(page < len(st.model) + 3, f'{what}: pagination does not end: {got[-5:]}'):
            return False
        if between:
            between()
    ctx.count('repo_listings')
    must = {d for d in first if start is None or d > start}
    return (ctx.check(got == sorted(got), f'{what}: not in order: {got}')
            and ctx.check(len(got) == len(set(got)), f'{what}: repeats {[d for d in got if got.count(d) > 1][:3]}')
            and ctx.check(must <= set(got), f'{what}: {len(must - set(got))} of {len(must)} repos never listed: {sorted(must - set(got))[:3]}')
            and ctx.check(all(start is None or d > start for d in got), f'{what}: lists repos up to the cursor'))


def repos(case, ctx):
    rng = lib.rng_of(case['seed'])
    w = lib.World(case['kind'])
    st = State(w, rng)
    for d in ['did:plc:' + '2' * 24]:
        if not endpoints(ctx, st, d, 'empty server'):
            return
    if not listing(ctx, st, rng.choice((1, 5, None)), 'empty server'):
        return
    for _ in range(rng.choice((1, 2, 5, 9))):
        st.new(imported=rng.random() < .25)
    for step in range(rng.choice((6, 12))):
        if rng.random() < .2:
            st.new(imported=rng.random() < .25)
        else:
            st.change()
        for d in rng.sample(sorted(st.model), min(2, len(st.model))) + [st.did(-1)]:
            m = st.model.get(d)
            ctx.sig(case['kind'], 'endpoints', m[2] if m else 'absent')
            if not endpoints(ctx, st, d, f'step {step}'):
                return
        n = len(st.model)
        if rng.random() < .5:
            limit = rng.choice((1, 2, 3, n - 1, n, n + 1, None)) or 1
            moving = rng.random() < .5

            def between():
                for _ in range(rng.choice((0, 1, 2))):
                    ctx.count('changed_between_pages')
                    st.new() if rng.random() < .3 else st.change()
            start = None
            if rng.random() < .3:
                d = rng.choice(sorted(st.model))
                start = rng.choice((d, d + '0', d[:-1], 'did:plc:', 'did:web:zzz', 'zzz', 'a', d[:-1] + 'zz'))
                ctx.count('cursors')
            ctx.sig(case['kind'], 'list', n, limit, moving, start is None)
            if not listing(ctx, st, limit, f'step {step}: {n} repos, limit {limit}, from {start}, {"changing" if moving else "still"}', between if moving else None, start):
                return
    for limit in range(1, len(st.model) + 2):
        if not listing(ctx, st, limit, f'at the end: {len(st.model)} repos, limit {limit}'):
            return
    for bad in (0, -1, 1001, 'x'):
        resp = web.get(SYNC + 'listRepos', limit=bad)
        if not ctx.check(resp.status == 400, f'limit {bad}: {resp}'):
            return
    ctx.sample({'backend': case['kind'], 'repos': [entry(d, m) for d, m in sorted(st.model.items())][:3]})


def many(case, ctx):
    """More repos than the default page."""
    rng = lib.rng_of(case['seed'])
    w = lib.World(case['kind'])
    st = State(w, rng)
    while len(st.model) < 503:
        st.new(imported=True)
    for limit in (None, 500, 503, 502, 101, 1000):
        ctx.count('default_limit', limit is None)
        if not listing(ctx, st, limit, f'503 repos, limit {limit}'):
            return
    ctx.sig(case['kind'], 'many')


def blobs(case, ctx):
    from arroba.datastore_storage import AtpRemoteBlob, AtpRepo
    rng = lib.rng_of(case['seed'])
    w = lib.World('datastore')
    with w.ctx():
        for i in (0, 1, 2):
            lib.create_repo(w, i)
        w.storage.deactivate_repo(w.storage.load_repo(lib.did(2)))
    must, may = {i: [] for i in (0, 1)}, {i: [] for i in (0, 1)}

    def add():
        url = f'http://{rng.choice("abz")}.example.com/{"x" * rng.choice((1, 30, 1400))}{rng.randrange(10**9)}' + rng.choice(('', '?é=1', '#f', '/'))
        cid = rng.choice((None, lib.val_cid(rng.randrange(10**6)), lib.val_cid(1)))
        cid = cid and cario.cid_str(bytes([1, 0x55]) + cid[2:])
        ids = rng.choice(([0], [0], [1], [0, 1], [], [2, 0]))
        status = rng.choice((None, None, None, 'inactive'))
        with w.ctx():
            AtpRemoteBlob(id=url, url=url, cid=cid, status=status, size=3, repos=[AtpRepo(id=lib.did(i)).key for i in ids]).put()
        for i in ids:
            if i != 2 and cid:
                (may if status else must)[i].append(cid)

    for _ in range(rng.choice((0, 1, 3, 8, 20))):
        add()
    for limit in [1, 2, 3, 7, 500, None, len(must[0]) or 1]:
        for i in (0, 1):
            cursor, got = None, []
            what = f'blobs of repo {i}, limit {limit}'
            for page in range(1000):
                with w.ctx():
                    resp = web.get(SYNC + 'listBlobs', did=lib.did(i), cursor=cursor, **({} if limit is None else {'limit': limit}))
                ctx.count('blob_pages')
                if not ctx.check(resp.status == 200 and len(resp.json['cids']) <= (limit or 500), f'{what}: {resp}'):
                    return
                got += resp.json['cids']
                cursor = resp.json.get('cursor')
                if not cursor:
                    break
                if not ctx.check(page < 60, f'{what}: pagination does not end'):
                    return
            want, ok = must[i], must[i] + may[i]
            ctx.count('blob_listings')
            if not ctx.check(set(want) <= set(got), f'{what}: {len(set(want) - set(got))} of {len(want)} blobs not listed'):
                return
            if not ctx.check(all(got.count(c) <= ok.count(c) for c in got), f'{what}: lists a blob too often, or one that is not the repo\'s'):
                return
            ctx.sig('blobs', min(len(want), 6), limit)
    for d, err in ((lib.did(2), 'RepoDeactivated'), ('did:plc:' + '3' * 24, 'RepoNotFound')):
        with w.ctx():
            resp = web.get(SYNC + 'listBlobs', did=d)
        if not ctx.check(resp.status == 400 and resp.error == err, f'blobs of {d}: {resp}'):
            return


def blocks(case, ctx):
    import base64
    rng = lib.rng_of(case['seed'])
    w = lib.World(case['kind'])
    mix = lib.Mix(rng, [0, 1], lib.key_universe(rng, 12), p_bad=0)
    with w.ctx():
        objs = {i: lib.create_repo(w, i) for i in (0, 1)}
        for _ in range(6):
            i = rng.choice((0, 1))
            ws, new, _ = mix.next(i)
            w.storage.commit(objs[i], ws)
            mix.done(i, new)
        heads = {i: bytes(w.storage.load_repo(lib.did(i)).head.cid) for i in (0, 1)}
    stored = {c: b for c, (b, s, _) in w.blocks().items()}
    mine = {}
    for i in (0, 1):
        root, nodes = lib.expected_tree(mix.contents[i])
        mine[i] = {heads[i]: stored[heads[i]], **nodes, **{lib.rec_cid(r): lib.enc(r) for r in mix.contents[i].values()}}
    for _ in range(40):
        i = rng.choice((0, 1))
        own = sorted(mine[i])
        ask = [cario.cid_str(rng.choice(own)) for _ in range(rng.choice((1, 1, 2, 5, 30)))]
        if rng.random() < .4:
            ask = [cario.cid_str(c) for c in rng.sample(own, min(len(own), rng.choice((1, 3, 40))))]
        good = list(ask)
        kind = rng.choice(('present', 'present', 'repeated', 'absent', 'malformed', 'foreign', 'other form'))
        at = rng.randrange(len(ask) + 1)
        if kind == 'repeated':
            ask += [rng.choice(ask)] * rng.choice((1, 3))
            rng.shuffle(ask)
        elif kind == 'absent':
            c = rng.choice((lib.val_cid(rng.randrange(99)), bytes([1, 0x55]) + rng.choice(own)[2:]))
            ask.insert(at, cario.cid_str(c))
        elif kind == 'malformed':
            c = rng.choice(ask)
            ask.insert(at, rng.choice(('', 'x', 'b', 'bafy', c[:-1], c[1:], c + 'a', c.replace('a', '1', 1), 'Qm' + 'a' * 44, '../' + c, c + ' ', 'é', 'z' * 50, 'b' * 300)))
        elif kind == 'foreign':
            others = sorted(set(stored) - set(mine[i]))
            if others:
                ask.insert(at, cario.cid_str(rng.choice(others)))
            else:
                kind = 'present'
        elif kind == 'other form':
            c = rng.choice(ask)
            ask.insert(at, rng.choice(('z' + lib.b58(cario.cid_bytes(c)), c.upper())))
            good.append(c)
        resp = web.get(SYNC + 'getBlocks', did=lib.did(i), cids=ask)
        what = f'getBlocks of {len(ask)} CIDs ({kind})'
        ctx.sig(case['kind'], kind, min(len(ask), 6))
        refused = resp.status >= 400
        if kind in ('absent', 'malformed') and not ctx.check(refused and resp.status < 500, f'{what} {ask[at][:80]!r}: {resp}'):
            return
        if kind == 'absent' and not ctx.check(resp.error == 'BlockNotFound', f'{what}: {resp}'):
            return
        if refused:
            ctx.count('blocks_refused')
            if not ctx.check(kind not in ('present', 'repeated'), f'{what}: refused though all are there: {resp}'):
                return
            continue
        ctx.count('blocks_served')
        try:
            car = cario.Car(resp.data)
        except (cario.Bad, ValueError, IndexError, KeyError) as e:
            ctx.check(False, f'{what}: not a valid archive: {e}')
            return
        want = {cario.cid_bytes(c) if c[0] == 'b' else None for c in ask} - {None} | {cario.cid_bytes(c) for c in good}
        if not (ctx.check(want - car.blocks.keys() <= set(), f'{what}: {len(want - car.blocks.keys())} asked for are not in the answer')
                and ctx.check(car.blocks.keys() <= want, f'{what}: the answer has blocks that were not asked for')
                and ctx.check(all(bytes(b) == stored[c] for c, b in car.blocks.items()), f'{what}: wrong bytes')):
            return
    for d, err in (('did:plc:' + '3' * 24, 'RepoNotFound'),):
        resp = web.get(SYNC + 'getBlocks', did=d, cids=[cario.cid_str(heads[0])])
        ctx.check(resp.status == 400 and resp.error == err, f'getBlocks of {d}: {resp}')
