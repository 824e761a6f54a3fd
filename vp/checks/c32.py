"""C32: a consumer of the stream ends up with exactly the server's repos."""
import itertools
import random
import sys
import threading
import time

from vp import cario, fh, lib, refmst, sigs, web
from vp.checks import c18, c19
from vp.evcheck import Consumer
from vp.sched import Inconclusive

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: independent mirrors of the whole server, fed only by events of real subscribers (and, when they join late, by repo exports over HTTP), '
             'are compared record by record with the server and with the model of what was written')
NOTE = ('Mirrors that follow from the start, relays that subscribe first and then page and export every repo while it changes, and consumers that drop off and '
        'resume from their last event, over random histories of several accounts (creation, commits through storage and HTTP, failures, status changes, identity '
        'events, tombstones, imports) with server restarts, and with committing threads on the fake Datastore. Concurrent writers of one repo are in C09.')
RULE = ('random operations of a growing set of accounts; one to three server lives with random retained windows; mirrors join at random points, some '
        'interleaving their export requests with further operations, and leave and resume. Distinct: (backend, mode, mirror kind, lives, windows, resumed, accounts).')
REQUIRED = ('mirrors_equal', 'from_start', 'relays', 'resumes', 'lives', 'outdated', 'imports', 'late_accounts', 'http_writes', 'commits_mirrored',
            'skipped_known', 'status_events', 'identity_events', 'sync_events', 'records_compared', 'storm_commits', 'exports_while_changing')
ISOLATE = True
CASE_TIMEOUT = 240
TOKEN = c19.TOKEN


def cases(tier, seed):
    n, m = (70, 16) if tier == 'quick' else (2500, 500)
    out = [{'mode': 'hist', 'seed': f'{seed}.{i}', 'kind': ('datastore', 'memory')[i % 2]} for i in range(n)]
    out += [{'mode': 'storm', 'seed': f'{seed}.s{i}', 'kind': 'datastore'} for i in range(m)]
    random.Random(seed).shuffle(out)
    return out


def setup():
    lib.boot(REPO_TOKEN=TOKEN, PDS_HOST='pds.example.com', PLC_HOST='plc.example.com')
    web.app()


def run_case(case, ctx):
    globals()[case['mode']](case, ctx)


def status_of(payload):
    return None if payload['active'] else payload['status']


class Mirror:
    """What one consumer knows. Never looks at the server except over HTTP."""

    def __init__(self, s, name, from_start):
        self.s, self.ctx, self.name, self.from_start = s, s.ctx, name, from_start
        self.last = None          # last seq processed
        self.sub, self.read = None, 0
        self.handles, self.status, self.records = {}, {}, {}
        self.rev = {}
        self.announced = {}       # did -> kinds of events seen, in order
        self.broken = False
        self.resumed = 0
        self.chain = Consumer(self.ok)

    def ok(self, cond, msg):
        if not cond:
            self.broken = True
        return self.ctx.check(cond, f'{self.name}: {msg}')

    # connection
    def connect(self, cursor):
        self.sub, self.read = self.s.stream.sub(cursor), 0

    def drop(self):
        self.pump()
        self.sub = None

    # a relay's backfill
    def backfill(self):
        """Pages through every repo and exports the active ones, as time goes on."""
        cursor, limit = None, self.s.rng.choice((1, 2, 500))
        for page in itertools.count():
            if not self.ok(page < 200, 'listRepos does not end'):
                return
            resp = web.get('com.atproto.sync.listRepos', limit=limit, **({'cursor': cursor} if cursor else {}))
            if not self.ok(resp.status == 200, f'listRepos: {resp}'):
                return
            self.s.meanwhile()
            for r in resp.json['repos']:
                self.status[r['did']] = None if r['active'] else r['status']
                if r['active']:
                    self.fetch(r['did'])
                    self.s.meanwhile()
            cursor = resp.json.get('cursor')
            if not cursor:
                return

    def fetch(self, did):
        resp = web.get('com.atproto.sync.getRepo', did=did)
        if resp.error == 'RepoDeactivated':   # since we heard that it was active
            return
        if not self.ok(resp.status == 200, f'getRepo {did}: {resp}'):
            return
        try:
            car = cario.Car(resp.data)
            head = car.roots[0]
            commit = cario.decode(car.blocks[head])
            contents, _ = refmst.read_tree(commit['data'].cid, car.blocks.get)
            recs = {c: bytes(car.blocks[c]) for c in contents.values()}
        except (cario.Bad, refmst.Invalid, ValueError, LookupError, TypeError, AttributeError) as e:
            self.ok(False, f'export of {did} is unusable: {e!r}')
            return
        desc = web.get('com.atproto.repo.describeRepo', repo=did)
        if desc.status == 200:
            self.handles[did] = desc.json['handle']
        if self.rev.get(did, '') > commit['rev']:
            self.ok(False, f'export of {did} is at {commit["rev"]}, the stream was at {self.rev[did]}')
            return
        self.rev[did] = commit['rev']
        self.chain.contents[did], self.chain.root[did] = contents, commit['data'].cid
        self.chain.commits[did] = [head]
        self.records.setdefault(did, {}).update(recs)

    # events
    def pump(self):
        if not self.sub:
            return
        if self.sub.error is not None or self.sub.ended:
            self.ok(False, f'subscription ended: {self.sub.error!r} {self.sub.tb[-600:]}')
            return
        events = self.sub.events[self.read:]
        self.read += len(events)
        for header, payload in events:
            if self.broken:
                return
            self.feed(*fh.plain((header, payload)))

    def feed(self, h, p):
        ctx, t = self.ctx, h.get('t')
        if t == '#info':
            self.ok(p.get('name') == 'OutdatedCursor' and not self.from_start, f'got {p}')
            return
        if not self.ok(h.get('op') == 1 and t in ('#commit', '#identity', '#account', '#sync', '#tombstone') and isinstance(p.get('seq'), int), f'got {h} {p}'):
            return
        if self.last is not None and p['seq'] <= self.last:
            self.ok(p['seq'] == self.last, f'got {p["seq"]} after {self.last}')
            return
        self.last = p['seq']
        did = p.get('repo') if t == '#commit' else p.get('did')
        what = f'event {p["seq"]} {t}'
        if not self.ok(did in self.s.known, f'{what} is for {did}, which is nobody\'s DID'):
            return
        if self.from_start and did not in self.s.imported:
            first = self.announced.setdefault(did, [])
            first.append(t)
        if t == '#commit':
            self.commit(h, p, did, what)
        elif t == '#identity':
            ctx.count('identity_events')
            if self.ok(isinstance(p.get('handle'), str), f'{what} has no handle: {p}'):
                self.handles[did] = p['handle']
        elif t == '#account':
            ctx.count('status_events')
            if self.ok(isinstance(p.get('active'), bool) and (p['active'] or p.get('status')), f'{what}: {p}'):
                self.status[did] = status_of(p)
                if p['active'] and did not in self.rev:
                    # first heard of now
                    if self.from_start and not self.ok(did in self.s.imported, f'{what}: no commit event yet'):
                        return
                    self.fetch(did)
        elif t == '#tombstone':
            self.status[did] = 'deactivated'     # which is how it is listed
        else:
            ctx.count('sync_events')
            try:
                car = cario.Car(p['blocks'])
                c = cario.decode(car.blocks[car.roots[0]])
            except (cario.Bad, ValueError, LookupError, TypeError) as e:
                self.ok(False, f'{what} is unusable: {e!r}')
                return
            if not self.ok(len(car.roots) == 1 and c.get('did') == did and c.get('rev') == p.get('rev'), f'{what}: rooted at {c}, rev {p.get("rev")}'):
                return
            if self.rev.get(did, '') <= p['rev']:
                self.ok(self.chain.commits.get(did, [None])[-1] == car.roots[0], f'{what}: the head is another commit than the last one on the stream')

    def commit(self, h, p, did, what):
        if did not in self.rev and p.get('prevData') and (not self.from_start or did in self.s.imported):
            # it was inactive whenever we asked
            self.fetch(did)
            if self.broken or did not in self.rev:
                return
        if p.get('rev', '') <= self.rev.get(did, ''):
            self.ctx.count('skipped_known')
            self.ok(not self.from_start or did in self.s.imported, f'{what}: rev {p.get("rev")} after {self.rev.get(did)}')
            return
        if self.from_start and not self.ok(not self.status.get(did), f'{what}: commit while {self.status.get(did)}'):
            return
        if not self.chain.feed(h, p):
            self.broken = True
            return
        car = cario.Car(p['blocks'])
        bad = sigs.verify(cario.decode(car.blocks[p['commit'].cid]), self.s.pubkey(did))
        if not self.ok(not bad, f'{what}: signature {bad}'):
            return
        recs = self.records.setdefault(did, {})
        for op in p['ops']:
            if op.get('cid'):
                recs[op['cid'].cid] = bytes(car.blocks[op['cid'].cid])
        self.rev[did] = p['rev']
        self.ctx.count('commits_mirrored')

    def compare(self):
        """With the server, now that nothing happens any more."""
        if self.broken:
            return False
        s, ok = self.s, self.ok
        listed = {}
        cursor = None
        for page in itertools.count():
            if not ok(page < 200, 'listRepos does not end'):
                return False
            resp = web.get('com.atproto.sync.listRepos', limit=3, **({'cursor': cursor} if cursor else {}))
            if not ok(resp.status == 200, f'listRepos: {resp}'):
                return False
            listed.update((r['did'], r) for r in resp.json['repos'])
            cursor = resp.json.get('cursor')
            if not cursor:
                break
        # imported and never activated: nothing has been said about it on the stream
        listed = {d: r for d, r in listed.items() if d not in s.imported or d in self.status or s.activated.get(d)}
        if not ok(set(listed) == set(self.status), f'knows {len(self.status)} accounts, the server lists {len(listed)}'):
            return False
        for did, r in listed.items():
            st = None if r['active'] else r['status']
            if not ok(self.status[did] == st, f'{did} is {st}, the mirror says {self.status[did]}'):
                return False
            if did not in self.rev:   # inactive whenever it could have been fetched
                if not ok(st and (not self.from_start or did in s.imported), f'{did} ({st}) was never seen'):
                    return False
                continue
            head, rev = self.chain.commits[did][-1], self.rev[did]
            if not ok(r['head'] == cario.cid_str(head) and r['rev'] == rev, f'{did}: the server is at {r["rev"]} {r["head"]}, the mirror at {rev} {cario.cid_str(head)}'):
                return False
            want = s.model(did)
            mine = self.chain.contents.get(did, {})
            if not ok(mine == {p: lib.rec_cid(x) for p, x in want.items()}, f'{did}: the mirror has {len(mine)} records, {len(want)} were written, or they differ'):
                return False
            for p, x in want.items():
                if not ok(self.records[did].get(mine[p]) == lib.enc(x), f'{did} {p}: wrong record'):
                    return False
            self.ctx.count('records_compared', len(want))
            if did not in self.handles and (not self.from_start or did in s.imported):
                continue    # could not be asked while it was active
            if not ok(self.handles.get(did) == s.handle[did], f'{did}: handle {self.handles.get(did)}, should be {s.handle[did]}'):
                return False
        if self.from_start:
            for did, kinds in self.announced.items():
                if not ok(kinds[:4] == ['#commit', '#identity', '#account', '#sync'] and kinds[4:].count('#sync') == 0
                          and kinds[4:].count('#identity') == s.identities.get(did, 0) and kinds.count('#commit') == s.commits[did] + 1,
                          f'{did} was announced by {kinds[:6]}, and had {kinds.count("#commit")} commits for {s.commits[did] + 1} made'):
                    return False
        self.ctx.count('mirrors_equal')
        return True


class Server:
    """The accounts of one server, what they did, and the consumers."""

    def __init__(self, case, ctx, rng):
        self.case, self.ctx, self.rng = case, ctx, rng
        self.w = lib.World(case['kind'], sequences='memcache' if case['mode'] == 'storm' and rng.random() < .6 else None)
        self.stream, self.mirrors = None, []
        self.known, self.imported, self.activated = set(), set(), {}
        self.handle, self.identities, self.commits = {}, {}, {}
        self.status, self.keys, self.n = {}, {}, {}
        self.lost = []
        self.tomb = set()
        self.universe = lib.key_universe(rng, rng.choice((3, 10, 40)))
        self.mix = lib.Mix(rng, [], self.universe, p_bad=.1)
        self.busy = None
        self.count = itertools.count()
        self.archives = []

    def callback(self, data=None, lost_seq=None):
        if lost_seq:
            self.lost.append(lost_seq)
        if self.stream:
            self.stream.callback(data=data, lost_seq=lost_seq)

    def model(self, did):
        return self.mix.contents[self.n[did]]

    def pubkey(self, did):
        return self.keys[did]

    def last(self):
        return self.w.storage.sequences.last('com.atproto.sync.subscribeRepos')

    def new(self):
        i = len(self.n)
        d = lib.did(i)
        self.known.add(d)
        self.n[d], self.handle[d], self.commits[d], self.status[d] = i, self.rng.choice((f'h{i}.example.com', f'user-{i}.exam-ple.org')), 0, None
        self.keys[d] = lib.privkey(i).public_key()
        self.mix.contents[i], self.mix.past[i] = {}, [{}]
        with self.w.ctx():
            lib.create_repo(self.w, i, handle=self.handle[d], callback=self.callback)
        return d

    def repo(self, d):
        by = self.rng.choice((d, d, self.handle[d]))
        repo = self.w.storage.load_repo(by)
        if repo is None:
            raise LookupError(f'the server no longer knows {by}')
        repo.callback = self.callback
        return repo

    def imp(self):
        """An account moves here."""
        if not self.archives:
            return
        a, i = self.archives.pop()
        d = a['did']
        if self.last() <= a['seq']:
            return
        c19.resolve_from({d: lib.did_doc(i, handle=a['handle'])})
        resp = web.post('com.atproto.repo.importRepo', data=a['car'], ctype=c19.CTYPE, token=TOKEN)
        if not self.ctx.check(resp.status == 200, f'import of {d}: {resp}'):
            return
        self.known.add(d)
        self.imported.add(d)
        self.n[d], self.handle[d], self.commits[d], self.status[d] = i, a['handle'], 0, 'deactivated'
        self.mix.contents[i], self.mix.past[i] = a['contents'], [{}, a['contents']]
        with self.w.ctx():
            self.keys[d] = self.w.storage.load_repo(d).signing_key.public_key()
        self.ctx.count('imports')

    def elsewhere(self, n):
        """Archives of accounts that may move here later."""
        for k in range(n):
            i, r = 40 + k, self.rng
            w = lib.World('memory')
            repo = lib.create_repo(w, i)
            mix = lib.Mix(r, [i], self.universe, p_bad=0)
            for _ in range(r.choice((1, 3))):
                ws, new, _ = mix.next(i)
                w.storage.commit(repo, ws)
                mix.done(i, new)
            self.archives.append((dict(did=lib.did(i), handle=repo.handle, contents=mix.contents[i], seq=repo.head.seq,
                                       car=web.get('com.atproto.sync.getRepo', did=lib.did(i)).data), i))

    def act(self):
        rng, r = self.rng, self.rng.random()
        if not self.n or (r < .06 and len(self.n) < 8):
            d = self.new()
            self.ctx.count('late_accounts', bool(self.mirrors))
            return
        if r < .12 and self.archives:
            return self.imp()
        d = rng.choice(sorted(self.n))
        with self.w.ctx():
            repo, i = self.repo(d), self.n[d]
            st = self.w.storage
            if self.status[d]:
                if d in self.tomb:
                    return self.fails(repo, [])
                if r < .3:
                    return self.fails(repo, [])
                st.activate_repo(repo)
                self.status[d] = None
                self.activated[d] = True
            elif r < .2:
                st.deactivate_repo(repo)
                self.status[d] = 'deactivated'
            elif r < .215:
                st.tombstone_repo(repo)
                self.status[d] = 'deactivated'
                self.tomb.add(d)
            elif r < .26:
                st.write_event(repo=repo, type='identity', **({'handle': repo.handle} if repo.handle else {}))
                self.identities[d] = self.identities.get(d, 0) + 1
            elif r < .4:
                self.over_http(d, i)
            else:
                ws, new, _ = self.mix.next(i)
                if new is None:
                    return self.fails(repo, ws)
                st.commit(repo, ws)
                self.done(d, i, new)

    def done(self, d, i, new):
        self.mix.done(i, new)
        self.commits[d] += 1

    def fails(self, repo, ws):
        try:
            self.w.storage.commit(repo, ws)
        except Exception:
            return
        self.ctx.check(False, f'a commit that must fail succeeded ({repo.status}, {len(ws)} writes)')

    def over_http(self, d, i):
        cur, rng = self.mix.contents[i], self.rng
        path = rng.choice(self.universe)
        coll, rk = path.split('/')
        rec = {'$type': 'com.example.rec', 'n': next(self.count), 'x': rng.choice(('é☃', 'b', [1, None, {'a': 'b'}]))}
        if path in cur and rng.random() < .5:
            resp = web.post('com.atproto.repo.deleteRecord', dict(repo=d, collection=coll, rkey=rk), token=TOKEN)
            new = {k: v for k, v in cur.items() if k != path}
        else:
            resp = web.post('com.atproto.repo.putRecord', dict(repo=d, collection=coll, rkey=rk, record=rec), token=TOKEN)
            new = {**cur, path: rec}
        if self.ctx.check(resp.status == 200, f'HTTP write of {path}: {resp}'):
            self.ctx.count('http_writes')
            self.done(d, i, new)

    def meanwhile(self):
        """Called between the requests of a relay's backfill."""
        if self.busy:
            self.busy()
        elif self.case['mode'] == 'hist' and self.rng.random() < .5:
            self.ctx.count('exports_while_changing')
            self.act()


def hist(case, ctx):
    rng = lib.rng_of(case['seed'])
    archives = []
    if rng.random() < .7:
        src = Server({**case, 'kind': 'memory'}, ctx, rng)
        src.elsewhere(rng.choice((1, 2)))
        archives = src.archives
    s = Server(case, ctx, rng)
    s.archives = archives
    for _ in range(rng.choice((0, 3, 10))):
        s.act()
    if not s.n:
        s.new()
    lives = rng.choice((1, 2, 2, 3))
    if case['kind'] == 'datastore' and rng.random() < .3:
        s.w.store.defer = c18.defer(rng, ctx)
    start_mirror = None
    tiny = rng.random() < .25
    for life in range(lives):
        ctx.count('lives')
        rollback = rng.choice((2, 5, 9)) if tiny and life else 50000
        preload = rng.choice((1, 4, 50000))
        last_life = life == lives - 1
        st = s.stream = fh.Stream(rollback=rollback, preload=preload)
        limit = None if last_life else rng.choice((1, 4, 12))
        for q in s.lost:
            st.callback(lost_seq=q)
        if not ctx.check(started(st, limit), 'firehose did not start'):
            return
        if start_mirror is None:
            start_mirror = Mirror(s, 'mirror from the start', True)
            s.mirrors.append(start_mirror)
            start_mirror.connect(rng.choice((0, 1)))
            ctx.count('from_start')
        for m in list(s.mirrors):
            if not m.sub and rng.random() < .7 and (m.last or m is start_mirror):
                resume(m, s, st, rollback)
        steps = rng.choice((10, 25))
        for step in range(400):
            if limit is None and step >= steps:
                break
            if limit is not None:
                st.settle()
                if not st.fh.collector.is_alive():
                    break
            s.act()
            r = rng.random()
            if r < .08 and len(s.mirrors) < 4:
                st.settle()
                if not st.fh.collector.is_alive():
                    break
                relay(s, st)
            elif r < .16 and s.mirrors:
                m = rng.choice(s.mirrors)
                if m.sub:
                    st.settle()
                    m.drop()
                elif m.last or m is start_mirror:
                    resume(m, s, st, rollback)
            elif r < .3:
                st.settle()
                for m in list(s.mirrors):
                    m.pump()
            if ctx.violations:
                return
        else:
            raise Inconclusive('a server life never ended')
        st.settle()
        for m in list(s.mirrors):
            m.pump()
            if not last_life:
                m.drop()
    if len(s.mirrors) < 3:
        relay(s, st)
        s.act()
    for m in list(s.mirrors):
        if not m.sub:
            resume(m, s, st, rollback)
    st.settle()
    for m in list(s.mirrors):
        m.pump()
    # whatever the last pump fetched is now: nothing has changed since
    for m in list(s.mirrors):
        if ctx.violations or not m.compare():
            return
        ctx.sig(case['kind'], 'hist', m.from_start, lives, rollback, preload, min(m.resumed, 2), len(s.n))
    ctx.sample({'backend': case['kind'], 'accounts': len(s.n), 'lives': lives, 'last_seq': s.last(), 'mirrors': [(m.name, m.chain.events) for m in s.mirrors]})


def started(st, limit):
    """As Stream.start, for a server that dies after this many events."""
    if limit is None:
        return st.start()
    start = st.fh.start
    st.fh.start = lambda: start(limit=limit)
    try:
        return st.start()
    finally:
        st.fh.start = start


def resume(m, s, st, rollback):
    """Connects again from the last event seen; if that is too long ago, starts over."""
    st.settle()
    if not st.fh.collector.is_alive():
        return
    cursor = m.last if m.last is not None else 0
    outdated = cursor < s.last() - rollback
    if outdated:
        s.mirrors.remove(m)
        s.ctx.count('outdated')
        m.connect(cursor)
        st.settle()
        head, info = m.sub.events[0] if m.sub.events else (None, None)
        if not m.ok(info and info.get('name') == 'OutdatedCursor', f'resumed from {cursor} with window {rollback} at {s.last()} and was not told that it is outdated: {info}'):
            return
        return relay(s, st)
    m.connect(cursor)
    m.resumed += 1
    s.ctx.count('resumes')


def relay(s, st):
    """Subscribes, then exports everything, then applies what came in meanwhile."""
    m = Mirror(s, f'relay {len(s.mirrors)} from {s.last()}', False)
    m.connect(None)
    st.settle()
    s.mirrors.append(m)
    s.ctx.count('relays')
    m.backfill()
    return m


def storm(case, ctx):
    """Threads change their own accounts while relays join."""
    rng = lib.rng_of(case['seed'])
    s = Server(case, ctx, rng)
    n = rng.choice((2, 3, 4))
    for _ in range(n):
        s.new()
    for _ in range(rng.choice((0, 6))):
        s.act()
    n = len(s.n)
    with s.w.ctx():
        for d in s.n:
            if s.status[d] and d not in s.tomb:
                s.w.storage.activate_repo(s.repo(d))
                s.status[d] = None
    st = s.stream = fh.Stream(preload=rng.choice((1, 50000)))
    for q in s.lost:
        st.callback(lost_seq=q)
    if not ctx.check(st.start(), 'firehose did not start'):
        return
    first = Mirror(s, 'mirror from the start', True)
    first.connect(0)
    s.mirrors.append(first)
    ctx.count('from_start')
    sys.setswitchinterval(rng.choice((1e-5, 1e-4, 5e-3)))
    slow, delays = rng.choice((0, .001, .003)), random.Random(case['seed'])

    def hook(phase, rpc, req, info):
        if slow and delays.random() < .3:
            time.sleep(delays.random() * slow)
    s.w.store.hook = hook
    errors, lock = [], threading.Lock()
    per = rng.choice((5, 12))

    def changer(d, i, r):
        mix = lib.Mix(r, [i], s.universe, sizes=(1, 2))
        mix.contents[i] = s.mix.contents[i]
        status = None
        with s.w.client.context(cache_policy=lambda key: False):
            for _ in range(per):
                try:
                    repo = s.w.storage.load_repo(d)
                    repo.callback = s.callback
                    x = r.random()
                    if status or x < .12:
                        (s.w.storage.activate_repo if status else s.w.storage.deactivate_repo)(repo)
                        status = None if status else 'deactivated'
                        continue
                    ws, new, _ = mix.next(i)
                    try:
                        s.w.storage.commit(repo, ws)
                    except Exception:
                        if new is not None:
                            raise
                    else:
                        if new is not None:
                            mix.done(i, new)
                            with lock:
                                s.commits[d] += 1
                                s.mix.contents[i] = new
                except BaseException as e:
                    errors.append(e)
                    return

    def newcomers(r):
        for _ in range(r.choice((0, 2))):
            time.sleep(r.random() * .02)
            with lock:
                s.new()

    live = [d for d in s.n if d not in s.tomb]
    ts = [threading.Thread(target=changer, args=(d, s.n[d], lib.rng_of(case['seed'], d)), daemon=True) for d in live]
    ts.append(threading.Thread(target=newcomers, args=(lib.rng_of(case['seed'], 'new'),), daemon=True))
    before = sum(s.commits.values())
    for t in ts:
        t.start()
    s.busy = lambda: time.sleep(rng.random() * .004)
    joined = 0
    while any(t.is_alive() for t in ts) and not ctx.violations:
        time.sleep(rng.random() * .01)
        if joined < 3:
            joined += 1
            m = Mirror(s, f'relay {joined}', False)
            m.connect(None)
            while m.sub.is_alive() and not fh.blocked([m.sub]):
                time.sleep(.0005)
            ctx.count('relays')
            with lock:
                pass
            m.backfill()
            s.mirrors.append(m)
    for t in ts:
        t.join()
    s.w.store.hook = None
    sys.setswitchinterval(5e-3)
    st.settle()
    if errors:
        e = errors[0]
        if type(e).__name__ not in ('Aborted', 'RetryError'):
            raise e
        ctx.count('contention')     # that outlasted the retries: no verdict
        return
    ctx.count('storm_commits', sum(s.commits.values()) - before)
    for m in list(s.mirrors):
        m.pump()
    for m in list(s.mirrors):
        if ctx.violations or not m.compare():
            return
        ctx.sig('storm', m.from_start, n, slow, len(s.n))
