"""C31: record content cannot forge, break or hide stream events."""
import copy
import sys

from vp import cario, fh, lib, refmst, web
from vp.checks import c11
from vp.evcheck import tid_of

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: hostile records are committed between ordinary commits and account events while subscribers listen; what they, late joiners and a restarted server receive is compared '
             'event by event with what was reported as done, each commit event is inverted, and every repo read is tried')
NOTE = ('Refusing a hostile record is fine, whatever the exception, if nothing changes. Records already in storage, eg imported ones, are not re-checked. Values that Python code could pass but no '
        'record can hold (cycles) are not exercised. Lexicons are the ones bundled with lexrpc.')
RULE = ('hostile records of every kind (event types, non-string types, commit and node look-alikes, copies of blocks past and future, extreme nesting, odd values) alone or inside batches; sizes and '
        'counts at the limits; records that violate their lexicon. Distinct: (kind, refused or not, backend, position in batch).')
REQUIRED = ('hostile', 'accepted', 'refused', 'events_received', 'consumed', 'restarts', 'reads', 'account_events', 'later_changed', 'size_limit', 'ops_limit', 'lexicon_bad', 'lexicon_good',
            'future_node', 'commit_copy', 'event_copy', 'repeated_paths')
ISOLATE = True
CASE_TIMEOUT = 240
SEQ = 'com.atproto.sync.subscribeRepos'
COLL = 'com.example.coll'


def cases(tier, seed):
    q = tier == 'quick'
    out = [{'seed': f'{seed}.h{i}', 'mode': 'hostile', 'kind': ('memory', 'datastore')[i % 2], 'steps': 14 if q else 30} for i in range(110 if q else 2500)]
    out += [{'seed': f'{seed}.l{i}', 'mode': 'limits', 'kind': ('memory', 'datastore')[i % 2]} for i in range(16 if q else 200)]
    return out


def setup():
    lib.boot()


def run_case(case, ctx):
    sys.setrecursionlimit(1000)      # as it is in production
    b = c11.Bench(case, ctx, lib.rng_of('c31', case['seed']))
    with b.w.ctx():
        b.create(2 if case['mode'] == 'limits' else 3)
        (limits if case['mode'] == 'limits' else hostile)(b, case, ctx)
    ctx.ran()


def nest(n, rng):
    v = rng.choice((1, [], {}, 'x'))
    for _ in range(n):
        v = [v] if rng.random() < .5 else {rng.choice(('a', '$type')): v}
    return v


def cid(x):
    from multiformats import CID
    return CID.decode(x)


def events_like(b, i, rng):
    """A record that looks like an event."""
    kind = rng.choice(('#identity', '#account', '#tombstone', '#commit', '#sync', '#info', '#handle', '#bogus', '#', ''))
    rec = {'$type': SEQ + kind, 'did': lib.did(rng.choice((0, 1, 99))), 'seq': max(b.seqs()) + rng.choice((-1, 0, 1, 2, 1000, -10**6)), 'time': '2026-01-01T00:00:00+00:00'}
    rec.update(rng.choice(({}, {'handle': 'evil.example'}, {'active': False, 'status': 'takendown'}, {'repo': lib.did(1), 'ops': [], 'blocks': b'', 'commit': cid(lib.val_cid(1))})))
    for k in rng.sample(sorted(rec)[1:], rng.choice((0, 0, 1, 2))):
        del rec[k]
    return 'event' + kind, rec


def commit_like(b, i, rng):
    from arroba import storage, util
    head = b.repos[i].head
    kind = rng.choice(('junk', 'typed', 'predicted', 'signed', 'copy own head', 'copy other head', 'copy genesis', 'extra field', 'less field', 'renamed', 'ops'))
    rec = {'version': 3, 'did': b.repos[i].did, 'rev': tid_of(max(b.seqs()) + 1), 'prev': head.cid, 'data': head.decoded['data'], 'sig': bytes(rng.randrange(256) for _ in range(64))}
    if kind == 'junk':
        rec = {k: rng.choice((1, None, 'x', [], {}, rng.random(), lib.did(9), cid(lib.val_cid(rng.randrange(99))))) for k in rec}
    elif kind == 'signed':
        rec = util.sign({k: v for k, v in rec.items() if k != 'sig'}, lib.privkey(rng.choice((1, 2, 3, i))))
    elif kind.startswith('copy'):
        b.ctx.count('commit_copy')
        j = rng.choice(list(b.repos))
        seqs = sorted(s for s, d in b.made.items() if d.commit.decoded['did'] == b.repos[i if 'own' in kind else j].did)
        rec = copy.deepcopy(b.made[seqs[0 if 'genesis' in kind else -1]].commit.decoded)
    elif kind == 'typed':
        rec['$type'] = rng.choice((SEQ + '#commit', COLL))
    elif kind == 'extra field':
        rec['x'] = 1
    elif kind == 'less field':
        del rec[rng.choice(sorted(rec))]
    elif kind == 'renamed':
        rec['Data'] = rec.pop('data')
    elif kind == 'ops':
        rec['ops'] = [{'action': 'delete', 'path': 'a/b'}]
    return 'commit ' + kind, rec


def node_like(b, i, rng):
    kind = rng.choice(('empty', 'junk', 'own root', 'other root', 'future root', 'future node', 'commit data'))
    if kind == 'empty':
        rec = {'e': [], 'l': None}
    elif kind == 'junk':
        rec = {'e': [{'k': b'a/b', 'p': rng.choice((0, 5, -1)), 't': None, 'v': cid(lib.val_cid(1))}], 'l': rng.choice((None, cid(lib.val_cid(2))))}
    elif kind in ('own root', 'other root', 'commit data'):
        j = i if kind == 'own root' else rng.choice(list(b.repos))
        rec = copy.deepcopy(b.w.new_storage().read(b.repos[j].head.decoded['data']).decoded if b.case['kind'] == 'datastore' else b.w.storage.read(b.repos[j].head.decoded['data']).decoded)
    else:
        # the nodes a repo is about to have: it commits next
        b.ctx.count('future_node')
        j = rng.choice(list(b.repos))
        want = {p: lib.rec_cid(r) for p, r in b.mix.contents[j].items()}
        b.next = (j, f'{COLL}/future', {'$type': COLL, 'n': len(b.seqs())})
        if b.next[1] in want:
            b.next = None
            return 'node empty', {'e': [], 'l': None}
        want[b.next[1]] = lib.rec_cid(b.next[2])
        root, nodes = refmst.build(want)
        raw = nodes[root if kind == 'future root' else rng.choice(sorted(nodes))]
        import dag_cbor
        rec = dag_cbor.decode(raw)
    return 'node ' + kind, rec


def odd(b, i, rng):
    kind, v = rng.choice((
        ('type int', {'$type': rng.choice((0, 5, -1))}), ('type none', {'$type': None}), ('type list', {'$type': [SEQ + '#identity']}), ('type map', {'$type': {'a': 1}}), ('type bytes', {'$type': b'x'}),
        ('type bool', {'$type': rng.random() < .5}), ('type float', {'$type': 1.5}), ('type empty', {'$type': ''}), ('type junk', {'$type': 'not a type', 'x': 1}), ('type cid', {'$type': cid(lib.val_cid(4))}),
        ('type long', {'$type': 'x' * 5000}), ('type inner', {'x': {'$type': rng.choice((5, None, b'x', [], SEQ + '#identity'))}}),
        ('slash', {'/': 'x'}), ('slash inner', {'x': {'/': rng.choice(('x', {'bytes': 'x'}, lib.val_cid(1), 5))}}), ('link', {'$link': rng.choice(('x', 5, lib.val_cid(1)))}),
        ('link inner', {'x': {'$link': rng.choice(('x', 5, None, lib.val_cid(1)))}}), ('bytes inner', {'x': {'$bytes': rng.choice(('!!', 5, 'YQ'))}}), ('blob', {'x': {'$type': 'blob', 'ref': 5}}),
        ('empty', {}), ('empty key', {'': 1}), ('nul key', {'\0': '\0'}), ('many keys', {f'k{j}': j for j in range(3000)}), ('wide', {'x': [[]] * 20000}),
        ('float', {'x': 1.5}), ('inf', {'x': float('inf')}), ('nan', {'x': float('nan')}), ('big int', {'x': 2**64}), ('max int', {'x': 2**64 - 1}), ('min int', {'x': -2**64}), ('less int', {'x': -2**64 - 1}),
        ('surrogate', {'x': '\ud800'}), ('surrogate key', {'\ud800': 1}), ('int key', {1: 2}), ('none key', {None: 2}), ('bytes key', {b'x': 2}), ('set', {'x': {1}}), ('tuple', {'x': (1, 2)}), ('object', {'x': object()}),
        ('str', 'abc'), ('list', [1]), ('bytes', b'x'), ('int', 5), ('cid', cid(lib.val_cid(3))), ('true', True),
        ('fields', {'seq': 1, 'ops': [], 'commit': None, 'blocks': {}, 'repo': lib.did(1), 'rev': tid_of(1), 'time': 'never'}), ('op', {'op': -1, 't': '#commit', 'error': 'x', 'message': 'y'})))
    return 'odd ' + kind, v


def deep(b, i, rng):
    n = rng.choice((20, 100, 126, 127, 128, 129, 130, 200, 240, 325, 480, 484, 488, 490, 492, 494, 496, 500, 900, 990, 1100, 3000, 20000, rng.randrange(60, 1000), rng.randrange(470, 500)))
    return f'deep {n // 100}', {'a': nest(n, rng)}


def event_copy(b, i, rng):
    b.ctx.count('event_copy')
    if not b.events:
        return events_like(b, i, rng)
    return 'event copy', copy.deepcopy(b.events[rng.choice(sorted(b.events))])


def make(b, i, rng):
    return rng.choice((events_like, events_like, commit_like, commit_like, commit_like, node_like, node_like, odd, odd, deep, event_copy))(b, i, rng)


def attempt(b, i, ws, new, what):
    """Commits; True if accepted. Checks that a refusal changes nothing."""
    ctx, repo = b.ctx, b.repos[i]
    before = (repo.head.cid, set(b.made), set(b.events))
    try:
        b.w.storage.commit(repo, ws)
    except Exception as e:
        now = b.w.storage.load_repo(repo.did)
        ctx.check(now.head.cid == before[0] and set(b.made) == before[1] and set(b.events) == before[2], f'{what} was refused ({e!r:.200}), but left a commit or event behind', 'refused-changed')
        ctx.count('refused')
        b.repos[i] = now
        now.callback = b.callback
        return False
    ctx.count('accepted')
    b.mix.done(i, new)
    return True


def hostile(b, case, ctx):
    from arroba.repo import Write
    from arroba.storage import Action
    rng = b.rng
    b.make(3)
    b.stream = fh.Stream(preload=rng.choice((1, 3, 4000)))
    for q in b.lost:
        b.stream.callback(lost_seq=q)
    if not ctx.check(b.stream.start() is True, 'firehose did not start', 'start'):
        return
    first = b.stream.sub(0)
    b.stream.settle()
    live = b.stream.sub()
    b.stream.settle()
    n_before = len(b.seqs())
    spots = {}
    for step in range(case['steps']):
        for i, repo in b.repos.items():
            if repo.status:
                b.w.storage.activate_repo(repo)
        i = rng.choice(list(b.repos))
        repo, cur = b.repos[i], b.mix.contents[i]
        b.next = None
        if rng.random() < .3 and any(cur.get(p) is not None for p in spots.get(i, ())):
            # later, change what got in
            path = rng.choice([p for p in spots[i] if p in cur])
            new = dict(cur)
            if rng.random() < .5:
                del new[path]
                ws = [Write(Action.DELETE, *path.split('/'))]
            else:
                new[path] = {'$type': COLL, 'step': step}
                ws = [Write(Action.UPDATE, *path.split('/'), new[path])]
            b.w.storage.commit(repo, ws)
            b.mix.done(i, new)
            ctx.count('later_changed')
            continue
        name, rec = make(b, i, rng)
        path = f'{COLL}/{rng.choice(("k1", "k2", "k3", "self"))}'
        new = {**cur, path: copy.deepcopy(rec) if not name.startswith('deep') and name != 'odd object' else rec}
        ws = [Write(Action.UPDATE if path in cur else Action.CREATE, *path.split('/'), rec)]
        batch = rng.random() < .4
        if batch:
            more, after = lib.writes_for(rng, cur, rng.choice((1, 3)), lib.key_universe(rng, 8), b.mix.rec_i)
            at = rng.randrange(len(more) + 1)
            ws = more[:at] + ws + more[at:]
            new = {**after, path: new[path]}
        nexts = b.next
        ok = attempt(b, i, ws, new, f'{name} record')
        ctx.count('hostile')
        ctx.sig((name, ok, case['kind'], batch))
        if ok:
            spots.setdefault(i, set()).add(path)
        if nexts:
            j, path, rec = nexts
            if path not in b.mix.contents[j]:
                b.w.storage.commit(b.repos[j], [Write(Action.CREATE, *path.split('/'), rec)])
                b.mix.done(j, {**b.mix.contents[j], path: rec})
        for _ in range(rng.choice((0, 1, 2))):
            b.act()
        if rng.random() < .3:
            b.stream.settle()
    for i, repo in b.repos.items():
        if repo.status:
            b.w.storage.activate_repo(repo)
    b.stream.settle()
    late = b.stream.sub(0)
    mid = rng.choice(b.seqs())
    later = b.stream.sub(mid)
    b.stream.settle()
    ref = {}
    good = c11.judge(b, first, b.seqs(), ref, 'first subscriber')
    good &= c11.judge(b, live, b.seqs()[n_before:], ref, 'live subscriber')
    good &= c11.judge(b, late, b.seqs(), ref, 'late subscriber')
    good &= c11.judge(b, later, [s for s in b.seqs() if s >= mid], ref, f'subscriber from {mid}')
    if good:
        c11.content(b, ref)
        c11.restart(b, ref, rng)
    raw(b)
    reads(b)


def raw(b):
    """Storage's own event reader."""
    got = []
    for e in b.w.new_storage().read_events_by_seq(0) if b.case['kind'] == 'datastore' else b.w.storage.read_events_by_seq(0):
        if isinstance(e, dict):
            got.append(e['seq'])
            b.ctx.check(e == b.events.get(e['seq']), f'read event {e}, should be {b.events.get(e["seq"])}', 'raw-event')
        else:
            got.append(e.commit.seq)
            want = b.made.get(e.commit.seq)
            b.ctx.check(want is not None and e.commit.cid == want.commit.cid and e.prev == want.prev, f'read commit {e.commit.cid} with seq {e.commit.seq} is not the one made', 'raw-commit')
    b.ctx.check(got == b.seqs(), f'storage has events {got}, should be {b.seqs()}', 'raw-order')


def reads(b):
    """Every way of reading each repo works and has the records."""
    ctx = b.ctx
    st = b.w.new_storage() if b.case['kind'] == 'datastore' else b.w.storage
    for i in b.repos:
        who, want = lib.did(i), b.mix.contents[i]
        repo = st.load_repo(who)
        cids = {p: lib.rec_cid(r) for p, r in want.items()}
        got = {f'{c}/{k}': cario.cid_of(lib.enc(r)) for c, rs in repo.get_contents().items() for k, r in rs.items()}
        ctx.check(got == {p: bytes(c) for p, c in cids.items()}, f'contents of {who} differ', 'contents')
        colls = sorted({p.split('/')[0] for p in want})
        for c in colls:
            res = web.get('com.atproto.repo.listRecords', repo=who, collection=c, limit=100)
            if ctx.check(res.status == 200, f'listRecords of {c} returned {res.status} {res.data[:100]} {res.tb[-300:]}', 'list'):
                have = {r['uri'].split('/')[-1]: r['cid'] for r in res.json['records']}
                all_ = {p.split('/')[1]: cario.cid_str(bytes(x)) for p, x in cids.items() if p.split('/')[0] == c}
                ctx.check(have.items() <= all_.items() and (len(all_) > 100 or have == all_), f'listRecords of {c} returned {sorted(have)}, should be {sorted(all_)}', 'list')
            ctx.count('reads')
        mine = [p for p in want if p.startswith(COLL)]
        for p in mine:
            c, k = p.split('/')
            res = web.get('com.atproto.repo.getRecord', repo=who, collection=c, rkey=k)
            ctx.check(res.status == 200 and res.json['cid'] == cario.cid_str(bytes(cids[p])), f'getRecord of {want[p]!r:.100} returned {res.status} {res.data[:100]} {res.tb[-300:]}', 'get')
            res = web.get('com.atproto.sync.getRecord', did=who, collection=c, rkey=k)
            ctx.check(res.status == 200 and bytes(cids[p]) in cario.Car(res.data).blocks, f'sync.getRecord of {want[p]!r:.100} returned {res.status} {res.tb[-300:]}', 'sync-get')
            ctx.count('reads', 2)
        res = web.get('com.atproto.sync.getRepo', did=who)
        if ctx.check(res.status == 200, f'getRepo returned {res.status} {res.tb[-300:]}', 'get-repo'):
            car = cario.Car(res.data)
            ctx.check(car.roots == [bytes(repo.head.cid)] and {bytes(x) for x in cids.values()} <= set(car.blocks), f'getRepo of {who} lacks records', 'get-repo')
        ctx.count('reads')


# limits
def sized(n, rng):
    """A record of exactly n encoded bytes."""
    kind = rng.choice(('text', 'bytes', 'list', 'unicode'))
    rec = {'$type': COLL, 'x': {'text': '', 'bytes': b'', 'unicode': '', 'list': []}[kind], 'pad': ''}
    size = lambda: len(cario.encode(plain(rec)))  # noqa
    if kind == 'list':
        rec['x'] = list(range(rng.randrange(1000, 40000)))
    elif kind == 'unicode':
        rec['x'] = '字' * rng.randrange(300000)
    elif kind == 'bytes':
        rec['x'] = b'\xff' * rng.randrange(900000)
    while (d := n - size()) != 0:
        rec['pad'] += 'x' * d if d > 0 else ''
        if d < 0:
            rec['pad'] = rec['pad'][:d]
    return rec


def plain(v):
    return v


LEX = {
    'app.bsky.feed.post': ({'text': 'hi', 'createdAt': '2026-01-01T00:00:00.000Z'}, [
        ('text', None), ('text', 5), ('text', 'x' * 3001), ('text', 'x' * 301), ('createdAt', None), ('createdAt', 5), ('createdAt', 'yesterday'), ('langs', 'en'), ('langs', ['en'] * 4), ('langs', [5]),
        ('tags', ['x'] * 9), ('tags', ['x' * 641]), ('facets', {}), ('facets', [{'index': {}, 'features': []}]), ('reply', {'root': {}}), ('reply', 'x'), ('embed', {'$type': 'app.bsky.embed.external'})]),
    'app.bsky.feed.like': ({'subject': {'uri': 'at://did:plc:abc/app.bsky.feed.post/x', 'cid': cario.cid_str(bytes(lib.val_cid(1)))}, 'createdAt': '2026-01-01T00:00:00.000Z'}, [
        ('subject', None), ('subject', 'x'), ('subject', {}), ('subject', {'uri': 'at://did:plc:abc/app.bsky.feed.post/x'}), ('subject', {'uri': 'x', 'cid': cario.cid_str(bytes(lib.val_cid(1)))}), ('createdAt', None),
        ('subject', {'uri': 'at://did:plc:abc/app.bsky.feed.post/x', 'cid': 5})]),
    'app.bsky.graph.follow': ({'subject': 'did:plc:abc', 'createdAt': '2026-01-01T00:00:00.000Z'}, [('subject', None), ('subject', 5), ('subject', 'alice'), ('createdAt', None)]),
    'app.bsky.actor.profile': ({'displayName': 'A', 'description': 'B'}, [('displayName', 5), ('displayName', 'x' * 641), ('description', 'x' * 2561), ('description', [])]),
    'app.bsky.graph.list': ({'name': 'l', 'purpose': 'app.bsky.graph.defs#modlist', 'createdAt': '2026-01-01T00:00:00.000Z'}, [('name', None), ('name', ''), ('name', 'x' * 65), ('purpose', None), ('purpose', 5)]),
}


def limits(b, case, ctx):
    from arroba.repo import Write
    from arroba.storage import Action
    rng = b.rng
    for _ in range(7):
        i = rng.choice(list(b.repos))
        cur = b.mix.contents[i]
        path = f'{COLL}/{rng.choice(("k1", "k2", "k3"))}'
        kind = rng.choice(('size', 'ops', 'lexicon', 'lexicon', 'lexicon'))
        ws, ok, new = [], True, dict(cur)

        def put(path, rec):
            ws.append(Write(Action.UPDATE if path in new else Action.CREATE, *path.split('/'), rec))
            new[path] = rec

        if kind == 'size':
            n = rng.choice((1_000_000, 1_000_001, 1_000_000, 999_999, 1_000_002, 1_100_000, 999_000))
            rec = sized(n, rng)
            assert len(lib.enc(rec)) == n
            put(path, rec)
            ok = n <= 1_000_000
            what = f'record of {n} bytes'
            ctx.count('size_limit')
        elif kind == 'ops':
            n = rng.choice((200, 200, 201, 201, 202, 300, 199))
            mode = rng.choice(('create', 'update', 'mixed'))
            distinct = rng.choice((n, n, 1, 40, 199))     # operations count, not paths
            paths = [f'com.example.many/n{j % distinct}' for j in range(n)]
            ctx.count('repeated_paths', distinct < n)
            for p in paths:
                if p not in new or mode != 'mixed' or rng.random() < .5:
                    put(p, {'$type': 'com.example.many', 'r': rng.random()})
                else:
                    ws.append(Write(Action.DELETE, *p.split('/')))
                    del new[p]
            ok = n <= 200
            what = f'batch of {n} operations'
            ctx.count('ops_limit')
        else:
            typ = rng.choice(sorted(LEX))
            good, bads = LEX[typ]
            rec = {'$type': typ, **copy.deepcopy(good)}
            path = f'{typ}/self' if typ.endswith('profile') else f'{typ}/3k{rng.choice("abc")}'
            ok = rng.random() < .4
            what = f'{typ}'
            if not ok:
                field, val = rng.choice(bads)
                what += f' with {field} {val!r:.60}'
                rec[field] = val
                if val is None:
                    del rec[field]
                ctx.sig(('lexicon', what))
            put(path, rec)
            ctx.count('lexicon_good' if ok else 'lexicon_bad')
        if kind != 'ops' and rng.random() < .4:
            more, after = lib.writes_for(rng, {p: r for p, r in cur.items() if p != path}, 2, [f'com.example.other/{x}' for x in 'abcd'], b.mix.rec_i)
            at = rng.choice((0, len(more)))
            ws = more[:at] + ws + more[at:]
            new = {**after, path: new[path]}
        got = attempt(b, i, ws, new, what)
        ctx.check(got == ok, f'{what} was {"accepted" if got else "refused"}', f'limit-{kind}')
        ctx.sig((kind, what if kind != 'lexicon' else ok, got, case['kind']))
    reads(b)
    raw(b)
