"""C22: the Datastore and in-memory backends are observably equivalent."""
import contextlib
import datetime
import itertools

from vp import cario, lib

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: the same random calls on both backends in lockstep, every result and error compared after relabelling commits (signatures are '
             'random); what was written is also compared with what is read back by a model that keeps the first writer of each block')
NOTE = ('Random call sequences over the whole Storage and Repo API, each Datastore call with or without a surrounding context, through the same or a '
        'fresh storage object; fake Datastore. Blocks of one sequence number may come in any order. Objects loaded from memory are shared, so scripts '
        'do not rely on stale copies; creation times exist on the Datastore only.')
RULE = ('random scripts of repo creation, commits good and bad, status and handle changes, raw writes and imports, sequence numbers and all reads. '
        'Distinct: (call, outcome class, context or not) and scripts by their sequence of calls.')
REQUIRED = ('calls', 'commits', 'failed_commits', 'errors', 'with_context', 'without_context', 'restarts', 'reread', 'first_writer', 'events', 'imports',
            'handle_changes', 'status_changes', 'mutated')
ISOLATE = True
CASE_TIMEOUT = 240
SEQ = 'com.atproto.sync.subscribeRepos'


def cases(tier, seed):
    n = 96 if tier == 'quick' else 3000
    return [{'seed': f'{seed}.{i}', 'steps': (25, 60)[i % 2]} for i in range(n)]


def setup():
    lib.boot(PDS_HOST='pds.example.com')


class Side:
    """One backend, and how to show its values."""

    def __init__(self, kind):
        self.kind = kind
        self.w = lib.World(kind)
        self.labels = {}        # commit CID -> what it is called on both sides
        self.repos = {}
        self.pick = None

    @property
    def storage(self):
        return self.w.storage

    def learn(self, block, did):
        self.labels[bytes(block.cid)] = f'commit {did} {block.seq}'

    def show(self, v):
        """A comparable form of anything the API returns."""
        from arroba.repo import Repo
        from arroba.storage import Block, CommitData, CommitOp
        if isinstance(v, Repo):
            return {'did': v.did, 'head': self.show(v.head), 'status': v.status, 'handle': v.handle, 'version': v.version,
                    'keys': [k and k.private_numbers().private_value for k in (v.signing_key, v.rotation_key)],
                    'tree': None if v.mst is None else self.show(v.mst.get_pointer())}
        if isinstance(v, CommitData):
            return {'commit': self.show(v.commit), 'blocks': self.blocks(v.blocks.values()), 'keys': sorted(map(str, map(self.show, v.blocks))), 'prev': self.show(v.prev)}
        if isinstance(v, Block):
            return {'cid': self.show(v.cid), 'bytes': self.bytes(v), 'seq': v.seq, 'ops': [self.show(o) for o in v.ops or []],
                    'repo': v.repo, 'time': self.time(v), 'decoded': self.show(v.decoded)}
        if isinstance(v, CommitOp):
            return (v.action.name, v.path, self.show(v.cid), self.show(v.prev_cid))
        if isinstance(v, dict):
            if 'sig' in v and 'rev' in v:
                v = {**v, 'sig': len(v['sig'])}
            if v.get('$type', '') == SEQ + '#sync':
                car = cario.Car(v['blocks'])
                v = {**v, 'blocks': [[self.show(c) for c in car.roots], sorted(str(self.show(c)) for c in car.blocks)]}
            return {str(self.show(k)): self.show(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [self.show(x) for x in v]
        if v is None or isinstance(v, (str, int, float, bool)):
            return v
        if isinstance(v, bytes) and v not in self.labels:
            return v.hex()
        return self.labels.get(bytes(v)) or cario.cid_str(bytes(v))

    def bytes(self, block):
        """Exact bytes, except for commits, whose signatures differ."""
        b = bytes(block.encoded)
        assert cario.cid_of(b)[4:] == bytes(block.cid)[4:], f'{block.cid} does not match its bytes'
        label = self.labels.get(bytes(block.cid))
        return label or ('sync' if SEQ.encode() + b'#sync' in b else b.hex())

    def time(self, block):
        t = block.time
        if block.decoded.get('$type', '').startswith(SEQ):
            return None      # when the database stored it
        return (t if t.tzinfo else t.replace(tzinfo=datetime.timezone.utc)).astimezone(datetime.timezone.utc).isoformat()

    def blocks(self, blocks):
        return sorted((self.show(b) for b in blocks), key=lambda b: (b['seq'], str(b['cid'])))

    def run(self, fn):
        """(outcome, value)"""
        try:
            return 'ok', fn(self)
        except Exception as e:
            return type(e).__name__, None


class Clock:
    def __init__(self):
        self.t = datetime.datetime(2025, 3, 1, 12, tzinfo=datetime.timezone.utc)

    def __call__(self, tz=None, **kw):
        return self.t


def run_case(case, ctx):
    import webutil.util
    clock, real = Clock(), webutil.util.now
    webutil.util.now = clock
    try:
        script(case, ctx, clock)
    finally:
        webutil.util.now = real


def script(case, ctx, clock):
    from arroba.repo import Repo, Write
    from arroba.storage import Action, Block, CommitOp
    import copy
    rng = lib.rng_of(case['seed'])
    mem, ds = Side('memory'), Side('datastore')
    mix = lib.Mix(rng, [0, 1, 2], lib.key_universe(rng, rng.choice((4, 12, 40))), p_bad=0.15)
    status, handles, order = {}, {}, []
    written = {}                # cid -> (bytes, seq, ops, time, did): the first writer
    top = itertools.count(1)
    names = []

    def both(name, fn, form=None, quiet=False):
        """Runs on both sides; compares; returns the outcome and the two values."""
        inside = rng.random() < .5
        ctx.count('with_context' if inside else 'without_context')
        if rng.random() < .08 and ds.repos:
            ds.w.storage = ds.w.new_storage()
            ds.repos = {i: None for i in ds.repos}
            ctx.count('restarts')
        out = []
        for side in (mem, ds):
            with side.w.ctx() if inside else contextlib.nullcontext():
                kind, val = side.run(fn)
                shown = (form or (lambda s, v: s.show(v)))(side, val) if kind == 'ok' else None
            out.append((kind, shown, val))
        (k1, s1, v1), (k2, s2, v2) = out
        ctx.count('calls')
        names.append(name.split(' ')[0])
        ctx.sig(name.split(' ')[0], k1, inside)
        ctx.count('errors', k1 != 'ok')
        where = 'inside a context' if inside else 'without a context'
        if not ctx.check(k1 == k2, f'{name} ({where}): memory {k1}, datastore {k2}'):
            raise Stop
        if not ctx.check(s1 == s2, f'{name} ({where}): {diff(s1, s2)}'):
            raise Stop
        return k1, v1, v2

    def repo_of(side, i):
        if side.kind == 'memory':
            return side.repos[i]
        if side.repos.get(i) is None or rng2.random() < .5:
            side.repos[i] = side.storage.load_repo(lib.did(i))
        return side.repos[i]

    def stored_blocks(side):
        return {side.labels.get(c, c): (s, d) for c, (b, s, d) in side.w.blocks().items()}

    rng2 = lib.rng_of(case['seed'], 2)

    def create():
        i = len(order)
        handle = rng.choice((f'h{i}.example.com', f'h{i}.example.com', None))
        rot = lib.privkey(i + 500) if rng.random() < .7 else None

        def fn(side):
            repo = Repo.create(side.storage, lib.did(i), handle=handle, signing_key=lib.privkey(i), rotation_key=rot)
            side.learn(repo.head, lib.did(i))
            side.repos[i] = repo
            for c, (b, seq, _) in side.w.blocks().items():
                if SEQ.encode() + b'#sync' in b:     # holds a commit
                    side.labels.setdefault(c, f'sync {seq}')
            return repo
        both(f'Repo.create {i}', fn)
        order.append(i)
        status[i], handles[i] = None, handle

    def commit():
        i = rng.choice(order)
        ws, new, kind = mix.next(i)
        if kind == 'one' and len(ws) == 1 and rng.random() < .5:
            ws = ws[0]     # a single Write is accepted
        dup = (lambda x: x) if kind == 'bad-deep' else copy.deepcopy    # deepcopy can't
        saved = dup(ws)

        def fn(side):
            mine = dup(saved)
            data = side.storage.commit(repo_of(side, i), mine)
            side.learn(data.commit, lib.did(i))
            if rng2_mut:
                for x in mine if isinstance(mine, list) else [mine]:   # the caller goes on using its objects
                    if x.record:
                        x.record['mutated'] = True
            return data
        rng2_mut = rng.random() < .3 and kind != 'bad-deep'
        out, v, _ = both(f'commit {kind} to {i}, {status[i]}', fn)
        ctx.count('mutated', rng2_mut)
        if out == 'ok':
            mix.done(i, new)
            ctx.count('commits')
            if not ctx.check(new is not None and not status[i], f'both backends accepted a {kind} commit to a repo that is {status[i]}'):
                raise Stop
        else:
            ctx.count('failed_commits')

    def set_status():
        i = rng.choice(order)
        op = rng.choice(('deactivate_repo', 'activate_repo', 'activate_repo', 'tombstone_repo') if rng.random() < .4 else ('deactivate_repo', 'activate_repo'))
        if status[i] == 'tombstoned' and op == 'deactivate_repo':
            return
        both(f'{op} {i}', lambda side: getattr(side.storage, op)(repo_of(side, i)))
        ctx.count('status_changes')
        if op == 'tombstone_repo':
            status[i] = 'tombstoned'
        elif op == 'deactivate_repo':
            status[i] = 'deactivated'
        elif status[i] != 'tombstoned':
            status[i] = None

    def rename():
        i = rng.choice(order)
        handle = rng.choice((f'new{rng.randrange(9)}-{i}.example.com', handles[i], None))
        via = rng.choice(('store_repo', 'store_repo', 'create_repo'))

        def fn(side):
            repo = repo_of(side, i) if side.kind == 'memory' else side.storage.load_repo(lib.did(i))
            repo.handle = handle
            side.repos[i] = repo
            getattr(side.storage, via)(repo)
        both(f'{via} {i} with handle {handle}', fn)
        handles[i] = handle
        ctx.count('handle_changes')

    def event():
        i = rng.choice(order)
        type = rng.choice(('account', 'identity', 'tombstone', 'identity'))
        extra = rng.choice(({}, {'handle': 'x.example.com'}, {'active': False, 'status': 'takendown'}))
        both(f'write_event {type}', lambda side: side.storage.write_event(repo_of(side, i), type, **extra))
        if type == 'identity' and rng.random() < .3:
            both('write_event bad', lambda side: side.storage.write_event(repo_of(side, i), 'nope'))

    def write():
        i = rng.choice(order)
        obj = {'$type': SEQ + '#identity', 'n': rng.randrange(6), 'did': lib.did(i)}
        seq = None

        def fn(side):
            return side.storage.write(lib.did(i), dict(obj), seq=seq)
        if rng.random() < .5:
            out, a, b = both('allocate', lambda side: side.storage.sequences.allocate(SEQ))
            seq = a
        out, v, _ = both('write', fn)
        if out == 'ok' and bytes(v.cid) in written:
            ctx.count('first_writer')
        if out == 'ok':
            written.setdefault(bytes(v.cid), (bytes(v.encoded), v.seq, [], None, lib.did(i)))

    def import_blocks():
        i = rng.choice(order)
        n = rng.choice((0, 0, 1, 2, 31, 40))
        clock.t += datetime.timedelta(seconds=1)
        when = rng.choice((clock.t, clock.t - datetime.timedelta(days=3, microseconds=1), clock.t.astimezone(datetime.timezone(datetime.timedelta(hours=-7)))))
        recs = [lib.record(rng, rng.choice((rng.randrange(10**6), rng.randrange(5)))) for _ in range(n)]
        recs += rng.sample(recs, min(len(recs), rng.choice((0, 1))))
        ops = [CommitOp(Action.CREATE, 'a.b.c/d', lib.acid(lib.val_cid(1)), None), CommitOp(Action.UPDATE, 'a.b.c/e', lib.acid(lib.val_cid(1)), lib.acid(lib.val_cid(2))),
               CommitOp(Action.DELETE, 'a.b.c/f', None, lib.acid(lib.val_cid(2)))]
        some = rng.sample(ops, rng.choice((0, 1, 3)))

        def fn(side):
            side.storage.write_blocks([Block(encoded=lib.enc(r), seq=0, repo=lib.did(i), ops=list(some), time=when) for r in recs])
        known = set(mem.w.blocks())
        out, _, _ = both(f'write_blocks of {len(recs)}', fn)
        ctx.count('imports')
        if out == 'ok':
            for r in recs:
                c = lib.rec_cid(r)
                ctx.count('first_writer', c in known)
                if c not in known:
                    written.setdefault(c, (lib.enc(r), 0, [(o.action.name, o.path, lib.bcid(o.cid), lib.bcid(o.prev_cid)) for o in some], when, lib.did(i)))

    def some_cids(side, picks):
        known = sorted(side.w.blocks(), key=lambda c: str(side.labels.get(c) or cario.cid_str(c)))
        return [lib.acid(known[int(p * len(known))] if p < 1 and known else lib.val_cid(int(p * 1000))) for p in picks]

    def read():
        picks = [rng.choice((rng.random(), rng.random(), 1 + rng.random())) for _ in range(rng.choice((0, 1, 3, 30)))]
        kind = rng.choice(('read', 'has', 'read_many', 'read_many_raw', 'read_blocks_by_seq', 'read_events_by_seq', 'load_repo', 'load_repos', 'get_contents',
                           'get_record', 'last', 'read_events_by_seq', 'load_repos'))
        i = rng.choice(order)
        last = mem.storage.sequences.last(SEQ) or 0
        start = rng.choice((0, 1, last, last + 1, rng.randrange(last + 2), rng.randrange(last + 2)))
        did = rng.choice((None, None, lib.did(i), 'did:plc:none'))
        if kind in ('read', 'has'):
            pick = [rng.choice((rng.random(), 1.5))]
            both(kind, lambda side: getattr(side.storage, kind)(some_cids(side, pick)[0]))
        elif kind == 'read_many':
            both(f'read_many {len(picks)}', lambda side: side.storage.read_many(iter(some_cids(side, picks)) if rng2.random() < .3 else some_cids(side, picks)))
        elif kind == 'read_many_raw':
            def form(side, v):
                return sorted((str(side.show(bytes(c))), 'commit' if bytes(c) in side.labels else 'sync' if SEQ.encode() + b'#sync' in b[0] else b[0].hex(), b[1])
                              for c, b in v.items() if b is not None)
            both(f'read_many_raw {len(picks)}', lambda side: side.storage.read_many_raw([bytes(c) for c in some_cids(side, picks)]), form)
        elif kind == 'read_blocks_by_seq':
            def form(side, v):
                v = list(v)
                seqs = [b.seq for b in v]
                return [seqs == sorted(seqs), side.blocks(v)]
            both(f'read_blocks_by_seq from {start} of {did}', lambda side: list(side.storage.read_blocks_by_seq(start=start, repo=did)), form)
        elif kind == 'read_events_by_seq':
            ctx.count('events')
            both(f'read_events_by_seq from {start} of {did}', lambda side: list(side.storage.read_events_by_seq(start=start, repo=did)))
        elif kind == 'load_repo':
            who = rng.choice((lib.did(i), handles[i] or 'none', 'nobody.example.com', 'did:plc:none', '', None, f'h{i}.example.com'))
            both(f'load_repo {who}', lambda side: side.storage.load_repo(who))
        elif kind == 'load_repos':
            after = rng.choice((None, '', lib.did(i), lib.did(i)[:-1], 'did:plc:5', 'z'))
            limit = rng.choice((1, 2, 500))
            minimal = rng.random() < .4

            def form(side, v):
                return [{k: x for k, x in side.show(r).items() if not minimal or k in ('did', 'head', 'status')} for r in v]
            both(f'load_repos after {after}, {limit}, minimal {minimal}', lambda side: side.storage.load_repos(after=after, limit=limit, minimal=minimal), form)
        elif kind == 'get_contents':
            _, a, b = both('get_contents', lambda side: side.storage.load_repo(lib.did(i)).get_contents())
            want = {p: r for p, r in mix.contents[i].items()}
            for name, got in (('memory', a), ('datastore', b)):
                flat = {f'{c}/{k}': lib.rec_cid(r) for c, rs in got.items() for k, r in rs.items()}
                if not ctx.check(flat == {p: lib.rec_cid(r) for p, r in want.items()}, f'{name}: contents of repo {i} are not what was committed'):
                    raise Stop
        elif kind == 'get_record':
            p = rng.choice(sorted(mix.contents[i]) or ['x.y.z/none'] if rng.random() < .8 else ['x.y.z/none'])
            both('get_record', lambda side: side.storage.load_repo(lib.did(i)).get_record(*p.split('/')))
        else:
            both('last', lambda side: side.storage.sequences.last(rng2c))

    rng2c = SEQ

    def reread():
        for side in (mem, ds):
            st = ds.w.new_storage() if side.kind == 'datastore' else side.storage
            with side.w.ctx():
                for c in rng.sample(sorted(written), min(len(written), 10)):
                    b, seq, ops, when, did = written[c]
                    ctx.count('reread')
                    got = st.read(lib.acid(c))
                    what = f'{side.kind}: block written {"with ops " if ops else ""}as {seq}'
                    if not (ctx.check(got is not None and bytes(got.encoded) == b, f'{what}: reads back other bytes')
                            and ctx.check(got.seq == seq, f'{what}: reads back with number {got.seq}')
                            and ctx.check([(o.action.name, o.path, lib.bcid(o.cid), lib.bcid(o.prev_cid)) for o in got.ops or []] == ops, f'{what}: reads back other ops {got.ops}')
                            and ctx.check(got.repo == did, f'{what}: is of {did}, reads back {got.repo!r}')):
                        raise Stop
                    if when is not None:
                        t = got.time if got.time.tzinfo else got.time.replace(tzinfo=datetime.timezone.utc)
                        if not ctx.check(t == when, f'{what}: written at {when}, reads back {got.time}'):
                            raise Stop

    class Stop(Exception):
        pass

    try:
        both('last', lambda side: side.storage.sequences.last(SEQ))
        both('load_repos empty', lambda side: side.storage.load_repos())
        both('read_events_by_seq empty', lambda side: list(side.storage.read_events_by_seq()))
        create()
        for step in range(case['steps']):
            clock.t += datetime.timedelta(milliseconds=rng.randrange(1, 90000), microseconds=rng.randrange(1000))
            r = rng.random()
            if r < .06 and len(order) < 3:
                create()
            elif r < .35:
                commit()
            elif r < .42:
                set_status()
            elif r < .47:
                rename()
            elif r < .51:
                event()
            elif r < .56:
                write()
            elif r < .62:
                import_blocks()
            else:
                read()
        reread()
        both('all events', lambda side: list(side.storage.read_events_by_seq()))
        a, b = stored_blocks(mem), stored_blocks(ds)
        plain = {c: v for c, v in a.items()}
        ctx.check({k: v[0] for k, v in plain.items() if isinstance(k, str)} == {k: v[0] for k, v in b.items() if isinstance(k, str)}, 'commits are stored with other numbers')
    except Stop:
        return
    ctx.sig('script', *names[:12])
    ctx.sample({'calls': names[:30]})


def diff(a, b, path=''):
    """Where two shown values differ first."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted({*a, *b}, key=str):
            if k not in a or k not in b:
                return f'{path}.{k}: only in {"memory" if k in a else "datastore"}'
            if a[k] != b[k]:
                return diff(a[k], b[k], f'{path}.{k}')
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: memory has {len(a)}, datastore {len(b)}'
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f'{path}[{k}]')
    return f'{path}: memory {str(a)[:150]}, datastore {str(b)[:150]}'
