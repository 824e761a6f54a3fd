"""C09: concurrent commits to the Datastore are serializable."""
import itertools

from vp import cario, lib, refmst, sched

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor under controlled schedules: real commits on several threads, stepped one database RPC at a time by random-priority, '
             'random and systematic schedulers with injected conflicts and lost replies; offline serializability checker over the store, '
             'callbacks and event log')
NOTE = ('For each explored schedule the stored chain was shown to be a serial order of exactly the acknowledged commits that explains every '
        'result, respects real time and reproduces every data root, with one event each. Scheduling is at RPC granularity of a fake '
        'Datastore with optimistic concurrency; each writer is a thread with its own storage object, as in separate processes.')
RULE = ('2-4 writers with 1-3 commits each to 1-2 repos (unique and contended keys, valid and invalid batches, stale and fresh repo objects, repo '
        'creation), interleaved at every RPC by PCT, uniform random or two-preemption schedules, with ABORTED, UNAVAILABLE before a call and '
        'UNAVAILABLE or DEADLINE_EXCEEDED after it took effect. Distinct: the sequence of (writer, RPC) actually executed.')
REQUIRED = ('acked', 'aborts', 'contended_runs', 'lost_replies', 'explained_failures', 'preempted_runs', 'creates')
ISOLATE = True
CASE_TIMEOUT = 240
NSID = 'com.atproto.sync.subscribeRepos'


def cases(tier, seed):
    n, per = (160, 3) if tier == 'quick' else (2500, 8)
    out = [{'seed': f'{seed}.shared', 'runs': 1, 'mode': 'shared'}]   # known finding concurrent-new-block
    for i in range(n):
        out.append({'seed': f'{seed}.{i}', 'runs': per, 'mode': ('pct', 'uniform', 'pct', 'two')[i % 4]})
    return out


def setup():
    lib.boot()
    import google.cloud.ndb  # noqa


def run_case(case, ctx):
    for r in range(case['runs']):
        one(case, r, ctx)
        if ctx.violations:
            return


class Op:
    """One commit by one writer."""

    def __init__(self, writer, repo, writes):
        self.writer, self.repo, self.writes = writer, repo, writes
        self.data = self.err = self.begin = self.end = None
        self.cb = lib.Cb()


def apply(contents, writes):
    """New contents, or None if some write is invalid."""
    from arroba.storage import Action
    cur = dict(contents)
    for x in writes:
        p = f'{x.collection}/{x.rkey}'
        if x.action == Action.CREATE:
            if p in cur:
                return None
        elif p not in cur:
            return None
        if x.action == Action.DELETE:
            del cur[p]
        else:
            cur[p] = x.record
    return cur


def plan(rng, ids, universe, rec_i, unique):
    """Writes for one commit."""
    from arroba.repo import Write
    from arroba.storage import Action
    ws = []
    for _ in range(rng.choice((1, 1, 2, 4))):
        rec = lib.record(rng, next(rec_i), simple=True) if rng.random() < .8 else {'$type': 'com.example.rec', 'shared': rng.randrange(2)}
        r = rng.random()
        if r < .5:
            ws.append(Write(Action.CREATE, 'com.example.u', f'k{next(unique)}', rec))
        else:
            p = rng.choice(universe).split('/')
            act = rng.choice((Action.CREATE, Action.UPDATE, Action.UPDATE, Action.DELETE))
            ws.append(Write(act, *p, None if act == Action.DELETE else rec))
    return ws


def one(case, r, ctx):
    from google.api_core import exceptions as core_exc
    from google.cloud.ndb import _retry
    from google.cloud.ndb import exceptions as ndb_exc
    rng = lib.rng_of(case['seed'], r)
    w = lib.World('datastore', sequences='memcache' if rng.random() < .2 else None)
    _retry._DEFAULT_INITIAL_DELAY = _retry._DEFAULT_MAXIMUM_DELAY = 0
    nrepo = 2 if case['mode'] == 'shared' else rng.choice((1, 1, 2))
    ids = list(range(nrepo))
    universe = lib.key_universe(rng, rng.choice((2, 3, 6)))
    rec_i, unique = itertools.count(), itertools.count()
    contents0 = {}
    with w.ctx():
        for i in ids:
            repo = lib.create_repo(w, i)
            ws, cur = lib.writes_for(rng, {}, rng.choice((1, 3)), universe, rec_i)
            w.storage.commit(repo, ws)
            contents0[i] = cur
    base = {i: bytes(w_head(w, i)) for i in ids}
    base_seq = last_seq(w)
    w.store.keep_history = True
    w.store.history.clear()

    names = [f'w{k}' for k in range(rng.choice((2, 2, 3, 4)))]
    if case['mode'] in ('two', 'shared'):
        names = ['w0', 'w1']
    per = 1 if case['mode'] in ('two', 'shared') else rng.choice((1, 2, 3))
    faulty = case['mode'] != 'shared' and rng.random() < .5
    ops = {n: [Op(n, rng.choice(ids), plan(rng, ids, universe, rec_i, unique)) for _ in range(per)] for n in names}
    if case['mode'] == 'shared':
        from arroba.repo import Write
        from arroba.storage import Action
        ops = {f'w{k}': [Op(f'w{k}', k, [Write(Action.CREATE, 'com.example.s', 'k', {'$type': 'com.example.s', 'same': 1})])]
               for k in ids}
    creates = {}
    if not faulty and rng.random() < .3:
        creates['w0'] = 50
    stale_obj = {n: rng.random() < .5 for n in names}

    # faults: rpc, phase, countdown, exception
    faults = []
    if faulty:
        for _ in range(rng.choice((1, 1, 2, 3))):
            phase = rng.choice(('after', 'after', 'before'))
            if phase == 'after':
                faults.append(['commit', 'after', rng.randrange(1, 4 * len(names) * per + 1), core_exc.ServiceUnavailable('reply lost')])
            else:
                faults.append([rng.choice(('commit', 'lookup', 'run_query', 'begin_transaction', 'commit')), 'before',
                               rng.randrange(1, 4 * len(names) * per + 1),
                               rng.choice((core_exc.ServiceUnavailable, core_exc.Aborted))('injected')])
        if rng.random() < .3:
            faults.append(['commit', 'after', rng.randrange(1, 4 * len(names) * per + 1), core_exc.DeadlineExceeded('reply lost')])
    picky_rollback = rng.random() < .5
    hit = []

    if case['mode'] == 'pct':
        choose = sched.pct(rng, names, 25 * len(names) * per, rng.choice((2, 3, 4, 6)))
    elif case['mode'] == 'uniform':
        choose = sched.uniform(rng)
    elif case['mode'] == 'shared':
        def choose(ready, step):
            at = stepper.at_hook.get('w0')
            done = sum(1 for x in stepper.trace if x == ('w0', 'commit'))
            # w0 has allocated a number and is about to commit its transaction
            return 'w1' if at == 'commit' and done == 1 and 'w1' in ready else 'w0' if 'w0' in ready else ready[0]
    else:
        a, b = rng.randrange(0, 22), rng.randrange(0, 22)
        first, other = rng.sample(names, 2)

        def choose(ready, step):
            want = first if step < a else other if step < a + b else first
            return want if want in ready else ready[0]
    stepper = sched.Stepper(choose)
    alloc = {}

    def hook(phase, rpc, req, info):
        import threading
        name = stepper.names.get(threading.current_thread())
        if phase == 'before':
            stepper.hook(rpc)
        if name is None:
            return
        for f in faults:
            if f[0] == rpc and f[1] == phase:
                f[2] -= 1
                if f[2] == 0:
                    hit.append((name, rpc, phase, type(f[3]).__name__))
                    raise f[3]
        if picky_rollback and phase == 'before' and rpc == 'rollback' and bytes(req.transaction) not in w.store.txns:
            raise core_exc.InvalidArgument('The referenced transaction has expired or is no longer valid.')
    w.store.hook = hook

    def writer(name):
        def run():
            st = w.new_storage(w.memcache_sequences() if hasattr(w, 'mc') else None)
            repos = {}
            for op in ops[name]:
                with w.client.context(cache_policy=lambda key: False):
                    if op.repo not in repos or not stale_obj[name]:
                        repos[op.repo] = st.load_repo(lib.did(op.repo))
                    repo = repos[op.repo]
                    repo.callback = op.cb
                    op.begin = len(stepper.trace)
                    try:
                        op.data = st.commit(repo, op.writes)
                    except Exception as e:
                        op.err = e
                    op.end = len(stepper.trace)
                    op.shows = repo.head and bytes(repo.head.cid)
            if name in creates:
                with w.client.context(cache_policy=lambda key: False):
                    from arroba.repo import Repo
                    i = creates[name]
                    Repo.create(st, lib.did(i), handle='new.example.com', signing_key=lib.privkey(i), rotation_key=None)
        return run

    aborts0 = w.store.aborts
    res = stepper.run({n: writer(n) for n in names})
    w.store.hook = None
    _retry._DEFAULT_INITIAL_DELAY = 0.0005
    what = f'run {r} ({case["mode"]}, {len(names)} writers x {per}, faults {hit})'
    if stepper.deadlocked:
        ctx.viol(f'{what}: writers {stepper.deadlocked} blocked forever')
        return
    for n, (kind, val) in res.items():
        if kind == 'exc':
            raise val
    aborts = w.store.aborts - aborts0
    ctx.count('aborts', aborts)
    ctx.count('contended_runs', 1 if aborts else 0)
    ctx.count('lost_replies', sum(1 for h in hit if h[2] == 'after'))
    ctx.count('faults', len(hit))
    ctx.count('steps', len(stepper.trace))
    switches = sum(1 for x, y in zip(stepper.trace, stepper.trace[1:]) if x[0] != y[0])
    ctx.count('switches', switches)
    ctx.count('preempted_runs', 1 if switches > len(names) else 0)
    ctx.sig(stepper.trace)
    everything = [op for n in names for op in ops[n]]
    transient = (core_exc.GoogleAPICallError, core_exc.RetryError, ndb_exc.Error)

    stored = w.blocks()
    acked = [op for op in everything if op.data]
    by_cid = {}
    for op in acked:
        c = bytes(op.data.commit.cid)
        if not ctx.check(c not in by_cid, f'{what}: two commits returned the same commit'):
            return
        by_cid[c] = op
    ctx.count('acked', len(acked))

    states = {}    # repo -> [(cid, contents)] in chain order
    for i in ids:
        head = w_head(w, i)
        chain, cid = [], head
        while cid != base[i]:
            if not ctx.check(cid in stored and len(chain) <= len(everything),
                             f'{what}: repo {i}: chain from the head does not lead back to the commit before the run'):
                return
            obj = cario.decode(stored[cid][0])
            chain.append((cid, obj))
            if not ctx.check(cid in by_cid and by_cid[cid].repo == i,
                             f'{what}: repo {i}: the chain has a commit that no writer was told succeeded '
                             f'({[type(o.err).__name__ for o in everything if o.err]})'):
                return
            cid = obj['prev'].cid
        chain.reverse()
        mine = [op for op in acked if op.repo == i]
        order = [by_cid[c] for c, _ in chain]
        if not ctx.check(len(chain) == len(mine) and {id(o) for o in order} == {id(o) for o in mine},
                         f'{what}: repo {i}: {len(mine)} commits acknowledged, {len(chain)} in the chain'):
            return
        cur = contents0[i]
        states[i] = [(None, cur)]
        for (cid, obj), op in zip(chain, order):
            new = apply(cur, op.writes)
            if not ctx.check(new is not None, f'{what}: repo {i}: {op.writer}\'s commit is not valid on its predecessor'):
                return
            root, _ = lib.expected_tree(new)
            if not ctx.check(obj['data'].cid == root, f'{what}: repo {i}: tree of {op.writer}\'s commit is not its predecessor\'s contents with its writes'):
                return
            states[i].append((cid, new))
            cur = new
        for a, b in itertools.combinations(range(len(order)), 2):
            if not ctx.check(not order[b].end < order[a].begin, f'{what}: repo {i}: a commit that finished before another began comes after it in the chain'):
                return
        with w.ctx():
            got = {f'{c}/{k}': cario.plain(x) for c, rs in w.new_storage().load_repo(lib.did(i)).get_contents().items() for k, x in rs.items()}
        if not ctx.check(got == {p: cario.plain(x) for p, x in cur.items()}, f'{what}: repo {i}: final contents'):
            return

    pos = {c: k for i in ids for k, (c, _) in enumerate(states[i])}
    for op in everything:
        if op.err is None:
            if not ctx.check(op.shows == bytes(op.data.commit.cid), f'{what}: {op.writer}\'s repo object does not show its commit'):
                return
            if not ctx.check(len(op.cb.data) == 1 and op.cb.data[0] is op.data and op.data.commit.seq not in op.cb.lost,
                             f'{what}: success reported {len(op.cb.data)} times, lost {op.cb.lost}'):
                return
            continue
        if not ctx.check(not op.cb.data, f'{what}: failed commit reported as success: {op.err!r}'):
            return
        if isinstance(op.err, transient):
            ctx.count('transient_failures')
            if not ctx.check(hit or aborts, f'{what}: failed without cause: {op.err!r}'):
                return
            continue
        # some state it may have seen explains the failure
        lo = max([pos[bytes(o.data.commit.cid)] for o in acked if o.repo == op.repo and o.end < op.begin], default=0)
        hi = max([pos[bytes(o.data.commit.cid)] for o in acked if o.repo == op.repo and o.begin < op.end], default=0)
        ok = any(apply(states[op.repo][k][1], op.writes) is None for k in range(lo, hi + 1))
        ctx.count('explained_failures')
        if not ctx.check(ok and isinstance(op.err, (ValueError, KeyError)),
                         f'{what}: {op.writer} failed with {op.err!r}, but its writes are valid in every state it can have seen'):
            return
    seqs = [op.data.commit.seq for op in acked]
    lost = [s for op in everything for s in op.cb.lost]
    if not ctx.check(len(set(seqs + lost)) == len(seqs + lost) and all(base_seq < s <= last_seq(w) for s in seqs + lost),
                     f'{what}: sequence numbers used {sorted(seqs)}, lost {sorted(lost)}'):
        return
    for op in everything:
        if op.err is not None and not isinstance(op.err, transient):
            if not ctx.check(len(op.cb.lost) == 1, f'{what}: failed commit reported {len(op.cb.lost)} numbers lost'):
                return

    # events
    with w.ctx():
        events = list(w.new_storage().read_events_by_seq(start=base_seq + 1))
    commits = [e for e in events if not isinstance(e, dict)]
    created = {lib.did(i) for i in creates.values()}
    new_commits = [e for e in commits if e.commit.decoded['did'] in created]
    commits = [e for e in commits if e.commit.decoded['did'] not in created]
    for d in created:
        evs = [e for e in events if (e.get('did') if isinstance(e, dict) else e.commit.decoded['did']) == d]
        kinds = [e['$type'].split('#')[1] if isinstance(e, dict) else 'commit' for e in evs]
        ctx.count('creates')
        if not ctx.check(kinds == ['commit', 'identity', 'account', 'sync'], f'{what}: creation events {kinds}'):
            return
    if not ctx.check(sorted(bytes(e.commit.cid) for e in commits) == sorted(by_cid),
                     f'{what}: {len(commits)} commit events, {len(by_cid)} successful commits'):
        return
    if not ctx.check([e.commit.seq for e in commits] == sorted(seqs), f'{what}: event numbers'):
        return
    for e in commits:
        cid = bytes(e.commit.cid)
        op = by_cid[cid]
        k = pos[cid]
        before, after = (states[op.repo][j][1] for j in (k - 1, k))
        cur = {p: lib.rec_cid(x) for p, x in before.items()}
        for o in e.commit.ops:
            if o.cid is None:
                cur.pop(o.path, None)
            else:
                cur[o.path] = bytes(o.cid)
        if not ctx.check(cur == {p: lib.rec_cid(x) for p, x in after.items()},
                         f'{what}: the event\'s operations do not give the commit\'s contents from its predecessor\'s'):
            return

    # nothing else was stored, and nothing stored was overwritten
    used = set(seqs)
    for cid, (data, seq, did) in stored.items():
        obj = cario.decode(data)
        if seq > base_seq and did not in created and not ctx.check(
                seq in used, f'{what}: a block of seq {seq}, which no successful commit has, is in the store'):
            return
    first, by_seq = {}, {op.data.commit.seq: op for op in acked}
    for version, applied in w.store.history:
        for key, pb in applied:
            if key[-1][0] == 'AtpBlock' and pb is not None:
                s = pb.properties['seq'].integer_value
                if key in first and first[key] != s:
                    a, b = by_seq.get(first[key]), by_seq.get(s)
                    raced = a and b and a.repo != b.repo and a.begin < b.end and b.begin < a.end
                    ctx.viol(f'{what}: a stored block was written again with seq {s}, it had {first[key]}',
                             key='concurrent-new-block' if raced else None)
                first.setdefault(key, s)
    ctx.sample({'mode': case['mode'], 'writers': len(names), 'acked': len(acked), 'failed': len(everything) - len(acked),
                'aborts': aborts, 'faults': hit, 'steps': len(stepper.trace), 'switches': switches})


def w_head(w, i):
    for pb in w.store.entities('AtpRepo'):
        if pb.key.path[-1].name == lib.did(i):
            return cario.cid_bytes(pb.properties['head'].string_value)


def last_seq(w):
    if hasattr(w, 'mc'):
        v = w.mc.client().get(f'{NSID}-last-seq')
        return int(v) if v else 0
    for pb in w.store.entities('AtpSequence'):
        if pb.key.path[-1].name == NSID:
            return pb.properties['next'].integer_value - 1
    return 0
