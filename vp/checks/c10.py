"""C10: sequence numbers are unique and never go backwards."""
import threading

from vp import lib, sched

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor under controlled schedules: real allocators on several threads and simulated processes, stepped at every database RPC '
             'and cache operation (in-memory: preempted at every bytecode), with cache flushes, evictions and faults; offline checker of '
             'the recorded allocate/last intervals')
NOTE = ('For every explored schedule all handed-out numbers were distinct, respected real-time order and agreed with concurrent last() calls. '
        'Processes are simulated by allocator classes with their own class state. Flushes are not injected while a process is between finding the counter '
        'missing and adding it (known finding double-flush), and fewer than MEMCACHE_SEQUENCE_BUFFER allocations are in flight (known '
        'finding buffer-overrun).')
RULE = ('2-5 threads in 1-3 processes allocating 3-10 numbers each from 1-2 streams plus threads calling last(), flushing, evicting and restarting; '
        'PCT and uniform schedules over RPCs and cache operations; ABORTED / UNAVAILABLE before or after a commit, cache errors; in-memory '
        'allocator preempted at each bytecode. Distinct: the executed (thread, operation) sequence.')
REQUIRED = ('long_histories', 'allocated', 'lasts', 'last_known', 'flushes', 'evictions', 'txn_conflicts', 'faults', 'preemptions', 'restarts', 'real_time_pairs')
ISOLATE = True


def cases(tier, seed):
    n, per = (120, 4) if tier == 'quick' else (2400, 8)
    out = [{'seed': f'{seed}.f{k}', 'finding': k, 'runs': 1} for k in ('double-flush', 'buffer-overrun')]
    for i in range(n):
        out.append({'seed': f'{seed}.{i}', 'runs': per, 'kind': ('memcache', 'memcache', 'datastore', 'memcache')[i % 4],
                    'mode': ('pct', 'uniform')[i // 4 % 2]})
    for i in range(4 if tier == 'quick' else 40):
        out.append({'seed': f'{seed}.m{i}', 'runs': 1, 'kind': 'memory'})
    for i in range(24 if tier == 'quick' else 600):
        out.append({'seed': f'{seed}.q{i}', 'runs': 1, 'kind': 'memcache', 'mode': 'long'})
    return out


def setup():
    lib.boot()


class Call:
    def __init__(self, kind, nsid, begin):
        self.kind, self.nsid, self.begin, self.end, self.val = kind, nsid, begin, None, None


def check(ctx, calls, what, key=None):
    """The recorded history of one store."""
    ok = True
    for nsid in {c.nsid for c in calls}:
        allocs = [c for c in calls if c.nsid == nsid and c.kind == 'alloc' and c.val is not None]
        lasts = [c for c in calls if c.nsid == nsid and c.kind == 'last' and c.end is not None]
        vals = [c.val for c in allocs]
        dups = sorted({v for v in vals if vals.count(v) > 1})
        ok &= ctx.check(all(isinstance(v, int) and v > 0 for v in vals), f'{what}: allocated {vals}', key)
        ok &= ctx.check(not dups, f'{what}: {nsid}: numbers {dups} handed out twice', key)
        for a in allocs:
            for b in allocs:
                if a.end < b.begin:
                    ctx.count('real_time_pairs')
                    if not a.val < b.val:
                        ok = ctx.check(False, f'{what}: {nsid}: {b.val} was allocated after {a.val} was', key)
        for c in lasts:
            ctx.count('lasts')
            if c.val is None:
                continue
            ctx.count('last_known')
            low = max((a.val for a in allocs if a.end < c.begin), default=0)
            high = min((a.val for a in allocs if a.begin > c.end), default=None)
            ok &= ctx.check(c.val >= low, f'{what}: {nsid}: last is {c.val} after {low} was handed out', key)
            ok &= ctx.check(high is None or c.val < high, f'{what}: {nsid}: last was {c.val}, then {high} was handed out', key)
        ctx.count('allocated', len(allocs))
        if not ok:
            return False
    return ok


def run_case(case, ctx):
    for r in range(case['runs']):
        if case.get('finding'):
            finding(case, ctx)
        elif case['kind'] == 'memory':
            memory(case, ctx)
        elif case['mode'] == 'long':
            long(case, ctx)
        else:
            one(case, r, ctx)
        if ctx.violations:
            return


def memory(case, ctx):
    from arroba.storage import MemorySequences
    rng = lib.rng_of(case['seed'])
    pre = sched.Preempt(lib.os_repo(), opcodes=True)
    n, _ = pre.count(lambda: MemorySequences().allocate('a'))
    warm = rng.choice((0, 1, 5))
    for k in range(1, n + 1):
        s = MemorySequences()
        got = [s.allocate('a') for _ in range(warm)]
        other = rng.random() < .3
        a, b, info = pre.run(lambda: s.allocate('a'), k, lambda: s.allocate('b' if other else 'a'))
        for o in (a, b):
            if o[0] == 'exc':
                raise o[1]
        ctx.count('preemptions')
        ctx.sig('memory', warm, other, info.get('where'), k)
        what = f'memory allocator preempted at {info.get("where")}'
        if not ctx.check(not info.get('deadlock'), f'{what}: deadlock'):
            return
        got.append(a[1])
        if other:
            ctx.check(b[1] == 1, f'{what}: other stream starts at {b[1]}')
        else:
            got.append(b[1])
        ctx.check(sorted(got) == list(range(1, len(got) + 1)), f'{what}: allocated {got}')
        ctx.check(s.last('a') == max(got), f'{what}: last is {s.last("a")} after {got}')
        ctx.check(s.allocate('a') == max(got) + 1, f'{what}: next one')
    # plain stress
    import sys
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    s, outs = MemorySequences(), [[] for _ in range(4)]
    ts = [threading.Thread(target=lambda o=o: o.extend(s.allocate('a') for _ in range(400))) for o in outs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    sys.setswitchinterval(old)
    ctx.check(sorted(sum(outs, [])) == list(range(1, 1601)), 'memory allocator: duplicates or gaps under thread stress')
    ctx.check(all(o == sorted(o) for o in outs), 'memory allocator: numbers went backwards within a thread')
    ctx.count('allocated', 1600)


class Env:
    """A database, a cache, and processes that use them."""

    def __init__(self, kind, batch, buffer):
        from arroba import datastore_storage as dss
        from vp import fakeds, fakemc
        dss.MEMCACHE_SEQUENCE_BATCH, dss.MEMCACHE_SEQUENCE_BUFFER = batch, buffer
        self.kind = kind
        self.client, self.store = fakeds.install()
        self.mc = fakemc.Server()

    def process(self):
        from arroba.datastore_storage import DatastoreSequences, MemcacheSequences
        kw = {'ndb_client': self.client, 'ndb_context_kwargs': {'cache_policy': lambda key: False}}
        if self.kind == 'datastore':
            return DatastoreSequences(**kw)
        cls = type('Process', (MemcacheSequences,), {'max_seqs': {}, 'max_seqs_lock': threading.Lock()})
        return cls(memcache=self.mc.client(), **kw)


def one(case, r, ctx):
    from google.api_core import exceptions as core_exc
    from google.cloud.ndb import _retry
    rng = lib.rng_of(case['seed'], r)
    buffer = rng.choice((12, 15))
    env = Env(case['kind'], buffer + rng.choice((2, 4, 10)), buffer)
    _retry._DEFAULT_INITIAL_DELAY = _retry._DEFAULT_MAXIMUM_DELAY = 0
    nproc = rng.choice((1, 1, 2, 3))
    procs = [env.process() for _ in range(nproc)]
    nthreads = rng.choice((2, 3, 4, 5))
    per = rng.choice((3, 6, 10)) if case['kind'] == 'memcache' else rng.choice((2, 3))
    nsids = rng.choice((['com.example.a', 'com.example.ab'], ['com.example.a', 'com.example.A'],
                        ['com.atproto.sync.subscribeRepos', 'com.atproto.sync.subscribeReposTwo'],
                        ['com.example.' + 'sub' * 60, 'com.example.' + 'sub' * 60 + '2'])
                       )[:rng.choice((1, 1, 2))]
    names = [f't{k}' for k in range(nthreads)]
    faulty = rng.random() < .4
    chaos = case['kind'] == 'memcache' and rng.random() < .7
    faults = []
    if faulty:
        for _ in range(rng.choice((1, 2))):
            faults.append(['rpc', rng.choice(('commit', 'commit', 'lookup', 'begin_transaction')), 'before', rng.randrange(1, 12),
                           rng.choice((core_exc.Aborted, core_exc.ServiceUnavailable))('injected')])
        if rng.random() < .6:
            faults.append(['rpc', 'commit', 'after', rng.randrange(1, 8), core_exc.ServiceUnavailable('reply lost')])
        if case['kind'] == 'memcache' and rng.random() < .6:
            faults.append(['mc', 'incr', rng.choice(('before', 'after')), rng.randrange(1, 15), ConnectionError('injected')])
    all_names = names + ['last'] + (['chaos'] if chaos else [])
    steps = (12 if case['kind'] == 'datastore' else 4) * nthreads * per
    choose = sched.pct(rng, all_names, steps, rng.choice((2, 3, 5, 8))) if case['mode'] == 'pct' else sched.uniform(rng)
    stepper = sched.Stepper(choose)
    calls, initing, hit = [], set(), []

    def fault(layer, op, phase):
        for f in faults:
            if f[:3] == [layer, op, phase]:
                f[3] -= 1
                if f[3] == 0:
                    hit.append((op, phase))
                    raise f[4]

    def rpc_hook(phase, rpc, req, info):
        name = stepper.names.get(threading.current_thread())
        if phase == 'before':
            stepper.hook(rpc)
        if name in names:
            fault('rpc', rpc, phase)

    def mc_hook(phase, op, key, res):
        name = stepper.names.get(threading.current_thread())
        if phase == 'before':
            stepper.hook(op)
        elif name in names:
            if res is None and op in ('incr', 'get', 'gets'):
                initing.add(name)
            elif op in ('add', 'set', 'cas') or res is not None:
                initing.discard(name)
        if name in names:
            fault('mc', op, phase)
    env.store.hook, env.mc.hook = rpc_hook, mc_hook

    def call(seqs, kind, nsid, name):
        c = Call(kind, nsid, len(stepper.trace))
        calls.append(c)
        try:
            c.val = seqs.allocate(nsid) if kind == 'alloc' else seqs.last(nsid)
            c.end = len(stepper.trace)
        except (core_exc.GoogleAPICallError, core_exc.RetryError, ConnectionError):
            ctx.count('failed_calls')
        except (TypeError, AssertionError):
            # the cache went away in the middle of the call
            if not flushes:
                raise
            ctx.count('failed_calls')
        initing.discard(name)

    def allocator(name, k):
        def run():
            proc = procs[k % nproc]
            for _ in range(per):
                with env.client.context(cache_policy=lambda key: False):
                    call(proc, 'alloc', rng_t[name].choice(nsids), name)
        return run

    def lasts():
        for _ in range(nthreads * per // 2):
            stepper.hook('idle')
            with env.client.context(cache_policy=lambda key: False):
                call(rng_t['last'].choice(procs), 'last', rng_t['last'].choice(nsids), 'last')

    flushes = []

    def chaosf():
        rc = rng_t['chaos']
        for _ in range(rc.choice((2, 5, 20))):
            stepper.hook('idle')
            if initing:
                continue
            what = rc.choice(('flush', 'evict', 'restart', 'idle', 'idle'))
            if what == 'flush':
                env.mc.flush()
                ctx.count('flushes')
            elif what == 'evict':
                env.mc.evict(f'{rc.choice(nsids)}-last-seq'.encode())
                ctx.count('evictions')
            elif what == 'restart':
                procs[rc.randrange(nproc)] = env.process()
                ctx.count('restarts')
            if what in ('flush', 'evict'):
                flushes.append(what)

    rng_t = {n: lib.rng_of(case['seed'], r, n) for n in all_names}
    fns = {n: allocator(n, k) for k, n in enumerate(names)}
    fns['last'] = lasts
    if chaos:
        fns['chaos'] = chaosf
    res = stepper.run(fns)
    env.store.hook = env.mc.hook = None
    _retry._DEFAULT_INITIAL_DELAY = 0.0005
    what = f'run {r} ({case["kind"]}, {case["mode"]}, {nthreads} threads, {nproc} processes, faults {hit}, {flushes})'
    if stepper.deadlocked:
        ctx.viol(f'{what}: {stepper.deadlocked} blocked forever')
        return
    for n, (kind, val) in res.items():
        if kind == 'exc':
            raise val
    ctx.count('faults', len(hit))
    ctx.count('txn_conflicts', env.store.aborts)
    ctx.sig(stepper.trace)
    # afterwards, in a new process
    with env.client.context(cache_policy=lambda key: False):
        p = env.process()
        for nsid in nsids:
            for kind in ('last', 'alloc', 'last', 'alloc'):
                c = Call(kind, nsid, 10**9 + len(calls) * 2)
                c.val = p.allocate(nsid) if kind == 'alloc' else p.last(nsid)
                c.end = 10**9 + len(calls) * 2 + 1
                calls.append(c)
    if not check(ctx, calls, what):
        return
    if nproc == 1 and not hit and not flushes and not any(c.kind == 'alloc' and c.val is None for c in calls):
        for nsid in nsids:
            vals = sorted(c.val for c in calls if c.kind == 'alloc' and c.nsid == nsid)
            if not ctx.check(vals == list(range(1, len(vals) + 1)), f'{what}: {nsid}: a quiet run allocated {vals}'):
                return
    ctx.sample({'kind': case['kind'], 'threads': nthreads, 'processes': nproc, 'conflicts': env.store.aborts, 'faults': hit,
                'chaos': flushes, 'steps': len(stepper.trace)})


def long(case, ctx):
    """One call at a time, over many batches, by processes that come, idle and go."""
    rng = lib.rng_of(case['seed'])
    buffer = rng.choice((2, 3, 5, 10))
    batch = buffer + rng.choice((1, 3, 15, 60))
    env = Env('memcache', batch, buffer)
    procs = [env.process() for _ in range(rng.choice((2, 3, 4)))]
    nsids = rng.choice((['com.example.a', 'com.example.ab'], ['com.example.a', 'com.example.A'],
                        ['com.atproto.sync.subscribeRepos', 'com.atproto.sync.subscribeReposTwo'],
                        ['com.example.' + 'sub' * 60, 'com.example.' + 'sub' * 60 + '2'])
                       )[:rng.choice((1, 1, 2))]
    calls, did = [], []

    def call(p, kind, nsid):
        c = Call(kind, nsid, 2 * len(calls))
        calls.append(c)
        with env.client.context(cache_policy=lambda key: False):
            c.val = p.allocate(nsid) if kind == 'alloc' else p.last(nsid)
        c.end = c.begin + 1
    while len(calls) < 260:
        p = rng.choice(procs)
        nsid = rng.choice(nsids)
        for _ in range(rng.choice((1, 2, buffer, rng.randrange(1, batch + 3)))):
            call(p, 'alloc', nsid)
        r = rng.random()
        if r < .08:
            env.mc.flush()
            did.append('flush')
            ctx.count('flushes')
        elif r < .14:
            env.mc.evict(f'{nsid}-last-seq'.encode())
            did.append('evict')
            ctx.count('evictions')
        elif r < .25:
            procs[rng.randrange(len(procs))] = env.process()
            ctx.count('restarts')
        elif r < .5:
            call(rng.choice(procs), 'last', nsid)
    ctx.count('long_histories')
    ctx.sig('long', batch, buffer, len(procs), len(nsids), did)
    check(ctx, calls, f'batch {batch}, buffer {buffer}, {len(procs)} processes, {did}')


def finding(case, ctx):
    """Directed schedules for the known findings."""
    key = case['finding']
    env = Env('memcache', 4, 2) if key == 'buffer-overrun' else Env('memcache', 20, 5)
    a, b, c = env.process(), env.process(), env.process()
    calls = []
    nsid = 'com.example.a'
    t = [0]

    def alloc(p):
        t[0] += 2
        x = Call('alloc', nsid, t[0])
        calls.append(x)
        with env.client.context(cache_policy=lambda key: False):
            x.val = p.allocate(nsid)
        t[0] += 2
        x.end = t[0]
        return x
    if key == 'double-flush':
        # a finds no counter and reserves numbers; before it adds the counter, b starts
        # the counter, uses it, and the cache is flushed again
        done = []

        def hook(phase, op, k, res):
            if op == 'add' and phase == 'before' and not done:
                done.append(1)
                alloc_in_thread(lambda: alloc(b))
                alloc_in_thread(lambda: alloc(b))
                env.mc.flush()
        env.mc.hook = hook
        alloc(a)
        alloc(c)
    else:
        # more allocations in flight than the buffer, all waiting to reserve; then a flush
        depth = []

        def hook(phase, op, k, res):
            if op == 'incr' and phase == 'after' and res is not None and len(depth) < 5:
                depth.append(1)
                if len(depth) == 5:
                    env.mc.flush()
                p = env.process()
                alloc_in_thread(lambda: alloc(p))
        alloc(a)
        env.mc.hook = hook
        alloc(a)
    env.mc.hook = None
    ctx.sig(key)
    check(ctx, calls, f'directed {key}', key=key)


def alloc_in_thread(fn):
    """In another thread, since ndb contexts are per thread."""
    err = []

    def run():
        try:
            fn()
        except BaseException as e:
            err.append(e)
    th = threading.Thread(target=run)
    th.start()
    th.join()
    if err:
        raise err[0]
