"""C14: a fault never stops the firehose nor costs or repeats an event."""
import gc
import os
import random
import threading

from vp import fh, lib
from vp.checks import c11
from vp.sched import Inconclusive, blocked, quiesce

LEVEL = 'exploration'
TECHNIQUE = ('fault injection with a runtime monitor: errors raised inside the collector\'s reads, subscribers that leave at every point; '
             'exactly-once checker over the remaining subscribers, and a check of what a gone subscriber leaves behind')
NOTE = ('Errors at every read the collector makes while running, singly and in bursts, on both backends; not while it starts up, and not '
        'a crash between two statements. Subscribers leave by closing, dropping or failing, at every event and while the collector is '
        'paused at any line of its emitting code.')
ISOLATE = True
CASE_TIMEOUT = 150
RULE = ('histories with several subscribers; (a) the k-th storage call or RPC of the collector raises one of several errors, once or in '
        'bursts; (b) subscribers leave at each event, during old, retained and live events, with garbage collection in other threads, and '
        'some stay but never read; (c) the collector is paused at the k-th line it executes for new events while subscribers leave and '
        'join. Distinct: (mode, backend, error or way of leaving, point).')
REQUIRED = ('lost_contexts', 'lost_mid_read', 'faults', 'recovered_events', 'left', 'left_during_old', 'left_while_collector_paused', 'slow_subscribers', 'gc_checks',
            'bursts', 'emptied', 'last_unknown', 'events_received')


def cases(tier, seed):
    quick = tier == 'quick'
    r = random.Random(f'{seed}.c14')
    out = []
    for i in range(150 if quick else 4000):
        out.append({'mode': 'fault', 'seed': f'{seed}.f{i}', 'kind': ('memory', 'datastore')[i % 2]})
    for i in range(160 if quick else 3000):
        out.append({'mode': 'lost', 'seed': f'{seed}.o{i}', 'kind': 'datastore'})
    for i in range(110 if quick else 3000):
        out.append({'mode': 'leave', 'seed': f'{seed}.l{i}', 'kind': ('datastore', 'memory')[i % 2]})
    for rep in range(1 if quick else 10):
        for k in range(1, 120):
            out.append({'mode': 'gate', 'seed': f'{seed}.{rep}.g{k}', 'kind': 'memory', 'k': k})
    r.shuffle(out)
    return out


def setup():
    lib.boot()
    from google.cloud.ndb import _retry
    _retry._DEFAULT_INITIAL_DELAY = _retry._DEFAULT_MAXIMUM_DELAY = 0


class Leave(Exception):
    pass


def errors():
    from google.api_core import exceptions as ge
    from google.cloud.ndb.exceptions import ContextError
    return [ge.ServiceUnavailable('x'), ge.DeadlineExceeded('x'), ge.InternalServerError('x'), ge.Aborted('x'),
            ge.PermissionDenied('x'), ge.ResourceExhausted('x'), ge.Unknown('x'), RuntimeError('x'), OSError('x'), AssertionError('x'),
            ValueError('x'), KeyError('x'), TypeError('x'), TimeoutError('x'), ContextError(), EOFError('x'), MemoryError('x'),
            StopAsyncIteration('x'), UnicodeError('x')]


def run_case(case, ctx):
    rng = lib.rng_of(case['seed'])
    b = c11.Bench(case, ctx, rng)
    if case['kind'] == 'memory':
        b.w = lib.World('memory', memory_class=faulty_memory())
    with b.w.ctx():
        {'fault': fault, 'leave': leave, 'gate': gate, 'lost': lost}[case['mode']](b, case, ctx, rng)


def faulty_memory():
    from arroba.storage import MemoryStorage

    class Faulty(MemoryStorage):
        hook = None

        def point(self, name):
            if self.hook:
                self.hook(name)

        def read_blocks_by_seq(self, **kw):
            self.point('read_blocks_by_seq')
            for b in super().read_blocks_by_seq(**kw):
                self.point('block')
                yield b

        def read(self, cid):
            self.point('read')
            return super().read(cid)

        def read_many(self, cids):
            self.point('read_many')
            return super().read_many(cids)
    return Faulty


def start(b, rng, ctx, rollback=50000, preload=None):
    b.create(rng.choice((1, 2)))
    b.make(max(0, rng.choice((3, 7)) - b.used()))
    P = preload or rng.choice((1, 3, 50000))
    while not [s for s in b.seqs() if s > b.used() - P]:
        b.act()
    st = b.stream = fh.Stream(rollback=rollback, preload=P)
    for q in b.lost:
        st.callback(lost_seq=q)
    return st


def up(st, ctx):
    return ctx.check(st.start(), 'firehose did not start')


def subscribers_left(b, ctx, want, what):
    """Nothing is kept for subscribers that are gone."""
    subs = getattr(b.stream.fh, 'subscribers', None)
    if isinstance(subs, (list, set, dict, tuple)):
        ctx.check(len(subs) == want, f'{what}: {len(subs)} subscribers registered, {want} are connected')
        ctx.count('emptied')


def fault(b, case, ctx, rng):
    from arroba.storage import SUBSCRIBE_REPOS_NSID
    st = start(b, rng, ctx)
    if not up(st, ctx):
        return
    main = threading.current_thread()
    subs = [(st.sub(None), None), (st.sub(0), 0)]
    st.settle()
    floor = b.used()
    errs = errors()
    plan = {'on': False, 'n': 0, 'at': set(), 'err': None, 'hits': []}

    def hook(*where):
        t = threading.current_thread()
        if not plan['on'] or t is main or isinstance(t, fh.Sub):
            return
        plan['n'] += 1
        if plan['n'] in plan['at'] or plan['at'] == 'all':
            e = plan['err'] or rng.choice(errs)
            plan['hits'].append((type(e).__name__, where[:2]))
            raise e
    if case['kind'] == 'memory':
        b.w.storage.hook = hook
        real = b.w.storage.sequences.last

        def last(nsid):
            hook('last')
            if plan['on'] and threading.current_thread() is not main and rng.random() < .3:
                ctx.count('last_unknown')
                return None   # as when memcache has lost it
            return real(nsid)
        b.w.storage.sequences.last = last
    else:
        b.w.store.batch_size = rng.choice((1, 2, 3, 300))
        b.w.store.hook = lambda phase, rpc, req, info: hook(phase, rpc)
    hits = []
    for _ in range(rng.choice((3, 6))):
        kind = rng.choice(('one', 'one', 'burst', 'all'))
        plan.update(n=0, err=rng.choice(errs) if rng.random() < .7 else None, hits=[],
                    at='all' if kind == 'all' else {rng.randrange(1, 14)} if kind == 'one'
                    else set(rng.sample(range(1, 30), rng.randrange(2, 20))))
        plan['on'] = True
        flying = None
        if rng.random() < .4:   # something to wait for meanwhile
            flying = b.w.storage.sequences.allocate(SUBSCRIBE_REPOS_NSID)
        for _ in range(rng.choice((1, 2, 4))):
            b.make(rng.choice((1, 1, 2)))
            for _ in range(rng.choice((1, 3))):
                st.call(st.fh.send_events)
                if rng.random() < .7:
                    quiesce(st.threads, samples=4)
        if flying:
            with b.lock:
                b.lost.append(flying)
            st.callback(lost_seq=flying)
        quiesce(st.threads, samples=4)
        plan['on'] = False
        if plan['hits']:
            ctx.count('faults', len(plan['hits']))
            ctx.count('bursts', len(plan['hits']) > 1)
            hits += plan['hits']
            for h in plan['hits'][:4]:
                ctx.sig('fault', case['kind'], *h)
        before = len(subs[0][0].events)
        st.settle()
        ctx.count('recovered_events', len(subs[0][0].events) - before)
        # now everything has arrived
        alls = b.seqs()
        for s, c in subs:
            want = [q for q in alls if q > floor] if c is None else alls
            if not ctx.check(s.error is None and s.seqs() == want,
                             f'after faults {plan["hits"][-5:]}: cursor {c} got {s.seqs()[-20:]}, should be {want[-20:]}, {s.error!r}'):
                return
    late = st.sub(0)
    st.settle()
    subs.append((late, 0))
    ref = {}
    for s, c in subs:
        if not c11.judge(b, s, [q for q in b.seqs() if q > floor] if c is None else b.seqs(), ref, f'cursor {c}, faults {hits[-6:]}'):
            return
    c11.content(b, ref)
    ctx.sample({'mode': 'fault', 'backend': case['kind'], 'faults': hits[:6], 'events': len(b.seqs())})


def lost(b, case, ctx, rng):
    """The ndb context goes away while events are being read from the Datastore."""
    from google.cloud.ndb.exceptions import ContextError
    st = start(b, rng, ctx, rollback=rng.choice((2, 5, 50000)), preload=rng.choice((1, 2)))
    if not up(st, ctx):
        return
    for _ in range(rng.choice((0, 2, 4))):
        b.make(1)
        st.settle()
    main = threading.current_thread()
    b.w.store.batch_size = rng.choice((1, 1, 1, 2))
    plan = {'n': 0, 'at': set(rng.sample(range(1, 60), rng.choice((2, 6, 12, 24)))), 'hits': 0, 'mid': 0}

    def hook(phase, rpc, req, info):
        if threading.current_thread() is main or phase == 'after' or rpc != 'run_query':
            return
        plan['n'] += 1
        if plan['n'] in plan['at']:
            plan['hits'] += 1
            plan['mid'] += bool(req.query.start_cursor)
            raise ContextError()
    b.w.store.hook = hook
    subs = []
    for _ in range(rng.choice((1, 2, 3))):
        c = max(0, b.used() - st.fh.ROLLBACK_WINDOW + rng.randrange(1, 3)) if rng.random() < .8 else rng.randrange(
            max(0, b.used() - st.fh.ROLLBACK_WINDOW), b.used() + 1)
        subs.append((st.sub(c), c))
        if rng.random() < .5:
            st.settle()
    st.settle()
    for _ in range(rng.choice((0, 1, 3))):
        b.make(1)
        st.settle()
    b.w.store.hook = None
    st.settle()
    ctx.count('lost_contexts', plan['hits'])
    ctx.count('lost_mid_read', plan['mid'])
    ref = {}
    for s, c in subs:
        if not c11.judge(b, s, [q for q in b.seqs() if q >= c], ref,
                         f'cursor {c}, ndb context lost at queries {sorted(plan["at"])}, batches of {b.w.store.batch_size}'):
            return
    c11.content(b, ref)
    ctx.sig('lost', b.w.store.batch_size, sorted(plan['at'])[:3], [c for _, c in subs])
    ctx.sample({'mode': 'lost', 'batch': b.w.store.batch_size, 'lost': plan['hits'], 'mid_read': plan['mid'], 'events': len(b.seqs())})


class Leaver(fh.Sub):
    """Leaves at its n-th event, in one of several ways, when told to."""

    def __init__(self, cursor, n, how, wait=False):
        super().__init__(cursor)
        self.n, self.how = n, how
        self.go = threading.Event()
        self.at = threading.Event()
        if not wait:
            self.go.set()
        self.gone = threading.Event()

    def run(self):
        from arroba import xrpc_sync
        try:
            self.body(xrpc_sync.subscribe_repos(cursor=self.cursor))
        except Leave:
            pass
        except BaseException as e:
            import traceback
            self.tb = ''.join(traceback.format_exception(e))
            self.error = e
        self.gone.set()

    def body(self, gen):
        for event in gen:
            self.events.append(event)
            if len(self.events) >= self.n:
                self.at.set()
                self.go.wait()
                if self.how == 'close':
                    gen.close()
                elif self.how == 'throw':
                    gen.throw(Leave())
                elif self.how == 'drop':
                    del gen
                elif self.how == 'raise':
                    raise Leave()
                return


def leave(b, case, ctx, rng):
    from google.cloud.ndb import context as ndb_context
    R = 50000
    st = start(b, rng, ctx, rollback=R)
    if not up(st, ctx):
        return
    stay = [(st.sub(None), None), (st.sub(0), 0)]
    slow = fh.Sub(0)
    hold = threading.Event()
    slow.on_event = lambda s, e: hold.wait()
    slow.start()
    st.subs.append(slow)
    stay.append((slow, 0))
    ctx.count('slow_subscribers')
    st.settle()
    floor = b.used()
    budget = R - 1
    gone = []
    mine = ndb_context.get_context(raise_context_error=False)
    for _ in range(rng.choice((2, 4, 6))):
        c = rng.choice((0, 0, 0, max(b.seqs()), None))
        n = rng.randrange(1, 8)
        s = Leaver(c, n, rng.choice(('close', 'throw', 'drop', 'raise')))
        old = c == 0 and n < len(b.seqs())
        gone.append(s)
        s.start()
        quiesce([s])
        if s.gone.is_set():
            ctx.count('left_during_old' if old else 'left')
        # garbage of whoever left is collected in this thread now
        gc.collect()
        ctx.count('gc_checks')
        if not ctx.check(ndb_context.get_context(raise_context_error=False) is mine,
                         f'a subscriber that left ({s.how}, cursor {c}, after {n} events) changed the ndb context of another thread'):
            return
        k = rng.choice((0, 1, 2))
        if budget > k + 1:
            budget -= k + 1
            b.make(k)
            st.settle()
        ctx.sig('leave', case['kind'], s.how, c is None, n, old)
    if budget > 9:
        b.make(8)
    st.settle()
    left = [s for s in gone if s.gone.is_set()]
    ctx.count('left', len(left))
    for s in left:
        if not ctx.check(s.error is None, f'leaving ({s.how}) raised {s.error!r}'):
            return
    gc.collect()
    subscribers_left(b, ctx, len(stay) - 1 + sum(not s.gone.is_set() for s in gone), 'after some left')
    hold.set()
    st.settle()
    ref = {}
    for s, c in stay:
        if not c11.judge(b, s, [q for q in b.seqs() if q > floor] if c is None else b.seqs(), ref,
                         f'cursor {c}{" (slow)" if s is slow else ""}, others left: {[(s.cursor, s.n, s.how) for s in gone]}'):
            return
    for s in gone:
        want = [q for q in b.seqs() if q >= (s.cursor or 0)]
        if s.cursor is None:
            want = want[want.index(s.seqs()[0]):] if s.seqs() else []
        if not ctx.check(s.seqs() == want[:len(s.events)], f'{s.cursor}: before leaving got {s.seqs()}'):
            return
    c11.content(b, ref)
    ctx.sample({'mode': 'leave', 'backend': case['kind'], 'left': [(s.cursor, s.n, s.how) for s in gone], 'events': len(b.seqs())})


def gate(b, case, ctx, rng):
    """Subscribers leave and join while the collector is paused mid-way."""
    st = start(b, rng, ctx)
    g = fh.Gate(case['k'], os.path.join(lib.os_repo(), 'firehose.py'))
    g.armed = False
    st.gate_collector(g)
    t = st.start()
    while t.is_alive():
        t.join(.01)
        if t.is_alive() and quiesce(lambda: st.threads() + [t], samples=20) and t.is_alive():
            ctx.check(False, 'firehose did not start')
            return
    st.settle()
    floor = b.used()
    order = rng.sample(range(5), 5)
    stay, go = [], []
    for i in range(5):   # leavers and others in any order of registration
        if order[i] < 2:
            s = Leaver(0, len(b.seqs()) + 1, rng.choice(('close', 'throw', 'drop', 'raise')), wait=True)
            s.start()
            go.append(s)
        else:
            s = st.sub(rng.choice((None, 0)))
            stay.append((s, s.cursor))
        quiesce([s])
    # leavers take one live event first and then hang on it
    b.make(1)
    while b.seqs()[-1] <= floor:
        b.make(1)
    st.settle()
    ready = all(s.at.is_set() for s in go)
    if not ctx.check(ready, f'subscribers did not get event {b.seqs()[-1]}'):
        return
    g.armed = True
    n = rng.choice((1, 2, 3))
    for _ in range(n):
        b.make(1)
        quiesce(st.threads, samples=4)
    if not g.paused.is_set():
        b.make(2)
    st.settle()
    paused = g.paused.is_set()
    late = None
    for s in rng.sample(go, len(go)):
        s.go.set()
        quiesce([s])
        if paused:
            ctx.count('left_while_collector_paused')
    if rng.random() < .5:
        late = st.sub(0)
        stay.append((late, 0))
        quiesce([late])
    g.resume.set()
    st.settle()
    for s in go:
        s.gone.wait(30)
        if not ctx.check(s.error is None and s.gone.is_set(), f'leaving ({s.how}) while collector at {g.where}: {s.error!r}'):
            return
    b.make(3)
    st.settle()
    subscribers_left(b, ctx, len(stay), f'collector paused at {g.where}')
    ref = {}
    for s, c in stay:
        if not c11.judge(b, s, [q for q in b.seqs() if q > floor] if c is None else b.seqs(), ref,
                         f'cursor {c}, two left while collector was at {g.where}'):
            return
    c11.content(b, ref)
    ctx.count('left', len(go))
    ctx.sig('gate', g.where, order)
