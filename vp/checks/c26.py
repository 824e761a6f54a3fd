"""C26: a lease is held by at most one holder at a time."""
import math
from datetime import datetime, timedelta, timezone

from vp import fakemc, lib, sched
from vp.env import VirtualClock

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: at every step of controlled schedules of real Lease objects over memcache clients, counts the holders that have acquired, not released, and not '
             'reached their expires_at; sequential histories are compared with a model')
NOTE = ('Threads are stepped at every memcache operation and sleep, with a virtual clock that moves between any two steps. memcached is the fake with '
        'whole-second clock ticks (expiry up to a second early), absolute expirations over 30 days, and exact ticks. Evictions are excluded.')
RULE = ('random and PCT schedules of acquire, work, release, failure and crash by 2-5 holders x expirations from milliseconds to years x retries and delays x clock steps; '
        'sequential histories with probes. Distinct: (operation, state, outcome, expiration class).')
REQUIRED = ('steps', 'acquired', 'gave_up', 'released', 'expired', 'crashed', 'late_release', 'late_release_taken', 'raised_inside', 'waited', 'other_key', 'exact_attempts',
            'freed_while_waiting', 'fractional', 'over_30_days', 'schedules', 'release_race')
ISOLATE = True
CASE_TIMEOUT = 240
SLACK = 3     # seconds after expires_at by which a lease must be free


def cases(tier, seed):
    q = tier == 'quick'
    out = [{'seed': f'{seed}.{i}', 'mode': 'schedule'} for i in range(2000 if q else 12000)]
    out += [{'seed': f'{seed}.s{i}', 'mode': 'seq'} for i in range(400 if q else 1500)]
    out += [{'seed': f'{seed}.a{i}', 'mode': 'attempts'} for i in range(24 if q else 200)]
    out += [{'seed': f'{seed}.r', 'mode': 'race'}]
    return out


def setup():
    lib.boot()
    import arroba.memcache  # noqa


class World:
    def __init__(self, rng, ticks=None):
        import webutil.util
        self.clock = VirtualClock(1_760_000_000 + rng.random() * 10).install()
        webutil.util.now = lambda tz=timezone.utc, **_: datetime.fromtimestamp(self.clock.now, tz or timezone.utc)
        phase = rng.random()
        ticks = rng.random() < .7 if ticks is None else ticks
        self.server = fakemc.Server((lambda: math.floor(self.clock.now + phase)) if ticks else self.clock.time)

    def client(self, rng):
        return self.server.client(default_noreply=rng.random() < .5)

    def at(self, lease):
        return lease.expires_at.timestamp()


def expiration(rng):
    return rng.choice((.05, .3, .999, 1, 1, 1.5, 2, 2.999, 5, 10.1, 60, 300, 30 * 86400 - 1, 30 * 86400, 31 * 86400, 400 * 86400))


def count_exp(ctx, exp):
    ctx.count('fractional', exp != int(exp))
    ctx.count('over_30_days', exp > 30 * 86400)


def schedule(case, ctx):
    from arroba.memcache import Lease
    rng = lib.rng_of(case['seed'])
    w = World(rng)
    names = [f't{i}' for i in range(rng.choice((2, 2, 3, 3, 5)))]
    keys = rng.choice((['k'], ['k'], ['k', 'k2']))
    base = expiration(rng)
    shared = w.client(rng)
    wake, believed, releasing = {}, {}, {}
    bad, ends = [], []

    def look(where):
        ctx.count('steps')
        now = w.clock.now
        for key in keys:
            held = [n for n, (l, k, start, exp) in believed.items() if k == key and now <= w.at(l)]
            if len(held) > 1 and not bad:
                bad.append(f'{where}: {held} all hold {key} at {now:.3f}: ' + ', '.join(
                    f'{n} acquired {believed[n][2]:.3f} for {believed[n][3]} s until {w.at(believed[n][0]):.3f}' for n in held))

    pick = sched.pct(rng, names, 120, rng.choice((2, 3, 5))) if rng.random() < .5 else sched.uniform(rng)

    def limit():
        """Time may not pass this: a release that has found itself in time isn't done yet."""
        return min(releasing.values(), default=float('inf'))

    def choose(ready, step):
        look('step')
        if rng.random() < .35:
            more = rng.choice((.01, .1, .4, .7, 1, base / 2, base, base * 1.01, base + 1))
            w.clock.now = max(w.clock.now, min(w.clock.now + more, limit()))
            look('later')
        able = [n for n in ready if wake.get(n, 0) <= limit()]
        n = pick(able, step)
        if n in wake:
            w.clock.now = max(w.clock.now, wake.pop(n))
            look('woken')
        return n
    stepper = sched.Stepper(choose)

    def hook(phase, op, key, res):
        stepper.hook(f'{phase} {op}')
    w.server.hook = hook

    def sleep(secs):
        import threading
        ctx.count('waited')
        name = stepper.names[threading.current_thread()]
        wake[name] = w.clock.now + secs
        stepper.hook('sleep')
    w.clock.on_sleep = sleep

    def holder(name):
        crng = lib.rng_of(f'{case["seed"]}.{name}')
        plans = []
        for _ in range(crng.choice((1, 2, 3))):
            plans.append((crng.choice(keys), crng.choice((base, base, expiration(crng))), crng.choice((0, 1, 3, 6)), crng.choice((.1, 1, 5, base)),
                          crng.choice(('release', 'release', 'with', 'raise', 'crash', 'late')), crng.randrange(4)))
        client = shared if crng.random() < .3 else w.client(crng)

        def work(n, lease):
            for _ in range(n):
                stepper.hook('work')

        def run():
            for key, exp, retries, delay, how, n in plans:
                lease = Lease(client, key, expiration=timedelta(seconds=exp), retries=retries, initial_retry_delay=timedelta(seconds=delay))
                start = w.clock.now
                count_exp(ctx, exp)
                try:
                    lease.acquire() if how in ('release', 'crash', 'late') else lease.__enter__()
                except RuntimeError:
                    ctx.count('gave_up')
                    continue
                ctx.count('acquired')
                end = w.clock.now
                believed[name] = lease, key, end, exp
                ends.append(end + exp)
                if not start + exp - .01 <= w.at(lease) <= end + exp + .01:
                    bad.append(f'{name}: acquired for {exp} s between {start:.3f} and {end:.3f}, but expires_at is {w.at(lease):.3f}')
                look(f'{name} acquired')
                work(n, lease)
                if how == 'crash':
                    ctx.count('crashed')
                    return
                if how == 'late':
                    wake[name] = w.at(lease) + crng.choice((.001, .5, 10))
                    stepper.hook('sleep')
                late = w.clock.now > w.at(lease)
                ctx.count('late_release' if late else 'released')
                believed.pop(name)
                if not late:
                    releasing[name] = w.at(lease)
                try:
                    if how == 'raise':
                        try:
                            res = lease.__exit__(KeyError, KeyError('x'), None)
                        finally:
                            ctx.count('raised_inside')
                        if res:
                            bad.append('leaving a with block swallows the exception')
                    elif how == 'with':
                        lease.__exit__(None, None, None)
                    else:
                        lease.release()
                finally:
                    releasing.pop(name, None)
        return run

    res = stepper.run({n: holder(n) for n in names})
    for n, (how, v) in res.items():
        if how == 'exc':
            raise v
    ctx.count('schedules')
    ctx.sig(tuple(stepper.trace))
    ctx.ran(len(stepper.trace))
    if not ctx.check(not bad, bad and bad[0]):
        return
    # everything is free in the end
    last = max(ends, default=0)
    w.server.hook = None
    w.clock.now = max(w.clock.now, last + SLACK)
    for key in keys:
        try:
            Lease(shared, key, retries=0).acquire()
        except RuntimeError as e:
            ctx.check(False, f'all leases on {key} were released or have expired {w.clock.now - last:.1f} s ago, but: {e}')


def seq(case, ctx):
    """One operation after the other, compared with a model."""
    from arroba.memcache import Lease
    rng = lib.rng_of(case['seed'])
    w = World(rng)
    w.clock.on_sleep = lambda secs: w.clock.advance(secs)
    keys = ['a', 'b', 'a' * 240]
    owner = {}     # key -> Lease
    open_ = []     # acquired, not released
    base = expiration(rng)

    def state(key):
        if key not in owner:
            return 'free'
        late = w.clock.now - w.at(owner[key])
        return 'held' if late <= 0 else 'either' if late < SLACK else 'free'

    for step in range(60):
        op = rng.choice(('acquire', 'acquire', 'acquire', 'release', 'release', 'tick'))
        if op == 'tick':
            w.clock.advance(rng.choice((.01, .5, 1, 3, base, base / 3, base + SLACK)))
            continue
        if op == 'acquire':
            key, exp = rng.choice(keys), rng.choice((base, expiration(rng)))
            lease = Lease(w.client(rng), key, expiration=timedelta(seconds=exp), retries=0)
            before, old = state(key), owner.get(key)
            count_exp(ctx, exp)
            try:
                lease.acquire()
                got = True
            except RuntimeError:
                got = False
            what = f'step {step}: acquire {key[:9]} for {exp} s at {w.clock.now:.3f}, {before}' + (f' until {w.at(old):.3f}' if old else '')
            ctx.sig('acquire', before, got, int(exp))
            if not ctx.check(before == 'either' or got == (before == 'free'), f'{what}: {"granted" if got else "refused"}'):
                return
            if got:
                ctx.count('acquired')
                ctx.count('expired', before == 'free' and old is not None)
                if not ctx.check(abs(w.at(lease) - w.clock.now - exp) < 1e-3, f'{what}: expires_at {w.at(lease):.3f}'):
                    return
                owner[key] = lease
                open_.append((key, lease))
                ctx.count('other_key', len([k for k in keys if state(k) == 'held']) > 1)
            else:
                ctx.count('gave_up')
                if not ctx.check(lease.expires_at is None, f'{what}: refused, but expires_at is set'):
                    return
        elif open_:
            key, lease = open_.pop(rng.randrange(len(open_)))
            late = w.clock.now > w.at(lease)
            mine = owner.get(key) is lease
            lease.release()
            if mine and not late:
                ctx.count('released')
                owner.pop(key)
            elif late:
                ctx.count('late_release')
                ctx.count('late_release_taken', not mine)
            ctx.sig('release', late, mine)
            # a late release doesn't change anything, one in time frees it
    ctx.sample({'expiration': base, 'held at the end': [(k[:9], state(k)) for k in keys]})


def attempts(case, ctx):
    """How often and how long it tries."""
    from arroba.memcache import Lease
    rng = lib.rng_of(case['seed'])
    w = World(rng)
    for retries in range(0, 9):
        for free_at in [None] + list(range(1, retries + 2)):
            w.server.flush()
            delay = rng.choice((.05, 1, 5))
            first = Lease(w.client(rng), 'k', expiration=timedelta(days=10))
            first.acquire()
            slept = []

            def sleep(secs):
                slept.append(secs)
                w.clock.advance(secs)
                if len(slept) == free_at:
                    first.release()
            w.clock.on_sleep = sleep
            w.server.log.clear()
            second = Lease(w.client(rng), 'k', expiration=timedelta(seconds=60), retries=retries, initial_retry_delay=timedelta(seconds=delay))
            try:
                second.acquire()
                got = True
            except RuntimeError:
                got = False
            tries = len([1 for op, key, res in w.server.log if op == 'add'])
            what = f'{retries} retries, freed during sleep {free_at}'
            ctx.sig('attempts', retries, free_at)
            if free_at and free_at <= retries:
                ctx.count('freed_while_waiting')
                if not ctx.check(got and len(slept) == free_at, f'{what}: {"got it" if got else "gave up"} after {len(slept)} sleeps'):
                    return
                second.release()
            else:
                ctx.count('exact_attempts')
                if not (ctx.check(not got, f'{what}: got it though it is taken') and ctx.check(len(slept) == retries, f'{what}: {len(slept)} sleeps')
                        and ctx.check(tries in (0, retries + 1), f'{what}: {tries} attempts')):
                    return
                if not ctx.check(second.expires_at is None, f'{what}: expires_at set after giving up'):
                    return
            if not ctx.check(all(s >= delay for s in slept), f'{what}: slept {slept}, less than {delay}'):
                return
    # a block that raises
    w.server.flush()
    try:
        with Lease(w.client(rng), 'k'):
            raise KeyError('mine')
    except KeyError:
        ctx.count('raised_inside')
    else:
        ctx.check(False, 'a with block swallows the exception')
    Lease(w.client(rng), 'k', retries=0).acquire()
    try:
        with Lease(w.client(rng), 'k', retries=0):
            ctx.check(False, 'a with block runs without the lease')
    except RuntimeError:
        pass
    got = Lease(w.client(rng), 'other', retries=0)
    got.acquire()
    ctx.count('other_key')


def race(case, ctx):
    """A release that starts in time, but reaches memcached after the lease has expired and someone else has it."""
    from arroba.memcache import Lease
    rng = lib.rng_of(case['seed'])
    w = World(rng, ticks=False)
    one, two, three = (Lease(w.client(rng), 'k', expiration=timedelta(seconds=10), retries=0) for _ in range(3))
    one.acquire()
    w.clock.advance(9.9)
    state = {}

    def hook(phase, op, key, res):
        if phase == 'before' and not state:
            state['once'] = True
            w.clock.advance(SLACK)
            two.acquire()
    w.server.hook = hook
    one.release()
    w.server.hook = None
    ctx.count('release_race', bool(state))
    if not state:
        return
    try:
        three.acquire()
    except RuntimeError:
        return
    ctx.check(False, 'a release delayed past expiry freed the next holder\'s lease, a third one has acquired it', key='release-race')


def run_case(case, ctx):
    {'schedule': schedule, 'seq': seq, 'attempts': attempts, 'race': race}[case['mode']](case, ctx)
