"""C27: timestamp ids are unique, increasing and losslessly encoded."""
import string
import sys
import threading
from datetime import datetime, timedelta, timezone

from vp import lib, sched
from vp.env import VirtualClock

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: every id generated under clock faults, threads preempted at each bytecode, and free-running threads is logged and checked offline for form, '
             'uniqueness and order; codecs are compared with an independent decoder')
NOTE = 'Order between overlapping calls is free. Integers are 0 to 2**55-1, clock ids 0 to 1023. Naive datetimes are local time, in several time zones with and without DST.'
RULE = ('clock behaviours x preemption points x threads; boundary and random integers, clock ids and datetimes; strings with every wrong length and character. '
        'Distinct: (preemption point, clock behaviour), (codec, class).')
REQUIRED = ('ids', 'clock_stalled', 'clock_back', 'preempted', 'preempt_points', 'threads', 'free_ids', 'ints', 'datetimes', 'naive', 'fold', 'rejected', 'ordered', 'record_keys', 'far_times')
ISOLATE = True
CASE_TIMEOUT = 240
CHARS = '234567abcdefghijklmnopqrstuvwxyz'


def cases(tier, seed):
    q = tier == 'quick'
    out = [{'seed': f'{seed}.c{i}', 'mode': 'clock'} for i in range(24 if q else 400)]
    out += [{'seed': f'{seed}.p{i}', 'mode': 'preempt'} for i in range(12 if q else 200)]
    out += [{'seed': f'{seed}.t{i}', 'mode': 'threads'} for i in range(6 if q else 100)]
    out += [{'seed': f'{seed}.e{i}', 'mode': 'codec'} for i in range(24 if q else 400)]
    zones = ('UTC', 'America/New_York', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'Pacific/Apia', 'Europe/Dublin')
    out += [{'seed': f'{seed}.z{i}', 'mode': 'times', 'zone': zones[i % 6]} for i in range(24 if q else 400)]
    out += [{'seed': f'{seed}.r{i}', 'mode': 'records'} for i in range(4 if q else 40)]
    return out


def setup():
    lib.boot(REPO_TOKEN='towkin')
    from vp import web
    web.app()


def decode(tid):
    """Independent decoder. (timestamp, clock id)"""
    n = 0
    for c in tid:
        n = n << 5 | CHARS.index(c)
    return n >> 10, n & 1023


def valid(tid):
    return isinstance(tid, str) and len(tid) == 13 and set(tid) <= set(CHARS) and tid[0] in CHARS[:16]


class Clock:
    """A bad clock."""

    def __init__(self, rng, ctx):
        self.rng, self.ctx = rng, ctx
        self.v = VirtualClock(1_760_000_000 + rng.random()).install()
        self.ns = rng.randrange(10**18, 2 * 10**18)
        self.v.time_ns = lambda: self.ns
        import time
        time.time_ns = self.read
        time.time = lambda: self.ns / 1e9
        self.behave = rng.choice(('good', 'stalled', 'coarse', 'back', 'wild', 'far'))

    def read(self):
        r = self.rng
        if self.behave == 'good':
            self.ns += r.choice((1, 500, 1000, 10**6))
        elif self.behave == 'coarse' and r.random() < .1:
            self.ns += 15_600_000
        elif self.behave == 'back':
            self.ns += r.choice((1000, 1000, 2000, -5000, -10**9))
            self.ctx.count('clock_back')
        elif self.behave == 'wild':
            self.ns += r.choice((1, -1, 999, -999, 10**12, -10**12, 0))
            self.ns = max(10**15, self.ns)
            self.ctx.count('clock_back')
        elif self.behave == 'far':
            self.ns = r.choice((10**9, self.ns, self.ns + 1000, 3 * 10**18))
        else:
            self.ctx.count('clock_stalled')
        return self.ns


def clock(case, ctx):
    from arroba import util
    rng = lib.rng_of(case['seed'])
    c = Clock(rng, ctx)
    last, seen = '', set()
    for i in range(3000):
        if rng.random() < .002:
            c.behave = rng.choice(('good', 'stalled', 'coarse', 'back', 'wild', 'far'))
        before = c.ns
        tid = util.next_tid()
        ctx.count('ids')
        if not (ctx.check(valid(tid), f'invalid id {tid!r}') and ctx.check(tid > last, f'{tid} after {last}, clock {before} to {c.ns} ns') and ctx.check(tid not in seen, f'{tid} repeats')):
            return
        ts, _ = decode(tid)
        if not ctx.check(ts >= min(before, c.ns) // 1000, f'{tid} is for {ts} us, the clock was at {c.ns // 1000}'):
            return
        if c.behave == 'good' and i == 0 and not ctx.check(ts == c.ns // 1000, f'first id {tid} is for {ts} us, the clock is at {c.ns // 1000}'):
            return
        ctx.sig('clock', c.behave, ts == c.ns // 1000)
        last = tid
        seen.add(tid)
    ctx.sample({'clock': c.behave, 'last id': last, 'ids': len(seen)})


def preempt(case, ctx):
    """Thread A is stopped at every bytecode of the generator while B generates."""
    from arroba import util
    rng = lib.rng_of(case['seed'])
    c = Clock(rng, ctx)
    pre = sched.Preempt(util.__file__.rsplit('/', 1)[0], opcodes=True)
    n, _ = pre.count(util.next_tid)
    ctx.count('preempt_points', n)
    ks = range(1, n + 1) if n < 400 else rng.sample(range(1, n + 1), 400)
    for k in ks:
        c.behave = rng.choice(('good', 'stalled', 'stalled', 'back'))
        first = util.next_tid()
        (how_a, a), (how_b, b), info = pre.run(util.next_tid, k, lambda: [util.next_tid() for _ in range(rng.choice((1, 1, 3)))])
        after = util.next_tid()
        what = f'preempted at event {k} ({info.get("where")}), clock {c.behave}'
        if info.get('deadlock') or 'exc' in (how_a, how_b):
            ctx.check(False, f'{what}: {how_a} {a}, {how_b} {b}, {info}')
            return
        ctx.count('preempted', bool(info.get('hit')))
        ctx.sig('preempt', k, c.behave)
        every = [first, a, *b, after]
        if not (ctx.check(all(valid(t) for t in every), f'{what}: {every}') and ctx.check(len(set(every)) == len(every), f'{what}: repeats in {every}')
                and ctx.check([first] + b + [after] == sorted([first] + b + [after]) and first < a < after, f'{what}: not increasing: {first}, {a} and {b}, {after}')):
            return


def threads(case, ctx):
    from arroba import util
    rng = lib.rng_of(case['seed'])
    if rng.random() < .5:
        c = Clock(rng, ctx)
        c.behave = 'stalled'
    sys.setswitchinterval(1e-6)
    out, n = [], rng.choice((2, 4, 8))
    start = threading.Barrier(n)

    def run():
        mine = []
        start.wait()
        for _ in range(4000):
            mine.append(util.next_tid())
        out.append(mine)
    ts = [threading.Thread(target=run) for _ in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    every = [t for mine in out for t in mine]
    ctx.count('free_ids', len(every))
    ctx.count('threads', n)
    ctx.ran(len(every))
    ctx.sig('threads', n)
    ctx.check(len(out) == n, f'{n - len(out)} threads failed')
    ctx.check(all(valid(t) for t in every), 'invalid ids')
    ctx.check(len(set(every)) == len(every), f'{len(every) - len(set(every))} of {len(every)} ids repeat')
    ctx.check(all(a < b for mine in out for a, b in zip(mine, mine[1:])), 'ids do not increase within a thread')


def codec(case, ctx):
    from arroba import util
    rng = lib.rng_of(case['seed'])
    TOP = 2**55 - 1
    nums = [0, 1, 31, 32, 1023, 1024, 2**53 - 1, 2**53, 2**53 + 1, TOP, TOP - 1] + [32**i + d for i in range(1, 11) for d in (-1, 0, 1)]
    nums += [rng.randrange(2**rng.randrange(1, 56)) for _ in range(300)]
    for clock_id in [0, 1, 31, 32, 1023, None] + [rng.randrange(1024) for _ in range(4)]:
        got = {}
        for n in sorted(set(nums)):
            tid = util.int_to_tid(n, clock_id=clock_id)
            ctx.count('ints')
            if not (ctx.check(isinstance(tid, str) and len(tid) == 13 and set(tid) <= set(CHARS), f'{n} is {tid!r}')
                    and ctx.check(decode(tid)[0] == n, f'{n} with clock id {clock_id} is {tid}, which is {decode(tid)[0]}')
                    and ctx.check(util.tid_to_int(tid) == n, f'{n} with clock id {clock_id} is {tid}, decoded {util.tid_to_int(tid)}')
                    and ctx.check(util.tid_to_int(tid.encode()) == n, f'{tid} as bytes: {util.tid_to_int(tid.encode())}')):
                return
            got[n] = tid
        tids = [got[n] for n in sorted(got)]
        ctx.count('ordered', len(tids))
        if not ctx.check(tids == sorted(tids) and len(set(tids)) == len(tids), f'ids with clock id {clock_id} are not in the order of their numbers'):
            return
    ctx.sig('ints')
    n = rng.choice(nums)
    both = [util.int_to_tid(n, clock_id=c) for c in range(32)]
    ctx.check(len(set(both)) == 32, f'ids of {n} with clock ids 0 to 31 repeat: {both}')
    for n in nums:
        s = util.s32encode(n)
        if not ctx.check(util.s32decode(s) == n and len(s) <= 11, f's32 of {n} is {s!r}, decoded {util.s32decode(s)}'):
            return
    for n in (-1, -2**40, TOP + 1, 2**60, 2**64):
        try:
            tid = util.int_to_tid(n, clock_id=3)
        except (ValueError, AssertionError, OverflowError):
            ctx.count('rejected')
            continue
        ctx.check(False, f'{n}, which has no id, is {tid}')
    # strings
    for _ in range(200):
        tid = ''.join([rng.choice(CHARS[:16])] + [rng.choice(CHARS) for _ in range(12)])
        if not ctx.check(util.tid_to_int(tid) == decode(tid)[0], f'{tid}: {util.tid_to_int(tid)}'):
            return
        kind = rng.choice(('short', 'long', 'char', 'char', 'char', 'dashes', 'type'))
        bad = {'short': tid[:rng.randrange(13)], 'long': tid + rng.choice(('2', 'a', ' ', '\n', tid)), 'dashes': f'{tid[:4]}-{tid[4:7]}-{tid[7:11]}-{tid[11:]}',
               'type': rng.choice((None, 3, 3.5, [tid], list(tid), tuple(tid), {}))}.get(kind)
        if kind == 'char':
            i = rng.randrange(13)
            bad = tid[:i] + rng.choice('0189-_ ABCZ=.~\n\0éａ２') + tid[i + 1:]
        forms = [bad] + ([bad.encode()] if isinstance(bad, str) else [])
        for b in forms:
            for fn in (util.tid_to_int, util.tid_to_datetime):
                try:
                    got = fn(b)
                except ValueError:
                    ctx.count('rejected')
                    continue
                except Exception as e:
                    ctx.check(False, f'{fn.__name__}({b!r}) raised {type(e).__name__}: {e}, not ValueError')
                    return
                ctx.check(False, f'{fn.__name__}({b!r}) returned {got}')
                return
        ctx.sig('reject', kind)


def times(case, ctx):
    import os
    import time
    import zoneinfo
    os.environ['TZ'] = case['zone']
    time.tzset()
    zone = zoneinfo.ZoneInfo(case['zone'])
    from arroba import util
    rng = lib.rng_of(case['seed'])
    epoch = datetime(1970, 1, 1, tzinfo=timezone.utc)
    got = []
    for _ in range(600):
        us = rng.choice((rng.randrange(2**51), rng.randrange(2**32) * 1000, rng.randrange(2**51) // 10**6 * 10**6 + rng.choice((0, 1, 999_999, 500_000, 123_456)),
                         1_700_000_000_000_000 + rng.randrange(10**14), rng.randrange(2**55), 2**55 - 1 - rng.randrange(3)))
        ctx.count('far_times', us >= 2**53)
        utc = epoch + timedelta(microseconds=us)
        kind = rng.choice(('utc', 'offset', 'zone', 'naive', 'naive'))
        if kind == 'utc':
            dt = utc
        elif kind == 'offset':
            dt = utc.astimezone(timezone(timedelta(minutes=rng.randrange(-840, 840))))
        elif kind == 'zone':
            dt = utc.astimezone(zoneinfo.ZoneInfo(rng.choice(('Asia/Tokyo', 'Europe/London', 'America/St_Johns'))))
        else:
            if utc.year > 2036 or utc.year < 1971:
                continue
            if rng.random() < .3 and case['zone'] not in ('UTC', 'Asia/Kathmandu'):
                # near a change of the offset
                t = utc
                for step in (timedelta(days=20), timedelta(days=1), timedelta(hours=1), timedelta(minutes=10)):
                    while (t + step).astimezone(zone).utcoffset() == t.astimezone(zone).utcoffset() and t - utc < timedelta(days=400):
                        t += step
                t += timedelta(minutes=rng.randrange(-90, 90), microseconds=rng.randrange(10**6))
                utc = t
                us = (utc - epoch) // timedelta(microseconds=1)
            local = utc.astimezone(zone)
            ctx.count('fold', local.fold)
            dt = local.replace(tzinfo=None)
            ctx.count('naive')
        ctx.count('datetimes')
        clock_id = rng.choice((None, 0, 5, 31))
        tid = util.datetime_to_tid(dt, clock_id=clock_id)
        if not ctx.check(len(tid) == 13 and decode(tid)[0] == us, f'{dt!r} in {case["zone"]} is {tid}, {decode(tid)[0]} us instead of {us}'):
            return
        back = util.tid_to_datetime(tid)
        if not ctx.check(back == utc and back.tzinfo is not None and back.microsecond == utc.microsecond, f'{dt!r} is {tid}, decoded {back!r}'):
            return
        ctx.sig('times', case['zone'], kind)
        if clock_id == 5:
            got.append((us, tid))
    got.sort()
    ctx.check([t for _, t in got] == sorted(t for _, t in got), 'ids are not in the order of their times')
    try:
        tid = util.datetime_to_tid(epoch - timedelta(microseconds=1))
    except (ValueError, AssertionError, OverflowError):
        ctx.count('rejected')
    else:
        ctx.check(False, f'a time before 1970 is {tid}')


def records(case, ctx):
    """Keys of records that are created without one."""
    from vp import web
    rng = lib.rng_of(case['seed'])
    w = lib.World(rng.choice(('memory', 'datastore')))
    with w.ctx():
        lib.create_repo(w, 0)
    c = Clock(rng, ctx)
    last = ''
    for i in range(25):
        if rng.random() < .2:
            c.behave = rng.choice(('good', 'stalled', 'coarse', 'back', 'wild'))
        resp = web.post('com.atproto.repo.createRecord', {'repo': lib.did(0), 'collection': 'com.example.thing', 'record': {'$type': 'com.example.thing', 'i': i}},
                        headers={'Authorization': 'Bearer towkin'})
        if not ctx.check(resp.status == 200, f'createRecord: {resp}'):
            return
        rkey = resp.json['uri'].rsplit('/', 1)[1]
        ctx.count('record_keys')
        if not (ctx.check(valid(rkey), f'record key {rkey}') and ctx.check(rkey > last, f'record key {rkey} after {last}, clock {c.behave}')):
            return
        last = rkey


def run_case(case, ctx):
    {'clock': clock, 'preempt': preempt, 'threads': threads, 'codec': codec, 'times': times, 'records': records}[case['mode']](case, ctx)
