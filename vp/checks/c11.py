"""C11: every subscriber gets every event exactly once, in order."""
import json
import os
import random
import sys
import threading
import time

from vp import cario, fh, lib
from vp.evcheck import Consumer
from vp.sched import Inconclusive, blocked, quiesce

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: exactly-once/order/content checker over every event real subscribers received, with threads paused '
             'at chosen lines of the stream code, stress on committing threads, and forked restarts')
NOTE = ('Each subscription is judged against the commits and events the server reported making. Pauses cover every executed line of '
        'the subscriber and collector code for short histories, one or two at a time; deeper interleavings are sampled. Excluded: a '
        'subscriber so slow that the whole retained window is replaced while it is still starting. Fake Datastore.')
ISOLATE = True
CASE_TIMEOUT = 150
RULE = ('histories of commits, account events and failed commits; server started with rollback and preload windows of many sizes; '
        'subscribers with any cursor in the window or none are paused at the k-th line of the stream code while commits, other '
        'subscribers and the collector go on, or the collector is paused while subscribers start; on the fake Datastore several '
        'threads commit at once under small switch intervals and RPC delays while subscribers join; then the server restarts (fork) '
        'and old and new streams are compared. Distinct: (mode, backend, windows, cursor kind, pause point).')
REQUIRED = ('subscriptions', 'events_received', 'paused_subscribers', 'paused_collector', 'commits_while_paused', 'pre_rollback',
            'live_events', 'no_cursor', 'restarts', 'restart_compared', 'account_events', 'lost_seqs', 'stress_commits',
            'out_of_order_visible', 'consumed', 'empty_window')

SUBK = 130     # lines a subscriber executes at most, in the histories used
COLK = 220
LIVEK = 100    # lines the collector executes for the first few new events, past start up
STARTUP = ('run', 'start', '__init__', 'process_event', '_prev', '<genexpr>', '<listcomp>')


def cases(tier, seed):
    quick = tier == 'quick'
    out = []
    r = random.Random(f'{seed}.c11')
    for rep in range(1 if quick else 12):
        for k in range(1, SUBK):
            out.append({'mode': 'sub', 'k': k, 'seed': f'{seed}.{rep}.s{k}'})
        for k in range(1, COLK):
            if not quick or k % 3 == 0:
                out.append({'mode': 'coll', 'k': k, 'seed': f'{seed}.{rep}.c{k}'})
        for k in range(1, LIVEK):
            for j in 'ab':
                out.append({'mode': 'coll', 'live': True, 'k': k, 'seed': f'{seed}.{rep}.{j}{k}'})
    for i in range(250 if quick else 6000):
        out.append({'mode': 'two', 'k': r.randrange(1, 90), 'k2': r.randrange(1, 90), 'seed': f'{seed}.t{i}'})
    for i in range(16 if quick else 400):
        out.append({'mode': 'stress', 'seed': f'{seed}.x{i}'})
    for i in range(8):
        out.append({'mode': 'empty', 'seed': f'{seed}.e{i}'})
    if os.environ.get('VP_ONLY'):   # for debugging
        out = [c for c in out if c['mode'] == os.environ['VP_ONLY']] * 10
    for i, c in enumerate(out):
        c['kind'] = 'datastore' if c['mode'] == 'stress' or i % 7 == 0 else 'memory'
    r.shuffle(out)
    return out


def setup():
    lib.boot()


class Bench:
    """A server process's repos and their reported history."""

    def __init__(self, case, ctx, rng):
        self.case, self.ctx, self.rng = case, ctx, rng
        self.w = lib.World(case['kind'])
        self.made, self.events, self.lost, self.order = {}, {}, [], []
        self.stream = None
        self.repos = {}
        self.lock = threading.Lock()

    def callback(self, data=None, lost_seq=None):
        with self.lock:
            if isinstance(data, dict):
                self.events[data['seq']] = data
                self.order.append(data['seq'])
            elif data is not None:
                self.made[data.commit.seq] = data
                self.order.append(data.commit.seq)
            if lost_seq:
                self.lost.append(lost_seq)
        if self.stream:
            self.stream.callback(data=data, lost_seq=lost_seq)

    def create(self, n):
        universe = lib.key_universe(self.rng, 12)
        for i in range(n):
            self.repos[i] = lib.create_repo(self.w, i, callback=self.callback)
        self.mix = lib.Mix(self.rng, self.repos, universe, sizes=(1, 1, 1, 2))

    def seqs(self):
        return sorted(set(self.made) | set(self.events))

    def act(self):
        """One change, by one of the repos."""
        rng = self.rng
        i = rng.choice(list(self.repos))
        repo = self.repos[i]
        r = rng.random()
        if repo.status:
            self.w.storage.activate_repo(repo)
        elif r < .1:
            self.w.storage.deactivate_repo(repo)
        elif r < .16:
            self.w.storage.write_event(repo=repo, type='identity', handle=repo.handle)
        else:
            ws, new, kind = self.mix.next(i)
            try:
                self.w.storage.commit(repo, ws)
            except Exception:
                if new is not None:
                    raise
                return
            if new is not None:
                self.mix.done(i, new)

    def make(self, n):
        """Goes on until n more sequence numbers have been used or lost."""
        goal = len(self.seqs()) + len(self.lost) + n
        while len(self.seqs()) + len(self.lost) < goal:
            self.act()

    def used(self):
        return len(self.seqs()) + len(self.lost)


def judge(b, sub, want, ref, what):
    """sub must have received exactly the events numbered want."""
    ctx = b.ctx
    ctx.count('subscriptions')
    ctx.count('events_received', len(sub.events))
    if not ctx.check(sub.error is None, f'{what}: subscription died: {sub.error!r} {sub.tb[-1500:]}'):
        return False
    if not ctx.check(not sub.ended, f'{what}: subscription ended'):
        return False
    for h, p in sub.events:
        if not ctx.check(h.get('op') == 1 and h.get('t') != '#info' and isinstance(p.get('seq'), int),
                         f'{what}: unexpected frame {h} {str(p)[:200]}'):
            return False
    got = sub.seqs()
    if not ctx.check(got == want, f'{what}: got {got}, should be {want}'):
        return False
    for e in sub.events:
        s = e[1]['seq']
        if s in ref:
            if not ctx.check(fh.same(ref[s], e), f'{what}: event {s} has other content than another subscriber got'):
                return False
        else:
            ref[s] = e
    return True


def content(b, ref):
    """Events are what was reported as done; then, from the start, consume them."""
    ctx = b.ctx
    cons = Consumer(ctx.check)
    whole = list(ref) and sorted(ref) == b.seqs()
    for s in sorted(ref):
        h, p = ref[s]
        if s in b.events:
            src = {k: v for k, v in cario.plain(b.events[s]).items() if k != '$type'}
            typ = b.events[s]['$type'].rpartition('#')[2]
            if not ctx.check(h == {'op': 1, 't': f'#{typ}'} and cario.plain(p) == src,
                             f'event {s}: {h} {p}, written as {b.events[s]}'):
                return
            ctx.count('account_events')
        else:
            cd = b.made[s]
            if not ctx.check(h == {'op': 1, 't': '#commit'} and bytes(p['commit']) == bytes(cd.commit.cid)
                             and p['repo'] == cd.commit.decoded['did'],
                             f'event {s} is not the commit made with this number'):
                return
            if whole:
                if not cons.feed(h, p, expect=cd):
                    return
                ctx.count('consumed')


def restart(b, ref, rng):
    """A new server process over the same storage; compares what it streams."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = []
        try:
            os.close(r)
            sys.settrace(None)
            threading.settrace(None)
            st = fh.Stream(rollback=50000, preload=rng.choice((1, 3, 50000)))
            b.stream = st
            if not st.start():
                out.append('restarted firehose did not start')
            else:
                sub = st.sub(rng.choice((0, 1)))
                st.settle()
                got = sub.seqs()
                if sub.error or sub.ended:
                    out.append(f'subscription after restart ended: {sub.error!r}')
                elif got != b.seqs():
                    out.append(f'after restart got {got}, should be {b.seqs()}')
                else:
                    for e in sub.events:
                        s = e[1]['seq']
                        if s in ref and not fh.same(ref[s], e):
                            out.append(f'event {s} has other content after restart')
                    out.append(sum(e[1]['seq'] in ref for e in sub.events))
        except Inconclusive as e:
            out.append({'inconclusive': str(e)})
        except BaseException as e:
            import traceback
            out.append('restart: ' + ''.join(traceback.format_exception(e))[-1500:])
        finally:
            with os.fdopen(w, 'w') as f:
                json.dump(out, f)
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Inconclusive('restarted child died')
    b.ctx.count('restarts')
    for o in json.loads(data):
        if isinstance(o, int):
            b.ctx.ran(o)
            b.ctx.count('restart_compared', o)
        elif isinstance(o, dict):
            raise Inconclusive(o['inconclusive'])
        else:
            b.ctx.check(False, o)


def wait_setup(b, sub, gate):
    """Until sub is paused at its gate, or asleep."""
    for _ in range(20000):
        if gate and gate.paused.is_set():
            return True
        if blocked([sub], samples=5):
            return bool(gate and gate.paused.is_set())
        if not sub.is_alive():
            return False
    raise Inconclusive('subscriber neither paused nor asleep')


def run_case(case, ctx):
    rng = lib.rng_of(case['seed'])
    b = Bench(case, ctx, rng)
    with b.w.ctx():
        if case['mode'] == 'stress':
            stress(b, case, ctx, rng)
        elif case['mode'] == 'empty':
            empty(b, case, ctx, rng)
        else:
            paused(b, case, ctx, rng)


def pick_cursor(b, rng, R):
    """None or an allocated number in the retained window."""
    last = b.used()
    lo = max(last - R + 1, 0)
    kind = rng.choice(('none', 'old', 'old', 'any', 'any', 'any', 'last'))
    if kind == 'none':
        return None
    if kind == 'old':
        return min(lo + rng.randrange(2), last)
    if kind == 'last':
        return last
    return rng.randrange(lo, last + 1)


def paused(b, case, ctx, rng):
    R = rng.choice((3, 4, 6, 12, 50000, 50000))
    P = rng.choice((1, 2, 3, 5, 50000))
    n0 = rng.choice((3, 6, 10))
    b.create(rng.choice((1, 1, 2)))
    b.make(max(0, n0 - b.used()))
    if b.used() - 1 in b.lost or b.used() in b.lost:
        b.act()   # keep something to preload
    while not [s for s in b.seqs() if s > b.used() - P]:
        b.act()
    st = b.stream = fh.Stream(rollback=R, preload=P)
    for q in b.lost:
        st.callback(lost_seq=q)
    ref = {}
    prefix = os.path.join(lib.os_repo(), 'firehose.py')
    budget = min(R - 1, 6)
    subs = []   # (sub, cursor, floor, emitted before)
    cgate = None

    if case['mode'] == 'coll':
        cgate = fh.Gate(case['k'], prefix, STARTUP if case.get('live') else ())
        st.gate_collector(cgate)
    first = st.start()
    if cgate:
        threads = lambda: st.threads() + [first]
        for _ in range(100):
            if not quiesce(threads, samples=6):
                raise Inconclusive('start')
            if not first.is_alive() or cgate.paused.is_set():
                break
        else:
            raise Inconclusive('start')
    elif not ctx.check(first, 'firehose did not start'):
        return
    if cgate and not cgate.paused.is_set():
        # not during start up; on the next events then
        if rng.random() < .5:
            s = st.sub(0 if R == 50000 else b.used())
            st.settle()
            s.expect_from = 0 if R == 50000 else b.used()
            subs.append((s, s.expect_from))
        n = rng.randrange(1, budget + 1)
        for _ in range(n):
            b.make(1)
            budget -= 1
            st.call(st.fh.send_events)
            quiesce(st.threads, samples=6)
            if cgate.paused.is_set():
                break

    ks = [case['k']] if case['mode'] == 'sub' else [case['k'], case['k2']] if case['mode'] == 'two' else [None] * 2
    gates = []
    extra = []
    for k in ks:
        c = pick_cursor(b, rng, R)
        g = fh.Gate(k, prefix) if k else None
        floor = b.used() if not any(g.paused.is_set() for g, _ in gates) else 0   # all emitted?
        s = st.sub(c, gate=g)
        if g:
            gates.append((g, s))
            if wait_setup(b, s, g):
                ctx.count('paused_subscribers')
                s.at = g.where
        else:
            quiesce([s])
        subs.append((s, c))
        if c is None:
            ctx.count('no_cursor')
            s.floor = floor
        if budget and rng.random() < .6:
            n = rng.randrange(1, budget + 1)
            budget -= n
            b.make(n)
            st.settle()
            if g and g.paused.is_set() or cgate and cgate.paused.is_set():
                ctx.count('commits_while_paused', n)
    if budget and rng.random() < .8:
        n = rng.randrange(1, budget + 1)
        budget -= n
        b.make(n)
        st.settle()
        ctx.count('commits_while_paused', n)
    if rng.random() < .5 and not cgate:   # someone else comes meanwhile
        c = pick_cursor(b, rng, R)
        s = st.sub(c)
        s.floor = 0
        st.settle()
        subs.append((s, c))
    if cgate:
        if cgate.paused.is_set():
            ctx.count('paused_collector')
        cgate.resume.set()
        st.settle()
    rng.shuffle(gates)
    for g, s in gates:
        g.resume.set()
        st.settle()
        if budget and rng.random() < .3:
            budget -= 1
            b.make(1)
            st.settle()
    ready = b.used()
    for s, _ in subs:
        s.before = len(s.events)
    for _ in range(rng.randrange(1, 6)):
        b.make(rng.choice((1, 1, 2, 3)))
        if rng.random() < .7:
            st.settle()
    st.settle()
    # one more that reads everything still retained
    last = b.used()
    c = max(last - R + 1, 0)
    s = st.sub(c)
    st.settle()
    s.before = len(s.events)
    subs.append((s, c))

    allseqs = b.seqs()
    ctx.count('lost_seqs', len(b.lost))
    for s, c in subs:
        ctx.count('live_events', max(0, len(s.events) - s.before))
        where = f'cursor {c}, rollback {R}, preload {P}' + (f', paused at {s.at}' if getattr(s, 'at', None) else '')
        if cgate:
            where += f', collector paused at {cgate.where}'
        if c is None:
            got = s.seqs()
            want = [q for q in allseqs if q >= (got[0] if got else last + 1)]
            if not judge(b, s, want, ref, where):
                return
            # everything that came after the subscription was in place; nothing emitted before it began
            if not ctx.check(all(q in got for q in allseqs if q > ready),
                             f'{where}: misses events made after it had subscribed: {got}'):
                return
            if not cgate and not ctx.check(all(q > s.floor for q in got),
                                           f'{where}: got {got}, but events up to {s.floor} were emitted before it subscribed'):
                return
        else:
            if not judge(b, s, [q for q in allseqs if q >= c], ref, where):
                return
    content(b, ref)
    if P < n0 and any(c is not None and c <= n0 - P for _, c in subs):
        ctx.count('pre_rollback')
    if rng.random() < .3:
        restart(b, ref, rng)
    ctx.sig(case['mode'], case['kind'], min(R, 99), min(P, 99), [getattr(s, 'at', None) for s, _ in subs],
            cgate and cgate.where)
    ctx.sample({'mode': case['mode'], 'backend': case['kind'], 'rollback': R, 'preload': P, 'subscribers': len(subs),
                'paused_at': [g.where for g, _ in gates] + [cgate.where if cgate else None], 'seqs': len(allseqs),
                'lost': len(b.lost)})


def empty(b, case, ctx, rng):
    """Nothing preloaded: either nothing retained in memory, or only lost numbers."""
    from arroba.storage import SUBSCRIBE_REPOS_NSID
    ctx.count('empty_window')
    b.create(1)
    b.make(4)
    P = rng.choice((0, 1, 2))
    for _ in range(P):
        b.lost.append(b.w.storage.sequences.allocate(SUBSCRIBE_REPOS_NSID))
    st = b.stream = fh.Stream(rollback=rng.choice((20, 50000)), preload=P)
    for q in b.lost:
        st.callback(lost_seq=q)
    if not ctx.check(st.start(), 'firehose did not start'):
        return
    ref = {}
    floor = b.used()
    subs = [(st.sub(c), c) for c in (0, 2, rng.randrange(1, b.used() + 1), None)]
    st.settle()
    b.make(3)
    st.settle()
    more = [(st.sub(c), c) for c in (1, b.used())]
    st.settle()
    b.make(2)
    st.settle()
    for s, c in subs + more:
        if not judge(b, s, [q for q in b.seqs() if q >= (floor + 1 if c is None else c)], ref,
                     f'cursor {c}, preload {P}, nothing in memory'):
            return
    content(b, ref)
    ctx.sig('empty', case['kind'], P)


def stress(b, case, ctx, rng):
    """Threads commit to their own repos while subscribers come and go."""
    n = rng.choice((2, 3, 4))
    b.create(n)
    b.make(rng.choice((0, 5)))
    P = rng.choice((1, 3, 50000))
    while not [s for s in b.seqs() if s > b.used() - P]:
        b.act()
    st = b.stream = fh.Stream(rollback=50000, preload=P)
    for q in b.lost:
        st.callback(lost_seq=q)
    if not ctx.check(st.start(), 'firehose did not start'):
        return
    sys.setswitchinterval(rng.choice((1e-5, 1e-4, 5e-3)))
    slow = rng.choice((0, 0, .001, .004))
    delays = random.Random(case['seed'])

    def hook(phase, rpc, req, info):
        if slow and delays.random() < .3:
            time.sleep(delays.random() * slow)
    b.w.store.hook = hook
    errors = []
    per = rng.choice((4, 8))
    start = b.used()
    for i in b.repos:
        if b.repos[i].status:
            b.w.storage.activate_repo(b.repos[i])

    def committer(i):
        r = lib.rng_of(case['seed'], i)
        mix = lib.Mix(r, [i], b.mix.universe, sizes=(1, 2))
        mix.contents[i] = b.mix.contents[i]
        with b.w.client.context(cache_policy=lambda key: False):
            repo = b.w.storage.load_repo(lib.did(i))
            repo.callback = b.callback
            for _ in range(per):
                try:
                    x = r.random()
                    if x < .1:
                        b.w.storage.write_event(repo=repo, type='identity', handle=repo.handle)
                        continue
                    ws, new, kind = mix.next(i)
                    try:
                        b.w.storage.commit(repo, ws)
                    except Exception:
                        if new is not None:
                            raise
                    else:
                        if new is not None:
                            mix.done(i, new)
                except BaseException as e:
                    errors.append(e)
                    return

    ts = [threading.Thread(target=committer, args=(i,), daemon=True, name=f'committer-{i}') for i in b.repos]
    for t in ts:
        t.start()
    subs = []
    while any(t.is_alive() for t in ts):
        time.sleep(rng.random() * .01)
        if len(subs) < 8:
            done = b.seqs()
            c = rng.choice((None, 0, rng.choice(done), done[-1]))
            take = rng.choice((None, None, None, rng.randrange(1, 6)))
            subs.append((st.sub(c, take=take), c))
        if rng.random() < .3:
            st.fh.send_events()
    for t in ts:
        t.join()
    b.w.store.hook = None
    sys.setswitchinterval(5e-3)
    st.settle()
    if errors:
        e = errors[0]
        # contention that outlasts the retries is not this property's
        if type(e).__name__ not in ('Aborted', 'RetryError'):
            raise e
        ctx.count('contention')
        return
    ready = b.used()
    ctx.count('stress_commits', ready - start)
    ctx.count('out_of_order_visible', sum(x > y for x, y in zip(b.order, b.order[1:])))
    for i in b.repos:   # the contents moved on elsewhere; only events without writes from here
        b.repos[i] = b.w.storage.load_repo(lib.did(i))
        b.repos[i].callback = b.callback
        b.w.storage.commit(b.repos[i], [])
    st.settle()
    final = st.sub(0)
    st.settle()
    subs.insert(0, (final, 0))
    ref = {}
    allseqs = b.seqs()
    for s, c in subs:
        got = s.seqs()
        lo = c if c is not None else got[0] if got else ready + 1
        want = [q for q in allseqs if q >= lo]
        if s.take is not None:
            if s.closed.is_set():
                want = want[:s.take]
                s.ended = False
            else:
                s.take = None
        if not judge(b, s, want, ref, f'stress, cursor {c}, preload {P}'):
            return
        if c is None and s.take is None and not ctx.check(all(q in got for q in allseqs if q > ready),
                                                          f'stress, no cursor: misses later events: {got}'):
            return
    content(b, ref)
    if rng.random() < .5:
        restart(b, ref, rng)
    ctx.sig('stress', n, P, slow, len(allseqs))
