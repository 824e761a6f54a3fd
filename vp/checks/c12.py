"""C12: out-of-order commits are waited for; lost numbers do not stall the stream."""
import random

from vp import fh, lib
from vp.env import VirtualClock

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: the events a live subscriber received after every step are compared with an executable model of the '
             'hold-back rule, under a virtual clock')
NOTE = ('Histories of allocations, completions in any order, losses and clock advances against the real collector; sampled. Where the '
        'rule leaves room (whether a second gap\'s delay starts when it was first visible or when it became the first one; window measured '
        'from the gap or the event) both are accepted. How soon the collector wakes up is not judged.')
ISOLATE = True
RULE = ('random schedules of: allocate a number, complete it (commit or account event), lose it, let time pass; completions in any '
        'order, several gaps at once, long idle times, windows of 0 to 300 numbers; after each step the collector is woken and runs '
        'until asleep. Distinct: (backend, window, kinds of decisions taken).')
REQUIRED = ('held', 'filled_in_order', 'gave_up_delay', 'gave_up_window', 'skipped_lost', 'late_never_emitted', 'gap_after_idle',
            'emitted', 'mixed_gaps', 'in_flight_at_start')
DELAY = 120


def cases(tier, seed):
    n = 300 if tier == 'quick' else 12000
    return [{'seed': f'{seed}.d', 'kind': 'memory', 'window': 300, 'directed': True}] + [{'seed': f'{seed}.{i}', 'kind': 'datastore' if i % 6 == 5 else 'memory',
             'window': (300, 300, 4, 1, 0, 300)[i % 6]} for i in range(n)]


def setup():
    lib.boot()


class Model:
    """What must, may and must not have been emitted."""

    def __init__(self, last, window):
        self.last, self.window = last, window
        self.last_at = None
        self.visible, self.lost = set(), set()
        self.first_missing = {}   # number -> when first seen missing
        self.block_since = None   # (number, when it became the first one missing)
        self.out = []
        self.notes = []

    def step(self, now, newest, observed):
        """Follows observed, the numbers emitted since the last step. Returns an
        error or None."""
        observed = list(observed)
        while True:
            ahead = sorted(s for s in self.visible if s > self.last)
            if not ahead:
                break
            cur = ahead[0]
            missing = [s for s in range(self.last + 1, cur) if s not in self.lost]
            for e in ahead:
                for s in range(self.last + 1, e):
                    if s not in self.lost and s not in self.visible:
                        self.first_missing.setdefault(s, now)
            must_hold = must_emit = False
            why = 'plain'
            if not missing:
                must_emit = True
                if cur > self.last + 1:
                    why = 'skipped_lost'
            else:
                gap = missing[0]
                if not self.block_since or self.block_since[0] != gap:
                    self.block_since = (gap, now)
                early = min(self.first_missing[s] for s in missing)
                late = max(self.block_since[1], self.last_at or 0, max(self.first_missing[s] for s in missing))
                if newest - gap <= self.window and now - early <= DELAY:
                    must_hold = True
                elif newest - cur > self.window or now - late > DELAY:
                    must_emit = True
                why = 'gave_up_window' if newest - cur > self.window else 'gave_up_delay'
                if len(missing) != cur - self.last - 1:
                    self.notes.append('mixed_gaps')
            emits = bool(observed) and observed[0] == cur
            if must_hold:
                if observed:
                    return f'emitted {observed} though {missing} may still come (last {self.last}, newest {newest}, ' \
                        f'first seen missing {now - early}s ago)'
                self.notes.append('held')
                return None
            if must_emit and not emits:
                return f'emitted {observed or "nothing"}, should go on with {cur} (last {self.last}, missing {missing}, {why})'
            if not emits:
                return f'emitted {observed}, not behind {self.last} or {cur}' if observed else None
            self.notes.append(why)
            if self.block_since and why == 'plain':
                self.notes.append('filled_in_order')
            self.block_since = None
            observed.pop(0)
            self.out.append(cur)
            self.last, self.last_at = cur, now
        if observed:
            return f'emitted {observed} after {self.last}, nothing like that is to come'
        return None


def run_case(case, ctx):
    from arroba.storage import SUBSCRIBE_REPOS_NSID, Sequences
    rng = lib.rng_of(case['seed'])
    clock = VirtualClock().install()

    class Plan(Sequences):
        """Hands out a number allocated earlier."""
        top, force = 0, None

        def allocate(self, nsid):
            if self.force:
                n, self.force = self.force, None
                return n
            self.top += 1
            return self.top

        def last(self, nsid):
            return self.top or None

    seqs = Plan()
    w = lib.World(case['kind'], sequences=seqs)
    handed = []
    state = {'stream': None}

    def callback(data=None, lost_seq=None):
        if state['stream']:
            state['stream'].callback(data=data, lost_seq=lost_seq)

    with w.ctx():
        repos = [lib.create_repo(w, i, callback=callback) for i in range(2)]
        for _ in range(rng.randrange(3)):
            w.storage.commit(repos[0], [])
        flying, visible = [], seqs.top
        if case.get('directed') or rng.random() < .3:    # some commits are under way when the server starts
            for _ in range(rng.choice((1, 2, 3))):
                flying.append(seqs.allocate(SUBSCRIBE_REPOS_NSID))
            ctx.count('in_flight_at_start')
        if case.get('directed'):
            w.storage.commit(repos[1], [])
        st = state['stream'] = fh.Stream(rollback=50000, preload=rng.choice((4000, 4000, 4)), delay=DELAY, window=case['window'])
        if not ctx.check(st.start(), 'firehose did not start'):
            return
        sub = st.sub(None)
        st.settle()
        model = Model(visible, case['window'])
        trace, gone = [f'start with {flying} under way'], []
        if case.get('directed'):
            # the only failing history that is listed: a number visible at start up above one that is not
            seqs.force = flying[0]
            w.storage.commit(repos[0], [])
            st.settle()
            ctx.check(flying[0] in sub.seqs(), f'{flying[0]} became visible after the server had started with {seqs.top} visible: never emitted', 'restart-in-flight')
            return

        def finish(n):
            """Make number n visible."""
            r = rng.choice(repos)
            seqs.force = n
            if n > r.head.seq and rng.random() < .5:
                w.storage.commit(r, [])
            else:
                w.storage.write_event(repo=r, type='identity', handle=r.handle)
            model.visible.add(n)

        seen = 0
        for _ in range(rng.choice((10, 25, 40))):
            x = rng.random()
            if x < .34 or not flying:
                for _ in range(rng.choice((1, 1, 2, 3) if case['window'] > 10 else (1, 1, 2, 6))):
                    flying.append(seqs.allocate(SUBSCRIBE_REPOS_NSID))
                trace.append(f'alloc..{seqs.top}')
            elif x < .7:
                n = rng.choice(flying)
                if rng.random() < .3:
                    n = min(flying)
                flying.remove(n)
                if n < model.last:
                    gone.append(n)
                finish(n)
                trace.append(f'done {n}')
            elif x < .82:
                n = rng.choice(flying)
                flying.remove(n)
                model.lost.add(n)
                st.callback(lost_seq=n)
                trace.append(f'lost {n}')
            else:
                d = rng.choice((1, .3 * DELAY, .45 * DELAY, 1.6 * DELAY, 1.6 * DELAY, 50 * DELAY))
                idle = not any(s > model.last for s in model.visible)
                clock.advance(d)
                trace.append(f'+{d:g}s')
                if idle and d > DELAY:
                    state['idle'] = True
            st.settle()
            if not ctx.check(sub.error is None and not sub.ended, f'subscription ended: {sub.error!r} after {trace}'):
                return
            got = sub.seqs()
            err = model.step(clock.now, seqs.top, got[seen:])
            if not ctx.check(not err, f'{err}; window {case["window"]}, steps {trace[-12:]}'):
                return
            if model.notes and model.notes[-1] == 'held' and state.pop('idle', None):
                ctx.count('gap_after_idle')
            seen = len(got)
        # everything comes out in the end
        clock.advance(3 * DELAY)
        for _ in range(len(model.visible) + 1):
            st.settle()
            clock.advance(3 * DELAY)
        got = sub.seqs()
        if not ctx.check(all(b > a for a, b in zip(got, got[1:])), f'not increasing: {got}'):
            return
        rest = [s for s in model.visible if s > model.last]
        ctx.check(sorted(rest) == got[seen:], f'stalled: {sorted(rest)} visible for long, emitted {got[seen:]}; {trace[-12:]}')
        ctx.count('emitted', len(got))
        ctx.count('late_never_emitted', len([g for g in gone if g not in got]))
        for n in model.notes:
            ctx.count(n)
        ctx.sig(case['kind'], case['window'], sorted(set(model.notes)), len(trace))
        ctx.sample({'window': case['window'], 'backend': case['kind'], 'steps': trace[:20], 'emitted': got[:20]})
