"""Schedule control and quiescence detection for Python threads."""
import os
import sys
import threading
import time

_sleep = time.sleep
_mono = time.monotonic


def thread_snapshot(tid):
    """(state letter, total context switches) of a native thread, or None if gone."""
    try:
        with open(f'/proc/self/task/{tid}/status') as f:
            state, n = '?', 0
            for line in f:
                if line.startswith('State:'):
                    state = line.split()[1]
                elif 'ctxt_switches' in line:
                    n += int(line.split()[1])
            return state, n
    except OSError:
        return None


def blocked(threads, samples=3, interval=0.001):
    """Whether all of these threads are asleep and stay asleep: none of them ran at
    all between several samples. Threads that have ended count as asleep, ones that
    are being started don't. threads may be a function that returns them."""
    last = None
    all_ = threads if callable(threads) else lambda: threads
    for _ in range(samples):
        snap = []
        for t in all_():
            if not t.is_alive():
                if t in threading._limbo:
                    return False
                continue
            s = thread_snapshot(t.native_id)
            if s and s[0] != 'S':
                return False
            snap.append((t, s))
        if last is not None and snap != last:
            return False
        last = snap
        _sleep(interval)
    return True


def quiesce(threads, timeout=60, samples=4, interval=0.001):
    """Waits until all threads are durably asleep. False if that never happens
    within timeout (a watchdog; callers treat it as inconclusive)."""
    end = _mono() + timeout
    while _mono() < end:
        if blocked(threads, samples, interval):
            return True
        _sleep(interval)
    return False


class Inconclusive(Exception):
    """Harness watchdog fired; never a verdict."""


class Stepper:
    """Serialises named threads at hook points. Only one runs at a time; at each
    hook the ``choose(ready names, step)`` callback picks who goes next.

    A thread that blocks on something other than a hook (a lock that a paused
    thread holds) is left to block and others are scheduled.
    """

    def __init__(self, choose, max_steps=20000):
        self.choose = choose
        self.max_steps = max_steps
        self.cond = threading.Condition()
        self.at_hook = {}    # name -> point
        self.go = {}         # name -> Event
        self.names = {}      # Thread -> name
        self.trace = []      # (name, point)
        self.results = {}
        self.free = False

    def hook(self, point):
        """Called by worker threads."""
        name = self.names.get(threading.current_thread())
        if name is None or self.free:
            return
        ev = self.go[name]
        with self.cond:
            self.at_hook[name] = point
            self.cond.notify_all()
        ev.wait()
        ev.clear()

    def run(self, ops):
        """ops: {name: callable}. Returns {name: ('ok', value) | ('exc', exception)}."""
        threads = {}

        def body(name, fn):
            self.hook('start')
            try:
                self.results[name] = ('ok', fn())
            except BaseException as e:
                self.results[name] = ('exc', e)
            with self.cond:
                self.cond.notify_all()

        for name, fn in ops.items():
            t = threading.Thread(target=body, args=(name, fn), daemon=True, name=name)
            self.names[t] = name
            self.go[name] = threading.Event()
            threads[name] = t
        for t in threads.values():
            t.start()

        step = 0
        deadline = _mono() + 120
        while True:
            # wait until everyone unfinished is at a hook or stuck elsewhere
            spins = 0
            while True:
                with self.cond:
                    running = [n for n in ops
                               if n not in self.results and n not in self.at_hook]
                    if not running:
                        break
                    self.cond.wait(0.002)
                    running = [n for n in ops
                               if n not in self.results and n not in self.at_hook]
                    if not running:
                        break
                spins += 1
                if spins > 2 and blocked([threads[n] for n in running]):
                    break
                if _mono() > deadline:
                    self.release_all()
                    raise Inconclusive(f'stepper watchdog: {running} running; {self.trace[-20:]}')
            with self.cond:
                ready = sorted(n for n in self.at_hook if n not in self.results)
            if not ready:
                if all(n in self.results for n in ops):
                    break
                stuck = [n for n in ops if n not in self.results]
                if not quiesce([threads[n] for n in stuck], timeout=5, samples=50):
                    continue
                with self.cond:
                    if self.at_hook or all(n in self.results for n in ops):
                        continue
                self.deadlocked = stuck
                return self.results
            if step >= self.max_steps:
                self.release_all()
                raise Inconclusive(f'stepper: over {self.max_steps} steps')
            name = self.choose(ready, step)
            step += 1
            with self.cond:
                self.trace.append((name, self.at_hook.pop(name)))
            self.go[name].set()
        for t in threads.values():
            t.join(10)
        return self.results

    deadlocked = ()

    def release_all(self):
        self.free = True
        for ev in self.go.values():
            ev.set()


def pct(rng, names, steps, depth):
    """Probabilistic concurrency testing: random priorities, depth-1 change points."""
    prio = {n: p for p, n in enumerate(rng.sample(sorted(names), len(names)), start=depth)}
    change = {rng.randrange(max(1, steps)): i for i in range(depth - 1)}

    def choose(ready, step):
        name = max(ready, key=lambda n: prio[n])
        if step in change:
            prio[name] = -change[step] - 1
            name = max(ready, key=lambda n: prio[n])
        return name
    return choose


def uniform(rng):
    return lambda ready, step: rng.choice(ready)


class Preempt:
    """Single preemption at the k-th traced event inside files under prefix.

    run(a, k, b): thread A runs a(); at its k-th event it is paused while b() runs
    to completion in another thread (or until b blocks on something A holds), then
    A resumes. Returns (a outcome, b outcome, info).
    """

    def __init__(self, prefix, opcodes=False, only=None):
        self.prefix, self.opcodes, self.only = prefix, opcodes, only

    def _tracer(self, on_event):
        def local(frame, event, arg):
            if event == 'line' and not self.opcodes or event == 'opcode':
                on_event(frame)
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if not fn.startswith(self.prefix):
                return None
            if self.only and frame.f_code.co_name not in self.only:
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local
        return glob

    def count(self, a):
        n = [0]

        def ev(frame):
            n[0] += 1

        def body():
            # Python 3.12 only delivers opcode events if this is set beforehand
            sys._getframe().f_trace_opcodes = self.opcodes
            sys.settrace(self._tracer(ev))
            try:
                out.append(('ok', a()))
            except BaseException as e:
                out.append(('exc', e))
            finally:
                sys.settrace(None)
        out = []
        t = threading.Thread(target=body, daemon=True)
        t.start()
        t.join(60)
        if t.is_alive():
            raise Inconclusive('preempt: dry run did not finish')
        return n[0], out[0]

    def run(self, a, k, b, timeout=60):
        paused, resume = threading.Event(), threading.Event()
        n, where = [0], []
        out = {}

        def ev(frame):
            n[0] += 1
            if n[0] == k:
                where.append(f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}')
                paused.set()
                resume.wait()

        def body_a():
            sys._getframe().f_trace_opcodes = self.opcodes
            sys.settrace(self._tracer(ev))
            try:
                out['a'] = ('ok', a())
            except BaseException as e:
                out['a'] = ('exc', e)
            finally:
                sys.settrace(None)
                paused.set()

        def body_b():
            try:
                out['b'] = ('ok', b())
            except BaseException as e:
                out['b'] = ('exc', e)

        ta = threading.Thread(target=body_a, daemon=True, name='A')
        tb = threading.Thread(target=body_b, daemon=True, name='B')
        ta.start()
        if not paused.wait(timeout):
            raise Inconclusive('preempt: A never reached its event')
        tb.start()
        feasible = True
        end = _mono() + timeout
        while tb.is_alive():
            tb.join(0.002)
            if tb.is_alive() and blocked([tb]):
                feasible = False  # B waits for A
                break
            if _mono() > end:
                raise Inconclusive('preempt: B did not finish')
        resume.set()
        for t in (ta, tb):
            t.join(timeout)
        if ta.is_alive() or tb.is_alive():
            if quiesce([t for t in (ta, tb) if t.is_alive()], timeout=10, samples=100):
                return out.get('a', ('stuck', None)), out.get('b', ('stuck', None)), \
                    {'where': where, 'feasible': feasible, 'deadlock': True}
            raise Inconclusive('preempt: threads did not finish')
        return out['a'], out['b'], {'where': where, 'feasible': feasible, 'hit': bool(where)}
