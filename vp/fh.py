"""Driving the real firehose: collector, subscribers, quiescence. Use from cases
run in an isolated process; nothing here cleans up."""
import sys
import threading

from . import cario
from .sched import Inconclusive, blocked, quiesce, _mono, _sleep


def canon(event):
    """Comparable form of a (header, payload) pair, and proof that it encodes."""
    import dag_cbor
    header, payload = event
    raw = dag_cbor.encode(header) + dag_cbor.encode(payload)
    return raw


def plain(event):
    return cario.plain(event[0]), cario.plain(event[1])


class Gate:
    """Pauses a thread at the k-th line it executes in files under prefix, outside functions named in skip."""

    def __init__(self, k, prefix, skip=()):
        self.k, self.prefix, self.n, self.skip = k, prefix, 0, skip
        self.paused, self.resume = threading.Event(), threading.Event()
        self.where = None
        self.armed = True

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefix) and frame.f_code.co_name not in self.skip:
            return self.local

    def local(self, frame, event, arg):
        if event == 'line' and self.armed:
            self.n += 1
            if self.n == self.k:
                self.where = f'{frame.f_code.co_name}:{frame.f_lineno}'
                self.paused.set()
                self.resume.wait()
        return self.local


def same(a, b):
    """Whether two (header, payload) events have the same content."""
    (ha, pa), (hb, pb) = plain(a), plain(b)
    if 'blocks' in pa and 'blocks' in pb and ha.get('t') == '#commit':
        ca, cb = cario.Car(pa.pop('blocks')), cario.Car(pb.pop('blocks'))
        if ca.roots != cb.roots or ca.blocks != cb.blocks:
            return False
    return ha == hb and pa == pb


class Sub(threading.Thread):
    """One subscriber on its own thread, over the XRPC method."""

    def __init__(self, cursor=None, take=None, on_event=None, raw=False, gate=None, fn=None):
        super().__init__(daemon=True, name=f'sub-{cursor}')
        self.gate, self.fn = gate, fn
        self.cursor, self.take, self.on_event, self.raw = cursor, take, on_event, raw
        self.events = []
        self.error, self.tb = None, ''
        self.ended = False
        self.closed = threading.Event()

    def run(self):
        from arroba import firehose, xrpc_sync
        if self.gate:
            sys.settrace(self.gate.glob)
        try:
            fn = self.fn or (firehose.subscribe if self.raw else xrpc_sync.subscribe_repos)
            gen = fn(cursor=self.cursor)
            for event in gen:
                self.events.append(event)
                if self.on_event:
                    self.on_event(self, event)
                if self.take is not None and len(self.events) >= self.take:
                    gen.close()
                    self.closed.set()
                    return
            self.ended = True
        except BaseException as e:
            import traceback
            self.tb = ''.join(traceback.format_exception(e))
            self.error = e
        finally:
            sys.settrace(None)

    def seqs(self):
        return [p.get('seq') for h, p in self.events if 'seq' in p]

    def canon(self):
        return {p['seq']: canon((h, p)) for h, p in self.events if 'seq' in p}


class Stream:
    """The firehose of one server process."""
    coll_gate = None

    def __init__(self, rollback=50000, preload=4000, delay=10**6, window=300):
        from datetime import timedelta
        from arroba import firehose
        self.fh = firehose
        firehose.ROLLBACK_WINDOW = rollback
        firehose.PRELOAD_WINDOW = preload
        firehose.SUBSCRIBE_REPOS_BATCH_DELAY = timedelta(0)
        firehose.SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY = timedelta(seconds=delay)
        firehose.SUBSCRIBE_REPOS_SKIPPED_SEQ_WINDOW = window
        self.subs = []
        self.before = set(threading.enumerate())
        firehose.reset()

    def threads(self):
        return [t for t in threading.enumerate()
                if t not in self.before and t is not threading.current_thread()]

    def gate_collector(self, gate):
        """Before start: traces threads the library starts."""
        def glob(frame, event, arg):
            t = threading.current_thread()
            if isinstance(t, Sub) or t.name == 'starter':
                return None
            return gate.glob(frame, event, arg)
        self.coll_gate = gate
        threading.settrace(glob)

    def start(self, wait=True):
        """False if it does not come up (everything asleep, still not started)."""
        t = threading.Thread(target=self.fh.start, daemon=True, name='starter')
        t.start()
        if self.coll_gate:
            wait = False
        if not wait:
            return t
        end = _mono() + 60
        while t.is_alive():
            t.join(0.002)
            if t.is_alive() and quiesce(self.threads, timeout=5, samples=30):
                if t.is_alive():
                    return False
            if _mono() > end:
                raise Inconclusive('firehose start neither finished nor went to sleep')
        return True

    def sub(self, cursor=None, **kw):
        s = Sub(cursor, **kw)
        self.subs.append(s)
        s.start()
        return s

    def call(self, fn, *args):
        """From another thread if the collector is paused, since it may hold a lock."""
        if not (self.coll_gate and self.coll_gate.paused.is_set() and not self.coll_gate.resume.is_set()):
            return fn(*args)
        t = threading.Thread(target=fn, args=args, daemon=True, name='starter')
        t.start()
        while t.is_alive() and not blocked([t]):
            t.join(.001)

    def settle(self, poke=True, timeout=60):
        """Waits until every firehose thread is asleep with nothing left to do."""
        for _ in range(2 if poke else 1):
            if poke:
                self.call(self.fh.send_events)
            if not quiesce(self.threads, timeout=timeout, samples=6):
                raise Inconclusive(f'firehose never went to sleep: {self.threads()}')

    def callback(self, data=None, lost_seq=None):
        if data is not None:
            self.call(self.fh.send_events)
        elif lost_seq:
            self.call(self.fh.mark_seq_lost, lost_seq)
