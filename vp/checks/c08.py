"""C08: a failed commit has no effect and returns its sequence number as lost."""
from vp import cario, lib

LEVEL = 'fault_enumeration'
TECHNIQUE = ('runtime monitor with fault injection: bad operations at every position and storage/RPC/signing faults at every call of a '
             'commit; the store, caller objects, callbacks and event log are compared with a model afterwards')
NOTE = ('Each explored failure left the raw store, the caller\'s objects and the event log as the model says, reported its number lost once, '
        'and later commits worked. Datastore faults are injected at the gRPC stub of a fake; a fault is an error before the call takes '
        'effect (lost replies are in C09). In-memory storage gets faults only on calls that precede its first write.')
RULE = ('random histories with, at each step, a good commit or one that fails: an invalid operation at a random position of a batch, or a fault at '
        'the k-th storage call (memory) or k-th RPC (Datastore: non-retriable, transient once, persistent, contention), for k enumerated '
        'over the calls a commit makes; signing errors; first commits of new repos, empty or not; callbacks that raise; fresh, kept and stale repo objects. '
        'Distinct: (backend, fault kind, call or RPC that failed and its index, outcome).')
REQUIRED = ('bad_batches', 'faults_hit', 'failed_by_fault', 'survived_faults', 'lost_reports', 'followup_commits', 'callback_raises',
            'first_commits_failed', 'first_commits')
NSID = 'com.atproto.sync.subscribeRepos'


def cases(tier, seed):
    n = 120 if tier == 'quick' else 3000
    return [{'seed': f'{seed}.{i}', 'kind': ('memory', 'datastore')[i % 2], 'k': i // 2} for i in range(n)]


def setup():
    lib.boot()


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def faulty_memory():
    from arroba.storage import MemoryStorage

    class Faulty(MemoryStorage):
        arm = None
        calls = 0
        hit = None

        def _maybe(self, name):
            if self.arm:
                self.calls += 1
                if self.calls == self.arm[0]:
                    self.hit = name
                    raise self.arm[1]

    for name in ('read', 'read_many', 'read_many_raw', 'load_repo', 'has', 'write_blocks'):
        def method(self, *args, _name=name, **kwargs):
            self._maybe(_name)
            return getattr(super(Faulty, self), _name)(*args, **kwargs)
        setattr(Faulty, name, method)
    return Faulty


class BadKey:
    """A signing key that cannot sign."""

    def __init__(self, key):
        self.key = key

    def sign(self, *a, **k):
        raise Boom('signing failed')

    def __getattr__(self, name):
        return getattr(self.key, name)


def run_case(case, ctx):
    from google.api_core import exceptions as core_exc
    rng = lib.rng_of(case['seed'])
    w = lib.World(case['kind'], memory_class=faulty_memory() if case['kind'] == 'memory' else None)
    st = w.storage
    fault = {'arm': None, 'n': 0, 'hit': None, 'times': 0}

    def hook(phase, rpc, req, info):
        if phase != 'before' or not fault['arm']:
            return
        k, mode, only = fault['arm']
        if only and rpc not in only:
            return
        fault['n'] += 1
        if fault['n'] == k or (mode in ('persistent', 'contention') and fault['n'] > k):
            fault['hit'] = fault['hit'] or rpc
            fault['times'] += 1
            if mode == 'fatal':
                raise core_exc.InvalidArgument('injected')
            if mode == 'denied':
                raise core_exc.PermissionDenied('injected')
            if mode == 'contention':
                raise core_exc.Aborted('injected contention')
            raise core_exc.ServiceUnavailable('injected')
    if w.kind == 'datastore':
        w.store.hook = hook

    def last():
        return st.sequences.last(NSID) or 0

    with w.ctx():
        ids = list(range(rng.choice((1, 2))))
        cbs = {i: lib.Cb() for i in ids}
        kept = {i: lib.create_repo(w, i, callback=cbs[i]) for i in ids}
        mix = lib.Mix(rng, ids, lib.key_universe(rng, rng.choice((4, 10, 30))), p_bad=0)
        held = {i: {} for i in ids}   # what kept[i] should show
        heads = {i: bytes(kept[i].head.cid) for i in ids}
        good_seqs, lost_seqs = set(), set()
        stale = {i: [] for i in ids}
        k = case['k'] % 24 + 1

        def obj(i):
            """(repo object, contents it shows, head it shows)"""
            r = rng.random()
            if r < .5:
                return kept[i], held[i], kept_head[i]
            if r < .75 and stale[i]:
                return rng.choice(stale[i])
            repo = st.load_repo(lib.did(i))
            repo.callback = cbs[i]
            return repo, mix.contents[i], heads[i]
        kept_head = dict(heads)

        def show(repo):
            return ({f'{c}/{r}': cario.plain(x) for c, rs in repo.get_contents().items() for r, x in rs.items()},
                    bytes(repo.head.cid))

        def view(what, exp_blocks=None):
            for i in ids:
                r = st.load_repo(lib.did(i))
                got, head = show(r)
                if not ctx.check(head == heads[i], f'{what}: stored head of repo {i} is not its last successful commit'):
                    return False
                if not ctx.check(got == {p: cario.plain(x) for p, x in mix.contents[i].items()},
                                 f'{what}: stored contents of repo {i} differ from the successful commits'):
                    return False
            if exp_blocks is not None:
                now = w.blocks()
                extra = set(now) - set(exp_blocks)
                if not ctx.check(now == exp_blocks, f'{what}: a failed commit left {len(extra)} blocks behind '
                                 f'(seqs {sorted({now[c][1] for c in extra})[:3]})'):
                    return False
            return True

        def first(n, step):
            """The first commit of a new repo fails, then is retried."""
            from arroba.mst import MST
            from arroba.repo import Repo
            cb = lib.Cb()
            did = lib.did(n)
            repo = Repo(storage=st, mst=MST.create(storage=st), signing_key=lib.privkey(n), callback=cb)
            mix.contents[n], mix.past[n] = {}, [{}]
            ws, new, _ = mix.next(n) if rng.random() < .5 else ([], {}, None)
            mode = rng.choice(('bad', 'sign', 'fault'))
            what = f'step {step} first commit of a repo, {len(ws)} writes, {mode}, {w.kind}'
            attempt = ws
            blocks = w.blocks()
            l0 = last()
            if mode == 'bad':
                attempt, _ = mix.bad({})
            elif mode == 'sign':
                repo.signing_key = BadKey(repo.signing_key)
            elif w.kind == 'memory':
                st.arm, st.calls, st.hit = (rng.choice((1, 1, 2)), rng.choice((Boom('io'), BaseBoom('die')))), 0, None
            else:
                fault.update(arm=(rng.randrange(1, 4), rng.choice(('fatal', 'denied')), ('commit', 'run_query')), n=0, hit=None, times=0)
            err = None
            try:
                st.commit(repo, attempt, repo_did=did)
            except BaseException as e:
                err = e
            finally:
                if w.kind == 'memory':
                    st.arm = None
                fault['arm'] = None
                repo.signing_key = lib.privkey(n)
            allocated = last()
            if err is not None:
                want_lost = list(range(l0 + 1, allocated + 1))
                if not ctx.check(cb.lost == want_lost and len(want_lost) <= 1 and not cb.data,
                                 f'{what}: allocated {want_lost}, callback told lost {cb.lost}, data {len(cb.data)} times'):
                    return False
                ctx.count('first_commits_failed')
                ctx.count('lost_reports', len(want_lost))
                lost_seqs.update(want_lost)
                if not (ctx.check(repo.head is None and not repo.get_contents(), f'{what}: the repo object changed')
                        and ctx.check(st.load_repo(did) is None, f'{what}: the repo exists') and view(what, blocks)):
                    return False
                cb.lost.clear()
                st.commit(repo, ws, repo_did=did)
            elif not ctx.check(mode == 'fault' and not (w.kind == 'memory' and st.hit), f'{what}: should have failed'):
                return False
            if not ctx.check(len(cb.data) == 1 and not cb.lost, f'{what}, retried: reported {len(cb.data)} times, lost {cb.lost}'):
                return False
            good_seqs.add(cb.data[0].commit.seq)
            others.append(n)
            ctx.count('first_commits')
            ctx.sig('first', w.kind, mode, len(ws) > 0, err is not None)
            return ctx.check({f'{c}/{r}': cario.plain(x) for c, rs in repo.get_contents().items() for r, x in rs.items()}
                             == {p: cario.plain(x) for p, x in new.items()} and repo.did == did,
                             f'{what}, retried: the repo does not show the commit') and view(what)
        others = []

        for step in range(rng.choice((3, 6))):
            if rng.random() < .25:
                if not first(10 + step, step):
                    return
            i = rng.choice(ids)
            cb = cbs[i]
            repo, shows, shows_head = obj(i)
            repo.callback = cb
            if w.kind == 'datastore' and rng.random() < .3:
                s = st.load_repo(lib.did(i))
                s.callback = cb
                stale[i].append((s, mix.contents[i], heads[i]))
            ws, new, kind = mix.next(i)
            mode = rng.choice(('good', 'bad', 'fault', 'fault', 'fault', 'sign', 'cb'))
            if mode == 'sign' and w.kind != 'memory':
                mode = 'fault'
            what = f'step {step} {mode} ({kind}, {w.kind})'
            if mode == 'bad':
                ws, bad = mix.bad(mix.contents[i])
                what += bad
                ctx.count('bad_batches')
            cb.data.clear()
            cb.lost.clear()
            blocks = w.blocks()
            l0 = last()
            orig_key = None
            if mode == 'fault':
                fmode = rng.choice(('fatal', 'denied', 'transient', 'persistent', 'contention'))
                fk = k if rng.random() < .6 else rng.randrange(1, 14)
                if w.kind == 'memory':
                    st.arm, st.calls, st.hit = (1 + fk % 6, rng.choice((Boom('io'), ValueError('io'), BaseBoom('die')))), 0, None
                else:
                    only = None
                    if fmode == 'contention':
                        only, fk = ('commit',), rng.choice((2, 2, 3))
                    elif rng.random() < .3:
                        only, fk = (rng.choice(('commit', 'run_query', 'lookup', 'begin_transaction')),), rng.randrange(1, 5)
                    fault.update(arm=(fk, fmode, only), n=0, hit=None, times=0)
                what += f' {fmode if w.kind != "memory" else "call"} at {fk}'
            elif mode == 'sign':
                stored = st.load_repo(lib.did(i))
                orig_key, stored.signing_key = stored.signing_key, BadKey(stored.signing_key)
            elif mode == 'cb':
                def angry(data=None, lost_seq=None):
                    if data is not None:
                        raise Boom('callback failed')
                cb.and_then = angry
            err = data = None
            try:
                data = st.commit(repo, ws)
            except BaseException as e:
                err = e
            finally:
                if w.kind == 'memory':
                    st.arm, hit = None, st.hit
                else:
                    fault['arm'], hit = None, fault['hit']
                cb.and_then = None
                if orig_key:
                    stored.signing_key = orig_key
            if mode == 'fault' and hit:
                ctx.count('faults_hit')
            allocated = last()
            if not ctx.check(allocated - l0 <= 1, f'{what}: allocated {allocated - l0} numbers'):
                return
            ctx.sig(w.kind, mode, what.split('(')[0].split(' ', 2)[2] if mode != 'fault' else fmode, str(hit), type(err).__name__)

            if mode == 'cb':
                # the commit itself succeeded
                ctx.count('callback_raises')
                if not ctx.check(not cb.lost and len(cb.data) == 1, f'{what}: committed, but reported data {len(cb.data)} times, lost {cb.lost}'):
                    return
                data = cb.data[0]
            elif err is not None:
                if not ctx.check(mode != 'good' and (mode != 'fault' or hit), f'{what}: failed without reason: {err!r}'):
                    return
                want_lost = [allocated] if allocated > l0 else []
                if not ctx.check(cb.lost == want_lost and not cb.data,
                                 f'{what}: allocated {want_lost}, callback told lost {cb.lost}, data {len(cb.data)} times'):
                    return
                lost_seqs |= set(want_lost)
                ctx.count('lost_reports', len(want_lost))
                if mode == 'fault':
                    ctx.count('failed_by_fault')
                if not view(what, blocks):
                    return
                got, head = show(repo)
                if not ctx.check(head == shows_head, f'{what}: the caller\'s repo object has another head after the failure'):
                    return
                if not ctx.check(got == {p: cario.plain(x) for p, x in shows.items()},
                                 f'{what}: the caller\'s repo object shows other contents after the failure'):
                    return
                continue
            else:
                if not ctx.check(mode not in ('bad', 'sign'), f'{what}: should have failed'):
                    return
                if mode == 'fault' and hit:
                    ctx.count('survived_faults')
                if not ctx.check(not cb.lost and len(cb.data) == 1 and cb.data[0] is data,
                                 f'{what}: succeeded, reported {len(cb.data)} times, lost {cb.lost}'):
                    return
            good_seqs.add(data.commit.seq)
            mix.done(i, new)
            heads[i] = bytes(data.commit.cid)
            if repo is kept[i] or w.kind == 'memory':
                held[i], kept_head[i] = new, heads[i]
            stale[i] = [(r, new, heads[i]) if r is repo else (r, c, h) for r, c, h in stale[i]]
            got, head = show(repo)
            if not ctx.check(head == heads[i] and got == {p: cario.plain(x) for p, x in new.items()},
                             f'{what}: the caller\'s repo object does not show the commit'):
                return
            if not view(what):
                return
            ctx.count('followup_commits')

        seen = []
        for e in st.read_events_by_seq():
            if not isinstance(e, dict):
                seen.append(e.commit.seq)
                if e.commit.seq in lost_seqs:
                    ctx.check(False, f'event for {e.commit.seq}, which was reported lost')
                    return
        missing = good_seqs - set(seen)
        ctx.check(not missing and len(seen) == len(set(seen)) == len(good_seqs) + len(ids),
                  f'events {seen}, successful {sorted(good_seqs)}')
        ctx.sample({'backend': w.kind, 'lost': sorted(lost_seqs), 'good': sorted(good_seqs)})
