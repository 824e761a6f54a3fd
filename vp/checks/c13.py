"""C13: cursors are honoured or refused as the protocol says."""
from vp import fh, lib

LEVEL = 'exploration'
TECHNIQUE = 'runtime monitor: every frame of subscriptions at every cursor value around each boundary is judged against the protocol rule'
NOTE = ('All cursors from 0 to past the newest number on generated histories, rollback and preload windows of many sizes. The retained '
        'window is the newest number and the W before it, so newest-W is the last cursor that is honoured without a notice.')
ISOLATE = True
RULE = ('histories with lost and in-flight numbers; subscriptions with no cursor and with every cursor value from 0 to newest+3, directly '
        'and through the XRPC server\'s dispatch and lexicon validation, before and after more events; then in-flight numbers complete. '
        'Distinct: (backend, window sizes, cursor class, route).')
REQUIRED = ('future', 'outdated', 'inside', 'inflight_cursor', 'lost_cursor', 'no_cursor', 'zero', 'via_xrpc', 'boundary', 'newest',
            'far_future')


def cases(tier, seed):
    n = 240 if tier == 'quick' else 4000
    return [{'seed': f'{seed}.{i}', 'kind': 'datastore' if i % 6 == 5 else 'memory'} for i in range(n)]


def setup():
    lib.boot()


def run_case(case, ctx):
    from arroba import server
    from arroba.storage import SUBSCRIBE_REPOS_NSID
    import arroba.xrpc_sync  # noqa
    rng = lib.rng_of(case['seed'])
    w = lib.World(case['kind'])
    st = None

    def callback(data=None, lost_seq=None):
        if data is not None:
            visible.append(data['seq'] if isinstance(data, dict) else data.commit.seq)
        if st:
            st.callback(data=data, lost_seq=lost_seq)

    visible = []
    with w.ctx():
        repo = lib.create_repo(w, 0, callback=callback)
        seqs = w.storage.sequences
        newest = lambda: seqs.last(SUBSCRIBE_REPOS_NSID)
        lost = []

        def some(n):
            for _ in range(n):
                r = rng.random()
                if r < .15:
                    q = seqs.allocate(SUBSCRIBE_REPOS_NSID)
                    lost.append(q)
                    if st:
                        st.callback(lost_seq=q)
                elif r < .5:
                    w.storage.write_event(repo=repo, type='identity', handle=repo.handle)
                else:
                    w.storage.commit(repo, [])

        some(rng.choice((0, 4, 9)))
        R = rng.choice((1, 2, 3, 5, 8, 12, 50000))
        P = rng.choice((1, 2, 5, 50000))
        if newest() in lost:
            w.storage.commit(repo, [])
        st = fh.Stream(rollback=R, preload=P)
        for q in lost:
            st.callback(lost_seq=q)
        if not ctx.check(st.start(), 'firehose did not start'):
            return
        some(rng.choice((0, 3)))
        st.settle()
        flying = []
        if rng.random() < .5:
            for _ in range(rng.choice((1, 2))):
                flying.append(seqs.allocate(SUBSCRIBE_REPOS_NSID))
        held = []
        if flying and rng.random() < .5:   # visible but held back
            w.storage.commit(repo, [])
            held.append(visible[-1])
            st.settle()
        top = newest()
        emitted = [q for q in visible if q not in held]
        route = rng.choice(('direct', 'xrpc'))
        subs = []
        for c in [None, *range(0, top + 3), 10 * top, 2**53 - 1]:
            fn = None
            if route == 'xrpc':
                ctx.count('via_xrpc')

                def fn(cursor, c=c):
                    kw = {} if c is None else {'cursor': c}
                    return server.server.call('com.atproto.sync.subscribeRepos', **kw)
            subs.append((c, st.sub(c, fn=fn)))
            fh.quiesce([subs[-1][1]])
        st.settle()
        # in-flight numbers complete, then more; less than a window
        for q in flying:
            class Once:
                def __init__(self, real):
                    self.real = real

                def allocate(self, nsid):
                    return q

                def last(self, nsid):
                    return self.real.last(nsid)
            w.storage.sequences = Once(seqs)
            w.storage.write_event(repo=repo, type='identity', handle=repo.handle)
            w.storage.sequences = seqs
        st.settle()
        some(2)
        st.settle()
        now = sorted(set(visible))
        for c, s in subs:
            what = f'cursor {c} ({route}), newest {top}, rollback {R}, preload {P}, in flight {flying}, held {held}, lost {lost}'
            if not ctx.check(s.error is None, f'{what}: subscription died: {s.error!r} {s.tb[-600:]}'):
                return
            frames = list(s.events)
            if c is not None and c > top:
                ctx.count('future')
                if c > top + 5:
                    ctx.count('far_future')
                if not ctx.check(s.ended and len(frames) == 1 and frames[0][0] == {'op': -1}
                                 and frames[0][1].get('error') == 'FutureCursor',
                                 f'{what}: should get just a FutureCursor error, got {str(frames)[:300]} ended={s.ended}'):
                    return
                continue
            if not ctx.check(not s.ended, f'{what}: subscription ended, {str(frames)[:300]}'):
                return
            info = None
            if frames and frames[0][0].get('t') == '#info':
                info = frames.pop(0)
                if not ctx.check(info[0] == {'op': 1, 't': '#info'} and info[1].get('name') == 'OutdatedCursor',
                                 f'{what}: notice is {info}'):
                    return
            if not ctx.check(all(h.get('op') == 1 and 'seq' in p and h.get('t') != '#info' for h, p in frames),
                             f'{what}: unexpected frames {[h for h, p in frames]}'):
                return
            got = [p['seq'] for h, p in frames]
            if c is None:
                ctx.count('no_cursor')
                want = [[q for q in now if q not in emitted]]
                ok_info = not info
            elif c < top - R:
                ctx.count('outdated')
                want = [[q for q in now if q >= top - R]]
                ok_info = bool(info)
            elif c == top - R:
                ctx.count('boundary')
                want = [[q for q in now if q >= c]]
                ok_info = not info
            else:
                ctx.count('inside')
                want = [[q for q in now if q >= c]]
                ok_info = not info
            if c == 0:
                ctx.count('zero')
            if c == top:
                ctx.count('newest')
            if c in lost:
                ctx.count('lost_cursor')
            if c in flying:
                ctx.count('inflight_cursor')
            if not ctx.check(ok_info, f'{what}: {"unexpected" if info else "missing"} OutdatedCursor notice'):
                return
            if not ctx.check(got in want, f'{what}: got {got}, should be {want[0]}'):
                return
            ctx.sig(case['kind'], min(R, 99), min(P, 99), route, c is None, c is not None and (c < top - R, c in flying, c in lost))
        ctx.sample({'backend': case['kind'], 'rollback': R, 'preload': P, 'newest': top, 'in_flight': flying, 'lost': lost, 'route': route})
