"""C05: firehose commit events are exact, self-contained and invertible."""
import itertools

from vp import cario, fh, lib, refmst
from vp.evcheck import Consumer

LEVEL = 'exploration'
TECHNIQUE = 'runtime monitor: independent firehose consumer that applies, verifies and inverts every event from its archive alone'
NOTE = 'Every event of the explored histories, built directly, preloaded and streamed live, was decoded, applied and inverted by independent code. Fake Datastore; sampled histories.'
ISOLATE = True
RULE = ('random multi-repo commit histories (batches touching a path repeatedly, no-op updates, empty commits, recurring and '
        'shared records and tree states, tall trees) on both backends; every event, built directly, preloaded and streamed '
        'live, is consumed by an independent client that applies, checks and inverts it from its archive alone. '
        'Distinct: (backend, path, ops mix, tree height, size bucket).')
REQUIRED = ('events', 'inverted_ops', 'live_events', 'preloaded_events', 'direct_events', 'multi_touch', 'noop_updates',
            'recurring_states', 'tall_trees')


def cases(tier, seed):
    n = 140 if tier == 'quick' else 3000
    return [{'seed': f'{seed}.{i}', 'kind': ('memory', 'datastore', 'memory', 'memory')[i % 4],
             'size': (3, 8, 20, 60, 150)[i % 5], 'via': ('direct', 'stream')[i % 2]} for i in range(n)]


def setup():
    lib.boot()


def run_case(case, ctx):
    from arroba import firehose
    from arroba.repo import Write
    from arroba.storage import Action, CommitData
    rng = lib.rng_of(case['seed'])
    w = lib.World(case['kind'])
    made = {}   # seq -> CommitData
    stream = None
    kinds = set()

    def callback(data=None, lost_seq=None):
        if isinstance(data, CommitData):
            made[data.commit.seq] = data
        if stream:
            stream.callback(data=data, lost_seq=lost_seq)

    with w.ctx():
        n = rng.choice((1, 1, 2))
        repos = {i: lib.create_repo(w, i, callback=callback) for i in range(n)}
        contents = {i: {} for i in repos}
        past = {i: [{}] for i in repos}
        universe = lib.key_universe(rng, case['size'])
        if rng.random() < .4:
            universe = lib.key_universe(rng, case['size'], 'tall')
        rec_i = itertools.count()
        pool = [lib.record(rng, 10**6 + j) for j in range(4)]

        def commit():
            i = rng.choice(list(repos))
            cur = contents[i]
            r = rng.random()
            if r < .08:
                ws, new = [], dict(cur)
                kinds.add('empty')
            elif r < .25 and len(past[i]) > 1:
                target, ws = rng.choice(past[i]), []
                for p in sorted(set(cur) | set(target)):
                    if p not in target:
                        ws.append(Write(Action.DELETE, *p.split('/')))
                    elif p not in cur:
                        ws.append(Write(Action.CREATE, *p.split('/'), target[p]))
                    elif cur[p] is not target[p]:
                        ws.append(Write(Action.UPDATE, *p.split('/'), target[p]))
                rng.shuffle(ws)
                ws, new = ws[:rng.choice((1, 3, 190))], dict(cur)
                for x in ws:
                    p = f'{x.collection}/{x.rkey}'
                    new.pop(p, None)
                    if x.record:
                        new[p] = x.record
                ctx.count('recurring_states')
                kinds.add('recur')
            elif r < .35:
                p, rec = rng.choice(universe), rng.choice(pool)
                ws = [Write(Action.UPDATE if p in cur else Action.CREATE, *p.split('/'), rec)]
                new = {**cur, p: rec}
                kinds.add('shared')
            elif r < .45:
                few = rng.sample(universe, min(3, len(universe)))
                ws, new = lib.writes_for(rng, cur, rng.choice((4, 8)), few, rec_i, noop=True)
                ctx.count('multi_touch')
                kinds.add('multi')
            elif r < .52 and cur:
                p = rng.choice(sorted(cur))
                ws, new = [Write(Action.UPDATE, *p.split('/'), cur[p])], dict(cur)
                ctx.count('noop_updates')
                kinds.add('noop')
            else:
                ws, new = lib.writes_for(rng, cur, rng.choice((1, 1, 1, 2, 5, 30, 100)), universe, rec_i)
                kinds.add('batch' if len(ws) > 1 else 'one')
            # any repo's handle on storage may be used; callback must be kept
            w.storage.commit(repos[i], ws)
            contents[i] = new
            past[i].append(new)
            if max(map(refmst.layer_of, new), default=0) >= 4:
                ctx.count('tall_trees')

        steps = rng.choice((4, 10, 20)) if case['kind'] == 'memory' else rng.choice((4, 8))
        if case['via'] == 'direct':
            for _ in range(steps):
                commit()
            events = [firehose.process_event(e) for e in w.storage.read_events_by_seq()]
            ctx.count('direct_events', len(events))
            pre = 0
        else:
            pre = rng.randrange(steps + 1)
            for _ in range(pre):
                commit()
            stream = fh.Stream(rollback=rng.choice((2, 7, 50000)), preload=rng.choice((1, 5, 4000)))
            if not ctx.check(stream.start(), 'firehose did not start'):
                return
            sub = stream.sub(0)
            stream.settle()
            ctx.count('preloaded_events', len(sub.events))
            have = len(sub.events)
            for _ in range(steps - pre):
                commit()
                if rng.random() < .3:
                    stream.settle()
            stream.settle()
            ctx.count('live_events', len(sub.events) - have)
            if not ctx.check(sub.error is None and not sub.ended, f'subscription ended: {sub.error!r}'):
                return
            events = [e for e in sub.events if 'seq' in e[1]]

        if case['via'] == 'direct' or not any(e[1].get('name') for e in (sub.events if stream else ())):
            cons = Consumer(ctx.check)
            seen = set()
            for e in events:
                seq = e[1]['seq']
                if e[0].get('t') == '#commit':
                    if not ctx.check(seq in made, f'event {seq} is for no commit made here'):
                        return
                    if not cons.feed(*e, expect=made[seq]):
                        return
                    seen.add(seq)
                    fh.canon(e)
            ctx.count('events', cons.events)
            ctx.count('inverted_ops', sum(cons.ops.values()))
            if not ctx.check(seen == set(made), f'commits without event: {sorted(set(made) - seen)[:5]}'):
                return
            for i in repos:
                want = {p: lib.rec_cid(r) for p, r in contents[i].items()}
                ctx.check(cons.contents.get(lib.did(i), {}) == want, 'consumer ends with other contents')
        ctx.sig(case['kind'], case['via'], sorted(kinds), case['size'],
                max((max(map(refmst.layer_of, c), default=0) for c in contents.values())))
        ctx.sample({'backend': case['kind'], 'via': case['via'], 'commits': len(made), 'kinds': sorted(kinds),
                    'last_ops': [(o.action.name, o.path) for o in made[max(made)].commit.ops][:4]})
