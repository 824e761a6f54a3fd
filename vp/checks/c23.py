"""C23: bulk and ordered block reads return exactly what is stored."""
import contextlib

from vp import cario, lib
from vp.checks import c18

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: model of every stored block against batched and streamed reads while the fake Datastore splits, defers, reorders and loses '
             'contexts between or within result pages')
NOTE = ('Up to thousands of blocks, hundreds under one number, requests over the 1000 key limit with absent and repeated CIDs, on both backends. Contexts are lost '
        'by a ContextError from a query page. Blocks written while a stream is being read may or may not be in it.')
RULE = ('random stores x requests (present, absent, repeated, order) x deferral patterns; streams from every kind of start, by repo or all, page sizes 1 to 300, '
        'with contexts lost at random pages and writes in between. Distinct: (backend, call, size, mix, deferral) and (stream, page size, losses).')
REQUIRED = ('read_many', 'read_many_raw', 'over_limit', 'absent', 'repeated', 'deferred', 'deferred_rounds', 'streams', 'lost_contexts', 'lost_mid_seq', 'wrote_between',
            'big_seq', 'closed_early', 'inside_context', 'outside_context')
ISOLATE = True
CASE_TIMEOUT = 240


def cases(tier, seed):
    n, b, m = (40, 3, 64) if tier == 'quick' else (1200, 60, 2000)
    return ([{'seed': f'{seed}.b{i}', 'mode': 'bulk', 'kind': ('datastore', 'memory')[i % 2], 'n': 2300} for i in range(b)]
            + [{'seed': f'{seed}.{i}', 'mode': 'bulk', 'kind': ('datastore', 'datastore', 'memory')[i % 3], 'n': (0, 1, 5, 40, 200)[i % 5]} for i in range(n)]
            + [{'seed': f'{seed}.s{i}', 'mode': 'stream', 'kind': ('datastore', 'datastore', 'datastore', 'memory')[i % 4]} for i in range(m)])


def setup():
    lib.boot(PDS_HOST='pds.example.com')


def run_case(case, ctx):
    globals()[case['mode']](case, ctx)


def dids():
    return [lib.did(0), lib.did(1), 'did:web:ex.co', 'did:web:ex.com', 'did:web:ex.com:x']


def fill(rng, w, n, seqs, i0=0):
    """cid -> (bytes, seq, did) of n new blocks."""
    from arroba.storage import Block
    out = {}
    for k in range(n):
        rec = {'$type': 'x.y.z', 'n': i0 + k, 'b': bytes(rng.randrange(256) for _ in range(rng.choice((0, 1, 8))))}
        if rng.random() < .002:
            rec['big'] = 'x' * 900_000
        out[lib.rec_cid(rec)] = (lib.enc(rec), rng.choice(seqs), rng.choice(dids()))
    items = [Block(cid=lib.acid(c), encoded=b, seq=s, repo=d) for c, (b, s, d) in out.items()]
    with w.ctx():
        for k in range(0, len(items), 400):
            w.storage.write_blocks(items[k:k + 400])
    return out


def bulk(case, ctx):
    rng = lib.rng_of(case['seed'])
    w = lib.World(case['kind'])
    model = fill(rng, w, case['n'], [1, 2, 3, 10**6, 2**53 - 1, 0])
    known = sorted(model)
    rounds = [0]

    def defer(keys):
        rounds[0] += 1
        return c18.defer(rng, ctx)(keys)
    for t in range(4 if case['n'] > 1000 else 12):
        ask = rng.sample(known, rng.choice((len(known), len(known), len(known) // 2, min(1, len(known)), min(1001, len(known)))))
        absent = [lib.val_cid(rng.randrange(10**6)) for _ in range(rng.choice((0, 0, 1, 7)))]
        again = [rng.choice(ask) for _ in range(rng.choice((0, 0, 1, 9)))] if ask else []
        req = ask + absent + again
        rng.shuffle(req)
        how = rng.choice(('none', 'defer', 'defer'))
        raw = rng.random() < .5
        rounds[0] = 0
        if case['kind'] == 'datastore':
            w.store.defer = defer if how == 'defer' else None
        inside = rng.random() < .5
        ctx.count('inside_context' if inside else 'outside_context')
        with w.ctx() if inside else contextlib.nullcontext():
            if raw:
                got = w.storage.read_many_raw([bytes(c) for c in req])
            else:
                cids = [lib.acid(c) for c in req]
                got = w.storage.read_many(iter(cids) if rng.random() < .3 else cids)
        name = 'read_many_raw' if raw else 'read_many'
        what = f'{name} of {len(req)} ({len(absent)} absent, {len(again)} repeated{", deferred" * (how == "defer")})'
        ctx.count(name)
        ctx.count('absent', len(absent))
        ctx.count('repeated', len(again))
        ctx.count('over_limit', len(req) > 1000)
        ctx.count('deferred_rounds', rounds[0] > 1)
        ctx.sig(case['kind'], name, min(len(req), 30), bool(absent), bool(again), how)
        got = {bytes(c): v for c, v in got.items()}
        if not ctx.check(got.keys() <= set(req), f'{what}: answers {len(got.keys() - set(req))} that were not asked for'):
            return
        missing = [c for c in req if c in model and got.get(c) is None]
        if not (ctx.check(not missing, f'{what}: {len(missing)} stored blocks are reported missing')
                and ctx.check(all(got.get(c) is None for c in req if c not in model), f'{what}: answers blocks that are not stored')):
            return
        if not raw and not ctx.check(got.keys() == set(req), f'{what}: leaves out {len(set(req) - got.keys())}'):
            return
        for c, v in got.items():
            if v is None:
                continue
            b, s = (bytes(v[0]), v[1]) if raw else (bytes(v.encoded), v.seq)
            if not ctx.check((b, s) == model[c][:2], f'{what}: block with number {model[c][1]} comes back with {s} and {"the same" if b == model[c][0] else "other"} bytes'):
                return
            if not raw and not ctx.check(bytes(v.cid) == c, f'{what}: block under the wrong CID'):
                return
        for c in rng.sample(known, min(3, len(known))) + absent[:1]:
            with w.ctx() if inside else contextlib.nullcontext():
                v, has = w.storage.read(lib.acid(c)), w.storage.has(lib.acid(c))
            if not ctx.check(has == (c in model) and (v is None) == (c not in model) and (v is None or (bytes(v.encoded), v.seq) == model[c][:2]),
                             f'read of one {"absent" if c not in model else "stored"} block: {v}, has {has}'):
                return
    ctx.sample({'backend': case['kind'], 'blocks': case['n']})


def stream(case, ctx):
    from google.cloud.ndb.exceptions import ContextError
    rng = lib.rng_of(case['seed'])
    w = lib.World(case['kind'])
    seqs = rng.choice((range(1, 4), range(1, 40), [0, 1, 5, 6, 7, 2**40], range(1, 200)))
    seqs = list(seqs)
    model = fill(rng, w, rng.choice((0, 1, 10, 60, 60)), seqs)
    if rng.random() < .3:
        model.update(fill(rng, w, rng.choice((150, 320)), [rng.choice(seqs)], 10**6))
        ctx.count('big_seq')
    count = [10**7]
    for t in range(6):
        start = rng.choice((0, 1, *seqs, max(seqs) + 1, *(s + 1 for s in seqs)))
        did = rng.choice((None, None, *dids(), lib.did(9), 'did:web:Ex.co'))
        plan = {'n': 0, 'at': set(), 'hits': 0}
        page = rng.choice((1, 2, 3, 10, 300)) if len(model) < 100 else rng.choice((20, 150, 300))
        if case['kind'] == 'datastore':
            w.store.batch_size = page
            if rng.random() < .7:
                plan['at'] = set(rng.sample(range(1, 25), rng.choice((1, 2, 8))))

            def hook(phase, rpc, req, info):
                if rpc != 'run_query' or phase == 'after':
                    return
                plan['n'] += 1
                if plan['n'] in plan['at']:
                    plan['hits'] += 1
                    ctx.count('lost_mid_seq', bool(req.query.start_cursor) and page < 20)
                    raise ContextError()
        inside = not plan['at'] and rng.random() < .5
        ctx.count('inside_context' if inside else 'outside_context')
        stop = rng.randrange(1, 20) if rng.random() < .15 else None
        write_at = {rng.randrange(1, 30) for _ in range(rng.choice((0, 0, 1, 3)))}
        before, added, got = dict(model), {}, []
        what = f'stream from {start} of {"all" if not did else did}, pages of {page}, context lost at {sorted(plan["at"])}, {len(model)} blocks'
        with w.ctx() if inside else contextlib.nullcontext():
            if case['kind'] == 'datastore':
                w.store.hook = hook
            it = w.storage.read_blocks_by_seq(start=start, repo=did) if did or rng.random() < .5 else w.storage.read_blocks_by_seq(start=start)
            for b in it:
                got.append((bytes(b.cid), bytes(b.encoded), b.seq))
                if len(got) in write_at and not inside:
                    if case['kind'] == 'datastore':
                        w.store.hook = None
                    import threading
                    count[0] += 10
                    t2 = threading.Thread(target=lambda: added.update(fill(rng, w, rng.choice((1, 4)), [got[-1][2] + rng.choice((0, 1, 50))], count[0])))
                    t2.start()
                    t2.join()
                    ctx.count('wrote_between')
                    if case['kind'] == 'datastore':
                        w.store.hook = hook
                if stop and len(got) >= stop:
                    if hasattr(it, 'close'):
                        it.close()
                    ctx.count('closed_early')
                    break
                if not ctx.check(len(got) < 3 * len(model) + 100, f'{what}: does not end'):
                    return
        if case['kind'] == 'datastore':
            w.store.hook = None
        model.update(added)
        ctx.count('streams')
        ctx.count('lost_contexts', plan['hits'])
        ctx.sig(case['kind'], page, sorted(plan['at'])[:3], bool(did), bool(write_at), start in seqs, inside)
        want = {c for c, (b, s, d) in before.items() if s >= start and (not did or d == did)}
        ok = want | {c for c, (b, s, d) in added.items() if s >= start and (not did or d == did)}
        cids = [c for c, _, _ in got]
        nums = [s for _, _, s in got]
        if stop and len(got) == stop:
            want = {c for c in want if before[c][1] < nums[-1]} if nums else set()
        if not (ctx.check(nums == sorted(nums), f'{what}: not in ascending order')
                and ctx.check(len(cids) == len(set(cids)), f'{what}: {len(cids) - len(set(cids))} blocks come twice')
                and ctx.check(want <= set(cids), f'{what}: {len(want - set(cids))} of {len(want)} blocks are left out')
                and ctx.check(set(cids) <= ok, f'{what}: {len(set(cids) - ok)} blocks do not match')
                and ctx.check(all(model[c][:2] == (b, s) for c, b, s in got), f'{what}: wrong bytes or number')):
            return
    ctx.sample({'backend': case['kind'], 'blocks': len(model)})
