"""C07: each repo is one linear chain of correctly signed commits."""
from vp import cario, lib, refmst, sigs
from vp.evcheck import tid_of

LEVEL = 'exploration'
TECHNIQUE = 'runtime monitor: offline checker over the raw stored blocks of random interleaved histories (chain, fields, revs, signatures, sequence numbers)'
NOTE = ('Every commit block found in the store after each explored history was decoded, verified and placed in the chain by '
        'independent code, and newly stored blocks were attributed to their commit. Single-threaded writers (concurrent ones: C09). '
        'Fake Datastore and memcache.')
RULE = ('random interleaved histories of 1-4 repos (fresh, kept and stale repo objects, failing commits between, gaps in the '
        'sequence, handle- or DID-loaded objects, no-op and empty commits) with in-memory, Datastore and memcache sequences; '
        'distinct: (backend, allocator, mix of commit kinds, chain length bucket).')
REQUIRED = ('commits_verified', 'new_blocks_attributed', 'foreign_key_rejections', 'stale_object_commits', 'failed_commits', 'gaps')


def cases(tier, seed):
    n = 100 if tier == 'quick' else 3000
    directed = [{'seed': f'{seed}.overtaken', 'kind': k, 'overtaken': True} for k in ('datastore', 'memcache')]
    return directed + [{'seed': f'{seed}.{i}', 'kind': ('memory', 'datastore', 'memory', 'memcache')[i % 4],
             'size': (3, 8, 20, 60)[i % 4 if i % 3 else 1]} for i in range(n)]


def setup():
    lib.boot()


def overtaken(case, ctx):
    """A commit gets its number, then another to the same repo gets and uses the next
    one before the first reads the repo."""
    w = lib.World('datastore', sequences='memcache' if case['kind'] == 'memcache' else None)
    from arroba.repo import Write
    from arroba.storage import Action
    with w.ctx():
        lib.create_repo(w, 0)
        other, seqs, inside = w.new_storage(), w.storage.sequences, []
        other.sequences = seqs
        allocate = seqs.allocate

        def slow(nsid):
            seq = allocate(nsid)
            if not inside:
                inside.append(seq)
                other.commit(other.load_repo(lib.did(0)), [Write(Action.CREATE, 'x.y.z', 'b', {'$type': 'x.y.z', 'n': 2})])
            return seq
        seqs.allocate = slow
        first = w.storage.commit(w.storage.load_repo(lib.did(0)), [Write(Action.CREATE, 'x.y.z', 'a', {'$type': 'x.y.z', 'n': 1})])
        seqs.allocate = allocate
        ctx.count('overtaken')
        ctx.sig(case['kind'], 'overtaken')
        prev = w.storage.read(first.prev)
        ctx.check(prev.decoded['rev'] < first.commit.decoded['rev'],
                  f'rev {first.commit.decoded["rev"]} (seq {first.commit.seq}) follows {prev.decoded["rev"]} (seq {prev.seq})',
                  key='rev-overtaken')


def run_case(case, ctx):
    if case.get('overtaken'):
        return overtaken(case, ctx)
    rng = lib.rng_of(case['seed'])
    if case['kind'] == 'memcache':
        w = lib.World('datastore', sequences='memcache')
    else:
        w = lib.World(case['kind'])
    seqs, nsid = w.storage.sequences, 'com.atproto.sync.subscribeRepos'
    with w.ctx():
        ids = list(range(rng.choice((1, 2, 4))))
        repos, stale = {}, {i: [] for i in ids}
        chain = {i: [] for i in ids}    # [(cid, seq, contents)]
        before = {}

        def attribute(i, seq, what, ncommits=1):
            """New blocks since the last look all belong to commit seq."""
            nonlocal before
            after = w.blocks()
            for cid, (data, s, did) in after.items():
                if cid in before:
                    continue
                obj = cario.decode(data)
                if isinstance(obj, dict) and str(obj.get('$type', '')).startswith('com.atproto.sync.subscribeRepos#'):
                    continue
                ctx.count('new_blocks_attributed')
                if not ctx.check(s == seq, f'{what}: new block {cario.cid_str(cid)} has seq {s}, its commit {seq}'):
                    return False
                if not ctx.check(did == lib.did(i), f'{what}: new block is filed under {did}'):
                    return False
            before = after
            return True

        mix = None
        for i in ids:
            last = seqs.last(nsid) or 0
            cb = lib.Cb()
            repos[i] = lib.create_repo(w, i, callback=cb)
            data = [d for d in cb.data if not isinstance(d, dict)][0]
            chain[i].append((bytes(data.commit.cid), data.commit.seq, {}))
            if not ctx.check(data.commit.seq > last, f'creation seq {data.commit.seq} after {last}'):
                return
            if not attribute(i, data.commit.seq, 'creation'):
                return
        mix = lib.Mix(rng, ids, lib.key_universe(rng, max(4, case['size'])))
        steps = rng.choice((5, 12, 25)) if case['kind'] == 'memory' else rng.choice((4, 10))
        for step in range(steps):
            i = rng.choice(ids)
            r = rng.random()
            if r < .3:
                repo = repos[i]
            elif r < .6:
                repo = w.storage.load_repo(lib.did(i) if rng.random() < .5 else f'h{i}.example.com')
            elif stale[i] and r < .9:
                repo = rng.choice(stale[i])
                ctx.count('stale_object_commits')
            else:
                repo = w.storage.load_repo(lib.did(i))
            if w.kind == 'datastore' and rng.random() < .4:
                stale[i].append(w.storage.load_repo(lib.did(i)))
            elif w.kind == 'memory' and rng.random() < .2:
                stale[i].append(repos[i])
            if rng.random() < .15:
                seqs.allocate(nsid)   # someone else's, never used
                ctx.count('gaps')
            ws, new, kind = mix.next(i)
            what = f'step {step} ({kind}) on repo {i}'
            if new is None:
                try:
                    w.storage.commit(repo, ws)
                    ctx.check(False, f'{what}: should have failed')
                    return
                except Exception:
                    ctx.count('failed_commits')
                if not attribute(i, None, what):   # stored nothing new
                    return
                continue
            data = w.storage.commit(repo, ws)
            if not ctx.check(data.commit.seq == seqs.last(nsid), f'{what}: commit seq {data.commit.seq}, allocated {seqs.last(nsid)}'):
                return
            if not attribute(i, data.commit.seq, what):
                return
            mix.done(i, new)
            chain[i].append((bytes(data.commit.cid), data.commit.seq, new))

        # offline: everything in the store
        stored = w.blocks()
        commits = {}
        for cid, (data, seq, did) in stored.items():
            obj = cario.decode(data)
            if isinstance(obj, dict) and 'sig' in obj:
                commits.setdefault(obj.get('did'), {})[cid] = (obj, seq)
        if not ctx.check(set(commits) == {lib.did(i) for i in ids}, f'commits for {sorted(commits)}'):
            return
        for i in ids:
            mine, pub = commits[lib.did(i)], lib.privkey(i).public_key()
            want = [c for c, _, _ in chain[i]]
            if not ctx.check(len(mine) == len(want) and set(mine) == set(want),
                             f'repo {i}: {len(mine)} commits stored, {len(want)} made'):
                return
            head = bytes(w.storage.load_repo(lib.did(i)).head.cid)
            walked, cid = [], head
            while cid and len(walked) <= len(want):
                if not ctx.check(cid in mine, f'repo {i}: chain breaks after {len(walked)} commits'):
                    return
                walked.append(cid)
                prev = mine[cid][0].get('prev')
                cid = prev.cid if prev else None
            if not ctx.check(walked[::-1] == want, f'repo {i}: walking back from the head visits other commits than were made'):
                return
            last_rev = ''
            for cid, seq, contents in chain[i]:
                obj, stored_seq = mine[cid]
                what = f'repo {i} commit {seq}'
                if not (ctx.check(set(obj) == {'did', 'version', 'rev', 'prev', 'data', 'sig'}, f'{what}: fields {sorted(obj)}')
                        and ctx.check(obj['version'] == 3 and obj['did'] == lib.did(i), f'{what}: version or did')
                        and ctx.check(stored_seq == seq, f'{what}: stored with seq {stored_seq}')
                        and ctx.check(obj['rev'] == tid_of(seq), f'{what}: rev {obj["rev"]}, expected {tid_of(seq)}')
                        and ctx.check(obj['rev'] > last_rev, f'{what}: rev does not increase')):
                    return
                last_rev = obj['rev']
                root, _ = lib.expected_tree(contents)
                if not ctx.check(obj['data'].cid == root, f'{what}: data is not the root of the contents'):
                    return
                why = sigs.verify(obj, pub)
                if not ctx.check(not why, f'{what}: signature: {why}'):
                    return
                for j in ids + [500 + i]:
                    if j != i:
                        ctx.count('foreign_key_rejections')
                        if not ctx.check(sigs.verify(obj, lib.privkey(j).public_key()), f'{what}: verifies under key {j}'):
                            return
                ctx.count('commits_verified')
            ctx.sig(case['kind'], sorted(mix.kinds), min(len(want), 12))
        ctx.sample({'sequences': case['kind'], 'chains': [len(c) for c in chain.values()], 'kinds': sorted(mix.kinds)})
