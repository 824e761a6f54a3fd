"""C03: after a commit everything reachable from the head is durably readable."""
import itertools

from vp import cario, lib, refmst

LEVEL = 'exploration'
TECHNIQUE = "runtime monitor: full reachable-block walk behind the library's back after every commit of random histories, both backends"
NOTE = 'After every explored commit the whole reachable graph was read and hashed by independent code and compared to a model. The Datastore is an in-process fake at the gRPC stub boundary (vp/fakeds.py).'
RULE = ('random commit histories over 1-3 repos sharing one store (both backends): empty and no-op commits, repeated and '
        'shared records, recurring tree states, failing commits in between, and 200-operation commits of several hundred blocks and back; after each commit a fresh reader walks everything '
        'from every head with independent codecs and the whole store is compared with its previous snapshot. '
        'Distinct: (backend, repos, contents size bucket, height, commit kinds seen).')
REQUIRED = ('commits', 'failed_commits', 'recurring_states', 'shared_records', 'noop_updates', 'blocks_rechecked',
            'fresh_loads', 'emptied', 'big_commits')


def cases(tier, seed):
    n = 120 if tier == 'quick' else 3000
    big = [{'seed': f'{seed}.big{i}', 'kind': ('datastore', 'memory')[i % 2], 'big': True, 'n': (700, 700, 700, 1000)[i % 4]}
           for i in range(3 if tier == 'quick' else 60)]
    return big + [{'seed': f'{seed}.{i}', 'kind': ('memory', 'datastore', 'memory')[i % 3], 'size': (3, 8, 25, 60)[i % 4]}
                  for i in range(n)]


def setup():
    lib.boot()


def check_head(ctx, w, storage, i, contents, what, handle=None):
    """A fresh reader's view of repo i."""
    repo = storage.load_repo(lib.did(i))
    ctx.count('fresh_loads')
    if not ctx.check(repo is not None, f'{what}: repo not found'):
        return False

    def get(cid):
        b = storage.read(lib.acid(cid))
        if b is None:
            return None
        data = bytes(b.encoded)
        if cario.cid_of(data) != cid or bytes(b.cid) != cid:
            raise refmst.Invalid(f'bytes read for {cario.cid_str(cid)} do not hash to it')
        return data
    try:
        head = get(bytes(repo.head.cid))
        if not ctx.check(head is not None, f'{what}: head commit is not stored'):
            return False
        commit = cario.decode(head)
        mapping, nodes = refmst.read_tree(commit['data'].cid, get)
        want = {p: lib.rec_cid(r) for p, r in contents.items()}
        if not ctx.check(mapping == want, f'{what}: stored tree has keys {sorted(mapping)[:8]}.. expected '
                         f'{sorted(want)[:8]}.. ({len(mapping)} vs {len(want)})'):
            return False
        for path, cid in mapping.items():
            data = get(cid)
            if not ctx.check(data is not None, f'{what}: record {path} is not stored'):
                return False
            if not ctx.check(data == lib.enc(contents[path]), f'{what}: record {path} bytes differ'):
                return False
        ctx.count('reachable_blocks', 1 + len(nodes) + len(mapping))
    except (refmst.Invalid, cario.Bad) as e:
        ctx.check(False, f'{what}: {e}')
        return False

    got = {f'{c}/{r}': cario.plain(rec) for c, recs in repo.get_contents().items() for r, rec in recs.items()}
    return ctx.check(got == {p: cario.plain(r) for p, r in contents.items()}, f'{what}: get_contents wrong')


def check_store(ctx, before, after, what):
    ctx.count('blocks_rechecked', len(before))
    for cid, val in before.items():
        now = after.get(cid)
        if not ctx.check(now == val, f'{what}: stored block {cario.cid_str(cid)} '
                         + ('was removed' if now is None else f'changed: seq/repo {val[1:]} -> {now[1:]}')):
            return False
    return True


def run_big(case, ctx):
    """Commits of as many blocks as 200 operations can make, in a large repo, and back."""
    from arroba.repo import Write
    from arroba.storage import Action
    rng = lib.rng_of(case['seed'])
    w = lib.World(case['kind'])
    with w.ctx():
        repo, rec_i = lib.create_repo(w, 0), itertools.count()
        keys = lib.sparse_keys(rng, case['n'])
        rng.shuffle(keys)
        contents, snap = {}, w.blocks()

        def commit(new, what):
            nonlocal contents, snap
            ws = [Write(Action.DELETE, *p.split('/')) if p not in new else
                  Write(Action.UPDATE if p in contents else Action.CREATE, *p.split('/'), new[p])
                  for p in sorted(set(contents) | set(new)) if contents.get(p) is not new.get(p)]
            rng.shuffle(ws)
            cd = w.storage.commit(repo, ws)
            ctx.count('commits')
            contents, old, snap = new, snap, w.blocks()
            ctx.count('blocks_in_big_commits', len(cd.blocks))
            seq = w.blocks()[bytes(cd.commit.cid)][1]
            ctx.check({c for c, v in snap.items() if v[1] == seq} == set(snap) - set(old),
                      f'{what}: blocks with the new sequence number are not the new blocks')
            return (check_store(ctx, old, snap, what)
                    and check_head(ctx, w, w.storage if w.kind == 'memory' else w.new_storage(), 0, contents, what))

        for start in range(0, len(keys), 200):
            chunk = {k: lib.record(rng, next(rec_i)) for k in keys[start:start + 200]}
            w.storage.commit(repo, [Write(Action.CREATE, *k.split('/'), r) for k, r in chunk.items()])
            contents.update(chunk)
        snap = w.blocks()
        if not check_head(ctx, w, w.storage, 0, contents, f'{len(contents)} records'):
            return
        for i in range(2):
            past, some = contents, rng.sample([k for k in sorted(contents) if not refmst.layer_of(k)], 200)
            gone = set(some[:rng.choice((0, 60, 200))])
            new = {p: lib.record(rng, next(rec_i)) if p in some else r for p, r in past.items() if p not in gone}
            if not commit(new, f'{len(gone)} deletes and {200 - len(gone)} updates of {len(past)}'):
                return
            if not commit(past, f'back to the former {len(past)} records'):   # every block but the commit exists
                return
            ctx.count('recurring_states')
        ctx.count('big_commits')
        ctx.sig('big', case['kind'], len(keys), i)


def run_case(case, ctx):
    if case.get('big'):
        return run_big(case, ctx)
    from arroba.repo import Write
    from arroba.storage import Action
    rng = lib.rng_of(case['seed'])
    w = lib.World(case['kind'])
    kinds = set()
    with w.ctx():
        n = rng.choice((1, 2, 3))
        repos = {i: lib.create_repo(w, i) for i in range(n)}
        contents = {i: {} for i in repos}
        past = {i: [{}] for i in repos}
        universe = lib.key_universe(rng, case['size'])
        rec_i = itertools.count()
        pool = [lib.record(rng, 10**6 + j) for j in range(6)]
        snap = w.blocks()
        for step in range(rng.choice((5, 10, 20)) if case['kind'] == 'memory' else rng.choice((4, 8))):
            i = rng.choice(list(repos))
            repo, cur = repos[i], contents[i]
            r = rng.random()
            if r < .08:
                ws, new = [], dict(cur)
                kinds.add('empty')
            elif r < .25 and len(past[i]) > 1:
                # go back to a former state: recurring tree nodes and records
                target = rng.choice(past[i])
                ws, new = [], dict(target)
                for p in sorted(set(cur) | set(target)):
                    if p not in target:
                        ws.append(Write(Action.DELETE, *p.split('/')))
                    elif p not in cur:
                        ws.append(Write(Action.CREATE, *p.split('/'), target[p]))
                    elif cur[p] is not target[p]:
                        ws.append(Write(Action.UPDATE, *p.split('/'), target[p]))
                rng.shuffle(ws)
                ws = ws[:190]
                new = dict(cur)
                for x in ws:
                    p = f'{x.collection}/{x.rkey}'
                    new.pop(p, None)
                    if x.record:
                        new[p] = x.record
                ctx.count('recurring_states')
                kinds.add('recur')
                if not new:
                    ctx.count('emptied')
            elif r < .4:
                # shared records across paths and repos
                p = rng.choice(universe)
                rec = rng.choice(pool)
                ws = [Write(Action.UPDATE if p in cur else Action.CREATE, *p.split('/'), rec)]
                new = {**cur, p: rec}
                ctx.count('shared_records')
                kinds.add('shared')
            elif r < .48 and cur:
                p = rng.choice(sorted(cur))
                ws, new = [Write(Action.UPDATE, *p.split('/'), cur[p])], dict(cur)
                ctx.count('noop_updates')
                kinds.add('noop')
            elif r < .6:
                ws, _ = lib.writes_for(rng, cur, rng.choice((1, 3)), universe, rec_i)
                bad = rng.choice(('dup', 'missing', 'key', 'size'))
                if bad == 'dup' and cur:
                    ws.append(Write(Action.CREATE, 'a', 'b', {'x': 1}))
                    ws.append(Write(Action.CREATE, 'a', 'b', {'x': 1}))
                elif bad == 'size':
                    ws.append(Write(Action.CREATE, 'a', 'b', {'x': 'y' * 1_000_001}))
                elif bad == 'key':
                    ws.append(Write(Action.CREATE, 'a', 'b c', {'x': 1}))
                else:
                    ws.append(Write(Action.DELETE, 'nope', 'nope'))
                try:
                    w.storage.commit(repo, ws)
                    ctx.check(False, f'step {step}: commit of a bad batch ({bad}) succeeded')
                except (ValueError, KeyError):
                    pass
                ctx.count('failed_commits')
                kinds.add('fail')
                after = w.blocks()
                if not check_store(ctx, snap, after, f'step {step} failed commit'):
                    return
                snap = after
                if not check_head(ctx, w, w.storage, i, cur, f'step {step} after failed commit'):
                    return
                continue
            else:
                ws, new = lib.writes_for(rng, cur, rng.choice((1, 1, 2, 5, 30)), universe, rec_i)
                kinds.add('batch' if len(ws) > 1 else 'one')
            if rng.random() < .5:
                repo = repos[i] = w.storage.load_repo(lib.did(i))
            w.storage.commit(repo, ws)
            ctx.count('commits')
            contents[i] = new
            past[i].append(new)
            after = w.blocks()
            if not check_store(ctx, snap, after, f'step {step}'):
                return
            snap = after
            reader = w.storage if w.kind == 'memory' else w.new_storage()
            for j in repos:
                if j == i or rng.random() < .3:
                    if not check_head(ctx, w, reader, j, contents[j], f'step {step}, repo {j} after a commit to {i}'):
                        return
        ctx.sig(case['kind'], n, len(contents[0]).bit_length(),
                max(map(refmst.layer_of, contents[0]), default=0), sorted(kinds))
        ctx.sample({'backend': case['kind'], 'repos': n, 'records': len(contents[0]), 'kinds': sorted(kinds),
                    'blocks': len(snap)})
