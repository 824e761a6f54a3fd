"""C06: a served record comes with a complete, correct proof."""
import itertools

from vp import cario, lib, refmst, sigs, web

LEVEL = 'exploration'
TECHNIQUE = 'runtime monitor: independent verifier that checks every getRecord archive from its own bytes, for every record of random repos'
NOTE = ('For the explored repos, every sampled present path was proven by an independent verifier holding only the returned '
        'archive and the repo key, and every sampled absent path was refused. Fake Datastore; sampled repos.')
RULE = ('random repos (0..1500 records, key mixes up to tall trees, shared records, histories with deletes, both backends); '
        'present paths at every layer and absent paths (deleted, neighbours, other collection or rkey, prefix) asked over HTTP; '
        'distinct: (backend, tree height, layer of the path, size bucket, kind of absence).')
REQUIRED = ('proofs', 'absent', 'layers_seen', 'multi_layer_proofs', 'shared_nodes')


def cases(tier, seed):
    n = 90 if tier == 'quick' else 2500
    sizes = (0, 1, 2, 5, 20, 60, 150) if tier == 'quick' else (0, 1, 2, 5, 20, 60, 150, 400, 1500)
    return [{'seed': f'{seed}.{i}', 'kind': ('memory', 'datastore', 'memory')[i % 3],
             'size': sizes[i % len(sizes)]} for i in range(n)]


def setup():
    lib.boot()
    web.app()


def verify_proof(ctx, data, did, pub, head, path, record):
    """Verifier holding only data, the DID and its key. head/path/record: expected."""
    try:
        car = cario.Car(data)
        if not ctx.check(car.roots == [head], f'{path}: archive is not rooted at the current head'):
            return None
        if not ctx.check(head in car.blocks, f'{path}: archive lacks the commit'):
            return None
        commit = cario.decode(car.blocks[head])
        why = sigs.verify(commit, pub)
        if not ctx.check(not why and commit.get('did') == did, f'{path}: commit {commit.get("did")} {why}'):
            return None
        cid, depth, found = commit['data'].cid, 0, None
        while cid:
            if not ctx.check(cid in car.blocks, f'{path}: proof is incomplete, lacks the tree node at depth {depth}'):
                return None
            left, entries = refmst.parse_node(car.blocks[cid])
            depth += 1
            cid = left
            for k, v, right in entries:
                if k == path:
                    found, cid = v, None
                    break
                if k.encode() > path.encode():
                    break
                cid = right
        if not ctx.check(found == lib.rec_cid(record), f'{path}: proof leads to another CID'):
            return None
        if not ctx.check(found in car.blocks, f'{path}: archive lacks the record'):
            return None
        ctx.check(cario.decode(car.blocks[found]) == cario.plain(record), f'{path}: record differs')
        return depth
    except cario.Bad as e:
        ctx.check(False, f'{path}: archive cannot be read: {e}')


def run_case(case, ctx):
    rng = lib.rng_of(case['seed'])
    w = lib.World(case['kind'])
    n = case['size']
    with w.ctx():
        repo = lib.create_repo(w, 0)
        other = lib.create_repo(w, 1)
        universe = lib.key_universe(rng, max(4, 2 * n), rng.choice((None, 'tall', 'layers', 'prefix', 'plain')))
        rec_i = itertools.count()
        contents, deleted = {}, set()
        pool = [lib.record(rng, 10**6 + j) for j in range(3)]

        def commit(ws, new):
            nonlocal contents
            for k in range(0, len(ws), 190):
                w.storage.commit(repo, ws[k:k + 190])
            deleted.update(set(contents) - set(new))
            contents = new
        if n:
            from arroba.repo import Write
            from arroba.storage import Action
            new = {p: rng.choice(pool) if rng.random() < .1 else lib.record(rng, next(rec_i))
                   for p in rng.sample(universe, n)}
            if rng.random() < .4:   # the other repo has some of it first
                some = {p: r for p, r in sorted(new.items()) if rng.random() < rng.choice((1, 1, .95, .5))}
                for k in range(0, len(some), 190):
                    w.storage.commit(other, [Write(Action.CREATE, *p.split('/'), r) for p, r in list(some.items())[k:k + 190]])
            commit([Write(Action.CREATE, *p.split('/'), r) for p, r in new.items()], new)
            nodes, have = refmst.build({p: lib.rec_cid(r) for p, r in new.items()})[1], w.blocks()
            ctx.count('shared_nodes', sum(c in have and have[c][2] == lib.did(1) for c in nodes))
            for _ in range(rng.choice((0, 1, 4))):
                ws, new = lib.writes_for(rng, contents, rng.choice((1, 5, max(1, n // 2))), universe, rec_i)
                commit(ws[:190], new) if len(ws) <= 190 else None
        w.storage.commit(other, lib.writes_for(rng, {}, 3, ['com.example.other/' + x for x in 'abcde'], rec_i)[0])

        asker = lib.did(0) if rng.random() < .8 else 'h0.example.com'
        head = bytes(w.storage.load_repo(lib.did(0)).head.cid)
        pub = lib.privkey(0).public_key()
        height = max(map(refmst.layer_of, contents), default=0)
        paths = sorted(contents)
        some = paths if len(paths) < 60 else rng.sample(paths, 50) + sorted(paths, key=refmst.layer_of)[-10:] + [paths[0], paths[-1]]
        for path in some:
            coll, rk = path.split('/')
            r = web.get('com.atproto.sync.getRecord', did=lib.did(0), collection=coll, rkey=rk)
            if not ctx.check(r.status == 200, f'present {path}: {r}'):
                return
            depth = verify_proof(ctx, r.data, lib.did(0), pub, head, path, contents[path])
            if depth is None:
                return
            ctx.count('proofs')
            ctx.count('layers_seen', depth)
            if depth > 1:
                ctx.count('multi_layer_proofs')
            ctx.sig(case['kind'], height, refmst.layer_of(path), depth, n)
        absent = {('deleted', p) for p in deleted - set(contents)}
        absent |= {('unused', p) for p in set(universe) - set(contents)}
        for p in some[:10]:
            absent |= {('longer', p + 'a'), ('shorter', p[:-1])}
        absent |= {('random', k) for k in lib.key_universe(rng, 4, 'plain')}
        for why, path in sorted(absent)[:40]:
            coll, _, rk = path.partition('/')
            if path in contents or not rk or rk in ('.', '..'):
                continue
            r = web.get('com.atproto.sync.getRecord', did=lib.did(0), collection=coll, rkey=rk)
            ctx.count('absent')
            if not ctx.check(r.status == 400 and r.error == 'RecordNotFound', f'absent ({why}) {path}: {r}'):
                return
            ctx.sig(case['kind'], height, why)
        ctx.sample({'backend': case['kind'], 'records': len(contents), 'height': height, 'first': paths[:2]})
