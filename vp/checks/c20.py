"""C20: a partial export since a revision is enough to catch up."""
from vp import cario, lib, refmst, web
from vp.checks import c18

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: for every earlier revision, an independent consumer holding exactly that revision\'s blocks adds the partial export over HTTP '
             'and walks the tree from the head; the export is also compared with the set of blocks the current repo uses')
NOTE = ('All pairs (earlier revision, current head) of random histories on both backends, including shared and recurring records, deferred reads and big trees. '
        'Known finding: tree nodes that an older commit or another repo stored first are left out, with everything below them.')
RULE = ('random histories of two repos; after several steps an export since every earlier revision of each. Distinct: (backend, revisions back bucket, '
        'size of the export bucket, height, kind).')
REQUIRED = ('exports', 'whole_since_first', 'partial', 'caught_up', 'since_head', 'deferred', 'big', 'same_state')
ISOLATE = True
CASE_TIMEOUT = 240


def cases(tier, seed):
    n, b = (90, 2) if tier == 'quick' else (2500, 30)
    return ([{'seed': f'{seed}.x', 'mode': 'directed', 'kind': 'datastore'}]
            + [{'seed': f'{seed}.b{i}', 'mode': 'big', 'kind': ('datastore', 'memory')[i % 2]} for i in range(b)]
            + [{'seed': f'{seed}.{i}', 'mode': 'hist', 'kind': ('datastore', 'memory')[i % 2]} for i in range(n)])


def setup():
    lib.boot(PDS_HOST='pds.example.com')
    web.app()


def run_case(case, ctx):
    globals()[case['mode']](case, ctx)


class Rev:
    """One revision of a repo, and every block of it."""

    def __init__(self, repo, contents):
        self.rev = repo.head.decoded['rev']
        self.seq = repo.head.seq
        self.head = bytes(repo.head.cid)
        self.root, self.nodes = refmst.build({p: lib.rec_cid(r) for p, r in contents.items()})
        self.n = len(contents)
        self.blocks = {self.head: bytes(repo.head.encoded), **self.nodes, **{lib.rec_cid(r): lib.enc(r) for r in contents.values()}}


def must_have(now, since_seq, stored):
    """Blocks the current tree reaches without passing under a node that was
    stored before since; and the other ones."""
    reach, todo = {now.head}, [now.root]
    while todo:
        cid = todo.pop()
        if cid in reach:
            continue
        if stored[cid][1] < since_seq:
            continue
        reach.add(cid)
        left, entries = refmst.parse_node(now.nodes[cid])
        todo += [x for x in [left, *(r for _, _, r in entries)] if x]
        reach |= {v for _, v, _ in entries}
    return reach


def catch_up(ctx, w, what, i, old, now, stored):
    resp = web.get('com.atproto.sync.getRepo', did=lib.did(i), since=old.rev)
    if not ctx.check(resp.status == 200, f'{what}: {resp}'):
        return False
    try:
        car = cario.Car(resp.data)
    except (cario.Bad, ValueError, IndexError, KeyError) as e:
        return ctx.check(False, f'{what}: not a valid archive: {e}')
    ctx.count('exports')
    unused = car.blocks.keys() - now.blocks.keys()
    if not (ctx.check(car.roots == [now.head], f'{what}: rooted at {[cario.cid_str(c) for c in car.roots]}, not the head')
            and ctx.check(now.head in car.blocks, f'{what}: lacks the head commit')
            and ctx.check(not unused, f'{what}: has {len(unused)} blocks the current repo does not use')
            and ctx.check(all(now.blocks[c] == bytes(b) for c, b in car.blocks.items()), f'{what}: has wrong bytes')):
        return False
    have = {**old.blocks, **car.blocks}
    missing = now.blocks.keys() - have.keys()
    must = missing & must_have(now, old.seq, stored)
    kind = ['node' if c in now.nodes else 'commit' if c == now.head else 'record' for c in must]
    if not ctx.check(not must, f'{what}: the consumer lacks {len(must)} of {len(now.blocks)} blocks, eg a {kind[:1]}'):
        return False
    if missing:
        ctx.check(False, f'{what}: the consumer lacks {len(missing)} blocks under nodes that were stored before that revision', 'old-node')
        return True
    ctx.count('caught_up')
    mapping, nodes = refmst.read_tree(cario.decode(have[now.head])['data'].cid, have.get)
    ctx.check(len(mapping) == now.n and all(v in have for v in mapping.values()), f'{what}: the consumer\'s repo is not the current one')
    if len(car.blocks) < len(now.blocks):
        ctx.count('partial')
    ctx.count('since_head', old is now)
    ctx.count('same_state', old is not now and old.root == now.root)
    return len(car.blocks)


def hist(case, ctx):
    rng = lib.rng_of(case['seed'])
    w = lib.World(case['kind'])
    ids = [0, 1]
    mix = lib.Mix(rng, ids, lib.key_universe(rng, rng.choice((3, 10, 40, 120))), p_bad=0.05)
    if case['kind'] == 'datastore' and rng.random() < .5:
        w.store.defer = c18.defer(rng, ctx)
    with w.ctx():
        repos = {i: lib.create_repo(w, i) for i in ids}
        revs = {i: [Rev(w.storage.load_repo(lib.did(i)), {})] for i in ids}
    steps = rng.choice((6, 14))
    check_at = {steps - 1, *rng.sample(range(steps), 2)}
    for step in range(steps):
        i = rng.choice(ids)
        ws, new, kind = mix.next(i)
        with w.ctx():
            repo = repos[i] if case['kind'] == 'memory' else w.storage.load_repo(lib.did(i))
            try:
                w.storage.commit(repo, ws)
            except Exception:
                if new is not None:
                    raise
                continue
            mix.done(i, new)
            revs[i].append(Rev(repo, new))
        if step in check_at:
            stored = w.blocks()
            for j in ids:
                now = revs[j][-1]
                for k, old in enumerate(revs[j]):
                    back = len(revs[j]) - 1 - k
                    n = catch_up(ctx, w, f'step {step} ({kind}): repo {j} ({now.n} records) since {back} revisions ago ({old.n} records)', j, old, now, stored)
                    if n is False:
                        return
                    ctx.count('whole_since_first', k == 0 and n == len(now.blocks))
                    ctx.sig(case['kind'], min(back, 5), min(n, 12), max(map(refmst.layer_of, mix.contents[j]), default=0), kind)
    ctx.sample({'backend': case['kind'], 'revisions': [len(r) for r in revs.values()], 'records': [len(c) for c in mix.contents.values()]})


def big(case, ctx):
    from arroba.repo import Write
    from arroba.storage import Action
    rng = lib.rng_of(case['seed'])
    w = lib.World(case['kind'])
    contents, revs = {}, []
    with w.ctx():
        repo = lib.create_repo(w, 0)
        for c in range(7):
            ws = []
            for k in range(190):
                path = f'{lib.NSIDS[k % 4]}/3k{rng.randrange(10**9):09d}{c}{k}'
                rec = {'$type': 'x.y.z', 'i': c * 1000 + k if rng.random() < .95 else 5}
                ws.append(Write(Action.CREATE, *path.split('/'), rec))
                contents[path] = rec
            w.storage.commit(repo, ws)
            revs.append(Rev(repo, contents))
    if case['kind'] == 'datastore':
        w.store.defer = c18.defer(rng, ctx)
    stored = w.blocks()
    ctx.count('big')
    for old in revs:
        if catch_up(ctx, w, f'repo of {len(contents)} records since {old.n} records', 0, old, revs[-1], stored) is False:
            return
    ctx.sig('big', case['kind'])


def directed(case, ctx):
    """Two records, one removed and brought back; then export since it was gone."""
    from arroba.repo import Write
    from arroba.storage import Action
    w = lib.World(case['kind'])
    paths = [lib.layer_pool(0)[0], lib.layer_pool(1)[0], lib.layer_pool(2)[0]]
    recs = {p: {'$type': 'x.y.z', 'p': p} for p in paths}
    with w.ctx():
        repo = lib.create_repo(w, 0)
        w.storage.commit(repo, [Write(Action.CREATE, *p.split('/'), r) for p, r in recs.items()])
        w.storage.commit(repo, [Write(Action.DELETE, *paths[0].split('/'))])
        old = Rev(repo, {p: r for p, r in recs.items() if p != paths[0]})
        w.storage.commit(repo, [Write(Action.CREATE, *paths[0].split('/'), recs[paths[0]])])
        now = Rev(repo, recs)
    catch_up(ctx, w, 'a record removed and brought back, since it was gone', 0, old, now, w.blocks())
