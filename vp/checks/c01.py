"""C01: the MST root is a pure function of the contents, and is the spec's root."""
import itertools

from vp import cario, lib, refmst

LEVEL = 'exploration'
TECHNIQUE = 'runtime monitor: random edit histories on the real MST, each root compared with an independent specification tree builder'
NOTE = 'Every root and every stored node of the explored histories was compared with an independently written reference MST. Trusts the reference (vp/refmst.py, checked against the interop vectors) and SHA-256.'
RULE = ('random mappings (keys mined to cover MST layers 0..8, dense, tall and prefix-sharing mixes) reached '
        'by random histories of adds, updates, deletes, saves, reloads, lazy and eager hashing; the oracle is an independent '
        'bottom-up spec tree builder. Distinct: (size bucket, tree height, history shape, which step kinds).')
REQUIRED = ('roots_compared', 'reloads', 'emptied', 'height_shrunk', 'permutations', 'nodes_checked')


def cases(tier, seed):
    n = 320 if tier == 'quick' else 8000
    kinds = ['history'] * 5 + ['routes'] * 3 + ['perm'] * 2 + ['commit'] * 2
    return [{'kind': kinds[i % len(kinds)], 'seed': f'{seed}.{i}', 'size': (3, 8, 20, 60, 150)[i % 5]}
            for i in range(n)]


def setup():
    lib.boot()


def check_tree(ctx, mst, mapping, what, save_to=None):
    want, blocks = refmst.build(mapping)
    got = bytes(mst.get_pointer())
    ctx.count('roots_compared')
    if not ctx.check(got == want, f'{what}: root {cario.cid_str(got)} != spec root {cario.cid_str(want)} '
                     f'for {len(mapping)} keys', contents=sorted(mapping)[:20]):
        return False
    if save_to is not None:
        root, unstored = mst.get_unstored_blocks()
        ctx.check(bytes(root) == want, f'{what}: get_unstored_blocks root differs')
        for b in unstored.values():
            b.seq = 1
        save_to.write_blocks(list(unstored.values()))

        def get(c):
            b = save_to.read(lib.acid(c))
            return b and bytes(b.encoded)
        try:
            m, nodes = refmst.read_tree(want, get)
            ctx.count('nodes_checked', len(nodes))
            ctx.check(m == mapping, f'{what}: stored tree has other contents')
        except (refmst.Invalid, cario.Bad) as e:
            ctx.check(False, f'{what}: stored tree: {e}')
    return True


def height(mapping):
    return max(map(refmst.layer_of, mapping), default=0)


def run_case(case, ctx):
    rng = lib.rng_of(case['seed'])
    globals()['case_' + case['kind']](case, ctx, rng)


def case_history(case, ctx, rng):
    """Random history; checks the root at random points."""
    from arroba.mst import MST
    w = lib.World('memory')
    universe = lib.key_universe(rng, case['size'])
    m, cur, vals = {}, MST.create(storage=w.storage), itertools.count()
    eager = rng.random() < .3
    shape = set()
    for step in range(rng.choice((20, 60, 150))):
        h = height(m)
        r = rng.random()
        if rng.random() < .02:  # empty it out
            order = list(m)
            rng.shuffle(order)
            for k in order:
                cur = cur.delete(k)
                del m[k]
            ctx.count('emptied')
            shape.add('empty')
            if rng.random() < .5:
                continue
        elif r < .15:
            if not check_tree(ctx, cur, m, f'step {step} (save)', w.storage):
                return
            if rng.random() < .6:
                cur = MST.load(storage=w.storage, cid=cur.get_pointer())
                ctx.count('reloads')
                shape.add('reload')
            continue
        else:
            k = rng.choice(universe)
            v = lib.val_cid(next(vals) % 17)
            if k not in m:
                cur = cur.add(k, lib.acid(v))
                m[k] = v
            elif rng.random() < .4:
                cur = cur.update(k, lib.acid(v))
                m[k] = v
                shape.add('update')
            else:
                cur = cur.delete(k)
                del m[k]
                shape.add('delete')
        if height(m) < h:
            ctx.count('height_shrunk')
            shape.add('shrink')
        if eager or rng.random() < .1:
            if not check_tree(ctx, cur, m, f'step {step}'):
                return
    check_tree(ctx, cur, m, 'final', w.storage)
    ctx.sig('history', len(m).bit_length(), height(m), sorted(shape), eager)
    ctx.sample({'keys': sorted(m)[:5], 'n': len(m), 'height': height(m), 'steps': sorted(shape)})


def case_routes(case, ctx, rng):
    """The same mapping by different routes, incl. detours through other keys."""
    from arroba.mst import MST
    w = lib.World('memory')
    universe = lib.key_universe(rng, case['size'])
    keys = [k for k in universe if rng.random() < .6]
    m = {k: lib.val_cid(i) for i, k in enumerate(keys)}
    for route in range(4):
        cur = MST.create(storage=w.storage)
        ops = [('add', k) for k in keys]
        rng.shuffle(ops)
        todo, extra, now = [], [k for k in universe if k not in m], set()
        for op in ops:
            todo.append(op)
        for k in extra:
            if rng.random() < .6:
                i = rng.randrange(len(todo) + 1)
                todo.insert(i, ('add', k))
                todo.insert(rng.randrange(i + 1, len(todo) + 1), ('del', k))
        for op, k in todo:
            if op == 'add':
                v = m.get(k) or lib.val_cid(99)
                if rng.random() < .2:
                    cur = cur.add(k, lib.acid(lib.val_cid(1234))).update(k, lib.acid(v))
                else:
                    cur = cur.add(k, lib.acid(v))
            else:
                cur = cur.delete(k)
            if route and rng.random() < .15:
                _, un = cur.get_unstored_blocks()
                for b in un.values():
                    b.seq = 1
                w.storage.write_blocks(list(un.values()))
                if rng.random() < .7:
                    cur = MST.load(storage=w.storage, cid=cur.get_pointer())
                    ctx.count('reloads')
        if not check_tree(ctx, cur, m, f'route {route}', w.storage):
            return
        ctx.sig('route', len(m).bit_length(), height(m), route, bool(extra))


def case_perm(case, ctx, rng):
    """All orders of small key sets, then all single deletes, all the way down."""
    from arroba.mst import MST
    w = lib.World('memory')
    top = lib.max_layer()
    layers = [rng.randrange(top + 1) if rng.random() < .7 else 0 for _ in range(rng.choice((2, 3, 4, 5)))]
    keys = []
    for l in layers:
        k = rng.choice(lib.layer_pool(l, 300))
        if k not in keys:
            keys.append(k)
    m = {k: lib.val_cid(i) for i, k in enumerate(keys)}
    perms = list(itertools.permutations(keys))
    rng.shuffle(perms)
    for p in perms[:60]:
        cur = MST.create(storage=w.storage)
        for k in p:
            cur = cur.add(k, lib.acid(m[k]))
        ctx.count('permutations')
        if not check_tree(ctx, cur, m, f'order {p}'):
            return
        left = dict(m)
        for k in rng.sample(keys, len(keys)):
            cur = cur.delete(k)
            del left[k]
            if not check_tree(ctx, cur, left, f'order {p} deleted to {len(left)}'):
                return
        # and build again on top of the emptied tree
        ctx.count('emptied')
        k = keys[-1]
        if not check_tree(ctx, cur.add(k, lib.acid(m[k])), {k: m[k]}, f're-add {k} after emptying {p}'):
            return
    ctx.sig('perm', tuple(map(refmst.layer_of, sorted(keys))))


def case_commit(case, ctx, rng):
    """Through repo commits: the data root signed into each commit."""
    kind = rng.choice(('memory', 'memory', 'datastore'))
    w = lib.World(kind)
    with w.ctx():
        repo = lib.create_repo(w, 1)
        universe = lib.key_universe(rng, min(case['size'], 40))
        contents, rec_i = {}, itertools.count()
        for step in range(6):
            ws, contents = lib.writes_for(rng, contents, rng.choice((0, 1, 1, 2, 5, 20)), universe, rec_i)
            if rng.random() < .1:
                from arroba.repo import Write
                from arroba.storage import Action
                ws += [Write(Action.DELETE, *p.split('/')) for p in contents]
                contents = {}
                ctx.count('emptied')
            w.storage.commit(repo, ws)
            if rng.random() < .5:
                repo = w.storage.load_repo(repo.did)
                ctx.count('reloads')
            want, _ = lib.expected_tree(contents)
            got = bytes(repo.head.decoded['data'])
            ctx.count('roots_compared')
            if not ctx.check(got == want, f'{kind} commit {step}: data root is not the spec root of its '
                             f'{len(contents)} records'):
                return
            try:
                _, nodes = refmst.read_tree(got, lambda c: (b := w.storage.read(lib.acid(c))) and bytes(b.encoded))
                ctx.count('nodes_checked', len(nodes))
            except refmst.Invalid as e:
                ctx.check(False, f'{kind} commit {step}: {e}')
                return
        ctx.sig('commit', kind, len(contents).bit_length(), case['size'])
