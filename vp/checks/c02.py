"""C02: the MST is an immutable sorted map."""
import bisect
import itertools

from vp import lib, refmst

LEVEL = 'exploration'
TECHNIQUE = 'runtime monitor: model-based histories of the real MST against a sorted dictionary, with retained old versions re-read'
NOTE = 'All public reads of the explored trees and probes agreed with a plain sorted dictionary, and old versions stayed unchanged. Sampled histories and probes.'
RULE = ('random branching histories over MSTs (all key mixes, lazy reloads, failing operations, syntactically invalid '
        'paths); every read API is compared with a plain dict after each step and on every older tree kept. '
        'Distinct: (style/size bucket, height, which operation kinds and failures, branch depth).')
REQUIRED = ('reads', 'old_trees_rechecked', 'failed_ops', 'invalid_keys', 'boundary_keys', 'big_starts', 'paths', 'equal', 'unequal')

INVALID = ['', '/', 'a', 'a/', '/a', 'a/b/c', 'a//b', 'a/b/', '/a/b', 'a b/c', 'a/b c', 'a/é', 'é/a', 'a/b\n', '\na/b',
           'a\n/b', 'a/b\x00', 'a/b#c', 'a/b?', 'a/b%20', 'a/b@c', 'a/b!', 'a/(b)', 'a/b*', 'a/b+c', 'a/b,c', 'a/b=c',
           'a/b"', "a/b'", 'a/b\\c', 'a/b|', 'a/b[0]', 'a/b{', 'a/b$', 'a/b&c', 'a/b;c', 'a/b<', 'a/b^', 'a/b`',
           'a/😀', 'a/\u00df', 'a/b\t', ' a/b', 'a/b ', 'a/٣', 'ａ/b', 'com.example.a/' + 'x' * 243, 'a/' + 'x' * 300,
           'x' * 300 + '/a']
BOUNDARY = ['com.example.a/' + 'x' * 242, 'a/b', 'a/.', 'a/_', 'a/-', 'a/:', 'A.b-c/0:_.', '0/0', 'a/~', 'a~/~b', 'a/' + 'y' * 254]


def cases(tier, seed):
    n = 260 if tier == 'quick' else 6000
    return [{'seed': f'{seed}.{i}', 'size': (2, 6, 15, 40, 150)[i % 5]} for i in range(n)]


def setup():
    lib.boot()


def leaves(it):
    return [(l.key, bytes(l.value)) for l in it]


def check_reads(ctx, rng, t, m, universe, what, full=True):
    keys = sorted(m)
    items = [(k, m[k]) for k in keys]
    ctx.count('reads')
    probes = [rng.choice(universe) for _ in range(4)] + ([rng.choice(keys)] if keys else []) \
        + ['', '~', 'app.bsky.feed.post/', 'com.example.a/', 'zzz/zzz']
    for k in probes:
        got = t.get(k)
        if not ctx.check(lib.bcid(got) == m.get(k), f'{what}: get({k!r}) = {got}, expected '
                         f'{"absent" if k not in m else "present"} or another value'):
            return False
        got = leaves(t.walk_leaves_from(k))
        if not ctx.check(got == items[bisect.bisect_left(keys, k):], f'{what}: walk_leaves_from({k!r}) wrong: '
                         f'{len(got)} leaves, expected {len(items) - bisect.bisect_left(keys, k)}'):
            return False
    if not full:
        return True
    a, b = rng.choice(probes), rng.choice(probes)
    for after, before in ((None, None), (a, None), (None, b), (a, b)):
        got = leaves(t.list(after=after, before=before))
        want = [(k, v) for k, v in items if (not after or k > after) and (not before or k < before)]
        if not ctx.check(got == want, f'{what}: list(after={after!r}, before={before!r}) returned {len(got)}, '
                         f'expected {len(want)}'):
            return False
    for k in probes:
        got = [bytes(c) for c in t.cids_for_path(k)]
        if not ctx.check(got == refmst.path_to(m, k), f'{what}: cids_for_path({k!r}) has {len(got)} CIDs: {t.cids_for_path(k)}'):
            return False
        ctx.count('paths')
    k = rng.choice(universe)
    for prefix in ('', k, k[:rng.randrange(len(k) + 1)], k.split('/')[0], k.split('/')[0] + '/'):
        got = leaves(t.list_with_prefix(prefix))
        if not ctx.check(got == [i for i in items if i[0].startswith(prefix)],
                         f'{what}: list_with_prefix({prefix!r}) wrong'):
            return False
    ok = ctx.check(t.leaf_count() == len(m), f'{what}: leaf_count {t.leaf_count()} != {len(m)}')
    ok &= ctx.check(leaves(t.leaves()) == items, f'{what}: leaves() wrong')
    walked = [n for n in t.walk() if hasattr(n, 'key')]
    ok &= ctx.check(leaves(walked) == items, f'{what}: walk() leaves wrong')
    ok &= ctx.check(sum(1 for n in t.all_nodes()) == len(items) + len(refmst.build(m)[1]),
                    f'{what}: all_nodes() count wrong')
    return ok


def expect_fail(ctx, fn, what, exc=(ValueError, KeyError)):
    ctx.count('failed_ops')
    try:
        res = fn()
    except exc:
        ctx.evals += 1
    except Exception as e:
        ctx.check(False, f'{what}: raised {type(e).__name__} instead of failing cleanly: {e}')
    else:
        ctx.check(False, f'{what} succeeded: {res!r:.80}')


def run_case(case, ctx):
    from arroba.mst import MST
    rng = lib.rng_of(case['seed'])
    kind = rng.choice(('memory', 'memory', 'memory', 'datastore'))
    w = lib.World(kind)
    with w.ctx():
        universe = lib.key_universe(rng, case['size'] if kind == 'memory' else min(case['size'], 15))
        vals = itertools.count()
        kept = [(MST.create(storage=w.storage), {})]
        if case['size'] >= 40 and rng.random() < .6:    # start big
            t, m = kept[0]
            for k in rng.sample(universe, len(universe) - len(universe) // 8):
                v = lib.val_cid(next(vals) % 23)
                t, m = t.add(k, lib.acid(v)), {**m, k: v}
            ctx.count('big_starts')
            if not check_reads(ctx, rng, t, m, universe, 'start'):
                return
            kept = [(t, m)]
        shape = set()
        for step in range(rng.choice((10, 30, 60))):
            # usually continue from the newest tree, sometimes branch from an old one
            i = -1 if rng.random() < .8 else rng.randrange(len(kept))
            if i >= 0:
                shape.add('branch')
            t, m = kept[i]
            m = dict(m)
            k, v = rng.choice(universe), lib.val_cid(next(vals) % 23)
            before = bytes(t.get_pointer()) if rng.random() < .2 else None
            r = rng.random()
            if r < .12:
                bad = rng.choice(INVALID)
                for op in rng.sample(('add', 'update'), 1):
                    expect_fail(ctx, lambda: getattr(t, op)(bad, lib.acid(v)), f'{op} of invalid key {bad!r}')
                expect_fail(ctx, lambda: t.delete(bad), f'delete of invalid key {bad!r}')
                ctx.count('invalid_keys')
                shape.add('invalid')
                new = t
            elif r < .16:
                k = rng.choice(BOUNDARY)
                ctx.count('boundary_keys')
                if k in m:
                    new = t.delete(k)
                    del m[k]
                else:
                    new = t.add(k, lib.acid(v))
                    m[k] = v
            elif r < .24:
                if k in m:
                    expect_fail(ctx, lambda: t.add(k, lib.acid(v)), f'add of existing {k}')
                    shape.add('dup')
                else:
                    expect_fail(ctx, lambda: t.update(k, lib.acid(v)), f'update of missing {k}')
                    expect_fail(ctx, lambda: t.delete(k), f'delete of missing {k}')
                    shape.add('missing')
                new = t
            elif k not in m:
                new = t.add(k, lib.acid(v))
                m[k] = v
            elif rng.random() < .4:
                new = t.update(k, lib.acid(v))
                m[k] = v
                shape.add('update')
            else:
                new = t.delete(k)
                del m[k]
                shape.add('delete')
            if before is not None:
                ctx.check(bytes(t.get_pointer()) == before, f'step {step}: operation changed its input tree\'s root')
            if rng.random() < .15:
                root, un = new.get_unstored_blocks()
                for b in un.values():
                    b.seq, b.repo = 1, lib.did(0)
                if un:
                    w.storage.write_blocks(list(un.values()))
                if rng.random() < .6:
                    new = MST.load(storage=w.storage, cid=root)
                    shape.add('reload')
            if not check_reads(ctx, rng, new, m, universe, f'step {step}', full=rng.random() < .4):
                return
            kept.append((new, m))
            if len(kept) > 12:
                kept.pop(rng.randrange(11))
            if rng.random() < .3:
                t, m = rng.choice(kept)
                ctx.count('old_trees_rechecked')
                if not check_reads(ctx, rng, t, m, universe, f'older tree after step {step}'):
                    return
        for t, m in kept:
            ctx.count('old_trees_rechecked')
            if not check_reads(ctx, rng, t, m, universe, 'older tree at end'):
                return
            ctx.check(bytes(t.get_pointer()) == refmst.build(m)[0], 'older tree at end: root')
        t, m = kept[-1]
        for k in rng.sample(sorted(m), len(m)):     # the same contents by another way
            if rng.random() < .5:
                t = t.delete(k)
                kept.append((t, {x: v for x, v in kept[-1][1].items() if x != k}))
                kept.append((t.add(k, lib.acid(m[k])), {**kept[-1][1], k: m[k]}))
                break
        for (t1, m1), (t2, m2) in itertools.combinations(kept, 2):
            ctx.count('equal' if m1 == m2 else 'unequal')
            if not ctx.check(bool(t1 == t2) == (m1 == m2), f'trees of {len(m1)} and {len(m2)} keys compare {t1 == t2}'):
                return
        ctx.sig(kind, case['size'], max(map(refmst.layer_of, m), default=0), sorted(shape))
        ctx.sample({'kind': kind, 'keys': sorted(m)[:4], 'shape': sorted(shape), 'trees_kept': len(kept)})
