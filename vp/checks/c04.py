"""C04: tree diffs are exact and compose."""
import itertools

from vp import cario, lib, refmst

LEVEL = 'exploration'
TECHNIQUE = 'runtime monitor: diffs of random tree pairs compared with dictionary and block-set differences'
NOTE = 'Diffs of the explored tree pairs were exact against independent set arithmetic over an independent tree reader.'
RULE = ('pairs and chains of trees (related by random edits, unrelated, emptied, different heights), each side live, saved or '
        'lazily reloaded, diffed and compared with a dictionary diff and with block sets from an independent tree builder. '
        'Distinct: (size buckets, heights of both sides, which side is loaded, kinds of change).')
REQUIRED = ('diffs', 'null_diffs', 'chains', 'height_changes', 'loaded_diffs', 'empty_sides', 'moved_values')


def cases(tier, seed):
    n = 400 if tier == 'quick' else 9000
    return [{'seed': f'{seed}.{i}', 'size': (2, 5, 12, 40, 120)[i % 5]} for i in range(n)]


def setup():
    lib.boot()


def blockset(m):
    root, nodes = refmst.build(m)
    return root, set(nodes), set(nodes) | set(m.values())


def make(w, m, rng, how):
    from arroba.mst import MST
    keys = list(m)
    rng.shuffle(keys)
    t = MST.create(storage=w.storage)
    for k in keys:
        t = t.add(k, lib.acid(m[k]))
    return how_tree(w, t, how)


def how_tree(w, t, how):
    from arroba.mst import MST
    if how == 'live':
        return t
    root, un = t.get_unstored_blocks()
    for b in un.values():
        b.seq, b.repo = 1, lib.did(0)
    if un:
        w.storage.write_blocks(list(un.values()))
    return t if how == 'saved' else MST.load(storage=w.storage, cid=root)


def key_changes(d):
    return ({k: lib.bcid(c.cid) for k, c in d.adds.items()},
            {k: (lib.bcid(c.prev), lib.bcid(c.cid)) for k, c in d.updates.items()},
            {k: lib.bcid(c.cid) for k, c in d.deletes.items()})


def want_changes(a, b):
    return ({k: v for k, v in b.items() if k not in a},
            {k: (a[k], v) for k, v in b.items() if k in a and a[k] != v},
            {k: v for k, v in a.items() if k not in b})


def short(x):
    return {k: '..' for k in list(x)[:6]}


def check_diff(ctx, d, a, b, what):
    """a is None for the null diff."""
    base = a or {}
    got, want = key_changes(d), want_changes(base, b)
    for name, g, x in zip(('adds', 'updates', 'deletes'), got, want):
        if not ctx.check(g == x, f'{what}: {name} {sorted(g)[:6]} ({len(g)}), expected {sorted(x)[:6]} ({len(x)})'
                         + (' with other values' if g.keys() == x.keys() else '')):
            return False
    for name, changes in (('adds', d.adds), ('updates', d.updates), ('deletes', d.deletes)):
        ctx.check(all(c.key == k for k, c in changes.items()), f'{what}: {name} entry under another key')
    new = {bytes(c) for c in d.new_cids}
    removed = {bytes(c) for c in d.removed_cids}
    _, nodes_b, all_b = blockset(b)
    old = blockset(a)[2] if a is not None else set()
    missing = all_b - ((old - removed) | new)
    ok = ctx.check(not missing, f'{what}: {len(missing)} blocks of the new tree are neither kept nor in new_cids: '
                   f'{[cario.cid_str(c) for c in list(missing)[:3]]}')
    gone = removed & nodes_b
    ok &= ctx.check(not gone, f'{what}: removed_cids names {len(gone)} node(s) the new tree still uses')
    if a is not None:
        nodes_a = blockset(a)[1]
        ok &= ctx.check(not new & nodes_a, f'{what}: new_cids names {len(new & nodes_a)} node(s) the old tree already has')
        stay = nodes_a - nodes_b - removed
        ok &= ctx.check(not stay, f'{what}: removed_cids lacks {len(stay)} node(s) only the old tree has')
    # nothing unrelated to either tree
    alien = (new | removed) - all_b - old
    ok &= ctx.check(not alien, f'{what}: {len(alien)} CIDs belong to neither tree')
    if a is None:
        ok &= ctx.check(new == all_b, f'{what}: null diff new_cids has {len(new)} of {len(all_b)} blocks')
    return ok


def edit(rng, m, universe, vals, n):
    m = dict(m)
    kinds = set()
    for _ in range(n):
        k = rng.choice(universe)
        r = rng.random()
        if k not in m:
            # sometimes move or share an existing value
            if m and r < .2:
                m[k] = rng.choice(sorted(m.values()))
                kinds.add('share')
            else:
                m[k] = lib.val_cid(next(vals))
            kinds.add('add')
        elif r < .5:
            del m[k]
            kinds.add('del')
        else:
            m[k] = lib.val_cid(next(vals))
            kinds.add('upd')
    return m, kinds


def run_case(case, ctx):
    from arroba.diff import Diff, mst_diff, null_diff
    rng = lib.rng_of(case['seed'])
    w = lib.World(rng.choice(('memory', 'memory', 'memory', 'datastore')))
    with w.ctx():
        universe = lib.key_universe(rng, case['size'])
        vals = itertools.count()
        hows = ('live', 'saved', 'loaded')
        a, _ = edit(rng, {}, universe, vals, rng.randrange(2 * case['size'] + 1))
        for _ in range(3):
            r = rng.random()
            if r < .1:
                b, kinds = {}, {'empty'}
            elif r < .2:
                b, kinds = edit(rng, {}, lib.key_universe(rng, case['size']), vals, case['size'])
                kinds.add('unrelated')
            elif r < .3 and a:
                top = max(map(refmst.layer_of, a))
                b, kinds = {k: v for k, v in a.items() if refmst.layer_of(k) < top}, {'lower'}
            else:
                b, kinds = edit(rng, a, universe, vals, rng.choice((0, 1, 1, 2, 5, case['size'])))
            if rng.random() < .3:
                a, b = b, a
            ha, hb = rng.choice(hows), rng.choice(hows)
            ta, tb = make(w, a, rng, ha), make(w, b, rng, hb)
            what = f'diff({len(a)} keys {ha} -> {len(b)} keys {hb}, {sorted(kinds)})'
            d = rng.choice((lambda: mst_diff(tb, ta), lambda: Diff.of(tb, ta)))()
            ctx.count('diffs')
            la = max(map(refmst.layer_of, a), default=0)
            lb = max(map(refmst.layer_of, b), default=0)
            if la != lb:
                ctx.count('height_changes')
            if 'loaded' in (ha, hb):
                ctx.count('loaded_diffs')
            if not a or not b:
                ctx.count('empty_sides')
            if 'share' in kinds:
                ctx.count('moved_values')
            if not check_diff(ctx, d, a, b, what):
                return
            nd = rng.choice((lambda: mst_diff(tb), lambda: null_diff(tb)))()
            ctx.count('null_diffs')
            if not check_diff(ctx, nd, None, b, f'null diff of {len(b)} keys {hb}'):
                return
            ctx.sig(len(a).bit_length(), len(b).bit_length(), la, lb, ha, hb, sorted(kinds))
            ctx.sample({'from': sorted(a)[:3], 'to': sorted(b)[:3], 'how': [ha, hb], 'adds': len(d.adds),
                        'updates': len(d.updates), 'deletes': len(d.deletes)})

        # chains: evolve one tree and accumulate
        cur, t = dict(a), make(w, a, rng, rng.choice(hows))
        start, t0 = dict(cur), t
        total = Diff()
        few = rng.sample(universe, min(len(universe), 4))  # so keys change repeatedly
        for i in range(rng.choice((2, 3, 5))):
            nxt, _ = edit(rng, cur, few, vals, rng.choice((1, 2, 4)))
            if rng.random() < .2:
                nxt = {**nxt, **{k: start[k] for k in few if k in start}}
            t2 = t
            for k in sorted(set(cur) | set(nxt)):
                if k not in nxt:
                    t2 = t2.delete(k)
                elif k not in cur:
                    t2 = t2.add(k, lib.acid(nxt[k]))
                elif cur[k] != nxt[k]:
                    t2 = t2.update(k, lib.acid(nxt[k]))
            t2 = how_tree(w, t2, rng.choice(hows))
            d = mst_diff(t2, t)
            if not check_diff(ctx, d, cur, nxt, f'chain step {i}'):
                return
            total.add_diff(d)
            ctx.count('chains')
            got, want = key_changes(total), want_changes(start, nxt)
            for name, g, x in zip(('adds', 'updates', 'deletes'), got, want):
                if not ctx.check(g == x, f'accumulated {name} after {i + 1} diffs: {sorted(g)}, endpoints differ by '
                                 f'{sorted(x)}' + (' (values differ)' if g.keys() == x.keys() else ''),
                                 step=i):
                    return
            cur, t = nxt, t2
        if not check_diff(ctx, mst_diff(t, t0), start, cur, 'chain endpoints'):
            return
