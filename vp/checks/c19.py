"""C19: import accepts exactly authentic archives and preserves contents."""
import itertools

from vp import cario, lib, refmst, sigs, web
from vp.checks import c15, c18
from vp.evcheck import Consumer, TID, tid_of

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: archives exported by the library and archives built, signed and damaged by independent code are imported over HTTP; '
             'a model of every repo on the server, its event log and the stored blocks decides acceptance, preservation and refusal')
NOTE = ('Random repos (up to hundreds of records, both curves, any block order, shared blocks with repos already there) imported into both backends, '
        'then read, activated, written to, followed as a consumer and exported again; some twenty kinds of damage, each applied to archives '
        'that import when undamaged. DID resolution is stubbed at the HTTP session. Known finding: revs after an import may restart lower.')
RULE = ('source (export, hand-built) x curve x block order x contents x backend, then life after import; damage kinds x archives. '
        'Distinct: (backend, source, curve, order, size, height) and (backend, damage).')
REQUIRED = ('imported', 'activated', 'commits_after', 'reloaded', 'refused', 'shared_blocks', 'p256', 'empty_records', 'flips', 'existing_dids', 'incomplete', 'bad_sigs', 'malformed',
            'more_roots', 'spare_blocks', 'puts_over')
ISOLATE = True
CASE_TIMEOUT = 240
TOKEN = 'imp-token-4'
CTYPE = 'application/vnd.ipld.car'


def cases(tier, seed):
    n, m = (48, 40) if tier == 'quick' else (1500, 1500)
    out = [{'mode': 'regress', 'seed': f'{seed}.x', 'kind': 'datastore'}]
    for i in range(max(n, m)):
        out.append({'mode': 'good', 'seed': f'{seed}.{i}', 'kind': ('datastore', 'memory')[i % 2]})
        out.append({'mode': 'bad', 'seed': f'{seed}.b{i}', 'kind': ('memory', 'datastore')[i % 2]})
    return out


def setup():
    lib.boot(REPO_TOKEN=TOKEN, PDS_HOST='pds.example.com', PLC_HOST='plc.example.com')
    web.app()


def run_case(case, ctx):
    globals()[case['mode']](case, ctx)


# resolution
class R:
    ok, headers, content, text = True, {}, b'', ''

    def __init__(self, doc):
        self.doc, self.status_code = doc, 200

    def raise_for_status(self):
        pass

    def json(self):
        return self.doc


def resolve_from(docs):
    import requests
    import webutil.util
    from arroba import did as did_mod

    def get(url, **kw):
        d = url.rsplit('/', 1)[-1]
        if docs.get(d) is None:
            raise requests.ConnectionError(f'no {url}')
        return R(docs[d])
    webutil.util.session.get = get
    getattr(did_mod.resolve_plc, 'cache', {}).clear()


def doc_for(d, key, handle, rng):
    from cryptography.hazmat.primitives import serialization as ser
    pub = key.public_key().public_bytes(ser.Encoding.X962, ser.PublicFormat.CompressedPoint)
    codec = b'\xe7\x01' if key.curve.name == 'secp256k1' else b'\x80\x24'
    vms = [{'id': d + '#atproto', 'type': 'Multikey', 'controller': d, 'publicKeyMultibase': 'z' + lib.b58(codec + pub)}]
    return {'@context': ['https://www.w3.org/ns/did/v1'], 'id': d, 'alsoKnownAs': [f'at://{handle}'], 'verificationMethod': vms,
            'service': [{'id': '#atproto_pds', 'type': 'AtprotoPersonalDataServer', 'serviceEndpoint': 'https://old.example.com'}]}


# archives
class Archive:
    """A repo elsewhere: everything needed to write its CAR and its DID document."""

    def __init__(self, rng, extra_records=()):
        from cryptography.hazmat.primitives.asymmetric import ec
        self.did, self.handle = lib.did(7), 'h7.example.com'
        self.source = rng.choice(('export', 'built', 'built'))
        n = rng.choice((0, 1, 2, 5, 20, 60, 60, 300))
        uni = lib.key_universe(rng, max(n, 3)) if n < 300 else lib.sparse_keys(rng, n)
        if self.source == 'export':
            w = lib.World('memory')
            for _ in range(rng.choice((0, 50))):
                w.storage.sequences.allocate('com.atproto.sync.subscribeRepos')
            repo = lib.create_repo(w, 7)
            mix = lib.Mix(rng, [7], uni, p_bad=0)
            for _ in range(rng.choice((1, 4))):
                ws, new, _ = mix.next(7)
                w.storage.commit(repo, ws)
                mix.done(7, new)
            if extra_records:
                from arroba.repo import Write
                from arroba.storage import Action
                more = {f'com.example.sh/s{k}': r for k, r in enumerate(extra_records)}
                w.storage.commit(repo, [Write(Action.CREATE, *p.split('/'), r) for p, r in more.items()])
                mix.done(7, {**mix.contents[7], **more})
            self.contents = {p: cario.plain(r) for p, r in mix.contents[7].items()}
            self.key = lib.privkey(7)
            car = cario.Car(web.get('com.atproto.sync.getRepo', did=self.did).data)
            self.head, self.blocks = car.roots[0], dict(car.blocks)
            self.commit = cario.decode(self.blocks[self.head])
        else:
            curve = rng.choice((ec.SECP256K1, ec.SECP256R1))
            self.key = ec.derive_private_key(rng.randrange(2, 2**250), curve())
            self.contents = {}
            for k, p in enumerate(rng.sample(uni, min(n, len(uni)))):
                self.contents[p] = cario.plain(rng.choice((lib.record(rng, 10**7 + k), {}, {'$type': 'x.y.z', 'same': 1})))
            for k, r in enumerate(extra_records):
                self.contents[f'com.example.sh/s{k}'] = cario.plain(r)
            self.commit = {'version': 3, 'did': self.did, 'rev': tid_of(rng.choice((1, 5, 40, 10**9))) if rng.random() < .5
                           else '3' + ''.join(rng.choice(TID) for _ in range(12)),
                           'prev': rng.choice((None, cario.Link(lib.val_cid(3))))}
            self.blocks = {}
            self.build()
        self.tree = refmst.build({p: cario.cid_of(cario.encode(r)) for p, r in self.contents.items()})

    def build(self, resign=True, **over):
        """Makes the blocks from contents and commit, plus changed commit fields."""
        root, nodes = refmst.build({p: cario.cid_of(cario.encode(r)) for p, r in self.contents.items()})
        commit = {k: v for k, v in self.commit.items() if k != 'sig'}
        commit = {'data': cario.Link(root), **commit, **over}
        commit = {k: v for k, v in commit.items() if v != 'DROP'}
        self.commit = sigs.sign(commit, self.key) if resign else commit
        data = cario.encode(self.commit)
        self.head = cario.cid_of(data)
        self.blocks = {self.head: data, **nodes, **{cario.cid_of(e): e for e in map(cario.encode, self.contents.values())}}

    def car(self, rng=None, order=None, roots=None):
        items = list(self.blocks.items())
        if order == 'last':
            items = [x for x in items if x[0] != self.head] + [x for x in items if x[0] == self.head]
        elif order == 'shuffled':
            rng.shuffle(items)
        return cario.write_car([self.head] if roots is None else roots, items)


def post(car, token=TOKEN):
    return web.post('com.atproto.repo.importRepo', data=car, ctype=CTYPE, token=token)


def dest(rng, kind):
    """A server with two repos in use, and the model of them."""
    w = lib.World(kind)
    mix = lib.Mix(rng, [0, 1], lib.key_universe(rng, 8), p_bad=0)
    shared = [{'$type': 'com.example.sh', 'k': k} for k in range(3)]
    with w.ctx():
        repos = {i: lib.create_repo(w, i) for i in (0, 1)}
        for _ in range(rng.choice((1, 4))):
            i = rng.choice((0, 1))
            ws, new, _ = mix.next(i)
            w.storage.commit(repos[i], ws)
            mix.done(i, new)
        from arroba.repo import Write
        from arroba.storage import Action
        w.storage.commit(repos[0], [Write(Action.CREATE, 'com.example.sh', f's{k}', r) for k, r in enumerate(shared)])
        mix.done(0, {**mix.contents[0], **{f'com.example.sh/s{k}': r for k, r in enumerate(shared)}})
        if rng.random() < .3:
            w.storage.deactivate_repo(w.storage.load_repo(lib.did(1)))
    return w, mix, shared


def everyone(w):
    """Every repo, as stored, and the whole event log."""
    with w.ctx():
        return {'repos': sorted((r.did, r.handle, bytes(r.head.cid), r.status, bytes(r.mst.get_pointer())) for r in w.storage.load_repos()),
                'events': c15.events(w)}


def own_blocks(w):
    return {c: (b, s) for c, (b, s, _) in w.blocks().items()}


def good(case, ctx):
    from arroba.repo import Write
    from arroba.storage import Action
    rng = lib.rng_of(case['seed'])
    shared = [{'$type': 'com.example.sh', 'k': k} for k in range(3)]
    arc = Archive(rng, rng.sample(shared, rng.choice((0, 2))))
    w, mix, _ = dest(rng, case['kind'])
    resolve_from({arc.did: doc_for(arc.did, arc.key, arc.handle, rng)})
    order = rng.choice(('first', 'last', 'shuffled'))
    roots = None
    if rng.random() < .2:   # the first root is the head
        roots = [arc.head, rng.choice(sorted(arc.blocks))]
        ctx.count('more_roots')
    car = arc.car(rng, order, roots)
    if rng.random() < .15:  # blocks that come twice, or that nothing refers to
        more = [rng.choice(sorted(arc.blocks.items())), (lambda b: (cario.cid_of(b), b))(cario.encode({'spare': 1}))]
        car = cario.write_car(roots or [arc.head], [*arc.blocks.items(), *more])
        ctx.count('spare_blocks')
    before, blocks = everyone(w), own_blocks(w)
    ctx.count('shared_blocks', len(set(blocks) & set(arc.blocks)))
    what = f'import of a {arc.source} {arc.key.curve.name} archive, {len(arc.contents)} records, head {order}'
    resp = post(car)
    if not ctx.check(resp.status == 200, f'{what}: {resp}'):
        return
    d = arc.did
    with w.ctx():
        storage = w.storage if case['kind'] == 'memory' else w.new_storage()
        repo = storage.load_repo(d)
        if not (ctx.check(repo is not None, f'{what}: no repo')
                and ctx.check((repo.did, repo.handle, bytes(repo.head.cid), repo.status) == (d, arc.handle, arc.head, 'deactivated'),
                              f'{what}: is now {(repo.did, repo.handle, cario.cid_str(repo.head.cid), repo.status)}')
                and ctx.check({p: lib.bcid(e) for p, e in ((l.key, l.value) for l in repo.mst.list())} == {p: cario.cid_of(cario.encode(r)) for p, r in arc.contents.items()},
                              f'{what}: contents differ')):
            return
        if not ctx.check(repo.signing_key is not None and repo.rotation_key is not None, f'{what}: has no signing or rotation key of its own'):
            return
        nums = [k.private_numbers().private_value for k in (repo.signing_key, repo.rotation_key)]
        if not ctx.check(len({*nums, arc.key.private_numbers().private_value}) == 3, f'{what}: its keys are not new ones'):
            return
        by_handle = storage.load_repo(arc.handle)
        if not ctx.check(by_handle is not None and by_handle.did == d, f'{what}: not found by its handle'):
            return
    now, stored = everyone(w), own_blocks(w)
    if not (ctx.check([r for r in now['repos'] if r[0] != d] == before['repos'], f'{what}: other repos changed')
            and ctx.check(now['events'] == before['events'], f'{what}: changed the event stream: {[e for e in now["events"] if e not in before["events"]][:3]}')
            and ctx.check(all(stored.get(c) == b for c, b in blocks.items()), f'{what}: changed stored blocks')
            and ctx.check(all(c in stored and stored[c][0] == b for c, b in arc.blocks.items()), f'{what}: did not keep all blocks')):
        return
    ctx.count('imported')
    ctx.count('p256', arc.key.curve.name == 'secp256r1')
    ctx.count('empty_records', sum(r == {} for r in arc.contents.values()))
    ctx.sig(case['kind'], arc.source, arc.key.curve.name, order, len(arc.contents), max(map(refmst.layer_of, arc.contents), default=0))

    # deactivated
    path = next(iter(arc.contents), 'com.example.none/x')
    coll, rk = path.split('/')
    for nsid, params in c15.reads(d, coll, rk, cario.cid_str(arc.head)):
        resp = web.get(nsid, **params)
        if not ctx.check(resp.status >= 400 and resp.error == 'RepoDeactivated', f'{what}: {nsid} while deactivated: {resp}'):
            return
    mine = [r for r in web.get('com.atproto.sync.listRepos').json['repos'] if r['did'] == d]
    want = [{'did': d, 'head': cario.cid_str(arc.head), 'rev': arc.commit['rev'], 'active': False, 'status': 'deactivated'}]
    if not ctx.check(mine == want, f'{what}: listed as {mine}, not {want}'):
        return
    if rng.random() < .4 and not ctx.check(post(car).status >= 400 and everyone(w) == now, f'{what}: importing it again was not refused'):
        return

    # works normally once activated
    with w.ctx():
        storage.activate_repo(storage.load_repo(d))
    ctx.count('activated')
    after = everyone(w)
    if not ctx.check(after['events'][:len(before['events'])] == before['events'] and all(e[2] == d for e in after['events'][len(before['events']):]),
                     f'{what}: activating it changed other events'):
        return
    contents = {p: c18.lib_plain(r) for p, r in arc.contents.items()}
    past = set(w.blocks())
    if not c18.exported(ctx, w, f'{what}: export once activated', 7, contents, past):
        return
    for p in rng.sample(sorted(contents), min(len(contents), 4)):
        coll, rk = p.split('/')
        resp = web.get('com.atproto.repo.getRecord', repo=rng.choice((d, arc.handle)), collection=coll, rkey=rk)
        if not ctx.check(resp.status == 200 and resp.json['cid'] == cario.cid_str(lib.rec_cid(contents[p])), f'{what}: getRecord {p}: {resp}'):
            return
    resp = web.get('com.atproto.repo.describeRepo', repo=d)
    if not ctx.check(resp.status == 200 and resp.json['did'] == d and resp.json['handle'] == arc.handle, f'{what}: describeRepo {resp}'):
        return
    start = max((e[1] for e in after['events']), default=0)
    n = puts = 0
    known = {p: lib.rec_cid(r) for p, r in contents.items()}
    empty = [p for p in sorted(contents) if contents[p] == {}]
    for p in rng.sample(empty, min(len(empty), 2)) + rng.sample(sorted(contents), min(len(contents), 1)):   # replaced over HTTP
        if rng.random() < .3:
            continue
        coll, rk = p.split('/')
        rec = {'$type': 'com.example.rep', 'replaced': puts}
        resp = web.post('com.atproto.repo.createRecord', {'repo': d, 'collection': coll, 'rkey': rk, 'record': rec}, token=TOKEN)
        if not ctx.check(resp.status >= 400, f'{what}: createRecord over {contents[p]!r} at {p}: {resp}'):
            return
        resp = web.post('com.atproto.repo.putRecord', {'repo': d, 'collection': coll, 'rkey': rk, 'record': rec}, token=TOKEN)
        if not ctx.check(resp.status == 200, f'{what}: putRecord over {contents[p]!r} at {p}: {resp}'):
            return
        ctx.count('puts_over', contents[p] == {})
        contents = {**contents, p: rec}
        puts += 1
    mix7 = lib.Mix(rng, [7], sorted(set(lib.key_universe(rng, 5)) | set(rng.sample(sorted(contents), min(5, len(contents))))), p_bad=0.1)
    mix7.contents[7] = contents
    mix7.past[7] = [contents]
    made, bykey = {}, []
    for _ in range(rng.choice((1, 4))):
        ws, new, kind = mix7.next(7)
        if kind == 'bad-key' or any(x.record == {} for x in ws):   # {} can't be written
            continue
        with w.ctx():
            repo = storage.load_repo(d)
            try:
                storage.commit(repo, ws)
            except Exception:
                if new is not None:
                    raise
                continue
            if not ctx.check(new is not None, f'{what}: invalid batch ({kind}) was committed after the import'):
                return
            mix7.done(7, new)
            bykey.append((bytes(repo.head.encoded), repo.signing_key.public_key()))
    with w.ctx():   # others go on
        i = rng.choice((0, 1))
        other = w.storage.load_repo(lib.did(i))
        if not other.status:
            ws, new, _ = mix.next(i)
            w.storage.commit(other, ws)
            mix.done(i, new)
    # a consumer that knew the imported state follows
    cons = Consumer(ctx.check)
    cons.contents[d] = dict(known)
    cons.root[d], cons.commits[d] = refmst.build(cons.contents[d])[0], [arc.head]
    from arroba import firehose
    with w.ctx():
        for e in list(w.storage.read_events_by_seq(start + 1)):
            h, p = firehose.process_event(e)
            if p.get('repo') == d and not cons.feed(h, p):
                return
            n += p.get('repo') == d
    if not ctx.check(n == len(bykey) + puts, f'{what}: {len(bykey) + puts} commits made {n} events'):
        return
    ctx.count('commits_after', n)
    with w.ctx():
        storage2 = w.storage if case['kind'] == 'memory' else w.new_storage()
        repo = storage2.load_repo(d)
        pub = repo.signing_key.public_key()
        for enc, k in bykey:
            bad = sigs.verify(cario.decode(enc), pub)
            if not ctx.check(not bad, f'{what}: commit after import: {bad}'):
                return
        ctx.count('reloaded')
    past = set(w.blocks())
    if not c18.exported(ctx, w, f'{what}: export after {n} commits', 7, mix7.contents[7], past):
        return
    for i in (0, 1):
        with w.ctx():
            if w.storage.load_repo(lib.did(i)).status:
                continue
        if not c18.exported(ctx, w, f'{what}: export of repo {i} afterwards', i, mix.contents[i], past):
            return
    ctx.sample({'backend': case['kind'], 'source': arc.source, 'curve': arc.key.curve.name, 'order': order, 'records': len(arc.contents), 'commits_after': n})


def bad(case, ctx):
    rng = lib.rng_of(case['seed'])
    w, mix, shared = dest(rng, case['kind'])
    server_storage = w.storage
    arc = Archive(rng, rng.sample(shared, rng.choice((0, 2))))
    from arroba import server
    server.storage = server_storage     # the archive's world replaced it
    other = Archive(lib.rng_of(case['seed'], 'other'))
    server.storage = server_storage
    docs = {arc.did: doc_for(arc.did, arc.key, arc.handle, rng)}
    before = everyone(w)
    import copy
    ok_doc = docs[arc.did]

    def damage():
        """(name, counter, car bytes, documents)"""
        a = copy.copy(arc)
        a.blocks = dict(arc.blocks)
        yield 'no roots', None, arc.car(roots=[]), docs
        yield 'root is not there', None, arc.car(roots=[lib.val_cid(8)]), docs
        yield 'head block is not there', None, cario.write_car([arc.head], [x for x in arc.blocks.items() if x[0] != arc.head]), docs
        yield 'no blocks', None, cario.write_car([arc.head], []), docs
        yield 'empty body', None, b'', docs
        yield 'garbage', None, bytes(rng.randrange(256) for _ in range(rng.choice((1, 40, 3000)))), docs
        for name, over in (('no did', {'did': 'DROP'}), ('null did', {'did': None}), ('empty did', {'did': ''}), ('did is a number', {'did': 7}),
                           ('no data', {'data': 'DROP'}), ('null data', {'data': None}), ('data is a string', {'data': 'x'}),
                           ('data is not there', {'data': cario.Link(lib.val_cid(9))})):
            a.build(**over)
            yield name, None, a.car(rng, 'shuffled'), {**docs, '': ok_doc, '7': ok_doc}
            a.commit = arc.commit
        for name, node in malformed(cario.Link(cario.cid_of(cario.encode({'x': 1})))):
            data = cario.encode(node)
            a.build(data=cario.Link(cario.cid_of(data)))
            a.blocks[cario.cid_of(data)] = data
            a.blocks[cario.cid_of(cario.encode({'x': 1}))] = cario.encode({'x': 1})
            yield 'malformed tree: ' + name, 'malformed', a.car(rng, 'shuffled'), docs
            a.commit = arc.commit
        data = cario.encode(rng.choice(([], 'commit', 3, None, [arc.commit], {})))
        yield 'head is no commit', 'malformed', cario.write_car([cario.cid_of(data)], [(cario.cid_of(data), data), *arc.blocks.items()]), docs
        a.build()
        # signatures
        unsigned = {k: v for k, v in arc.commit.items() if k != 'sig'}
        for name, commit in (('no signature', unsigned), ('null signature', {**unsigned, 'sig': None}), ('empty signature', {**unsigned, 'sig': b''}),
                             ('zero signature', {**unsigned, 'sig': bytes(64)}), ('text signature', {**unsigned, 'sig': 'x' * 64}),
                             ('short signature', {**unsigned, 'sig': arc.commit['sig'][:-1]}),
                             ('long signature', {**unsigned, 'sig': arc.commit['sig'] + b'\0'}),
                             ('flipped signature', {**unsigned, 'sig': flip(rng, arc.commit['sig'])}),
                             ("someone else's key", sigs.sign(unsigned, lib.privkey(99))),
                             ('another commit\'s signature', {**unsigned, 'sig': other.commit['sig']}),
                             ('changed rev', {**arc.commit, 'rev': tid_of(77)}), ('changed prev', {**arc.commit, 'prev': cario.Link(lib.val_cid(4))}),
                             ('added field', {**arc.commit, 'extra': 1}), ('changed version', {**arc.commit, 'version': 2}),
                             ('signed for another DID', {**sigs.sign({**unsigned, 'did': lib.did(8)}, arc.key), 'did': arc.did})):
            data = cario.encode(commit)
            head = cario.cid_of(data)
            yield name, 'bad_sigs', cario.write_car([head], [(head, data)] + [x for x in arc.blocks.items() if x[0] != arc.head]), docs
        # replaced contents under the same signed commit's data
        for name, doc in (('DID document without keys', {**ok_doc, 'verificationMethod': []}), ('DID document without that field', {k: v for k, v in ok_doc.items() if k != 'verificationMethod'}),
                          ('other key', doc_for(arc.did, lib.privkey(98), arc.handle, rng)), ('unresolvable', None),
                          ('only a differently named key', {**ok_doc, 'verificationMethod': [{**ok_doc['verificationMethod'][0], 'id': arc.did + '#other'}]})):
            yield name, 'bad_sigs', arc.car(), {arc.did: doc}
        # blocks
        for _ in range(4):
            cid = rng.choice(sorted(arc.blocks))
            body = arc.blocks[cid]
            new = flip(rng, body) if rng.random() < .7 else rng.choice((body[:-1], body + b'\0', b'', cario.encode({'x': 1})))
            items = [(c, new if c == cid else b) for c, b in arc.blocks.items()]
            yield f'changed bytes of a {arc_kind(arc, cid)}', 'flips', cario.write_car([arc.head], items), docs
            items = [(flip(rng, c, 4) if c == cid else c, b) for c, b in arc.blocks.items()]
            yield f'changed CID of a {arc_kind(arc, cid)}', 'flips', cario.write_car([arc.head], items), docs
        extra = cario.encode({'evil': 1})
        yield 'an extra block that does not match its CID', 'flips', cario.write_car([arc.head], [*arc.blocks.items(), (lib.val_cid(5), extra)]), docs
        yield 'swapped blocks', 'flips', (lambda cs: cario.write_car([arc.head], zip(cs, [arc.blocks[c] for c in cs[1:] + cs[:1]])))(sorted(arc.blocks)) \
            if len(arc.blocks) > 1 else b'', docs
        # incomplete
        have = {c for c, (b, s) in own_blocks(w).items()}
        for cid in rng.sample(sorted(arc.blocks), min(4, len(arc.blocks))):
            yield (f'without a {arc_kind(arc, cid)}' + (' that is here already' if cid in have else ''), 'incomplete',
                   cario.write_car([arc.head], [x for x in arc.blocks.items() if x[0] != cid]), docs)
        car = arc.car()
        for cut in {rng.randrange(1, len(car)) for _ in range(4)} | {len(car) - 1}:
            yield f'cut at {cut} of {len(car)}', 'incomplete', car[:cut], docs
        # belongs to someone who is here already
        for i in (0, 1):
            b = copy.copy(arc)
            b.did = lib.did(i)
            b.build(did=b.did)
            yield 'DID that is here', 'existing_dids', b.car(rng, 'shuffled'), {b.did: doc_for(b.did, b.key, 'other.example.com', rng)}
            b.build(did=arc.did)
            b.commit = arc.commit

    todo = list(damage())
    rng.shuffle(todo)
    for name, counter, car, dd in todo:
        resolve_from(dd)
        resp = post(car)
        what = f'{name} ({arc.source}, {len(arc.contents)} records)'
        if not ctx.check(resp.status >= 400, f'{what}: imported: {resp}'):
            return
        if not ctx.check(everyone(w) == before, f'{what}: refused ({resp.status}), but repos or events changed'):
            return
        ctx.count('refused')
        if counter:
            ctx.count(counter)
        ctx.sig(case['kind'], name.split(' at ')[0])
    # tombstoned ones still exist
    with w.ctx():
        w.storage.tombstone_repo(w.storage.load_repo(lib.did(1)))
    before2 = everyone(w)
    b = copy.copy(arc)
    b.did = lib.did(1)
    b.build(did=b.did)
    resolve_from({b.did: doc_for(b.did, b.key, 'other.example.com', rng)})
    resp = post(b.car())
    ctx.count('existing_dids')
    if not ctx.check(resp.status >= 400 and everyone(w) == before2, f'archive of a tombstoned DID was imported: {resp}'):
        return
    # the undamaged one imports, so the refusals were for the damage
    resolve_from(docs)
    resp = post(arc.car(rng, 'shuffled'))
    ctx.check(resp.status == 200, f'undamaged archive: {resp}')
    ctx.sample({'backend': case['kind'], 'damages': len(todo), 'records': len(arc.contents)})


def malformed(link):
    entry = {'p': 0, 'k': b'com.example.a/x', 'v': link, 't': None}
    for name, node in (('a list', []), ('a number', 7), ('text', 'x'), ('null', None), ('empty', {}), ('a record', {'$type': 'com.example.a'})):
        yield name, node
    for name, e in (('text', 'x'), ('a number', 3), ('null', None), ('a number within', [5]), ('null within', [None]), ('text within', ['x']), ('an empty entry', [{}])):
        yield 'entries are ' + name, {'l': None, 'e': e}
    for k in entry:
        if k != 't':
            yield f'entry without {k}', {'l': None, 'e': [{x: y for x, y in entry.items() if x != k}]}
    for k, vals in (('p', ('x', b'')), ('k', (None, 5, b'x', b'', b'a/b/c', b'\xff/\xff', ['x'])), ('v', ([], {}, 5, 'x', None, b'')), ('t', (5, 'x', [], {}))):
        for v in vals:
            yield f'entry with {k} {v!r}', {'l': None, 'e': [{**entry, k: v}]}
    for v in (5, 'x', [], {}, link):
        yield f'left is {"a record" if v is link else repr(v)}', {'l': v, 'e': [entry]}


def arc_kind(arc, cid):
    return 'head' if cid == arc.head else 'node' if cid in arc.tree[1] else 'record'


def flip(rng, b, start=0):
    i = rng.randrange(start, len(b)) if len(b) > start else 0
    return b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]


def regress(case, ctx):
    """Directed: the first commit after an import against the imported rev."""
    from arroba.repo import Write
    from arroba.storage import Action
    rng = lib.rng_of(case['seed'])
    w, _, _ = dest(rng, case['kind'])
    storage = w.storage
    arc = Archive(lib.rng_of('regress'))
    arc.commit['rev'] = '3kzzzzzzzzzzz'
    arc.build()
    from arroba import server
    server.storage = storage
    resolve_from({arc.did: doc_for(arc.did, arc.key, arc.handle, rng)})
    if not ctx.check(post(arc.car()).status == 200, 'directed import refused'):
        return
    with w.ctx():
        storage.activate_repo(storage.load_repo(arc.did))
        repo = storage.load_repo(arc.did)
        storage.commit(repo, [Write(Action.CREATE, 'com.example.a', 'new', {'$type': 'com.example.a'})])
        rev = repo.head.decoded['rev']
    ctx.check(rev > arc.commit['rev'], f'the first commit after the import has rev {rev}, before the imported head\'s {arc.commit["rev"]}', 'rev-regress')
