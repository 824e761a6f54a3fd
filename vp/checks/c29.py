"""C29: PLC operations form a valid signed chain and derive the right DID."""
import copy

from vp import lib, plcdir

LEVEL = 'exploration'
TECHNIQUE = ('online monitor: every operation arroba posts goes to a directory written from the PLC specification, which checks fields, prev, signature and DID and answers as the real one '
             'does; a model of the fields that were to change is compared with the operation and with the document resolved afterwards')
NOTE = ('The directory also gets operations from other parties (other rotation keys, services, aliases, recovery forks that nullify), refuses and fails. An omitted pds_url is $PDS_HOST, '
        'as documented. Legacy "create" operations, tombstones and genesis operations with new_rotation_key are not exercised.')
RULE = ('random histories of create, update, rollback, other parties\' operations, races, faults and invalid requests. '
        'Distinct: (operation, fields given, shape of the previous operation).')
REQUIRED = ('created', 'updated', 'rolled_back', 'foreign', 'nullified', 'invalid', 'raced', 'get_faults', 'post_faults', 'rotated', 'unauthorized', 'handle_not_first', 'extra_fields',
            'rollback_past_nullified', 'default_pds', 'generated_keys', 'public_signing', 'kept_handle')
CASE_TIMEOUT = 240


def cases(tier, seed):
    q = tier == 'quick'
    return [{'seed': f'{seed}.{i}', 'steps': 12 if q else 25} for i in range(260 if q else 5000)]


def setup():
    lib.boot()


def p256(i):
    from cryptography.hazmat.primitives.asymmetric import ec
    return ec.derive_private_key(1000003 * (i + 1), ec.SECP256R1())


HANDLES = ('alice.example.com', 'bob.example.org', 'x.y', 'a-b.c-d.example', 'Mixed.Case.Example', 'xn--bcher-kva.example', 'l' * 63 + '.example.com', 'new.ie', '1.2.three')
ALIASES = ('http://han.dy/', 'https://web.example/@alice', 'acct:alice@example', 'ipns://abc', 'did:web:old.example', 'at://second.example', 'https://ünï.example/')
PDSES = ('https://pds.one', 'https://pds.two:8443', 'http://localhost:2583', 'https://pds.example/sub/path', 'https://PDS.Example/Path', 'https://pds.one:443')
BAD_HANDLES = (None, '', 1, b'a.com', 'nope', 'a b.com', 'c_d.org', '.x.net', 'x..net', 'x.net.', '-a.com', 'did:plc:x', 'a.com/b', 'a.com\n', ['a.com'], 'ünï.example')


class Sim:
    def __init__(self, rng, ctx):
        self.rng, self.ctx, self.dir = rng, ctx, plcdir.Directory()
        self.keys = [lib.privkey(700 + i) for i in range(6)]
        self.others = [p256(i) for i in range(3)]
        self.did = self.want = None

    def http(self):
        return {'get_fn': lambda url, **kw: self.dir.get(url, **kw), 'post_fn': lambda url, **kw: self.dir.post(url, **kw)}

    # model: what the head operation should say
    def model(self, op):
        first = next((a for a in op['alsoKnownAs'] if a.startswith('at://')), None)
        rest = list(op['alsoKnownAs'])
        if first:
            rest.remove(first)
        return {'handle': first and first.removeprefix('at://'), 'aliases': rest, 'rotation': op['rotationKeys'], 'methods': op['verificationMethods'], 'services': op['services']}

    def state(self):
        return copy.deepcopy(self.dir.logs)

    def signers(self):
        """Private keys that may sign the next operation, highest priority first."""
        rotation = self.dir.head(self.did)['operation']['rotationKeys']
        by = {plcdir.did_key(k): k for k in self.keys}
        return [by[k] for k in rotation if k in by]

    def verify(self, what, before, want, result, unordered=()):
        """The operation that was just sent is the one it should be."""
        ctx, did = self.ctx, result.did
        log = self.dir.logs.get(did)
        if not ctx.check(log is not None and len(self.dir.posts) == 1, f'{what}: {len(self.dir.posts)} operations posted, {did} {"un" if log is None else ""}known to the directory', 'posts'):
            return
        head = log[-1]
        op = head['operation']
        ctx.check(self.dir.posts[0][0] == f'{self.dir.base}{did}', f'{what}: posted to {self.dir.posts[0][0]}', 'url')
        ctx.check(op['prev'] == before, f'{what}: prev is {op["prev"]}, last operation was {before}', 'prev')
        ctx.check(not any(e['nullified'] for e in log[len(self.known):]) and [e['nullified'] for e in log[:-1]] == self.known,
                  f'{what}: it nullified other operations', 'nullifies')
        got = self.model(op)
        for field in ('handle', 'aliases', 'methods', 'services'):
            ctx.check(got[field] == want[field], f'{what}: {field} is {got[field]!r}, should be {want[field]!r}', f'field-{field}')
        new = want.get('new')
        mine, theirs = [k for k in got['rotation'] if k != new], [k for k in want['rotation'] if k != new]
        ctx.check(mine == theirs and (new is None or new in got['rotation']), f'{what}: rotation keys {got["rotation"]}, should be {want["rotation"]}', 'field-rotation')
        # documents: the returned one and the resolved one
        from arroba import did as did_mod
        resolved = did_mod.resolve_plc(did, get_fn=lambda url: self.dir.get(url))
        for name, doc in (('returned', result.doc), ('resolved', resolved)):
            ctx.check(doc['id'] == did, f'{what}: {name} document is of {doc["id"]}', 'doc')
            if name == 'returned':
                ctx.check(norm(doc) == norm(resolved), f'{what}: returned document {doc} is not what the directory has, {resolved}', 'doc')
            ctx.check(did_mod.get_handle(doc) == want['handle'], f'{what}: {name} document has handle {did_mod.get_handle(doc)!r}, should be {want["handle"]!r}', 'doc-handle')
            key = want['methods'].get('atproto')
            got_key = did_mod.get_signing_key(doc)
            ctx.check((got_key and plcdir.did_key(got_key)) == key, f'{what}: {name} document has another signing key', 'doc-key')
            pds = [s['serviceEndpoint'] for s in doc['service'] if s['id'].endswith('#atproto_pds')]
            ctx.check(pds == [s['endpoint'] for k, s in want['services'].items() if k == 'atproto_pds'], f'{what}: {name} document has PDS {pds}', 'doc-pds')

    def call(self, fn, *args, **kwargs):
        self.dir.posts.clear()
        self.known = [e['nullified'] for e in self.dir.logs.get(self.did, [])]
        return fn(*args, **kwargs, **self.http())

    # steps
    def create(self):
        from arroba import did as did_mod
        rng, ctx = self.rng, self.ctx
        self.did = None
        handle = rng.choice(HANDLES)
        kwargs, want = {}, {'handle': handle, 'aliases': [], 'methods': None, 'rotation': None}
        if rng.random() < .7:
            kwargs['rotation_key'] = rng.choice(self.keys)
        if rng.random() < .7:
            key = rng.choice(self.keys)
            kwargs['signing_key'] = key if rng.random() < .5 else key.public_key()
        if rng.random() < .5:
            kwargs['pds_url'] = rng.choice(PDSES)
        if rng.random() < .5:
            kwargs['also_known_as'] = rng.choice((ALIASES[0], list(ALIASES[:2]), tuple(ALIASES[2:4]), [], None))
            want['aliases'] = [kwargs['also_known_as']] if isinstance(kwargs['also_known_as'], str) else list(kwargs['also_known_as'] or ())
        result = self.call(did_mod.create_plc, handle, **kwargs)
        if not self.keys_ok('create', kwargs, result):
            return
        want['methods'] = {'atproto': plcdir.did_key(result.signing_key)}
        want['rotation'] = [plcdir.did_key(result.rotation_key)]
        want['services'] = {'atproto_pds': {'type': 'AtprotoPersonalDataServer', 'endpoint': kwargs.get('pds_url') or 'https://pds.example'}}
        if 'rotation_key' not in kwargs:
            self.keys.append(result.rotation_key)
        self.did = result.did
        self.verify('create', None, want, result)
        log = self.dir.logs.get(self.did)
        if log:
            ctx.check(result.did == plcdir.did_of(log[0]['operation']), f'create returned {result.did}', 'did')
        ctx.count('created')
        ctx.sig(('create', tuple(sorted(kwargs))))

    def keys_ok(self, what, kwargs, result):
        from cryptography.hazmat.primitives.asymmetric import ec
        ok = True
        for name in ('signing_key', 'rotation_key'):
            got = getattr(result, name)
            if kwargs.get(name) is not None:
                ok &= self.ctx.check(got is kwargs[name] or got == kwargs[name] or plcdir.did_key(got) == plcdir.did_key(kwargs[name]), f'{what}: returned {name} is not the one given', 'keys')
            else:
                self.ctx.count('generated_keys')
                ok &= self.ctx.check(isinstance(got, ec.EllipticCurvePrivateKey) and got.curve.name == 'secp256k1', f'{what}: returned {name} is {got!r}', 'keys')
        if result.signing_key is not None and not isinstance(result.signing_key, ec.EllipticCurvePrivateKey):
            self.ctx.count('public_signing')
        return ok

    def update_args(self):
        """(kwargs, want)"""
        rng = self.rng
        head = self.dir.head(self.did)['operation']
        want = self.model(copy.deepcopy(head))
        signers = self.signers()
        if not signers:
            return None, None
        rot = rng.choice(signers)
        key = rng.choice(self.keys)
        kwargs = {'rotation_key': rot, 'signing_key': key if rng.random() < .5 else key.public_key()}
        want['methods'] = {**want['methods'], 'atproto': plcdir.did_key(key)}
        if want['handle'] is None or rng.random() < .4:
            kwargs['handle'] = want['handle'] = rng.choice(HANDLES)
        else:
            self.ctx.count('kept_handle')
        pds = 'https://pds.example'
        if rng.random() < .6:
            kwargs['pds_url'] = pds = rng.choice(PDSES)
        else:
            self.ctx.count('default_pds')
        want['services'] = {**want['services'], 'atproto_pds': {'type': 'AtprotoPersonalDataServer', 'endpoint': pds}}
        if rng.random() < .25:
            kwargs['also_known_as'] = rng.choice((ALIASES[0], list(ALIASES[:2]), tuple(ALIASES[2:4]), []))
            want['aliases'] = [kwargs['also_known_as']] if isinstance(kwargs['also_known_as'], str) else list(kwargs['also_known_as'])
        if rng.random() < .35:
            new = rng.choice([k for k in self.keys if k is not rot])
            kwargs['new_rotation_key'] = new if rng.random() < .5 else new.public_key()
            want['new'] = plcdir.did_key(new)
            want['rotation'] = [k for k in want['rotation'] if k != plcdir.did_key(rot)]
            self.ctx.count('rotated')
        return kwargs, want

    def shape(self):
        op = self.dir.head(self.did)['operation']
        first = next((i for i, a in enumerate(op['alsoKnownAs']) if a.startswith('at://')), -1)
        if first > 0:
            self.ctx.count('handle_not_first')
        if len(op['rotationKeys']) > 1 or set(op['services']) - {'atproto_pds'} or set(op['verificationMethods']) - {'atproto'}:
            self.ctx.count('extra_fields')
        return (first, len(op['alsoKnownAs']), len(op['rotationKeys']), len(op['services']), len(op['verificationMethods']))

    def update(self):
        from arroba import did as did_mod
        kwargs, want = self.update_args()
        if kwargs is None:
            return self.foreign()
        shape = self.shape()
        prev = self.dir.head(self.did)['cid']
        given = dict(kwargs)
        result = self.call(did_mod.update_plc, self.did, **kwargs)
        self.ctx.check(kwargs == given, 'update changed its arguments', 'args')
        self.ctx.check(result.did == self.did, f'update of {self.did} returned {result.did}', 'did')
        self.keys_ok('update', kwargs, result)
        self.verify('update', prev, want, result)
        self.ctx.count('updated')
        self.ctx.sig(('update', tuple(sorted(kwargs)), shape))

    def rollback(self):
        from arroba import did as did_mod
        rng = self.rng
        live = self.dir.live(self.did)
        signers = self.signers()
        if len(live) < 2 or not signers:
            return self.update()
        n = rng.choice((1, 1, rng.randrange(1, len(live))))
        target, prev = copy.deepcopy(live[-n - 1]['operation']), live[-1]['cid']
        if any(e['nullified'] for e in self.dir.logs[self.did][-n - 1:]):
            self.ctx.count('rollback_past_nullified')
        kwargs = {} if n == 1 and rng.random() < .5 else {'num_operations': n}
        result = self.call(did_mod.rollback_plc, self.did, rng.choice(signers), **kwargs)
        if self.ctx.check(result is not None and result.did == self.did, f'rollback of {self.did} returned {result!r}', 'did'):
            self.verify(f'rollback {n}', prev, self.model(target), result)
        self.ctx.count('rolled_back')
        self.ctx.sig(('rollback', n, len(live)))

    def foreign_op(self, at=-1):
        rng = self.rng
        live = self.dir.live(self.did)
        op = copy.deepcopy(live[at]['operation'])
        op['prev'] = live[at]['cid']
        for change in rng.sample(('rotation', 'methods', 'services', 'aliases', 'handle', 'drop'), rng.choice((1, 2, 3))):
            if change == 'rotation':
                mine = op['rotationKeys'] if rng.random() < .8 else []
                more = [plcdir.did_key(k) for k in rng.sample(self.keys + self.others, rng.choice((1, 2, 3)))]
                keys = list(dict.fromkeys((more + mine) if rng.random() < .5 else (mine + more)))[:5]
                if any(plcdir.did_key(k) in keys for k in self.keys):
                    op['rotationKeys'] = keys
            elif change == 'methods':
                op['verificationMethods'][rng.choice(('atproto_label', 'other', 'atproto'))] = plcdir.did_key(rng.choice(self.keys + self.others))
            elif change == 'services':
                op['services'][rng.choice(('atproto_labeler', 'bsky_chat', 'atproto_pds'))] = {
                    'type': rng.choice(('AtprotoLabeler', 'AtprotoPersonalDataServer')), 'endpoint': rng.choice(PDSES)}
            elif change == 'aliases':
                op['alsoKnownAs'] = list(dict.fromkeys(rng.sample(ALIASES, rng.choice((1, 2))) + op['alsoKnownAs'])) if rng.random() < .6 else op['alsoKnownAs'] + [rng.choice(ALIASES)]
            elif change == 'handle':
                op['alsoKnownAs'] = [a for a in op['alsoKnownAs'] if not a.startswith('at://')] + [f'at://{rng.choice(HANDLES)}']
            else:
                op[rng.choice(('verificationMethods', 'services'))].pop(rng.choice(('atproto_label', 'atproto_labeler', 'other')), None)
        op['alsoKnownAs'] = list(dict.fromkeys(op['alsoKnownAs']))
        by = {plcdir.did_key(k): k for k in self.keys + self.others}
        return op, [by[k] for k in live[at]['operation']['rotationKeys'] if k in by]

    def foreign(self):
        op, keys = self.foreign_op()
        why = self.dir.submit(self.did, plcdir.sign(op, self.rng.choice(keys)))
        assert not why, why
        self.ctx.count('foreign')

    def nullify(self):
        """A recovery: the highest priority key overrides the latest operations."""
        live = self.dir.live(self.did)
        for back in (2, 3):
            if len(live) >= back:
                keys = live[-back]['operation']['rotationKeys']
                if plcdir.signer(live[-back + 1]['operation'], keys) > 0:
                    op, signers = self.foreign_op(-back)
                    if plcdir.did_key(signers[0]) == keys[0]:
                        why = self.dir.submit(self.did, plcdir.sign(op, signers[0]))
                        assert not why, why
                        self.ctx.count('nullified')
                        return
        self.foreign()

    def refused(self, what, call, posts=False, exc=Exception):
        """call must raise, and leave the directory as it is."""
        before = self.state()
        self.dir.posts.clear()
        try:
            got = call()
        except exc:
            got = None
        else:
            self.ctx.viol(f'{what} returned {got!r}', 'accepted')
        self.ctx.check(posts or not self.dir.posts, f'{what} sent {self.dir.posts[:1]}', 'sent')
        self.ctx.check(self.state() == before, f'{what} changed the directory', 'changed')

    def invalid(self):
        from arroba import did as did_mod
        rng, http = self.rng, self.http()
        kwargs, want = self.update_args()
        if kwargs is None:
            return self.foreign()
        k, bad, live = self.keys[0], p256(7), self.dir.live(self.did)
        up = {'signing_key': k, 'rotation_key': kwargs['rotation_key']}
        handle = rng.choice(BAD_HANDLES)
        stranger = lib.privkey(799)
        options = [
            (f'create of {handle!r}', lambda: did_mod.create_plc(handle, **http)),
            ('create with P-256 signing key', lambda: did_mod.create_plc('a.com', signing_key=bad, **http)),
            ('create with P-256 public signing key', lambda: did_mod.create_plc('a.com', signing_key=bad.public_key(), **http)),
            ('create with P-256 rotation key', lambda: did_mod.create_plc('a.com', rotation_key=bad, **http)),
            ('create with public rotation key', lambda: did_mod.create_plc('a.com', rotation_key=k.public_key(), **http)),
            ('create with P-256 new rotation key', lambda: did_mod.create_plc('a.com', rotation_key=k, new_rotation_key=bad, **http)),
            ('create with PDS URL ending in a slash', lambda: did_mod.create_plc('a.com', pds_url='https://pds.one/', **http)),
            ('create with DID', lambda: did_mod.create_plc('a.com', did=self.did, **http)),
            ('create with prev', lambda: did_mod.create_plc('a.com', prev=live[-1]['cid'], **http)),
            ('update without keys', lambda: did_mod.update_plc(self.did, handle='a.com', **http)),
            ('update without signing key', lambda: did_mod.update_plc(self.did, rotation_key=up['rotation_key'], **http)),
            ('update without rotation key', lambda: did_mod.update_plc(self.did, signing_key=k, **http)),
            ('update with P-256 signing key', lambda: did_mod.update_plc(self.did, **{**up, 'signing_key': bad}, **http)),
            ('update with P-256 new rotation key', lambda: did_mod.update_plc(self.did, new_rotation_key=bad, **up, **http)),
            ('update with public rotation key', lambda: did_mod.update_plc(self.did, **{**up, 'rotation_key': k.public_key()}, **http)),
            ('update with PDS URL ending in a slash', lambda: did_mod.update_plc(self.did, pds_url='https://pds.one/', **up, **http)),
            ('update of unknown DID', lambda: did_mod.update_plc(lib.did(99), **up, **http)),
            ('rollback of unknown DID', lambda: did_mod.rollback_plc(lib.did(99), k, **http)),
            ('rollback without DID', lambda: did_mod.rollback_plc('', up['rotation_key'], **http)),
            ('rollback without key', lambda: did_mod.rollback_plc(self.did, None, **http)),
            ('rollback before genesis', lambda: did_mod.rollback_plc(self.did, up['rotation_key'], num_operations=len(live), **http)),
            ('rollback of 0', lambda: did_mod.rollback_plc(self.did, up['rotation_key'], num_operations=0, **http)),
            ('rollback of -1', lambda: did_mod.rollback_plc(self.did, up['rotation_key'], num_operations=-1, **http)),
            ('rollback by a stranger', lambda: did_mod.rollback_plc(self.did, stranger, **http)),
        ]
        if handle:
            options.append((f'update to {handle!r}', lambda: did_mod.update_plc(self.did, handle=handle, **up, **http)))
        for what, call in [options[0]] + rng.sample(options[1:], 6):
            self.refused(what, call)
            self.ctx.count('invalid')
            self.ctx.sig(('invalid', what))
        self.ctx.count('unauthorized')
        self.refused('update by a stranger', lambda: did_mod.update_plc(self.did, **{**up, 'rotation_key': stranger}, **http), posts=True)

    def race(self):
        """Another party's operation lands between reading the log and posting."""
        from arroba import did as did_mod
        kwargs, want = self.update_args()
        if kwargs is None:
            return self.foreign()
        self.known, mid = [], []

        def other():
            self.foreign()
            mid.append(self.state())

        op = self.dir.live(self.did)
        self.dir.before_post, self.dir.posts[:] = other, []
        rollback = len(op) > 1 and self.rng.random() < .4
        try:
            if rollback:
                got = did_mod.rollback_plc(self.did, kwargs['rotation_key'], **self.http())
            else:
                got = did_mod.update_plc(self.did, **kwargs, **self.http())
        except Exception:
            self.ctx.check(self.state() == mid[0], 'an update that was overtaken raised, and changed the directory', 'raced')
        else:
            # only a higher priority key can override
            e = self.dir.logs[self.did][-1]
            self.ctx.check(e['operation']['prev'] == op[-1]['cid'] and self.dir.logs[self.did][-2]['nullified'] and got.did == self.did, 'an update that was overtaken claims success', 'raced')
        self.ctx.count('raced')

    def fault(self):
        from arroba import did as did_mod
        import requests
        rng, http = self.rng, self.http()
        kwargs, want = self.update_args()
        if kwargs is None:
            return self.foreign()
        kind = rng.choice((500, 503, 404, 429, 'ConnectionError', 'Timeout'))
        which = rng.choice(('create', 'update', 'rollback'))
        if which == 'rollback' and len(self.dir.live(self.did)) < 2:
            which = 'update'
        call = {'create': lambda: did_mod.create_plc('a.com', rotation_key=self.keys[0], signing_key=self.keys[1], **http),
                'update': lambda: did_mod.update_plc(self.did, **kwargs, **http),
                'rollback': lambda: did_mod.rollback_plc(self.did, kwargs['rotation_key'], **http)}[which]
        if which != 'create' and rng.random() < .5:
            self.dir.get_fault = plcdir.Fault(kind)
            self.refused(f'{which} with {kind} from the audit log', call, exc=requests.RequestException)
            self.ctx.count('get_faults')
        else:
            applied = rng.random() < .4
            self.dir.post_fault = plcdir.Fault(kind, applied)
            before = self.state()
            self.dir.posts.clear()
            try:
                call()
            except requests.RequestException:
                pass
            else:
                self.ctx.viol(f'{which} with {kind} from the directory did not raise', 'accepted')
            self.ctx.check(len(self.dir.posts) == 1, f'{which}: {len(self.dir.posts)} operations posted', 'posts')
            self.ctx.check((self.state() != before) == applied, f'{which} refused by the directory: {self.dir.refusals[-1:]}', 'refused')
            self.ctx.count('post_faults')
        self.ctx.sig(('fault', which, kind))


def norm(doc):
    return (doc['id'], doc['alsoKnownAs'], sorted((m['id'].removeprefix(doc['id']), m['type'], m['controller'], m['publicKeyMultibase']) for m in doc['verificationMethod']),
            sorted((s['id'].removeprefix(doc['id']), s['type'], s['serviceEndpoint']) for s in doc['service']))


def run_case(case, ctx):
    rng = lib.rng_of('c29', case['seed'])
    sim = Sim(rng, ctx)
    sim.create()
    for _ in range(case['steps']):
        if not sim.did or sim.did not in sim.dir.logs:
            break
        step = rng.choice(('update', 'update', 'update', 'rollback', 'rollback', 'foreign', 'foreign', 'nullify', 'invalid', 'race', 'fault', 'create'))
        getattr(sim, step)()
    ctx.ran()
