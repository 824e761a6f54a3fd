"""C25: remote blob records describe what the URL served."""
import gzip
import hashlib
import struct
import threading
import zlib
from datetime import datetime, timedelta, timezone

from vp import cario, lib, web

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: every HTTP request the server sends goes to a scripted web whose answers change over time; records, returned blobs and redirects '
             'are compared with a model of what each URL has served')
NOTE = ('Real requests session, real media files and MediaInfo, the real Datastore code over the fake Datastore; the clock is webutil.util.now. Content is as of the last '
        'fetch that the refetch rules require.')
RULE = ('random histories of fetches, getBlob calls, clock steps and changing servers x limits x refetch settings x concurrent use during a fetch; media and MIME types, '
        'declared lengths, redirects, errors before and in the body. Distinct: (operation, served, state before, outcome).')
REQUIRED = ('fetched', 'not_refetched', 'refetched', 'dead', 'refused_size', 'refused_type', 'refused_duration', 'redirects', 'not_found', 'changed_content', 'lost_body', 'server_errors',
            'concurrent', 'long_urls', 'video', 'images', 'boundary_size', 'boundary_duration', 'undeclared_length', 'wrong_length', 'several_urls')
ISOLATE = True
CASE_TIMEOUT = 240
SYNC = 'com.atproto.sync.'
MAX = 3000
DAYS = 7


def cases(tier, seed):
    n = 500 if tier == 'quick' else 8000
    out = [{'seed': f'{seed}.{i}', 'mode': 'life'} for i in range(n)]
    out += [{'seed': f'{seed}.f{i}', 'mode': 'media'} for i in range(16 if tier == 'quick' else 400)]
    out += [{'seed': f'{seed}.l{i}', 'mode': 'long'} for i in range(8 if tier == 'quick' else 40)]
    return out


def setup():
    lib.boot(BLOB_MAX_BYTES=MAX, BLOB_REFETCH_DAYS=DAYS, BLOB_REFETCH_TYPES='image,video')
    web.app()


# ---- media files

def box(kind, *parts):
    b = b''.join(parts)
    return struct.pack('>I4s', 8 + len(b), kind) + b


def full(kind, *parts, flags=0):
    return box(kind, struct.pack('>I', flags), *parts)


def mp4(width, height, ms):
    matrix = struct.pack('>9I', 0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000)
    avc1 = box(b'avc1', b'\0' * 6, struct.pack('>H', 1), b'\0' * 16, struct.pack('>2H', width, height), struct.pack('>2I', 0x480000, 0x480000),
               b'\0' * 4, struct.pack('>H', 1), b'\0' * 32, struct.pack('>Hh', 24, -1))
    stbl = box(b'stbl', full(b'stsd', struct.pack('>I', 1), avc1), full(b'stts', struct.pack('>3I', 1, 1, ms)), full(b'stsc', b'\0' * 4),
               full(b'stsz', b'\0' * 8), full(b'stco', b'\0' * 4))
    minf = box(b'minf', full(b'vmhd', b'\0' * 8, flags=1), box(b'dinf', full(b'dref', struct.pack('>I', 1), full(b'url ', flags=1))), stbl)
    mdia = box(b'mdia', full(b'mdhd', struct.pack('>4IHH', 0, 0, 1000, ms, 0x55c4, 0)), full(b'hdlr', struct.pack('>I4s12x', 0, b'vide'), b'v\0'), minf)
    trak = box(b'trak', full(b'tkhd', struct.pack('>5I', 0, 0, 1, 0, ms), b'\0' * 16, matrix, struct.pack('>2I', width << 16, height << 16), flags=3), mdia)
    mvhd = full(b'mvhd', struct.pack('>4I', 0, 0, 1000, ms), struct.pack('>IH10x', 0x10000, 0x100), matrix, b'\0' * 24, struct.pack('>I', 2))
    return box(b'ftyp', b'isom\0\0\2\0isomiso2avc1mp41') + box(b'moov', mvhd, trak) + box(b'mdat', b'x' * 20)


def png(width, height):
    def chunk(kind, data):
        return struct.pack('>I', len(data)) + kind + data + struct.pack('>I', zlib.crc32(kind + data))
    return (b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>2I5B', width, height, 8, 0, 0, 0, 0))
            + chunk(b'IDAT', zlib.compress(b''.join(b'\0' + b'\0' * width for _ in range(height)))) + chunk(b'IEND', b''))


class Served:
    """What a URL answers now."""

    def __init__(self, rng):
        self.status, self.error, self.headers, self.hop, self.cut = 200, None, {}, None, False
        self.dims = self.ms = None
        kind = rng.choice(('text', 'text', 'png', 'png', 'mp4', 'mp4', 'any'))
        if kind == 'text':
            self.body = bytes(rng.randrange(256) for _ in range(rng.choice((0, 1, 5, 300, 999, 1000, 1001, MAX - 1, MAX, MAX + 1, MAX + 400))))
            self.type = rng.choice(('text/plain', 'application/octet-stream', 'image/jpeg', 'foo/bar', 'video/mp4'))
        elif kind == 'png':
            self.dims = rng.randrange(1, 60), rng.randrange(1, 60)
            self.body, self.type = png(*self.dims), 'image/png'
            if rng.random() < .2:
                self.type = rng.choice(('video/mp4', 'text/plain'))
        elif kind == 'mp4':
            self.dims = rng.randrange(16, 600), rng.randrange(16, 600)
            self.ms = rng.choice((1, 5000, 179_999, 180_000, 180_000, 180_001, 180_001, 180_999, 600_000, rng.randrange(1, 400_000)))
            self.body, self.type = mp4(*self.dims, self.ms), 'video/mp4'
            if rng.random() < .15:
                self.type = rng.choice(('image/png', 'text/plain'))
        else:
            self.body, self.type = b'ab' * rng.randrange(30), 'image/gif'
        self.media = kind
        self.declared = rng.choice(('right', 'right', 'right', None, None, 'zero', 'low', 'high', 'over', 'junk', 'negative', 'huge'))
        self.headers['Content-Type'] = self.type
        if rng.random() < .12:
            self.type = None
            self.headers.pop('Content-Type')
            if rng.random() < .5:
                self.headers['Content-Type'] = ''
        n = len(self.body)
        length = {'right': n, 'zero': 0, 'low': n // 2, 'high': n + 1, 'over': MAX + 1 + rng.randrange(3), 'junk': rng.choice(('x', '1 2', '1e3', '', '9' * 5000)), 'negative': -rng.randrange(1, 9),
                  'huge': rng.choice((2**31, 2**53, 2**62))}.get(self.declared)
        if length is not None:
            self.headers['Content-Length'] = str(length)
        # a server that declares more than the limit has broken it
        self.over = n > MAX or self.declared in ('over', 'huge') or (self.declared == 'high' and n + 1 > MAX)
        roll = rng.random()
        if roll < .1:
            self.status = rng.choice((400, 401, 403, 404, 410, 429, 451))
        elif roll < .19:
            self.status = rng.choice((500, 502, 503, 504))
        elif roll < .27:
            self.error = rng.choice(('connect', 'timeout', 'ssl', 'loop', 'body', 'body', 'body'))
        elif roll < .33:
            self.hop = rng.choice((301, 302, 303, 307, 308))
        if self.error == 'body' and (n < 2 or self.over):
            self.error = None

    @property
    def ok(self):
        return self.status == 200 and not self.error

    @property
    def permanent(self):
        return self.status // 100 == 4 and not self.error

    def cid(self):
        return cario.cid_str(bytes([1, 0x55, 0x12, 32]) + hashlib.sha256(self.body).digest())

    def mime(self, url):
        if self.type:
            return self.type
        path = url.split('?')[0].split('#')[0]
        return {'.png': 'image/png', '.mp4': 'video/mp4', '.txt': 'text/plain', '.jpg': 'image/jpeg'}.get(path[-4:], 'application/octet-stream')


class Body:
    """File object that may break off."""

    def __init__(self, data, cut):
        self.data, self.cut, self.at = data, cut, 0

    def read(self, n=-1, **_):
        import urllib3
        end = len(self.data) if n is None or n < 0 else self.at + n
        if self.cut is not None and end > self.cut:
            if self.at >= self.cut:
                raise urllib3.exceptions.ProtocolError('connection broken')
            end = self.cut
        out = self.data[self.at:end]
        self.at += len(out)
        return out

    def stream(self, n, decode_content=None):
        while chunk := self.read(n):
            yield chunk

    def release_conn(self):
        pass

    close = release_conn


def scripted_web(rng):
    """Returns (pages, requests): URL -> Served, and the URLs asked for, in order."""
    import requests
    import webutil.util
    pages, asked = {}, []
    state = {'during': None}

    class Adapter(requests.adapters.BaseAdapter):
        def send(self, request, **_):
            url = request.url
            hop = url.startswith('http://hop.example/')
            s = pages[url.removeprefix('http://hop.example/?')] if hop else pages[url]
            if not hop:
                asked.append(url)
                if state['during']:
                    during, state['during'] = state['during'], None
                    t = threading.Thread(target=during)
                    t.start()
                    t.join()
            resp = requests.Response()
            resp.request, resp.url, resp.connection = request, url, self
            if s.error == 'loop':
                resp.status_code, resp.headers['Location'] = 302, url
                resp.raw = Body(b'', None)
                return resp
            if s.error and s.error != 'body':
                raise {'connect': requests.ConnectionError, 'timeout': requests.ReadTimeout, 'ssl': requests.exceptions.SSLError}[s.error]('no luck')
            if s.hop and not hop:
                resp.status_code, resp.headers['Location'] = s.hop, 'http://hop.example/?' + url
                resp.raw = Body(b'', None)
                return resp
            resp.status_code = s.status
            resp.headers.update(s.headers)
            resp.raw = Body(s.body, len(s.body) // 2 if s.error == 'body' else None)
            return resp

        def close(self):
            pass

    webutil.util.session.mount('http://', Adapter())
    webutil.util.session.mount('https://', Adapter())
    return pages, asked, state


class Model:
    """What's known about one URL."""

    def __init__(self):
        self.repos = set()
        self.cid = self.size = self.mime = self.fetched = None
        self.served = None
        self.dead = self.over = self.either = False

    def due(self, now, refetch):
        if self.dead:
            return False
        if self.fetched is None:
            return True
        if (self.mime or 'application/octet-stream').split('/')[0] not in refetch:
            return False
        return now - self.fetched > timedelta(days=DAYS)

    def fetch(self, url, s, now):
        """Returns whether it worked."""
        self.fetched = now
        if s.ok:
            self.served, self.mime, self.size = s, s.mime(url), len(s.body)
            self.cid, self.over = s.cid(), s.over
            return True
        if s.permanent or self.served is None:
            self.dead = True
        self.either = self.over and not self.dead     # gave no usable content before, either
        return False


def life(case, ctx):
    import requests
    import webutil.util
    from lexrpc import ValidationError
    from arroba.datastore_storage import AtpRemoteBlob, AtpRepo
    rng = lib.rng_of(case['seed'])
    refetch = ('image', 'video')
    w = lib.World('datastore')
    clock = [datetime(2026, 1, 1, tzinfo=timezone.utc)]
    webutil.util.now = lambda tz=timezone.utc, **_: clock[0].astimezone(tz) if tz else clock[0].replace(tzinfo=None)
    pages, asked, state = scripted_web(rng)
    with w.ctx():
        repos = [lib.create_repo(w, i).did for i in range(3)]
    urls = []
    for i in range(rng.choice((1, 2, 2, 4))):
        urls.append(f'http{rng.choice(("", "s"))}://{rng.choice("ab")}.example/{i}' + rng.choice(('', '/x.png', '.mp4', '.txt', '.jpg?q=1&r=%20', '/' + 'long' * 340)))
    ctx.count('several_urls', len(urls) > 1)
    model = {u: Model() for u in urls}
    for u in urls:
        pages[u] = Served(rng)
        if len(urls) > 1 and rng.random() < .4:
            pages[u] = pages[urls[0]]
    seen, turn = set(), []

    def stored():
        with w.ctx():
            return {b.url or b.key.id(): b for b in AtpRemoteBlob.query()}, AtpRemoteBlob.query().count()

    def consistent(what):
        with w.ctx():
            blobs = list(AtpRemoteBlob.query())
        used = {u for u in urls if model[u].fetched or model[u].repos}
        if not (ctx.check(len(blobs) == len(used), f'{what}: {len(blobs)} records for {len(used)} URLs')
                and ctx.check({b.url for b in blobs} == used, f'{what}: records for {[b.url[:60] for b in blobs]}')):
            return False
        for b in blobs:
            m = model[b.url]
            names = [k.id() for k in b.repos]
            if m.either:
                m.dead, m.either = b.status == 'inactive', False
            if not (ctx.check(sorted(names) == sorted(m.repos), f'{what}: repos of {b.url[:60]} are {names}, not {sorted(m.repos)}')
                    and ctx.check((b.status == 'inactive') == m.dead, f'{what}: status {b.status}, {"dead" if m.dead else "live"}')):
                return False
            if m.over and not m.dead:
                if not ctx.check(b.cid in (None, m.cid), f'{what}: record has {b.cid} for what is too big'):
                    return False
            elif m.cid and not m.dead:
                if not (ctx.check(b.cid == m.cid and b.size == m.size, f'{what}: record has {b.cid} {b.size}; served {m.cid} {m.size}')
                        and ctx.check(b.mime_type == m.mime, f'{what}: type {b.mime_type}, served {m.mime}')):
                    return False
                if m.mime.split('/')[0] in ('image', 'video') and m.served.media != 'text':
                    dims = (b.width, b.height)
                    if not ctx.check(dims == (m.served.dims or (None, None)), f'{what}: {dims}, but it is {m.served.dims}'):
                        return False
                    if not ctx.check(b.duration == m.served.ms, f'{what}: {b.duration} ms, but it is {m.served.ms}'):
                        return False
                elif not ctx.check(m.served.dims is not None or (b.width, b.height, b.duration) == (None, None, None),
                                   f'{what}: {(b.width, b.height, b.duration)} for what is no media file'):
                    return False
            if m.served is None and not ctx.check(b.cid is None, f'{what}: CID though nothing has been fetched'):
                return False
            if m.fetched and not ctx.check(b.last_fetched == m.fetched, f'{what}: last fetched {b.last_fetched}, not {m.fetched}'):
                return False
        return True

    for step in range(rng.choice((8, 20, 30))):
        op = turn.pop() if turn else rng.choice(('use', 'use', 'use', 'use', 'change', 'change', 'tick', 'tick', 'get', 'get', 'get', 'later', 'later', 'later'))
        good = [u for u in urls if model[u].cid and not model[u].dead and model[u].mime.split('/')[0] in refetch]
        if op == 'later':
            turn = [rng.choice(('use', 'get', 'get')), 'age', rng.choice(('age', 'change', 'change'))]
            continue
        if op == 'age':
            clock[0] += timedelta(days=DAYS, seconds=1)
            continue
        if op == 'change':
            u = rng.choice(good or urls)
            pages[u] = Served(rng)
            if rng.random() < .3:
                pages[u] = pages[rng.choice(urls)]
            continue
        if op == 'tick':
            clock[0] += rng.choice((timedelta(seconds=1), timedelta(days=1), timedelta(days=DAYS, seconds=-1), timedelta(days=DAYS, seconds=1), timedelta(days=30)))
            continue
        asked.clear()
        if op == 'use':
            u = rng.choice(rng.choice((urls, good or urls)))
            s, m = pages[u], model[u]
            did = rng.choice(repos + [None])
            max_size = rng.choice((None, None, 5, 1000, len(s.body), max(1, len(s.body) - 1), MAX * 2))
            accept = rng.choice((None, None, [], ['*/*'], ['image/*'], ['image/png', 'text/plain'], ['video/mp4'], ['foo/bar', 'application/*']))
            due = m.due(clock[0], refetch)
            before = 'dead' if m.dead else 'new' if m.fetched is None else 'over' if m.over else 'known'
            also = None
            if due and rng.random() < .3:
                also = rng.choice(repos)

                def during():
                    try:
                        with w.ctx():
                            AtpRemoteBlob.get_or_create(url=u, repo=AtpRepo(id=also))
                    except (requests.RequestException, ValidationError):
                        pass
                state['during'] = during
                ctx.count('concurrent')
            what = f'step {step}: use {u[:40]}, {before}, {"due" if due else "not due"}, serving {s.media} {s.status} {s.error} {len(s.body)} B declared {s.declared}, max_size={max_size} accept={accept}'
            got = err = None
            with w.ctx():
                try:
                    got = AtpRemoteBlob.get_or_create(url=u, repo=did and AtpRepo(id=did), max_size=max_size, accept_types=accept, name='x')
                    got = got.as_object(), got.url
                except (requests.RequestException, ValidationError) as e:
                    err = e
            state['during'] = None
            m.repos |= {d for d in (did, also) if d}
            if not ctx.check(asked.count(u) >= 1 if due else not asked, f'{what}: requests sent: {asked}'):
                return
            if not ctx.check(set(asked) <= {u}, f'{what}: asked {asked}'):
                return
            if also and m.due(clock[0], refetch):
                m.fetch(u, s, clock[0])       # the other user's
            ctx.count('not_refetched', not due and m.fetched is not None)
            if m.dead and not also:
                good = 'dead'
                ctx.count('dead')
            elif due or also:
                old, old_dead = m.cid, m.dead
                good = None if m.fetch(u, s, clock[0]) else 'failed'
                ctx.count('refetched' if before == 'known' else 'fetched')
                ctx.count('changed_content', bool(old and s.ok and m.cid != old))
                ctx.count('lost_body', s.error == 'body')
                ctx.count('server_errors', s.status >= 500)
            else:
                good = None
            if good is None:
                fuzzy = m.served.ms and m.mime.split('/')[0] != 'video'
                if m.over:
                    good = 'size'
                    ctx.count('refused_size')
                elif max_size and m.size > max_size:
                    good = 'max_size'
                    ctx.count('refused_size')
                elif accept and '*/*' not in accept and m.mime not in accept and m.mime.split('/')[0] + '/*' not in accept:
                    good = 'type'
                    ctx.count('refused_type')
                elif m.served.ms and m.served.ms > 180_000:
                    good = 'either' if fuzzy else 'duration'
                    ctx.count('refused_duration', not fuzzy)
                else:
                    good = 'ok'
                    ctx.count('boundary_size', max_size == m.size or m.size == MAX)
                    ctx.count('boundary_duration', m.served.ms == 180_000)
                    ctx.count('undeclared_length', m.served.declared is None)
                    ctx.count('wrong_length', m.served.declared in ('low', 'high', 'zero', 'junk', 'negative'))
                    ctx.count('video', m.served.media == 'mp4')
                    ctx.count('images', m.served.media == 'png')
            ctx.sig(before, due, s.media, s.error, s.status // 100, good)
            if good == 'ok':
                want = {'$type': 'blob', 'ref': m.cid, 'mimeType': m.mime, 'size': m.size}
                if not ctx.check(got is not None, f'{what}: refused: {err}'):
                    return
                obj = got[0] and {**got[0], 'ref': got[0]['ref'].encode('base32')}
                if not ctx.check(obj == want, f'{what}: returned {obj}, served {want}'):
                    return
                if not ctx.check(got[1] == u, f'{what}: returned the blob of {got[1]}'):
                    return
            elif good in ('dead', 'failed'):
                if not ctx.check(isinstance(err, requests.RequestException), f'{what}: {good}, but {err if err else "succeeded"}'):
                    return
            elif good != 'either':
                if not ctx.check(isinstance(err, ValidationError), f'{what}: breaks {good}, but {err if err else "accepted"}'):
                    return
        else:
            known = sorted({m.cid for m in model.values() if m.cid} | {s.cid() for s in pages.values()} | seen)
            cid = rng.choice(known + [cario.cid_str(lib.val_cid(9))])
            if good and rng.random() < .6:
                cid = model[rng.choice(good)].cid
            for m in model.values():
                if m.cid:
                    seen.add(m.cid)
            what = f'step {step}: getBlob {cid[-6:]}'
            holders = [u for u in urls if model[u].cid == cid and not model[u].dead]
            may = {u for u in holders if model[u].due(clock[0], refetch)}
            due = {u for u in may if not model[u].over}
            with w.ctx():
                resp = web.get(SYNC + 'getBlob', did=rng.choice(repos), cid=cid)
            if not ctx.check(set(asked) <= may and all(asked.count(u) == 1 or pages[u].error == 'loop' for u in asked), f'{what}: asked {asked}, due {sorted(due)}'):
                return
            for u in set(asked):
                model[u].fetch(u, pages[u], clock[0])
                ctx.count('refetched')
            # a refetch that failed for now says nothing
            failed = {u for u in asked if not pages[u].ok}
            able = {u for u in urls if model[u].cid == cid and not model[u].dead}
            must = {u for u in able if not model[u].over}
            ctx.sig('get', len(holders), len(due), len(able), resp.status)
            if resp.status // 100 == 3:
                ctx.count('redirects')
                to = resp.headers['Location']
                if to in asked and pages[to].ok and pages[to].cid() != cid:
                    ctx.viol(f'{what}: redirects to {to[:60]}, which it has just refetched and found changed to {pages[to].cid()}', key='redirect-changed')
                    ctx.count('redirect_changed')
                    if not consistent(what):
                        return
                    continue
                if not ctx.check(resp.headers['Location'] in able - failed, f'{what}: redirects to {resp.headers["Location"][:60]}; those with this content: {[u[:60] for u in able - failed]}'
                                 f'; just fetched {asked}, serving {[(pages[u].status, pages[u].error, pages[u].cid()[-6:]) for u in asked]}'):
                    return
            else:
                ctx.count('not_found')
                if not (ctx.check(400 <= resp.status < 500, f'{what}: {resp}') and ctx.check(not must - failed, f'{what}: {resp}, but {must - failed} has it')):
                    return
                if not ctx.check(due - set(asked) == set(), f'{what}: gave up without asking {due - set(asked)}'):
                    return
        if not consistent(what):
            return
    ctx.sample({'urls': urls, 'records': [{'cid': m.cid, 'size': m.size, 'type': m.mime, 'dead': m.dead, 'repos': sorted(m.repos)} for m in model.values()]})


def media(case, ctx):
    """Damaged media files."""
    import requests
    import webutil.util
    from lexrpc import ValidationError
    from arroba.datastore_storage import AtpRemoteBlob
    rng = lib.rng_of(case['seed'])
    w = lib.World('datastore')
    pages, asked, _ = scripted_web(rng)
    for i in range(25):
        s = Served(rng)
        while not s.ok or s.hop:
            s = Served(rng)
        s.headers = {'Content-Type': rng.choice(('image/png', 'video/mp4', 'image/gif'))}
        body = bytearray(rng.choice((png(9, 9), mp4(50, 60, 2000), b'GIF89a' + bytes(20), b'<svg width="1e9"/>', b'\xff\xd8\xff\xe0\0\x10JFIF\0' + bytes(30))))
        for _ in range(rng.choice((0, 1, 3, 30))):
            body[rng.randrange(len(body))] = rng.randrange(256)
        if rng.random() < .3:
            body = body[:rng.randrange(len(body))]
        s.body = bytes(body)
        url = f'http://a.example/{i}'
        pages[url] = s
        with w.ctx():
            try:
                got = AtpRemoteBlob.get_or_create(url=url)
                ctx.check(got.cid == s.cid() and got.size == len(s.body), f'record of a damaged file: {got.cid} {got.size}')
            except ValidationError as e:
                ctx.check('duration' in str(e), f'a damaged file: {e}')
        with w.ctx():
            got = AtpRemoteBlob.get_by_id(url)
            ctx.check(got.cid == s.cid() and got.size == len(s.body) and got.mime_type == s.headers['Content-Type'], f'record of a damaged file: {got.cid} {got.size} {got.mime_type}')
            ctx.sig('damaged', got.width, got.height)


def long_urls(case, ctx):
    """URLs longer than a key."""
    import requests
    from arroba.datastore_storage import AtpRemoteBlob, AtpRepo
    rng = lib.rng_of(case['seed'])
    w = lib.World('datastore')
    pages, asked, _ = scripted_web(rng)
    with w.ctx():
        r = lib.create_repo(w, 0).did
    n = rng.choice((1, 20, 400, 1470, 1480))
    stem = 'http://a.example/' + ('ü' if rng.random() < .0 else 'x') * n
    for i in range(6):
        fill = rng.choice(('y' * rng.choice((1, 500, 1490, 3000)), '%C3%BC' * rng.choice((1, 250, 600))))
        url = f'http://a.example/{i}{fill}'
        s = Served(rng)
        s.status, s.error, s.hop, s.headers, s.body, s.over, s.ms = 200, None, None, {'Content-Type': 'text/plain'}, b'content %d' % i, False, None
        pages[url] = s
        with w.ctx():
            got = AtpRemoteBlob.get_or_create(url=url, repo=AtpRepo(id=r))
        ctx.count('long_urls', len(url) > 1500)
        if not ctx.check(got.cid == s.cid() and got.url == url, f'{len(url)} byte URL: {got.cid}'):
            return
        with w.ctx():
            resp = web.get(SYNC + 'getBlob', did=r, cid=s.cid())
        if not ctx.check(resp.status == 301 and resp.headers['Location'] == url, f'{len(url)} byte URL: {resp}'):
            return
    # not ASCII, cut in the middle of a character or not
    import requests.utils
    for pad in range(4):
        url = 'http://a.example/' + 'x' * pad + '字' * 700
        s = pages[requests.utils.requote_uri(url)] = Served(rng)
        s.status, s.error, s.hop, s.headers, s.body, s.over, s.ms = 200, None, None, {'Content-Type': 'text/plain'}, b'u%d' % pad, False, None
        with w.ctx():
            got = AtpRemoteBlob.get_or_create(url=url, repo=AtpRepo(id=r))
        if not ctx.check(got.cid == s.cid() and got.url == url, f'non-ASCII URL: {got.cid} {got.size} {got.status} {got.url[:40]!r}, not {s.cid()}'):
            return
    # two that differ only beyond the key
    a, b = ('http://b.example/' + 'z' * 2000 + c for c in 'ab')
    for url, body in ((a, b'first'), (b, b'second')):
        s = pages[url] = Served(rng)
        s.status, s.error, s.hop, s.headers, s.body, s.over, s.ms = 200, None, None, {'Content-Type': 'text/plain'}, body, False, None
        with w.ctx():
            got = AtpRemoteBlob.get_or_create(url=url, repo=AtpRepo(id=r))
        ctx.check(got.cid == s.cid() and got.url == url, f'URLs that differ after 1500 bytes share a record: {body} has {got.cid}, not {s.cid()}', key='long-url-collision')


def run_case(case, ctx):
    {'life': life, 'media': media, 'long': long_urls}[case['mode']](case, ctx)
