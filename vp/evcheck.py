"""Independent consumer of commit events: checks and inverts each one (C05, C11, C31)."""
from . import cario, refmst

TID = '234567abcdefghijklmnopqrstuvwxyz'


def tid_of(seq):
    out = ''
    for _ in range(11):
        out = TID[seq & 31] + out
        seq >>= 5
    return out + '22'


class Consumer:
    """Follows the stream of every repo from its first event."""

    def __init__(self, report):
        """report(ok, msg) -> ok"""
        self.check = report
        self.contents = {}   # did -> {path: cid}
        self.root = {}       # did -> data root
        self.commits = {}    # did -> [commit cid]
        self.events = 0
        self.ops = {'create': 0, 'update': 0, 'delete': 0}
        self.opened = 0

    def feed(self, header, payload, expect=None):
        """expect: None or the CommitData returned by the commit."""
        ok = self.check
        h, p = cario.plain(header), cario.plain(payload)
        what = f'event {p.get("seq")}'
        if not ok(h == {'op': 1, 't': '#commit'}, f'{what}: header {h}'):
            return False
        need = {'repo', 'ops', 'commit', 'blocks', 'time', 'seq', 'rev'}
        if not ok(need <= set(p), f'{what}: missing fields {need - set(p)}'):
            return False
        did = p['repo']
        try:
            car = cario.Car(p['blocks'])
        except (cario.Bad, ValueError, IndexError) as e:
            return ok(False, f'{what}: blocks: {e}')
        commit_cid = p['commit'].cid
        if not ok(car.roots == [commit_cid], f'{what}: archive roots are not [commit]'):
            return False
        if not ok(commit_cid in car.blocks, f'{what}: archive lacks the commit'):
            return False
        if not ok(len(car.order) == len(set(car.order)), f'{what}: archive has a block twice'):
            return False
        commit = cario.decode(car.blocks[commit_cid])
        if not (ok(commit.get('did') == did, f'{what}: commit is for {commit.get("did")}, event says {did}')
                and ok(commit.get('version') == 3, f'{what}: version')
                and ok(p['rev'] == commit.get('rev') == tid_of(p['seq']),
                       f'{what}: rev {p["rev"]}, commit rev {commit.get("rev")}, seq\'s tid {tid_of(p["seq"])}')):
            return False
        if expect is not None:
            t = expect.commit.time
            from datetime import datetime, timezone
            got_t = datetime.fromisoformat(p['time'])
            want_t = t.astimezone(timezone.utc) if t.tzinfo else t.replace(tzinfo=timezone.utc)
            if not (ok(bytes(expect.commit.cid) == commit_cid, f'{what}: not the commit made with this number')
                    and ok(expect.commit.seq == p['seq'], f'{what}: seq of commit is {expect.commit.seq}')
                    and ok(got_t.tzinfo is not None and got_t == want_t, f'{what}: time {got_t}, stored {want_t}')):
                return False

        cur = dict(self.contents.get(did, {}))
        for op in p['ops']:
            path, action = op.get('path'), op.get('action')
            cid = op['cid'].cid if op.get('cid') else None
            prev = op['prev'].cid if op.get('prev') else None
            if action == 'create':
                good = path not in cur and cid and not prev
            elif action == 'update':
                good = path in cur and cid and prev == cur[path] and cid != prev
            else:
                good = action == 'delete' and path in cur and not cid and prev == cur[path]
            if not ok(good, f'{what}: op {action} {path} cid={bool(cid)} prev={"right" if prev and prev == cur.get(path) else prev and "wrong"} '
                      f'does not apply to the previous contents'):
                return False
            self.ops[action] += 1
            if action == 'delete':
                del cur[path]
            else:
                cur[path] = cid
                if not ok(cid in car.blocks, f'{what}: archive lacks the record {path}'):
                    return False
        data = commit['data'].cid
        want, _ = refmst.build(cur)
        if not ok(data == want, f'{what}: ops applied to the previous contents do not give the committed tree'):
            return False
        prev_data = p['prevData'].cid if p.get('prevData') else None
        if not ok(prev_data == self.root.get(did), f'{what}: prevData is not the previous commit\'s data root'):
            return False
        chain = self.commits.setdefault(did, [])
        cprev = commit['prev'].cid if commit.get('prev') else None
        if not ok(cprev == (chain[-1] if chain else None), f'{what}: commit prev is not the previous commit'):
            return False

        # invert, from the archive alone
        try:
            tree = refmst.Partial(data, car.blocks)
            for op in reversed(p['ops']):
                path = op['path']
                cid = op['cid'].cid if op.get('cid') else None
                if op['action'] == 'create':
                    if not ok(tree.get(path) == cid, f'{what}: {path} in the tree is not the created CID'):
                        return False
                    tree.delete(path)
                elif op['action'] == 'update':
                    if not ok(tree.get(path) == cid, f'{what}: {path} in the tree is not the updated CID'):
                        return False
                    tree.update(path, op['prev'].cid)
                else:
                    if not ok(tree.get(path) is None, f'{what}: deleted {path} is in the tree'):
                        return False
                    tree.insert(path, op['prev'].cid)
            back = tree.root_cid()
            self.opened += tree.opened
        except (refmst.Invalid, cario.Bad) as e:
            return ok(False, f'{what}: not invertible from its own blocks: {e}')
        want_prev = self.root.get(did) or refmst.build({})[0]
        if not ok(back == want_prev, f'{what}: inverting the operations gives another root than prevData'):
            return False
        self.contents[did], self.root[did] = cur, data
        chain.append(commit_cid)
        self.events += 1
        return True
