"""In-process stand-in for Google Cloud Datastore, at the gRPC stub boundary.

Semantics modelled (Firestore in Datastore mode, optimistic concurrency):
* multi-version store; a transaction reads a snapshot taken at its first operation;
* commit re-validates everything the transaction read, keys and queries alike,
  and fails with ABORTED if any of it changed; mutations apply atomically;
* queries: property/key filters, AND/OR, orders, keys-only, limit/offset/cursors,
  served in batches; outside transactions each RPC sees the latest state;
* lookups may defer or reorder.

Every RPC is logged and passes through ``hook(phase, rpc, req, info)`` (phase
'before' or 'after') where harnesses schedule threads or inject faults by
raising. A fault raised in 'after' is an ambiguous error: the call took effect
but its reply was lost.
"""
import itertools
import threading

from google.api_core import exceptions as core_exc
from google.cloud.datastore_v1.types import datastore as ds
from google.cloud.datastore_v1.types import entity as ent
from google.cloud.datastore_v1.types import query as q

ABSENT = object()


def _pb(msg):
    return type(msg).pb(msg)


def key_tuple(kpb):
    """(namespace, (kind, id-or-name), ...) where ids sort before names."""
    path = []
    for el in kpb.path:
        if el.WhichOneof('id_type') == 'id':
            path.append((el.kind, 0, el.id, ''))
        elif el.WhichOneof('id_type') == 'name':
            path.append((el.kind, 1, 0, el.name.encode('utf-8')))
        else:
            path.append((el.kind, 2, 0, b''))
    return (kpb.partition_id.namespace_id,) + tuple(path)


def sort_value(v):
    """Orderable (type rank, value) for a Value pb."""
    which = v.WhichOneof('value_type')
    if which in (None, 'null_value'):
        return (0, 0)
    if which == 'integer_value':
        return (1, v.integer_value)
    if which == 'timestamp_value':
        return (2, v.timestamp_value.seconds * 10**9 + v.timestamp_value.nanos)
    if which == 'boolean_value':
        return (3, v.boolean_value)
    if which == 'blob_value':
        return (4, v.blob_value)
    if which == 'string_value':
        return (5, v.string_value.encode('utf-8'))
    if which == 'double_value':
        return (6, v.double_value)
    if which == 'key_value':
        return (8, key_tuple(v.key_value))
    return (9, v.SerializeToString())


class Rec:
    """One immutable version of an entity."""
    __slots__ = ('version', 'pb', 'key', '_props')

    def __init__(self, version, key, pb):
        self.version = version
        self.key = key
        self.pb = pb        # Entity pb or None if deleted
        self._props = None

    def values(self, name):
        """Indexed sort values of a property ('__key__' included)."""
        if name == '__key__':
            return ((8, self.key),)
        if self._props is None:
            self._props = {}
        if name not in self._props:
            vals = []
            if name in self.pb.properties:
                v = self.pb.properties[name]
                if v.WhichOneof('value_type') == 'array_value':
                    vals = [sort_value(x) for x in v.array_value.values
                            if not x.exclude_from_indexes]
                elif not v.exclude_from_indexes:
                    vals = [sort_value(v)]
            self._props[name] = tuple(vals)
        return self._props[name]


class Future:
    """Already completed grpc-like future."""

    def __init__(self, result=None, exc=None):
        self._result, self._exc = result, exc

    def add_done_callback(self, fn):
        fn(self)

    def exception(self, timeout=None):
        return self._exc

    def result(self, timeout=None):
        if self._exc:
            raise self._exc
        return self._result

    def done(self):
        return True

    def cancel(self):
        return False


class Method:
    def __init__(self, store, name):
        self.store, self.name = store, name

    def future(self, request, timeout=None, metadata=()):
        try:
            return Future(result=self.store.rpc(self.name, request))
        except Crash:
            raise
        except Exception as e:
            return Future(exc=e)

    def __call__(self, request, timeout=None, metadata=()):
        return self.store.rpc(self.name, request)


class Crash(BaseException):
    """Simulated process death: never handled as an RPC error."""


class FakeDatastore:
    RPCS = ('lookup', 'run_query', 'begin_transaction', 'commit', 'rollback',
            'allocate_ids', 'reserve_ids')

    def __init__(self, batch_size=300, log_requests=False):
        self.lock = threading.RLock()
        self.batch_size = batch_size
        self.version = 1
        self.kinds = {}     # (ns, kind) -> {key tuple: [Rec, ...]}
        self.txns = {}      # id -> dict
        self._ids = itertools.count(1)
        self.hook = None
        self.defer = None   # callable(keys) -> (served indexes, deferred indexes)
        self.log_requests = log_requests
        self.requests = []  # serialized mutation requests, if log_requests
        self.counts = {}
        self.aborts = 0
        self.history = []   # (version, [(key, Entity pb or None)]) per applied commit
        self.keep_history = False
        for name in self.RPCS:
            setattr(self, name, Method(self, name))

    # plumbing
    def rpc(self, name, request):
        req = _pb(request)
        info = {'thread': threading.current_thread()}
        self.counts[name] = self.counts.get(name, 0) + 1
        hook = self.hook
        if hook:
            hook('before', name, req, info)
        with self.lock:
            resp = getattr(self, '_' + name)(req)
        if self.log_requests and name == 'commit':
            self.requests.append(req.SerializeToString())
        if hook:
            hook('after', name, req, info)
        return resp

    def reset(self):
        with self.lock:
            self.kinds.clear()
            self.txns.clear()

    # store access
    def _table(self, key):
        return self.kinds.setdefault((key[0], key[-1][0]), {})

    @staticmethod
    def _at(recs, version):
        """Newest record at or before version, or None."""
        if version is None:
            rec = recs[-1]
            return rec if rec.pb is not None else None
        for rec in reversed(recs):
            if rec.version <= version:
                return rec if rec.pb is not None else None
        return None

    def get(self, key, version=None):
        recs = self._table(key).get(key)
        return self._at(recs, version) if recs else None

    def latest_version(self, key):
        recs = self._table(key).get(key)
        return recs[-1].version if recs else 0

    def entities(self, kind, ns=''):
        """Latest entities of a kind, sorted by key (harness access)."""
        with self.lock:
            tab = self.kinds.get((ns, kind), {})
            out = [self._at(recs, None) for _, recs in sorted(tab.items())]
            return [r.pb for r in out if r]

    # transactions
    def _txn(self, id, require=True):
        txn = self.txns.get(bytes(id))
        if txn is None and require:
            raise core_exc.InvalidArgument('The referenced transaction has expired or is no longer valid.')
        return txn

    def _begin_transaction(self, req):
        id = b'txn-%d' % next(self._ids)
        # ndb reads after begin; the snapshot is taken at the first operation
        self.txns[id] = {'snapshot': None, 'keys': {}, 'queries': [],
                         'read_only': req.transaction_options.HasField('read_only')}
        return ds.BeginTransactionResponse(transaction=id)

    def _rollback(self, req):
        self.txns.pop(bytes(req.transaction), None)
        return ds.RollbackResponse()

    def _read_view(self, opts):
        """Returns (txn or None, version)."""
        if opts.WhichOneof('consistency_type') == 'transaction' and opts.transaction:
            txn = self._txn(opts.transaction)
            if txn['snapshot'] is None:
                txn['snapshot'] = self.version
            return txn, txn['snapshot']
        return None, None

    # reads
    def _lookup(self, req):
        txn, version = self._read_view(req.read_options)
        if len(req.keys) > 1000:
            raise core_exc.InvalidArgument('cannot get more than 1000 keys in a single call')
        resp = ds.LookupResponse()
        rpb = _pb(resp)
        keys = list(req.keys)
        order = range(len(keys))
        if self.defer and not txn:
            order, deferred = self.defer(keys)
            for i in deferred:
                rpb.deferred.add().CopyFrom(keys[i])
        seen = set()
        for i in order:
            kt = key_tuple(keys[i])
            if kt in seen:
                continue
            seen.add(kt)
            rec = self.get(kt, version)
            if txn is not None:
                txn['keys'][kt] = True
            if rec:
                er = rpb.found.add()
                er.entity.CopyFrom(rec.pb)
                er.version = rec.version
            else:
                er = rpb.missing.add()
                er.entity.key.CopyFrom(keys[i])
                er.version = version or self.version
        return resp

    def _filter_fn(self, f):
        which = f.WhichOneof('filter_type')
        if which is None:
            return lambda rec: True
        if which == 'composite_filter':
            subs = [self._filter_fn(s) for s in f.composite_filter.filters]
            if f.composite_filter.op == q.CompositeFilter.Operator.OR:
                return lambda rec: any(s(rec) for s in subs)
            return lambda rec: all(s(rec) for s in subs)
        pf = f.property_filter
        name = pf.property.name
        O = q.PropertyFilter.Operator
        if pf.op == O.HAS_ANCESTOR:
            anc = key_tuple(pf.value.key_value)
            return lambda rec: rec.key[:len(anc)] == anc
        if pf.op in (O.IN, O.NOT_IN):
            vals = {sort_value(v) for v in pf.value.array_value.values}
            if pf.op == O.IN:
                return lambda rec: any(x in vals for x in rec.values(name))
            return lambda rec: any(x not in vals for x in rec.values(name))
        val = sort_value(pf.value)
        ops = {
            O.EQUAL: lambda x: x == val,
            O.NOT_EQUAL: lambda x: x != val,
            O.LESS_THAN: lambda x: x[0] == val[0] and x < val,
            O.LESS_THAN_OR_EQUAL: lambda x: x[0] == val[0] and x <= val,
            O.GREATER_THAN: lambda x: x[0] == val[0] and x > val,
            O.GREATER_THAN_OR_EQUAL: lambda x: x[0] == val[0] and x >= val,
        }
        op = ops[pf.op]
        return lambda rec: any(op(x) for x in rec.values(name))

    def _eval(self, ns, query, version):
        """All matching records in order (no limit): list of (sort key, Rec)."""
        kinds = [k.name for k in query.kind]
        fn = self._filter_fn(query.filter)
        orders = [(o.property.name,
                   o.direction == q.PropertyOrder.Direction.DESCENDING)
                  for o in query.order]
        names = {n for n, _ in orders}
        if not orders:
            # implicit order: by the inequality property, then key
            for f in self._prop_filters(query.filter):
                O = q.PropertyFilter.Operator
                if f.op in (O.LESS_THAN, O.LESS_THAN_OR_EQUAL, O.GREATER_THAN,
                            O.GREATER_THAN_OR_EQUAL) and f.property.name != '__key__':
                    orders = [(f.property.name, False)]
                    break
        recs = []
        for (tns, kind), tab in self.kinds.items():
            if tns != ns or (kinds and kind not in kinds):
                continue
            for versions in tab.values():
                rec = self._at(versions, version)
                if rec and all(rec.values(n) for n, _ in orders) and fn(rec):
                    recs.append(rec)
        recs.sort(key=lambda r: r.key)
        for name, desc in reversed(orders):
            recs.sort(key=lambda r: (max if desc else min)(r.values(name)), reverse=desc)
            # stable sort with reverse keeps equal elements' order
        return recs

    @classmethod
    def _prop_filters(cls, f):
        which = f.WhichOneof('filter_type')
        if which == 'property_filter':
            yield f.property_filter
        elif which == 'composite_filter':
            for s in f.composite_filter.filters:
                yield from cls._prop_filters(s)

    def _run_query(self, req):
        txn, version = self._read_view(req.read_options)
        query = req.query
        ns = req.partition_id.namespace_id
        recs = self._eval(ns, query, version)
        if txn is not None:
            qcopy = q.Query()
            _pb(qcopy).CopyFrom(query)
            txn['queries'].append((ns, _pb(qcopy), [(r.key, r.version) for r in recs]))

        start = 0
        if query.start_cursor:
            # positional cursor: resume after the entity it names, or after the
            # place where it would be if it has gone
            start = self._cursor_pos(recs, query.start_cursor)
        end = len(recs)
        if query.end_cursor:
            end = self._cursor_pos(recs, query.end_cursor)
        if query.HasField('limit'):
            limit = query.limit.value
        else:
            limit = None

        skipped = min(query.offset, max(0, end - start))
        pos = start + skipped
        avail = max(0, end - pos)
        n = avail if limit is None else min(avail, limit)
        n_batch = min(n, self.batch_size)

        M = q.QueryResultBatch.MoreResultsType
        if n_batch < n:
            more = M.NOT_FINISHED
        elif limit is not None and avail > limit:
            more = M.MORE_RESULTS_AFTER_LIMIT
        else:
            more = M.NO_MORE_RESULTS

        keys_only = [p.property.name for p in query.projection] == ['__key__']
        resp = ds.RunQueryResponse()
        batch = _pb(resp).batch
        batch.entity_result_type = (q.EntityResult.ResultType.KEY_ONLY if keys_only
                                    else q.EntityResult.ResultType.FULL)
        batch.more_results = more
        batch.skipped_results = skipped
        last = None
        for rec in recs[pos:pos + n_batch]:
            er = batch.entity_results.add()
            if keys_only:
                er.entity.key.CopyFrom(rec.pb.key)
            else:
                er.entity.CopyFrom(rec.pb)
            er.version = rec.version
            er.cursor = self._cursor(recs, rec)
            last = rec
        if last is not None:
            batch.end_cursor = self._cursor(recs, last)
        elif pos > 0 and recs:
            batch.end_cursor = self._cursor(recs, recs[min(pos, len(recs)) - 1])
        else:
            batch.end_cursor = query.start_cursor or b'start'
        return resp

    # cursors: a serial that maps to (order-independent) key; position is found
    # again by key, or by rank if the entity is gone
    def _cursor(self, recs, rec):
        cid = b'c%d' % next(self._ids)
        if not hasattr(self, '_cursors'):
            self._cursors = {}
        self._cursors[cid] = rec
        return cid

    def _cursor_pos(self, recs, cursor):
        if cursor == b'start':
            return 0
        rec = self._cursors[bytes(cursor)]
        for i, r in enumerate(recs):
            if r.key == rec.key:
                return i + 1
        # gone: place by seq/key; good enough since arroba never deletes
        return sum(1 for r in recs if r.key <= rec.key)

    # writes
    def _commit(self, req):
        T = ds.CommitRequest.Mode
        txn = None
        if req.mode == T.TRANSACTIONAL:
            txn = self._txn(req.transaction)
            del self.txns[bytes(req.transaction)]
            snap = txn['snapshot']
            if snap is not None and req.mutations:
                conflict = any(self.latest_version(k) > snap for k in txn['keys'])
                for ns, query, seen in ([] if conflict else txn['queries']):
                    now = [(r.key, r.version) for r in self._eval(ns, query, None)]
                    if now != seen:
                        conflict = True
                        break
                if conflict:
                    self.aborts += 1
                    raise core_exc.Aborted('Aborted due to cross-transaction contention.')
        return self._apply(req.mutations)

    def _apply(self, mutations):
        resp = ds.CommitResponse()
        rpb = _pb(resp)
        if not mutations:
            return resp
        if len(mutations) > 500 and False:
            raise core_exc.InvalidArgument('cannot write more than 500 entities in a single call')
        seen = set()
        for m in mutations:
            which = m.WhichOneof('operation')
            if which != 'delete':
                size = getattr(m, which).ByteSize()
                if size > 1_048_572:
                    raise core_exc.InvalidArgument(f'entity is too big: {size}')
                kt = key_tuple(getattr(m, which).key)
                if which == 'insert' and self.get(kt):
                    raise core_exc.AlreadyExists('entity already exists')
                if which == 'update' and not self.get(kt):
                    raise core_exc.NotFound('no entity to update')
        self.version += 1
        applied = []
        for m in mutations:
            which = m.WhichOneof('operation')
            mr = rpb.mutation_results.add()
            mr.version = self.version
            if which == 'delete':
                kt, pb = key_tuple(m.delete), None
            else:
                pb = ent.Entity.pb(ent.Entity())
                pb.CopyFrom(getattr(m, which))
                if pb.key.path[-1].WhichOneof('id_type') is None:
                    pb.key.path[-1].id = 10**6 + next(self._ids)
                    mr.key.CopyFrom(pb.key)
                kt = key_tuple(pb.key)
            self._table(kt).setdefault(kt, []).append(Rec(self.version, kt, pb))
            applied.append((kt, pb))
        if self.keep_history:
            self.history.append((self.version, applied))
        rpb.index_updates = len(mutations)
        return resp

    def _allocate_ids(self, req):
        resp = ds.AllocateIdsResponse()
        for k in req.keys:
            nk = _pb(resp).keys.add()
            nk.CopyFrom(k)
            nk.path[-1].id = 10**6 + next(self._ids)
        return resp

    def _reserve_ids(self, req):
        return ds.ReserveIdsResponse()


def install(client=None, **kwargs):
    """Points an ndb client at a new FakeDatastore. Returns (client, store)."""
    from google.cloud import ndb
    from google.cloud.ndb import _retry
    _retry._DEFAULT_INITIAL_DELAY = 0.0005
    _retry._DEFAULT_MAXIMUM_DELAY = 0.002
    if client is None:
        client = ndb.Client(project='app')
    store = FakeDatastore(**kwargs)
    client.stub = store
    return client, store
