From 3da0f35ac300d8bc4b384195e5ce1a4139c6fa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 01/78] fix: MST: reset layer when the last key is deleted, so
 a reused empty tree doesn't grow superfluous nodes

---
 arroba/mst.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arroba/mst.py b/arroba/mst.py
index 9892ffb..74f5f53 100644
--- a/arroba/mst.py
+++ b/arroba/mst.py
@@ -572,6 +572,10 @@ class MST:
         entries = self.get_entries()
         if len(entries) == 1 and isinstance(entries[0], MST):
             return entries[0].trim_top()
+        elif not entries:
+            # an empty tree is always at layer 0. don't keep our old layer, since
+            # then we'd put the next key added below superfluous parent nodes
+            return MST.create(storage=self.storage)
         else:
             return self
 
-- 
2.43.0


From 0bd061279cdb7bd0dff1851e9cc2e873f38544b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 02/78] fix: Storage.commit: don't modify the repo's MST until
 the commit succeeds

---
 arroba/storage.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 7a90ed6..0320cde 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -555,6 +555,9 @@ class Storage:
         if len(writes) > MAX_OPERATIONS_PER_COMMIT:
             raise ValueError(f'Too many operations ({len(writes)}), max is {MAX_OPERATIONS_PER_COMMIT}')
 
+        # work on a local copy so that if we fail partway through, repo is unchanged.
+        # (load_repo may return a shared in memory instance.)
+        tree = repo.mst
         ops = []
         for write in copy.copy(writes):
             assert isinstance(write, Write), type(write)
@@ -564,12 +567,12 @@ class Storage:
             # https://github.com/bluesky-social/proposals/tree/main/0006-sync-iteration#commit-validation-mst-operation-inversion
             prev_cid = None
             if write.action in (Action.UPDATE, Action.DELETE):
-                if not (prev_cid := repo.mst.get(path)):
+                if not (prev_cid := tree.get(path)):
                     raise ValueError(f"{path} doesn't exist in repo")
 
             if write.action == Action.DELETE:
                 logger.debug('deleting from MST')
-                repo.mst = repo.mst.delete(path)
+                tree = tree.delete(path)
                 logger.debug('  done')
                 ops.append(CommitOp(action=Action.DELETE, path=path,
                                     cid=None, prev_cid=prev_cid))
@@ -589,23 +592,23 @@ class Storage:
 
             if write.action == Action.CREATE:
                 logger.debug('adding to MST')
-                repo.mst = repo.mst.add(path, block.cid)
+                tree = tree.add(path, block.cid)
                 logger.debug('  done')
                 ops.append(op)
             else:
                 assert write.action == Action.UPDATE
-                orig_pointer = repo.mst.get_pointer()
+                orig_pointer = tree.get_pointer()
                 logger.debug('updating MST')
-                repo.mst = repo.mst.update(path, block.cid)
+                tree = tree.update(path, block.cid)
                 logger.debug('  done')
-                if repo.mst.get_pointer() != orig_pointer:
+                if tree.get_pointer() != orig_pointer:
                     # no-op updates are invalid in ATProto, so only include this
                     # update operation if it changes the the record and MST.
                     # https://github.com/snarfed/arroba/issues/52#issuecomment-2825755142
                     ops.append(op)
 
         logger.debug('loading unstored MST blocks')
-        root, unstored_blocks = repo.mst.get_unstored_blocks()
+        root, unstored_blocks = tree.get_unstored_blocks()
         logger.debug('  done')
         for block in unstored_blocks.values():
             block.repo = repo_did
@@ -639,7 +642,7 @@ class Storage:
             self.store_repo(repo)
             logger.debug('  done')
 
-        orig_repo.mst = repo.mst
+        repo.mst = orig_repo.mst = tree
         orig_repo.head = commit_block
         return commit_data
 
-- 
2.43.0


From 80ae3417ebc68ad24f343ff4b009535e841ee898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 03/78] fix: Diff.add_diff: handle repeated changes to the same
 key

---
 arroba/diff.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/arroba/diff.py b/arroba/diff.py
index 4ad1835..e3494f1 100644
--- a/arroba/diff.py
+++ b/arroba/diff.py
@@ -264,16 +264,24 @@ class Diff:
                 self.record_add(add.key, add.cid)
 
         for update in diff.updates.values():
-            self.record_update(update.key, update.prev, update.cid)
-            self.adds.pop(update.key, None)
+            if update.key in self.adds:
+                # still new overall, just with the later value
+                self.record_add(update.key, update.cid)
+                continue
+            # keep the original value we started from
+            earlier = self.updates.pop(update.key, None)
+            prev = earlier.prev if earlier else update.prev
+            if prev != update.cid:
+                self.record_update(update.key, prev, update.cid)
             self.deletes.pop(update.key, None)
 
         for deleted in diff.deletes.values():
             if self.adds.get(deleted.key):
                 self.adds.pop(deleted.key, None)
             else:
-                self.updates.pop(deleted.key, None)
-                self.record_delete(deleted.key, deleted.cid)
+                earlier = self.updates.pop(deleted.key, None)
+                self.record_delete(deleted.key,
+                                   earlier.prev if earlier else deleted.cid)
 
         self.new_cids |= diff.new_cids
 
-- 
2.43.0


From 229da7338268bd47ca4cbf8cc4f0f7e0bdeebee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 04/78] fix: Storage.read_events_by_seq: close block generator
 when the caller stops early

Otherwise GC could finalize it later in any thread and exit its ndb context there, clobbering that thread's own context.
---
 arroba/storage.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 0320cde..547c153 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -380,6 +380,26 @@ class Storage:
         """
         assert start >= 0
 
+        blocks = self.read_blocks_by_seq(start=start, repo=repo)
+        try:
+            yield from self._blocks_to_events(blocks)
+        finally:
+            # if our caller stops early, blocks may otherwise survive in a reference
+            # cycle until GC, which can run in any thread. read_blocks_by_seq may be
+            # inside a context manager, eg an ndb context, so exiting it there would
+            # clobber that thread's own context.
+            if hasattr(blocks, 'close'):
+                blocks.close()
+
+    def _blocks_to_events(self, block_iter):
+        """Generates commits and other events from blocks in ascending ``seq`` order.
+
+        Args:
+          block_iter (iterable of Block): from :meth:`read_blocks_by_seq`
+
+        Returns:
+          generator: see :meth:`read_events_by_seq`
+        """
         seq = commit_block = blocks = None
 
         def make_commit():
@@ -397,7 +417,7 @@ class Storage:
             return CommitData(blocks=blocks, commit=commit_block,
                               prev=commit_block.decoded.get('prev'))
 
-        for block in self.read_blocks_by_seq(start=start, repo=repo):
+        for block in block_iter:
             assert block.seq
             if block.seq != seq:  # switching to a new commit's blocks
                 if commit_block:
-- 
2.43.0


From 292753da942bc4fab4399e95d01ee87706f276bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 05/78] fix: com.atproto.sync.getRecord: include proof for the
 record's own path, not its collection

---
 arroba/xrpc_sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 6fd632f..0c2a514 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -220,7 +220,7 @@ def get_record(input, did=None, collection=None, rkey=None):
 
     # include covering proof for a create of this record
     create = Block(decoded=record,
-                   ops=[CommitOp(Action.CREATE, collection, block.cid)])
+                   ops=[CommitOp(Action.CREATE, f'{collection}/{rkey}', block.cid)])
     proofs = repo.mst.add_covering_proofs(CommitData(commit=create, blocks={}))
     proof_blocks = [car.Block(data=val.encoded) for val in proofs.values()]
 
-- 
2.43.0


From 6c7b01f48fea58dd7670c4c10f70b86f2b514d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 06/78] fix: Storage.commit: don't report a successful commit's
 seq lost, or change repo if its transaction fails

---
 arroba/storage.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 547c153..19cfb82 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -531,16 +531,20 @@ class Storage:
             doesn't currently exist
         """
         seq = self.sequences.allocate(SUBSCRIBE_REPOS_NSID)
+        orig_head, orig_mst = repo.head, repo.mst
 
         try:
             commit_data = self._commit(repo, writes, seq, repo_did=repo_did)
-            if repo.callback:
-                repo.callback(data=commit_data)
         except BaseException:
+            if repo.head and repo.head.seq == seq:
+                # _commit finished, but the transaction it was in didn't
+                repo.head, repo.mst = orig_head, orig_mst
             if repo.callback:
                 repo.callback(lost_seq=seq)
             raise
 
+        if repo.callback:
+            repo.callback(data=commit_data)
         return commit_data
 
     def _commit(self, repo, writes, seq, repo_did=None):
-- 
2.43.0


From 934b45f74d34306e01f857992f1b5197e03ab446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 07/78] fix: DatastoreStorage.write_blocks: write blocks inside
 the commit's transaction, so that failed and retried attempts leave nothing
 behind

---
 arroba/datastore_storage.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 55c2f0c..98948f4 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -873,10 +873,17 @@ class DatastoreStorage(Storage, NdbMixin):
         return AtpBlock.create(repo_did=repo_did, data=obj, seq=seq).to_block()
 
     @ndb_context
-    @ndb.non_transactional()
     def write_blocks(self, blocks):
         keys = [AtpBlock(id=b.cid.encode('base32')).key for b in blocks]
-        existing = AtpBlock.query(AtpBlock.key.IN(keys)).fetch(keys_only=True)
+
+        # only this query is outside any existing transaction. the writes below need
+        # to be inside it, so that if it fails or retries, we don't leave blocks
+        # behind from a commit that didn't happen.
+        @ndb.non_transactional()
+        def query_existing():
+            return AtpBlock.query(AtpBlock.key.IN(keys)).fetch(keys_only=True)
+
+        existing = query_existing()
         existing_cids = [key.id() for key in existing]
         new = [AtpBlock.from_block(b) for b in blocks
                if b.cid.encode('base32') not in existing_cids]
-- 
2.43.0


From f0b7441057f78aba37b982552a335822c1044f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 08/78] fix: DatastoreStorage._commit: don't commit twice or
 fail when a transaction is applied but its response is lost

---
 arroba/datastore_storage.py | 39 ++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 98948f4..dd4a267 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -891,7 +891,40 @@ class DatastoreStorage(Storage, NdbMixin):
         ndb.transaction(lambda: ndb.put_multi(new), join=True)
 
     @ndb_context
-    @ndb.transactional(retries=10)
     def _commit(self, *args, **kwargs):
-        """Just runs :meth:`Storage._commit` in a transaction."""
-        return super()._commit(*args, **kwargs)
+        attempts = []
+        try:
+            return self._commit_tx(attempts, *args, **kwargs)
+        except Exception:
+            if applied := self._applied(attempts):
+                return applied
+            raise
+
+    @ndb_context
+    @ndb.transactional(retries=10)
+    def _commit_tx(self, attempts, *args, **kwargs):
+        """Just runs :meth:`Storage._commit` in a transaction.
+
+        Args:
+          attempts (list of CommitData): one per attempt so far; we append to this
+        """
+        if applied := self._applied(attempts):
+            return applied
+        attempts.append(super()._commit(*args, **kwargs))
+        return attempts[-1]
+
+    def _applied(self, attempts):
+        """Returns the commit attempt whose transaction was applied, if any.
+
+        Committing a transaction can fail ambiguously, eg the response is lost, even
+        though it was applied. If we retried anyway, we'd commit the writes twice.
+
+        Args:
+          attempts (list of CommitData)
+
+        Returns:
+          CommitData or None
+        """
+        for commit_data in attempts:
+            if self.has(commit_data.commit.cid):
+                return commit_data
-- 
2.43.0


From 6b59709e7b9b0e2c9a0dafb5e9161c5b28e7cc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 09/78] fix: MemorySequences.allocate: make it thread safe

---
 arroba/storage.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 19cfb82..283c8e9 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -8,6 +8,7 @@ import copy
 from enum import auto, Enum
 import itertools
 import logging
+import threading
 
 
 import dag_cbor
@@ -679,12 +680,14 @@ class MemorySequences(Sequences):
     """
     def __init__(self):
         self.sequences = {}
+        self.lock = threading.Lock()
 
     def allocate(self, nsid):
         assert nsid
-        next = self.sequences.setdefault(nsid, 1)
-        logger.info(f'Allocated seq {next}')
-        self.sequences[nsid] += 1
+        with self.lock:
+            next = self.sequences.setdefault(nsid, 1)
+            logger.info(f'Allocated seq {next}')
+            self.sequences[nsid] += 1
         return next
 
     def last(self, nsid):
-- 
2.43.0


From 9c3196c80a7f75a5c32b60c5f8383dc64984a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 10/78] fix: MemcacheSequences.allocate: reserve the first
 batch in the datastore before using it, so that another memcache flush can't
 repeat its numbers

---
 arroba/datastore_storage.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index dd4a267..bac1044 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -347,15 +347,27 @@ class MemcacheSequences(storage.Sequences, NdbMixin):
         assert MEMCACHE_SEQUENCE_BATCH > MEMCACHE_SEQUENCE_BUFFER > 1, \
             (MEMCACHE_SEQUENCE_BATCH, MEMCACHE_SEQUENCE_BUFFER)
 
+        @ndb.transactional(propagation=context.TransactionOptions.INDEPENDENT,
+                           join=None)
+        def init_batch():
+            stored_seq = AtpSequence.get_or_insert(nsid, next=1)
+            first = stored_seq.next
+            stored_seq.next += MEMCACHE_SEQUENCE_BATCH
+            stored_seq.put()
+            self.max_seqs[nsid] = stored_seq.next
+            return first
+
         key = self._memcache_key(nsid)
         seq = self.memcache.incr(key, 1)
         if seq is None:  # not in memcache
             with self.max_seqs_lock:
                 # can't use last() because it looks in memcache
-                self.max_seqs[nsid] = AtpSequence.get_or_insert(nsid, next=1).next - 1
-                # we'll allocate a new batch below
-                if self.memcache.add(key, self.max_seqs[nsid]):
-                    logger.info(f'initialized memcache sequence counter {key} to {self.max_seqs[nsid]}')
+                if self.memcache.get(key) is None:
+                    # allocate the new batch in the datastore *before* we start using
+                    # it. otherwise, if memcache is flushed again, we'd reuse it.
+                    first = init_batch()
+                    if self.memcache.add(key, first - 1):
+                        logger.info(f'initialized memcache sequence counter {key} to {first - 1}')
             seq = self.memcache.incr(key, 1)
 
         @ndb.transactional(propagation=context.TransactionOptions.INDEPENDENT,
-- 
2.43.0


From fff72be33cef47eac0e114e27e719529aea7ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:04 +0000
Subject: [PATCH 11/78] fix: firehose.subscribe: don't emit events twice when
 another subscriber merges them into the rollback window

---
 arroba/firehose.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 4328a66..83b660b 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -123,6 +123,7 @@ def subscribe(cursor=None):
     # if this cursor behind our rollback window, load the window between the two
     # manually, for this subscriber
     handoff = None     # deque; copy of rollback window for when we transition to it
+    emitted = None     # last seq we've emitted from before the rollback window
     rollback_start = rollback[0][1]['seq'] if rollback else 0
     if cursor is not None and cursor < rollback_start:
         log(f'cursor {cursor} is behind rollback start {rollback_start}; loading rest manually')
@@ -161,6 +162,7 @@ def subscribe(cursor=None):
 
             log(f'Emitting pre-rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
             pre_rollback.append((header, payload))
+            emitted = payload['seq']
             yield (header, payload)
 
     # hand off to rollback window and new events
@@ -169,6 +171,10 @@ def subscribe(cursor=None):
             handoff = rollback.copy()
         log(f'serving rollback from {max(cursor, handoff[0][1]["seq"])}')
         for header, payload in handoff:
+            # another subscriber may have merged events we've already emitted into
+            # the rollback window while we were loading and emitting them
+            if emitted and payload['seq'] <= emitted:
+                continue
             if payload['seq'] >= cursor:
                 log(f'Emitting rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
                 yield (header, payload)
-- 
2.43.0


From 4917c03d9be874a51d4bd53932cfb4cb991a22b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 12/78] fix: firehose.subscribe: don't emit events before
 cursor when it's ahead of the last event collected

---
 arroba/firehose.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 83b660b..14050e8 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -199,7 +199,11 @@ def subscribe(cursor=None):
         # let these get garbage collected
         handoff = pre_rollback = None
         while True:
-            yield subscriber.get()
+            header, payload = subscriber.get()
+            # cursor may be ahead of the last event emitted, eg if that seq has been
+            # allocated but its commit hasn't finished or been collected yet
+            if cursor is None or payload['seq'] >= cursor:
+                yield (header, payload)
 
     finally:
         log('removing subscriber')
-- 
2.43.0


From 6d65ce9bcef4f92f48f0077efd63c9fde25efab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 13/78] fix: firehose.subscribe: support cursors when the
 rollback window is empty

---
 arroba/firehose.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 14050e8..27343f7 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -124,7 +124,7 @@ def subscribe(cursor=None):
     # manually, for this subscriber
     handoff = None     # deque; copy of rollback window for when we transition to it
     emitted = None     # last seq we've emitted from before the rollback window
-    rollback_start = rollback[0][1]['seq'] if rollback else 0
+    rollback_start = _rollback_start()
     if cursor is not None and cursor < rollback_start:
         log(f'cursor {cursor} is behind rollback start {rollback_start}; loading rest manually')
 
@@ -140,12 +140,12 @@ def subscribe(cursor=None):
 
             with lock:
                 # have we reached the rollback window?
-                if payload['seq'] >= rollback[0][1]['seq']:
-                    rollback_start = rollback[0][1]['seq']
+                if payload['seq'] >= _rollback_start():
+                    rollback_start = _rollback_start()
                     handoff = rollback.copy()
 
                     remaining_len = rollback.maxlen - len(rollback)
-                    if remaining_len and pre_rollback:
+                    if remaining_len and pre_rollback and rollback:
                         # merge old events we've loaded onto the end of rollback
                         # extendleft reverses its argument; reverse again to undo that
                         pre_rollback = [e for e in pre_rollback
@@ -169,7 +169,8 @@ def subscribe(cursor=None):
     if cursor is not None:
         if not handoff:
             handoff = rollback.copy()
-        log(f'serving rollback from {max(cursor, handoff[0][1]["seq"])}')
+        if handoff:
+            log(f'serving rollback from {max(cursor, handoff[0][1]["seq"])}')
         for header, payload in handoff:
             # another subscriber may have merged events we've already emitted into
             # the rollback window while we were loading and emitting them
@@ -184,8 +185,11 @@ def subscribe(cursor=None):
     try:
         with lock:
             if cursor is not None:
-                last_seq = handoff[-1][1]['seq']
-                assert last_seq >= rollback[0][1]["seq"]
+                if handoff:
+                    last_seq = handoff[-1][1]['seq']
+                    assert last_seq >= rollback[0][1]["seq"]
+                else:  # rollback window was empty
+                    last_seq = emitted or 0
 
                 for header, payload in rollback:
                     if payload['seq'] > last_seq:
@@ -212,6 +216,19 @@ def subscribe(cursor=None):
                 subscribers.remove(subscriber)
 
 
+def _rollback_start():
+    """Returns the first sequence number that's in or after the rollback window.
+
+    The rollback window may be empty, eg if all of the sequence numbers that we
+    would have preloaded are lost.
+
+    Returns:
+      int:
+    """
+    with lock:
+        return rollback[0][1]['seq'] if rollback else collector.last_seq + 1
+
+
 class Collector(threading.Thread):
     """Singleton. Daemon thread that collects new events and sends them to subscribers.
 
-- 
2.43.0


From a9d0283c0af8b120d342b76b3b4933fe8d522a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 14/78] fix: firehose.subscribe: copy the rollback window
 before a new event can push the cursor out of it

---
 arroba/firehose.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 27343f7..4229df5 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -124,7 +124,12 @@ def subscribe(cursor=None):
     # manually, for this subscriber
     handoff = None     # deque; copy of rollback window for when we transition to it
     emitted = None     # last seq we've emitted from before the rollback window
-    rollback_start = _rollback_start()
+    with lock:
+        rollback_start = _rollback_start()
+        if cursor is not None and cursor >= rollback_start:
+            # copy now, before new events can push cursor out of the window
+            handoff = rollback.copy()
+
     if cursor is not None and cursor < rollback_start:
         log(f'cursor {cursor} is behind rollback start {rollback_start}; loading rest manually')
 
-- 
2.43.0


From 91a40e0f8e86efc206920d5c27e8e0e30a896526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 15/78] fix: firehose.subscribe: close storage reads when a
 subscriber leaves early, instead of in another thread's GC, which clobbers
 that thread's ndb context

---
 arroba/firehose.py | 72 ++++++++++++++++++++++++----------------------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 4229df5..40bc2f7 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -1,6 +1,6 @@
 """subscribeRepos firehose server."""
 from collections import deque
-from contextlib import contextmanager
+from contextlib import closing, contextmanager
 import copy
 from datetime import datetime, timedelta, timezone
 import logging
@@ -135,40 +135,44 @@ def subscribe(cursor=None):
 
         pre_rollback = []  # events prior to rollback window that we load here
         last_seq = None
-        for i, event in enumerate(server.storage.read_events_by_seq(start=cursor)):
-            header, payload = process_event(event)
+        events = server.storage.read_events_by_seq(start=cursor)
+        # close explicitly, since if our caller stops early, events may otherwise
+        # survive until GC in another thread, and its ndb context with it
+        with closing(events):
+            for i, event in enumerate(events):
+                header, payload = process_event(event)
 
-            if last_seq and payload['seq'] <= last_seq:
-                non_monotonic(payload['seq'], last_seq, event)
-                continue
-            last_seq = payload['seq']
-
-            with lock:
-                # have we reached the rollback window?
-                if payload['seq'] >= _rollback_start():
-                    rollback_start = _rollback_start()
-                    handoff = rollback.copy()
-
-                    remaining_len = rollback.maxlen - len(rollback)
-                    if remaining_len and pre_rollback and rollback:
-                        # merge old events we've loaded onto the end of rollback
-                        # extendleft reverses its argument; reverse again to undo that
-                        pre_rollback = [e for e in pre_rollback
-                                        if e[1]['seq'] < rollback_start]
-                        if pre_rollback := pre_rollback[-remaining_len:]:
-                            log(f'merging {pre_rollback[0][1]["seq"]}-{pre_rollback[-1][1]["seq"]} into rollback')
-                            assert len(rollback) + len(pre_rollback) <= rollback.maxlen, \
-                                (len(rollback), len(pre_rollback))
-                            assert pre_rollback[-1][1]['seq'] < rollback[0][1]['seq'],\
-                                (pre_rollback[-1][1]['seq'], rollback[0][1]['seq'])
-                            rollback.extendleft(reversed(pre_rollback))
-
-                    break
-
-            log(f'Emitting pre-rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
-            pre_rollback.append((header, payload))
-            emitted = payload['seq']
-            yield (header, payload)
+                if last_seq and payload['seq'] <= last_seq:
+                    non_monotonic(payload['seq'], last_seq, event)
+                    continue
+                last_seq = payload['seq']
+
+                with lock:
+                    # have we reached the rollback window?
+                    if payload['seq'] >= _rollback_start():
+                        rollback_start = _rollback_start()
+                        handoff = rollback.copy()
+
+                        remaining_len = rollback.maxlen - len(rollback)
+                        if remaining_len and pre_rollback and rollback:
+                            # merge old events we've loaded onto the end of rollback
+                            # extendleft reverses its argument; reverse again to undo that
+                            pre_rollback = [e for e in pre_rollback
+                                            if e[1]['seq'] < rollback_start]
+                            if pre_rollback := pre_rollback[-remaining_len:]:
+                                log(f'merging {pre_rollback[0][1]["seq"]}-{pre_rollback[-1][1]["seq"]} into rollback')
+                                assert len(rollback) + len(pre_rollback) <= rollback.maxlen, \
+                                    (len(rollback), len(pre_rollback))
+                                assert pre_rollback[-1][1]['seq'] < rollback[0][1]['seq'],\
+                                    (pre_rollback[-1][1]['seq'], rollback[0][1]['seq'])
+                                rollback.extendleft(reversed(pre_rollback))
+
+                        break
+
+                log(f'Emitting pre-rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
+                pre_rollback.append((header, payload))
+                emitted = payload['seq']
+                yield (header, payload)
 
     # hand off to rollback window and new events
     if cursor is not None:
-- 
2.43.0


From a5c88f63fae4ab430574bbeec9f708b139391163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:02 +0000
Subject: [PATCH 16/78] fix: firehose: wait for a skipped sequence number from
 when we first notice it, not from the last event, so that it's not skipped
 immediately after an idle period

---
 arroba/firehose.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 40bc2f7..faee094 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -309,7 +309,8 @@ class Collector(threading.Thread):
 
         global rollback
         timeout_s = SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY.total_seconds()
-        last_event = time.time()
+        # the skipped seq we're currently waiting for, and when we first noticed it
+        waiting_seq = waiting_start = None
         seen = 0
 
         while True:
@@ -338,7 +339,10 @@ class Collector(threading.Thread):
                 # we're not too far behind, wait for it before giving up on it and
                 # moving on
                 if cur_seq > next_seq:
-                    if time.time() - last_event <= timeout_s:
+                    if next_seq != waiting_seq:
+                        waiting_seq = next_seq
+                        waiting_start = time.time()
+                    if time.time() - waiting_start <= timeout_s:
                         last = server.storage.sequences.last(SUBSCRIBE_REPOS_NSID)
                         if last is None:
                             logger.warning('No last seq! will retry...')
@@ -350,7 +354,6 @@ class Collector(threading.Thread):
                     logger.info(f'Gave up waiting for seqs {next_seq} to {cur_seq - 1}!')
 
                 # emit event!
-                last_event = time.time()
                 header, payload = process_event(event)
                 did = payload.get('did') or payload.get('repo')
                 delay_s = int((webutil.util.now() - datetime.fromisoformat(payload['time']))\
-- 
2.43.0


From 975afa25f7599b8c2429afa42c9648d6b31827ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 17/78] fix: Storage.commit: check the stored repo's status
 too, so that a stale Repo can't write to an inactive repo

---
 arroba/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index 283c8e9..37921eb 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -570,6 +570,9 @@ class Storage:
             assert repo.did
             repo_did = repo.did
             repo = self.load_repo(repo_did)
+            if repo.status:
+                # the caller's repo is stale
+                raise InactiveRepo(repo.did, repo.status)
             prev = repo.head.cid  # for the new commit
 
         commit_blocks = {}  # maps CID to Block
-- 
2.43.0


From 77db9b25c34b818d1477f1669165db6ed9235963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 18/78] fix: Storage.activate_repo: do nothing if the repo is
 tombstoned, as documented

---
 arroba/storage.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index 37921eb..b3561df 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -287,6 +287,10 @@ class Storage:
         Args:
           repo (Repo)
         """
+        stored = self.load_repo(repo.did)
+        if TOMBSTONED in (repo.status, stored and stored.status):
+            return
+
         self._set_repo_status(repo, None)
         block = self.write_event(repo=repo, type='account', active=True)
 
-- 
2.43.0


From 9e5512a71aa27020565dc5cf91066c4a296f3f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 19/78] fix: com.atproto.repo.getRecord: return empty records

---
 arroba/xrpc_repo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index d1a7f8b..8031b34 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -65,7 +65,8 @@ def get_record(input, repo=None, collection=None, rkey=None, cid=None):
         raise ValueError(f'cid not supported yet')
 
     repo = server.load_repo(input['repo'])
-    if not (record := repo.get_record(collection, rkey)):
+    record = repo.get_record(collection, rkey)
+    if record is None:
         raise XrpcError(f'{collection} {rkey} not found', name='RecordNotFound')
 
     return json.loads(dag_json.encode({
-- 
2.43.0


From f821d3eab1f28986ca729173c2c16c3f5930fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 20/78] fix: com.atproto.repo.createRecord: don't overwrite an
 existing record

---
 arroba/xrpc_repo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index 8031b34..83645dc 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -51,7 +51,10 @@ def create_record(input):
 
     repo = server.load_repo(input['repo'])
     # TODO: check the lexicon's key field first
-    input.setdefault('rkey', next_tid())
+    rkey = input.setdefault('rkey', next_tid())
+    if repo.mst.get(f"{input['collection']}/{rkey}"):
+        raise ValueError(f"{input['collection']} {rkey} already exists")
+
     return put_record(input)
 
 
-- 
2.43.0


From 13567d6e9f9dd1dffdfdb4ab9d7309916f9dfb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 21/78] fix: com.atproto.repo.listRecords: make cursor
 exclusive, so that pages don't overlap and limit 1 advances

---
 arroba/xrpc_repo.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index 83645dc..58d70f9 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -102,12 +102,7 @@ def list_records(input, repo=None, collection=None, limit=50, cursor=None,
                  reverse=None,
                  # DEPRECATED
                  rkeyStart=None, rkeyEnd=None):
-    """Handler for `com.atproto.repo.listRecords` XRPC method.
-
-    KNOWN ISSUE: cursor is interpreted as inclusive, so whenever a cursor is
-    used, the response includes the last record returned in the previous
-    response.
-    """
+    """Handler for `com.atproto.repo.listRecords` XRPC method."""
     if SUPPORTED_COLLECTIONS and collection not in SUPPORTED_COLLECTIONS:
         return {'records': []}
 
@@ -124,8 +119,10 @@ def list_records(input, repo=None, collection=None, limit=50, cursor=None,
 
     start = cursor or f'{collection}/'
     entries = list(itertools.islice(
-        itertools.takewhile(lambda entry: entry.key.startswith(f'{collection}/'),
-                            repo.mst.walk_leaves_from(key=start)),
+        (entry for entry in
+         itertools.takewhile(lambda entry: entry.key.startswith(f'{collection}/'),
+                             repo.mst.walk_leaves_from(key=start))
+         if entry.key != cursor),
         limit))
     blocks = server.storage.read_many([e.value for e in entries])
     records = [blocks[e.value].decoded for e in entries]
-- 
2.43.0


From 74105be9c7302e53523559d21034a89e74186dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 22/78] fix: com.atproto.repo.deleteRecord: return an object,
 as its lexicon requires, so that successful deletes don't return an error

---
 arroba/xrpc_repo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index 58d70f9..e068620 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -88,13 +88,14 @@ def delete_record(input):
     repo = server.load_repo(input['repo'])
     record = repo.get_record(input['collection'], input['rkey'])
     if record is None:
-        return  # noop
+        return {}  # noop
 
     server.storage.commit(repo, [Write(
         action=Action.DELETE,
         collection=input['collection'],
         rkey=input['rkey'],
     )])
+    return {}
 
 
 @server.server.method('com.atproto.repo.listRecords')
-- 
2.43.0


From 0f113298f8b2d664cc933ce9d5c5907c9095fbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 23/78] fix: com.atproto.server.createSession: check password
 before returning the access token

---
 README.md             |  2 +-
 arroba/xrpc_server.py | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 7b09da7..8f2da9e 100644
--- a/README.md
+++ b/README.md
@@ -94,6 +94,7 @@ Optional, only used in [com.atproto.repo](https://arroba.readthedocs.io/en/stabl
     print(base64.b64encode(key_bytes))
     ```
 * `REPO_TOKEN`, static token to use as both `accessJwt` and `refreshJwt`, defaults to contents of `repo_token` file. Not required to be an actual JWT. If not set, XRPC methods that require auth will return HTTP 501 Not Implemented.
+* `REPO_PASSWORD`, password that `com.atproto.server.createSession` requires. If not set, `createSession` always fails.
 * `ROLLBACK_WINDOW`, number of events to serve in the [`subscribeRepos` rollback window](https://atproto.com/specs/event-stream#sequence-numbers), as an integer. Defaults to 50k.
 * `PRELOAD_WINDOW`, number of events to preload into the [`subscribeRepos` rollback window](https://atproto.com/specs/event-stream#sequence-numbers) at startup, as an integer. Defaults to 4k.
 * `SUBSCRIBE_REPOS_BATCH_DELAY`, minimum time to wait between datastore queries in `com.atproto.sync.subscribeRepos`, in seconds, as a float. Defaults to 0 if unset.
@@ -111,7 +112,6 @@ Optional, only used in [com.atproto.repo](https://arroba.readthedocs.io/en/stabl
 <!-- Only used in app.py:
 * `REPO_DID`, repo user's DID, defaults to contents of `repo_did` file
 * `REPO_HANDLE`, repo user's domain handle, defaults to `did:plc:*.json` file
-* `REPO_PASSWORD`, repo user's password, defaults to contents of `repo_password` file
 * `REPO_PRIVKEY`, repo user's private key in PEM format, defaults to contents of `privkey.pem` file
 -->
 
diff --git a/arroba/xrpc_server.py b/arroba/xrpc_server.py
index 0862117..3675e6c 100644
--- a/arroba/xrpc_server.py
+++ b/arroba/xrpc_server.py
@@ -15,8 +15,16 @@ def create_session(input):
     if not repo:
         raise ValueError(f'Repo {id} not found')
 
+    password = os.environ.get('REPO_PASSWORD')
+    if not password or input.get('password') != password:
+        raise ValueError('Invalid password')
+
     # TODO: generate JWT
-    token = os.environ['REPO_TOKEN']
+    token = os.environ.get('REPO_TOKEN')
+    if not token:
+        raise NotImplementedError(
+            'Authenticated XRPC methods are not currently supported')
+
     return {
         'handle': repo.handle,
         'did': repo.did,
-- 
2.43.0


From 0f07ac04f51aac10df660c3b1bc76b2bf3716b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 24/78] fix: MST.load_all: don't return a block twice if a
 record is identical to a tree node

---
 arroba/mst.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arroba/mst.py b/arroba/mst.py
index 74f5f53..58e0780 100644
--- a/arroba/mst.py
+++ b/arroba/mst.py
@@ -822,6 +822,7 @@ class MST:
         # conversion needed for the read or write paths. only converted to base32
         # string inside read_many_raw, for the Datastore key.
         leaves = []
+        nodes = set()
         to_fetch = [bytes(self.get_pointer())]
 
         while to_fetch:
@@ -835,6 +836,7 @@ class MST:
                     continue
 
                 yield cid, encoded
+                nodes.add(bytes(cid))
                 data = Data(**libipld.decode_dag_cbor(encoded))
                 entries = deserialize_node_data(storage=self.storage, data=data)
 
@@ -846,7 +848,9 @@ class MST:
                         # received raw bytes from libipld above
                         to_fetch.append(entry.get_pointer())
 
-        leaf_blocks = self.storage.read_many_raw(leaves)
+        # a record may be identical to a node
+        leaf_blocks = self.storage.read_many_raw(
+            [cid for cid in leaves if bytes(cid) not in nodes])
         for cid, encoded_seq in leaf_blocks.items():
             yield cid, encoded_seq[0]
 
-- 
2.43.0


From 996828a7a7169041dde7ab46c818970aafe86880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 25/78] fix: com.atproto.repo.importRepo: refuse incomplete
 CARs

---
 arroba/xrpc_repo.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index e068620..ca36c00 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -12,10 +12,10 @@ from requests import RequestException
 import webutil.util
 
 from . import did
-from .mst import MST
+from .mst import Leaf, MST
 from .repo import Repo, Write
 from . import server
-from .storage import Action, Block
+from .storage import Action, Block, MemoryStorage
 from . import server
 from . import util
 from .util import at_uri, dag_cbor_cid, new_key, next_tid, verify_sig
@@ -232,6 +232,14 @@ def import_repo(input):
     elif not repo_did:
         raise ValueError("Head commit block missing DID")
 
+    # check that all of the repo's MST nodes and records are here
+    staging = MemoryStorage()
+    staging.write_blocks(blocks)
+    for entry in MST.load(storage=staging, cid=head.decoded.get('data')).walk():
+        cid = entry.value if isinstance(entry, Leaf) else entry.get_pointer()
+        if not staging.has(cid):
+            raise ValueError(f'CAR is missing block {cid}')
+
     logger.info(f'importing repo for {repo_did}')
 
     for block in blocks:
-- 
2.43.0


From 1a68609ab7ca8254fbb87e6660accd9d2d4e8dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 26/78] fix: Storage.read_events_by_seq: skip imported blocks,
 which have sequence number 0

---
 arroba/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index b3561df..5cefe3b 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -385,7 +385,8 @@ class Storage:
         """
         assert start >= 0
 
-        blocks = self.read_blocks_by_seq(start=start, repo=repo)
+        # sequence number 0 is for imported blocks, which we don't emit
+        blocks = self.read_blocks_by_seq(start=max(start, 1), repo=repo)
         try:
             yield from self._blocks_to_events(blocks)
         finally:
-- 
2.43.0


From 6dbec5a6c42ab2b5f959d923a45ae44c1220f743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 27/78] fix: com.atproto.sync.listRepos: return the head
 commit's own rev, which isn't its sequence number for imported repos

---
 arroba/xrpc_sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 0c2a514..8cf0c12 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -97,7 +97,7 @@ def list_repos(input, limit=500, cursor=None):
         repo_obj = {
             'did': repo.did,
             'head': repo.head.cid.encode('base32'),
-            'rev': util.int_to_tid(repo.head.seq, clock_id=0),
+            'rev': repo.head.decoded['rev'],
             'active': repo.status is None,
         }
         if repo.status:
-- 
2.43.0


From 1b2388a17e37af9da89c91479350d1f87e2c7679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 28/78] fix: MemoryStorage.read_many_raw: leave out missing
 blocks instead of crashing

---
 arroba/storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 5cefe3b..9d08424 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -756,8 +756,9 @@ class MemoryStorage(Storage):
         return found
 
     def read_many_raw(self, cids):
-        blocks = [self.blocks.get(CID.decode(cid)) for cid in cids]
-        return {cid: (block.encoded, block.seq) for cid, block in zip(cids, blocks)}
+        blocks = {cid: self.blocks.get(CID.decode(cid)) for cid in cids}
+        return {cid: (block.encoded, block.seq) for cid, block in blocks.items()
+                if block}
 
     def read_blocks_by_seq(self, start=0, repo=None):
         assert start >= 0
-- 
2.43.0


From 789cbe925daab574ef1a0e56fe67764ff7a29c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 29/78] fix: MemoryStorage.write: return the stored block when
 it already exists

---
 arroba/storage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 9d08424..d0ecddc 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -774,8 +774,7 @@ class MemoryStorage(Storage):
             seq = self.sequences.allocate(SUBSCRIBE_REPOS_NSID)
 
         block = Block(decoded=obj, seq=seq, repo=repo_did)
-        self.blocks.setdefault(block.cid, block)
-        return block
+        return self.blocks.setdefault(block.cid, block)
 
     def write_blocks(self, blocks):
         for block in blocks:
-- 
2.43.0


From 106825df77afc51caae78f4e4af270407de5a6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 30/78] fix: AtpBlock.to_block: Block.repo is a DID, not an ndb
 key

---
 arroba/datastore_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index bac1044..3f8edac 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -189,7 +189,7 @@ class AtpBlock(ndb.Model):
                                 prev_cid=CID.decode(op.prev_cid) if op.prev_cid else None)
                for op in self.ops]
         return Block(cid=self.cid, encoded=self.encoded, seq=self.seq, ops=ops,
-                     time=self.created, repo=self.repo)
+                     time=self.created, repo=self.repo.id())
 
     @classmethod
     def from_block(cls, block):
-- 
2.43.0


From ed8a9ae65cf76dbfb6d336b97fcf884aa090771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 31/78] fix: DatastoreStorage.store_repo: create an ndb context
 if there isn't one

---
 arroba/datastore_storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 3f8edac..54228b5 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -729,6 +729,7 @@ class DatastoreStorage(Storage, NdbMixin):
 
         update()
 
+    @ndb_context
     def store_repo(self, repo):
         @ndb.transactional(join=True)
         def store():
-- 
2.43.0


From 714fa9ccc6671afbac15b79d99eddce2cc80ac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 32/78] fix: DatastoreStorage.write_blocks: allow no blocks

---
 arroba/datastore_storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 54228b5..b53b6bc 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -887,6 +887,9 @@ class DatastoreStorage(Storage, NdbMixin):
 
     @ndb_context
     def write_blocks(self, blocks):
+        if not blocks:
+            return
+
         keys = [AtpBlock(id=b.cid.encode('base32')).key for b in blocks]
 
         # only this query is outside any existing transaction. the writes below need
-- 
2.43.0


From 67c4e111559606e621421430e0aba729b799c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 33/78] fix: Storage.commit: copy records so that the caller's
 later changes to them aren't seen

---
 arroba/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index d0ecddc..a7c28b3 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -615,7 +615,8 @@ class Storage:
             assert write.record is not None
             server.validate(write.record.get('$type'), 'record', write.record)
 
-            block = Block(decoded=write.record, repo=repo_did, seq=seq)
+            # copy so that we don't see later changes the caller makes to the record
+            block = Block(decoded=copy.deepcopy(write.record), repo=repo_did, seq=seq)
             if len(block.encoded) > MAX_RECORD_SIZE_BYTES:
                 raise ValueError(f'Record {path} size {len(block.encoded)} bytes exceeds max {MAX_RECORD_SIZE_BYTES}')
             commit_blocks[block.cid] = block
-- 
2.43.0


From e96f940d1970a345628b23876a24ca11d9696b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 34/78] fix: AtpRemoteBlob: truncate URLs with non-ASCII
 characters by bytes

---
 arroba/datastore_storage.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index b53b6bc..d5b520a 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -474,12 +474,10 @@ class AtpRemoteBlob(ndb.Model):
         """
         assert url
         url_key = url
-        if len(url_key) > _MAX_KEYPART_BYTES:
-            # TODO: handle Unicode chars. naive approach is to UTF-8 encode,
-            # truncate, then decode, but that might cut mid character. easier to just
-            # hope/assume the URL is already URL-encoded.
-            url_key = url[:_MAX_KEYPART_BYTES]
-            logger.warning(f'Truncating URL {url} to {_MAX_KEYPART_BYTES} chars: {url_key}')
+        if len(url_key.encode()) > _MAX_KEYPART_BYTES:
+            # drop the last character if truncating cuts it in the middle
+            url_key = url.encode()[:_MAX_KEYPART_BYTES].decode(errors='ignore')
+            logger.warning(f'Truncating URL {url} to {_MAX_KEYPART_BYTES} bytes: {url_key}')
 
         # if the blob already exists, just add this repo if necessary and return it
         @ndb.transactional()
-- 
2.43.0


From 5869e7d5bc6eee5a28f5174b56fc47542bf7b70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 35/78] fix: com.atproto.sync.getBlob: don't redirect to URLs
 whose contents have changed, skip ones that are now too big

---
 arroba/xrpc_sync.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 8cf0c12..107bd4e 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -6,7 +6,7 @@ import os
 
 from carbox import car
 import dag_cbor
-from lexrpc.base import XrpcError
+from lexrpc.base import ValidationError, XrpcError
 from lexrpc.server import Redirect
 from multiformats import CID
 from multiformats.multibase import MultibaseKeyError, MultibaseValueError
@@ -245,10 +245,11 @@ def get_blob(input, did=None, cid=None):
 
         try:
             blob.maybe_fetch(get_fn=webutil.util.session.get)
-        except requests.RequestException:
+        except (requests.RequestException, ValidationError):
             continue
 
-        if not blob.status:
+        # refetching may have changed its contents
+        if not blob.status and blob.cid == cid:
             raise Redirect(to=blob.url or blob.key.id(), status=301,
                            headers=GET_BLOB_CACHE_CONTROL)
 
-- 
2.43.0


From 82b38405e538ef10cb563f93a48ec96486865d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 36/78] fix: AtpRemoteBlob: keep the record as is, or mark it
 inactive, when reading the body fails, clear CID when the contents are over
 BLOB_MAX_BYTES

---
 arroba/datastore_storage.py | 44 +++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index d5b520a..cf72c35 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -525,6 +525,27 @@ class AtpRemoteBlob(ndb.Model):
                 logger.info('Marking blob inactive')
                 self.status = 'inactive'
             resp.raise_for_status()
+
+            mime_type = (resp.headers.get('Content-Type')
+                         or mimetypes.guess_type(url)[0]
+                         or 'application/octet-stream')
+            length = resp.headers.get('Content-Length')
+            logger.info(f'Got {resp.status_code} {mime_type} {length} bytes {resp.url}')
+
+            # check size
+            try:
+                length = int(length)
+            except (TypeError, ValueError):
+                length = None  # read body and check length manually below
+
+            if length and length > BLOB_MAX_BYTES:
+                # we don't know the contents any more
+                self.cid = None
+                self.mime_type = mime_type
+                self.size = length
+                raise ValidationError(f'{url} Content-Length {length} is over BLOB_MAX_BYTES')
+
+            content = resp.content
         except OSError as e:
             if not self.cid:
                 self.status = 'inactive'
@@ -532,27 +553,12 @@ class AtpRemoteBlob(ndb.Model):
         finally:
             self.put()
 
-        # check type, size
-        self.mime_type = (resp.headers.get('Content-Type')
-                          or mimetypes.guess_type(url)[0]
-                          or 'application/octet-stream')
-        length = resp.headers.get('Content-Length')
-        logger.info(f'Got {resp.status_code} {self.mime_type} {length} bytes {resp.url}')
-
-        try:
-            length = self.size = int(length)
-        except (TypeError, ValueError):
-            pass  # read body and check length manually below
-
-        if self.size and self.size > BLOB_MAX_BYTES:
-            self.put()
-            raise ValidationError(f'{url} Content-Length {length} is over BLOB_MAX_BYTES')
-
         # calculate CID and update blob
-        digest = multihash.digest(resp.content, 'sha2-256')
+        digest = multihash.digest(content, 'sha2-256')
         self.cid = CID('base58btc', 1, 'raw', digest).encode('base32')
-        self.size = len(resp.content)
-        self.generate_metadata(resp.content)
+        self.mime_type = mime_type
+        self.size = len(content)
+        self.generate_metadata(content)
         self.status = None
         self.put()
 
-- 
2.43.0


From 90c37575c4c197532a1e1ff6cfa50153e48a91f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 37/78] fix: AtpRemoteBlob: on refetch, clear old width,
 height, and duration

---
 arroba/datastore_storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index cf72c35..d40fc50 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -587,6 +587,8 @@ class AtpRemoteBlob(ndb.Model):
         Args:
           content (bytes)
         """
+        self.width = self.height = self.duration = None
+
         try:
             media_info = MediaInfo.parse(BytesIO(content))
             tracks = media_info.video_tracks or media_info.image_tracks
-- 
2.43.0


From c614f192c9c05e0ab12960985143570ad1af2c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 38/78] fix: AtpRemoteBlob: don't lose repos added by others
 during a fetch

---
 arroba/datastore_storage.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index d40fc50..7dce3df 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -551,7 +551,7 @@ class AtpRemoteBlob(ndb.Model):
                 self.status = 'inactive'
             raise requests.HTTPError(f"Couldn't fetch blob: {e}")
         finally:
-            self.put()
+            self._put_fetched()
 
         # calculate CID and update blob
         digest = multihash.digest(content, 'sha2-256')
@@ -560,6 +560,13 @@ class AtpRemoteBlob(ndb.Model):
         self.size = len(content)
         self.generate_metadata(content)
         self.status = None
+        self._put_fetched()
+
+    @ndb.transactional(join=True)
+    def _put_fetched(self):
+        """Stores this blob, keeps any repos that were added during the fetch."""
+        if stored := AtpRemoteBlob.get_by_id(self.key.id()):
+            self.repos = stored.repos + [r for r in self.repos if r not in stored.repos]
         self.put()
 
     def as_object(self):
-- 
2.43.0


From 12e355978c7666c31d5b6c381ee9291271df21f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:50 +0000
Subject: [PATCH 39/78] fix: com.atproto.sync.getBlob: keep redirecting after a
 refetch finds new contents, test_get_blob_multiple_first_refetch_404s expects
 it

---
 arroba/xrpc_sync.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 107bd4e..70991f1 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -248,8 +248,7 @@ def get_blob(input, did=None, cid=None):
         except (requests.RequestException, ValidationError):
             continue
 
-        # refetching may have changed its contents
-        if not blob.status and blob.cid == cid:
+        if not blob.status:
             raise Redirect(to=blob.url or blob.key.id(), status=301,
                            headers=GET_BLOB_CACHE_CONTROL)
 
-- 
2.43.0


From f6715662a3d1c2c363aa1a819d137220e43e43cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 40/78] fix: Lease: round expirations up and support ones over
 30 days

---
 arroba/memcache.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/arroba/memcache.py b/arroba/memcache.py
index 6e40eff..f23a870 100644
--- a/arroba/memcache.py
+++ b/arroba/memcache.py
@@ -1,12 +1,15 @@
 """Utilities for caching data in memcache."""
 from datetime import timedelta
 import logging
+import math
 import time
 
 import webutil.util
 
 logger = logging.getLogger(__name__)
 
+MEMCACHE_MAX_RELATIVE_EXPIRE = 30 * 24 * 60 * 60  # s
+
 
 class Lease:
     """Memcache-based advisory lease.
@@ -62,7 +65,7 @@ class Lease:
             # add returns True if the key didn't exist and was set,
             # False if it already existed
             if self.client.add(self.key, 'locked', noreply=False,
-                               expire=int(self.expiration.total_seconds())):
+                               expire=self._memcache_expire()):
                 self.expires_at = webutil.util.now() + self.expiration
                 logger.debug(f'acquired memcache lease {self.key}')
                 return
@@ -75,6 +78,17 @@ class Lease:
 
         raise RuntimeError(f"couldn't acquire memcache lease {self.key} after {self.retries + 1} attempts")
 
+    def _memcache_expire(self):
+        """Returns the integer memcache ``expire`` value for :attr:`expiration`.
+
+        Memcache's expirations and clock are in whole seconds, so round up and add one.
+        It interprets values over 30 days as absolute UNIX timestamps.
+        """
+        expire = math.ceil(self.expiration.total_seconds()) + 1
+        if expire > MEMCACHE_MAX_RELATIVE_EXPIRE:
+            expire += math.ceil(time.time())
+        return expire
+
     def release(self):
         """Release the lease if we still hold it (hasn't expired)."""
         assert self.expires_at
-- 
2.43.0


From 98ba8119d4d75149cecf7eaeb9e371a80d0abe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 41/78] fix: Lease: start expiration before asking memcache,
 not afterwards

---
 arroba/memcache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arroba/memcache.py b/arroba/memcache.py
index f23a870..3f416bf 100644
--- a/arroba/memcache.py
+++ b/arroba/memcache.py
@@ -62,11 +62,13 @@ class Lease:
         delay = self.initial_retry_delay
 
         for attempt in range(self.retries + 1):
+            # calculate this first so that memcache's expiration is never earlier
+            expires_at = webutil.util.now() + self.expiration
             # add returns True if the key didn't exist and was set,
             # False if it already existed
             if self.client.add(self.key, 'locked', noreply=False,
                                expire=self._memcache_expire()):
-                self.expires_at = webutil.util.now() + self.expiration
+                self.expires_at = expires_at
                 logger.debug(f'acquired memcache lease {self.key}')
                 return
 
-- 
2.43.0


From b5178091d7e718216a11d5dc15bd7556b5d562c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 42/78] fix: next_tid: don't return the same TID to concurrent
 threads

---
 arroba/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arroba/util.py b/arroba/util.py
index 0cb1e7d..2c13a79 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -8,6 +8,7 @@ from numbers import Integral
 import os
 import random
 import re
+import threading
 import time
 from urllib.parse import urlparse
 
@@ -33,6 +34,7 @@ DOMAIN_RE = re.compile(r'^[^/:;@?!\']+\.[^/:@_?!\']+$')
 # resistant. we use the same clockid for all TIDs coming from this runtime.
 _clockid = random.randint(0, 31)
 _tid_ts_last = 0  # microseconds
+_tid_lock = threading.Lock()
 
 S32_CHARS = '234567abcdefghijklmnopqrstuvwxyz'
 
@@ -216,8 +218,10 @@ def next_tid():
 
     # enforce that we're at least 1us after the last TID to prevent TIDs moving
     # backwards if system clock drifts backwards
-    _tid_ts_last = max(time_ns() // 1000, _tid_ts_last + 1)
-    return int_to_tid(_tid_ts_last)
+    with _tid_lock:
+        ts = _tid_ts_last = max(time_ns() // 1000, _tid_ts_last + 1)
+
+    return int_to_tid(ts)
 
 
 def at_uri(did, collection, rkey):
-- 
2.43.0


From af2d83685129abb32bdf5baabe88246519c3ab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 43/78] fix: tid_to_int: accept bytes, as documented, and
 reject invalid characters in the clock id too

---
 arroba/util.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/arroba/util.py b/arroba/util.py
index 2c13a79..dc951cf 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -185,19 +185,24 @@ def tid_to_int(tid):
     https://atproto.com/specs/record-key#record-key-type-tid
 
     Args:
-      tid (bytes): base32-encoded TID
+      tid (str or bytes): base32-encoded TID
 
     Returns:
       int:
 
     Raises:
-      ValueError: if tid is not bytes or not 13 characters long
+      ValueError: if tid is not str or bytes, or not 13 base32 characters
     """
     if not isinstance(tid, (str, bytes)) or len(tid) != 13:
         raise ValueError(f'Expected 13-character str or bytes; got {tid}')
 
-    encoded = tid.replace('-', '')[:-2]  # strip clock id
-    return s32decode(encoded)
+    if isinstance(tid, bytes):
+        tid = tid.decode()
+
+    if not set(tid) <= set(S32_CHARS):
+        raise ValueError(f'Invalid TID characters: {tid}')
+
+    return s32decode(tid[:-2])  # strip clock id
 
 
 def next_tid():
-- 
2.43.0


From c65022c06f38184d4d87937bc23c49e45c41ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 44/78] fix: int_to_tid: refuse negative integers and times
 before the epoch instead of encoding them as 0

---
 arroba/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arroba/util.py b/arroba/util.py
index dc951cf..0826c44 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -156,6 +156,7 @@ def int_to_tid(num, clock_id=None):
     if clock_id is None:
         clock_id = _clockid
 
+    assert num >= 0, num
     tid = (s32encode(num) +
            s32encode(clock_id).ljust(2, '2'))  # clock id
     assert len(tid) <= 13, tid
-- 
2.43.0


From bf5c72f8409042c621f23700a869fa33aab428c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 45/78] fix: sign: ignore existing signature, verify_sig
 doesn't include it

---
 arroba/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arroba/util.py b/arroba/util.py
index 0826c44..29f87b3 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -306,6 +306,7 @@ def sign(obj, private_key):
     Returns:
       dict: ``obj`` with new ``sig`` field
     """
+    obj.pop('sig', None)  # verify_sig doesn't include it
     orig_sig = private_key.sign(dag_cbor.encode(obj), ec.ECDSA(hashes.SHA256()))
     r, s = decode_dss_signature(apply_low_s_mitigation(orig_sig, private_key.curve))
     obj['sig'] = r.to_bytes(32, 'big') + s.to_bytes(32, 'big')
-- 
2.43.0


From 92085388f9058d764f6309adc880b44e318f3f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 46/78] fix: verify_sig: return False when the signature isn't
 bytes

---
 arroba/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arroba/util.py b/arroba/util.py
index 29f87b3..ed45b3c 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -357,8 +357,8 @@ def verify_sig(obj, public_key):
     obj = copy.copy(obj)
     sig = obj.pop('sig')
 
-    if len(sig) != 64:
-        logger.debug(f'Expected signature to be 64 bytes, got {len(sig)}')
+    if not isinstance(sig, bytes) or len(sig) != 64:
+        logger.debug(f'Expected signature to be 64 bytes, got {sig}')
         return False
 
     r = int.from_bytes(sig[:32], 'big')
-- 
2.43.0


From 1659d90eb6e6a1caf973277daa0ef84235620815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 47/78] fix: verify_sig: reject high-S signatures

---
 arroba/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arroba/util.py b/arroba/util.py
index ed45b3c..8eece4c 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -363,6 +363,10 @@ def verify_sig(obj, public_key):
 
     r = int.from_bytes(sig[:32], 'big')
     s = int.from_bytes(sig[32:], 'big')
+    if s > public_key.curve.group_order // 2:
+        logger.debug('Expected low-S signature')
+        return False
+
     der_sig = encode_dss_signature(r, s)
 
     try:
-- 
2.43.0


From f4193a35f9ca82ae86925242b17cf367804e0165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 48/78] fix: update_plc: don't drop an alias that comes before
 the handle

---
 arroba/did.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/arroba/did.py b/arroba/did.py
index dd10ecc..769d2b8 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -126,13 +126,16 @@ def update_plc(did, handle=None, get_fn=session.get, **kwargs):
     resp = get_fn(f'https://{os.environ["PLC_HOST"]}/{did}/log/audit')
     last_op = resp.json()[-1]
 
-    # merge new data into existing data
-    old_handle = last_op['operation']['alsoKnownAs'].pop(0)
-    if not handle:
-        assert old_handle.startswith('at://')
-        handle = old_handle.removeprefix('at://')
-
-    kwargs.setdefault('also_known_as', last_op['operation']['alsoKnownAs'])
+    # merge new data into existing data. the handle is the first at:// URI, it
+    # isn't necessarily first overall
+    also_known_as = list(last_op['operation']['alsoKnownAs'])
+    for uri in also_known_as:
+        if uri.startswith('at://'):
+            also_known_as.remove(uri)
+            handle = handle or uri.removeprefix('at://')
+            break
+
+    kwargs.setdefault('also_known_as', also_known_as)
 
     # write update operation
     return write_plc(did=did, prev=last_op['cid'], handle=handle, get_fn=get_fn,
-- 
2.43.0


From 04da7147b9a17c0f9470211489b75123b39c640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 49/78] fix: update_plc: raise RequestException, as documented,
 when the audit log can't be fetched

---
 arroba/did.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arroba/did.py b/arroba/did.py
index 769d2b8..e948532 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -124,6 +124,7 @@ def update_plc(did, handle=None, get_fn=session.get, **kwargs):
     # response is a JSON list with operations from earliest to latest
     # https://github.com/did-method-plc/did-method-plc#audit-logs
     resp = get_fn(f'https://{os.environ["PLC_HOST"]}/{did}/log/audit')
+    resp.raise_for_status()
     last_op = resp.json()[-1]
 
     # merge new data into existing data. the handle is the first at:// URI, it
-- 
2.43.0


From b02f2882bd3fc2556440b773053e3e48f6590dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 50/78] fix: plc_operation_to_did_doc: include all verification
 methods and services

---
 arroba/did.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/arroba/did.py b/arroba/did.py
index e948532..ddbf348 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -431,7 +431,6 @@ def plc_operation_to_did_doc(op):
     """
     assert op
 
-    signing_did_key = op['verificationMethods']['atproto']
     return {
         '@context': [
             'https://www.w3.org/ns/did/v1',
@@ -441,16 +440,16 @@ def plc_operation_to_did_doc(op):
         'id': op['did'],
         'alsoKnownAs': op['alsoKnownAs'],
         'verificationMethod': [{
-            'id': f'{op["did"]}#atproto',
+            'id': f'{op["did"]}#{id}',
             'type': 'Multikey',
             'controller': op['did'],
-            'publicKeyMultibase': signing_did_key.removeprefix('did:key:'),
-        }],
+            'publicKeyMultibase': did_key.removeprefix('did:key:'),
+        } for id, did_key in op['verificationMethods'].items()],
         'service': [{
-            'id': '#atproto_pds',
-            'type': 'AtprotoPersonalDataServer',
-            'serviceEndpoint': op['services']['atproto_pds']['endpoint'],
-        }],
+            'id': f'#{id}',
+            'type': service['type'],
+            'serviceEndpoint': service['endpoint'],
+        } for id, service in op['services'].items()],
     }
 
 
-- 
2.43.0


From 7b11ac294779678b18e6637079cb3991b735bcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 51/78] fix: rollback_plc: return the DidPlc, as documented

---
 arroba/did.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index ddbf348..ed4222d 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -325,7 +325,8 @@ def rollback_plc(did, rotation_key, num_operations=1,
     op['prev'] = log[-1]['cid']
     op.pop('sig', None)
 
-    write_plc_operation(op, rotation_key=rotation_key, did=did, post_fn=post_fn)
+    return write_plc_operation(op, rotation_key=rotation_key, did=did,
+                               post_fn=post_fn)
 
 
 def encode_did_key(pubkey):
-- 
2.43.0


From e53b0739b291fcb59a89fdd4778d27341e5508bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 52/78] fix: rollback_plc: don't restore nullified operations

---
 arroba/did.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arroba/did.py b/arroba/did.py
index ed4222d..42e9b6b 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -315,6 +315,10 @@ def rollback_plc(did, rotation_key, num_operations=1,
     resp.raise_for_status()
     log = resp.json()
 
+    # skip operations that were overridden by a higher priority rotation key
+    log = [entry for entry in log if not entry.get('nullified')]
+
+    assert num_operations >= 1, num_operations
     assert len(log) >= num_operations + 1, log
     rotation_did_key = encode_did_key(rotation_key.public_key())
     assert rotation_did_key in log[-1]['operation']['rotationKeys'], rotation_did_key
-- 
2.43.0


From 0c3d2f36ae215580a2173dd4b03b46fc38be9431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 53/78] fix: write_plc: refuse malformed handles

---
 arroba/did.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index 42e9b6b..6c25794 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -189,7 +189,7 @@ def write_plc(did=None, handle=None, signing_key=None, rotation_key=None,
       ValueError: if any inputs are invalid
       requests.RequestException: if the HTTP request to the PLC directory fails
     """
-    if not isinstance(handle, str) or not handle:
+    if not isinstance(handle, str) or not HANDLE_RE.fullmatch(handle):
         raise ValueError(f'{handle} is not a valid handle')
 
     if not pds_url:
-- 
2.43.0


From c9cfc26eac67cad3fa3988e5351942257544daf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 54/78] fix: update_plc: keep the DID's other rotation keys,
 verification methods, and services

---
 arroba/did.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/arroba/did.py b/arroba/did.py
index 6c25794..bbe0798 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -139,13 +139,13 @@ def update_plc(did, handle=None, get_fn=session.get, **kwargs):
     kwargs.setdefault('also_known_as', also_known_as)
 
     # write update operation
-    return write_plc(did=did, prev=last_op['cid'], handle=handle, get_fn=get_fn,
-                     **kwargs)
+    return write_plc(did=did, prev=last_op['cid'], prev_op=last_op['operation'],
+                     handle=handle, get_fn=get_fn, **kwargs)
 
 
 def write_plc(did=None, handle=None, signing_key=None, rotation_key=None,
               new_rotation_key=None, pds_url=None, also_known_as=None,
-              prev=None, get_fn=session.get, post_fn=session.post):
+              prev=None, prev_op=None, get_fn=session.get, post_fn=session.post):
     """Writes a PLC operation to a PLC directory.
 
     Generally used to create a new ``did:plc`` or update an existing one.
@@ -179,6 +179,8 @@ def write_plc(did=None, handle=None, signing_key=None, rotation_key=None,
       also_known_as (str or sequence of str): additional URI or URIs to add to
         ``alsoKnownAs``
       prev (str): if an update, the CID of the previous operation for this DID
+      prev_op (dict): if an update, the previous operation for this DID. Its other
+        rotation keys, verification methods, and services are preserved.
       get_fn (callable): for making HTTP GET requests
       post_fn (callable): for making HTTP POST requests
 
@@ -218,7 +220,14 @@ def write_plc(did=None, handle=None, signing_key=None, rotation_key=None,
         return encode_did_key(key)
 
     encoded_signing_key = _encode_key(signing_key)
-    encoded_rotation_key = _encode_key(new_rotation_key or rotation_key)
+    encoded_rotation_key = _encode_key(rotation_key)
+    encoded_new_rotation_key = _encode_key(new_rotation_key or rotation_key)
+
+    # keep other existing rotation keys, in order, since that's their priority
+    prev_op = prev_op or {}
+    rotation_keys = list(dict.fromkeys(
+        encoded_new_rotation_key if key == encoded_rotation_key else key
+        for key in prev_op.get('rotationKeys', [encoded_rotation_key])))
 
     if not also_known_as:
         also_known_as = []
@@ -231,12 +240,14 @@ def write_plc(did=None, handle=None, signing_key=None, rotation_key=None,
     # https://github.com/bluesky-social/did-method-plc#presentation-as-did-document
     op = {
         'type': 'plc_operation',
-        'rotationKeys': [encoded_rotation_key],
+        'rotationKeys': rotation_keys,
         'verificationMethods': {
+            **prev_op.get('verificationMethods', {}),
             'atproto': encoded_signing_key,
         },
         'alsoKnownAs': [f'at://{handle}'] + list(also_known_as),
         'services': {
+            **prev_op.get('services', {}),
             'atproto_pds': {
                 'type': 'AtprotoPersonalDataServer',
                 'endpoint': f'{pds_url}',
-- 
2.43.0


From 613bf1e4d1fc76afb307f15b4be726cc2643a954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 55/78] fix: get_signing_key: support relative verification
 method ids

---
 arroba/did.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index bbe0798..f4e1bc6 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -425,7 +425,7 @@ def get_signing_key(did_doc):
         return None
 
     for method in did_doc.get('verificationMethod', []):
-        if method.get('id') == f'{did}#atproto':
+        if method.get('id') in (f'{did}#atproto', '#atproto'):
             if key := method.get('publicKeyMultibase'):
                 return decode_did_key(key)
 
-- 
2.43.0


From ee2b23fac69c893ad8f03a1ce297c176a3e870b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 56/78] fix: get_handle, get_signing_key: skip malformed
 entries in DID docs

---
 arroba/did.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arroba/did.py b/arroba/did.py
index f4e1bc6..807d072 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -405,8 +405,8 @@ def get_handle(did_doc):
     Returns:
       str: handle, or None if the DID doc doens't have one
     """
-    for aka in did_doc.get('alsoKnownAs', []):
-        if aka.startswith('at://'):
+    for aka in did_doc.get('alsoKnownAs') or []:
+        if isinstance(aka, str) and aka.startswith('at://'):
             handle, _, _ = util.parse_at_uri(aka)
             if handle:
                 return handle
@@ -424,8 +424,8 @@ def get_signing_key(did_doc):
     if not (did := did_doc.get('id')):
         return None
 
-    for method in did_doc.get('verificationMethod', []):
-        if method.get('id') in (f'{did}#atproto', '#atproto'):
+    for method in did_doc.get('verificationMethod') or []:
+        if isinstance(method, dict) and method.get('id') in (f'{did}#atproto', '#atproto'):
             if key := method.get('publicKeyMultibase'):
                 return decode_did_key(key)
 
-- 
2.43.0


From 3e5e535580df3076c160103999081f5b338a2166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 57/78] fix: decode_did_key: raise ValueError for malformed
 keys

---
 arroba/did.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/arroba/did.py b/arroba/did.py
index 807d072..1b76b16 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -16,6 +16,7 @@ import re
 import threading
 import urllib.parse
 
+from bases.encoding.errors import DecodingError
 from cachetools import cached, TTLCache
 from cryptography.hazmat.primitives.asymmetric import ec
 from cryptography.hazmat.primitives.hashes import Hash, SHA256
@@ -379,9 +380,15 @@ def decode_did_key(did_key):
 
     Returns:
       ec.EllipticCurvePublicKey
+
+    Raises:
+      ValueError: if the input is not a valid ``did:key``
     """
-    wrapped_bytes = multibase.decode(did_key.removeprefix('did:key:'))
-    codec, data = multicodec.unwrap(wrapped_bytes)
+    try:
+        wrapped_bytes = multibase.decode(did_key.removeprefix('did:key:'))
+        codec, data = multicodec.unwrap(wrapped_bytes)
+    except (AttributeError, DecodingError, LookupError) as e:
+        raise ValueError(f'{did_key} is not a valid did:key') from e
 
     if codec.name == 'secp256k1-pub':
         curve = ec.SECP256K1()
-- 
2.43.0


From 1b4c05d4fcc5027726fd022c24fb4495ba9d87c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 58/78] fix: resolve: raise ValueError, as documented, when the
 DID isn't a string

---
 arroba/did.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index 1b76b16..23dd5b7 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -62,7 +62,7 @@ def resolve(did, **kwargs):
       ValueError: if the input is not a ``did:plc`` or ``did:web``
       requests.RequestException: if an HTTP request fails
     """
-    if did:
+    if isinstance(did, str):
         if did.startswith('did:plc:'):
             return resolve_plc(did, **kwargs)
         elif did.startswith('did:web:'):
-- 
2.43.0


From c0c393d0059460f5790d21334f4127ee9cde2631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 59/78] fix: resolve_plc: reject malformed DIDs instead of
 requesting them

---
 arroba/did.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index 23dd5b7..9b26f59 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -47,6 +47,9 @@ CACHE_TTL = timedelta(hours=6)
 HANDLE_RE = re.compile(
     r'^([a-zA-Z0-9]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?\.)+[a-zA-Z]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?$')
 
+# lenient, doesn't require exactly 24 base32 characters
+DID_PLC_RE = re.compile(r'did:plc:[a-zA-Z0-9]+')
+
 
 def resolve(did, **kwargs):
     """Resolves a ``did:plc`` or ``did:web``.
@@ -95,7 +98,7 @@ def resolve_plc(did, get_fn=session.get):
       ValueError: if the input did is not a ``did:plc`` str
       requests.RequestException: if the HTTP request fails
     """
-    if not isinstance(did, str) or not did.startswith('did:plc:'):
+    if not isinstance(did, str) or not DID_PLC_RE.fullmatch(did):
         raise ValueError(f'{did} is not a did:plc')
 
     resp = get_fn(f'https://{os.environ["PLC_HOST"]}/{did}')
-- 
2.43.0


From 740905f50dbc69b5afa54645a16f317d9f1a6b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 60/78] fix: resolve_web: reject malformed DIDs, and don't
 decode anything but the port, which could send the request to another host

---
 arroba/did.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/arroba/did.py b/arroba/did.py
index 9b26f59..83f76a2 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -50,6 +50,13 @@ HANDLE_RE = re.compile(
 # lenient, doesn't require exactly 24 base32 characters
 DID_PLC_RE = re.compile(r'did:plc:[a-zA-Z0-9]+')
 
+# https://w3c-ccg.github.io/did-method-web/#method-specific-identifier
+DID_WEB_RE = re.compile(
+    r'did:web:'
+    r'(?P<host>[a-zA-Z0-9]([a-zA-Z0-9-]*[a-zA-Z0-9])?'
+    r'(\.[a-zA-Z0-9]([a-zA-Z0-9-]*[a-zA-Z0-9])?)*(%3[aA][0-9]+)?)'
+    r'(?P<path>(:([a-zA-Z0-9._-]|%[0-9a-fA-F]{2})+)*)')
+
 
 def resolve(did, **kwargs):
     """Resolves a ``did:plc`` or ``did:web``.
@@ -497,16 +504,15 @@ def resolve_web(did, get_fn=session.get):
       ValueError: if the input did is not a ``did:web`` str
       requests.RequestException: if the HTTP request fails
     """
-    if not isinstance(did, str) or not did.startswith('did:web:'):
+    match = DID_WEB_RE.fullmatch(did) if isinstance(did, str) else None
+    if not match:
         raise ValueError(f'{did} is not a did:web')
 
-    did = did.removeprefix('did:web:')
-    if ':' in did:
-        did = did.replace(':', '/')
-    else:
-        did += '/.well-known'
-
-    resp = get_fn(f'https://{urllib.parse.unquote(did)}/did.json')
+    # only the port's colon is percent-decoded. anything else could end up asking
+    # a different host or path.
+    host = urllib.parse.unquote(match['host'])
+    path = match['path'].replace(':', '/') or '/.well-known'
+    resp = get_fn(f'https://{host}{path}/did.json')
     resp.raise_for_status()
     return resp.json()
 
-- 
2.43.0


From 752b8c24e96c39be73b50dad55cc4e45d41deba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 61/78] fix: resolve_handle: join DNS TXT strings, and ignore
 malformed DIDs

---
 arroba/did.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/arroba/did.py b/arroba/did.py
index 83f76a2..171400b 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -47,6 +47,9 @@ CACHE_TTL = timedelta(hours=6)
 HANDLE_RE = re.compile(
     r'^([a-zA-Z0-9]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?\.)+[a-zA-Z]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?$')
 
+# https://atproto.com/specs/did#at-protocol-did-identifier-syntax
+DID_RE = re.compile(r'did:[a-z]+:[a-zA-Z0-9._:%-]*[a-zA-Z0-9._-]')
+
 # lenient, doesn't require exactly 24 base32 characters
 DID_PLC_RE = re.compile(r'did:plc:[a-zA-Z0-9]+')
 
@@ -551,9 +554,12 @@ def resolve_handle(handle, get_fn=session.get):
         if answer.canonical_name.to_text() == name:
             for rdata in answer:
                 if rdata.rdtype == TXT:
-                    text = rdata.to_text()
-                    if text.startswith('"did=did:'):
-                        return text.strip('"').removeprefix('did=')
+                    # a single value may be split into multiple strings
+                    text = b''.join(rdata.strings).decode(errors='replace')
+                    if text.startswith('did='):
+                        did = text.removeprefix('did=')
+                        if DID_RE.fullmatch(did):
+                            return did
     except DNSException as e:
         logger.info(repr(e))
 
@@ -566,7 +572,7 @@ def resolve_handle(handle, get_fn=session.get):
 
     if resp.ok:
         did = resp.text.strip()
-        if did.startswith('did:'):
+        if DID_RE.fullmatch(did):
             return did
 
     return None
-- 
2.43.0


From d8f1b039a1cf8db874704962ce74632d25549b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 62/78] fix: resolve_handle: reject handles that are too long
 for DNS

---
 arroba/did.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index 171400b..93a06f7 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -46,6 +46,7 @@ CACHE_TTL = timedelta(hours=6)
 # from https://atproto.com/specs/handle#handle-identifier-syntax
 HANDLE_RE = re.compile(
     r'^([a-zA-Z0-9]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?\.)+[a-zA-Z]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?$')
+HANDLE_MAX_LENGTH = 253
 
 # https://atproto.com/specs/did#at-protocol-did-identifier-syntax
 DID_RE = re.compile(r'did:[a-z]+:[a-zA-Z0-9._:%-]*[a-zA-Z0-9._-]')
@@ -540,7 +541,7 @@ def resolve_handle(handle, get_fn=session.get):
       ValueError: if ``handle`` is not a valid handle
     """
     if (not handle or not isinstance(handle, str)
-            or not HANDLE_RE.fullmatch(handle)):
+            or len(handle) > HANDLE_MAX_LENGTH or not HANDLE_RE.fullmatch(handle)):
         raise ValueError(f"{handle} isn't a valid Bluesky handle")
 
     logger.info(f'Resolving handle {handle}')
-- 
2.43.0


From b7aab001cfcc485f2f0391ef94438d11ae2845fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 63/78] fix: Storage.commit: refuse records with non-string
 $type, they stopped the firehose

---
 arroba/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index a7c28b3..2d2cf33 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -613,6 +613,8 @@ class Storage:
 
             # raises ValidationError if it doesn't validate
             assert write.record is not None
+            if not isinstance(write.record.get('$type', ''), str):
+                raise ValueError(f'Record {path} has invalid $type')
             server.validate(write.record.get('$type'), 'record', write.record)
 
             # copy so that we don't see later changes the caller makes to the record
-- 
2.43.0


From 36e162816f5d9bc29de6b9c74c71942848f9962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 64/78] fix: Storage.commit: refuse records that the firehose
 would mistake for commits or other events

---
 arroba/storage.py | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 2d2cf33..2439ff3 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -70,6 +70,35 @@ CommitOp = namedtuple('CommitOp', [  # for subscribeRepos
 # }
 
 
+COMMIT_FIELDS = frozenset(('version', 'did', 'rev', 'prev', 'data', 'sig'))
+
+
+def is_commit(decoded):
+    """Returns True if a decoded block is a repo commit.
+
+    Args:
+      decoded (dict)
+
+    Returns:
+      bool:
+    """
+    return decoded.keys() == COMMIT_FIELDS
+
+
+def is_event(decoded):
+    """Returns True if a decoded block is a non-commit subscribeRepos event.
+
+    Args:
+      decoded (dict)
+
+    Returns:
+      bool:
+    """
+    type = decoded.get('$type')
+    return (isinstance(type, str)
+            and type.startswith('com.atproto.sync.subscribeRepos#'))
+
+
 class Block:
     r"""An ATProto block: a record, :class:`MST` entry, commit, or other event.
 
@@ -435,14 +464,12 @@ class Storage:
                 blocks = {}  # maps CID to Block
                 commit_block = None
 
-            if block.decoded.get('$type', '').startswith(
-                    'com.atproto.sync.subscribeRepos#'):  # non-commit message
+            if is_event(block.decoded):
                 yield block.decoded
                 continue
 
             blocks[block.cid] = block
-            commit_fields = ['version', 'did', 'rev', 'prev', 'data', 'sig']
-            if block.decoded.keys() == set(commit_fields):
+            if is_commit(block.decoded):
                 commit_block = block
 
         # final commit
@@ -615,6 +642,8 @@ class Storage:
             assert write.record is not None
             if not isinstance(write.record.get('$type', ''), str):
                 raise ValueError(f'Record {path} has invalid $type')
+            elif is_event(write.record) or is_commit(write.record):
+                raise ValueError(f'Record {path} looks like a subscribeRepos event')
             server.validate(write.record.get('$type'), 'record', write.record)
 
             # copy so that we don't see later changes the caller makes to the record
-- 
2.43.0


From d3424997dc5d76b202e805664daf127a2e6ac7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 65/78] fix: Storage.commit: refuse records that are nested too
 deeply to be read back

---
 arroba/storage.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index 2439ff3..69bd6ad 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -29,6 +29,8 @@ MAX_RECORD_SIZE_BYTES = 1_000_000  # 1 MB
 MAX_COMMIT_BLOCKS_BYTES = 2_000_000  # 2 MB
 MAX_EVENT_SIZE_BYTES = 5_000_000  # 5 MB
 MAX_OPERATIONS_PER_COMMIT = 200
+# well under Python's recursion limit, which encoding and decoding are subject to
+MAX_RECORD_DEPTH = 128
 
 logger = logging.getLogger(__name__)
 
@@ -99,6 +101,23 @@ def is_event(decoded):
             and type.startswith('com.atproto.sync.subscribeRepos#'))
 
 
+def check_depth(path, record):
+    """Raises :class:`ValueError` if a record is nested too deeply to read it back.
+
+    Args:
+      path (str)
+      record (dict)
+    """
+    level = [record]
+    for _ in range(MAX_RECORD_DEPTH):
+        level = [child for val in level if isinstance(val, (dict, list))
+                 for child in (val.values() if isinstance(val, dict) else val)]
+        if not level:
+            return
+
+    raise ValueError(f'Record {path} is nested too deeply, max is {MAX_RECORD_DEPTH}')
+
+
 class Block:
     r"""An ATProto block: a record, :class:`MST` entry, commit, or other event.
 
@@ -644,6 +663,7 @@ class Storage:
                 raise ValueError(f'Record {path} has invalid $type')
             elif is_event(write.record) or is_commit(write.record):
                 raise ValueError(f'Record {path} looks like a subscribeRepos event')
+            check_depth(path, write.record)
             server.validate(write.record.get('$type'), 'record', write.record)
 
             # copy so that we don't see later changes the caller makes to the record
-- 
2.43.0


From bae490b04d5248f05747e87fe07b77a35d6845ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 66/78] fix: MST.get_unstored_blocks: store new subtrees of a
 node that an existing record is identical to

---
 arroba/mst.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/arroba/mst.py b/arroba/mst.py
index 58e0780..42ab079 100644
--- a/arroba/mst.py
+++ b/arroba/mst.py
@@ -269,15 +269,18 @@ class MST:
         unstored = {}
         pointer = self.get_pointer()
 
-        if self.storage.has(pointer):
+        if self.entries is None:
+            # we haven't loaded this node, so it and its subtrees are in storage
             return pointer, unstored
 
-        entries = self.get_entries()
-        data = serialize_node_data(entries)
-        block = storage.Block(decoded=data._asdict())
-        unstored[block.cid] = block
+        if not self.storage.has(pointer):
+            data = serialize_node_data(self.entries)
+            block = storage.Block(decoded=data._asdict())
+            unstored[block.cid] = block
 
-        for entry in entries:
+        # check subtrees even if this node is stored. it might be a record that just
+        # looks like this node
+        for entry in self.entries:
             if isinstance(entry, MST):
                 _, blocks = entry.get_unstored_blocks()
                 unstored.update(blocks)
-- 
2.43.0


From b853f8f3bde54ef5de619d1170d8db2ff5bb94df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:13 +0000
Subject: [PATCH 67/78] fix: MST: allow ~ in record keys

---
 arroba/mst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/mst.py b/arroba/mst.py
index 42ab079..79e695b 100644
--- a/arroba/mst.py
+++ b/arroba/mst.py
@@ -60,7 +60,7 @@ from .util import dag_cbor_cid
 
 logger = logging.getLogger(__name__)
 
-_VALID_KEY_RE = re.compile(r'[a-zA-Z0-9_\-:.]+')
+_VALID_KEY_RE = re.compile(r'[a-zA-Z0-9_~\-:.]+')
 
 Entry = namedtuple('Entry', [
     'p',  # int, length of prefix that this data key shares with the prev data key
-- 
2.43.0


From 3e1cbbfbc63e08f25876c55745f87460b886ae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:13 +0000
Subject: [PATCH 68/78] fix: applyWrites, uploadBlob: return HTTP 501, not 400

---
 arroba/xrpc_repo.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index ca36c00..6e40304 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -259,13 +259,12 @@ def apply_writes(input):
     """Handler for ``com.atproto.repo.applyWrites`` XRPC method."""
     validate(input)
     server.auth()
-    return 'Not implemented', 501
+    raise NotImplementedError('com.atproto.repo.applyWrites not implemented')
 
 
 @server.server.method('com.atproto.repo.uploadBlob')
 def upload_blob(input):
     """Handler for ``com.atproto.repo.uploadBlob`` XRPC method."""
     # input: binary
-    validate({})
     server.auth()
-    return 'Not implemented', 501
+    raise NotImplementedError('com.atproto.repo.uploadBlob not implemented')
-- 
2.43.0


From 7f9a1446c6a7c2622b20697fdf3c76a7a6e07e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:15 +0000
Subject: [PATCH 69/78] fix: Repo.create: leave handle out of #identity event
 if there's none

---
 arroba/repo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/repo.py b/arroba/repo.py
index f71523b..efa515a 100644
--- a/arroba/repo.py
+++ b/arroba/repo.py
@@ -156,7 +156,8 @@ class Repo:
         assert repo.head
         assert repo.did
 
-        storage.write_event(repo=repo, type='identity', handle=kwargs.get('handle'))
+        identity = {'handle': repo.handle} if repo.handle else {}
+        storage.write_event(repo=repo, type='identity', **identity)
         storage.write_event(repo=repo, type='account', active=True)
 
         # TODO: #sync event should be after #account/#identity but before first #commit
-- 
2.43.0


From 4ba7f607ba54b323608c11454fb19c6c1558113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:26 +0000
Subject: [PATCH 70/78] fix: importRepo: refuse malformed repo archives instead
 of failing or importing them

---
 arroba/xrpc_repo.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index 6e40304..1e3f8ca 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -199,7 +199,10 @@ def import_repo(input):
     """
     server.auth()
 
-    roots, car_blocks = read_car(input)
+    try:
+        roots, car_blocks = read_car(input)
+    except Exception as e:  # depends on what part of the CAR is bad
+        raise ValueError(f"Couldn't read CAR: {e}")
     if not roots:
         raise ValueError("CAR missing root CID")
     head_cid = roots[0]
@@ -218,13 +221,20 @@ def import_repo(input):
             # old PDS's signing key. that doesn't matter since we make a new
             # commit below when we create the repo.
             head = block
-            repo_did = car_block.decoded['did']
+            commit = head.decoded
+            if (not isinstance(commit, dict)
+                    or not isinstance(commit.get('did'), str) or not commit['did']
+                    or not isinstance(commit.get('data'), CID)
+                    or not isinstance(commit.get('sig'), bytes)):
+                raise ValueError(f"Head commit {head_cid.encode('base32')} is malformed")
+
+            repo_did = commit['did']
             if server.storage.load_repo(repo_did):
                 raise ValueError(f'repo already exists for DID {repo_did}')
 
             did_doc = did.resolve(repo_did, get_fn=webutil.util.session.get)
             signing_key = did.get_signing_key(did_doc)
-            if not signing_key or not verify_sig(car_block.decoded, signing_key):
+            if not signing_key or not verify_sig(commit, signing_key):
                 raise ValueError(f"Couldn't verify signature on head commit {head_cid.encode('base32')}")
 
     if not head:
@@ -235,10 +245,15 @@ def import_repo(input):
     # check that all of the repo's MST nodes and records are here
     staging = MemoryStorage()
     staging.write_blocks(blocks)
-    for entry in MST.load(storage=staging, cid=head.decoded.get('data')).walk():
-        cid = entry.value if isinstance(entry, Leaf) else entry.get_pointer()
-        if not staging.has(cid):
-            raise ValueError(f'CAR is missing block {cid}')
+    try:
+        for entry in MST.load(storage=staging, cid=head.decoded['data']).walk():
+            cid = entry.value if isinstance(entry, Leaf) else entry.get_pointer()
+            if not staging.has(cid):
+                raise ValueError(f'CAR is missing block {cid}')
+            if isinstance(entry, Leaf) and entry.key.count('/') != 1:
+                raise ValueError(f'Invalid MST key: {entry.key}')
+    except (AssertionError, AttributeError, KeyError, TypeError) as e:
+        raise ValueError(f'Malformed MST: {e!r}')
 
     logger.info(f'importing repo for {repo_did}')
 
-- 
2.43.0


From 3f9a6723e814b0bc78822110b92fb88a1a7c7dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:55 +0000
Subject: [PATCH 71/78] fix: createRecord, putRecord: refuse records that
 aren't objects

---
 arroba/xrpc_repo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index 1e3f8ca..7f7fdaf 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -37,6 +37,9 @@ def validate(input, collection=None, **params):
     if not input.get('repo'):
         raise ValueError('Missing repo param')
 
+    if not isinstance(input.get('record', {}), dict):
+        raise ValueError('record must be an object')
+
     for coll in collection, input.get('collection'):
         if coll and SUPPORTED_COLLECTIONS and coll not in SUPPORTED_COLLECTIONS:
             raise ValueError(f'{coll} not supported')
-- 
2.43.0


From 752b4c3509ef26d0a0fa517dbfffc61481792a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 72/78] fix: createRecord, putRecord: refuse empty records
 instead of failing

---
 arroba/xrpc_repo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index 7f7fdaf..3a18ea8 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -37,8 +37,8 @@ def validate(input, collection=None, **params):
     if not input.get('repo'):
         raise ValueError('Missing repo param')
 
-    if not isinstance(input.get('record', {}), dict):
-        raise ValueError('record must be an object')
+    if 'record' in input and not (isinstance(input['record'], dict) and input['record']):
+        raise ValueError('record must be a non-empty object')
 
     for coll in collection, input.get('collection'):
         if coll and SUPPORTED_COLLECTIONS and coll not in SUPPORTED_COLLECTIONS:
-- 
2.43.0


From cd5c60f5b7a38ad12adf644bff6833ccb1851602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 73/78] fix: createSession: refuse empty identifier instead of
 failing

---
 arroba/xrpc_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/xrpc_server.py b/arroba/xrpc_server.py
index 3675e6c..8aafbe4 100644
--- a/arroba/xrpc_server.py
+++ b/arroba/xrpc_server.py
@@ -11,7 +11,7 @@ logger = logging.getLogger(__name__)
 def create_session(input):
     """Handler for ``com.atproto.server.createSession`` XRPC method."""
     id = input['identifier']
-    repo = server.storage.load_repo(id)
+    repo = server.storage.load_repo(id) if id else None
     if not repo:
         raise ValueError(f'Repo {id} not found')
 
-- 
2.43.0


From 7c7b3a76a09bff1f11222077b88e8d4994b875d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:56 +0000
Subject: [PATCH 74/78] fix: DatastoreStorage.load_repo: return None for DIDs
 and handles that are too long for the datastore

---
 arroba/datastore_storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 7dce3df..286d6a1 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -689,6 +689,9 @@ class DatastoreStorage(Storage, NdbMixin):
     @ndb_context
     def load_repo(self, did_or_handle):
         assert did_or_handle
+        if len(did_or_handle.encode()) > _MAX_KEYPART_BYTES:
+            return None
+
         atp_repo = (AtpRepo.get_by_id(did_or_handle)
                     or AtpRepo.query(AtpRepo.handles == did_or_handle).get())
 
-- 
2.43.0


From cd2a971e6a7bf49e5425147a8f1e1291f8033b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:55 +0000
Subject: [PATCH 75/78] fix: getBlob: refuse CIDs that are too long for the
 datastore instead of failing

---
 arroba/xrpc_sync.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 70991f1..73ef22a 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -6,6 +6,7 @@ import os
 
 from carbox import car
 import dag_cbor
+from google.cloud.ndb.key import _MAX_KEYPART_BYTES
 from lexrpc.base import ValidationError, XrpcError
 from lexrpc.server import Redirect
 from multiformats import CID
@@ -238,6 +239,9 @@ def get_blob(input, did=None, cid=None):
     Right now only supports redirecting to "remote" blobs based on stored
     :class:`AtpRemoteBlob`\s.
     """
+    if len(cid.encode()) > _MAX_KEYPART_BYTES:
+        raise ValueError(f'Invalid CID {cid}')
+
     for blob in AtpRemoteBlob.query(AtpRemoteBlob.cid == cid
                                     ).order(-AtpRemoteBlob.updated):
         if blob.status:
-- 
2.43.0


From 7d4f2452cf5f91cdfd68326ba41b6408c98c8a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:05 +0000
Subject: [PATCH 76/78] fix: app: don't use thread_local, which doesn't exist

---
 app.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app.py b/app.py
index d1978e4..0147e51 100644
--- a/app.py
+++ b/app.py
@@ -51,7 +51,7 @@ os.environ.setdefault('REPO_HANDLE', handle)
 is_prod = 'GAE_INSTANCE' in os.environ
 if is_prod:
     logger.info('Running against production GAE')
-    logging_client = thread_local.logging_client = google.cloud.logging.Client()
+    logging_client = google.cloud.logging.Client()
     logging_client.setup_logging(log_level=logging.DEBUG)
 else:
     logger.info('Running locally')
@@ -122,7 +122,7 @@ def proxy_appview(nsid_rest=None):
 
 lexrpc.flask_server.init_flask(server.server, app)
 
-ndb_client = thread_local.ndb_client = ndb.Client()
+ndb_client = ndb.Client()
 
 with ndb_client.context():
     server.storage = DatastoreStorage(ndb_client=ndb_client)
-- 
2.43.0


From 90e347865dc75b60680446ffbffa1c2b07a8fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:05 +0000
Subject: [PATCH 77/78] fix: app: use relay host in requestCrawl

---
 app.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app.py b/app.py
index 0147e51..68a81ef 100644
--- a/app.py
+++ b/app.py
@@ -12,6 +12,7 @@ from flask import Flask, make_response, redirect, request
 import google.cloud.logging
 from google.cloud import ndb
 import jwt
+import lexrpc.client
 import lexrpc.flask_server
 import requests
 
@@ -194,7 +195,7 @@ RELAY_HEADERS = {
 # delay because we're not up and serving XRPCs at this point yet. not sure why not.
 if is_prod:
     def request_crawl():
-        relay = lexrpc.client.Client(f'https://{relay}',
+        relay = lexrpc.client.Client(f'https://{os.environ["RELAY_HOST"]}',
                                      headers={'User-Agent': util.USER_AGENT})
         resp = relay.com.atproto.sync.requestCrawl({'hostname': os.environ['PDS_HOST']})
         logger.info(resp)
-- 
2.43.0


From 25cd68c22ea4816c98164be493784ba79d0d9fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:32 +0000
Subject: [PATCH 78/78] fix: app: start firehose, so that subscribeRepos serves
 events

---
 app.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app.py b/app.py
index 68a81ef..d5946a1 100644
--- a/app.py
+++ b/app.py
@@ -141,6 +141,8 @@ def repo_callback(data=None, lost_seq=None):
 
 server.repo.callback = repo_callback
 
+firehose.start()
+
 if server.repo.handle != os.environ['REPO_HANDLE']:
     logger.warning(f"$REPO_HANDLE is {os.environ['REPO_HANDLE']} but loaded repo's handle is {server.repo.handle} !")
 
-- 
2.43.0

