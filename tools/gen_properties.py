#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

prop('C01', 'MST root is a pure function of the key/value contents',
 '''For any mapping of valid record paths to CIDs, the tree's root CID is the same whatever sequence of adds, updates
 and deletes (with any saves and reloads in between) produced that mapping, and equals the root the atproto MST
 specification prescribes for it. Every node reachable from the root is a valid specification node: keys strictly
 sorted, prefix-compressed, at the layer their SHA-256 prescribes, and no superfluous or empty nodes.''',
 ['histories', 'inputs'], '''All finite key sets and all operation histories leading to them, including keys many layers apart,
 deletes that merge subtrees, and histories interrupted by persisting and reloading from storage.''',
 '''Tests check a few fixed trees, one interop suite of single-step diffs and short hypothesis runs comparing two
 insertion orders; none compares long delete-heavy histories with reloads against an independent construction.''',
 ['arroba/mst.py'], [('add/update/delete, split and merge', 'arroba/mst.py: MST.add, delete, delete_recurse, split_around, append_merge, trim_top'),
  ('node (de)serialization', 'arroba/mst.py: serialize_node_data, deserialize_node_data, leading_zeros_on_hash')],
 observe=['MST.get_pointer', 'blocks written by Storage.commit'])

prop('C02', 'The MST is an immutable sorted map',
 '''At every point of every history, lookups, leaf counts, full, ranged and prefixed listings and walks from an arbitrary
 key return exactly what a sorted dictionary with the same history would. Adding an existing key, updating or deleting a missing key, or
 using a syntactically invalid path fails with no effect, and an operation never changes what a previously obtained tree returns. Two trees are equal exactly if
 their contents are, and the CIDs on the path to a key are those of the nodes that lead to where it is or would be, and then its value's.''',
 ['histories', 'inputs'], 'All operation histories, all probe keys (present, absent, between, before, after), all range bounds, all valid and invalid path strings.',
 'Tests probe a handful of keys on a few trees; range bounds, walks from absent keys and persistence of old versions over long histories are not quantified.',
 ['arroba/mst.py'], [('lookups and ranges', 'arroba/mst.py: MST.get, list, list_with_prefix, walk_leaves_from, leaves, leaf_count, cids_for_path, __eq__'),
  ('path validation', 'arroba/mst.py: ensure_valid_key')], observe=['MST public methods'])

prop('C03', 'After a commit everything reachable from the head is durably readable',
 '''After each successful commit, the head commit and every tree node and record reachable from it can be read from storage, each one's bytes
 hash to its CID, and loading the repo afresh yields exactly the contents prescribed by the committed writes. Blocks already stored are
 never altered, re-sequenced or removed by later commits, in any repo sharing the store.''',
 ['histories', 'inputs'], 'All sequences of multi-operation commits over one or several repos in one store, including re-creating earlier contents, both storage backends.',
 'Tests commit one or two small batches and check the records they wrote; they do not walk the whole reachable block graph after every commit of long histories, and never run the Datastore backend here.',
 ['arroba/storage.py', 'arroba/mst.py', 'arroba/datastore_storage.py', 'arroba/repo.py'],
 [('only unstored blocks are written', 'arroba/mst.py: MST.get_unstored_blocks'), ('first writer wins', 'arroba/storage.py: MemoryStorage.write_blocks; arroba/datastore_storage.py: write_blocks')],
 observe=['Storage.read', 'Storage.load_repo', 'Repo.get_contents'])

prop('C04', 'Tree diffs are exact and compose',
 '''The diff between two trees lists exactly the keys added, updated (with old and new value) and deleted between them. Its new and removed CIDs turn the block set of the old tree
 (nodes and record values) into one covering the new tree, naming as new no node the old tree already has and as removed every node only the old tree has and none that the new tree still needs, and the diff from nothing lists the whole
 tree; accumulating consecutive key changes gives the same key changes as diffing the endpoints.''',
 ['inputs', 'histories'], 'All pairs of trees, including unrelated trees, empty trees, trees of different heights and trees shared by history.',
 'Tests diff a few random pairs of trees made by one edit script; different heights, unrelated trees and block-level exactness are sampled only.',
 ['arroba/diff.py', 'arroba/mst.py'], [('simultaneous walk', 'arroba/diff.py: mst_diff; arroba/mst.py: Walker')], observe=['Diff.of', 'Diff.add_diff'])

prop('C05', 'Firehose commit events are exact, self-contained and invertible',
 '''Every commit event carries exactly the record operations that transform the previous repo contents into the new ones (with CIDs, and previous CIDs for updates
 and deletes), and a block archive rooted at the signed commit that holds every created or updated record. From that archive alone a consumer can rebuild the part of the new tree
 it needs, undo the operations, and arrive at exactly the previous data root that the event announces; repo, rev, sequence number and time agree with the stored commit.''',
 ['histories', 'inputs'], 'All repo states and all commits of 0..200 mixed operations, including updates to identical content, deletes to empty, records repeated within or across commits and repos, on both storage backends.',
 'Tests compare payloads of a few small commits to literals; no test plays the consumer and inverts operations over the partial tree for arbitrary histories.',
 ['arroba/firehose.py', 'arroba/mst.py', 'arroba/storage.py'],
 [('covering proofs', 'arroba/mst.py: MST.add_covering_proofs'), ('payload assembly', 'arroba/firehose.py: process_event'), ('commit reconstruction', 'arroba/storage.py: Storage.read_events_by_seq')],
 observe=['com.atproto.sync.subscribeRepos payloads'])

prop('C06', 'A served record comes with a complete, correct proof',
 '''For every record in an active repo, the sync record endpoint returns an archive rooted at the current head from which a verifier holding nothing else can check
 the commit and follow the tree from its data root down to exactly that record's CID, with the record block included. For a path that is not in the repo it reports that the record was not found.''',
 ['inputs', 'histories'], 'All repos (any tree height) and all present and absent paths.',
 'One test checks a small repo whose tree is one or two layers.',
 ['arroba/xrpc_sync.py', 'arroba/mst.py'], [('proof blocks', 'arroba/xrpc_sync.py: get_record; arroba/mst.py: add_covering_proofs')], observe=['com.atproto.sync.getRecord'])

prop('C07', 'Each repo is one linear chain of correctly signed commits',
 '''Every commit names its repo's DID and version 3, points to the repo's previous head, holds the tree root of the new contents, has a rev that is the valid timestamp id of its sequence
 number and greater than its predecessor's, and verifies with low-S under the repo's signing key and under no other. Walking back from the head visits every successful commit exactly once, and
 every newly stored block of a commit carries that commit's sequence number.''',
 ['histories'], 'All commit histories of one or many interleaved repos, on both backends and with every sequence allocator.',
 'Tests check the fields of one or two commits; the chain over long interleaved histories is not checked.',
 ['arroba/storage.py', 'arroba/util.py', 'arroba/repo.py'], [('commit construction', 'arroba/storage.py: Storage._commit'), ('signing', 'arroba/util.py: sign, apply_low_s_mitigation')], observe=['Storage.load_repo', 'Storage.read', 'subscribeRepos'])

prop('C08', 'A failed commit has no effect and returns its sequence number as lost',
 '''If a commit of any batch fails for any reason (bad operation in the middle, validation, size, signing, storage error), then neither the stored repo, the caller's repo object, nor any later commit or event
 shows any part of it, and later commits still work. Its allocated sequence number is reported lost exactly once and never appears as an event, while a successful commit is reported exactly once and never as lost.''',
 ['inputs', 'fault_sequences', 'histories'], 'All batches, with the failing operation at every position; storage faults at each read and write of a commit; on both backends; with the caller holding fresh or stale repo objects.',
 'Tests use single-operation failing commits; multi-operation batches failing midway and faults at each storage call are not covered.',
 ['arroba/storage.py', 'arroba/datastore_storage.py'], [('all work on a working tree, published at the end', 'arroba/storage.py: Storage.commit, _commit'), ('datastore transaction', 'arroba/datastore_storage.py: DatastoreStorage._commit')],
 observe=['Repo.callback', 'Storage.load_repo', 'Storage.read_events_by_seq'])

prop('C09', 'Concurrent commits to the Datastore are serializable',
 '''When several writers commit to the same and different repos concurrently, with transaction conflicts, retries and ambiguous database errors, the result equals running the successful commits one at a time in some order:
 no acknowledged write is lost, each repo's commits form a single chain, and the event stream contains exactly one commit for each successful commit and none for failed or aborted attempts.''',
 ['schedules', 'fault_sequences'], 'All interleavings of concurrent commits at database-call granularity, and all placements of aborts and transient errors.',
 'The Datastore tests need an emulator, are single-threaded except one, and inject no conflicts at chosen points.',
 ['arroba/datastore_storage.py', 'arroba/storage.py'], [('transaction around load, write and head update', 'arroba/datastore_storage.py: _commit, write_blocks, store_repo')],
 observe=['Storage.load_repo', 'Storage.read_events_by_seq', 'Repo.callback'])

prop('C10', 'Sequence numbers are unique and never go backwards',
 '''However many threads and processes allocate from one stream, no sequence number is ever handed out twice, an allocation that starts after another finished gets a larger number, and streams do not affect one another. This holds
 when the cache is flushed, evicted or restarted at any moment and when database transactions conflict, and the reported last number is never below one already handed out (or is unknown) and never one that is yet to be handed out.''',
 ['schedules', 'fault_sequences'], 'All interleavings of allocators at cache- and database-call granularity in one or several processes, all moments of cache loss, all batch/buffer sizes; for the in-memory, Datastore and memcache allocators.',
 'Tests allocate sequentially or from a few threads with luck-based interleaving, and clear the cache only between allocations.',
 ['arroba/datastore_storage.py', 'arroba/storage.py'], [('batched reservation', 'arroba/datastore_storage.py: MemcacheSequences.allocate'), ('independent transaction', 'arroba/datastore_storage.py: DatastoreSequences.allocate')],
 observe=['Sequences.allocate', 'Sequences.last'])

prop('C11', 'Every subscriber gets every event exactly once, in order',
 '''A subscriber that starts from any cursor inside the retained window receives every event from that cursor on, each exactly once, with strictly increasing sequence numbers, no matter whether events come from storage, the in-memory
 window or live, and no matter how it starts relative to concurrent commits. All subscribers see identical content for the same sequence number, whenever and however they receive it, and it matches what was committed.''',
 ['schedules', 'histories'], 'All cursors, window and preload sizes, numbers of subscribers, restarts, and interleavings of subscription handoff with the collector and with writers.',
 'Tests exercise each handoff path once with small windows and few events and cannot choose the interleaving.',
 ['arroba/firehose.py', 'arroba/xrpc_sync.py', 'arroba/storage.py'], [('storage to window to live handoff', 'arroba/firehose.py: subscribe'), ('window upkeep', 'arroba/firehose.py: Collector.run, _collect')],
 state=[('rollback', 'in-memory event window', 'arroba/firehose.py'), ('subscribers', 'live queues', 'arroba/firehose.py')],
 observe=['com.atproto.sync.subscribeRepos'])

prop('C12', 'Out-of-order commits are waited for; lost numbers do not stall the stream',
 '''If a commit becomes visible after one with a higher sequence number, the stream holds the later one back and emits both in order, provided the gap fills within the configured delay after it is first seen and is within the configured window of the newest number. Numbers reported lost are
 skipped without waiting, a gap that outlasts the delay or window is skipped so that the stream always progresses, and nothing behind an already emitted number is ever emitted.''',
 ['schedules', 'histories'], 'All orders in which allocated numbers become visible, are reported lost or never appear; all delays relative to the configured limits; after busy and idle periods.',
 'Tests cover one gap at a time at fixed times; never a gap after an idle period, several gaps at once, or lost reports racing with visibility.',
 ['arroba/firehose.py'], [('gap wait', 'arroba/firehose.py: Collector._collect'), ('lost numbers', 'arroba/firehose.py: mark_seq_lost')], observe=['com.atproto.sync.subscribeRepos'])

prop('C13', 'Cursors are honoured or refused as the protocol says',
 '''A cursor above the newest sequence number gets a single FutureCursor error and no events; a cursor older than the retained window (the newest number and the ROLLBACK_WINDOW numbers before it) gets an OutdatedCursor notice and then the stream from the start of that window;
 any other cursor starts at that number inclusive, and no cursor starts with events emitted after subscribing.''',
 ['inputs', 'configurations', 'histories'], 'All cursors including 0, the newest and one past it, around both window edges, for all window/preload sizes and stream lengths.',
 'Tests check one cursor of each kind with one window size.',
 ['arroba/xrpc_sync.py', 'arroba/firehose.py'], [('cursor validation', 'arroba/xrpc_sync.py: subscribe_repos')], observe=['com.atproto.sync.subscribeRepos'])

prop('C14', 'A fault never stops the firehose nor costs or repeats an event',
 '''After any number of transient errors while the server reads new events, and after subscribers disconnect at any moment, the stream resumes and remaining subscribers still receive every event exactly once in order. A disconnected subscriber
 leaves nothing behind and does not delay or affect others.''',
 ['fault_sequences', 'schedules'], 'All placements of storage and sequence read errors in the collection loop, and all moments of disconnection.',
 'One test injects one exception once.', ['arroba/firehose.py'], [('restart on exception', 'arroba/firehose.py: Collector.run'), ('cleanup', 'arroba/firehose.py: subscribe')], observe=['com.atproto.sync.subscribeRepos'])

prop('C15', 'Account status governs writes, reads and events consistently',
 '''While a repo is deactivated or tombstoned no commit to it succeeds, through any repo object however old, and record, repo and sync reads (blob redirects excepted) refuse it while status and list endpoints report it as not active; reactivating restores everything unchanged.
 Each transition emits exactly one corresponding account (or tombstone) event with its own sequence number, a status is in force when its event is announced and no later-numbered commit slips in while inactive, creation emits commit, identity, account and sync events in that order, and activating a tombstoned repo does nothing.''',
 ['histories', 'inputs'], 'All sequences of create, commit, deactivate, activate, tombstone over several repos, with fresh and stale repo objects, on both backends.',
 'Tests check single transitions with a fresh object.', ['arroba/storage.py', 'arroba/server.py', 'arroba/xrpc_sync.py', 'arroba/repo.py'],
 [('status check', 'arroba/storage.py: _commit; arroba/server.py: load_repo'), ('events', 'arroba/storage.py: deactivate_repo, activate_repo, tombstone_repo, write_event')],
 observe=['Storage.commit', 'XRPC endpoints', 'subscribeRepos'])

prop('C16', 'The record API behaves as a map per repo',
 '''Over any sequence of create, put, get, delete and list calls, the record API returns exactly what a per-repo dictionary keyed by collection and record key would, with correct URI, CID and value; a create never
 overwrites another record, and following list cursors visits every record of exactly the requested collection in key order. Unsupported parameters, collections outside a configured allow list and malformed requests are refused with no effect.''',
 ['histories', 'inputs', 'configurations'], 'All call sequences over several repos and collections (including collections that are prefixes of each other), page sizes, record values and allow-list settings.',
 'Tests use one or two records per call and one page boundary.', ['arroba/xrpc_repo.py', 'arroba/server.py', 'arroba/util.py'],
 [('handlers', 'arroba/xrpc_repo.py: create_record, put_record, get_record, delete_record, list_records, validate')], observe=['com.atproto.repo.* over HTTP'])

prop('C17', 'Nothing is written or revealed without the configured token',
 '''Every writing or session method called without exactly the configured bearer token fails and leaves all state unchanged, whatever the header, body or method, and when no token is configured all such methods are refused.
 Private keys never appear in any response, and the token is never given to a caller who has not presented a credential.''',
 ['inputs', 'configurations'], 'All authenticated methods, all Authorization header values (missing, wrong scheme, prefix, suffix, case, empty), valid and invalid bodies, token set or unset.',
 'Tests check one wrong header for a few methods.', ['arroba/server.py', 'arroba/xrpc_repo.py', 'arroba/xrpc_server.py'], [('auth', 'arroba/server.py: auth')], observe=['HTTP responses', 'storage contents'])

prop('C18', 'A repo export is complete, minimal and correctly gated',
 '''An export (and the deprecated checkout) returns an archive rooted at the current head containing the head commit and every tree node and record of the repo, each hashing to its CID, nothing belonging only to other repos or past
 versions, and no block twice. When exports are disabled they are refused for repos older than 12 hours except to a caller with the export token, and allowed otherwise.''',
 ['inputs', 'histories', 'configurations'], 'All repo sizes and shapes (including empty and repos sharing content), after any history; all combinations of the export switches, age and token, on both backends.',
 'Tests export one small repo.', ['arroba/xrpc_sync.py', 'arroba/mst.py', 'arroba/datastore_storage.py'], [('level-by-level export', 'arroba/mst.py: MST.load_all'), ('gating', 'arroba/xrpc_sync.py: get_repo')], observe=['com.atproto.sync.getRepo', 'com.atproto.sync.getCheckout'])

prop('C19', 'Import accepts exactly authentic archives and preserves contents',
 '''Importing an archive exported from another server recreates a deactivated repo with the same DID, handle, head and contents and with new keys of its own, which works normally once activated and does not disturb the event stream. An archive whose head is missing, lacks a DID, has a bad signature for the
 key in its DID document, contains a block that does not match its CID, is incomplete, has a malformed tree, or belongs to a DID that already exists is refused, leaving the repos on the server unchanged.''',
 ['inputs', 'histories'], 'All exported repos and all single corruptions of them (each block, signature, roots, DID, document).',
 'Tests import one fixture and a few malformed archives.', ['arroba/xrpc_repo.py', 'arroba/did.py', 'arroba/storage.py'], [('verification', 'arroba/xrpc_repo.py: import_repo')], observe=['com.atproto.repo.importRepo', 'com.atproto.sync.getRepo', 'subscribeRepos'])

prop('C20', 'A partial export since a revision is enough to catch up',
 '''For every earlier revision of a repo, an export since that revision, added to the blocks a consumer had at that revision, contains everything reachable from the current head, and it is rooted at that head.
 It contains no block that the current repo does not use.''',
 ['histories'], 'All histories and all earlier revisions, including content that disappears and recurs.',
 'One test exports since one revision.', ['arroba/xrpc_sync.py', 'arroba/mst.py'], [('sequence filter', 'arroba/mst.py: MST.load_all')], observe=['com.atproto.sync.getRepo'])

prop('C21', 'Sync read endpoints agree with the stored state and paginate completely',
 '''Head, latest-commit, block and status endpoints report exactly the current stored state of the named repo or that it or a block does not exist. Following cursors of the repo list (or blob list) with any page size visits every repo (or blob of the repo) exactly once,
 in order, each with its current head, rev and status.''',
 ['histories', 'inputs'], 'All sets of repos in all statuses, page sizes and cursors; all sets of requested CIDs present, absent, repeated or malformed; both backends where both serve the endpoint.',
 'Tests use two repos and one page boundary.', ['arroba/xrpc_sync.py', 'arroba/storage.py', 'arroba/datastore_storage.py'], [('handlers', 'arroba/xrpc_sync.py: list_repos, get_blocks, get_head, get_latest_commit, get_repo_status, list_blobs'), ('paging', 'load_repos')], observe=['com.atproto.sync.* over HTTP'])

prop('C22', 'The Datastore and in-memory backends are observably equivalent',
 '''Given the same keys, sequence numbers and calls, both storage backends return the same blocks, sequence numbers, operations, events in the same order, repos, statuses, contents and errors, with or without a surrounding database context and across process restarts.
 Reading back gives exactly the bytes, operations and times written, and a block keeps the sequence number of its first writer.''',
 ['histories', 'inputs'], 'All sequences of storage calls over several repos, including events, lifecycle changes, repeated content, filters by repo and start.',
 'Each backend has its own few hand-written tests, and the Datastore ones do not run without an emulator.', ['arroba/storage.py', 'arroba/datastore_storage.py'], [('interface', 'arroba/storage.py: Storage'), ('Datastore mapping', 'arroba/datastore_storage.py: AtpBlock, AtpRepo, DatastoreStorage')], observe=['Storage public methods'])

prop('C23', 'Bulk and ordered block reads return exactly what is stored',
 '''Batched reads of any number of blocks return each requested block that exists with its exact bytes and sequence number, however the database splits, defers or reorders the answer, and report missing ones as absent; streaming blocks by sequence number yields
 every matching block exactly once in ascending order, also when the surrounding database context is lost partway.''',
 ['fault_sequences', 'inputs'], 'All request sizes (including around the 1000-key limit), all patterns of deferral and reordering, all points of context loss, starts and repo filters.',
 'Tests read a handful of blocks with no deferral and one context loss, and need an emulator.', ['arroba/datastore_storage.py'], [('raw lookup loop', 'arroba/datastore_storage.py: read_many_raw'), ('restart on lost context', 'arroba/datastore_storage.py: read_blocks_by_seq')], observe=['Storage.read_many, read_many_raw, read_blocks_by_seq'])

prop('C24', 'Private keys are stored only encrypted and survive unchanged',
 '''No repo private key is ever sent to the database in a form from which it can be read without the encryption key, in any entity, at any time, and encrypting the same key twice gives different stored bytes. Loading a repo gives back exactly the keys it was created with,
 before and after any commit or status change.''',
 ['histories', 'inputs'], 'All keys, all repo lifecycles and writes to the database they cause.',
 'One emulator-only test compares one loaded key.', ['arroba/datastore_storage.py'], [('encrypted properties', 'arroba/datastore_storage.py: AtpRepo, create_repo')], observe=['bytes sent to the database', 'Storage.load_repo'])

prop('C25', 'Remote blob records describe what the URL served',
 '''After fetching, a blob's CID is the raw SHA-256 CID of the served bytes, its size is their length, and type and limits (global size, field size, accepted types, 3 minute videos) are enforced however lengths are declared. A URL has one record listing each repo that used it once; dead URLs are
 marked inactive and not served, recent or non-refetchable ones are not fetched again, and blob requests redirect only to live URLs whose current content has that CID.''',
 ['inputs', 'histories'], 'All sequences of responses (status, headers, body, errors) over time for one or several URLs, repos and types.',
 'Emulator-only tests check single responses.', ['arroba/datastore_storage.py', 'arroba/xrpc_sync.py'], [('fetch and validation', 'arroba/datastore_storage.py: AtpRemoteBlob'), ('redirect', 'arroba/xrpc_sync.py: get_blob')], observe=['AtpRemoteBlob.get_or_create', 'com.atproto.sync.getBlob'])

prop('C26', 'A lease is held by at most one holder at a time',
 '''At no time do two holders of the same lease both believe they hold it: it is granted only when free or expired, is free again after release or expiry, and releasing an expired lease never frees one that someone else has since acquired.
 A holder that cannot get it within the configured retries fails with an error after exactly that many attempts, and leases on different keys are independent.''',
 ['schedules', 'configurations'], 'All interleavings of acquire, work, release and expiry over several clients, and all expiration and retry settings.',
 'Tests run one or two clients sequentially with whole-second expirations.', ['arroba/memcache.py'], [('atomic add with expiry', 'arroba/memcache.py: Lease')], observe=['Lease.acquire, release'])

prop('C27', 'Timestamp ids are unique, increasing and losslessly encoded',
 '''Generated timestamp ids are valid 13-character ids, never repeat and always increase in string order within a process, under concurrent use and when the clock stalls or goes backwards. Encoding integers and times as ids and decoding them is lossless, preserves order, and
 rejects strings of the wrong length or alphabet.''',
 ['schedules', 'inputs'], 'All interleavings of generators, all clock behaviours, all representable integers, clock ids and datetimes (aware and naive).',
 'Tests generate two ids on one thread and round-trip a few values.', ['arroba/util.py'], [('monotonic generator', 'arroba/util.py: next_tid'), ('codec', 'arroba/util.py: int_to_tid, tid_to_int, datetime_to_tid, tid_to_datetime, s32encode')], observe=['util functions', 'record keys of created records'])

prop('C28', 'Signatures verify, are low-S and are tamper-evident',
 '''Every object or service token signed with a key verifies with its public key, is in low-S form, and stops verifying when any field, byte of the signature or the key changes. Service tokens carry the issuer, audience, expiry and extra claims requested and are not valid after expiry.''',
 ['inputs'], 'All keys, objects, claims and single-site tamperings, and the roughly half of random signatures that need normalisation.',
 'Tests sign a few objects with one key.', ['arroba/util.py'], [('signing', 'arroba/util.py: sign, verify_sig, apply_low_s_mitigation, service_jwt')], observe=['util.sign, verify_sig, service_jwt', 'commits'])

prop('C29', 'PLC operations form a valid signed chain and derive the right DID',
 '''Creating an identity yields the DID derived from its signed genesis operation, later updates and rollbacks send operations that reference the immediately preceding one, are signed by the rotation key, and carry over all fields not
 explicitly changed. The directory resolves to a document whose handle, signing key and PDS are those given, also after any sequence of updates and rollbacks; invalid requests send nothing.''',
 ['histories', 'inputs'], 'All sequences of create, update and rollback against a directory that enforces the PLC rules.',
 'Tests mock single directory calls with literals.', ['arroba/did.py'], [('operations', 'arroba/did.py: create_plc, update_plc, write_plc, write_plc_operation, rollback_plc')], observe=['operations posted to the directory', 'resolved documents'])

prop('C30', 'DIDs, handles, keys and URIs resolve and round-trip correctly',
 '''Public keys survive encoding to and decoding from did:key for every supported curve, at:// URIs split into the parts they were built from, and handles and signing keys read from DID documents are the ones the document states for the account or none. DID and handle resolution asks only the
 right host for the identifier, returns that answer, and rejects malformed identifiers without any request.''',
 ['inputs'], 'All keys, URIs, DID documents (with unrelated entries in any order), identifiers and server responses.',
 'Tests use one example for each function.', ['arroba/did.py', 'arroba/util.py'], [('codecs and resolution', 'arroba/did.py: resolve, resolve_plc, resolve_web, resolve_handle, encode_did_key, decode_did_key, get_handle, get_signing_key, plc_operation_to_did_doc; arroba/util.py: at_uri, parse_at_uri')], observe=['did and util functions', 'HTTP requests made'])

prop('C31', 'Record content cannot forge, break or hide stream events',
 '''Whatever a record contains, committing it either is refused or produces one ordinary commit event for that commit; it never appears on the stream as an event of another kind, never makes another event disappear or change, and never stops the stream or
 repo reads. Records over 1,000,000 encoded bytes, batches of over 200 operations and records violating their lexicon are always refused, and ones within the limits accepted.''',
 ['inputs'], 'All record values, including ones with event-like types, the exact fields of a commit or tree node, non-string types, extreme nesting and sizes at the limits.',
 'Tests write only benign records, and sizes far above the limits.', ['arroba/storage.py', 'arroba/firehose.py', 'arroba/server.py'], [('block classification by content', 'arroba/storage.py: read_events_by_seq'), ('limits', 'arroba/storage.py: _commit')], observe=['Storage.commit', 'subscribeRepos'])

prop('C32', 'A consumer of the stream ends up with exactly the server\'s repos',
 '''A consumer that follows the event stream from its start, or that subscribes and then lists and exports every repo while the server goes on, and that may drop off and resume from the last event it saw within the retained
 window and across server restarts (with no commit under way at that moment), ends with exactly the server's accounts, heads, revs, records, handles and statuses. It needs nothing else, except one export of each account that was imported and then activated; every created account is announced by its
 first commit, an identity event with its handle, an active account event and a sync event with its head, once each and in this order.''',
 ['histories', 'schedules', 'crash_points'], 'All histories of account creation, commits, failed commits, status changes, identity events, tombstones and imports on both backends, all points at which a consumer joins, drops off and resumes, all server restarts, and writers running meanwhile.',
 'Tests check single payloads and single responses against literals; none combines stream, listing and export, nor compares a replica with its source.', ['arroba/firehose.py', 'arroba/repo.py', 'arroba/storage.py', 'arroba/xrpc_sync.py', 'arroba/xrpc_repo.py'],
 [('announcing a new repo', 'arroba/repo.py: Repo.create'), ('events', 'arroba/storage.py: write_event, read_events_by_seq; arroba/firehose.py: process_event, subscribe, Collector'), ('listing and export', 'arroba/xrpc_sync.py: list_repos, get_repo; arroba/xrpc_repo.py: import_repo')],
 observe=['com.atproto.sync.subscribeRepos', 'com.atproto.sync.listRepos', 'com.atproto.sync.getRepo', 'com.atproto.repo.describeRepo'])

prop('C33', 'Everything the server sends conforms to the protocol\'s schemas',
 '''Every event stream message, and the body of every response, that the server sends conforms to the protocol's published lexicon for it: required fields are there, every field has its type, format and limits, and nullable fields alone are null. Every refusal of a request, however malformed
 its parameters, record or archive, is a 4xx (or, for methods that are not implemented, 501 MethodNotImplemented) with a JSON body with an error name. Every answer allows cross-origin use.''',
 ['inputs', 'histories'], 'All histories of accounts with and without handles, commits of all kinds, status changes, tombstones, imports and restarts, all cursors, and all parameters of all endpoints, valid and malformed.',
 'Tests compare single messages with literals that were copied from the output; none reads the schemas.', ['arroba/firehose.py', 'arroba/storage.py', 'arroba/xrpc_repo.py', 'arroba/xrpc_sync.py', 'arroba/xrpc_server.py', 'arroba/repo.py'],
 [('event payloads', 'arroba/firehose.py: process_event, subscribe; arroba/storage.py: write_event'), ('responses', 'arroba/xrpc_repo.py, arroba/xrpc_sync.py, arroba/xrpc_server.py'), ('identity of a new repo', 'arroba/repo.py: Repo.create')],
 observe=['com.atproto.sync.subscribeRepos', 'com.atproto.repo.*', 'com.atproto.sync.*', 'com.atproto.server.*'])

prop('C34', 'The bundled app keeps its one repo across restarts and proxies the rest',
 '''Started on a new database, app.py creates exactly one repo, with the DID, handle and key that its files or environment configure; started again, with any later configuration of handle, hosts, token or password, it serves that repo with the records, commits and events it had. Only the configured
 token writes and only the configured password opens a session. app.bsky.* and resolveHandle calls go once to the configured AppView with their method, path and query, authenticated as the repo and never with a credential of the client, and its status, headers and bytes come back, readable
 across origins; preferences, preflights and health checks are answered locally. Events stored before a start can be read from the stream, and in production the relay is asked once to crawl this host.''',
 ['inputs', 'histories'], 'All configurations (files, environment or both), all sequences of starts, writes and calls on a fresh or used database, all queries, and all answers of the AppView.',
 'No test imports app.py (it did not even start).', ['app.py'], [('configuration and repo creation', 'app.py: module level'), ('AppView proxy', 'app.py: proxy_appview, cors_preflight'), ('preferences and health', 'app.py: get_preferences, put_preferences, health_check'), ('relay', 'app.py: request_crawl')],
 observe=['HTTP responses of the app', 'HTTP requests made', 'repo and events in the Datastore', 'subscribeRepos'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
