"""Handwritten notes per property, for DESIGN.md: what was decided, what is left out and why."""
NOTES = {
 'C01': 'Oracle: `vp/refmst.py` builds the canonical tree bottom-up from the sorted key set, sharing no code with arroba. Keys with `~` are not used (arroba refuses them, the protocol allows them: out of this property). '
        'Keys are mined to reach layer 8 so that splits, merges and empty intermediate layers occur at every height; some key universes hold keys of layers 10 to 12, and long keys that share long prefixes.',
 'C02': 'Every tree of a branching history is kept and re-read after later operations; that is what finds mutation through a shared child, which no single-shot test sees.',
 'C03': 'The walk reads the store behind the library (fake Datastore entities, memory dict), decodes with `vp/cario.py`, and compares a whole-store snapshot before and after each commit, so an overwritten or resequenced block of any repo shows. Commits of up to 200 operations on repos of about 1000 records store several hundred blocks at once.',
 'C04': 'Removed CIDs may name a record CID that the new tree still has under another key; they may never name a node the new tree needs (as stated).',
 'C05': 'The consumer in `vp/refmst.py`/`vp/evcheck.py` knows only the archive. All three ways in which events are produced (direct, preloaded from storage, live) are compared.',
 'C06': 'The verifier starts from the archive root and follows keys by the specification; presence at every tree layer, and absence next to each.',
 'C07': 'Decided offline over stored bytes: all commit blocks of the store must be in exactly one chain. Known finding `rev-overtaken`: a commit that allocated its number before, but finished after, another one to the same repo.',
 'C08': 'Faults enumerated: every storage call (memory) or RPC (Datastore) index of a commit x error kind. After each, raw store, caller objects, callbacks and event log are compared with the model, then another commit must work.',
 'C09': 'The stepper (`vp/sched.py`) lets one thread run between two RPCs. Lost replies (the call took effect, the client got an error) are included. The checker searches no order: each commit names its predecessor, so the order is read off and then replayed against the model.',
 'C10': 'Two known findings (`double-flush`, `buffer-overrun`) are limits of the allocator\'s design; runs avoid exactly those two conditions, and a directed case replays each. Any other duplicate is a violation.',
 'C11': 'Threads are really paused at a chosen executed line with `sys.settrace` and quiescence is decided from the kernel\'s context switch counts, never from time. Excluded: a subscriber so slow in starting that the whole window is replaced.',
 'C12': 'Virtual clock; every emission compared with a small executable model of hold-back. Two readings of ambiguous points are both accepted. Wake-up latency is not judged. Some commits are under way when the server starts. Known finding `restart-in-flight`: the gap that exists at start-up is not waited for.',
 'C13': 'Every cursor around every boundary, through the XRPC dispatch too. The window edge is pinned: newest - ROLLBACK_WINDOW is honoured, one less is outdated.',
 'C14': 'Faults at each read the collector makes, contexts lost in the middle of a query, and subscribers leaving in four ways at each event. Start-up faults and crashes between two statements are not covered.',
 'C15': 'Crash between the status write and its event is not covered. An object that went stale through a reactivation may refuse spuriously; deactivating a tombstoned repo is not exercised (undefined).',
 'C16': 'Values are compared in protocol JSON. Paging while the repo changes must visit every record that stayed.',
 'C17': 'Snapshots of the whole store around each request make "with no effect" observable; a positive control shows that the same body succeeds when authorised.',
 'C18': 'Memory repos have no creation time, so only the Datastore is age-gated. Exactly 12 h may go either way.',
 'C19': 'Archives come from the library and from independent code; damage is only counted if the undamaged archive imports. Known finding `rev-regress`.',
 'C20': 'Known finding `old-node`: the filter is by the sequence number under which a block was first stored. The must-have set stops at nodes stored before since; everything else is required, so any other omission is reported.',
 'C21': 'While repos change between pages, every repo that existed throughout must be visited once.',
 'C22': 'Signatures are randomised, so commits are relabelled before comparison. Times of block events are not compared.',
 'C23': 'The fake defers, splits and reorders lookups as the real service may, and loses the ndb context between or within query pages.',
 'C24': 'A scan of everything that crosses the gRPC boundary. The cipher itself is in webutil and not attacked.',
 'C25': 'Real MediaInfo and files. Known findings `long-url-collision`, `redirect-changed` (an existing test expects the latter).',
 'C26': 'Known finding `release-race`. memcached\'s whole-second ticks are modelled, so the lease must be held to a second less than it asks and freed within three of expiry.',
 'C27': 'Preemption at each bytecode of the generator and free-running threads.',
 'C28': 'Independent ECDSA verification in `vp/sigs.py`.',
 'C29': '`vp/plcdir.py` is a directory written from the PLC specification: it verifies signatures, prev, nullification and recovery priority.',
 'C30': 'A scripted network below requests and dnspython; what is asked is as much part of the verdict as what is returned.',
 'C31': 'The production recursion limit is set. Look-alikes are taken from the future too: a record equal to a tree node another repo is about to store (this found `get_unstored_blocks` trusting a record block as a stored subtree).',
 'C32': 'The end-to-end property: mirrors know only events and HTTP answers, and every event is verified and inverted by the consumer of C05 on the way. While a relay backfills, further operations happen between its requests. An account imported and never activated has no events and is left out; a handle is only compared where it was announced or could be asked for.',
    'C33': 'The workload is that of C32 plus every endpoint, with valid and odd parameters, and the damaged archives of C19; its own judgements are switched off, only the messages are judged. `vp/lexicon.py` reads the schema files of lexrpc with an own validator, since lexrpc (which the server uses) does not validate messages of the stream. A describeRepo, createSession or getSession of an account without handle is refused by lexrpc (the schema requires the handle), which is tolerated.',
    'C34': 'app.py runs from a scratch directory with generated configuration files; only `ndb.Client`, `google.cloud.logging.Client`, `threading.Timer` and requests are stand-ins, and in all but the last life of a case `firehose.start`. Whether bodies of proxied POSTs are forwarded (they are not), and how soon live subscribers wake up (a repo loaded from the Datastore has no callback), are not part of the property.',
}
SEC = {'C01': 9, 'C02': 7, 'C03': 46, 'C04': 11, 'C05': 15, 'C06': 15, 'C07': 4, 'C08': 7, 'C09': 27, 'C10': 14, 'C11': 59, 'C12': 32, 'C13': 12, 'C14': 60, 'C15': 35, 'C16': 60,
       'C17': 8, 'C18': 31, 'C19': 23, 'C20': 22, 'C21': 20, 'C22': 22, 'C23': 13, 'C24': 11, 'C25': 18, 'C26': 9, 'C27': 6, 'C28': 12, 'C29': 4, 'C30': 4, 'C31': 34, 'C32': 40, 'C33': 45, 'C34': 12}
