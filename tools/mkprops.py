#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the statements are reviewable in one place).
import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
HM="src/hash_map.rs";HS="src/hash_set.rs";HI="src/hash_index.rs";HC="src/hash_cache.rs";HT="src/hash_table.rs"
BK="src/hash_table/bucket.rs";BA="src/hash_table/bucket_array.rs";TI="src/tree_index.rs";LF="src/tree_index/leaf.rs"
LN="src/tree_index/leaf_node.rs";IN="src/tree_index/internal_node.rs";ND="src/tree_index/node.rs";AH="src/async_helper.rs"

p("C01","HashMap/HashSet single-key operations are linearizable, also during resizing",
 "Every concurrent execution of HashMap and HashSet operations on keys (insert, upsert, update, read, contains, entry, get, replace, remove, remove_if; blocking, asynchronous and try_ variants mixed) is linearizable: there is one total order, consistent with real time, in which every returned value is what a sequential map would return. This holds whatever the hash distribution is and while the table is being enlarged, shrunk, cleared or dropped to zero buckets: a key that is present is found, and is never present twice.",
 ["schedules","inputs","histories"],"all interleavings of the operations of any number of threads/tasks, for all key/hash distributions and all table sizes, including every moment of an incremental rehash",
 "Unit tests check end states of a few unsynchronised runs with one schedule each; the loom models cover two threads, one insert and one read of a fixed key around one resize. Neither checks intermediate results against an order, nor removal, replace, shrink or table drop racing with other operations.",
 [HM,HS,HT,BK,BA],
 [("bucket array pointer","current table; the previous one stays linked until all its buckets are moved",HT),("number of cleared buckets","progress of the incremental rehash",BA),("bucket lock (poisoned = killed)","exclusive/shared access to a bucket; a killed bucket must be retried in the newer table",BK)],
 [("bucket lock acquisition after moving the old bucket's entries",HT+": writer_sync/reader_sync/dedup_bucket_sync and async twins"),("incremental relocation of a bucket under its lock",HT+": relocate_bucket_*"),("replacing the table only in try_enlarge/try_shrink under the RESIZING flag",HT+": try_resize")],
 ["return values of every public operation","content of the table after all threads finished"],
 "cfg(scc_verif) with feature loom: atomics of src/hash_table/bucket.rs become scheduling points")

p("C02","Every HashMap/HashSet operation returns exactly what the documented sequential map does",
 "For every finite sequence of HashMap or HashSet API calls, in blocking and asynchronous form, every returned value, every reference handed to a closure and every piece of state left behind equal those of the sequential map specification, including the key object that is kept or returned by replace, upsert, insert failure and the entry API. Hash collisions, partial-hash collisions and the resizes triggered along the way never change any result.",
 ["inputs","programs","configurations"],"all call sequences over the public API, all hashers (including constant and colliding ones), all initial capacities",
 "Unit tests exercise each method on a handful of fixed inputs; combinations of overflowing (linked) buckets, equal partial hashes, entry chains and table shrinking are not sampled.",
 [HM,HS,HT,BK],
 [("occupied bitmap, partial hashes, linked data blocks","which slots of a bucket hold which keys",BK)],
 [("search by partial hash then by key",BK+": search_entry/get_entry_ptr"),("slot allocation and removal",BK+": insert, remove"),("entry API",HM+": Entry, OccupiedEntry, VacantEntry, ReplaceResult")],
 ["return values of every public operation","closure arguments"])

p("C03","An Entry or a mutable reference gives exclusive access until it is released",
 "While a HashMap, HashSet, HashIndex or HashCache entry handle for a key exists, or a mutating closure for that key runs, no other operation reads, changes, inserts or removes that key; operations on it take effect before the handle was obtained or after it was released. A try_entry call never waits and returns None only when the required lock is held by someone else.",
 ["schedules","histories"],"all interleavings of handle-holding critical sections (read-modify-write through get_mut/insert/remove/update) with every other operation on the same key or bucket",
 "Unit tests never hold an entry handle while another thread operates on the same key and never check that a read-modify-write sequence is not interleaved.",
 [HM,HI,HC,HT,BK],
 [("bucket reader-writer lock","held in exclusive mode by a handle and in shared mode by readers",BK)],
 [("LockedBucket keeps the Writer alive",HT+": LockedBucket"),("try_lock variants",HT+": try_reserve_bucket, BK: Writer::try_lock")],
 ["values seen by read-modify-write sequences","return value of try_entry"])

p("C04","Scans visit every entry that stays, apply decisions exactly, and skip nothing",
 "iter, iter_mut, retain, any, begin/next and remove_and on HashMap, HashSet, HashIndex and HashCache visit every entry that is present from before the call until after it, hand each visited key with its current value, and apply the closure's decision to exactly the visited entry. An entry is visited more than once only if the table was resized meanwhile, and a scan that stops early has touched nothing beyond the point where it stopped.",
 ["schedules","inputs","histories"],"all tables (sizes, overflow chains, half-finished rehashes), all closure decisions, all concurrent operations of other threads during the scan",
 "Unit tests count visits on freshly built tables; scans over a half-rehashed table, over overflow chains while removing, or with concurrent insertions next to stable keys are only checked for totals.",
 [HM,HS,HI,HC,HT,BK],
 [("bucket iteration order and EntryPtr position","where the scan is",HT+", "+BK)],
 [("for_each_reader/for_each_writer move old buckets first",HT),("EntryPtr::move_to_next over linked blocks",BK),("LockedBucket::next_*",HT)],
 ["visited keys and values","content afterwards"])

p("C05","Capacity, reservation and length bookkeeping stay truthful",
 "At quiescence len() equals the number of entries, is_empty() agrees with it, and neither a concurrent len() nor is_empty() misses entries that are present throughout the call; capacity() stays inside capacity_range() after the table has settled and never below the requested initial capacity. While a Reserve handle lives the capacity, once it has reached what was reserved, does not drop below it, and when the last handle and the last entry are gone the table may shrink to its configured minimum, with no entry lost by any shrink or growth.",
 ["inputs","histories","configurations","schedules"],"all sequences of insertions, removals, reservations and releases, all initial capacities and hash distributions, and concurrent reservations",
 "capacity tests cover three fixed numbers on an idle table; interleavings of reservations with shrinking and the arithmetic at power-of-two boundaries are not covered.",
 [HM,HS,HI,HC,HT,BA],
 [("minimum_capacity","configured minimum plus live reservations plus the RESIZING flag",HT),("bucket len counters","number of entries per bucket",BK)],
 [("reserve_capacity / Reserve::drop",HT+", "+HM),("try_enlarge, try_shrink, try_resize",HT),("array length from capacity",BA+": new")],
 ["len()","is_empty()","capacity()","capacity_range()","Reserve::additional_capacity()"])

p("C06","Every key and value handed to a hash container is dropped exactly once",
 "For every history of HashMap, HashSet, HashIndex and HashCache operations each key and value object passed in is either returned to a caller or dropped, exactly once, and never while it is still reachable. After the container is dropped (and, for HashIndex, after all guards are gone and garbage collection has caught up) no object is left, whatever resizes, clears, evictions, failed insertions or early exits happened.",
 ["histories","schedules","inputs"],"all operation histories and schedules, for all types with drop glue",
 "insert_drop/clear tests count drops for a plain fill-and-drop; objects moved by relocation, overwritten by replace/update, evicted, consumed by iterators, or left in a half-rehashed old table are counted only in a few totals.",
 [HM,HS,HI,HC,HT,BK,BA],
 [("occupied/removed bitmaps","which slots own a live object",BK),("old table link and garbage chain","tables that still own objects",HT+", "+HI)],
 [("drop of Bucket and BucketArray",BK+", "+BA),("memory move during relocation",BK+": extract_from"),("deferred reclamation",HI+": defer_reclaim/dealloc_garbage")],
 ["per-object drop counters"])

p("C07","HashIndex reads are linearizable without locks",
 "peek, peek_with and contains of HashIndex return, for every key, the key's value at some moment during the call; in particular a key that is present throughout, including while its value is replaced by update or while its entry is moved by a resize, is always found. Concurrent histories of insert, remove, remove_if, update, entry operations and these lock-free reads are linearizable. The lock-free iterator yields only entries that were current at some moment of the iteration, or that an operation still running was just making visible or hiding, and yields every entry that is neither updated nor removed while it runs. None of these reads waits for a lock, not even for one that the calling thread itself holds.",
 ["schedules","histories"],"all interleavings of lock-free readers with writers, removers, updaters and rehashing, for any hash distribution",
 "update_get tests hammer one layout for a few milliseconds; the windows (bitmap snapshot taken before an update or before an entry moved) are a few instructions wide.",
 [HI,HT,BK],
 [("occupied and removed bitmaps","a slot is visible if occupied and not removed",BK),("old table link","entries not yet moved",BA)],
 [("lock-free search",HT+": peek_entry, "+BK+": search_entry"),("update = insert new then mark old removed",HI+": OccupiedEntry::update"),("copying relocation",HT+": relocate_bucket_*, "+BK+": extract_from")],
 ["return values of peek/peek_with/contains","entries produced by iter"],
 "cfg(scc_verif) with feature loom: atomics of src/hash_table/bucket.rs become scheduling points")

p("C08","HashIndex never reclaims what a guarded reader can still see, and does reclaim the rest",
 "A reference obtained from HashIndex or TreeIndex under a Guard stays valid and unchanged until that Guard is dropped, whatever removals, updates, clears, resizes or drops of the container other threads perform. Objects removed from HashIndex are eventually dropped once no Guard protects them and further operations touch their bucket, and at the latest after the HashIndex itself is gone.",
 ["schedules","histories"],"all interleavings of guarded readers with removals, updates, relocation, clear and container drop",
 "Tests read a value and compare it immediately; no test holds a guarded reference across removal, slot reuse and epoch advance.",
 [HI,TI,BK,LF],
 [("removal epoch stored with a removed slot","generation in which the slot became unreachable",BK),("garbage chain epoch","generation in which an old table was retired",HI)],
 [("mark_removed / drop_removed_unreachable_entries",BK),("defer_reclaim, dealloc_garbage",HI),("delayed drop of leaves",LF+", "+LN)],
 ["validity of guarded references","drop counters"])

p("C09","HashCache evicts the least recently used entry of a full bucket and reports it",
 "HashCache::put and the entry API insert without evicting as long as the key's bucket has a free slot; when it is full exactly one entry is evicted and returned, and it is the one least recently inserted or fetched through put/get among the entries of that bucket that carry usage information. Reads that are documented not to refresh an entry never change which entry is evicted next.",
 ["inputs","histories"],"all sequences of put, get, read, entry, replace, remove, retain over colliding keys, from all reachable usage orders",
 "Tests only check that something is evicted and that capacity holds; the eviction order after removal from the middle of the usage list, after re-use of slots and after replace is not checked.",
 [HC,BK],
 [("lru_list and its tail","usage order of the 32 slots of a bucket",BK)],
 [("evict_lru_head, update_lru_tail, remove from list",BK),("put path",HC+": put_*, VacantEntry::put_entry")],
 ["EvictedEntry returned by put/or_put","contents"])

p("C10","HashCache stays within its capacity and accounts for every entry under concurrency",
 "The number of entries in a HashCache never exceeds its capacity, which never exceeds the maximum capacity rounded up to a power of two; every entry accepted by put is, at any later time, either present, or was returned by exactly one eviction or removal. Concurrent histories are linearizable with eviction as the only way an entry disappears without being asked for.",
 ["schedules","inputs","histories","configurations"],"all interleavings of put/get/read/entry/remove by several threads, all minimum/maximum capacities and hash distributions",
 "The capacity property test runs one thread with one hasher; put_get_remove checks no value of an evicted entry and no ordering.",
 [HC,HT,BK],
 [("maximum capacity","bound on the table size",HC),("bucket len","entries in a bucket (at most 32, no overflow chain)",BK)],
 [("table size bounded by maximum_capacity",HC+", "+HT+": try_enlarge"),("eviction under the bucket lock",HC)],
 ["len(), capacity()","values returned by put/remove/get/read"])

p("C11","TreeIndex insert, remove, remove_if and peek are linearizable",
 "Every concurrent execution of TreeIndex insert, remove, remove_if, peek, peek_with, contains and clear, blocking and asynchronous, is linearizable: an insert succeeds exactly when the key was absent, one removal removes exactly one entry, and a lookup of a key that is present throughout finds it. This holds while leaves and inner nodes split, merge, empty out and the root is replaced.",
 ["schedules","inputs","histories"],"all interleavings of any number of operations at every fill level of leaves and nodes",
 "The loom models cover four two-thread scenarios with end-state asserts; stress tests check totals. Removal racing with root replacement, and lookups at every step of a split, are not checked against an order.",
 [TI,LF,LN,IN,ND],
 [("leaf metadata word","rank of each slot (free, order, removed), frozen and retired flags",LF),("node children and unbounded child","routing of keys to leaves",LN+", "+IN),("split_op","half-done split that must be committed or rolled back",LN+", "+IN)],
 [("slot reservation and rank publication by CAS",LF+": insert/post_insert"),("freeze before split, validation of the children's metadata after reading",LN+": split_leaf, search_*"),("coalescing retired leaves/nodes under the node lock",LN+", "+IN+": coalesce"),("root replacement by CAS",ND+": split_root, cleanup_root")],
 ["return values","content afterwards"],
 "feature loom: atomics of leaf.rs become scheduling points")

p("C12","TreeIndex iteration and range scans are ordered, bounded, duplicate-free and complete",
 "iter and range yield strictly increasing keys, only keys inside the requested bounds, every entry that was present before the first call of next and stays present, and nothing that was never inserted. Both are fused: after the first None they never yield again; at quiescence the scan equals the sorted contents for every kind of bound.",
 ["inputs","schedules","histories"],"all tree shapes, all pairs of bounds (included, excluded, unbounded; present or absent keys), all concurrent insertions and removals",
 "The range test covers one dense tree; stress tests check monotonicity of a full iteration but not bounds, completeness at split boundaries or behaviour after exhaustion.",
 [TI,LF,LN,IN],
 [("leaf linked list","order in which leaves are scanned",LF+", "+LN),("Scanner metadata snapshot","entries of a leaf the scan will produce",LF)],
 [("jump to the next leaf skipping smaller keys",LF+": Scanner::jump"),("start position by max_le_appr/min",LN+", "+IN),("bound checks",TI+": Range::next")],
 ["sequence of yielded entries"])

p("C13","TreeIndex::remove_range removes exactly the keys of the range",
 "After remove_range returns, every key in the range that was present before the call and not re-inserted meanwhile is gone and every key outside the range is untouched: still found by lookup, by scans in order, and removable and insertable as before. This holds for every tree shape and every kind of bound, for blocking and asynchronous calls, and next to concurrent operations on keys outside the range.",
 ["inputs","schedules","histories"],"all tree contents and shapes (including ones left by earlier range removals), all bounds, concurrent operations",
 "The property test removes one range from one dense tree; repeated range removals on sparse, previously trimmed trees, with bounds at leaf/node borders, are not covered.",
 [TI,LN,IN],
 [("children of border nodes","which subtrees lie wholly inside the range",LN+", "+IN)],
 [("RemoveRangeState machine",LN+": RemoveRangeState::next"),("re-linking of the border leaves",LN+": remove_range")],
 ["content by peek, iter, range","later inserts and removes"])

p("C14","Dropping an asynchronous operation at any await point leaves the container usable and consistent",
 "A future returned by any *_async method may be dropped at any point where it returned Pending: no lock stays held, no entry is lost, duplicated or left half-moved, the interrupted operation has either taken full effect or none (scans: a prefix of its effect), and every later operation completes. The same holds when other operations were waiting behind the cancelled one.",
 ["crash_points","schedules"],"every await point of every asynchronous operation at which it can be pending, including in the middle of an incremental rehash, with any other tasks waiting",
 "No existing test drops a pending future; tokio tests always await to completion.",
 [HM,HS,HI,HC,HT,TI,AH],
 [("locks of the buckets being rehashed","must be released or killed when the rehash is abandoned",HT),("wait queue entry","granted lock must be passed on",AH)],
 [("ExitGuard around relocation",HT+": relocate_bucket_async, dedup_bucket_async"),("async lock wait",AH+": AsyncGuard, AsyncWait")],
 ["completion of later operations","contents, drop counters"])

p("C15","A panic in user code leaves the container consistent and unlocked",
 "If a user closure, Eq, Ord, comparison with another key type, Clone or value constructor panics inside any operation, the panic propagates, the container stays usable, no lock stays held, all entries not touched by the operation are unchanged, no object is dropped twice, and the entry involved is either as before or as after. TreeIndex splits interrupted by a panicking Clone are rolled back and can be retried.",
 ["fault_sequences","programs"],"every invocation of user code by every operation, as the place of the panic, in every table or tree state",
 "Existing tests (extended_tests/oom) sample random panics in a few insert loops and are not part of the stable suite; nothing checks contents after a panic in retain, update, entry closures, Eq or Clone.",
 [HM,HI,HC,HT,BK,TI,LF,LN,IN,ND,"src/exit_guard.rs"],
 [("lock ownership","released by unwinding",BK),("split_op","rolled back by unwinding",LN+", "+IN)],
 [("ExitGuard",  "src/exit_guard.rs"),("Writer/Reader drop",BK),("split rollback",LN+", "+IN)],
 ["contents afterwards","completion of later operations","drop counters"])

p("C16","Every operation completes once the locks it needs are released",
 "No sequence of operations deadlocks or loses a wake-up: a blocking, asynchronous or scanning operation that waits for a bucket or node lock proceeds after the holder releases it, however many waiters there are, whichever of them are blocking threads or tasks, and whether or not the table is resized, cleared or dropped or the tree restructured while they wait.",
 ["schedules","histories"],"all interleavings of waiting and releasing operations, with any number of waiters and with concurrent restructuring",
 "Tests only fail by timing out on the schedules that happen to occur; none parks several waiters behind one holder while the bucket or node is retired.",
 [HM,HI,HC,HT,BK,TI,LN,IN,ND,AH],
 [("poisoned lock of a retired bucket or node","tells waiters to retry elsewhere",BK+", "+LN+", "+IN)],
 [("kill of a bucket wakes its waiters",BK+": Writer::kill"),("AsyncWait / AsyncGuard",AH),("commit/rollback release the node lock",LN+", "+IN)],
 ["completion of every call"])

p("C17","Whole-container operations: Clone, Eq, FromIterator, Debug and serde keep exactly the contents",
 "Wherever a container supports it, cloning, collecting from an iterator, comparing, formatting and serializing/deserializing HashMap, HashSet, HashIndex, HashCache (up to eviction) and TreeIndex preserve exactly the key-value contents, and equality is true exactly for equal contents, whatever the order and the capacities. Of several entries with the same key in an input sequence, HashMap keeps the last value and the other containers the first one.",
 ["inputs","configurations"],"all contents, including contents in overflow chains and half-rehashed tables, for all hashers and capacities",
 "Tests use a few small fixed contents; equality where one side has extra keys, equal sizes with different values, and clones of half-rehashed tables are not covered.",
 [HM,HS,HI,HC,TI,"src/serde.rs"],
 [("table contents","entries reachable by scanning",HT)],
 [("Clone/PartialEq/FromIterator impls",HM+", "+HS+", "+HI+", "+HC+", "+TI),("visitors","src/serde.rs")],
 ["contents of the results","result of =="])

p("C18","TreeIndex drops every key and value exactly once and keeps its shape sound",
 "For every history of TreeIndex operations every key and value object, including the clones made by splits, is dropped exactly once after it became unreachable, none while reachable, and none is left once the tree is dropped and garbage collection has caught up. The tree stays shallow: a tree of depth zero is empty, and the depth is bounded by the logarithm of the number of insertions the tree has absorbed.",
 ["histories","schedules","inputs"],"all histories of inserts, removes, range removals and clears, and all schedules",
 "insert_drop/reclaim tests count drops for plain fill/clear; leaves dropped by coalescing, range removal, aborted splits or failed insertions into frozen leaves are not counted.",
 [TI,LF,LN,IN,ND],
 [("leaf entry arrays","objects are dropped with their leaf",LF)],
 [("Leaf::drop",LF),("delayed reclamation of detached nodes",LN+", "+IN+", "+ND)],
 ["drop counters","depth()"])

p("C19","Growing, shrinking and rehashing move every entry exactly once",
 "At every moment of an incremental resize each entry is in exactly one place in which lookups look for it: moving from the old table to the new one neither loses, duplicates nor alters an entry, removed entries do not come back, and entries inserted during the resize are unaffected. This holds for every ratio of old to new size, every hash distribution, overflowing buckets, and any mix of operations driving the resize.",
 ["inputs","histories","schedules"],"all table sizes and hash distributions, resize directions, and operations interleaved between any two steps of the incremental rehash",
 "Tests resize with a uniform hasher and check contents after the resize; no test looks at contents between two steps of the rehash or uses hashers that force shrink/grow by large factors with overflow chains.",
 [HT,BK,BA,HM,HI,HC],
 [("number of cleared buckets","which old buckets were already moved",BA),("linked old table","entries still to be moved",BA)],
 [("relocate_bucket_*: target buckets locked, slots reserved, entries moved, old bucket killed",HT),("start/end_incremental_rehash",HT),("bucket index from the upper hash bits",BA+": bucket_index")],
 ["contents after every single operation","bucket_index(), capacity()"])
out=open("/verif/properties.jsonl","w")
for x in P: out.write(json.dumps(x)+"\n")
print(len(P))
