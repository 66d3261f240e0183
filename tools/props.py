import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
add("C01","Supplied comparators are total orders and reject foreign types",
"For every pair of keys of its type, each supplied comparison function returns a negative, zero or positive result exactly when the first key orders before, equal to or after the second, including extreme values. For any argument of another type, in either position, it returns a non-nil error.",
["inputs"],"all pairs of keys of the supported types and all wrongly typed arguments",
"the tests compare 1/2/3 and a few wrong types; the pairs are unbounded (extreme integers, empty and prefix strings, equal instants in other zones)",
["common_api.go"],[("three-way comparison per key type","common_api.go Compare*"),("checked type assertion on both keys","common_api.go Compare*")],observe=["result sign and err of CompareX"])
add("C02","In-memory tree is an exact sorted map under every history of key operations",
"After any history of operations on the in-memory (left-leaning red-black) tree, a lookup by key finds exactly the pairs put and not since deleted, with the latest patched value. A put, patch or delete by key or by index changes exactly the one pair it names and keeps all others, in key order; a duplicate put and an operation on an absent key or an out-of-range index report not-ok and change nothing.",
["histories","inputs"],"all trees reachable by any operation sequence, all keys, values and indices",
"tests run a few shuffled insert/delete orders of fixed key sets; the guarantee quantifies over all tree shapes and deletion paths (rotations, colour flips, successor replacement)",
["llrb_tree.go"],[("recursive insert/delete with rotations","llrb_tree.go insert/delete/deleteMin/fixUp"),("key search","llrb_tree.go GetByKey/PatchByKey")],
[("root","binary search tree of key:value nodes","llrbTreeStruct.root")],["SortedMap methods of NewLLRBTree"])
add("C03","In-memory tree's positional operations agree with key order",
"On the in-memory tree the item count, lookup, patch and delete by index, and both bisect operations agree with the keys' sorted order: index i denotes the i-th smallest key, a left/right bisect of a present key gives its index, and of an absent key the index just before / just after its position. This holds after every operation history, for every key and every index, negative and past-the-end ones included.",
["histories","inputs"],"all trees reachable by any operation sequence; all keys; all int indices",
"tests check a handful of positions after particular histories; subtree sizes must stay exact through every rotation on every insert and delete path",
["llrb_tree.go"],[("subtree size maintenance","llrb_tree.go rotateLeft/rotateRight/postInsertAdjustLen/preDelete*AdjustLen/deleteMin"),("index arithmetic on descent","llrb_tree.go BisectLeft/BisectRight/GetByIndex")],
[("len","number of nodes in the subtree","llrbNodeStruct.len")],["Len, GetByIndex, PatchByIndex, DeleteByIndex, BisectLeft, BisectRight"])
add("C04","In-memory tree stays balanced after every operation",
"After every operation on the in-memory tree, all root-to-leaf paths carry the same number of black nodes, no red node has a red child, and red links lean left. The height is therefore at most twice the base-2 logarithm of the item count plus one, so every operation stays logarithmic whatever the insertion and deletion order.",
["histories","inputs"],"all operation sequences",
"no test observes heights or colours: an unbalanced tree still answers every query correctly, only slowly",
["llrb_tree.go"],[("colour discipline","llrb_tree.go fixUp/moveRedLeft/moveRedRight/colorFlip/rotate*"),("black root","llrb_tree.go Put/DeleteByKey/DeleteByIndex")],
[("color","colour of the parent link","llrbNodeStruct.color")],["tree shape (cost of operations)"])
add("C05","B+Tree is an exact sorted map across splits, borrows and merges",
"A put, patch or delete on the B+Tree changes exactly the one pair it names: redistribution of pairs between nodes (splits, borrowing from either sibling, merging with either sibling, growing or shrinking the height) never loses, duplicates, reorders or alters another pair. Every remaining key is afterwards found by a lookup that follows the separators.",
["histories","inputs","configurations"],"all trees, all node capacities, all keys",
"tests use in-memory trees, a few capacities and shuffled orders; which redistribution runs depends on the exact fill of neighbouring nodes",
["btree.go"],[("split on overflow","btree.go insertHere"),("borrow / merge on underflow","btree.go rebalanceHere"),("descent by separators","btree.go GetByKey/Put/...")],
[("kvLLRB / nonLeafLeftChild","items of a leaf, or separators and children of a non-leaf","btreeNodeStruct")],["SortedMap methods of NewBPlusTree/OldBPlusTree"])
add("C06","B+Tree item counts and positional indices stay exact",
"The B+Tree's item count and every by-index operation and bisect agree with the number of pairs actually held and with sorted key order, after every operation history, including after splits, borrows, merges, reloads and height changes. The per-node item totals and the per-parent running sums used for navigation always equal the true totals of the nodes below them.",
["histories","inputs"],"all histories, indices and keys",
"tests compare indices for a few histories on memory-resident trees; sums must be re-established on every redistribution path and every reload",
["btree.go"],[("item delta propagation to root","btree.go updatePrefixSumTreeLeafToRoot*"),("re-summing after redistribution","btree.go arrangePrefixSumTree/rearrangePrefixSumTreeToRoot")],
[("items / prefixSumItems","totals at or below a node / in a prefix-sum subtree","btreeNodeStruct")],["Len, GetByIndex, PatchByIndex, DeleteByIndex, BisectLeft/Right, TouchItem"])
add("C07","B+Tree respects its fan-out limits and uniform depth",
"Every B+Tree node holds at most the configured maximum number of keys, every node but the root holds at least half of it, and all leaves are at the same depth, after every operation. Creating a tree with an odd maximum or one below four is refused.",
["histories","configurations"],"all operation sequences and all capacities",
"the validator is run by one test for one capacity and one shuffled history",
["btree.go","btree_api.go"],[("split above maximum","btree.go insertHere"),("rebalance below minimum, recursively","btree.go rebalanceHere"),("capacity check","btree_api.go NewBPlusTree")],
[("minKeysPerNode/maxKeysPerNode","fan-out limits","btreeTreeStruct")],["FetchDimensionsReport, Validate, node sizes seen by PutNode"])
add("C08","Paging is transparent: results never depend on what is resident",
"A node that has been purged or evicted, or never loaded since reopening, is fetched again before anything in it is used. Hence every operation returns the same results whatever combination of purge, flush-and-purge, background eviction or reopen happened before it.",
["histories","schedules"],"all operations against all residency states of the tree",
"tests reload only one-level trees; the residency combinations (which sibling, child or root is paged out when an operation reaches it) are exponential",
["btree.go","btree_dump.go","btree_validate.go"],[("load-before-use at every node reached","btree.go all API functions, rebalanceHere, touchNode, discardNode, updateLayoutReport")],
[("loaded","node contents are resident","btreeNodeStruct.loaded")],["results of every BPlusTree method after Purge/Flush(true)/OldBPlusTree"])
add("C09","A successful flush persists every change made since the last one",
"When a flush succeeds, the returned root location denotes a complete stored image of the current contents: every node changed since its last write is written again, after all its descendants, and each parent (up to the root) is rewritten to refer to the new copies. No change made by any operation can be missed by the next flush.",
["histories","crash_points"],"all histories between flushes, reopening at any later time",
"tests flush one tree of three keys; a change that fails to mark a node or an ancestor as changed is invisible until a multi-level tree is reopened",
["btree.go"],[("marking changed nodes and all ancestors dirty","btree.go markNodeDirty, updatePrefixSumTreeLeafToRoot*, touchLoadedNodeToRoot, rebalanceHere, insertHere"),("post-order write of dirty nodes","btree.go flushNode/postNode")],
[("dirty","resident contents differ from the stored copy","btreeNodeStruct.dirty")],["PutNode calls during Flush; contents after OldBPlusTree at the returned location"])
add("C10","What is stored is exactly what is read back",
"The stored image of a node is read back with the same fields in the same order and byte order as it was written: kind, item totals, capacity of the tree, every key with its value, and every child with its location, length and item total. Decoding must consume an image exactly, and anything left over or undecodable is an error.",
["inputs","configurations"],"all node contents, all key/value codecs, all capacities",
"one test round-trips a single leaf root; non-leaf images are never reloaded by any test",
["btree.go","btree_api.go"],[("node encoder","btree.go postNode"),("node decoder","btree.go loadNode"),("record layouts","btree.go onDisk*Struct")],
[("onDiskNodeStruct / onDiskReferenceToNodeStruct","stored records","btree.go")],["bytes passed to PutNode vs. contents after GetNode"])
add("C11","Stored nodes are never overwritten or discarded while still needed",
"Stored copies are immutable: a changed node is written to a new location, and a location is handed to the discard callback only by an explicit prune or discard request, and only after the tree has stopped referring to it. Flush, eviction, reads and updates never discard anything.",
["histories","crash_points"],"all operation sequences; a crash at any point between them",
"tests discard once at the end of a tiny tree; premature discards only show when an older image is reopened",
["btree.go"],[("superseded locations recorded on change","btree.go placeNodeOnStaleOnDiskReferenceList"),("discard only in prune","btree.go pruneWhileLocked")],
[("staleOnDiskReferencesList","superseded locations awaiting discard","btreeTreeStruct")],["DiscardNode calls relative to Prune/Discard calls"])
add("C12","Every superseded stored node is discarded exactly once",
"Whenever a stored node is changed, merged away or dropped from the tree, its old location is remembered with its exact number, offset and length, and the next successful prune discards it exactly once; nothing discarded successfully is discarded again, even if the prune failed part-way and is retried. Discarding a tree releases the location of every node it still refers to, resident or not.",
["histories","fault_sequences"],"all histories of changes, prunes and failing prunes",
"no test checks which locations are discarded, leaks are silent, and no test injects a failing discard",
["btree.go"],[("recording before forgetting","btree.go placeNodeOnStaleOnDiskReferenceList, markNodeToBeDiscarded"),("prune loop","btree.go pruneWhileLocked"),("full traversal","btree.go discardNode")],
[("staleOnDiskReferencesList","superseded locations awaiting discard","btreeTreeStruct")],["DiscardNode calls over the tree's lifetime"])
add("C13","The shared cache's lists and counters always match the resident nodes",
"With a cache, every resident node of every sharing tree is on exactly one of the cache's two recency lists, the clean or the dirty one according to its state, and non-resident or dropped nodes are on neither. The lists are well linked in both directions in order of use and the reported clean and dirty totals equal their lengths, after any sequence of operations on any of the sharing trees.",
["histories","schedules"],"all list lengths, all positions of the node in its list, all transitions",
"one test checks totals for at most five nodes; the link surgery has a separate case for each position and each transition",
["btree.go"],[("list surgery per transition","btree.go markNodeUsed/markNodeClean/markNodeDirty/markNodeEvicted/markNodeToBeDiscarded")],
[("cleanLRU*/dirtyLRU*","recency lists and lengths","btreeNodeCacheStruct"),("btreeNodeCacheElement","node's list membership and links","btreeNodeStruct")],["BPlusTreeCache.Stats, eviction order"])
add("C14","Eviction starts above the high limit and runs down to the low limit",
"Whenever clean nodes become resident or limits are changed so that the total exceeds the high limit, a background eviction is under way or gets started, never two at once for a cache. It evicts the least recently used clean node first, together with whatever is resident below it, until the total is within the low limit or no clean node is left, and then records that it has stopped so that it can be started again.",
["schedules","histories","configurations"],"all limits, cache contents and interleavings with tree operations",
"one test drives five nodes over the limit once; missed or double starts need specific interleavings",
["btree.go"],[("start condition","btree.go markNodeClean, UpdateLimits"),("drain loop","btree.go btreeNodeCacheDrainer")],
[("drainerActive","a drainer is running","btreeNodeCacheStruct")],["Stats over time"])
add("C15","Unflushed changes are never dropped from memory",
"No purge, flush-and-purge or background eviction ever releases a node whose changes have not been written: a changed node is released only after it was successfully written, and a node is released only when everything below it has been. A full purge of a tree with unwritten changes is refused with an error.",
["histories","schedules","fault_sequences"],"all interleavings of updates, purges, evictions and failing writes",
"tests purge a one-node tree; dropping a changed descendant shows up only after a later reload",
["btree.go"],[("release only when clean","btree.go purgeNode, flushNode"),("eviction candidates from the clean list, rechecked under the tree lock","btree.go btreeNodeCacheDrainer")],
[("dirty/loaded","unwritten changes / residency","btreeNodeStruct")],["contents after Purge / eviction"])
add("C16","Concurrent use is race-free and each operation is atomic",
"Any number of goroutines may call any methods of a tree, of several trees sharing a cache, and of the cache itself at the same time, together with background eviction: no shared state is accessed without the lock protecting it. Each operation on a tree takes effect as one critical section.",
["schedules"],"all interleavings of API calls and the background drainer",
"tests are single-threaded apart from one drainer run; a missing lock shows only under specific interleavings",
["btree.go","btree_api.go","btree_dump.go","btree_validate.go","llrb_tree.go","llrb_dump.go","llrb_validate.go"],[("per-tree mutex","btreeTreeStruct.Mutex, llrbTreeStruct.Mutex"),("per-cache mutex","btreeNodeCacheStruct.Mutex")],
[("Mutex","guards the struct's fields and the nodes it owns","btreeTreeStruct, btreeNodeCacheStruct, llrbTreeStruct")],["data races, torn results"])
add("C17","No operation deadlocks or returns with a lock held",
"Every lock taken by an operation or by background eviction is released on every way out, is never taken twice by one call, and locks are always taken in the one order tree before cache. No client callback is ever invoked while the cache's lock is held.",
["schedules","fault_sequences"],"all interleavings; all success and failure exits",
"a lock left held on a rarely taken error exit, or an order inversion, needs a specific failure or interleaving",
["btree.go","btree_dump.go","btree_validate.go","llrb_tree.go","llrb_dump.go","llrb_validate.go"],[("documented lock order","btree.go btreeNodeCacheDrainer comment"),("defer/explicit unlock","all API functions")],
[("Mutex","lock order tree -> cache","btreeTreeStruct, btreeNodeCacheStruct")],["blocked goroutines"])
add("C18","Every failure of a client callback reaches the caller",
"If a comparison, storage, packing, unpacking or dump-formatting callback, or decoding of a stored node, reports an error during an operation, that operation returns a non-nil error. No such error is dropped, overwritten or turned into success on any path.",
["fault_sequences","inputs"],"a failure at every callback invocation in every operation",
"tests use callbacks that never fail (or are never called); the number of failure points times operations is large",
["btree.go","btree_api.go","btree_dump.go","btree_validate.go","llrb_tree.go","llrb_dump.go"],[("error propagation idiom","if nil != err { return } after each fallible call")],None,["err result of each API method"])
add("C19","A failed operation leaves the contents unchanged",
"If an operation fails because a callback failed, the set of key:value pairs, their positions and the recorded totals are the same as before the call, so the operation can simply be retried. In particular all fallible steps of an update precede its first change to the contents.",
["fault_sequences"],"a failure at every callback invocation in every updating operation",
"no test injects a failure into an update",
["btree.go","llrb_tree.go"],[("fallible steps before mutation","llrb_tree.go Put/DeleteByKey/DeleteByIndex; btree.go Put/Delete*/Patch*")],None,["contents after an operation returned an error"])
add("C20","Queries have no side effects on contents or storage",
"Lookups, bisects, length, validation, dump, location, layout, dimension and statistics queries never change any key, value or position, never mark anything as changed, and never write or discard a stored node. A flush, purge or prune changes no key, value or position either.",
["histories","inputs"],"all query calls in all states",
"tests do not compare the complete state before and after queries",
["btree.go","btree_dump.go","btree_validate.go","llrb_tree.go","llrb_dump.go","llrb_validate.go"],[("read-only descents","Get*/Bisect*/Len/Fetch*/Validate/Dump/Stats")],None,["state before and after a query; PutNode/DiscardNode calls"])
add("C21","Whole-tree operations reach every node",
"Flush, purge, touch, discard, the layout report, validation and dump act on every node that is part of the tree, each exactly once, whatever its height and fan-out: no child, first, last or leftmost, is skipped.",
["histories","configurations"],"all tree shapes",
"tests apply these operations to one-node or two-level trees and check little of their effect",
["btree.go","btree_dump.go","btree_validate.go"],[("recursion over leftmost child and all keyed children","btree.go flushNode/purgeNode/touchNode/discardNode/updateLayoutReport, validate, dumpNode")],None,["callback traffic and reports of whole-tree operations"])
add("C22","Validation accepts exactly the consistent trees",
"Validation succeeds on every tree produced by the library, and reports an error whenever any node's recorded totals, running sums, parent links or fill limits are inconsistent anywhere in the tree; an inconsistency found below a node is never masked by what is found elsewhere.",
["histories","inputs"],"all consistent and inconsistent structures",
"the validator is only ever run on consistent trees",
["btree_validate.go","llrb_validate.go"],[("recursive checks","btree_validate.go validate/validatePrefixSum, llrb_validate.go validate")],None,["err of Validate"])
add("C23","Reports state the truth",
"The statistics, dimension and layout reports and the reported root location return the actual current limits, totals, capacity, height, item count and location, each under its own name; the layout report attributes to every object number the exact sum of the lengths of the tree's nodes stored there and leaves residency as it found it. Each node visit by an operation is counted as exactly one cache hit or one cache miss according to whether it was resident.",
["histories","configurations"],"all states and limits",
"tests check one report of a one-node tree and one snapshot of the statistics",
["btree.go"],[("report construction","btree.go Stats, FetchDimensionsReport, FetchLayoutReport/updateLayoutReport, FetchLocation")],None,["report contents"])
add("C24","Incremental touch covers the whole tree and terminates",
"Starting at item zero and repeatedly passing the returned item index back, the incremental touch marks every leaf and all its ancestors for rewriting, advances each time to exactly the first item of the next leaf, which after the last leaf is the item count. An index at or past the item count returns zero without an error and marks nothing.",
["histories","inputs"],"all tree shapes and start indices",
"one test walks a three-leaf tree once",
["btree.go"],[("next index computation","btree.go TouchItem"),("marking up to the root","btree.go touchLoadedNodeToRoot")],None,["returned indices; nodes rewritten by the next flush"])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
