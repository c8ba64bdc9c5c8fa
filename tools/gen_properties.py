#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept here because long JSON lines are hard to edit).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "The in-memory (LLRB) map behaves exactly as a sorted dictionary",
  "After any history of calls, the in-memory sorted map answers every call as an ideal sorted dictionary would: Put inserts only absent keys, Patch*/Delete* succeed exactly on present keys or in-range indices, GetByKey/GetByIndex/Len report exactly the current pairs in comparator order, and Reset empties it. BisectLeft/BisectRight return the exact index when the key is present, and otherwise the index just before / just after where it would go (-1 and Len at the ends). Out-of-range indices and absent keys answer ok=false without an error or any change, and Validate reports no error in any state so reached. A key that was only looked up, patched, deleted or refused as a duplicate is not kept: its caller may overwrite it.",
  ["histories", "inputs", "configurations"],
  "every finite sequence of SortedMap/LLRBTree calls, every key set under every supplied comparator, every index value including negative and huge ones, nil values included",
  "Tests run a handful of fixed insert/delete orders over small int or string keys; correctness depends on which rotations a particular history provokes, and every history must be right.",
  ["llrb_tree.go", "llrb_tree_api.go", "llrb_validate.go", "common_api.go"],
  [("insert/delete with subtree sizes kept per node", "llrb_tree.go insert, delete, deleteMin, postInsertAdjustLen, preDelete*AdjustLen"),
   ("rotations and colour flips that move subtree sizes along", "llrb_tree.go rotateLeft, rotateRight, fixUp, moveRedLeft, moveRedRight"),
   ("index arithmetic while descending", "llrb_tree.go BisectLeft, BisectRight, GetByIndex, PatchByIndex")],
  [("root", "balanced tree of key/value nodes", "llrb_tree.go llrbTreeStruct")],
  ["return values of every SortedMap method on an LLRBTree"])

p("C02", "The B+Tree behaves exactly as a sorted dictionary for every legal node size",
  "For every even MaxKeysPerNode of at least four, with or without callbacks and with or without a node cache, a B+Tree answers every map call (by key, by index, bisection, Len) exactly as an ideal sorted dictionary would, whatever sequence of splits, borrows, merges and height changes the history causes. Any other MaxKeysPerNode is refused at construction. Validate reports no error in any state so reached. A key that was only looked up, patched, deleted or refused as a duplicate is not kept: its caller may overwrite it.",
  ["histories", "inputs", "configurations"],
  "every finite sequence of SortedMap calls on a B+Tree, every legal and illegal node size, every key set and index",
  "Tests use a few node sizes and fixed key orders; the number of structural paths (which sibling lends, which merge, at which level, whether the height changes) grows with the history.",
  ["btree.go", "btree_api.go", "btree_validate.go"],
  [("split on overflow", "btree.go insertHere"), ("borrow / merge on underflow", "btree.go rebalanceHere"),
   ("per-parent prefix sums of item counts", "btree.go arrangePrefixSumTree, updatePrefixSumTreeLeafToRoot"),
   ("constructor argument check", "btree_api.go NewBPlusTree")],
  [("items / prefixSumItems", "number of items below each node", "btree.go btreeNodeStruct")],
  ["return values of every SortedMap method on a BPlusTree"])

p("C03", "Paging, flushing and eviction never change what the map contains",
  "At every point of every history that mixes map calls with Flush (with or without purge), Purge, Prune, Touch, TouchItem, reports, Validate, cache-limit changes and background cache eviction, the B+Tree's map answers are the same as if none of those had happened. A modification made since the last Flush (patching in the very value the map holds, its content changed by the client, is one) is never lost by paging: only unmodified nodes leave memory, and a full purge of a tree with unflushed modifications is refused with an error instead of dropping them.",
  ["histories", "configurations", "schedules"],
  "every interleaving of map and paging calls, every node size, every cache limit pair (low above, below or equal to high, zero), every storage placement the client's PutNode may choose",
  "Which nodes are resident, clean or modified at each call is combinatorial; tests page at two or three fixed points.",
  ["btree.go", "btree_api.go"],
  [("load on demand", "btree.go loadNode and the descent loops"), ("dirty marking from leaf to root", "btree.go touchLoadedNodeToRoot, updatePrefixSumTreeLeafToRootRecursively, rearrangePrefixSumTreeToRoot"),
   ("purge of clean nodes only", "btree.go purgeNode, btreeNodeCacheDrainer"), ("flush order children first", "btree.go flushNode, postNode")],
  [("loaded/dirty flags", "residency and modification state of each node", "btree.go btreeNodeStruct")],
  ["map answers after every operation; GetNode/PutNode callbacks"])

p("C04", "A flushed tree re-opens, anywhere, as exactly the same map",
  "Opening a new tree at the location returned by a successful Flush, in any process and with any cache, yields exactly the contents, order and node-size parameters the flushed tree had, and the re-opened tree supports every further operation correctly. FetchLocation returns the location of the last Flush while nothing has been modified since, and re-flushing an unmodified tree writes nothing and returns the same location.",
  ["histories", "inputs", "configurations"],
  "every history ending in Flush, every key/value encoding the callbacks choose (including empty encodings), every object number/offset scheme, every chain of flush/reopen generations",
  "Tests reopen one or two fixed trees with one fixed encoding and one fixed object numbering.",
  ["btree.go", "btree_api.go"],
  [("node serialisation", "btree.go postNode"), ("node deserialisation", "btree.go loadNode"), ("location bookkeeping", "btree.go Flush, FetchLocation"), ("reconstruction", "btree_api.go OldBPlusTree")],
  None, ["Flush/FetchLocation results, contents of OldBPlusTree at that location"])

p("C05", "The last recorded flush survives a crash at any later point",
  "If the client records the location returned by each Flush, and calls Prune only after recording it and before modifying the tree again, then a crash at any callback boundary leaves the last recorded version readable in full: its storage is neither discarded nor ever rewritten. DiscardNode is called only from within Prune or Discard and PutNode only from within Flush. A version that has not yet been superseded by a Prune remains independently readable through its location while the live tree moves on.",
  ["crash_points", "histories", "configurations"],
  "every history of map/paging calls and every crash position between two storage callbacks, every storage placement, including re-use of discarded slots",
  "Tests never crash or re-open an older version while the live tree moves on.",
  ["btree.go"],
  [("deferred discard list", "btree.go placeNodeOnStaleOnDiskReferenceList, pruneWhileLocked"), ("copy-on-write of modified nodes", "btree.go markNodeDirty, postNode")],
  [("stale reference list", "storage of superseded node copies not yet discarded", "btree.go staleOnDiskReferencesList")],
  ["stored bytes and callback log at every callback boundary"])

p("C06", "Storage reclamation is exact: no leak, no double free, no use after free",
  "After a successful Flush followed by Prune, the storage the tree has written and not discarded is exactly what is reachable from the flushed root, and after a successful Discard none of the tree's storage remains. Every location is discarded at most once, with exactly the length that was written, only if it was written by this tree, and never while any un-pruned version still needs it. No location is ever read after it was discarded.",
  ["histories", "configurations"],
  "every history of map and paging calls with flushes, prunes, reopenings and a final discard, every cache configuration",
  "A leak or double discard needs a specific sequence of dirtying, merging and paging; tests do not account for storage at all.",
  ["btree.go"],
  [("stale list on dirtying / merging / discarding", "btree.go markNodeDirty, markNodeToBeDiscarded, placeNodeOnStaleOnDiskReferenceList"), ("prune and discard", "btree.go pruneWhileLocked, Discard, discardNode")],
  [("stale reference list", "storage owed a DiscardNode call", "btree.go staleOnDiskReferencesList")],
  ["PutNode/DiscardNode/GetNode callback log versus reachability"])

p("C07", "A failing callback surfaces as an error and never corrupts the map",
  "When any client callback (GetNode, PutNode, DiscardNode, PackKey, PackValue, UnpackKey, UnpackValue) fails during an operation, that operation reports the error, does not panic, and leaves the map contents exactly as they were. Repeating the operation once the fault is gone succeeds with its normal result, and all later behaviour (contents, Validate, flush, reopen, exact reclamation) is as if the fault had never happened. This holds for a fault at every position in the callback sequence of every operation, for Discard and Prune as well.",
  ["fault_sequences", "histories", "configurations"],
  "every operation in every reachable state, a fault injected at every callback index of that operation, any failing callback, single or repeated faults",
  "No existing test makes a callback fail; the number of (state, operation, callback index) triples is unbounded.",
  ["btree.go", "btree_api.go"],
  [("error returns from loadNode before mutation", "btree.go descent loops, rebalanceHere"), ("post order and dirty flags in flush", "btree.go flushNode, postNode"), ("prune/discard error paths", "btree.go pruneWhileLocked, Discard, discardNode")],
  None, ["returned errors; contents and storage after the fault"])

p("C08", "Damaged stored nodes are rejected with an error, and Validate finds bad counts",
  "If the stored image of any node comes back truncated or with trailing bytes, every operation that needs that node returns an error without panicking or returning wrong data, and once the intact bytes are available again the same tree works and its contents are intact. Validate reports an error for stored trees that are well-formed except that a leaf's own item count, or the item count a parent records for a child, disagrees with the items actually present, or that a non-root node is under-filled or any node over-filled.",
  ["inputs", "histories", "fault_sequences"],
  "every node of every generated tree, every truncation length or non-empty trailing garbage, every operation touching it; every miscounted or misfilled forged image",
  "Tests never hand back damaged bytes.",
  ["btree.go", "btree_validate.go"],
  [("length checks and payload exhaustion check", "btree.go loadNode"), ("count and fill checks", "btree_validate.go validate, validatePrefixSum")],
  None, ["errors returned by operations on damaged images; Validate result"])

p("C09", "Touch, or a full TouchItem cycle, relocates the whole tree on the next Flush",
  "After Touch, or after TouchItem has been driven from index 0 until it wraps to 0, the next Flush writes a new copy of every node, so that no node of the previous version is reachable from the new root, and after Prune none of the previous storage remains. TouchItem always makes progress: each call returns an index greater than the one given and at most Len, and an index at or beyond Len (or an empty tree) returns 0 without an error. The index returned is the one just past the leaf holding the given item, and that leaf and every node above it move with the next Flush. Touching never changes the contents.",
  ["histories", "configurations"],
  "every tree shape and residency state, every starting index, lookups, insertions, replacements, paging, flushes and prunes interleaved between TouchItem steps",
  "Tests touch one or two fixed trees and do not compare the reachable storage before and after.",
  ["btree.go"],
  [("recursive dirtying", "btree.go touchNode"), ("leaf-at-a-time dirtying", "btree.go TouchItem, touchLoadedNodeToRoot")],
  None, ["reachable storage before/after; TouchItem return values"])

p("C10", "Layout and dimensions reports are exact",
  "When nothing has been modified since the last Flush, the layout report lists exactly the objects holding the nodes reachable from the root and, for each, exactly the bytes those nodes occupy there; with modifications pending it lists exactly the stored nodes that the next Flush leaves in place. The dimensions report always gives the true item count, the configured maximum and half of it as minimum keys per node, and the true height. Producing a report changes neither the contents nor what a later Flush writes, and reports succeed whatever part of the tree is in memory.",
  ["histories", "configurations"],
  "every tree shape, residency state and storage placement (one object per node, many nodes per object)",
  "Tests check the report on one fixed shape.",
  ["btree.go", "btree_api.go"],
  [("recursive report", "btree.go updateLayoutReport, FetchLayoutReport"), ("left spine walk", "btree.go FetchDimensionsReport")],
  None, ["report values versus an independent decode of the stored bytes"])

p("C11", "Node cache accounting is exact and its limits are honoured",
  "Once background eviction has come to rest, clean cached nodes number at most the larger of the two limits, lowering the limits or flushing while the population exceeds the high limit brings it down to the low limit as far as clean nodes allow, and nothing is evicted while the population stays within the high limit. Stats reports the limits last set; its dirty count is exactly the number of nodes the next flushes of the cache's trees write, clean plus dirty is exactly the number of nodes of a fully visited tree when the limits have room, and a fully purged, flushed-and-purged or discarded tree leaves nothing behind. Every lookup counts one hit or one miss for each node on its path, every lookup and modification a miss for exactly the nodes it read from storage. Modified nodes are never evicted, and the nodes on the path of the latest lookup stay resident while the low limit has room for them and all modified nodes.",
  ["histories", "configurations", "schedules"],
  "every history over one or more trees sharing a cache, every pair of limits, limit changes at any point",
  "Tests check statistics at a few fixed points with one limit pair.",
  ["btree.go", "btree_api.go"],
  [("LRU lists", "btree.go markNodeClean, markNodeDirty, markNodeUsed, markNodeEvicted, markNodeToBeDiscarded"), ("drainer", "btree.go btreeNodeCacheDrainer, UpdateLimits")],
  [("clean/dirty LRU lists and counts", "cached nodes of all trees", "btree.go btreeNodeCacheStruct")],
  ["Stats(), GetNode calls, PutNode counts"])

p("C12", "Concurrent use is linearizable, race-free and deadlock-free",
  "Any number of goroutines may call any methods of one map, and of several B+Trees sharing a node cache, at the same time: every call takes effect atomically at some instant between its start and its return, including Reset, FetchLocation, Flush, Dump and cache statistics or limit changes. No such use causes a data race, a deadlock, a panic or unbounded spinning, with background eviction running. A tree flushed during concurrent use re-opens as the map at some instant during that Flush.",
  ["schedules", "histories"],
  "every interleaving of every set of concurrent client programs, with callbacks that delay at arbitrary points",
  "No existing test calls a map from two goroutines; interleavings are unbounded.",
  ["llrb_tree.go", "btree.go", "btree_dump.go", "btree_api.go"],
  [("one mutex per tree, one per cache, fixed order", "llrb_tree.go, btree.go Lock/Unlock pairs"), ("drainer lock hand-over", "btree.go btreeNodeCacheDrainer")],
  None, ["invocation/response history (linearizability), race detector, completion of all calls"])

p("C13", "Balance and node-fill bounds hold in every reachable state",
  "In the in-memory map a lookup by key compares against at most about 2*log2(n+1) stored keys, whatever history built it. In a B+Tree every non-root node holds between half and all of the maximum keys, all leaves are at the same depth, and therefore the height and the number of node loads per lookup are logarithmic in the number of items. Validate reports no error in any state reached by legal calls.",
  ["histories", "inputs", "configurations"],
  "every insertion/deletion history (ascending, descending, clustered, alternating, delete-heavy), every node size",
  "Tests check fill bounds on fixed sequences only and never the comparison cost.",
  ["llrb_tree.go", "btree.go", "btree_validate.go"],
  [("red-black fix-up", "llrb_tree.go fixUp, moveRedLeft, moveRedRight, colorFlip"), ("split and rebalance thresholds", "btree.go insertHere, rebalanceHere")],
  None, ["comparator call counts; independent decode of flushed nodes; FetchDimensionsReport"])

p("C14", "I/O discipline: reads never write, and work is proportional to the path",
  "Operations that do not change the map (lookups, bisection, Len, reports, Validate, Put of a present key, Delete/Patch of an absent key or out-of-range index) never cause the next Flush to write anything. A keyed or indexed lookup reads at most one stored node per level, a modification or TouchItem at most a few per level, a node already in memory is not read again, the first lookup after the whole tree was purged reads every level again, and no operation other than Flush writes. After m successful modifications and TouchItem calls a Flush writes only nodes on the paths they went and their immediate siblings, at most a few per level for each, not the whole tree.",
  ["histories", "configurations"],
  "every state and residency, every operation",
  "Tests count neither reads nor writes.",
  ["btree.go"],
  [("dirty marking only on change", "btree.go Put, Patch*, Delete*, touchLoadedNodeToRoot"), ("path-only descent", "btree.go descent loops"), ("flush of dirty nodes only", "btree.go flushNode, postNode")],
  None, ["GetNode/PutNode callback counts per operation"])

p("C15", "Stored nodes follow the documented format, and any valid image opens",
  "Every node written is a little-endian image of item count, root flag, leaf flag and payload as the source documents: the root carries the maximum keys per node, a leaf its counted key/value pairs in order, an interior node its counted child references (object, offset, length, items) with separator keys between them, all packed with the client's callbacks. Conversely any image valid under that description opens, reads back its exact contents, validates, and supports further modification correctly, even if this library's own insertion order would never have produced that shape. Bytes pass through the callbacks by value: an image handed to PutNode is never altered afterwards, memory behind a slice GetNode returned is never written, and the client may reuse what GetNode, PackKey and PackValue returned as soon as the tree call that used it has returned.",
  ["inputs", "histories", "configurations"],
  "every tree written by any history; every valid image (any legal fan-out per node, any legal separator keys, any height, any placement) produced by an independent encoder",
  "Tests only ever read back what the same code wrote, so a symmetric format change, or a dependence on its own shapes, is invisible.",
  ["btree.go"],
  [("layout structs", "btree.go onDiskNodeStruct, onDiskReferenceToNodeStruct, onDiskUint64Struct"), ("writer", "btree.go postNode"), ("reader", "btree.go loadNode")],
  None, ["bytes given to PutNode; behaviour over foreign bytes returned from GetNode"])

p("C16", "The supplied comparators are total orders matching the natural order",
  "CompareInt, CompareUint16, CompareUint32, CompareUint64, CompareString, CompareByteSlice and CompareTime return a result whose sign is that of the natural order of their type for every pair of values, including extreme and far-apart ones, and are therefore antisymmetric and transitive. An argument of any other type in either position yields an error. They never modify their arguments or panic.",
  ["inputs"],
  "every pair and triple of values of each type, including minimum/maximum, differing lengths, time zones; every wrongly typed argument in either position",
  "Tests compare a few nearby values per type.",
  ["common_api.go"],
  [("comparators", "common_api.go Compare*")],
  None, ["return values of the Compare* functions"])

p("C17", "A key the comparator rejects fails cleanly and changes nothing",
  "If the comparator reports an error for a key, every keyed operation given that key, on either kind of map in any state, returns an error and ok=false (not found), does not panic, and leaves the map exactly as it was; only a search of an empty map may instead simply report not found. Put of such a key is refused with an error even on an empty map, so a rejected key is never stored, and later operations with acceptable keys behave normally.",
  ["inputs", "histories", "configurations"],
  "every state of both map kinds (empty, single-level, multi-level, paged out), every keyed operation, wrongly typed keys for each supplied comparator and custom comparators that reject certain keys",
  "Tests call comparators with wrong types directly but never pass such a key to a map.",
  ["llrb_tree.go", "btree.go", "common_api.go"],
  [("comparator error propagation", "llrb_tree.go insert, delete, preDeleteByKeyAdjustLen, Bisect*; btree.go descent loops, insertHere")],
  None, ["errors and contents after each rejected call"])

p("C18", "Dump is faithful, side-effect free, and surfaces callback errors",
  "Dump prints every key of the map in order exactly as the client's DumpKey callback renders it and, for a B+Tree, every value exactly once beside its key as DumpValue renders it, loading whatever is not in memory. What it prints of the structure (location, item count and flags of every B+Tree node; colour, children and size of every LLRB node and the drawing) describes the tree as it is. It changes neither the contents nor what a later Flush writes, and works in every state. If a callback fails during Dump, or a node cannot be loaded, Dump returns that error.",
  ["histories", "fault_sequences", "configurations"],
  "every state of both map kinds, residency, a fault at every callback position of the dump",
  "Tests dump one fixed small tree and never look at the output or inject a fault.",
  ["btree_dump.go", "llrb_dump.go"],
  [("recursive dump", "btree_dump.go Dump, dumpNode; llrb_dump.go")],
  None, ["standard output of Dump, DumpKey/DumpValue call sequence, returned error"])

p("C19", "Trees sharing a cache or a store are isolated from one another",
  "Operations on one B+Tree, including Discard, Prune, Purge and the eviction they trigger through a shared node cache, never change the contents, storage, or pending modifications of another tree. A tree only reads and discards storage it wrote or was opened on. A fault or a discarded tree leaves its neighbours fully working. Trees are independent objects: each may be used by its own goroutine at the same time, and one tree may be used from inside another tree's callbacks, each then answering and storing as if it were alone.",
  ["histories", "configurations", "schedules"],
  "every interleaved history over two or more trees sharing one cache and one storage space, every limit pair",
  "Tests share a cache between trees at a few fixed points only and never discard one of them mid-way.",
  ["btree.go"],
  [("cache elements embed the owning tree", "btree.go btreeNodeCacheElement, btreeNodeCacheDrainer"), ("per-tree stale list", "btree.go staleOnDiskReferencesList")],
  None, ["contents and callback log of each tree"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
