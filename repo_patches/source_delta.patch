From 90a17da27ae965c64e8b7be50547876879d36ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 01/12] fix: CompareInt must not overflow

The difference of two ints overflows once they are more than MaxInt apart, inverting their order.
---
 common_api.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/common_api.go b/common_api.go
index 3693788..7b01af3 100644
--- a/common_api.go
+++ b/common_api.go
@@ -28,7 +28,14 @@ func CompareInt(key1 Key, key2 Key) (result int, err error) {
 		return
 	}
 
-	result = key1Int - key2Int
+	if key1Int < key2Int {
+		result = -1
+	} else if key1Int == key2Int {
+		result = 0
+	} else { // key1Int > key2Int
+		result = 1
+	}
+
 	err = nil
 
 	return
-- 
2.43.0


From 982dcd4afe4b7c997b238afb5d2c335889b8966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 02/12] fix: LLRB Reset() must hold the tree lock

---
 llrb_tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/llrb_tree.go b/llrb_tree.go
index ab11e50..45ff200 100644
--- a/llrb_tree.go
+++ b/llrb_tree.go
@@ -454,6 +454,9 @@ func (tree *llrbTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 }
 
 func (tree *llrbTreeStruct) Reset() {
+	tree.Lock()
+	defer tree.Unlock()
+
 	tree.root = nil
 }
 
-- 
2.43.0


From f50fc328158fffa151ae9f382a43da667e34299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 03/12] fix: FetchLocation() must hold the tree lock

Otherwise it races with updates of the root node and may return a mix of two locations.
---
 btree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btree.go b/btree.go
index 89e92d0..1078aad 100644
--- a/btree.go
+++ b/btree.go
@@ -818,6 +818,9 @@ func (tree *btreeTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 }
 
 func (tree *btreeTreeStruct) FetchLocation() (rootObjectNumber uint64, rootObjectOffset uint64, rootObjectLength uint64) {
+	tree.Lock()
+	defer tree.Unlock()
+
 	rootObjectNumber = tree.root.objectNumber
 	rootObjectOffset = tree.root.objectOffset
 	rootObjectLength = tree.root.objectLength
-- 
2.43.0


From 33438ea1c04be8a8604ba1553b24a9249d1a13bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 04/12] fix: a failed Prune() must not lead to discarding nodes
 twice

When DiscardNode() fails part way, the references already discarded stayed
listed and were discarded again by the next Prune() or Discard().
---
 btree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/btree.go b/btree.go
index 1078aad..b71e4e1 100644
--- a/btree.go
+++ b/btree.go
@@ -1080,6 +1080,10 @@ func (tree *btreeTreeStruct) pruneWhileLocked() (err error) {
 			if nil != err {
 				return
 			}
+
+			// Discarded, so must not be discarded again should a subsequent one fail
+
+			delete(tree.staleOnDiskReferencesList, staleOnDiskReference)
 		}
 
 		tree.staleOnDiskReferencesList = nil
-- 
2.43.0


From 64ca46e1ea7e7722e41ced670ecbdfcbf67bef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 05/12] fix: Validate() must check the whole prefix sum tree

validatePrefixSum() lost the error found in the left subtree and never visited the right one.
---
 btree_validate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/btree_validate.go b/btree_validate.go
index b1816ed..56cbbf0 100644
--- a/btree_validate.go
+++ b/btree_validate.go
@@ -153,6 +153,9 @@ func (node *btreeNodeStruct) validatePrefixSum() (err error) {
 		}
 
 		err = node.prefixSumLeftChild.validatePrefixSum()
+		if nil != err {
+			return
+		}
 	}
 
 	if nil != node.prefixSumRightChild {
@@ -163,7 +166,7 @@ func (node *btreeNodeStruct) validatePrefixSum() (err error) {
 			return
 		}
 
-		err = node.prefixSumLeftChild.validatePrefixSum()
+		err = node.prefixSumRightChild.validatePrefixSum()
 		if nil != err {
 			return
 		}
-- 
2.43.0


From 0cf2ccce8a0ca424f642f53a49ffdc7884ce68a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 06/12] fix: PatchByKey() of an absent key must not dirty the
 tree

---
 btree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/btree.go b/btree.go
index b71e4e1..733c3eb 100644
--- a/btree.go
+++ b/btree.go
@@ -708,8 +708,10 @@ func (tree *btreeTreeStruct) PatchByKey(key Key, value Value) (ok bool, err erro
 		}
 
 		if node.leaf {
-			tree.touchLoadedNodeToRoot(node) // will also mark node dirty/used in LRU
 			ok, err = node.kvLLRB.PatchByKey(key, value)
+			if ok {
+				tree.touchLoadedNodeToRoot(node) // will also mark node dirty/used in LRU
+			}
 			return
 		}
 
-- 
2.43.0


From 07cb50355ea624f6306b9b6435afd57d8df41ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 07/12] fix: Dump() must report a failure below the root node

---
 btree_dump.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/btree_dump.go b/btree_dump.go
index 4d28a68..9f11e33 100644
--- a/btree_dump.go
+++ b/btree_dump.go
@@ -127,7 +127,10 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 	if !node.leaf {
 		if nil != node.nonLeafLeftChild {
 			fmt.Printf("%v  .nonLeafLeftChild    = %p\n", indent, node.nonLeafLeftChild)
-			tree.dumpNode(node.nonLeafLeftChild, "    "+indent)
+			err = tree.dumpNode(node.nonLeafLeftChild, "    "+indent)
+			if nil != err {
+				return
+			}
 		}
 	}
 
@@ -158,7 +161,10 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 		} else {
 			childNode := value.(*btreeNodeStruct)
 			fmt.Printf("%v  .kvLLRB[%v].Value     = %p\n", indent, i, childNode)
-			tree.dumpNode(childNode, "    "+indent)
+			err = tree.dumpNode(childNode, "    "+indent)
+			if nil != err {
+				return
+			}
 		}
 	}
 
-- 
2.43.0


From 15d900490dd75a65cec2710da9f25217bd86e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 08/12] fix: Dump() must hold the cache lock while reading
 cache state

Another tree sharing the cache, or the drainer, may be changing it.
---
 btree_dump.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/btree_dump.go b/btree_dump.go
index 9f11e33..429f3e6 100644
--- a/btree_dump.go
+++ b/btree_dump.go
@@ -10,6 +10,7 @@ func (tree *btreeTreeStruct) Dump() (err error) {
 	defer tree.Unlock()
 
 	if nil != tree.nodeCache {
+		tree.nodeCache.Lock()
 		fmt.Printf("B+Tree @ %p has Node Cache @ %p\n", tree, tree.nodeCache)
 		fmt.Printf("  .evictLowLimit  = %v\n", tree.nodeCache.evictLowLimit)
 		fmt.Printf("  .evictHighLimit = %v\n", tree.nodeCache.evictHighLimit)
@@ -36,6 +37,7 @@ func (tree *btreeTreeStruct) Dump() (err error) {
 		}
 		fmt.Printf("  .dirtyLRUItems  = %v\n", tree.nodeCache.dirtyLRUItems)
 		fmt.Printf("  .drainerActive  = %v\n", tree.nodeCache.drainerActive)
+		tree.nodeCache.Unlock()
 	}
 
 	fmt.Printf("B+Tree @ %p has Root Node @ %p\n", tree, tree.root)
@@ -56,6 +58,7 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 	}
 
 	if nil != tree.nodeCache {
+		tree.nodeCache.Lock()
 		switch node.btreeNodeCacheElement.btreeNodeCacheTag {
 		case noLRU:
 			fmt.Printf("%v  .btreeNodeCacheTag   = noLRU (%v)\n", indent, noLRU)
@@ -79,6 +82,7 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 				fmt.Printf("%v  .prevBTreeNode       = %p\n", indent, node.btreeNodeCacheElement.prevBTreeNode)
 			}
 		}
+		tree.nodeCache.Unlock()
 	}
 
 	fmt.Printf("%v  .objectNumber        = 0x%016x\n", indent, node.objectNumber)
-- 
2.43.0


From 5f95569cb7c4f985507fe17ee67b5fae568cf85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 09/12] fix: Put() into an empty map must reject a key Compare
 rejects

Otherwise the map holds a key every later Compare fails on.
---
 btree.go     | 7 +++++--
 llrb_tree.go | 9 +++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/btree.go b/btree.go
index 733c3eb..5865556 100644
--- a/btree.go
+++ b/btree.go
@@ -777,7 +777,7 @@ func (tree *btreeTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 				ok = false
 			} else {
 				err = tree.insertHere(node, key, value) // will also mark affected nodes dirty/used in LRU
-				ok = true
+				ok = (nil == err)
 				return
 			}
 
@@ -1157,7 +1157,10 @@ func (tree *btreeTreeStruct) insertHere(insertNode *btreeNodeStruct, key Key, va
 		splitValueAsNode    *btreeNodeStruct
 	)
 
-	insertNode.kvLLRB.Put(key, value)
+	_, err = insertNode.kvLLRB.Put(key, value)
+	if nil != err {
+		return
+	}
 
 	if insertNode.leaf {
 		tree.updatePrefixSumTreeLeafToRoot(insertNode) // will also mark affected nodes dirty/used in LRU
diff --git a/llrb_tree.go b/llrb_tree.go
index 45ff200..48cf6cb 100644
--- a/llrb_tree.go
+++ b/llrb_tree.go
@@ -437,6 +437,15 @@ func (tree *llrbTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 	tree.Lock()
 	defer tree.Unlock()
 
+	if nil == tree.root {
+		// insert() will have nothing to compare key with, so ensure Compare accepts key
+
+		_, err = tree.Compare(key, key)
+		if nil != err {
+			return
+		}
+	}
+
 	updatedRoot, ok, err := tree.insert(tree.root, key, value)
 	if nil != err {
 		return
-- 
2.43.0


From fd42a2fdda1563a32e390abecd47e1a90621faba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 10/12] fix: Discard() must report a failure and be retryable

A failure to load a node was ignored and its whole subtree leaked. A retry
following a failure to discard some node panicked (if there was a node cache).
---
 btree.go | 56 +++++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/btree.go b/btree.go
index 5865556..cd2c0d4 100644
--- a/btree.go
+++ b/btree.go
@@ -1017,9 +1017,21 @@ func (tree *btreeTreeStruct) Discard() (err error) {
 	tree.Lock()
 	defer tree.Unlock()
 
-	// Discard every node in tree
+	// Discard every node in tree (unless an earlier Discard() has, but failed to prune all of them)
 
-	tree.discardNode(tree.root)
+	if nil != tree.root {
+		err = tree.loadSubtree(tree.root) // if some node cannot be loaded, tree must remain as it was
+		if nil != err {
+			return
+		}
+
+		err = tree.discardNode(tree.root)
+		if nil != err {
+			return
+		}
+
+		tree.root = nil
+	}
 
 	// Prune again to pick up now stale nodes added in discardNode()
 
@@ -1097,7 +1109,7 @@ func (tree *btreeTreeStruct) pruneWhileLocked() (err error) {
 	return
 }
 
-func (tree *btreeTreeStruct) discardNode(node *btreeNodeStruct) (err error) {
+func (tree *btreeTreeStruct) loadSubtree(node *btreeNodeStruct) (err error) {
 	if node.loaded {
 		tree.incCacheHits()
 	} else {
@@ -1108,6 +1120,44 @@ func (tree *btreeTreeStruct) discardNode(node *btreeNodeStruct) (err error) {
 		}
 	}
 
+	if !node.leaf {
+		if nil != node.nonLeafLeftChild {
+			err = tree.loadSubtree(node.nonLeafLeftChild)
+			if nil != err {
+				return
+			}
+		}
+
+		numIndices, nonShadowingErr := node.kvLLRB.Len()
+		if nil != nonShadowingErr {
+			err = nonShadowingErr
+			return
+		}
+
+		for i := 0; i < numIndices; i++ {
+			_, childNodeAsValue, ok, nonShadowingErr := node.kvLLRB.GetByIndex(i)
+			if nil != nonShadowingErr {
+				err = nonShadowingErr
+				return
+			}
+			if !ok {
+				err = fmt.Errorf("Logic error: loadSubtree() had indexing problem in kvLLRB")
+				return
+			}
+			childNode := childNodeAsValue.(*btreeNodeStruct)
+
+			err = tree.loadSubtree(childNode)
+			if nil != err {
+				return
+			}
+		}
+	}
+
+	err = nil
+	return
+}
+
+func (tree *btreeTreeStruct) discardNode(node *btreeNodeStruct) (err error) { // entire subtree must have been loaded
 	if !node.leaf {
 		if nil != node.nonLeafLeftChild {
 			err = tree.discardNode(node.nonLeafLeftChild)
-- 
2.43.0


From da5a141e0d2dfccc08ee29277d3302e4359531ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 11/12] fix: a Delete that fails to load a sibling node must
 change nothing

The item was deleted (and possibly some nodes merged) before a needed sibling
failed to load, leaving an error for a delete that took place and an unbalanced
(or, if merging had reached an interior node, corrupt) tree.
---
 btree.go | 87 ++++++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 84 insertions(+), 3 deletions(-)

diff --git a/btree.go b/btree.go
index cd2c0d4..8bbf895 100644
--- a/btree.go
+++ b/btree.go
@@ -376,6 +376,10 @@ func (tree *btreeTreeStruct) DeleteByIndex(index int) (ok bool, err error) {
 		}
 
 		if node.leaf {
+			err = tree.loadSiblingsForRebalance(node, parentIndexStack)
+			if nil != err {
+				return
+			}
 			_, err = node.kvLLRB.DeleteByIndex(int(netIndex))
 			if nil != err {
 				return
@@ -438,11 +442,20 @@ func (tree *btreeTreeStruct) DeleteByKey(key Key) (ok bool, err error) {
 		}
 
 		if node.leaf {
-			ok, err = node.kvLLRB.DeleteByKey(key)
-			if nil != err {
+			_, keyPresent, nonShadowingErr := node.kvLLRB.GetByKey(key)
+			if nil != nonShadowingErr {
+				err = nonShadowingErr
 				return
 			}
-			if ok {
+			if keyPresent {
+				err = tree.loadSiblingsForRebalance(node, parentIndexStack)
+				if nil != err {
+					return
+				}
+				ok, err = node.kvLLRB.DeleteByKey(key)
+				if nil != err {
+					return
+				}
 				tree.markNodeDirty(node)
 				tree.updatePrefixSumTreeLeafToRoot(node)
 				err = tree.rebalanceHere(node, parentIndexStack) // will also mark affected nodes dirty/used in LRU
@@ -1371,6 +1384,74 @@ func (tree *btreeTreeStruct) insertHere(insertNode *btreeNodeStruct, key Key, va
 	return
 }
 
+// loadSiblingsForRebalance ensures the sibling nodes that rebalanceHere() will consult once an item has been
+// deleted from the (leaf) node are loaded. By doing so before deleting that item, a failure to load one of
+// them leaves the tree unmodified.
+func (tree *btreeTreeStruct) loadSiblingsForRebalance(node *btreeNodeStruct, parentIndexStack []int) (err error) {
+	for !node.root {
+		llrbLen, nonShadowingErr := node.kvLLRB.Len()
+		if nil != nonShadowingErr {
+			err = nonShadowingErr
+			return
+		}
+		if uint64(llrbLen) > tree.minKeysPerNode {
+			break // node can lose a key without needing to be rebalanced
+		}
+
+		parentNode := node.parentNode
+		parentIndexStackTailIndex := len(parentIndexStack) - 1
+		parentNodeIndex := parentIndexStack[parentIndexStackTailIndex]
+
+		siblingCanGiveUpKey := false
+
+		for _, siblingIndex := range []int{parentNodeIndex - 1, parentNodeIndex + 1} {
+			siblingNode := parentNode.nonLeafLeftChild
+
+			if -1 != siblingIndex {
+				_, siblingNodeAsValue, ok, nonShadowingErr := parentNode.kvLLRB.GetByIndex(siblingIndex)
+				if nil != nonShadowingErr {
+					err = nonShadowingErr
+					return
+				}
+				if !ok {
+					continue // no sibling on this side of node
+				}
+				siblingNode = siblingNodeAsValue.(*btreeNodeStruct)
+			}
+
+			if !siblingNode.loaded {
+				tree.incCacheMisses()
+				err = tree.loadNode(siblingNode) // will also mark siblingNode clean/used in LRU
+				if nil != err {
+					return
+				}
+			}
+
+			llrbLen, nonShadowingErr = siblingNode.kvLLRB.Len()
+			if nil != nonShadowingErr {
+				err = nonShadowingErr
+				return
+			}
+			if uint64(llrbLen) > tree.minKeysPerNode {
+				siblingCanGiveUpKey = true
+				break
+			}
+		}
+
+		if siblingCanGiveUpKey {
+			break
+		}
+
+		// node will be merged with a sibling, so parentNode will lose a key
+
+		node = parentNode
+		parentIndexStack = parentIndexStack[:parentIndexStackTailIndex]
+	}
+
+	err = nil
+	return
+}
+
 func (tree *btreeTreeStruct) rebalanceHere(rebalanceNode *btreeNodeStruct, parentIndexStack []int) (err error) {
 	var (
 		i                                          int
-- 
2.43.0


From 8811132cf51626bb5000d92ed2d88d339b5220d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 12/12] fix: loadNode() must not ignore a failure to index a
 child

---
 btree.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/btree.go b/btree.go
index 8bbf895..6b6f270 100644
--- a/btree.go
+++ b/btree.go
@@ -2994,12 +2994,23 @@ func (tree *btreeTreeStruct) loadNode(node *btreeNodeStruct) (err error) {
 					kvLLRB:       nil,
 				}
 
-				node.kvLLRB.Put(key, childNode)
+				ok, nonShadowingErr := node.kvLLRB.Put(key, childNode)
+				if nil != nonShadowingErr {
+					err = nonShadowingErr
+					return
+				}
+				if !ok {
+					err = fmt.Errorf("Logic error: loadNode() call to Put() should have worked")
+					return
+				}
 
 				tree.initNodeAsEvicted(childNode)
 			}
 
-			tree.arrangePrefixSumTree(node)
+			err = tree.arrangePrefixSumTree(node)
+			if nil != err {
+				return
+			}
 		}
 	}
 
-- 
2.43.0

