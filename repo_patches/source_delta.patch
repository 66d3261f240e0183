From ca024557340e40d9102127398a5cf7669d8dfdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 01/14] fix: CompareInt must not overflow for keys far apart

---
 common_api.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/common_api.go b/common_api.go
index 3693788..7b01af3 100644
--- a/common_api.go
+++ b/common_api.go
@@ -28,7 +28,14 @@ func CompareInt(key1 Key, key2 Key) (result int, err error) {
 		return
 	}
 
-	result = key1Int - key2Int
+	if key1Int < key2Int {
+		result = -1
+	} else if key1Int == key2Int {
+		result = 0
+	} else { // key1Int > key2Int
+		result = 1
+	}
+
 	err = nil
 
 	return
-- 
2.43.0


From 3ccc33cc7b1022e37571becb46a6ba49794525bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 02/14] fix: LLRBTree.Reset() must hold the tree's lock

---
 llrb_tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/llrb_tree.go b/llrb_tree.go
index ab11e50..45ff200 100644
--- a/llrb_tree.go
+++ b/llrb_tree.go
@@ -454,6 +454,9 @@ func (tree *llrbTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 }
 
 func (tree *llrbTreeStruct) Reset() {
+	tree.Lock()
+	defer tree.Unlock()
+
 	tree.root = nil
 }
 
-- 
2.43.0


From 429b499adcb5803e49b09c60a3641eb0e13ffc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 03/14] fix: FetchLocation() must hold the tree's lock

---
 btree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btree.go b/btree.go
index 89e92d0..1078aad 100644
--- a/btree.go
+++ b/btree.go
@@ -818,6 +818,9 @@ func (tree *btreeTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 }
 
 func (tree *btreeTreeStruct) FetchLocation() (rootObjectNumber uint64, rootObjectOffset uint64, rootObjectLength uint64) {
+	tree.Lock()
+	defer tree.Unlock()
+
 	rootObjectNumber = tree.root.objectNumber
 	rootObjectOffset = tree.root.objectOffset
 	rootObjectLength = tree.root.objectLength
-- 
2.43.0


From b951f8f12a38d2ee0c78da5e0eb2084085395f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 04/14] fix: Dump() must hold the cache's lock while reading
 its lists and elements

---
 btree_dump.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/btree_dump.go b/btree_dump.go
index 4d28a68..6a752ce 100644
--- a/btree_dump.go
+++ b/btree_dump.go
@@ -10,6 +10,7 @@ func (tree *btreeTreeStruct) Dump() (err error) {
 	defer tree.Unlock()
 
 	if nil != tree.nodeCache {
+		tree.nodeCache.Lock()
 		fmt.Printf("B+Tree @ %p has Node Cache @ %p\n", tree, tree.nodeCache)
 		fmt.Printf("  .evictLowLimit  = %v\n", tree.nodeCache.evictLowLimit)
 		fmt.Printf("  .evictHighLimit = %v\n", tree.nodeCache.evictHighLimit)
@@ -36,6 +37,7 @@ func (tree *btreeTreeStruct) Dump() (err error) {
 		}
 		fmt.Printf("  .dirtyLRUItems  = %v\n", tree.nodeCache.dirtyLRUItems)
 		fmt.Printf("  .drainerActive  = %v\n", tree.nodeCache.drainerActive)
+		tree.nodeCache.Unlock()
 	}
 
 	fmt.Printf("B+Tree @ %p has Root Node @ %p\n", tree, tree.root)
@@ -56,6 +58,7 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 	}
 
 	if nil != tree.nodeCache {
+		tree.nodeCache.Lock()
 		switch node.btreeNodeCacheElement.btreeNodeCacheTag {
 		case noLRU:
 			fmt.Printf("%v  .btreeNodeCacheTag   = noLRU (%v)\n", indent, noLRU)
@@ -79,6 +82,7 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 				fmt.Printf("%v  .prevBTreeNode       = %p\n", indent, node.btreeNodeCacheElement.prevBTreeNode)
 			}
 		}
+		tree.nodeCache.Unlock()
 	}
 
 	fmt.Printf("%v  .objectNumber        = 0x%016x\n", indent, node.objectNumber)
-- 
2.43.0


From 17c5923e7be9c104840f6e26e21afbe3d281df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 05/14] fix: Dump() must report errors met below the root

---
 btree_dump.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/btree_dump.go b/btree_dump.go
index 6a752ce..429f3e6 100644
--- a/btree_dump.go
+++ b/btree_dump.go
@@ -131,7 +131,10 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 	if !node.leaf {
 		if nil != node.nonLeafLeftChild {
 			fmt.Printf("%v  .nonLeafLeftChild    = %p\n", indent, node.nonLeafLeftChild)
-			tree.dumpNode(node.nonLeafLeftChild, "    "+indent)
+			err = tree.dumpNode(node.nonLeafLeftChild, "    "+indent)
+			if nil != err {
+				return
+			}
 		}
 	}
 
@@ -162,7 +165,10 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 		} else {
 			childNode := value.(*btreeNodeStruct)
 			fmt.Printf("%v  .kvLLRB[%v].Value     = %p\n", indent, i, childNode)
-			tree.dumpNode(childNode, "    "+indent)
+			err = tree.dumpNode(childNode, "    "+indent)
+			if nil != err {
+				return
+			}
 		}
 	}
 
-- 
2.43.0


From edc24f64c2f93e47310a89a69726c2b7e6b0cfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 06/14] fix: validatePrefixSum() must check both subtrees and
 report what it finds

---
 btree_validate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/btree_validate.go b/btree_validate.go
index b1816ed..56cbbf0 100644
--- a/btree_validate.go
+++ b/btree_validate.go
@@ -153,6 +153,9 @@ func (node *btreeNodeStruct) validatePrefixSum() (err error) {
 		}
 
 		err = node.prefixSumLeftChild.validatePrefixSum()
+		if nil != err {
+			return
+		}
 	}
 
 	if nil != node.prefixSumRightChild {
@@ -163,7 +166,7 @@ func (node *btreeNodeStruct) validatePrefixSum() (err error) {
 			return
 		}
 
-		err = node.prefixSumLeftChild.validatePrefixSum()
+		err = node.prefixSumRightChild.validatePrefixSum()
 		if nil != err {
 			return
 		}
-- 
2.43.0


From 6ff445b7f30246602fe8ed7d026c1dc092599592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 07/14] fix: Discard() must report failures and remain
 retryable after them

---
 btree.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/btree.go b/btree.go
index 1078aad..7be94fb 100644
--- a/btree.go
+++ b/btree.go
@@ -1015,17 +1015,28 @@ func (tree *btreeTreeStruct) Discard() (err error) {
 	tree.Lock()
 	defer tree.Unlock()
 
-	// Discard every node in tree
+	// Touch every node in tree such that each becomes stale (and, should any
+	// step below fail, remains properly resident allowing Discard() to be retried)
 
-	tree.discardNode(tree.root)
+	err = tree.touchNode(tree.root)
+	if nil != err {
+		return
+	}
 
-	// Prune again to pick up now stale nodes added in discardNode()
+	// Prune to pick up now stale nodes added in touchNode()
 
 	err = tree.pruneWhileLocked()
 	if nil != err {
 		return
 	}
 
+	// Discard every node in tree
+
+	err = tree.discardNode(tree.root)
+	if nil != err {
+		return
+	}
+
 	// Reset btreeTreeStruct to trigger Golang Garbage Collection now (and prevent further use)
 
 	tree.Compare = nil
-- 
2.43.0


From bfee4aa612532004b08a595564ce8d0409570879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 08/14] fix: Prune() must not discard a node twice when retried
 after a failure

---
 btree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/btree.go b/btree.go
index 7be94fb..a8e77ca 100644
--- a/btree.go
+++ b/btree.go
@@ -1091,6 +1091,10 @@ func (tree *btreeTreeStruct) pruneWhileLocked() (err error) {
 			if nil != err {
 				return
 			}
+
+			// Ensure a retry following a subsequent failure does not discard this node again
+
+			delete(tree.staleOnDiskReferencesList, staleOnDiskReference)
 		}
 
 		tree.staleOnDiskReferencesList = nil
-- 
2.43.0


From 428bba8705399f5ee177f67510667d1999d66bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 09/14] fix: B+Tree Put() must report errors met while
 inserting

---
 btree.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/btree.go b/btree.go
index a8e77ca..c2182d8 100644
--- a/btree.go
+++ b/btree.go
@@ -1166,7 +1166,14 @@ func (tree *btreeTreeStruct) insertHere(insertNode *btreeNodeStruct, key Key, va
 		splitValueAsNode    *btreeNodeStruct
 	)
 
-	insertNode.kvLLRB.Put(key, value)
+	ok, err = insertNode.kvLLRB.Put(key, value)
+	if nil != err {
+		return
+	}
+	if !ok {
+		err = fmt.Errorf("Logic error: insertHere() failed to put insertNode's key:value")
+		return
+	}
 
 	if insertNode.leaf {
 		tree.updatePrefixSumTreeLeafToRoot(insertNode) // will also mark affected nodes dirty/used in LRU
@@ -1301,7 +1308,14 @@ func (tree *btreeTreeStruct) insertHere(insertNode *btreeNodeStruct, key Key, va
 		insertNode.parentNode = tree.root
 		newRightSiblingNode.parentNode = tree.root
 
-		tree.root.kvLLRB.Put(splitKey, newRightSiblingNode)
+		ok, err = tree.root.kvLLRB.Put(splitKey, newRightSiblingNode)
+		if nil != err {
+			return
+		}
+		if !ok {
+			err = fmt.Errorf("Logic error: insertHere() failed to put new root's splitKey:newRightSiblingNode")
+			return
+		}
 
 		tree.initNodeAsEvicted(newRightSiblingNode)
 		tree.markNodeDirty(newRightSiblingNode)
-- 
2.43.0


From 8c4ea6b1747109f538534eca8d9df09cd1a120b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 10/14] fix: rebalanceHere() must check the result of moving a
 split key to the left sibling

---
 btree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btree.go b/btree.go
index c2182d8..6703d74 100644
--- a/btree.go
+++ b/btree.go
@@ -1714,7 +1714,7 @@ func (tree *btreeTreeStruct) rebalanceHere(rebalanceNode *btreeNodeStruct, paren
 		}
 		if !rebalanceNode.leaf {
 			rebalanceNode.nonLeafLeftChild.parentNode = leftSiblingNode
-			leftSiblingNode.kvLLRB.Put(oldSplitKey, rebalanceNode.nonLeafLeftChild)
+			ok, err = leftSiblingNode.kvLLRB.Put(oldSplitKey, rebalanceNode.nonLeafLeftChild)
 			if nil != err {
 				return
 			}
-- 
2.43.0


From fd4646a5ffde862d0fa202861234b85537b2cba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 11/14] fix: loadNode() must report undecodable keys of
 non-leaf nodes

---
 btree.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/btree.go b/btree.go
index 6703d74..d9dc05a 100644
--- a/btree.go
+++ b/btree.go
@@ -2883,7 +2883,15 @@ func (tree *btreeTreeStruct) loadNode(node *btreeNodeStruct) (err error) {
 					kvLLRB:       nil,
 				}
 
-				node.kvLLRB.Put(key, childNode)
+				ok, putErr := node.kvLLRB.Put(key, childNode)
+				if nil != putErr {
+					err = putErr
+					return
+				}
+				if !ok {
+					err = fmt.Errorf("Logic error: loadNode() call to Put() should have worked")
+					return
+				}
 
 				tree.initNodeAsEvicted(childNode)
 			}
-- 
2.43.0


From 945e6a05eff7a00374f68b954beacacd518e5e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 12/14] fix: LLRB Put() must report comparison errors, also for
 the first key

---
 llrb_tree.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/llrb_tree.go b/llrb_tree.go
index 45ff200..888a92d 100644
--- a/llrb_tree.go
+++ b/llrb_tree.go
@@ -437,6 +437,15 @@ func (tree *llrbTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 	tree.Lock()
 	defer tree.Unlock()
 
+	if nil == tree.root {
+		// insert() will have no node to compare key to, so check it here
+
+		_, err = tree.Compare(key, key)
+		if nil != err {
+			return
+		}
+	}
+
 	updatedRoot, ok, err := tree.insert(tree.root, key, value)
 	if nil != err {
 		return
@@ -444,8 +453,11 @@ func (tree *llrbTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 
 	if ok {
 		tree.root = updatedRoot
-		tree.postInsertAdjustLen(tree.root, key)
 		tree.root.color = BLACK
+		err = tree.postInsertAdjustLen(tree.root, key)
+		if nil != err {
+			return
+		}
 	}
 
 	err = nil
@@ -536,9 +548,15 @@ func (tree *llrbTreeStruct) postInsertAdjustLen(node *llrbNodeStruct, key Key) (
 
 	switch {
 	case compareResult < 0: // key < node.Key
-		tree.postInsertAdjustLen(node.left, key)
+		err = tree.postInsertAdjustLen(node.left, key)
+		if nil != err {
+			return
+		}
 	case compareResult > 0: // key > node.Key
-		tree.postInsertAdjustLen(node.right, key)
+		err = tree.postInsertAdjustLen(node.right, key)
+		if nil != err {
+			return
+		}
 	default: // compareResult == 0 (key == node.Key)
 		// nothing to do additionally here
 	}
-- 
2.43.0


From 11e02b0330d120ff87e3d1c66a61592715b25b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 13/14] fix: loadNode() must not alter a node's recorded totals
 when it fails

---
 btree.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/btree.go b/btree.go
index d9dc05a..4c3326b 100644
--- a/btree.go
+++ b/btree.go
@@ -2767,13 +2767,9 @@ func (tree *btreeTreeStruct) loadNode(node *btreeNodeStruct) (err error) {
 		return
 	}
 
-	node.items = onDiskNode.Items
-	node.root = onDiskNode.Root
-	node.leaf = onDiskNode.Leaf
-
 	payload := onDiskNode.Payload
 
-	if node.root {
+	if onDiskNode.Root {
 		bytesConsumed, unpackErr := cstruct.Unpack(payload, &maxKeysPerNodeStruct, OnDiskByteOrder)
 		if nil != unpackErr {
 			err = unpackErr
@@ -2781,12 +2777,9 @@ func (tree *btreeTreeStruct) loadNode(node *btreeNodeStruct) (err error) {
 		}
 
 		payload = payload[bytesConsumed:]
-
-		tree.minKeysPerNode = maxKeysPerNodeStruct.U64 >> 1
-		tree.maxKeysPerNode = maxKeysPerNodeStruct.U64
 	}
 
-	if node.leaf {
+	if onDiskNode.Leaf {
 		bytesConsumed, unpackErr := cstruct.Unpack(payload, &numKeysStruct, OnDiskByteOrder)
 		if nil != unpackErr {
 			err = unpackErr
@@ -2895,8 +2888,6 @@ func (tree *btreeTreeStruct) loadNode(node *btreeNodeStruct) (err error) {
 
 				tree.initNodeAsEvicted(childNode)
 			}
-
-			tree.arrangePrefixSumTree(node)
 		}
 	}
 
@@ -2905,6 +2896,21 @@ func (tree *btreeTreeStruct) loadNode(node *btreeNodeStruct) (err error) {
 		return
 	}
 
+	// Now that nothing can fail anymore, update node (and, if node is the root, tree)
+
+	node.items = onDiskNode.Items
+	node.root = onDiskNode.Root
+	node.leaf = onDiskNode.Leaf
+
+	if node.root {
+		tree.minKeysPerNode = maxKeysPerNodeStruct.U64 >> 1
+		tree.maxKeysPerNode = maxKeysPerNodeStruct.U64
+	}
+
+	if !node.leaf && (nil != node.nonLeafLeftChild) {
+		tree.arrangePrefixSumTree(node)
+	}
+
 	node.loaded = true
 
 	tree.markNodeClean(node)
-- 
2.43.0


From 0d89aadc493a7aa1073e77b11cb1aa7606d1de34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 14/14] fix: B+Tree deletes must load what rebalancing needs
 before changing anything

---
 btree.go | 82 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 82 insertions(+)

diff --git a/btree.go b/btree.go
index 4c3326b..c3d0dd5 100644
--- a/btree.go
+++ b/btree.go
@@ -376,6 +376,10 @@ func (tree *btreeTreeStruct) DeleteByIndex(index int) (ok bool, err error) {
 		}
 
 		if node.leaf {
+			err = tree.loadSiblingsForRebalance(node, parentIndexStack)
+			if nil != err {
+				return
+			}
 			_, err = node.kvLLRB.DeleteByIndex(int(netIndex))
 			if nil != err {
 				return
@@ -438,6 +442,17 @@ func (tree *btreeTreeStruct) DeleteByKey(key Key) (ok bool, err error) {
 		}
 
 		if node.leaf {
+			_, keyPresent, nonShadowingErr := node.kvLLRB.GetByKey(key)
+			if nil != nonShadowingErr {
+				err = nonShadowingErr
+				return
+			}
+			if keyPresent {
+				err = tree.loadSiblingsForRebalance(node, parentIndexStack)
+				if nil != err {
+					return
+				}
+			}
 			ok, err = node.kvLLRB.DeleteByKey(key)
 			if nil != err {
 				return
@@ -1341,6 +1356,73 @@ func (tree *btreeTreeStruct) insertHere(insertNode *btreeNodeStruct, key Key, va
 	return
 }
 
+// loadSiblingsForRebalance loads those sibling nodes that rebalanceHere() would visit following the deletion
+// of an item from leafNode. It must be called prior to that deletion such that, if loading any of them fails,
+// the deletion may be abandoned with the tree still unmodified.
+func (tree *btreeTreeStruct) loadSiblingsForRebalance(leafNode *btreeNodeStruct, parentIndexStack []int) (err error) {
+	var (
+		llrbLen            int
+		node               *btreeNodeStruct
+		ok                 bool
+		siblingIndex       int
+		siblingNode        *btreeNodeStruct
+		siblingNodeAsValue Value
+	)
+
+	node = leafNode
+
+	for level := len(parentIndexStack) - 1; level >= 0; level-- {
+		llrbLen, err = node.kvLLRB.Len()
+		if nil != err {
+			return
+		}
+		if uint64(llrbLen) > tree.minKeysPerNode {
+			// node can lose a key without needing to be rebalanced
+			return
+		}
+
+		for _, siblingIndex = range []int{parentIndexStack[level] - 1, parentIndexStack[level] + 1} {
+			if -1 == siblingIndex {
+				siblingNode = node.parentNode.nonLeafLeftChild
+			} else {
+				_, siblingNodeAsValue, ok, err = node.parentNode.kvLLRB.GetByIndex(siblingIndex)
+				if nil != err {
+					return
+				}
+				if !ok {
+					// node has no sibling on this side
+					continue
+				}
+				siblingNode = siblingNodeAsValue.(*btreeNodeStruct)
+			}
+
+			if !siblingNode.loaded {
+				tree.incCacheMisses()
+				err = tree.loadNode(siblingNode) // will also mark siblingNode clean/used in LRU
+				if nil != err {
+					return
+				}
+			}
+
+			llrbLen, err = siblingNode.kvLLRB.Len()
+			if nil != err {
+				return
+			}
+			if uint64(llrbLen) > tree.minKeysPerNode {
+				// siblingNode can give up a key, so parentNode will not lose one
+				return
+			}
+		}
+
+		// siblings will be merged, so parentNode will lose a key
+
+		node = node.parentNode
+	}
+
+	err = nil
+	return
+}
+
 func (tree *btreeTreeStruct) rebalanceHere(rebalanceNode *btreeNodeStruct, parentIndexStack []int) (err error) {
 	var (
 		i                                          int
-- 
2.43.0

