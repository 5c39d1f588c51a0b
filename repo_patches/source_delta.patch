From 2474b061d387fccd9096a1a0d211ba82862d4b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:35 +0000
Subject: [PATCH 01/55] fix: trie must not treat a key ending at a child edge
 as the prefixed child node

Trie.get/insert/delete returned, overwrote or removed the value of the child
node when the key ended exactly where the child hangs, although the child has a
prefix of its own (keys 1234, 123567, then 1235).
---
 trie/trie.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index f07b85d..3fa9987 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -266,7 +266,7 @@ func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]no
 		return nil, false
 	}
 
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		if startNode.hasValue() {
 			return startNode.value, true
 		} else {
@@ -362,7 +362,7 @@ func (t *Trie) insert(startNode *node, prefixString []byte, offset int, value in
 	startNode.generation = t.gen
 
 	// set value to current node and return
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		// no more prefix, no more actions
 		changed, _, delta := startNode.setValue(value)
 		t.valueCount = t.valueCount + delta
@@ -506,7 +506,7 @@ func (t *Trie) delete(startNode *node, prefixString []byte, offset int) (changed
 	startNode.generation = t.gen
 
 	// remove current node value, if no more prefix
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		changed, shouldRemove, oldValue = t.removeValue(startNode)
 		return
 	}
-- 
2.43.0


From 2b1761a6eab3d1aac51fec94e6120bd1d043b1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:35 +0000
Subject: [PATCH 02/55] fix: Trie.Commit must report a failure to save a
 descendant node

iterateSave dropped the errors of its children, so Commit succeeded and marked
the ancestors clean although nodes below them were never stored.
---
 trie/trie.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 3fa9987..83b97c7 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -668,7 +668,9 @@ func (t *Trie) iterateSave(node *node) error {
 	// depth-first traversal
 	for i := 0; i < childrenLength; i++ {
 		if node.children[i] != nil {
-			_ = t.iterateSave(node.children[i])
+			if err := t.iterateSave(node.children[i]); err != nil {
+				return err
+			}
 		}
 	}
 	if node.isDirty() {
-- 
2.43.0


From 0e3d0415b8e99a5f7109e90ac26a2b940617fe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:35 +0000
Subject: [PATCH 03/55] fix: ReversedValueIterator must visit the value of a
 node which has a child at index 0

---
 trie/iterator.go | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/trie/iterator.go b/trie/iterator.go
index 7aee241..7342f27 100644
--- a/trie/iterator.go
+++ b/trie/iterator.go
@@ -363,26 +363,22 @@ func (rt *reversedValueIterator) Next() bool {
 				_ = rt.trie.expandNodeValue(last.node)
 			}
 			last.index--
-			for last.index >= 0 {
-				if last.node.children[last.index] == nil {
-					// nil child, ignore
-					last.index--
-					if last.index < 0 {
-						// check value when the reversedTrace just before poping out
-						if last.node.hasValue() {
-							return true
-						} else {
-							// shortcut, pop node if there's no value
-							_ = last.node.collapse()
-							rt.stack = rt.stack[:len(rt.stack)-1]
-						}
-					}
-				} else {
-					// push child node to stack
-					rt.stack = append(rt.stack, &reversedTrace{node: last.node.children[last.index], index: childrenLength})
-					break
-				}
+			for last.index >= 0 && last.node.children[last.index] == nil {
+				// nil child, ignore
+				last.index--
+			}
+			if last.index >= 0 {
+				// push child node to stack
+				rt.stack = append(rt.stack, &reversedTrace{node: last.node.children[last.index], index: childrenLength})
+				continue
 			}
+			// check value when the reversedTrace just before poping out
+			if last.node.hasValue() {
+				return true
+			}
+			// shortcut, pop node if there's no value
+			_ = last.node.collapse()
+			rt.stack = rt.stack[:len(rt.stack)-1]
 		}
 	}
 }
-- 
2.43.0


From 8f0a8b2f8f6c599dd41a735b02191153930240bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:36 +0000
Subject: [PATCH 04/55] fix: HistoryTree.Has must not lock twice

---
 trie/historytree.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 18bde69..7659e9b 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -413,9 +413,6 @@ func (h *HistoryTree) Append(key uint64, value []byte) (err error) {
 }
 
 func (h *HistoryTree) Has(key uint64) bool {
-	h.lock.Lock()
-	defer h.lock.Unlock()
-
 	_, exist := h.Get(key)
 	return exist
 }
-- 
2.43.0


From 1cf7c9d7e88f5a4bee336f3fa91844edce8f0ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:36 +0000
Subject: [PATCH 05/55] fix: Trie.Dump must report the value of the empty key
 once

---
 trie/trie.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trie/trie.go b/trie/trie.go
index 83b97c7..84a0aa8 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -1034,6 +1034,7 @@ func (t *Trie) Dump(to db.Database, valueCallback func(key, value []byte)) error
 				}
 				if len(prefix) == 0 {
 					valueCallback(nil, valuebytes)
+					continue
 				}
 				if len(prefix)%2 != 0 {
 					return fmt.Errorf("odd length prefix(%s) found a (%d)bytes value",
-- 
2.43.0


From 335eff1d5102f0b9d2fad9ac15ddd8109ce3d3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 06/55] fix: RevertableTrie.RevertTo the first checkpoint must
 keep what was changed before it

RevertTo(0, root) dropped Live altogether, which also discarded the changes made
between the last commit and that checkpoint.
---
 trie/revertable.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/trie/revertable.go b/trie/revertable.go
index 5754d25..72c071d 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -15,6 +15,7 @@
 package trie
 
 import (
+	"bytes"
 	"fmt"
 	"sync"
 
@@ -317,10 +318,15 @@ func (r *RevertableTrie) RevertTo(checkPoint int, root []byte) error {
 	r.chkpts = r.chkpts[:checkPoint]
 	if len(r.chkpts) == 0 {
 		r.chkpts = nil
-		r.Live = nil
-	} else {
-		r.Live = r.Live.Inherit(root)
+		if r.Origin != nil {
+			if origin, err := r.Origin.HashValue(); err == nil && bytes.Equal(origin, root) {
+				// nothing was changed before the first checkpoint
+				r.Live = nil
+				return nil
+			}
+		}
 	}
+	r.Live = r.Live.Inherit(root)
 	return nil
 }
 
-- 
2.43.0


From 517e45cc13c996684d4e4f25b810d22706398459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:57 +0000
Subject: [PATCH 07/55] fix: an existence proof must lead to the child it
 claims to prove

---
 trie/proof.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/trie/proof.go b/trie/proof.go
index 6ae0ba0..316abf0 100644
--- a/trie/proof.go
+++ b/trie/proof.go
@@ -527,10 +527,44 @@ func (n *NodeProof) ExistenceMatch(keyprefix []byte) (matched bool, valueHash *c
 		return false, nil, keyprefix, ErrMismatchProof
 	}
 
+	if !n.provesChildAt(int(n.PType)) {
+		// the hashes in the proof do not lead to the child which PType claims
+		return false, nil, keyprefix, ErrMismatchProof
+	}
+
 	// The current path to the current node is matched, and the remaining keyprefix is returned
 	return true, nil, keyprefix[1:], nil
 }
 
+// PType is not a part of any hash. The child which is really proved by ChildProofs is decided by
+// the path from the child to the root of the complete merkle tree of all non-nil children.
+// Returns true if that path is the one of the child at the index.
+func (n *NodeProof) provesChildAt(index int) bool {
+	position, count := 0, 0
+	for i := 0; i < childrenLength; i++ {
+		if n.Header.HasChild(i) {
+			if i < index {
+				position++
+			}
+			count++
+		}
+	}
+	depth := 1
+	for 1<<uint(depth) < count {
+		depth++
+	}
+	items, err := n.ChildProofs.ToItems()
+	if err != nil || len(items) != depth {
+		return false
+	}
+	for i := 0; i < depth; i++ {
+		if items[i].Order != ((position>>uint(i))&0x1 == 1) {
+			return false
+		}
+	}
+	return true
+}
+
 func (n *NodeProof) ExistenceHash() ([]byte, error) {
 	if n.PType.IsProofExistence() == false {
 		return nil, fmt.Errorf("only ExistenceProof can Hash, but it's %s", n.PType)
-- 
2.43.0


From 353ad4a19944e76826b458b6edeabe26529a2dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:04 +0000
Subject: [PATCH 08/55] fix: RevertableTrie.SetTo must drop the checkpoints of
 the trie it replaces

---
 trie/revertable.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trie/revertable.go b/trie/revertable.go
index 72c071d..f823dcc 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -80,6 +80,7 @@ func (r *RevertableTrie) SetTo(newTrie *Trie) error {
 	}
 	r.Origin = newTrie
 	r.Live = nil
+	r.chkpts = nil
 	return nil
 }
 
-- 
2.43.0


From edaf42b5c86932394f52bfd3aa1b51d8368f44e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:52 +0000
Subject: [PATCH 09/55] fix: HistoryTree must not lose a node whose data cannot
 be read

A node known only by its hash was emptied when its data was missing or
could not be loaded, so the tree forgot hashes and values it had.
---
 trie/historytree.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 7659e9b..1d65c24 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -498,6 +498,13 @@ func (h *HistoryTree) MergeProof(key uint64, value []byte, proofs ProofChain) er
 	prefix := heightToPrefix(key)
 	tracers := make([]nodeTracer, 0)
 	_, _, leafvalue, exist, err := locateNode(h.root, prefix, h.adapter, &tracers)
+	if errors.Is(err, common.ErrNotFound) {
+		// The last node on the path is known only by its hash, the proof fills it in
+		if len(tracers) == HistoryTreeDepth-1 {
+			tracers[len(tracers)-1].nodeInPos.isLeaf = true
+		}
+		err = nil
+	}
 	if err != nil {
 		return fmt.Errorf("locateNode by %d -> (%x) failed: %v", key, prefix, err)
 	}
@@ -1027,8 +1034,8 @@ func (n *TreeNode) readFull(root []byte, adapter db.DataAdapter) error {
 		return common.ErrNil
 	}
 
-	n.Reset()
 	if len(root) == 0 || bytes.Compare(root, common.NilHashSlice) == 0 {
+		n.Reset()
 		return nil
 	}
 
@@ -1038,17 +1045,19 @@ func (n *TreeNode) readFull(root []byte, adapter db.DataAdapter) error {
 	}
 
 	if len(content) == 0 {
-		return nil
+		// The node must stay collapsed: its hash is all that is known about it
+		return common.ErrNotFound
 	}
 
+	loaded := NewTreeNode()
 	loadEntire := false
 
 	// When the first byte is 0xff, it indicates that the content is the serialization of the
 	// *serialNode; otherwise, it indicates that the content is only the value
 	if content[0] == 0x1 {
-		n.isLeaf = true
+		loaded.isLeaf = true
 	} else if content[0] == 0x0 {
-		n.isLeaf = false
+		loaded.isLeaf = false
 	} else if content[0] == 0xff {
 		loadEntire = true
 	} else {
@@ -1062,11 +1071,12 @@ func (n *TreeNode) readFull(root []byte, adapter db.DataAdapter) error {
 		if err = rtl.Decode(vr, sn); err != nil {
 			return err
 		}
-		n.fromSerialNode(adapter, sn)
-	} else {
-		err = n.decodeDescendants(adapter, vr)
+		loaded.fromSerialNode(adapter, sn)
+	} else if err = loaded.decodeDescendants(adapter, vr); err != nil {
+		return err
 	}
-	return err
+	*n = *loaded
+	return nil
 }
 
 // Remove all ancestors on the path indicated by prefix from the Branchs cache
@@ -1211,7 +1221,8 @@ func (n *TreeNode) _mergeHashItems(adapter db.DataAdapter, index int, value []by
 							if err := n.Children[p].putValue(adapter, nil, h.Bytes()); err != nil {
 								return err
 							}
-						} else {
+						} else if !n.Children[p].isCollapsed() {
+							// A collapsed node already holds this hash
 							if err := n.Children[p].putValue(adapter, nil, h.Bytes()); err != nil {
 								return err
 							}
-- 
2.43.0


From e63f66303d6b57cc812f38c5270c11ee8e6090de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:52 +0000
Subject: [PATCH 10/55] fix: HistoryTree.CollapseBefore must not dereference a
 missing sibling of a partial tree

---
 trie/historytree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trie/historytree.go b/trie/historytree.go
index 1d65c24..3b6cc18 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -371,6 +371,10 @@ func (h *HistoryTree) CollapseBefore(key uint64) error {
 	if parentNode.IsLeaf() {
 		return common.ErrIllegalStatus
 	}
+	if parentNode.Children[index-1] == nil {
+		// The tree is partial (restored from proofs), nothing to collapse
+		return nil
+	}
 	if parentNode.Children[index-1].isDirty {
 		return common.ErrIllegalStatus
 	}
-- 
2.43.0


From 3cd1b4d3a880d12edf987f5493c3bb6628df86d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:52 +0000
Subject: [PATCH 11/55] fix: the nodes made by HistoryTree.Chop must be saved
 when the tree is committed

---
 trie/historytree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trie/historytree.go b/trie/historytree.go
index 3b6cc18..7e7681e 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -1713,6 +1713,7 @@ func (n *TreeNode) _chop(index int, indexingChanged bool) (newnode *TreeNode, ch
 	}
 	node := NewTreeNode()
 	node.isLeaf = n.isLeaf
+	node.isDirty = true
 	if n.isLeaf {
 		if n.Leafs[index] == nil {
 			return nil, false, fmt.Errorf("no leaf value at index:%d", index)
-- 
2.43.0


From 164483bc3d7d9a0a2b92aa77e7aa657ba0b02755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 12/55] fix: MoreTimes.IsValid must accept a repeat of the
 first hash

---
 hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash.go b/hash.go
index 77dc56f..33ac974 100644
--- a/hash.go
+++ b/hash.go
@@ -123,7 +123,7 @@ func (ms MoreTimes) IsValid() bool {
 	if len(ms) == 0 {
 		return false
 	}
-	lastIndex := 0
+	lastIndex := -1
 	for _, m := range ms {
 		if !m.IsValid() {
 			return false
-- 
2.43.0


From 822e3d5a8009abc554fd932cc7f03aa5a649e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 13/55] fix: MerkleProofs.Deserialization must read whole
 fields from readers which deliver in pieces

---
 hash.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash.go b/hash.go
index 33ac974..1d10740 100644
--- a/hash.go
+++ b/hash.go
@@ -476,14 +476,14 @@ func writeArray(array []byte, buf []byte, w io.Writer) error {
 }
 
 func readArray(sizeBuf []byte, r io.Reader) ([]byte, error) {
-	_, err := r.Read(sizeBuf)
+	_, err := io.ReadFull(r, sizeBuf)
 	if err != nil {
 		return nil, err
 	}
 	size := binary.BigEndian.Uint16(sizeBuf)
 	array := make([]byte, size)
 	if size > 0 {
-		_, err = r.Read(array)
+		_, err = io.ReadFull(r, array)
 		if err != nil {
 			return array, err
 		}
@@ -573,7 +573,7 @@ func (p *MerkleProofs) Serialization(w io.Writer) error {
 
 func (p *MerkleProofs) Deserialization(r io.Reader) (shouldBeNil bool, err error) {
 	flag := make([]byte, 1)
-	_, err = r.Read(flag)
+	_, err = io.ReadFull(r, flag)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 9dc8d9fa9fc1f2fa089718205a6d1a35c047b661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:03 +0000
Subject: [PATCH 14/55] fix: MerkleProofs without paths (as read from JSON)
 must not be dereferenced

---
 hash.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/hash.go b/hash.go
index 1d10740..3530d46 100644
--- a/hash.go
+++ b/hash.go
@@ -323,7 +323,7 @@ func (p *MerkleProofs) BigKey(bigKey *big.Int, startAt int) int {
 
 	l := p.Len()
 	for i := 0; i < l; i++ {
-		bigKey.SetBit(bigKey, i+startAt, p.Paths.Bit(i))
+		bigKey.SetBit(bigKey, i+startAt, p.paths().Bit(i))
 	}
 	return l + startAt
 }
@@ -341,11 +341,22 @@ func (p *MerkleProofs) Append(h Hash, order bool) {
 		b = 0
 	}
 	if b == 1 {
+		if p.Paths == nil {
+			p.Paths = new(big.Int)
+		}
 		p.Paths.SetBit(p.Paths, len(p.Hashs)+p.Repeats.Count()-1, b)
 	}
 	// fmt.Printf("merkle proof append: %x, left:%t\n", h[:5], order)
 }
 
+// Paths is nil when it is missing in the source (JSON), which means all on the right side
+func (p *MerkleProofs) paths() *big.Int {
+	if p.Paths == nil {
+		return new(big.Int)
+	}
+	return p.Paths
+}
+
 // Whether the corresponding hash value should be placed left (true) or right (false) when
 // calculating the upper level hash
 func (p *MerkleProofs) Order(i int) bool {
@@ -448,7 +459,7 @@ func (p *MerkleProofs) Get(fullIndex int) (h Hash, order bool, err error) {
 		return Hash{}, false, ErrIllegalParams
 	}
 	h = p.Hashs[index]
-	if p.Paths.Bit(fullIndex) == 1 {
+	if p.paths().Bit(fullIndex) == 1 {
 		order = true
 	} else {
 		order = false
@@ -638,17 +649,17 @@ func (p MerkleProofs) String() string {
 	buf.Reset()
 
 	buf.WriteString("MProof{")
-	buf.WriteString(fmt.Sprintf("(0x%s,%s),", (*math.BigInt)(p.Paths).HexString(), p.Paths))
+	buf.WriteString(fmt.Sprintf("(0x%s,%s),", (*math.BigInt)(p.paths()).HexString(), p.Paths))
 	if len(p.Hashs) > 0 {
 		for i := 0; i < len(p.Hashs); i++ {
 			if i > 0 {
 				buf.WriteByte(',')
 			}
-			if p.Paths.Bit(i) == 0 {
+			if p.paths().Bit(i) == 0 {
 				buf.WriteByte('-')
 			}
 			buf.WriteString(fmt.Sprintf("%x", p.Hashs[i][:]))
-			if p.Paths.Bit(i) == 1 {
+			if p.paths().Bit(i) == 1 {
 				buf.WriteByte('-')
 			}
 		}
@@ -669,11 +680,11 @@ func (p *MerkleProofs) InfoString(level IndentLevel) string {
 	base := level.IndentString()
 	buf.WriteString("MerkleProofs{")
 
-	buf.WriteString(fmt.Sprintf("\n%s\tPath: 0x%x (%s)", base, p.Paths.Bytes(), p.Paths.String()))
+	buf.WriteString(fmt.Sprintf("\n%s\tPath: 0x%x (%s)", base, p.paths().Bytes(), p.Paths.String()))
 	_ = p._hashsIterate(func(h Hash, index, startFullIndex int, times int) error {
 		if times > 1 {
 			orders := big.NewInt(0)
-			pathBytes := p.Paths.Bytes()
+			pathBytes := p.paths().Bytes()
 			sub, err := SubBytes(pathBytes, startFullIndex, times)
 			if err != nil {
 				return err
@@ -690,7 +701,7 @@ func (p *MerkleProofs) InfoString(level IndentLevel) string {
 				base, index, startFullIndex, startFullIndex+times-1, (*math.BigInt)(orders).HexString(), h[:], times))
 		} else {
 			buf.WriteString(fmt.Sprintf("\n%s\t%d-(F:%d): (%d)%x",
-				base, index, startFullIndex, p.Paths.Bit(startFullIndex), h[:]))
+				base, index, startFullIndex, p.paths().Bit(startFullIndex), h[:]))
 		}
 		return nil
 	})
-- 
2.43.0


From fe1c51eb5250fa29738264b65f98df1c32a7b241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:35 +0000
Subject: [PATCH 15/55] fix: a proof chain with a nil step must not be
 dereferenced

---
 trie/proof.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trie/proof.go b/trie/proof.go
index 316abf0..bdc1c45 100644
--- a/trie/proof.go
+++ b/trie/proof.go
@@ -279,6 +279,9 @@ func NewBranchNodeProof(childIndex uint8, header NodeHeader, childProofs *common
 }
 
 func (n *NodeProof) Summary() string {
+	if n == nil {
+		return "NP<nil>"
+	}
 	if n.ValueHash != nil {
 		return fmt.Sprintf("NP{PTYPE:%s, Header:%s, Value:%x, Children:%s}", n.PType, n.Header, n.ValueHash[:5], n.ChildProofs.Summary())
 	} else {
@@ -287,6 +290,9 @@ func (n *NodeProof) Summary() string {
 }
 
 func (n *NodeProof) String() string {
+	if n == nil {
+		return "NP<nil>"
+	}
 	if n.ValueHash != nil {
 		return fmt.Sprintf("NP{PTYPE:%s, Header:%s, Value:%x, Children:%s}", n.PType, n.Header, n.ValueHash[:5], n.ChildProofs)
 	} else {
@@ -794,6 +800,9 @@ func (c ProofChain) BigKey() *big.Int {
 	key := big.NewInt(0)
 	pos := 0
 	for _, np := range c {
+		if np == nil {
+			continue
+		}
 		pos = np.ChildProofs.BigKey(key, pos)
 	}
 	return key
-- 
2.43.0


From b75ffc6e62903dda34bc84769b985a94b83f6968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:45 +0000
Subject: [PATCH 16/55] fix: LDB.Batch must report that the batch was not
 written

---
 db/ldb.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/db/ldb.go b/db/ldb.go
index 6aa8a14..9c2d006 100644
--- a/db/ldb.go
+++ b/db/ldb.go
@@ -101,8 +101,7 @@ func (db *LDB) Batch(batch Batch) error {
 	if !ok {
 		return fmt.Errorf("illegal batch type, expect *ldbBatch, but %v", batch)
 	}
-	db.db.Write(lb.b, nil)
-	return nil
+	return db.db.Write(lb.b, nil)
 }
 
 type ldbBatch struct {
-- 
2.43.0


From b55c1f0979f69b0e60cf1354e64a47d6d3c3f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:45 +0000
Subject: [PATCH 17/55] fix: cachedDB must not cache a missing key, it would be
 reported as existing

---
 db/cacheddb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/db/cacheddb.go b/db/cacheddb.go
index 962c98a..c017367 100644
--- a/db/cacheddb.go
+++ b/db/cacheddb.go
@@ -117,7 +117,10 @@ func (d *cachedDB) Get(key []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	d.cache.Add(ckey, r)
+	if r != nil {
+		// a missing key is not cached, Has takes what is in the cache as existing
+		d.cache.Add(ckey, r)
+	}
 	return r, nil
 }
 
-- 
2.43.0


From f91b1f8647f50d34a0dd67f86fb510adf2acf938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:46 +0000
Subject: [PATCH 18/55] fix: cachedDB must not hand out its cached slice

---
 db/cacheddb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/cacheddb.go b/db/cacheddb.go
index c017367..4428fc4 100644
--- a/db/cacheddb.go
+++ b/db/cacheddb.go
@@ -110,7 +110,7 @@ func (d *cachedDB) Get(key []byte) ([]byte, error) {
 	v, ok := d.cache.Get(ckey)
 	if ok {
 		atomic.AddUint64(&(d.hitcount), 1)
-		return v.([]byte), nil
+		return CopySlice(v.([]byte)), nil
 	}
 	atomic.AddUint64(&(d.misscount), 1)
 	r, err := d.baseDB.Get(key)
@@ -119,7 +119,7 @@ func (d *cachedDB) Get(key []byte) ([]byte, error) {
 	}
 	if r != nil {
 		// a missing key is not cached, Has takes what is in the cache as existing
-		d.cache.Add(ckey, r)
+		d.cache.Add(ckey, CopySlice(r))
 	}
 	return r, nil
 }
-- 
2.43.0


From 3e40fa5362baa35427e9ae1f36145ff056ed3038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:47 +0000
Subject: [PATCH 19/55] fix: memBatch must keep what it was given, not the
 caller's slices

---
 db/memdb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/memdb.go b/db/memdb.go
index 857f88b..9d4abc7 100644
--- a/db/memdb.go
+++ b/db/memdb.go
@@ -123,12 +123,12 @@ func (m *MemDB) Close() error {
 }
 
 func (b *memBatch) Put(key, value []byte) error {
-	b.cmds = append(b.cmds, &batcher{typ: putBatcher, key: key, value: value})
+	b.cmds = append(b.cmds, &batcher{typ: putBatcher, key: CopySlice(key), value: CopySlice(value)})
 	return nil
 }
 
 func (b *memBatch) Delete(key []byte) error {
-	b.cmds = append(b.cmds, &batcher{typ: deleteBatcher, key: key})
+	b.cmds = append(b.cmds, &batcher{typ: deleteBatcher, key: CopySlice(key)})
 	return nil
 }
 
-- 
2.43.0


From c47c9c309d2de2ef53bd4b6457b81b20a02bf0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:48 +0000
Subject: [PATCH 20/55] fix: a batch of a key converting database must reach
 the underlying database as its own batch

---
 db/adapters.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/db/adapters.go b/db/adapters.go
index dd99fa5..a68f7e8 100644
--- a/db/adapters.go
+++ b/db/adapters.go
@@ -68,6 +68,14 @@ func (k *KeyBatch) Size() int {
 	return k.batch.Size()
 }
 
+// unwrapKeyBatch returns the batch of the underlying database
+func unwrapKeyBatch(batch Batch) Batch {
+	if kb, ok := batch.(*KeyBatch); ok {
+		return kb.batch
+	}
+	return batch
+}
+
 type keyPrefixedDataAdapter struct {
 	database  Database
 	keyPrefix []byte
@@ -122,7 +130,7 @@ func (k *keyPrefixedDataAdapter) NewBatch() Batch {
 }
 
 func (k *keyPrefixedDataAdapter) SaveBatch(batch Batch) error {
-	return k.database.Batch(batch)
+	return k.database.Batch(unwrapKeyBatch(batch))
 }
 
 /*
@@ -201,7 +209,7 @@ func (d *KeyDatabase) NewBatch() Batch {
 }
 
 func (d *KeyDatabase) Batch(batch Batch) error {
-	return d.database.Batch(batch)
+	return d.database.Batch(unwrapKeyBatch(batch))
 }
 
 func (d *KeyDatabase) Close() error {
-- 
2.43.0


From afad7ac087ddf28d9ac83b67f30bbc3d9db54986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:48 +0000
Subject: [PATCH 21/55] fix: BatchWrite must write the last batch even if its
 last item is skipped

---
 db/types.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/db/types.go b/db/types.go
index f0eeaff..e554021 100644
--- a/db/types.go
+++ b/db/types.go
@@ -99,7 +99,7 @@ func BatchWrite(dbase Database, threshold, length int,
 			continue
 		}
 		index = index + 1
-		if index == threshold || i == (length-1) {
+		if index == threshold {
 			if err = dbase.Batch(batch); err != nil {
 				return count, err
 			}
@@ -107,5 +107,12 @@ func BatchWrite(dbase Database, threshold, length int,
 			index = 0
 		}
 	}
+	if index > 0 {
+		// the rest, whether or not the last one was written to the batch
+		if err = dbase.Batch(batch); err != nil {
+			return count, err
+		}
+		count = count + index
+	}
 	return count, nil
 }
-- 
2.43.0


From ee84b8b8d4b381f247b53c9fe2bd345f7e5ef1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:49 +0000
Subject: [PATCH 22/55] fix: a batch of a read only database must refuse, not
 be nil

---
 db/readonly.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/db/readonly.go b/db/readonly.go
index 849868e..ed22cde 100644
--- a/db/readonly.go
+++ b/db/readonly.go
@@ -6,6 +6,15 @@ type readOnlyDB struct {
 	dbase Database
 }
 
+// readOnlyBatch refuses everything
+type readOnlyBatch struct{}
+
+func (readOnlyBatch) Put(key, value []byte) error { return ErrReadOnly }
+
+func (readOnlyBatch) Delete(key []byte) error { return ErrReadOnly }
+
+func (readOnlyBatch) Size() int { return 0 }
+
 func ReadOnly(dbase Database) Database {
 	switch t := dbase.(type) {
 	case *readOnlyDB:
@@ -31,7 +40,7 @@ func (r *readOnlyDB) Delete(key []byte) error {
 }
 
 func (r *readOnlyDB) NewBatch() Batch {
-	return nil
+	return readOnlyBatch{}
 }
 
 func (r *readOnlyDB) Batch(batch Batch) error {
-- 
2.43.0


From fb2342bde0e9f852ff6920f2d25c1643742de15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:30 +0000
Subject: [PATCH 23/55] fix: the rlp list iterator must stop at a malformed
 value

---
 rlp/iterator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rlp/iterator.go b/rlp/iterator.go
index 6be5745..cb3ad8d 100644
--- a/rlp/iterator.go
+++ b/rlp/iterator.go
@@ -44,9 +44,15 @@ func (it *listIterator) Next() bool {
 		return false
 	}
 	_, t, c, err := readKind(it.data)
+	if err != nil {
+		// nothing can be told about what follows
+		it.next = nil
+		it.data = nil
+		it.err = err
+		return false
+	}
 	it.next = it.data[:t+c]
 	it.data = it.data[t+c:]
-	it.err = err
 	return true
 }
 
-- 
2.43.0


From b6e773f0c5b19d225ffc2485e3b5395076c75d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:31 +0000
Subject: [PATCH 24/55] fix: rlp.Stream lacks the String method generated
 decoders call

---
 rlp/decode.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rlp/decode.go b/rlp/decode.go
index f6cb436..d3bc3d8 100644
--- a/rlp/decode.go
+++ b/rlp/decode.go
@@ -655,6 +655,13 @@ func (s *Stream) Bytes() ([]byte, error) {
 	}
 }
 
+// String reads an RLP string and returns its contents as a Go string. It is called by the
+// decoders which rlpgen generates.
+func (s *Stream) String() (string, error) {
+	b, err := s.Bytes()
+	return string(b), err
+}
+
 // ReadBytes decodes the next RLP value and stores the result in b.
 // The value size must match len(b) exactly.
 func (s *Stream) ReadBytes(b []byte) error {
-- 
2.43.0


From 3d33519d1ab5bafc11e1c9dd5339be8c3955b612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 25/55] fix: abi could not pack the tuples it unpacks where
 field names conflict

---
 abi/type.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/abi/type.go b/abi/type.go
index 17be76f..c2f134f 100644
--- a/abi/type.go
+++ b/abi/type.go
@@ -311,9 +311,16 @@ func (t Type) pack(v reflect.Value) ([]byte, error) {
 		//     head(X(i)) = enc(len(head(X(1)) ... head(X(k)) tail(X(1)) ... tail(X(i-1))))
 		//     tail(X(i)) = enc(X(i))
 		// otherwise, i.e. if Ti is a dynamic type.
-		fieldmap, err := mapArgNamesToStructFields(t.TupleRawNames, v)
-		if err != nil {
-			return nil, err
+		// A value of the tuple's own type has its fields in order. Their names may differ from
+		// what the raw names map to, where these conflict.
+		ownType := v.Type() == t.TupleType
+		var fieldmap map[string]string
+		if !ownType {
+			var err error
+			fieldmap, err = mapArgNamesToStructFields(t.TupleRawNames, v)
+			if err != nil {
+				return nil, err
+			}
 		}
 		// Calculate prefix occupied size.
 		offset := 0
@@ -322,7 +329,12 @@ func (t Type) pack(v reflect.Value) ([]byte, error) {
 		}
 		var ret, tail []byte
 		for i, elem := range t.TupleElems {
-			field := v.FieldByName(fieldmap[t.TupleRawNames[i]])
+			var field reflect.Value
+			if ownType {
+				field = v.Field(i)
+			} else {
+				field = v.FieldByName(fieldmap[t.TupleRawNames[i]])
+			}
 			if !field.IsValid() {
 				return nil, fmt.Errorf("field %s for tuple not found in the given struct", t.TupleRawNames[i])
 			}
-- 
2.43.0


From b5fe00197822bc5dd20eaea584a550cc31bc9a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:08 +0000
Subject: [PATCH 26/55] fix: abi packing crashed on nil and packed byte arrays
 of a wrong length

---
 abi/error_handling.go | 12 ++++++++----
 abi/reflect.go        |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/abi/error_handling.go b/abi/error_handling.go
index 7add707..4aeaeed 100644
--- a/abi/error_handling.go
+++ b/abi/error_handling.go
@@ -61,6 +61,9 @@ func sliceTypeCheck(t Type, val reflect.Value) error {
 // typeCheck checks that the given reflection value can be assigned to the reflection
 // type in t.
 func typeCheck(t Type, value reflect.Value) error {
+	if !value.IsValid() || (value.Kind() == reflect.Ptr && value.IsNil()) {
+		return typeErr(t.GetType(), "nil")
+	}
 	if t.T == SliceTy || t.T == ArrayTy {
 		return sliceTypeCheck(t, value)
 	}
@@ -68,11 +71,12 @@ func typeCheck(t Type, value reflect.Value) error {
 	// Check base type validity. Element types will be checked later on.
 	if t.GetType().Kind() != value.Kind() {
 		return typeErr(t.GetType().Kind(), value.Kind())
-	} else if t.T == FixedBytesTy && t.Size != value.Len() {
-		return typeErr(t.GetType(), value.Type())
-	} else {
-		return nil
+	} else if t.T == FixedBytesTy || t.T == AddressTy || t.T == FunctionTy {
+		if value.Len() != t.GetType().Len() || value.Type().Elem() != reflect.TypeOf(byte(0)) {
+			return typeErr(t.GetType(), value.Type())
+		}
 	}
+	return nil
 }
 
 // typeErr returns a formatted type casting error.
diff --git a/abi/reflect.go b/abi/reflect.go
index 7917fa9..c12cf4f 100644
--- a/abi/reflect.go
+++ b/abi/reflect.go
@@ -50,7 +50,7 @@ func ConvertType(in interface{}, proto interface{}) interface{} {
 // indirect recursively dereferences the value until it either gets the value
 // or finds a big.Int
 func indirect(v reflect.Value) reflect.Value {
-	if v.Kind() == reflect.Ptr && v.Elem().Type() != reflect.TypeOf(big.Int{}) {
+	if v.Kind() == reflect.Ptr && !v.IsNil() && v.Elem().Type() != reflect.TypeOf(big.Int{}) {
 		return indirect(v.Elem())
 	}
 	return v
-- 
2.43.0


From d59ccf4a9e6555d7c340b900797b0409b83e2d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:10 +0000
Subject: [PATCH 27/55] fix: abi read only the low 8 bytes of the offset of an
 array

---
 abi/unpack.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/abi/unpack.go b/abi/unpack.go
index f7d3080..238af39 100644
--- a/abi/unpack.go
+++ b/abi/unpack.go
@@ -225,9 +225,9 @@ func toGoType(index int, t Type, output []byte) (interface{}, error) {
 		return forEachUnpack(t, output[begin:], 0, length)
 	case ArrayTy:
 		if isDynamicType(*t.Elem) {
-			offset := binary.BigEndian.Uint64(returnOutput[len(returnOutput)-8:])
-			if offset > uint64(len(output)) {
-				return nil, fmt.Errorf("abi: toGoType offset greater than output length: offset: %d, len(output): %d", offset, len(output))
+			offset, err := tuplePointsTo(index, output)
+			if err != nil {
+				return nil, err
 			}
 			return forEachUnpack(t, output[offset:], 0, t.Size)
 		}
@@ -283,7 +283,7 @@ func lengthPrefixPointsTo(index int, output []byte) (start int, length int, err
 	return
 }
 
-// tuplePointsTo resolves the location reference for dynamic tuple.
+// tuplePointsTo resolves the location reference for dynamic tuple or array.
 func tuplePointsTo(index int, output []byte) (start int, err error) {
 	offset := new(big.Int).SetBytes(output[index : index+32])
 	outputLen := big.NewInt(int64(len(output)))
-- 
2.43.0


From 5c233e7eecff18823c912c681c19c531a1dddfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 28/55] fix: the packed call of a method without arguments
 shared the memory of its id

---
 abi/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/abi.go b/abi/abi.go
index e040ffd..bc56966 100644
--- a/abi/abi.go
+++ b/abi/abi.go
@@ -78,7 +78,7 @@ func (abi ABI) Pack(name string, args ...interface{}) ([]byte, error) {
 		return nil, err
 	}
 	// Pack up the method ID too if not a constructor and return
-	return append(method.ID, arguments...), nil
+	return append(append(make([]byte, 0, len(method.ID)+len(arguments)), method.ID...), arguments...), nil
 }
 
 func (abi ABI) PackEventArgs(name string, args ...interface{}) ([]byte, error) {
-- 
2.43.0


From f600b84fdc825a9993e500ef9515a08620cb9de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:40 +0000
Subject: [PATCH 29/55] fix: abi types of impossible sizes crashed instead of
 being refused

---
 abi/type.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/abi/type.go b/abi/type.go
index c2f134f..355f641 100644
--- a/abi/type.go
+++ b/abi/type.go
@@ -61,6 +61,9 @@ type Type struct {
 	TupleType     reflect.Type // Underlying struct of the tuple
 }
 
+// maxArrayBytes is the most an array of fixed size may take, in the encoding or in memory.
+const maxArrayBytes = 1<<31 - 1
+
 var (
 	// typeRegex parses the abi sub types
 	typeRegex = regexp.MustCompile("([a-zA-Z]+)(([0-9]+)(x([0-9]+))?)?")
@@ -107,6 +110,9 @@ func NewType(t string, internalType string, components []ArgumentMarshaling) (ty
 			if err != nil {
 				return Type{}, fmt.Errorf("abi: error parsing variable size: %v", err)
 			}
+			if typ.Size > maxArrayBytes/arrayElemBytes(embeddedType) {
+				return Type{}, fmt.Errorf("abi: array type %s is too large", t)
+			}
 			typ.stringKind = embeddedType.stringKind + sliced
 		} else {
 			return Type{}, fmt.Errorf("invalid formatting of array type")
@@ -154,6 +160,9 @@ func NewType(t string, internalType string, components []ArgumentMarshaling) (ty
 		if varSize == 0 {
 			typ.T = BytesTy
 		} else {
+			if varSize > 32 {
+				return Type{}, fmt.Errorf("unsupported arg type: %s", t)
+			}
 			typ.T = FixedBytesTy
 			typ.Size = varSize
 		}
@@ -223,6 +232,19 @@ func NewType(t string, internalType string, components []ArgumentMarshaling) (ty
 	return
 }
 
+// arrayElemBytes returns the number of bytes an element takes in an array: the larger of those
+// in the encoding and those in memory.
+func arrayElemBytes(elem Type) int {
+	size := 32
+	if n := getTypeSize(elem); n > size {
+		size = n
+	}
+	if n := elem.GetType().Size(); n > uintptr(size) {
+		size = int(n)
+	}
+	return size
+}
+
 // GetType returns the reflection type of the ABI type.
 func (t Type) GetType() reflect.Type {
 	switch t.T {
-- 
2.43.0


From 7befb268577888c717b99cf93435030025376b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:54 +0000
Subject: [PATCH 30/55] fix: malformed selectors crashed ParseSelector or were
 accepted

---
 abi/selector_parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/abi/selector_parser.go b/abi/selector_parser.go
index d5472e3..fb0a2cb 100644
--- a/abi/selector_parser.go
+++ b/abi/selector_parser.go
@@ -85,14 +85,14 @@ func parseElementaryType(unescapedSelector string) (string, string, error) {
 
 func parseCompositeType(unescapedSelector string) ([]interface{}, string, error) {
 	if len(unescapedSelector) == 0 || unescapedSelector[0] != '(' {
-		return nil, "", fmt.Errorf("expected '(', got %c", unescapedSelector[0])
+		return nil, "", fmt.Errorf("expected '(', got '%s'", unescapedSelector)
 	}
 	parsedType, rest, err := parseType(unescapedSelector[1:])
 	if err != nil {
 		return nil, "", fmt.Errorf("failed to parse type: %v", err)
 	}
 	result := []interface{}{parsedType}
-	for len(rest) > 0 && rest[0] != ')' {
+	for len(rest) > 0 && rest[0] == ',' {
 		parsedType, rest, err = parseType(rest[1:])
 		if err != nil {
 			return nil, "", fmt.Errorf("failed to parse type: %v", err)
@@ -161,6 +161,9 @@ func ParseSelector(unescapedSelector string) (SelectorMarshaling, error) {
 		if err != nil {
 			return SelectorMarshaling{}, fmt.Errorf("failed to parse selector '%s': %v", unescapedSelector, err)
 		}
+		if args[len(args)-1] == "[]" {
+			return SelectorMarshaling{}, fmt.Errorf("failed to parse selector '%s': unexpected string '[]'", unescapedSelector)
+		}
 	}
 	if len(rest) > 0 {
 		return SelectorMarshaling{}, fmt.Errorf("failed to parse selector '%s': unexpected string '%s'", unescapedSelector, rest)
-- 
2.43.0


From cb8903d09613ac7d5ccb55980f99741c242e59de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:12 +0000
Subject: [PATCH 31/55] fix: events with indexed arguments behind others were
 decoded from the wrong topics

---
 abi/abi.go      |  4 ++--
 abi/thinkium.go | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/abi/abi.go b/abi/abi.go
index bc56966..bbc782e 100644
--- a/abi/abi.go
+++ b/abi/abi.go
@@ -460,11 +460,11 @@ func (abi ABI) EventString(topics []common.Hash, data []byte) (string, error) {
 		}
 		if arg.Indexed {
 			indexes++
-			j := 1 + i
+			j := indexes
 			if j >= len(topics) {
 				return "", fmt.Errorf("%d topic is missing", j)
 			}
-			value, err := toGoType(0, arg.Type, topics[j][:])
+			value, err := topicValue(arg.Type, topics[j])
 			if err != nil {
 				return "", fmt.Errorf("%d topic unpack failed: %v", j, err)
 			}
diff --git a/abi/thinkium.go b/abi/thinkium.go
index 8ee5dda..e293f12 100644
--- a/abi/thinkium.go
+++ b/abi/thinkium.go
@@ -72,6 +72,16 @@ func (arguments Arguments) copyTupleEvent(v interface{}, marshalledValues []inte
 	return nil
 }
 
+// topicValue reads the value of an indexed argument from its topic. The topic of a composite type
+// holds a hash, from which the value cannot be read.
+func topicValue(t Type, topic common.Hash) (interface{}, error) {
+	switch t.T {
+	case StringTy, BytesTy, SliceTy, ArrayTy, TupleTy:
+		return nil, fmt.Errorf("abi: the topic of an indexed %s holds its hash only", t)
+	}
+	return toGoType(0, t, topic[:])
+}
+
 func (abi ABI) UnpackEvent(v interface{}, topics []common.Hash, data []byte) error {
 	if len(topics) == 0 {
 		return errors.New("empty topics")
@@ -98,20 +108,19 @@ func (abi ABI) UnpackEvent(v interface{}, topics []common.Hash, data []byte) err
 	for i, arg := range args {
 		if arg.Indexed {
 			indexes++
-			j := 1 + i
+			j := indexes
 			if j >= len(topics) {
 				return fmt.Errorf("%d topic is missing", j)
 			}
-			value, err := toGoType(0, arg.Type, topics[j][:])
+			value, err := topicValue(arg.Type, topics[j])
 			if err != nil {
 				return fmt.Errorf("%d topic unpack failed: %w", j, err)
 			}
 			ret = append(ret, value)
 		} else {
-			break
+			ret = append(ret, values[i-indexes])
 		}
 	}
-	ret = append(ret, values...)
 	return args.CopyEvent(v, ret)
 }
 
-- 
2.43.0


From b0232edd845d0bcc1fc0dc68cfe1c6e91e6b9886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:14 +0000
Subject: [PATCH 32/55] fix: event topic filters lost the sign of big numbers
 and crashed on wide values

---
 abi/topics.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/abi/topics.go b/abi/topics.go
index 5ff3aa6..68c3bb8 100644
--- a/abi/topics.go
+++ b/abi/topics.go
@@ -24,6 +24,7 @@ import (
 	"reflect"
 
 	"github.com/ThinkiumGroup/go-common"
+	"github.com/ThinkiumGroup/go-common/math"
 )
 
 // MakeTopics converts a filter query argument list into a filter topic set.
@@ -40,8 +41,10 @@ func MakeTopics(query ...[]interface{}) ([][]common.Hash, error) {
 			case common.Address:
 				copy(topic[common.HashLength-common.AddressLength:], rule[:])
 			case *big.Int:
-				blob := rule.Bytes()
-				copy(topic[common.HashLength-len(blob):], blob)
+				if rule == nil {
+					return nil, errors.New("nil number in topic filter")
+				}
+				copy(topic[:], math.U256Bytes(new(big.Int).Set(rule)))
 			case bool:
 				if rule {
 					topic[common.HashLength-1] = 1
@@ -85,7 +88,7 @@ func MakeTopics(query ...[]interface{}) ([][]common.Hash, error) {
 				val := reflect.ValueOf(rule)
 				switch {
 				// static byte array
-				case val.Kind() == reflect.Array && reflect.TypeOf(rule).Elem().Kind() == reflect.Uint8:
+				case val.Kind() == reflect.Array && val.Type().Elem() == reflect.TypeOf(byte(0)) && val.Len() <= common.HashLength:
 					reflect.Copy(reflect.ValueOf(topic[:val.Len()]), val)
 				default:
 					return nil, fmt.Errorf("unsupported indexed type: %T", rule)
-- 
2.43.0


From b5152ee688d16eaff8260272039257f1ab6f3b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:31 +0000
Subject: [PATCH 33/55] fix: unpacking abi values into a destination that does
 not fit crashed

---
 abi/argument.go |  6 ++++++
 abi/reflect.go  | 13 +++++++++++--
 abi/thinkium.go |  3 +++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/abi/argument.go b/abi/argument.go
index 6cfbab3..a3d3692 100644
--- a/abi/argument.go
+++ b/abi/argument.go
@@ -126,6 +126,9 @@ func (arguments Arguments) Copy(v interface{}, values []interface{}) error {
 	if reflect.Ptr != reflect.ValueOf(v).Kind() {
 		return fmt.Errorf("abi: Unpack(non-pointer %T)", v)
 	}
+	if reflect.ValueOf(v).IsNil() {
+		return fmt.Errorf("abi: Unpack(nil %T)", v)
+	}
 	if len(values) == 0 {
 		if len(arguments.NonIndexed()) != 0 {
 			return errors.New("abi: attempting to copy no values while arguments are expected")
@@ -144,6 +147,9 @@ func (arguments Arguments) copyAtomic(v interface{}, marshalledValues interface{
 	src := reflect.ValueOf(marshalledValues)
 
 	if dst.Kind() == reflect.Struct {
+		if dst.NumField() == 0 {
+			return fmt.Errorf("abi: cannot unmarshal %v in to %v, which has no fields", src.Type(), dst.Type())
+		}
 		return set(dst.Field(0), src)
 	}
 	return set(dst, src)
diff --git a/abi/reflect.go b/abi/reflect.go
index c12cf4f..eb7f84f 100644
--- a/abi/reflect.go
+++ b/abi/reflect.go
@@ -102,14 +102,20 @@ func set(dst, src reflect.Value) error {
 	case dstType.Kind() == reflect.Interface && dst.Elem().IsValid() && (dst.Elem().Type().Kind() == reflect.Ptr || dst.Elem().CanSet()):
 		return set(dst.Elem(), src)
 	case dstType.Kind() == reflect.Ptr && dstType.Elem() != reflect.TypeOf(big.Int{}):
+		if dst.IsNil() {
+			if !dst.CanSet() {
+				return fmt.Errorf("abi: cannot unmarshal %v in to nil %v", src.Type(), dst.Type())
+			}
+			dst.Set(reflect.New(dstType.Elem()))
+		}
 		return set(dst.Elem(), src)
 	case srcType.AssignableTo(dstType) && dst.CanSet():
 		dst.Set(src)
 	case dstType.Kind() == reflect.Slice && srcType.Kind() == reflect.Slice && dst.CanSet():
 		return setSlice(dst, src)
-	case dstType.Kind() == reflect.Array:
+	case dstType.Kind() == reflect.Array && (indirect(src).Kind() == reflect.Array || indirect(src).Kind() == reflect.Slice):
 		return setArray(dst, src)
-	case dstType.Kind() == reflect.Struct:
+	case dstType.Kind() == reflect.Struct && srcType.Kind() == reflect.Struct:
 		return setStruct(dst, src)
 	default:
 		return fmt.Errorf("abi: cannot unmarshal %v in to %v", src.Type(), dst.Type())
@@ -156,6 +162,9 @@ func setArray(dst, src reflect.Value) error {
 }
 
 func setStruct(dst, src reflect.Value) error {
+	if dst.NumField() < src.NumField() {
+		return fmt.Errorf("abi: cannot unmarshal %v in to %v, which has fewer fields", src.Type(), dst.Type())
+	}
 	for i := 0; i < src.NumField(); i++ {
 		srcField := src.Field(i)
 		dstField := dst.Field(i)
diff --git a/abi/thinkium.go b/abi/thinkium.go
index e293f12..a8a6c01 100644
--- a/abi/thinkium.go
+++ b/abi/thinkium.go
@@ -21,6 +21,9 @@ func (arguments Arguments) CopyEvent(v interface{}, values []interface{}) error
 	if reflect.Ptr != reflect.ValueOf(v).Kind() {
 		return fmt.Errorf("abi: event Unpack(non-pointer %T)", v)
 	}
+	if reflect.ValueOf(v).IsNil() {
+		return fmt.Errorf("abi: event Unpack(nil %T)", v)
+	}
 	if len(values) == 0 {
 		if len(arguments.NonIndexed()) != 0 {
 			return errors.New("abi: event attempting to copy no values while arguments are expected")
-- 
2.43.0


From 283a1cd85ff272794ca4801ff7d1b30bba4eb9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:41 +0000
Subject: [PATCH 34/55] fix: math.Exp must not change its base

---
 math/big.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/big.go b/math/big.go
index 1da29d3..0ead476 100644
--- a/math/big.go
+++ b/math/big.go
@@ -258,6 +258,7 @@ func S256(x *big.Int) *big.Int {
 // Courtesy @karalabe and @chfast
 func Exp(base, exponent *big.Int) *big.Int {
 	result := big.NewInt(1)
+	base = new(big.Int).Set(base)
 
 	for _, word := range exponent.Bits() {
 		for i := 0; i < wordBits; i++ {
-- 
2.43.0


From af919af82ecbc2aaf2af837136b21e9f2d24d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:42 +0000
Subject: [PATCH 35/55] fix: rationals were rounded to integers with the
 precision of float64

---
 math/big.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/math/big.go b/math/big.go
index 0ead476..222f076 100644
--- a/math/big.go
+++ b/math/big.go
@@ -19,7 +19,6 @@ package math
 
 import (
 	"fmt"
-	"math"
 	"math/big"
 )
 
@@ -407,24 +406,23 @@ func CopyBigRat(x *big.Rat) *big.Rat {
 // return the smallest integer not less than r. If r is too large or divided by 0,
 // nomeans is true, and x is meaningless
 func RatToInt64(r *big.Rat) (x int64, nomeans bool) {
-	f, _ := r.Float64()
-	if math.IsNaN(f) || math.IsInf(f, 0) || f > float64(math.MaxInt64) || f < float64(math.MinInt64) {
-		return 0, true
+	q, m := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
+	if m.Sign() > 0 {
+		q.Add(q, Big1)
 	}
-	x = int64(f)
-	if float64(x) < f {
-		x += 1
+	if !q.IsInt64() {
+		return 0, true
 	}
-	return x, false
+	return q.Int64(), false
 }
 
 // lower round of r
 func RatToInt64Floor(r *big.Rat) (x int64, nomeans bool) {
-	f, _ := r.Float64()
-	if math.IsNaN(f) || math.IsInf(f, 0) || f > float64(math.MaxInt64) || f < float64(math.MinInt64) {
+	q := new(big.Int).Div(r.Num(), r.Denom())
+	if !q.IsInt64() {
 		return 0, true
 	}
-	return int64(f), false
+	return q.Int64(), false
 }
 
 func CompareBigInt(a, b *big.Int) int {
-- 
2.43.0


From ccb7bbc52ce91eb226e26ee22c739fa553d11aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:44 +0000
Subject: [PATCH 36/55] fix: a nil BigInt counts as zero in comparisons and as
 text too

---
 math/big.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/math/big.go b/math/big.go
index 222f076..84063f4 100644
--- a/math/big.go
+++ b/math/big.go
@@ -622,17 +622,11 @@ func (b *BigInt) IsZero() bool {
 }
 
 func (b *BigInt) Compare(o *BigInt) int {
-	if b.IsZero() && o.IsZero() {
-		return 0
-	}
-	return CompareBigInt((*big.Int)(b), (*big.Int)(o))
+	return b.MustInt().Cmp(o.MustInt())
 }
 
 func (b *BigInt) CompareInt(i *big.Int) int {
-	if b.IsZero() && (*BigInt)(i).IsZero() {
-		return 0
-	}
-	return CompareBigInt((*big.Int)(b), i)
+	return b.MustInt().Cmp((*BigInt)(i).MustInt())
 }
 
 func (b *BigInt) MustPositive() *BigInt {
@@ -647,7 +641,7 @@ func (b *BigInt) String() string {
 }
 
 func (b *BigInt) HexString() string {
-	bs := (*big.Int)(b).Bytes()
+	bs := b.MustInt().Bytes()
 	if len(bs) == 0 {
 		return "0"
 	}
-- 
2.43.0


From da09932020af73c452e4e64980ccd18678d5adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:16 +0000
Subject: [PATCH 37/55] fix: cutting byte strings panicked on sizes that are
 not positive or huge

---
 bytes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bytes.go b/bytes.go
index 6112388..99a6a97 100644
--- a/bytes.go
+++ b/bytes.go
@@ -230,7 +230,7 @@ func LeftPadBytes(slice []byte, l int) []byte {
 
 // Divide bs into slices according to size, and each slice length is size
 func SplitBytes(bs []byte, size int) ([][]byte, error) {
-	if len(bs)%size != 0 {
+	if size <= 0 || len(bs)%size != 0 {
 		return nil, errors.New(fmt.Sprintf("input length illegal: (%d)%%(%d)!=0", len(bs), size))
 	}
 	r := make([][]byte, 0, len(bs)/size)
@@ -359,7 +359,7 @@ func SubBytes(bs []byte, from, size int) ([]byte, error) {
 	if from >= bsBitSize {
 		return nil, nil
 	}
-	if size+from > bsBitSize {
+	if size > bsBitSize-from {
 		size = bsBitSize - from
 	}
 
-- 
2.43.0


From a696ad48781f3dcfe88aaa2326ac185793a68029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:14 +0000
Subject: [PATCH 38/55] fix: SetBytes with fewer bytes kept the first bytes of
 the old value

---
 basic.go | 12 ++++++++----
 bytes.go |  6 ++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/basic.go b/basic.go
index 193d83a..ec476dd 100644
--- a/basic.go
+++ b/basic.go
@@ -407,7 +407,8 @@ func (nid *NodeID) SetBytes(b []byte) {
 	if len(b) > len(nid) {
 		b = b[len(b)-NodeIDBytes:]
 	}
-	copy(nid[NodeIDBytes-len(b):], b)
+	n := copy(nid[NodeIDBytes-len(b):], b)
+	clearBytes(nid[:NodeIDBytes-n])
 }
 
 func (nid NodeID) MarshalText() ([]byte, error) {
@@ -1282,7 +1283,8 @@ func (a *Address) SetBytes(b []byte) {
 	if len(b) > len(a) {
 		b = b[len(b)-AddressLength:]
 	}
-	copy(a[AddressLength-len(b):], b)
+	n := copy(a[AddressLength-len(b):], b)
+	clearBytes(a[:AddressLength-n])
 }
 
 // MarshalText returns the hex representation of a.
@@ -1467,7 +1469,8 @@ func (h *Hash) SetBytes(b []byte) {
 		b = b[len(b)-HashLength:]
 	}
 
-	copy(h[HashLength-len(b):], b)
+	n := copy(h[HashLength-len(b):], b)
+	clearBytes(h[:HashLength-n])
 }
 
 // Generate implements testing/quick.Generator.
@@ -1661,7 +1664,8 @@ func (s *Seed) SetBytes(b []byte) *Seed {
 		b = b[len(b)-SeedLength:]
 	}
 
-	copy(s[SeedLength-len(b):], b)
+	n := copy(s[SeedLength-len(b):], b)
+	clearBytes(s[:SeedLength-n])
 	return s
 }
 
diff --git a/bytes.go b/bytes.go
index 99a6a97..3659cf6 100644
--- a/bytes.go
+++ b/bytes.go
@@ -156,6 +156,12 @@ func CopyBytes(b []byte) (copiedBytes []byte) {
 	return
 }
 
+func clearBytes(b []byte) {
+	for i := range b {
+		b[i] = 0
+	}
+}
+
 // hasHexPrefix validates str begins with '0x' or '0X'.
 func HasHexPrefix(str string) bool {
 	return len(str) >= 2 && str[0] == '0' && (str[1] == 'x' || str[1] == 'X')
-- 
2.43.0


From 14d7493ac89e170a25919d23665bbc77f368866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:15 +0000
Subject: [PATCH 39/55] fix: NodeIDSet mixed up positions after Delete and
 listed empty ids, unlocked

---
 basic.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/basic.go b/basic.go
index ec476dd..d486a20 100644
--- a/basic.go
+++ b/basic.go
@@ -650,9 +650,14 @@ func (ns *NodeIDSet) Delete(id *NodeID) {
 	copy(ns.l[i:], ns.l[i+1:])
 	ns.l = ns.l[:len(ns.l)-1]
 	delete(ns.m, *id)
+	for ; i < len(ns.l); i++ {
+		ns.m[*(ns.l[i])] = i
+	}
 }
 
 func (ns *NodeIDSet) Get(i int) (*NodeID, bool) {
+	ns.lock.RLock()
+	defer ns.lock.RUnlock()
 	if i < 0 || i >= len(ns.l) {
 		return nil, false
 	}
@@ -670,16 +675,17 @@ func (ns *NodeIDSet) GetIndex(id *NodeID) (int, bool) {
 }
 
 func (ns *NodeIDSet) GetNodeIDs(chainid ChainID) NodeIDs {
-	if len(ns.l) > 0 {
-		nids := make(NodeIDs, len(ns.l))
-		sort.Sort(ns)
-		for i := 0; i < len(ns.l); i++ {
-			nids = append(nids, *ns.l[i])
-		}
-		return nids
-	} else {
-		return make(NodeIDs, 0)
-	}
+	ns.lock.Lock()
+	defer ns.lock.Unlock()
+	sort.Slice(ns.l, func(i, j int) bool {
+		return bytes.Compare((*(ns.l[i]))[:], (*(ns.l[j]))[:]) < 0
+	})
+	nids := make(NodeIDs, len(ns.l))
+	for i := 0; i < len(ns.l); i++ {
+		ns.m[*(ns.l[i])] = i
+		nids[i] = *ns.l[i]
+	}
+	return nids
 }
 
 func (e EraNum) IsNil() bool {
-- 
2.43.0


From 4d5487fc35ac24b284fa12fa5d4c176e894ef3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:19 +0000
Subject: [PATCH 40/55] fix: chain structures that NewChainStruct makes were
 refused by Validate

---
 chaininfo.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/chaininfo.go b/chaininfo.go
index 0f65cb6..cbcc899 100644
--- a/chaininfo.go
+++ b/chaininfo.go
@@ -595,6 +595,9 @@ func NewChainStruct(id, parentId ChainID) (cs *ChainStruct, err error) {
 		}
 		return nil, errors.New("only main chain or single chain's parent can be nil")
 	}
+	if id.IsMain() {
+		return nil, errors.New("main chain has no parent")
+	}
 	cs = &ChainStruct{ID: id, ParentID: parentId}
 	if parentId.IsMain() {
 		cs.Mode = Branch
@@ -611,9 +614,15 @@ func (s ChainStruct) Validate() error {
 			return errors.New("root mode must be main chain")
 		}
 	case Branch, Shard:
-		if s.ID.IsMain() || s.ParentID.IsNil() {
+		if s.ID.IsMain() {
 			return errors.New("only root mode could be main chain")
 		}
+		if s.ParentID.IsNil() {
+			if s.Mode == Branch && StandAlone {
+				return nil
+			}
+			return errors.New("only main chain or single chain's parent can be nil")
+		}
 		if s.Mode == Branch && !s.ParentID.IsMain() {
 			return errors.New("branch's parent must be main chain")
 		}
-- 
2.43.0


From 50a08792bd5949d3b63f6cdff7a1aeb3fb9e1a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:20 +0000
Subject: [PATCH 41/55] fix: boot nodes were not found after Sort or with upper
 case ids

---
 chaininfo.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/chaininfo.go b/chaininfo.go
index cbcc899..afac242 100644
--- a/chaininfo.go
+++ b/chaininfo.go
@@ -758,11 +758,11 @@ func (c *ChainInfos) AddBootNode(bootNode Dataserver) bool {
 		return true
 	}
 
-	i := sort.Search(len(c.BootNodes), func(i int) bool {
-		return c.BootNodes[i].NodeIDString >= bootNode.NodeIDString
-	})
-	if i < len(c.BootNodes) && c.BootNodes[i].NodeIDString == bootNode.NodeIDString {
-		return false
+	// the list may also be in the order of Sort(), where the chain id comes first
+	for i := 0; i < len(c.BootNodes); i++ {
+		if strings.EqualFold(c.BootNodes[i].NodeIDString, bootNode.NodeIDString) {
+			return false
+		}
 	}
 	c.BootNodes = append(c.BootNodes, bootNode)
 	sort.Slice(c.BootNodes, func(i, j int) bool {
@@ -776,14 +776,9 @@ func (c *ChainInfos) RemoveBootNode(node NodeID) bool {
 		return true
 	}
 	// check and remove boot server
-	i := sort.Search(len(c.BootNodes), func(i int) bool {
-		s, _ := hex.DecodeString(c.BootNodes[i].NodeIDString)
-		return bytes.Compare(s[:], node[:]) >= 0
-	})
-
-	if i < len(c.BootNodes) {
+	for i := 0; i < len(c.BootNodes); i++ {
 		s, _ := hex.DecodeString(c.BootNodes[i].NodeIDString)
-		if bytes.Equal(s[:], node[:]) {
+		if bytes.Equal(s, node[:]) {
 			bdatas := make([]Dataserver, len(c.BootNodes)-1)
 			copy(bdatas, c.BootNodes[:i])
 			copy(bdatas[i:], c.BootNodes[i+1:])
-- 
2.43.0


From 4f66097fd356ab21c2be4686da22d37da8d16fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 42/55] fix: with more than 128 shards accounts were not routed
 by the front bits

---
 shardinfo.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shardinfo.go b/shardinfo.go
index b71d330..f86d405 100644
--- a/shardinfo.go
+++ b/shardinfo.go
@@ -191,7 +191,10 @@ func NewAccountShards(parent ChainStruct, chains []ChainID) AccountShards {
 
 func (s AccountShards) index(addr *Address) int {
 	// The number of bytes required is calculated according to the mask length
-	byteSize := (s.maskBits >> 3) + 1
+	byteSize := (s.maskBits + 7) >> 3
+	if byteSize == 0 {
+		return 0
+	}
 
 	// Convert the obtained byte to a number
 	bs := addr[0:byteSize]
-- 
2.43.0


From a118768872bceee267f049ac69b3e8dc8119483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:34 +0000
Subject: [PATCH 43/55] fix: bit prefixes of addresses were one bit too long,
 or empty at byte bounds

---
 shardinfo.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/shardinfo.go b/shardinfo.go
index f86d405..ac21a8b 100644
--- a/shardinfo.go
+++ b/shardinfo.go
@@ -50,9 +50,6 @@ func (p BitIndex) Mask(b byte) byte {
 	if bits == 7 {
 		return b
 	}
-	if bits == 0 {
-		return 0
-	}
 	sh := 7 - bits
 	bb := b >> sh
 	bb = bb << sh
@@ -62,7 +59,7 @@ func (p BitIndex) Mask(b byte) byte {
 // return true if the bit at index is 1, otherwise return false
 func (bs Bits) Bit(index BitIndex) bool {
 	bytePos := index.BytePos()
-	if bytePos >= len(bs) {
+	if bytePos < 0 || bytePos >= len(bs) {
 		return false
 	}
 	bitPos := index.BitPos()
@@ -77,8 +74,8 @@ func (bs Bits) Bits(length int) []bool {
 		return nil
 	}
 	r := make([]bool, 0, length)
-	x := BitIndex(length).BytePos()
-	y := BitIndex(length).BitPos()
+	x := BitIndex(length - 1).BytePos()
+	y := BitIndex(length - 1).BitPos()
 	var j uint
 	for i := 0; i < len(bs) && i <= x; i++ {
 		for j = 0; j < 8; j++ {
@@ -102,13 +99,13 @@ func (s *AddressShard) IsValid() bool {
 	if s == nil {
 		return false
 	}
-	if s.Index <= 0 {
+	if s.Index < 0 {
 		return false
 	}
-	if s.Index > (AddressLength * 8) {
+	if s.Index >= (AddressLength * 8) {
 		return false
 	}
-	if (len(s.Value) * 8) < int(s.Index) {
+	if (len(s.Value) * 8) <= int(s.Index) {
 		return false
 	}
 	return true
@@ -119,7 +116,7 @@ func (s *AddressShard) IsIn(addr Address) bool {
 		return false
 	}
 	pos := s.Index.BytePos()
-	if pos >= len(addr) {
+	if pos < 0 || pos >= len(addr) {
 		return false
 	}
 	for i := 0; i <= pos; i++ {
-- 
2.43.0


From ea329dabc28a6ebd74e75d0ebc36ce8f75f2bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:43 +0000
Subject: [PATCH 44/55] fix: a routine pool could not be started again after it
 was stopped

---
 routinepool.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/routinepool.go b/routinepool.go
index 9c08999..97d9c8c 100644
--- a/routinepool.go
+++ b/routinepool.go
@@ -101,20 +101,17 @@ func NewRoutinePool(name string, routineSize int, queueSize int, workFunc Worker
 		higher:    make(chan interface{}, queueSize),
 		lower:     make(chan interface{}, queueSize),
 		started:   false,
-		quit:      make(chan struct{}),
 		wg:        sync.WaitGroup{},
 	}
 	for i := 0; i < routineSize; i++ {
 		ret.workers[i] = &pooledWorker{
 			pool:     ret,
 			name:     ret.name + "-" + strconv.Itoa(i+1),
-			quit:     ret.quit,
 			higher:   ret.higher,
 			lower:    ret.lower,
 			workFunc: workFunc,
 		}
 	}
-	ret.wg.Add(routineSize)
 	return ret
 }
 
@@ -133,7 +130,10 @@ func (p *RoutinePool) Start() {
 		return
 	}
 	p.started = true
+	p.quit = make(chan struct{})
+	p.wg.Add(len(p.workers))
 	for i := 0; i < len(p.workers); i++ {
+		p.workers[i].quit = p.quit
 		go p.workers[i].work()
 	}
 }
-- 
2.43.0


From 27ae68d3a5f9a5f7eaa245c29e4a81677902f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:44 +0000
Subject: [PATCH 45/55] fix: KeyCount handed out the live map of counters
 without its lock

---
 routinepool.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/routinepool.go b/routinepool.go
index 97d9c8c..4c22cf3 100644
--- a/routinepool.go
+++ b/routinepool.go
@@ -186,7 +186,13 @@ func decKeyCount(key string) {
 }
 
 func KeyCount() map[string]int {
-	return routinePoolKeyCountMap
+	routinePoolKeyCountLock.Lock()
+	defer routinePoolKeyCountLock.Unlock()
+	ret := make(map[string]int, len(routinePoolKeyCountMap))
+	for k, v := range routinePoolKeyCountMap {
+		ret[k] = v
+	}
+	return ret
 }
 
 func (p *RoutinePool) PostLower(v interface{}) {
-- 
2.43.0


From 292b4c2f6bd249acec061bed43c62b9b3ed9dee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:45 +0000
Subject: [PATCH 46/55] fix: concurrent LruMap.Add of one key could report
 success more than once

---
 types.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/types.go b/types.go
index e111139..f56cbdc 100644
--- a/types.go
+++ b/types.go
@@ -225,11 +225,8 @@ func NewLruMap(size int) *LruMap {
 }
 
 func (m *LruMap) Add(key interface{}, value interface{}) bool {
-	if m.Map.Contains(key) {
-		return false
-	}
-	m.Map.Add(key, value)
-	return true
+	exist, _ := m.Map.ContainsOrAdd(key, value)
+	return !exist
 }
 
 func (m *LruMap) Get(key interface{}) interface{} {
-- 
2.43.0


From ceabeca76faef8ecb49d6ab05970750bdf427c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:38 +0000
Subject: [PATCH 47/55] fix: HashRipemd160 returned the data with the hash of
 nothing behind it

---
 hash.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hash.go b/hash.go
index 3530d46..9925922 100644
--- a/hash.go
+++ b/hash.go
@@ -761,7 +761,8 @@ func CipherHash256(pro HashProvider, in ...[]byte) []byte {
 
 func HashRipemd160(data []byte) []byte {
 	md := ripemd160.New()
-	return md.Sum(data)
+	md.Write(data)
+	return md.Sum(nil)
 }
 
 func SlicesToHashs(bss [][]byte) [][]byte {
-- 
2.43.0


From 5ccfc3bc22a3b62e5c14dd97f785f4769518b5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:39 +0000
Subject: [PATCH 48/55] fix: ForPrint panicked on strings, arrays, empty slices
 and negative positions

---
 bytes.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bytes.go b/bytes.go
index 3659cf6..f0953fe 100644
--- a/bytes.go
+++ b/bytes.go
@@ -23,9 +23,15 @@ import (
 )
 
 func startAndEnd(length, startPos, endPos int) (start, end int) {
+	if length <= 0 {
+		return 0, 0
+	}
 	if startPos >= length {
 		startPos = length - 1
 	}
+	if startPos < 0 {
+		startPos = 0
+	}
 	if endPos < 0 {
 		endPos = length
 	}
@@ -60,8 +66,12 @@ func ForPrintValue(val reflect.Value, startPos, endPos int) []byte {
 		if typ.Elem().Kind() != reflect.Uint8 {
 			return []byte{}
 		}
+		// the array may not be addressable, then it could not be sliced
 		startPos, endPos = startAndEnd(val.Len(), startPos, endPos)
-		s = val.Slice(startPos, endPos).Bytes()
+		s = make([]byte, 0, endPos-startPos)
+		for i := startPos; i < endPos; i++ {
+			s = append(s, byte(val.Index(i).Uint()))
+		}
 	case reflect.Slice:
 		if val.IsNil() || typ.Elem().Kind() != reflect.Uint8 || val.Len() == 0 {
 			return []byte{}
@@ -70,7 +80,7 @@ func ForPrintValue(val reflect.Value, startPos, endPos int) []byte {
 		s = val.Slice(startPos, endPos).Bytes()
 	case reflect.String:
 		startPos, endPos = startAndEnd(val.Len(), startPos, endPos)
-		s = val.Slice(startPos, endPos).Bytes()
+		s = []byte(val.String()[startPos:endPos])
 	default:
 		return []byte{}
 	}
-- 
2.43.0


From a0447b43646d2cc7323b1ef10a3c21ba6d543ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:41 +0000
Subject: [PATCH 49/55] fix: InfoString panicked on nil pointers to types that
 print themselves

---
 types.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/types.go b/types.go
index f56cbdc..ef837be 100644
--- a/types.go
+++ b/types.go
@@ -291,6 +291,20 @@ type Infoer interface {
 
 type IndentLevel int
 
+var (
+	typeOfInfoer   = reflect.TypeOf((*Infoer)(nil)).Elem()
+	typeOfStringer = reflect.TypeOf((*fmt.Stringer)(nil)).Elem()
+)
+
+// isNilReceiver returns true if v is a nil pointer to a value whose own method (with a value
+// receiver) implements the interface, which could not be called
+func isNilReceiver(v reflect.Value, typ reflect.Type) bool {
+	if v.Kind() == reflect.Interface {
+		v = v.Elem()
+	}
+	return v.Kind() == reflect.Ptr && v.IsNil() && v.Type().Elem().Implements(typ)
+}
+
 func (l IndentLevel) IndentString() string {
 	if l <= 0 {
 		return ""
@@ -309,8 +323,14 @@ func (l IndentLevel) _valueInfo(v reflect.Value) string {
 	case string:
 		return obj
 	case Infoer:
+		if isNilReceiver(v, typeOfInfoer) {
+			return "<nil>"
+		}
 		return obj.InfoString(l)
 	case fmt.Stringer:
+		if isNilReceiver(v, typeOfStringer) {
+			return "<nil>"
+		}
 		return fmt.Sprintf("%s", obj.String())
 	default:
 		return "UKN"
-- 
2.43.0


From a3b7e72052619ae6b16c0ccec7881c3c837542c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:47 +0000
Subject: [PATCH 50/55] fix: log.WithField lost the second half of the fields

---
 log/log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index 494bf46..f57bc1f 100644
--- a/log/log.go
+++ b/log/log.go
@@ -196,7 +196,7 @@ func WithField(vs ...interface{}) logrus.FieldLogger {
 	}
 	l := len(vs)
 	fields := make(logrus.Fields)
-	for i := 0; i < l/2; i += 2 {
+	for i := 0; i+1 < l; i += 2 {
 		k, ok := vs[i].(string)
 		if !ok {
 			continue
-- 
2.43.0


From 27bc180530284ba3ac271ab7f3528801fd905af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:49 +0000
Subject: [PATCH 51/55] fix: log.WithField and WithFields read the logger
 without its lock

---
 log/log.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/log/log.go b/log/log.go
index f57bc1f..f466330 100644
--- a/log/log.go
+++ b/log/log.go
@@ -187,10 +187,16 @@ func MustErrorf(logger logrus.FieldLogger, format string, args ...interface{}) {
 }
 
 func WithFields(fields logrus.Fields) logrus.FieldLogger {
+	_logLocker.RLock()
+	defer _logLocker.RUnlock()
+
 	return rootLog.WithFields(fields)
 }
 
 func WithField(vs ...interface{}) logrus.FieldLogger {
+	_logLocker.RLock()
+	defer _logLocker.RUnlock()
+
 	if len(vs) <= 1 {
 		return rootLog
 	}
-- 
2.43.0


From 0c03889afc8c28e1b4761bd920172f8852216a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:50 +0000
Subject: [PATCH 52/55] fix: the check log panicked before or without a
 successful InitCheckLog

---
 log/cashcheck.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/log/cashcheck.go b/log/cashcheck.go
index 817cf96..edd65ca 100644
--- a/log/cashcheck.go
+++ b/log/cashcheck.go
@@ -10,7 +10,12 @@ import (
 )
 
 var (
-	ccLog        *logrus.Logger
+	// until InitCheckLog nothing is written
+	ccLog = &logrus.Logger{
+		Out:       &EmptyWriter{},
+		Formatter: &logrus.TextFormatter{},
+		Level:     logrus.DebugLevel,
+	}
 	ccLogLock    sync.RWMutex
 	createCCOnce sync.Once
 )
@@ -19,11 +24,14 @@ func InitCheckLog(path string, nid []byte) {
 	createCCOnce.Do(func() {
 		ccLogLock.Lock()
 		defer ccLogLock.Unlock()
-		checkLogFile := path + ".check." + fmt.Sprintf("%x", nid[:5]) + ".%Y"
+		if len(nid) > 5 {
+			nid = nid[:5]
+		}
+		checkLogFile := path + ".check." + fmt.Sprintf("%x", nid) + ".%Y"
 		checkWriter, err := rotatelogs.New(checkLogFile,
 			rotatelogs.WithMaxAge(-1), rotatelogs.WithRotationTime(time.Hour*24*365))
 		if err != nil {
-			rootLog.Errorf("initial CashCheck log %s failed: %v", checkLogFile, err)
+			Errorf("initial CashCheck log %s failed: %v", checkLogFile, err)
 			return
 		}
 		formatter := &logrus.TextFormatter{
-- 
2.43.0


From f53b608d5235bcf4dbf3abce41691bb682622b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:52 +0000
Subject: [PATCH 53/55] fix: too long merkle proofs were serialized with
 wrapped counts

---
 hash.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/hash.go b/hash.go
index 9925922..0afd783 100644
--- a/hash.go
+++ b/hash.go
@@ -17,6 +17,7 @@ package common
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"hash"
 	"io"
@@ -467,8 +468,14 @@ func (p *MerkleProofs) Get(fullIndex int) (h Hash, order bool, err error) {
 	return
 }
 
+// the serialized counts have 16 bits
+var errProofsTooLong = errors.New("merkle proofs too long to be serialized")
+
 func writeArray(array []byte, buf []byte, w io.Writer) error {
 	l := len(array)
+	if l > math.MaxUint16 {
+		return errProofsTooLong
+	}
 	binary.BigEndian.PutUint16(buf, uint16(l))
 	// Because the interface requires that if the return length is less than the length of
 	// inputting buffer, it must return non-nil error, so it is no longer necessary to check
@@ -530,7 +537,16 @@ func (p *MerkleProofs) Serialization(w io.Writer) error {
 			return err
 		}
 		return nil
-	} else if len(p.Repeats) == 0 {
+	}
+	if len(p.Hashs) > math.MaxUint16 || len(p.Repeats) > math.MaxUint16 {
+		return errProofsTooLong
+	}
+	for _, m := range p.Repeats {
+		if m.Times > math.MaxUint16 {
+			return errProofsTooLong
+		}
+	}
+	if len(p.Repeats) == 0 {
 		if _, err := w.Write([]byte{rtl.NotNilOrTrue}); err != nil {
 			return err
 		}
-- 
2.43.0


From e2d974999cf95f3e99f6f03a7c1096a515fd975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:18 +0000
Subject: [PATCH 54/55] fix: UnmarshalNewTrie took a stream cut inside of a
 value for its end

---
 trie/trie.go | 53 ++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 84a0aa8..84e0220 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -19,6 +19,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 	"sync"
 
@@ -899,19 +900,67 @@ func (t *Trie) GetExistenceProof(key []byte) (exist bool, proofs ProofChain, err
 	return t.getExistenceLocked(key)
 }
 
+// startedReader remembers whether anything was read since started was reset, to tell the end
+// of a stream from a stream which ends inside of a value
+type startedReader struct {
+	rtl.ValueReader
+	started bool
+}
+
+func (r *startedReader) ReadHeader() (rtl.TypeHeader, int, error) {
+	th, length, err := r.ValueReader.ReadHeader()
+	r.started = r.started || err == nil
+	return th, length, err
+}
+
+func (r *startedReader) ReadFullHeader() (rtl.TypeHeader, int, error) {
+	th, length, err := r.ReadHeader()
+	if err != nil {
+		return 0, 0, err
+	}
+	if vt, exist := th.ValueType(); exist && vt == rtl.THVTMultiHeader {
+		l, err := r.ReadMultiLength(length)
+		if err != nil {
+			return 0, 0, err
+		}
+		if l > math.MaxInt32 {
+			return 0, 0, errors.New("full length overflow")
+		}
+		length = int(l)
+	}
+	return th, length, nil
+}
+
+func (r *startedReader) ReadByte() (byte, error) {
+	b, err := r.ValueReader.ReadByte()
+	r.started = r.started || err == nil
+	return b, err
+}
+
+func (r *startedReader) Read(p []byte) (int, error) {
+	n, err := r.ValueReader.Read(p)
+	r.started = r.started || n > 0
+	return n, err
+}
+
 func (t *Trie) unmarshalNewTrieLocked(r io.Reader, valueType reflect.Type, keyFunc func(interface{}) []byte) (*Trie, error) {
 	trie := NewTrieWithValueFuncs(nil, t.nodeAdapter, t.valueAdapter, t.root.valueEncode,
 		t.root.valueDecode, t.root.valueHasher)
 
-	reader, ok := r.(rtl.ValueReader)
+	vr, ok := r.(rtl.ValueReader)
 	if !ok {
-		reader = rtl.NewValueReader(r, 0)
+		vr = rtl.NewValueReader(r, 0)
 	}
+	reader := &startedReader{ValueReader: vr}
 
 	for reader.HasMore() {
 		newValue := reflect.New(valueType)
+		reader.started = false
 		if err := rtl.Decode(reader, newValue.Interface()); err != nil {
 			if err == io.EOF {
+				if reader.started {
+					return nil, io.ErrUnexpectedEOF
+				}
 				break
 			}
 			return nil, err
-- 
2.43.0


From f11647f840f44c92143249f5928298fa11c8368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:00 +0000
Subject: [PATCH 55/55] fix: iterators gave no key for the value of the empty
 key

Current returned a nil key for it, so IterateAll without nils, MarshalAsMap
and ValueString left the value out.
---
 trie/iterator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trie/iterator.go b/trie/iterator.go
index 7342f27..90c4477 100644
--- a/trie/iterator.go
+++ b/trie/iterator.go
@@ -280,7 +280,8 @@ func (it *trieValueIterator) Current() (key []byte, value interface{}) {
 		prefix = append(prefix, node.prefix...)
 	}
 	if len(prefix) == 0 {
-		return nil, node.value
+		// the value of the empty key: nil is for no key at all
+		return []byte{}, node.value
 	}
 	if len(prefix)%2 != 0 {
 		panic(fmt.Errorf("prefix [%x] length:%d cannot convert to keystring, oldprefix:%x node.prefix:%x",
-- 
2.43.0

