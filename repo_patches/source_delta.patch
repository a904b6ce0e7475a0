From 972abd956b610dbc8756fd7d6602779a73f5794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 01/65] fix: keep btree entries intact and report empty when a
 create callback declines

---
 .../datastructures/btree/threadsafe_b_tree.go | 10 +++++++++-
 .../datastructures/btree/threadsafe_create.go | 20 +++++++++----------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_b_tree.go b/internal/datastructures/btree/threadsafe_b_tree.go
index a9a7494..2985832 100644
--- a/internal/datastructures/btree/threadsafe_b_tree.go
+++ b/internal/datastructures/btree/threadsafe_b_tree.go
@@ -92,7 +92,15 @@ func (bt *threadSafeBTree) Empty() bool {
 	bt.lock.RLock()
 	defer bt.lock.RUnlock()
 
-	return bt.root == nil
+	if bt.root == nil {
+		return true
+	}
+
+	// the root node can exist without any values if a create callback declined to create an item
+	bt.root.lock.RLock()
+	defer bt.root.lock.RUnlock()
+
+	return bt.root.numberOfValues == 0
 }
 
 // general helper functions
diff --git a/internal/datastructures/btree/threadsafe_create.go b/internal/datastructures/btree/threadsafe_create.go
index a1f7d5d..86cd3d5 100644
--- a/internal/datastructures/btree/threadsafe_create.go
+++ b/internal/datastructures/btree/threadsafe_create.go
@@ -308,16 +308,16 @@ func (bn *threadSafeBNode) createTreeItem(key datatypes.EncapsulatedValue, onCre
 				return ErrorKeyAlreadyExists
 			}
 
-			// shift current values all 1 position
-			for i := bn.numberOfValues; i > index; i-- {
-				bn.keyValues[i] = bn.keyValues[i-1]
-			}
-
 			break
 		}
 	}
 
 	if value := onCreate(); value != nil {
+		// shift current values all 1 position. Only done once we know there is a value to insert
+		for i := bn.numberOfValues; i > index; i-- {
+			bn.keyValues[i] = bn.keyValues[i-1]
+		}
+
 		bn.numberOfValues++
 		bn.keyValues[index] = &keyValue{key: key, value: value}
 	}
@@ -342,16 +342,16 @@ func (bn *threadSafeBNode) createOrFindTreeItem(key datatypes.EncapsulatedValue,
 				return
 			}
 
-			// shift current values all 1 position
-			for i := bn.numberOfValues; i > index; i-- {
-				bn.keyValues[i] = bn.keyValues[i-1]
-			}
-
 			break
 		}
 	}
 
 	if value := onCreate(); value != nil {
+		// shift current values all 1 position. Only done once we know there is a value to insert
+		for i := bn.numberOfValues; i > index; i-- {
+			bn.keyValues[i] = bn.keyValues[i-1]
+		}
+
 		bn.numberOfValues++
 		bn.keyValues[index] = &keyValue{key: key, value: value}
 	}
-- 
2.43.0


From 7455ddfd7c1cabae635961bba82bca64434171b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 02/65] fix: release the btree lock when a search's type
 restrictions exclude the key

---
 internal/datastructures/btree/threadsafe_find.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index a6b331a..b4a79eb 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -55,6 +55,9 @@ func (btree *threadSafeBTree) Find(key datatypes.EncapsulatedValue, typeRestrict
 				btree.root.findMatchType(key, func(item any) {
 					shouldContinue = onIterate(key, item)
 				})
+			} else if typeRestrictions.MaxDataType < datatypes.T_any {
+				// the key's type is not allowed and neither is Any, so there is nothing to search for
+				btree.lock.RUnlock()
 			}
 
 			// check for Any
@@ -257,6 +260,9 @@ func (btree *threadSafeBTree) FindLessThan(key datatypes.EncapsulatedValue, type
 			}
 
 			shouldContinue = btree.root.findLessThan(key, typeRestrictions, onIterate)
+		} else if typeRestrictions.MaxDataType < datatypes.T_any {
+			// all allowed types are greater than the key and Any is not allowed, so there is nothing to search for
+			btree.lock.RUnlock()
 		}
 
 		// check for any Any
@@ -381,6 +387,9 @@ func (btree *threadSafeBTree) FindLessThanOrEqual(key datatypes.EncapsulatedValu
 			}
 
 			shouldContinue = btree.root.findLessThanOrEqual(key, typeRestrictions, onIterate)
+		} else if typeRestrictions.MaxDataType < datatypes.T_any {
+			// all allowed types are greater than the key and Any is not allowed, so there is nothing to search for
+			btree.lock.RUnlock()
 		}
 
 		// check for any Any
@@ -511,6 +520,9 @@ func (btree *threadSafeBTree) FindGreaterThan(key datatypes.EncapsulatedValue, t
 			btree.lock.RUnlock()
 
 			btree.root.findGreaterThan(key, typeRestrictions, onIterate)
+		} else {
+			// all allowed types are less than the key, so there is nothing to search for
+			btree.lock.RUnlock()
 		}
 	} else {
 		btree.lock.RUnlock()
@@ -615,6 +627,9 @@ func (btree *threadSafeBTree) FindGreaterThanOrEqual(key datatypes.EncapsulatedV
 			btree.lock.RUnlock()
 
 			btree.root.findGreaterThanOrEqual(key, typeRestrictions, onIterate)
+		} else {
+			// all allowed types are less than the key, so there is nothing to search for
+			btree.lock.RUnlock()
 		}
 	} else {
 		btree.lock.RUnlock()
-- 
2.43.0


From 536bf366d43fbbfadfe013e446327a43828aaf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 03/65] fix: apply the type restrictions to every entry of a
 btree range search

---
 .../datastructures/btree/threadsafe_find.go   | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index b4a79eb..ca8eba4 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -6,6 +6,17 @@ import (
 	"github.com/DanLavine/willow/pkg/models/datatypes"
 )
 
+// withinRestrictions wraps the callback so it is only called for keys that are allowed by the type restrictions
+func withinRestrictions(typeRestrictions v1common.TypeRestrictions, onIterate BTreeIterate) BTreeIterate {
+	return func(key datatypes.EncapsulatedValue, item any) bool {
+		if !typeRestrictions.TypeWithinRange(key.Type) {
+			return true
+		}
+
+		return onIterate(key, item)
+	}
+}
+
 //	PARAMS:
 //	- key - key to use when comparing to other possible items. This can not be T_any encapsualted value
 //	- typeRestrictions - how to match the particular key
@@ -259,7 +270,7 @@ func (btree *threadSafeBTree) FindLessThan(key datatypes.EncapsulatedValue, type
 				btree.lock.RUnlock()
 			}
 
-			shouldContinue = btree.root.findLessThan(key, typeRestrictions, onIterate)
+			shouldContinue = btree.root.findLessThan(key, typeRestrictions, withinRestrictions(typeRestrictions, onIterate))
 		} else if typeRestrictions.MaxDataType < datatypes.T_any {
 			// all allowed types are greater than the key and Any is not allowed, so there is nothing to search for
 			btree.lock.RUnlock()
@@ -386,7 +397,7 @@ func (btree *threadSafeBTree) FindLessThanOrEqual(key datatypes.EncapsulatedValu
 				btree.lock.RUnlock()
 			}
 
-			shouldContinue = btree.root.findLessThanOrEqual(key, typeRestrictions, onIterate)
+			shouldContinue = btree.root.findLessThanOrEqual(key, typeRestrictions, withinRestrictions(typeRestrictions, onIterate))
 		} else if typeRestrictions.MaxDataType < datatypes.T_any {
 			// all allowed types are greater than the key and Any is not allowed, so there is nothing to search for
 			btree.lock.RUnlock()
@@ -519,7 +530,7 @@ func (btree *threadSafeBTree) FindGreaterThan(key datatypes.EncapsulatedValue, t
 			btree.root.lock.RLock()
 			btree.lock.RUnlock()
 
-			btree.root.findGreaterThan(key, typeRestrictions, onIterate)
+			btree.root.findGreaterThan(key, typeRestrictions, withinRestrictions(typeRestrictions, onIterate))
 		} else {
 			// all allowed types are less than the key, so there is nothing to search for
 			btree.lock.RUnlock()
@@ -626,7 +637,7 @@ func (btree *threadSafeBTree) FindGreaterThanOrEqual(key datatypes.EncapsulatedV
 			btree.root.lock.RLock()
 			btree.lock.RUnlock()
 
-			btree.root.findGreaterThanOrEqual(key, typeRestrictions, onIterate)
+			btree.root.findGreaterThanOrEqual(key, typeRestrictions, withinRestrictions(typeRestrictions, onIterate))
 		} else {
 			// all allowed types are less than the key, so there is nothing to search for
 			btree.lock.RUnlock()
-- 
2.43.0


From 89a38d65437d0a2f4e66faf4946387d1f7afb020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 04/65] fix: release the locked children when a btree iteration
 is stopped early

---
 internal/datastructures/btree/threadsafe_find.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index ca8eba4..8d02c1f 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -182,7 +182,7 @@ func (bn *threadSafeBNode) iterate(typeRestrictions v1common.TypeRestrictions, c
 		// need to recurse to all potential children from the start index
 		if !children[i].iterate(typeRestrictions, callback) {
 			for unlockIndex := i + 1; unlockIndex < len(children); unlockIndex++ {
-				bn.children[unlockIndex].lock.RUnlock()
+				children[unlockIndex].lock.RUnlock()
 			}
 
 			return false
-- 
2.43.0


From 26b81255ddc2880a0e1ed4bafc10342244016e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 05/65] fix: allow btree operations to start while a destroy of
 the tree is waiting

---
 .../btree/operations_counter.go               | 41 +++++++++++++++++++
 .../datastructures/btree/threadsafe_b_tree.go |  6 +--
 2 files changed, 44 insertions(+), 3 deletions(-)
 create mode 100644 internal/datastructures/btree/operations_counter.go

diff --git a/internal/datastructures/btree/operations_counter.go b/internal/datastructures/btree/operations_counter.go
new file mode 100644
index 0000000..c180a2a
--- /dev/null
+++ b/internal/datastructures/btree/operations_counter.go
@@ -0,0 +1,41 @@
+package btree
+
+import "sync"
+
+// operationsCounter tracks how many operations are in flight. Unlike a sync.WaitGroup, new operations are allowed
+// to start (from 0) at the same time as another goroutine calls Wait.
+type operationsCounter struct {
+	lock  *sync.Mutex
+	zero  *sync.Cond
+	count int
+}
+
+func newOperationsCounter() *operationsCounter {
+	lock := new(sync.Mutex)
+
+	return &operationsCounter{
+		lock: lock,
+		zero: sync.NewCond(lock),
+	}
+}
+
+// Add changes the number of operations in flight
+func (oc *operationsCounter) Add(delta int) {
+	oc.lock.Lock()
+	defer oc.lock.Unlock()
+
+	oc.count += delta
+	if oc.count == 0 {
+		oc.zero.Broadcast()
+	}
+}
+
+// Wait blocks until there are no operations in flight
+func (oc *operationsCounter) Wait() {
+	oc.lock.Lock()
+	defer oc.lock.Unlock()
+
+	for oc.count != 0 {
+		oc.zero.Wait()
+	}
+}
diff --git a/internal/datastructures/btree/threadsafe_b_tree.go b/internal/datastructures/btree/threadsafe_b_tree.go
index 2985832..a04f0a9 100644
--- a/internal/datastructures/btree/threadsafe_b_tree.go
+++ b/internal/datastructures/btree/threadsafe_b_tree.go
@@ -23,8 +23,8 @@ type threadSafeBTree struct {
 	destroyingKeys     []datatypes.EncapsulatedValue
 
 	// destroying whole tree operations
-	readWriteWG *sync.WaitGroup // operations to take place before destroy
-	destroying  *atomic.Bool    // destroying the whole tree
+	readWriteWG *operationsCounter // operations to take place before destroy
+	destroying  *atomic.Bool       // destroying the whole tree
 
 	// lock for managing the root of the btree
 	lock *sync.RWMutex
@@ -76,7 +76,7 @@ func NewThreadSafe(nodeSize int) (*threadSafeBTree, error) {
 		destroyingKeysLock: new(sync.RWMutex),
 		destroyingKeys:     []datatypes.EncapsulatedValue{},
 
-		readWriteWG: new(sync.WaitGroup),
+		readWriteWG: newOperationsCounter(),
 		destroying:  new(atomic.Bool),
 
 		lock: new(sync.RWMutex),
-- 
2.43.0


From 970f08b0b8ad491f2f43b4788f55f065f1794837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 06/65] fix: treat an empty nested query as a select all

---
 .../btree_associated/threadsafe_query.go      | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_query.go b/internal/datastructures/btree_associated/threadsafe_query.go
index b69f9da..f47f7cc 100644
--- a/internal/datastructures/btree_associated/threadsafe_query.go
+++ b/internal/datastructures/btree_associated/threadsafe_query.go
@@ -39,7 +39,7 @@ func (tsat *threadsafeAssociatedTree) QueryAction(query *queryassociatedaction.A
 	defer tsat.destroySyncer.ClearOperation()
 
 	// select all
-	if query.Selection == nil && query.And == nil && query.Or == nil {
+	if query.Selection == nil && len(query.And) == 0 && len(query.Or) == 0 {
 		wrappedPagination := func(_ datatypes.EncapsulatedValue, item any) bool {
 			return onQueryPagination(item.(AssociatedKeyValues))
 		}
@@ -89,6 +89,11 @@ func (tsat *threadsafeAssociatedTree) query(query *queryassociatedaction.Associa
 	var validIDs set.Set[string]
 	validCounter := 0
 
+	// an empty query is a select all
+	if query.Selection == nil && len(query.And) == 0 && len(query.Or) == 0 {
+		return tsat.allIDs()
+	}
+
 	// find IDs based off the Where clause
 	if query.Selection != nil {
 		validIDs = tsat.findIDs(query.Selection)
@@ -132,6 +137,22 @@ func (tsat *threadsafeAssociatedTree) query(query *queryassociatedaction.Associa
 	return validIDs
 }
 
+// allIDs returns the IDs of every item saved in the tree
+func (tsat *threadsafeAssociatedTree) allIDs() set.Set[string] {
+	ids := set.New[string]()
+
+	onFind := func(_ datatypes.EncapsulatedValue, item any) bool {
+		ids.Add(item.(AssociatedKeyValues).AssociatedID())
+		return true
+	}
+
+	if err := tsat.associatedIDs.Find(datatypes.Any(), v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}, onFind); err != nil {
+		panic(err)
+	}
+
+	return ids
+}
+
 func (tsat *threadsafeAssociatedTree) findIDs(associatedSelection *queryassociatedaction.Selection) set.Set[string] {
 	// if there are associated IDs, then we need to run the key values query against those values
 	if len(associatedSelection.IDs) != 0 {
-- 
2.43.0


From 4f7a63ee396a33eeb0dbab66642c978ade3b9630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 07/65] fix: judge tags against a query of only OR joins by
 those joins

---
 .../v1/query_associated_action/associated_action_query.go      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
index bc92797..abb23ef 100644
--- a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
+++ b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
@@ -97,7 +97,8 @@ func KeyValuesToExactAssociatedActionQuery(keyValues datatypes.KeyValues) *Assoc
 
 // used to know if arbitrary tags, would be found from a query
 func (q *AssociatedActionQuery) MatchTags(tags datatypes.KeyValues) bool {
-	matched := true
+	// a query with only OR joins is decided by the joins
+	matched := q.Selection != nil || len(q.And) != 0 || len(q.Or) == 0
 
 	// if Query is not nil, check the tags
 	if q.Selection != nil {
-- 
2.43.0


From cc289bafaf4a3ca08dce9d8d8e7b4424c32e4916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 08/65] fix: judge several not-equals of one selection as the
 stored items query does

---
 .../api/common/v1/query_associated_action/selection.go   | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/models/api/common/v1/query_associated_action/selection.go b/pkg/models/api/common/v1/query_associated_action/selection.go
index 521a08b..8ff7aa4 100644
--- a/pkg/models/api/common/v1/query_associated_action/selection.go
+++ b/pkg/models/api/common/v1/query_associated_action/selection.go
@@ -94,6 +94,10 @@ func (associatedSelection *Selection) MatchKeyValues(matchKeyValues datatypes.Ke
 		}
 	}
 
+	// multiple NotEquals only exclude the keyValues that have all of the excluded values
+	numberOfNotEquals := 0
+	numberOfExcluded := 0
+
 	// need to validate all the keys in the query against the passed in keyValues
 	for queryKey, valueQuery := range associatedSelection.KeyValues {
 		switch valueQuery.Comparison {
@@ -112,11 +116,12 @@ func (associatedSelection *Selection) MatchKeyValues(matchKeyValues datatypes.Ke
 				return false
 			}
 		case v1.NotEquals:
+			numberOfNotEquals++
 			if matchValue, ok := matchKeyValues[queryKey]; ok {
 				if valueQuery.TypeRestrictions.TypeWithinRange(matchValue.Type) {
 					// the exact key we don't want to find
 					if !matchValue.Less(valueQuery.Value) && !valueQuery.Value.Less(matchValue) {
-						return false
+						numberOfExcluded++
 					}
 				}
 			}
@@ -245,5 +250,5 @@ func (associatedSelection *Selection) MatchKeyValues(matchKeyValues datatypes.Ke
 		}
 	}
 
-	return true
+	return numberOfNotEquals == 0 || numberOfExcluded != numberOfNotEquals
 }
-- 
2.43.0


From e16ba3bafa42a61153b922ab18944b8e20136a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 09/65] fix: skip removed items instead of ending a match

---
 internal/datastructures/btree_associated/threadsafe_match.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_match.go b/internal/datastructures/btree_associated/threadsafe_match.go
index 9346a8c..d019565 100644
--- a/internal/datastructures/btree_associated/threadsafe_match.go
+++ b/internal/datastructures/btree_associated/threadsafe_match.go
@@ -136,7 +136,8 @@ func (tsat *threadsafeAssociatedTree) MatchAction(matchActionQuery *querymatchac
 
 		// run the callback for all the found IDs
 		for _, id := range validGroupedIDs.Values() {
-			shouldContinue := false
+			// NOTE: an id that was removed in the meantime does not run the callback and is simply skipped over
+			shouldContinue := true
 			tsat.associatedIDs.Find(datatypes.String(id), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
 				shouldContinue = onQueryPagination(item.(AssociatedKeyValues))
 				return shouldContinue
-- 
2.43.0


From 6cdaac7b0180265f06985d79f570cededdaa101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 10/65] fix: unlock the index when deleting an item that is
 being destroyed

---
 .../datastructures/btree_associated/threadsafe_delete.go     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index d3a5d66..cd3ea64 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -111,6 +111,11 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 
 			// try and delte the ID's value from the tree
 			if err := tsat.associatedIDs.Delete(datatypes.String(idToDelete), btreeDelete); err != nil {
+				// unlock the IDs
+				for _, idNode := range idNodes {
+					idNode.lock.Unlock()
+				}
+
 				switch err {
 				case btree.ErrorKeyDestroying:
 					// this is fine since the key is already being desstroyed.
-- 
2.43.0


From cabc884528051dc475c0598e64610c188a0b09cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 11/65] fix: never expose the id of an item whose create
 callback declined

---
 .../btree_associated/threadsafe_create.go        | 16 ++++++++++------
 .../btree_associated/threadsafe_delete.go        | 14 ++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_create.go b/internal/datastructures/btree_associated/threadsafe_create.go
index b20ec4a..39509f7 100644
--- a/internal/datastructures/btree_associated/threadsafe_create.go
+++ b/internal/datastructures/btree_associated/threadsafe_create.go
@@ -165,14 +165,15 @@ func (tsat *threadsafeAssociatedTree) Create(keyValues datatypes.KeyValues, onCr
 	} else {
 		// failed to crete the new item to save.
 
-		// unlock the IDs
+		// remove the unused ID before any other operation can find it and unlock the IDs
 		for _, idNode := range idNodes {
+			idNode.ids[keyValuesLen-1] = idNode.ids[keyValuesLen-1][:len(idNode.ids[keyValuesLen-1])-1]
 			idNode.creating.Add(-1)
 			idNode.lock.Unlock()
 		}
 
-		// call delete for the item to clean any newly created items
-		if err := tsat.Delete(keyValues, nil); err != nil {
+		// clean any newly created indexes
+		if err := tsat.deleteKeyValues(newID, keyValues); err != nil {
 			panic(err)
 		}
 
@@ -332,14 +333,17 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 	} else {
 		// failed to crete the new item to save.
 
-		// unlock the IDs
+		// remove the unused ID before any other operation can find it and unlock the IDs
 		for _, idNode := range idNodes {
+			idNode.ids[keyValuesLen-1] = idNode.ids[keyValuesLen-1][:len(idNode.ids[keyValuesLen-1])-1]
 			idNode.creating.Add(-1)
 			idNode.lock.Unlock()
 		}
 
-		// call delete for the item to clean everything up
-		tsat.Delete(keyValues, nil)
+		// clean any newly created indexes
+		if err := tsat.deleteKeyValues(newID, keyValues); err != nil {
+			panic(err)
+		}
 	}
 
 	return newID, nil
diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index cd3ea64..c3f7707 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -263,12 +263,14 @@ func (tsat *threadsafeAssociatedTree) deleteKeyValues(associatedID string, keyVa
 		defer idNode.lock.Unlock()
 
 		// remove the id from the id node
-		for index, value := range idNode.ids[keyValuesLen-1] {
-			if value == associatedID {
-				// swap with last element
-				idNode.ids[keyValuesLen-1][index] = idNode.ids[keyValuesLen-1][len(idNode.ids[keyValuesLen-1])-1]
-				// pop last element
-				idNode.ids[keyValuesLen-1] = idNode.ids[keyValuesLen-1][:len(idNode.ids[keyValuesLen-1])-1]
+		if len(idNode.ids) >= keyValuesLen {
+			for index, value := range idNode.ids[keyValuesLen-1] {
+				if value == associatedID {
+					// swap with last element
+					idNode.ids[keyValuesLen-1][index] = idNode.ids[keyValuesLen-1][len(idNode.ids[keyValuesLen-1])-1]
+					// pop last element
+					idNode.ids[keyValuesLen-1] = idNode.ids[keyValuesLen-1][:len(idNode.ids[keyValuesLen-1])-1]
+				}
 			}
 		}
 
-- 
2.43.0


From 635026426ed94738d8ba1691658b523f93ef9020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 12/65] fix: clean the index of a destroyed item without
 holding the ids tree

---
 .../btree_associated/threadsafe_associated.go | 18 +++++++
 .../btree_associated/threadsafe_create.go     | 47 ++++++++++++++++---
 .../btree_associated/threadsafe_destroy.go    | 23 +++++----
 3 files changed, 70 insertions(+), 18 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_associated.go b/internal/datastructures/btree_associated/threadsafe_associated.go
index 493f295..87163d6 100644
--- a/internal/datastructures/btree_associated/threadsafe_associated.go
+++ b/internal/datastructures/btree_associated/threadsafe_associated.go
@@ -81,3 +81,21 @@ func newIDNode() *threadsafeIDNode {
 		ids:      [][]string{},
 	}
 }
+
+// removeID drops an id from the node for the specific number of keyValues. The node must be locked by the caller
+func (idNode *threadsafeIDNode) removeID(keyValuesLen int, idToRemove string) {
+	if len(idNode.ids) < keyValuesLen {
+		return
+	}
+
+	ids := idNode.ids[keyValuesLen-1]
+	for index, id := range ids {
+		if id == idToRemove {
+			// swap with last element
+			ids[index] = ids[len(ids)-1]
+			// pop last element
+			idNode.ids[keyValuesLen-1] = ids[:len(ids)-1]
+			return
+		}
+	}
+}
diff --git a/internal/datastructures/btree_associated/threadsafe_create.go b/internal/datastructures/btree_associated/threadsafe_create.go
index 39509f7..da79710 100644
--- a/internal/datastructures/btree_associated/threadsafe_create.go
+++ b/internal/datastructures/btree_associated/threadsafe_create.go
@@ -123,7 +123,7 @@ func (tsat *threadsafeAssociatedTree) Create(keyValues datatypes.KeyValues, onCr
 	}
 
 	// the KeyValues already exist with an item. need to return an error because we failed to create
-	if idSet != nil && idSet.Size() == 1 {
+	if idSet != nil && idSet.Size() == 1 && !tsat.removeDestroyedID(idNodes, keyValuesLen, idSet.Values()[0]) {
 		// unlock the IDs
 		for _, idNode := range idNodes {
 			idNode.creating.Add(-1)
@@ -184,6 +184,32 @@ func (tsat *threadsafeAssociatedTree) Create(keyValues datatypes.KeyValues, onCr
 	return newID, nil
 }
 
+// removeDestroyedID drops an id from the locked idNodes, when the item for the id was already destroyed and only the
+// KeyValues still need to be cleaned up
+//
+//	RETURNS:
+//	- bool - true iff the item for the id no longer exists
+func (tsat *threadsafeAssociatedTree) removeDestroyedID(idNodes []*threadsafeIDNode, keyValuesLen int, associatedID string) bool {
+	destroyed := true
+	onFind := func(_ datatypes.EncapsulatedValue, _ any) bool {
+		destroyed = false
+		return false
+	}
+
+	if err := tsat.associatedIDs.Find(datatypes.String(associatedID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
+		// the item is still in the process of being destroyed
+		return false
+	}
+
+	if destroyed {
+		for _, idNode := range idNodes {
+			idNode.removeID(keyValuesLen, associatedID)
+		}
+	}
+
+	return destroyed
+}
+
 // CreateOrFind inserts or finds the value in the assoociation tree. This is thread safe to call with
 // any other functions on the same object.
 //
@@ -271,7 +297,9 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 	}
 
 	// must have been a race where 2 requests tried to create the same object
+	found := false
 	bTreeFind := func(key datatypes.EncapsulatedValue, item any) bool {
+		found = true
 		onFind(item.(AssociatedKeyValues))
 		return false
 	}
@@ -292,13 +320,20 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 			}
 		}
 
-		// unlock the IDs
-		for _, idNode := range idNodes {
-			idNode.creating.Add(-1)
-			idNode.lock.Unlock()
+		if found {
+			// unlock the IDs
+			for _, idNode := range idNodes {
+				idNode.creating.Add(-1)
+				idNode.lock.Unlock()
+			}
+
+			return idSet.Values()[0], nil
 		}
 
-		return idSet.Values()[0], nil
+		// the item was already destroyed and only the KeyValues still need to be cleaned up. So they can be used again
+		for _, idNode := range idNodes {
+			idNode.removeID(keyValuesLen, idSet.Values()[0])
+		}
 	}
 
 	// always save the new IDs so we can unlock the IDNodes
diff --git a/internal/datastructures/btree_associated/threadsafe_destroy.go b/internal/datastructures/btree_associated/threadsafe_destroy.go
index 90aadc8..bcd2b41 100644
--- a/internal/datastructures/btree_associated/threadsafe_destroy.go
+++ b/internal/datastructures/btree_associated/threadsafe_destroy.go
@@ -24,6 +24,8 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 	}
 	defer tsat.destroySyncer.ClearOperation()
 
+	var destroyedKeyValues datatypes.KeyValues
+
 	// Don't need to check that the associatedID is being destroyed. That is handled in the bTree code.
 	bTreeCanDestroy := func(_ datatypes.EncapsulatedValue, item any) bool {
 		associatedKeyValues := item.(AssociatedKeyValues)
@@ -35,9 +37,7 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 			}
 		}
 
-		// 2. the item was destroyed, need to remove the KeyValues that define the item
-		tsat.destroyKeyValues(associatedID, associatedKeyValues.KeyValues())
-
+		destroyedKeyValues = associatedKeyValues.KeyValues()
 		return true
 	}
 
@@ -51,6 +51,12 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 		}
 	}
 
+	// 2. the item was destroyed, need to remove the KeyValues that define the item. This cannot be done in the callback
+	// above since all other operations obtain the index locks before the lock for the associatedIDs
+	if destroyedKeyValues != nil {
+		tsat.destroyKeyValues(associatedID, destroyedKeyValues)
+	}
+
 	return nil
 }
 
@@ -99,15 +105,8 @@ func (tsat *threadsafeAssociatedTree) destroyKeyValues(associatedID string, keyV
 			idNode.lock.Lock()
 			defer idNode.lock.Unlock()
 
-			// remove the id from the id node
-			for index, value := range idNode.ids[keyLength-1] {
-				if value == idToDelete {
-					// swap with last element
-					idNode.ids[keyLength-1][index] = idNode.ids[keyLength-1][len(idNode.ids[keyLength-1])-1]
-					// pop last element
-					idNode.ids[keyLength-1] = idNode.ids[keyLength-1][:len(idNode.ids[keyLength-1])-1]
-				}
-			}
+			// remove the id from the id node. It can already be gone if the KeyValues were used to create a new item
+			idNode.removeID(keyLength, idToDelete)
 
 			// truncate the IDNode to free memory
 			for i := len(idNode.ids) - 1; i >= 0; i-- {
-- 
2.43.0


From ec91585ec0e1e37bfac8313b71df7207f51fa84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 13/65] fix: take the many id from the association so it is
 always set

---
 .../btree_one_to_many/one_to_many_item.go      | 18 +++++++++++++++++-
 .../btree_one_to_many/threadsafe_create.go     | 14 ++------------
 .../btree_one_to_many/threadsafe_delete.go     |  2 +-
 .../btree_one_to_many/threadsafe_destroy.go    |  4 ++--
 .../btree_one_to_many/threadsafe_match.go      |  2 +-
 .../btree_one_to_many/threadsafe_query.go      |  2 +-
 6 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/internal/datastructures/btree_one_to_many/one_to_many_item.go b/internal/datastructures/btree_one_to_many/one_to_many_item.go
index 6f0d648..c8572ba 100644
--- a/internal/datastructures/btree_one_to_many/one_to_many_item.go
+++ b/internal/datastructures/btree_one_to_many/one_to_many_item.go
@@ -1,6 +1,9 @@
 package btreeonetomany
 
-import "github.com/DanLavine/willow/pkg/models/datatypes"
+import (
+	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
+	"github.com/DanLavine/willow/pkg/models/datatypes"
+)
 
 type OneToManyItem interface {
 	// return the original value for the item saved in the tree
@@ -27,6 +30,19 @@ type oneToManyItem struct {
 	manyKeyValues datatypes.KeyValues
 }
 
+// newOneToManyItem is the item for a found Many Relationship. The manyID is not known when the saved item is created, so
+// it is always taken from the association
+func newOneToManyItem(associatedKeyValues btreeassociated.AssociatedKeyValues) *oneToManyItem {
+	savedItem := associatedKeyValues.Value().(*oneToManyItem)
+
+	return &oneToManyItem{
+		value:         savedItem.value,
+		oneID:         savedItem.oneID,
+		manyID:        associatedKeyValues.AssociatedID(),
+		manyKeyValues: savedItem.manyKeyValues,
+	}
+}
+
 func (otmi *oneToManyItem) Value() any {
 	return otmi.value
 }
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_create.go b/internal/datastructures/btree_one_to_many/threadsafe_create.go
index d79451d..b8cc2c8 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_create.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_create.go
@@ -49,8 +49,6 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 		threadsafeValuesNode := item.(*threadsafeValuesNode)
 
 		//create the many relationship
-		var newOneToManyItem *oneToManyItem
-		created := false
 		associatedCreate := func() any {
 			// create the original item passed in
 			item := onCreate()
@@ -58,19 +56,16 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 				return nil
 			}
 
-			created = true
-			newOneToManyItem = &oneToManyItem{
+			return &oneToManyItem{
 				value:         item,
 				oneID:         oneID,
 				manyKeyValues: manyKeyValues,
 			}
-
-			return newOneToManyItem
 		}
 
 		// found the many relationship
 		associatedFind := func(item btreeassociated.AssociatedKeyValues) {
-			onFind(item.Value().(OneToManyItem))
+			onFind(newOneToManyItem(item))
 		}
 
 		// create the many relationship
@@ -90,11 +85,6 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 		default:
 			panic(err)
 		}
-
-		// record the many ID if it was newly created. This is still thread safe as it is in the BTree's create method
-		if created {
-			newOneToManyItem.manyID = createOrFindID
-		}
 	}
 
 	bTreeCreateOne := func() any {
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_delete.go b/internal/datastructures/btree_one_to_many/threadsafe_delete.go
index 741e78f..cf840ae 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_delete.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_delete.go
@@ -32,7 +32,7 @@ func (tree *threadsafeOneToManyTree) DeleteOneOfManyByKeyValues(oneID string, ma
 	bTreeAssociatedDeleteMany := func(item btreeassociated.AssociatedKeyValues) bool {
 		deleted := true
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(newOneToManyItem(item))
 		}
 
 		return deleted
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_destroy.go b/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
index 4966d31..97fb125 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
@@ -29,7 +29,7 @@ func (tree *threadsafeOneToManyTree) DestroyOne(oneID string, canDelete OneToMan
 	deleted := true
 	bTreeAssociatedDelete := func(item btreeassociated.AssociatedKeyValues) bool {
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(newOneToManyItem(item))
 		}
 
 		return deleted
@@ -83,7 +83,7 @@ func (tree *threadsafeOneToManyTree) DestroyOneOfManyByID(oneID string, manyID s
 	bTreeAssociatedDestoyMany := func(item btreeassociated.AssociatedKeyValues) bool {
 		deleted := true
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(newOneToManyItem(item))
 		}
 
 		return deleted
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_match.go b/internal/datastructures/btree_one_to_many/threadsafe_match.go
index 9594a42..1dd9d55 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_match.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_match.go
@@ -29,7 +29,7 @@ func (tree *threadsafeOneToManyTree) MatchAction(oneID string, matchActionQuery
 	}
 
 	bTreeAssociatedOnIterate := func(item btreeassociated.AssociatedKeyValues) bool {
-		return onIterate(item.Value().(OneToManyItem))
+		return onIterate(newOneToManyItem(item))
 	}
 
 	bTreeFindOne := func(key datatypes.EncapsulatedValue, item any) bool {
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_query.go b/internal/datastructures/btree_one_to_many/threadsafe_query.go
index ae3cb0a..c1bdfb5 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_query.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_query.go
@@ -33,7 +33,7 @@ func (tree *threadsafeOneToManyTree) QueryAction(oneID string, query *queryassoc
 	}
 
 	bTreeAssociatedIterate := func(item btreeassociated.AssociatedKeyValues) bool {
-		return onIterate(item.Value().(OneToManyItem))
+		return onIterate(newOneToManyItem(item))
 	}
 
 	bTreeFindOne := func(key datatypes.EncapsulatedValue, item any) bool {
-- 
2.43.0


From 83c0534437e2378ba42a7db2071e6c4119c353ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 14/65] fix: delete by id only removes the item with the id

---
 .../btree_associated/threadsafe_delete.go             | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index c3f7707..979b679 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -232,7 +232,16 @@ func (tsat *threadsafeAssociatedTree) DeleteByAssociatedID(assocaitedID string,
 	}
 
 	if keyValues != nil {
-		return tsat.Delete(keyValues, canDelete)
+		// the item could have been replaced by another one with the same keyValues since it was found
+		canDeleteID := func(item AssociatedKeyValues) bool {
+			if item.AssociatedID() != assocaitedID {
+				return false
+			}
+
+			return canDelete == nil || canDelete(item)
+		}
+
+		return tsat.Delete(keyValues, canDeleteID)
 	}
 
 	return nil
-- 
2.43.0


From 21c1d11f739d630a667cd9d3480c621c026a4cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 15/65] fix: exclude items created while a not-equals query
 runs

---
 .../btree_associated/threadsafe_query.go      | 38 ++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_query.go b/internal/datastructures/btree_associated/threadsafe_query.go
index f47f7cc..23c477d 100644
--- a/internal/datastructures/btree_associated/threadsafe_query.go
+++ b/internal/datastructures/btree_associated/threadsafe_query.go
@@ -245,19 +245,8 @@ func (tsat *threadsafeAssociatedTree) findIDs(associatedSelection *queryassociat
 				validIDs.AddBulk(allIDS)
 			}
 		case v1common.NotEquals:
-			_ = tsat.keys.Find(datatypes.String(queryKey), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
-				valuesNode := item.(*threadsafeValuesNode)
-
-				_ = valuesNode.values.Find(associatedValue.Value, associatedValue.TypeRestrictions, getAllIDs(&allIDS))
-				return false
-			})
-
-			if invalidAdded {
-				invalidIDs.Intersection(allIDS)
-			} else {
-				invalidAdded = true
-				invalidIDs.AddBulk(allIDS)
-			}
+			// these are processed last. Otherwise items created while the query runs could be found, but not excluded
+			continue
 		case v1common.LessThan:
 			_ = tsat.keys.Find(datatypes.String(queryKey), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
 				valuesNode := item.(*threadsafeValuesNode)
@@ -338,6 +327,29 @@ func (tsat *threadsafeAssociatedTree) findIDs(associatedSelection *queryassociat
 		})
 	}
 
+	// find all the IDs that need to be excluded
+	for _, queryKey := range associatedSelection.SortedKeys() {
+		allIDS := []string{}
+		associatedValue := associatedSelection.KeyValues[queryKey]
+		if associatedValue.Comparison != v1common.NotEquals {
+			continue
+		}
+
+		_ = tsat.keys.Find(datatypes.String(queryKey), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
+			valuesNode := item.(*threadsafeValuesNode)
+
+			_ = valuesNode.values.Find(associatedValue.Value, associatedValue.TypeRestrictions, getAllIDs(&allIDS))
+			return false
+		})
+
+		if invalidAdded {
+			invalidIDs.Intersection(allIDS)
+		} else {
+			invalidAdded = true
+			invalidIDs.AddBulk(allIDS)
+		}
+	}
+
 	// filter the IDs to a list of what is only acceptable
 	for _, id := range invalidIDs.Values() {
 		validIDs.Remove(id)
-- 
2.43.0


From b9a4f267ee31c5cd43a81cbf08e2e8f14111d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 16/65] fix: keep the key values of a many item apart from the
 caller's map

---
 internal/datastructures/btree_one_to_many/one_to_many_item.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/datastructures/btree_one_to_many/one_to_many_item.go b/internal/datastructures/btree_one_to_many/one_to_many_item.go
index c8572ba..3af36ec 100644
--- a/internal/datastructures/btree_one_to_many/one_to_many_item.go
+++ b/internal/datastructures/btree_one_to_many/one_to_many_item.go
@@ -31,7 +31,7 @@ type oneToManyItem struct {
 }
 
 // newOneToManyItem is the item for a found Many Relationship. The manyID is not known when the saved item is created, so
-// it is always taken from the association
+// it is always taken from the association. The keyValues are those that were saved, and not the callers own map
 func newOneToManyItem(associatedKeyValues btreeassociated.AssociatedKeyValues) *oneToManyItem {
 	savedItem := associatedKeyValues.Value().(*oneToManyItem)
 
@@ -39,7 +39,7 @@ func newOneToManyItem(associatedKeyValues btreeassociated.AssociatedKeyValues) *
 		value:         savedItem.value,
 		oneID:         savedItem.oneID,
 		manyID:        associatedKeyValues.AssociatedID(),
-		manyKeyValues: savedItem.manyKeyValues,
+		manyKeyValues: associatedKeyValues.KeyValues(),
 	}
 }
 
-- 
2.43.0


From 418ec25a6a01e2e1b36347da7e32191b238bce37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 17/65] fix: reject user defined types as the data of a value

They passed the validation by kind and then panicked when the value was compared or encoded.
---
 pkg/models/datatypes/encapsulated_value.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/models/datatypes/encapsulated_value.go b/pkg/models/datatypes/encapsulated_value.go
index d31ff57..adc83ad 100644
--- a/pkg/models/datatypes/encapsulated_value.go
+++ b/pkg/models/datatypes/encapsulated_value.go
@@ -175,6 +175,11 @@ func ValidateTypeAndData(dataType, minAllowedKeyType, maxAllowedKeyType DataType
 
 		kind := reflect.ValueOf(data).Kind()
 
+		// user defined types (type name string) share the kind, but cannot be casted to the data type
+		if reflect.TypeOf(data).PkgPath() != "" {
+			return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'%s' has Data of type: %s", dataType.ToString(), reflect.TypeOf(data).String())}
+		}
+
 		switch dataType {
 		case T_uint8:
 			if kind != reflect.Uint8 {
-- 
2.43.0


From 346af53fef7bb6b97be1ca2f21cf4e20d86ed64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 18/65] fix: reject NaN as the data of a value

NaN is not ordered, so a tree that stores it can no longer find its neighbours.
---
 pkg/models/datatypes/encapsulated_value.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/models/datatypes/encapsulated_value.go b/pkg/models/datatypes/encapsulated_value.go
index adc83ad..e2876b3 100644
--- a/pkg/models/datatypes/encapsulated_value.go
+++ b/pkg/models/datatypes/encapsulated_value.go
@@ -3,6 +3,7 @@ package datatypes
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 
@@ -225,10 +226,16 @@ func ValidateTypeAndData(dataType, minAllowedKeyType, maxAllowedKeyType DataType
 			if kind != reflect.Float32 {
 				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'float32' has Data of kind: %s", kind.String())}
 			}
+			if math.IsNaN(float64(data.(float32))) {
+				return &errors.ModelError{Field: "Data", Err: fmt.Errorf("'float32' cannot be NaN since it has no order")}
+			}
 		case T_float64:
 			if kind != reflect.Float64 {
 				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'float64' has Data of kind: %s", kind.String())}
 			}
+			if math.IsNaN(data.(float64)) {
+				return &errors.ModelError{Field: "Data", Err: fmt.Errorf("'float64' cannot be NaN since it has no order")}
+			}
 		case T_string:
 			if kind != reflect.String {
 				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'string' has Data of kind: %s", kind.String())}
-- 
2.43.0


From a9e6229407ac6dfc0dcb4aa9507104cc013b52a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 19/65] fix: reject a queue's MaxItems below -1

The limiter refuses such an override, after the queue was accepted.
---
 pkg/models/api/willow/v1/queue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/models/api/willow/v1/queue.go b/pkg/models/api/willow/v1/queue.go
index 09922ba..3b3fff8 100644
--- a/pkg/models/api/willow/v1/queue.go
+++ b/pkg/models/api/willow/v1/queue.go
@@ -110,6 +110,10 @@ func (queueProperties *QueueProperties) Validate() *errors.ModelError {
 		return &errors.ModelError{Field: "MaxItems", Err: fmt.Errorf("recevied a null value")}
 	}
 
+	if *queueProperties.MaxItems < -1 {
+		return &errors.ModelError{Field: "MaxItems", Err: fmt.Errorf("is set below the minimum value of -1. Value must be [-1 (ulimited) | 0+ (zero or more specific limit)")}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 26e3115bbaa7a478d824bbd82d4b0a82ddcd3bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 20/65] fix: reject null channels instead of dereferencing them

---
 pkg/models/api/willow/v1/channels.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/models/api/willow/v1/channels.go b/pkg/models/api/willow/v1/channels.go
index 1cb462d..546c13d 100644
--- a/pkg/models/api/willow/v1/channels.go
+++ b/pkg/models/api/willow/v1/channels.go
@@ -18,6 +18,10 @@ func (c Channels) Validate() *errors.ModelError {
 	}
 
 	for index, singleChan := range c {
+		if singleChan == nil {
+			return &errors.ModelError{Field: fmt.Sprintf("[%d]", index), Err: fmt.Errorf("Channel cannot be null")}
+		}
+
 		if err := singleChan.Validate(); err != nil {
 			return &errors.ModelError{Field: fmt.Sprintf("[%d]", index), Child: err}
 		}
-- 
2.43.0


From 534f551da49e9bf62fa2e698b75d7df6b4a2eea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 21/65] fix: reject negative lock timeouts

The ticker of the lock panics for them and takes the service down.
---
 pkg/models/api/locker/v1/lock.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/models/api/locker/v1/lock.go b/pkg/models/api/locker/v1/lock.go
index 0df335d..0c7de33 100644
--- a/pkg/models/api/locker/v1/lock.go
+++ b/pkg/models/api/locker/v1/lock.go
@@ -118,8 +118,8 @@ type LockProperties struct {
 
 func (lockProperties *LockProperties) Validate() *errors.ModelError {
 	if lockProperties.Timeout != nil {
-		if *lockProperties.Timeout == 0 {
-			return &errors.ModelError{Field: "Timeout", Err: fmt.Errorf("received a timeout duration of 0. Requires a valid time duration represented as int64 nanosecond")}
+		if *lockProperties.Timeout <= 0 {
+			return &errors.ModelError{Field: "Timeout", Err: fmt.Errorf("received a timeout duration of %d. Requires a valid time duration represented as int64 nanosecond", *lockProperties.Timeout)}
 		}
 	}
 
-- 
2.43.0


From 572544c8e03767f04d2d6f71c3d7e606f98b89fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 22/65] fix: reject item timeouts that are not positive

The ticker of the item's heartbeater panics for them and takes the service down.
---
 pkg/models/api/willow/v1/item.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/models/api/willow/v1/item.go b/pkg/models/api/willow/v1/item.go
index e1f3cd6..6c16e3f 100644
--- a/pkg/models/api/willow/v1/item.go
+++ b/pkg/models/api/willow/v1/item.go
@@ -141,6 +141,10 @@ func (itemProperties *ItemProperties) Validate() *errors.ModelError {
 		return &errors.ModelError{Field: "TimeoutDuration", Err: fmt.Errorf("received a null value")}
 	}
 
+	if *itemProperties.TimeoutDuration <= 0 {
+		return &errors.ModelError{Field: "TimeoutDuration", Err: fmt.Errorf("must be greater than 0, but received '%d'", *itemProperties.TimeoutDuration)}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From c1a5807f9d7ca4c8411fb7d53e84001836bbed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 23/65] fix: reject match queries whose maximum is below their
 minimum

The stores panic when they generate the key combinations for such a query.
---
 pkg/models/api/common/v1/query_match_action/match_query.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/models/api/common/v1/query_match_action/match_query.go b/pkg/models/api/common/v1/query_match_action/match_query.go
index 1ac3095..1ae241e 100644
--- a/pkg/models/api/common/v1/query_match_action/match_query.go
+++ b/pkg/models/api/common/v1/query_match_action/match_query.go
@@ -34,6 +34,12 @@ func (matchActionQuery *MatchActionQuery) Validate() *errors.ModelError {
 		}
 	}
 
+	if matchActionQuery.MinNumberOfPermutationKeyValues != nil && matchActionQuery.MaxNumberOfPermutationKeyValues != nil {
+		if *matchActionQuery.MaxNumberOfPermutationKeyValues < *matchActionQuery.MinNumberOfPermutationKeyValues {
+			return &errors.ModelError{Err: fmt.Errorf("MaxNumberOfPermutationKeyValues is less than MinNumberOfPermutationKeyValues")}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From cbf8aa2cc9bdfef959efa1851942cef0c2886b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 24/65] fix: document the environment variables that are read

The usage named four variables that are ignored.
---
 internal/config/limiter_config.go | 6 +++---
 internal/config/willow_config.go  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/config/limiter_config.go b/internal/config/limiter_config.go
index e166f76..c7fd646 100644
--- a/internal/config/limiter_config.go
+++ b/internal/config/limiter_config.go
@@ -41,16 +41,16 @@ All flags will use the env vars if they are set instead of command line paramete
 	}
 
 	limiterConfig := &LimiterConfig{
-		logLevel: limiterFlagSet.String("log-level", "info", "log level [debug | info]. Can be set by env var LIMITER_LOG_LEVEL"),
+		logLevel: limiterFlagSet.String("log-level", "info", "log level [debug | info]. Can be set by env var LOG_LEVEL"),
 
 		LimiterPort: limiterFlagSet.String("port", "8082", "default port for the limitter server to run on. Can be set by env var LIMITER_PORT"),
 
-		ServerCA:  limiterFlagSet.String("server-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_CA"),
+		ServerCA:  limiterFlagSet.String("server-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_SERVER_CA"),
 		ServerKey: limiterFlagSet.String("server-key", "", "Server private key location on disk. Can be set by env var LIMITER_SERVER_KEY"),
 		ServerCRT: limiterFlagSet.String("server-crt", "", "Server ssl certificate location on disk. Can be st by env var LIMITER_SERVER_CRT"),
 
 		LockerURL:       limiterFlagSet.String("locker-url", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_LOCKER_URL"),
-		LockerClientCA:  limiterFlagSet.String("locker-client-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_LOCKER_CLIENT_CA"),
+		LockerClientCA:  limiterFlagSet.String("locker-client-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_LOCKER_CA"),
 		LockerClientKey: limiterFlagSet.String("locker-client-key", "", "Client private key location on disk. Can be set by env var LIMITER_LOCKER_CLIENT_KEY"),
 		LockerClientCRT: limiterFlagSet.String("locker-client-crt", "", "Client ssl certificate location on disk. Can be set by env var LIMITER_LOCKER_CLIENT_CRT"),
 
diff --git a/internal/config/willow_config.go b/internal/config/willow_config.go
index 38ca504..4f075fe 100644
--- a/internal/config/willow_config.go
+++ b/internal/config/willow_config.go
@@ -64,7 +64,7 @@ All flags will use the env vars if they are set instead of command line paramete
 		ServerKey:        willowFlagSet.String("server-key", "", "Server private key location on disk. Can be set by env var WILLOW_SERVER_KEY"),
 		ServerCRT:        willowFlagSet.String("server-crt", "", "Server ssl certificate location on disk. Can be st by env var WILLOW_SERVER_CRT"),
 		LimiterURL:       willowFlagSet.String("limiter-url", "", "CA file used to generate server certs iff one was used. Can be set by env var WILLOW_LIMITER_URL"),
-		LimiterClientCA:  willowFlagSet.String("limiter-client-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var WILLOW_LIMITER_CLIENT_CA"),
+		LimiterClientCA:  willowFlagSet.String("limiter-client-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var WILLOW_LIMITER_CA"),
 		LimiterClientKey: willowFlagSet.String("limiter-client-key", "", "Client private key location on disk. Can be set by env var WILLOW_LIMITER_CLIENT_KEY"),
 		LimiterClientCRT: willowFlagSet.String("limiter-client-crt", "", "Client ssl certificate location on disk. Can be set by env var WILLOW_LIMITER_CLIENT_CRT"),
 		StorageConfig: &StorageConfig{
-- 
2.43.0


From 74aaec7bbbf0f13077c5952269d3db4d409c6e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 25/65] fix: let the environment turn insecure http off

The environment is documented to win over the flags, but 'false' was ignored.
---
 internal/config/limiter_config.go | 3 +++
 internal/config/locker_config.go  | 3 +++
 internal/config/willow_config.go  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/internal/config/limiter_config.go b/internal/config/limiter_config.go
index c7fd646..244b71a 100644
--- a/internal/config/limiter_config.go
+++ b/internal/config/limiter_config.go
@@ -123,6 +123,9 @@ func (lc *LimiterConfig) parseEnv() {
 		if strings.ToLower(limiterInsecureHTTP) == "true" {
 			trueValue := true
 			lc.InsecureHttp = &trueValue
+		} else if strings.ToLower(limiterInsecureHTTP) == "false" {
+			falseValue := false
+			lc.InsecureHttp = &falseValue
 		}
 	}
 }
diff --git a/internal/config/locker_config.go b/internal/config/locker_config.go
index 25e2f8f..a39aa9d 100644
--- a/internal/config/locker_config.go
+++ b/internal/config/locker_config.go
@@ -93,6 +93,9 @@ func (lc *LockerConfig) parseEnv() error {
 		if insecureHTTP == "true" {
 			trueValue := true
 			lc.InsecureHttp = &trueValue
+		} else if insecureHTTP == "false" {
+			falseValue := false
+			lc.InsecureHttp = &falseValue
 		}
 	}
 
diff --git a/internal/config/willow_config.go b/internal/config/willow_config.go
index 4f075fe..54b6600 100644
--- a/internal/config/willow_config.go
+++ b/internal/config/willow_config.go
@@ -111,6 +111,9 @@ func (wc *WillowConfig) parseEnv() error {
 		if willowInsecureHTTP == "true" {
 			trueValue := true
 			wc.InsecureHttp = &trueValue
+		} else if willowInsecureHTTP == "false" {
+			falseValue := false
+			wc.InsecureHttp = &falseValue
 		}
 	}
 	//// ca key
-- 
2.43.0


From ea1dd7c35d0166816c79531d89af3a13edd7053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 26/65] fix: validate the port of every service

Negative ports were accepted, and Willow's port was not looked at.
---
 internal/config/limiter_config.go | 2 +-
 internal/config/locker_config.go  | 2 +-
 internal/config/willow_config.go  | 9 +++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/config/limiter_config.go b/internal/config/limiter_config.go
index 244b71a..14766ff 100644
--- a/internal/config/limiter_config.go
+++ b/internal/config/limiter_config.go
@@ -145,7 +145,7 @@ func (lc *LimiterConfig) validate() error {
 	LimiterPort, err := strconv.Atoi(*lc.LimiterPort)
 	if err != nil {
 		return fmt.Errorf("error parsing 'limiter-port': %w", err)
-	} else if LimiterPort > 65535 {
+	} else if LimiterPort < 0 || LimiterPort > 65535 {
 		return fmt.Errorf("flag 'limiter-port' is invalid: '%d'. Must be set to a proper port below 65536", LimiterPort)
 	}
 
diff --git a/internal/config/locker_config.go b/internal/config/locker_config.go
index a39aa9d..a0aa971 100644
--- a/internal/config/locker_config.go
+++ b/internal/config/locker_config.go
@@ -128,7 +128,7 @@ func (lc *LockerConfig) validate() error {
 	LockerPort, err := strconv.Atoi(*lc.Port)
 	if err != nil {
 		return fmt.Errorf("error parsing 'port': %w", err)
-	} else if LockerPort > 65535 {
+	} else if LockerPort < 0 || LockerPort > 65535 {
 		return fmt.Errorf("flag 'port' is invalid: '%d'. Must be set to a proper port below 65536", LockerPort)
 	}
 
diff --git a/internal/config/willow_config.go b/internal/config/willow_config.go
index 54b6600..8212485 100644
--- a/internal/config/willow_config.go
+++ b/internal/config/willow_config.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"os"
+	"strconv"
 )
 
 var (
@@ -162,6 +163,14 @@ func (wc *WillowConfig) validate() error {
 		return fmt.Errorf("expected config 'LogLevel' to be [debug | info]. Received: '%s'", *wc.logLevel)
 	}
 
+	// port
+	port, err := strconv.Atoi(*wc.Port)
+	if err != nil {
+		return fmt.Errorf("error parsing 'port': %w", err)
+	} else if port < 0 || port > 65535 {
+		return fmt.Errorf("flag 'port' is invalid: '%d'. Must be set to a proper port below 65536", port)
+	}
+
 	if *wc.InsecureHttp {
 		if *wc.ServerCA != "" {
 			return fmt.Errorf("flag 'server-ca' cannot be set with 'insecure-http'")
-- 
2.43.0


From 978a223e801166f8e30eb0a7aff8e1de48cd21ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 27/65] fix: accept client certificates that are for clients
 only

The verification asked for a server certificate by default.
---
 pkg/clients/client_config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/clients/client_config.go b/pkg/clients/client_config.go
index 1817151..d3566d5 100644
--- a/pkg/clients/client_config.go
+++ b/pkg/clients/client_config.go
@@ -78,7 +78,7 @@ func (cfg *Config) Validate() error {
 				return fmt.Errorf("faled to parse ClientCRTFile: %w", err)
 			}
 
-			if _, err = cert.Verify(x509.VerifyOptions{Roots: rootCAs}); err != nil {
+			if _, err = cert.Verify(x509.VerifyOptions{Roots: rootCAs, KeyUsages: []x509.ExtKeyUsage{x509.ExtKeyUsageAny}}); err != nil {
 				return fmt.Errorf("failed to verify certs: %w", err)
 			}
 
-- 
2.43.0


From b0670877f99d4ad8431879ea20364869d4a8eb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 28/65] fix: report a failed lock release to the client

---
 internal/locker/api/v1/handlers/locker_handler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/locker/api/v1/handlers/locker_handler.go b/internal/locker/api/v1/handlers/locker_handler.go
index 02a7b4f..7c84955 100644
--- a/internal/locker/api/v1/handlers/locker_handler.go
+++ b/internal/locker/api/v1/handlers/locker_handler.go
@@ -144,7 +144,10 @@ func (lh *lockerHandler) Release(w http.ResponseWriter, r *http.Request) {
 	namedParameters := urlrouter.GetNamedParamters(r.Context())
 
 	// release the lock
-	lh.generalLocker.Release(ctx, namedParameters["lock_id"], lockClaim)
+	if releaseError := lh.generalLocker.Release(ctx, namedParameters["lock_id"], lockClaim); releaseError != nil {
+		_, _ = api.ModelEncodeResponse(w, releaseError.StatusCode, releaseError)
+		return
+	}
 
 	// respond and ignore the errors
 	_, _ = api.ModelEncodeResponse(w, http.StatusNoContent, nil)
-- 
2.43.0


From dec8fabb3bdd44fa9b2555d36863c64f6d843b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 29/65] fix: list the held locks with the time they have left

---
 .../locker/lock_manager/exclusive_locker.go   | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index ee21635..db70a0d 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -144,12 +144,14 @@ func (exclusiveLocker *exclusiveLocker) LocksQuery(ctx context.Context, query *q
 	exclusiveLocker.exclusiveLocks.QueryAction(query, func(associatedKeyValues btreeassociated.AssociatedKeyValues) bool {
 		exclusiveLock := associatedKeyValues.Value().(*exclusiveLock)
 
-		var expireTime time.Duration
+		sessionID := exclusiveLock.getSessionID()
+		lockTimeout := exclusiveLock.getLockTimeout()
 		lastHeartbeatTime := exclusiveLock.getLastHeartbeatTime()
-		if lastHeartbeatTime == (time.Time{}) {
-			expireTime = 0
-		} else {
-			expireTime = time.Since(lastHeartbeatTime)
+		heldOrWaiting := exclusiveLock.clientsWaitingForClaim.Load()
+
+		// the lock is changing hands, or is about to be removed. So there is no client holding it at the moment
+		if sessionID == "" || lockTimeout == 0 || lastHeartbeatTime.IsZero() || heldOrWaiting == 0 {
+			return true
 		}
 
 		locks = append(locks, &v1locker.Lock{
@@ -158,14 +160,14 @@ func (exclusiveLocker *exclusiveLocker) LocksQuery(ctx context.Context, query *q
 					KeyValues: associatedKeyValues.KeyValues(),
 				},
 				Properties: &v1locker.LockProperties{
-					Timeout: &exclusiveLock.lockTimeout,
+					Timeout: &lockTimeout,
 				},
 			},
 			State: &v1locker.LockState{
 				LockID:             associatedKeyValues.AssociatedID(),
-				SessionID:          exclusiveLock.sessionID,
-				TimeTillExipre:     expireTime,
-				LocksHeldOrWaiting: exclusiveLock.clientsWaitingForClaim.Load(),
+				SessionID:          sessionID,
+				TimeTillExipre:     max(0, lockTimeout-time.Since(lastHeartbeatTime)),
+				LocksHeldOrWaiting: heldOrWaiting,
 			},
 		})
 
-- 
2.43.0


From c08fc15f96fc8ba9204780aa985da295faf8779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 30/65] fix: refuse claims of an old session while nobody holds
 the lock

---
 internal/locker/lock_manager/exclusive_lock.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/locker/lock_manager/exclusive_lock.go b/internal/locker/lock_manager/exclusive_lock.go
index 4874d61..30e9a5c 100644
--- a/internal/locker/lock_manager/exclusive_lock.go
+++ b/internal/locker/lock_manager/exclusive_lock.go
@@ -124,6 +124,12 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 
 			exclusiveLock.clientLostResponse <- false
 
+		// heartbeat or release from an old session, when no client currently holds the lock
+		case <-exclusiveLock.heartbeat:
+			exclusiveLock.heartbeatResponse <- false
+		case <-exclusiveLock.release:
+			exclusiveLock.releaseResponse <- failedRelease
+
 		// client was able to claim the lock.
 		// NOTE: this is a write operation so the caller can get a callback function to call. This way they do not
 		// need to save off a variable for the lock in the exclusive_locker
-- 
2.43.0


From ae399d94a0a7a7390d37e4fa6606df96e88c5287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:41 +0000
Subject: [PATCH 31/65] fix: notice a lost lock in time when heartbeats hang,
 are slow or are answered with not found

---
 pkg/clients/locker_client/lock.go | 43 ++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/pkg/clients/locker_client/lock.go b/pkg/clients/locker_client/lock.go
index c5a0828..9911d76 100644
--- a/pkg/clients/locker_client/lock.go
+++ b/pkg/clients/locker_client/lock.go
@@ -44,6 +44,10 @@ type lock struct {
 	heartbeating chan struct{}
 	released     *atomic.Bool
 
+	// used to interrupt a heartbeat request when the lock is released
+	heartbeatCtx    context.Context
+	cancelHeartbeat context.CancelFunc
+
 	// remote server client configuration
 	url    string
 	client *http.Client
@@ -61,6 +65,8 @@ type lock struct {
 }
 
 func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heartbeatErrorCallback func(err error), releaseLockCallback func()) *lock {
+	heartbeatCtx, cancelHeartbeat := context.WithCancel(context.Background())
+
 	lock := &lock{
 		doneOnce: new(sync.Once),
 		done:     make(chan struct{}),
@@ -68,6 +74,9 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 		heartbeating: make(chan struct{}),
 		released:     new(atomic.Bool),
 
+		heartbeatCtx:    heartbeatCtx,
+		cancelHeartbeat: cancelHeartbeat,
+
 		client: client,
 		url:    url,
 
@@ -90,6 +99,10 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 		ticker := time.NewTicker(adjustedTimeout / 3)
 		timeoutTicker := time.NewTicker(lock.timeout)
 
+		// the service keeps the lock for the timeout, counted from the last heartbeat that it answered. The client cannot
+		// know when the service processed a heartbeat, so the time of sending it is what counts
+		expires := time.Now().Add(lock.timeout)
+
 		for {
 			select {
 			case <-lock.done:
@@ -105,8 +118,13 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 					return
 				}
 
-				req, err := http.NewRequest("POST", fmt.Sprintf("%s/v1/locks/%s/heartbeat", url, lockResponse.State.LockID), bytes.NewBuffer(lockClaimData))
+				// a service that does not answer must not delay noticing that the lock is lost
+				sent := time.Now()
+				reqCtx, cancelReq := context.WithDeadline(lock.heartbeatCtx, expires)
+
+				req, err := http.NewRequestWithContext(reqCtx, "POST", fmt.Sprintf("%s/v1/locks/%s/heartbeat", url, lockResponse.State.LockID), bytes.NewBuffer(lockClaimData))
 				if err != nil {
+					cancelReq()
 					if heartbeatErrorCallback != nil {
 						heartbeatErrorCallback(fmt.Errorf("failed to setup heartbeat request: %w", err))
 					}
@@ -116,6 +134,13 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 
 				resp, err := client.Do(req)
 				if err != nil {
+					cancelReq()
+
+					if lock.heartbeatCtx.Err() != nil {
+						// release was called
+						continue
+					}
+
 					if heartbeatErrorCallback != nil {
 						heartbeatErrorCallback(fmt.Errorf("failed to heartbeat: %w", err))
 					}
@@ -126,9 +151,12 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 				switch resp.StatusCode {
 				case http.StatusOK:
 					// this is the success case and the heartbeat passed
-					timeoutTicker.Reset(lock.timeout)
-				case http.StatusConflict, http.StatusBadRequest:
-					// there was an error with the request body or session id
+					expires = sent.Add(lock.timeout)
+					if remaining := time.Until(expires); remaining > 0 {
+						timeoutTicker.Reset(remaining)
+					}
+				case http.StatusConflict, http.StatusBadRequest, http.StatusNotFound:
+					// there was an error with the request body or session id, or the service does not have the lock any more
 					apiError := &errors.Error{}
 					if err := api.ModelDecodeResponse(resp, apiError); err != nil {
 						if heartbeatErrorCallback != nil {
@@ -140,6 +168,8 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 						}
 					}
 
+					cancelReq()
+
 					// release the lock
 					return
 				default:
@@ -147,6 +177,8 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 						heartbeatErrorCallback(fmt.Errorf("received an unexpected status code: %d", resp.StatusCode))
 					}
 				}
+
+				cancelReq()
 			}
 		}
 	}()
@@ -222,6 +254,9 @@ func (l *lock) stop() {
 		// remove the item from the client's BTree
 		l.releaseLockCallback()
 
+		// stop waiting for the answer of a heartbeat
+		l.cancelHeartbeat()
+
 		// close done
 		close(l.done)
 	})
-- 
2.43.0


From 25c3b232e038f28fff40cbe81acec9e7c4829392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:52 +0000
Subject: [PATCH 32/65] fix: waiting for one lock does not block the other
 locks of the same client

---
 pkg/clients/locker_client/locker_client.go | 88 ++++++++++++++++------
 1 file changed, 63 insertions(+), 25 deletions(-)

diff --git a/pkg/clients/locker_client/locker_client.go b/pkg/clients/locker_client/locker_client.go
index 7b1ea7b..7ebb61a 100644
--- a/pkg/clients/locker_client/locker_client.go
+++ b/pkg/clients/locker_client/locker_client.go
@@ -53,10 +53,19 @@ type LockClient struct {
 	url    string
 	client *http.Client
 
-	// each item in the locks tree's value is a lock
+	// each item in the locks tree's value is a *heldLock
 	locks btreeassociated.BTreeAssociated
 }
 
+// heldLock is the entry of the client's tree for a lock that is held, or is being obtained
+type heldLock struct {
+	// closed when the attempt to obtain the lock finished
+	obtained chan struct{}
+
+	// set before obtained is closed. Is nil if the lock was not obtained
+	lock Lock
+}
+
 //	PARAMS
 //	- cfg - configuration for the HTTP(s) client
 //
@@ -121,11 +130,21 @@ func (lc *LockClient) Healthy() error {
 // The returned lock will automatically heartbeat to ensure that the lock remains valid. If the heartbeat fails for some reason,
 // the channel returned from the `lock.Done()` call will be closed. It is up to the clients to monitor for a lock being lost
 func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock, heartbeatErrorCallback func(keyValue datatypes.KeyValues, err error)) (Lock, error) {
-	var returnLock Lock
 	var lockErr error
 
+	// cleans up the client's entry for the lock
+	removeEntry := func() {
+		canDelete := func(_ btreeassociated.AssociatedKeyValues) bool {
+			return true
+		}
+
+		if err := lc.locks.Delete(lockRequest.Spec.DBDefinition.KeyValues, canDelete); err != nil {
+			panic(fmt.Sprintf("failed to relase the lock's memeory footprint: %s", err.Error()))
+		}
+	}
+
 	// obtain the desired lock
-	onCreate := func() any {
+	obtain := func() Lock {
 		for {
 			// encode and validate the model
 			data, err := api.ObjectEncodeRequest(lockRequest)
@@ -167,27 +186,14 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 					return nil
 				}
 
-				// wrapper is needed so we ensure that the lock is removed from the tree on removal
-				lostLockWrapper := func() {
-					canDelete := func(_ btreeassociated.AssociatedKeyValues) bool {
-						return true
-					}
-
-					if err = lc.locks.Delete(lockRequest.Spec.DBDefinition.KeyValues, canDelete); err != nil {
-						panic(fmt.Sprintf("failed to relase the lock's memeory footprint: %s", err.Error()))
-					}
-				}
-
 				if heartbeatErrorCallback != nil {
 					errCallback := func(err error) {
 						heartbeatErrorCallback(lockRequest.Spec.DBDefinition.KeyValues, err)
 					}
-					returnLock = newLock(createLockResponse, lc.url, lc.client, errCallback, lostLockWrapper)
-				} else {
-					returnLock = newLock(createLockResponse, lc.url, lc.client, nil, lostLockWrapper)
+					return newLock(createLockResponse, lc.url, lc.client, errCallback, removeEntry)
 				}
 
-				return returnLock
+				return newLock(createLockResponse, lc.url, lc.client, nil, removeEntry)
 			case http.StatusBadRequest, http.StatusInternalServerError:
 				// there was an error with the request. possibly a mismatch on client server versions
 				apiError := &errors.Error{}
@@ -208,13 +214,45 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 		}
 	}
 
-	onFind := func(item btreeassociated.AssociatedKeyValues) {
-		// just return the instance of the found lock
-		returnLock = item.Value().(Lock)
-	}
+	for {
+		var entry *heldLock
+		var created bool
+
+		onCreate := func() any {
+			entry = &heldLock{obtained: make(chan struct{})}
+			created = true
+			return entry
+		}
+
+		onFind := func(item btreeassociated.AssociatedKeyValues) {
+			entry = item.Value().(*heldLock)
+		}
+
+		// create or find the entry if we already have it
+		if _, err := lc.locks.CreateOrFind(lockRequest.Spec.DBDefinition.KeyValues, onCreate, onFind); err != nil {
+			return nil, err
+		}
 
-	// create or find the lock if we already have it
-	_, _ = lc.locks.CreateOrFind(lockRequest.Spec.DBDefinition.KeyValues, onCreate, onFind)
+		if created {
+			// the request is made outside of the tree, so waiting for this lock does not block any others of this client
+			if lock := obtain(); lock != nil {
+				entry.lock = lock
+			} else {
+				removeEntry()
+			}
+			close(entry.obtained)
+
+			return entry.lock, lockErr
+		}
 
-	return returnLock, lockErr
+		// just return the instance of the found lock
+		select {
+		case <-entry.obtained:
+			if entry.lock != nil {
+				return entry.lock, nil
+			}
+		case <-ctx.Done():
+			return nil, nil
+		}
+	}
 }
-- 
2.43.0


From 58058c3ac37130a6a26001d442708b34633b74a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:48 +0000
Subject: [PATCH 33/65] fix: an increment cancelled while it waits for a lock
 does not crash the limiter

---
 internal/limiter/counters/counter_client_local.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/limiter/counters/counter_client_local.go b/internal/limiter/counters/counter_client_local.go
index 568c955..dd8cb5d 100644
--- a/internal/limiter/counters/counter_client_local.go
+++ b/internal/limiter/counters/counter_client_local.go
@@ -159,6 +159,12 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 					return errors.InternalServerError
 				}
 
+				// the context was canceled while waiting for the lock
+				if lockerLock == nil {
+					logger.Warn("canceled obtaining a lock from the locker service")
+					return errors.ServerShutdown
+				}
+
 				// setup monitor for when a lock is released
 				lockerLocks = append(lockerLocks, lockerLock)
 				if err := channelOps.MergeOrToOne(lockerLock.Done()); err != nil {
-- 
2.43.0


From bcac174522c630c3ed17b15b822f347a5a4b4c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:24 +0000
Subject: [PATCH 34/65] fix: querying the channels of an unknown queue is
 answered with not found

---
 internal/willow/brokers/queues/queues_client_local.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/willow/brokers/queues/queues_client_local.go b/internal/willow/brokers/queues/queues_client_local.go
index b87556a..01d863e 100644
--- a/internal/willow/brokers/queues/queues_client_local.go
+++ b/internal/willow/brokers/queues/queues_client_local.go
@@ -211,8 +211,10 @@ func (qcl *queueClientLocal) DeleteQueue(ctx context.Context, queueName string)
 func (qcl *queueClientLocal) QueryChannels(ctx context.Context, queueName string, query *queryassociatedaction.AssociatedActionQuery) (v1willow.Channels, *errors.ServerError) {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "QueryChannels")
 	channels := v1willow.Channels{}
+	queryChannelsError := errorMissingQueueName(queueName)
 
 	onIterate := func(key datatypes.EncapsulatedValue, item any) bool {
+		queryChannelsError = nil
 		channels = qcl.queueChannelsClient.Channels(ctx, queueName, query)
 		return false
 	}
@@ -228,7 +230,7 @@ func (qcl *queueClientLocal) QueryChannels(ctx context.Context, queueName string
 		}
 	}
 
-	return channels, nil
+	return channels, queryChannelsError
 }
 
 func (qcl *queueClientLocal) Enqueue(ctx context.Context, queueName string, enqueueItem *v1willow.Item) *errors.ServerError {
-- 
2.43.0


From 49502a363ec0de7ac41d8708c6dfc614ea34f02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 35/65] fix: creating a queue without properties does not crash
 the request

---
 internal/willow/brokers/queues/memory/memory_queue.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index ec73b7c..90ce3b9 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -31,8 +31,14 @@ type memoryQueue struct {
 func New(ctx context.Context, queue *v1willow.Queue, limiterRuleID string, limiterClient limiterclient.LimiterClient) (*memoryQueue, *errors.ServerError) {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "New")
 
+	// the properties are optional, without them the queue is unlimited
+	maxItems := helpers.PointerOf[int64](-1)
+	if queue.Spec.Properties != nil {
+		maxItems = queue.Spec.Properties.MaxItems
+	}
+
 	limit := new(atomic.Int64)
-	limit.Store(*queue.Spec.Properties.MaxItems)
+	limit.Store(*maxItems)
 
 	// need to create an override for the willow Rules in the limiter
 	_, err := limiterClient.CreateOverride(ctx, limiterRuleID, &v1.Override{
@@ -44,7 +50,7 @@ func New(ctx context.Context, queue *v1willow.Queue, limiterRuleID string, limit
 				},
 			},
 			Properties: &v1.OverrideProperties{
-				Limit: queue.Spec.Properties.MaxItems,
+				Limit: maxItems,
 			},
 		},
 	})
-- 
2.43.0


From c8675ed2de5012f885875cffb7d0462248252683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 36/65] fix: a failed ack of an item that is not processing is
 answered with not found

---
 .../brokers/queue_channels/memory/memory_queue_channel.go      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 502cf73..5e177ad 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -479,7 +479,6 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 	// attempt to delete or requeue the item
 	canDelete := func(_ datatypes.EncapsulatedValue, treeItem any) bool {
-		attemptedDelete = true
 		queueItem := treeItem.(*item)
 
 		if timedOut {
@@ -488,6 +487,8 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 		// if the queue item was stopped here, then we know there was no async timeout processed for this item
 		if timedOut || queueItem.StopHeartbeater() {
+			attemptedDelete = true
+
 			// always update counters that the item is no longer running
 			if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
 				// what should be the actual course of action here?
-- 
2.43.0


From 667aaa5e32334f2cc05594cad87badf0e0f4bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 37/65] fix: an enqueue that updates the last item updates its
 timeout as well

---
 .../willow/brokers/queue_channels/memory/memory_queue_channel.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 5e177ad..da6fb5b 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -364,6 +364,7 @@ func (mqc *memoryQueueChannel) Enqueue(ctx context.Context, enqueueItem *v1willo
 				queueItem.updateable = *enqueueItem.Spec.Properties.Updateable
 				queueItem.maxRetryAttempts = *enqueueItem.Spec.Properties.RetryAttempts
 				queueItem.retryPosition = *enqueueItem.Spec.Properties.RetryPosition
+				queueItem.heartbeatTimeout = *enqueueItem.Spec.Properties.TimeoutDuration
 				queueItem.retryCount = 0
 			}
 
-- 
2.43.0


From f51d6711b720cfd928d5d16e999ed0e7bbe2b4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:27 +0000
Subject: [PATCH 38/65] fix: an item dropped on a retry is taken off the number
 of enqueued items

---
 .../brokers/queue_channels/memory/memory_queue_channel.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index da6fb5b..82f11f2 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -519,6 +519,10 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 				if len(mqc.itemIDsEnqueued) >= 1 {
 					// just delete the item. since it is updateable, we want the next item in the queue to run anyways
 					if queueItemToDelete.updateable {
+						if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
+							panic(err)
+						}
+
 						return true
 					}
 				}
@@ -556,6 +560,10 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 			if queueItemToCheck.updateable {
 				// "update" the last item by simply dropping it
+				if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
+					panic(err)
+				}
+
 				mqc.itemIDsEnqueued[len(mqc.itemIDsEnqueued)-1] = itemID
 				return true
 			} else {
-- 
2.43.0


From 28b537239eebebf61dfc9ebbde69fac6b96a8502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 39/65] fix: a client waiting for an item does not block the
 other operations on the queues

---
 .../queue_channels_client_local.go            |  5 ++-
 .../brokers/queues/queues_client_local.go     | 39 +++++++++++++++----
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/queue_channels_client_local.go b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
index d1b664b..1f16e35 100644
--- a/internal/willow/brokers/queue_channels/queue_channels_client_local.go
+++ b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
@@ -241,8 +241,9 @@ func (qccl *queueChannelsClientLocal) DequeueQueueItem(ctx context.Context, queu
 
 		if err := qccl.queueChannels.QueryAction(queueName, dequeueQuery, bTreeOneToManyOnIterate); err != nil {
 			switch err {
-			//case btreeonetomany.ErrorOneIDDestroying
-			// This shouldn't happen as the 'Queue' should ensure these don't process once it starts destroying
+			case btreeonetomany.ErrorOneIDDestroying:
+				// the queue is being deleted, so there are no channels to wait for
+				logger.Debug("not adding the current channels as the queue is being deleted")
 			default:
 				logger.Error("failed to create or find the queue channels", zap.Error(err))
 				panic(err)
diff --git a/internal/willow/brokers/queues/queues_client_local.go b/internal/willow/brokers/queues/queues_client_local.go
index 01d863e..5f128d3 100644
--- a/internal/willow/brokers/queues/queues_client_local.go
+++ b/internal/willow/brokers/queues/queues_client_local.go
@@ -22,6 +22,15 @@ func errorMissingQueueName(name string) *errors.ServerError {
 	return &errors.ServerError{Message: fmt.Sprintf("failed to find queue '%s' by name", name), StatusCode: http.StatusNotFound}
 }
 
+// localQueue is what the tree holds for each queue
+type localQueue struct {
+	Queue
+
+	// context that is canceled when the queue is deleted. Used to stop any clients waiting for an item
+	deletedCtx context.Context
+	deleted    context.CancelFunc
+}
+
 type queueClientLocal struct {
 	// queue constructor for creating and managing queues
 	queueConstructor QueueConstructor
@@ -61,7 +70,8 @@ func (qcl *queueClientLocal) CreateQueue(ctx context.Context, queueCreate *v1wil
 			return nil
 		}
 
-		return queue
+		deletedCtx, deleted := context.WithCancel(context.Background())
+		return &localQueue{Queue: queue, deletedCtx: deletedCtx, deleted: deleted}
 	}
 
 	if err := qcl.queues.Create(datatypes.String(*queueCreate.Spec.DBDefinition.Name), bTreeOnCreate); err != nil {
@@ -184,9 +194,10 @@ func (qcl *queueClientLocal) DeleteQueue(ctx context.Context, queueName string)
 
 	var deleteQueueError *errors.ServerError
 	destroyQueue := func(key datatypes.EncapsulatedValue, item any) bool {
-		queue := item.(Queue)
+		queue := item.(*localQueue)
 		if deleteQueueError = qcl.queueChannelsClient.DestroyChannelsForQueue(ctx, queueName); deleteQueueError == nil {
 			if deleteQueueError = queue.Destroy(ctx, qcl.limiterRuleID, queueName); deleteQueueError == nil {
+				queue.deleted()
 				return true
 			}
 		}
@@ -253,14 +264,12 @@ func (qcl *queueClientLocal) Enqueue(ctx context.Context, queueName string, enqu
 
 func (qcl *queueClientLocal) Dequeue(ctx context.Context, queueName string, dequeueQuery *queryassociatedaction.AssociatedActionQuery) (*v1willow.Item, func(), func(), *errors.ServerError) {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "Dequeue")
-	dequeueQueueError := errorMissingQueueName(queueName)
 
-	// nothing for the item to do. but use the bTree as a guard to ensure no delete operations are happening at the same time
-	var dequeueItem *v1willow.Item
-	var onSuccess func()
-	var onFailure func()
+	// Only find the queue here. Waiting for an item can take forever, so that cannot use the bTree as a guard since it
+	// would block any other operations for the queues. If the queue is deleted while waiting, the context is canceled
+	var queue *localQueue
 	onFind := func(key datatypes.EncapsulatedValue, item any) bool {
-		dequeueItem, onSuccess, onFailure, dequeueQueueError = qcl.queueChannelsClient.DequeueQueueItem(ctx, queueName, dequeueQuery)
+		queue = item.(*localQueue)
 		return false
 	}
 
@@ -269,6 +278,20 @@ func (qcl *queueClientLocal) Dequeue(ctx context.Context, queueName string, dequ
 		return nil, nil, nil, errors.InternalServerError
 	}
 
+	if queue == nil {
+		return nil, nil, nil, errorMissingQueueName(queueName)
+	}
+
+	dequeueCtx, cancel := context.WithCancel(ctx)
+	defer cancel()
+	defer context.AfterFunc(queue.deletedCtx, cancel)()
+
+	dequeueItem, onSuccess, onFailure, dequeueQueueError := qcl.queueChannelsClient.DequeueQueueItem(dequeueCtx, queueName, dequeueQuery)
+	if dequeueQueueError != nil && queue.deletedCtx.Err() != nil {
+		logger.Debug("queue was deleted while waiting for an item")
+		return nil, nil, nil, &errors.ServerError{Message: fmt.Sprintf("Queue with name '%s' was deleted", queueName), StatusCode: http.StatusConflict}
+	}
+
 	return dequeueItem, onSuccess, onFailure, dequeueQueueError
 }
 
-- 
2.43.0


From 567ec2e8abc368071c01bb82a8be0713ba652a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 40/65] fix: an enqueue to a new channel that is refused does
 not leak a goroutine

---
 .../memory/memory_queue_channel.go            | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 82f11f2..dae82c2 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -44,8 +44,9 @@ type memoryQueueChannel struct {
 	// 2. dequeuing to ensure the user didn't set up some limit
 	limiterClient limiterclient.LimiterClient
 
-	// notifieer is used to indicate that there is something to process
-	notifier *gonotify.Notify
+	// notifieer is used to indicate that there is something to process. It is only created (and starts running in the
+	// background) on the first use, since a channel where the first item fails to enqueue is never executed
+	notifier func() *gonotify.Notify
 
 	// channel all items will be dequeued from
 	dequeueChan         chan func(ctx context.Context) (*v1willow.Item, func(), func()) // func() (*v1willow.DequeueQueueItem, func(), func())
@@ -80,7 +81,7 @@ func New(limiterClient limiterclient.LimiterClient, deleteCallback func(), queue
 		channelKeyValues: channelKeyValues,
 
 		limiterClient:       limiterClient,
-		notifier:            gonotify.New(),
+		notifier:            sync.OnceValue(gonotify.New),
 		dequeueChan:         make(chan func(ctx context.Context) (*v1willow.Item, func(), func())),
 		dequeueResponseChan: make(chan bool),
 
@@ -160,7 +161,7 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 			// delete of the channel itself because there are no more items, or the queue is being destroyed
 			cancel()
 			goto BREAK_DEQUEUE
-		case <-mqc.notifier.Ready():
+		case <-mqc.notifier().Ready():
 			// we received an item to enqueue, so try to send on this channel
 		}
 
@@ -329,7 +330,7 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 BREAK_DEQUEUE:
 
 	close(mqc.dequeueChan)
-	mqc.notifier.ForceStop()
+	mqc.notifier().ForceStop()
 
 	// wait for any heartbeat operations to finish
 	<-stoppedHeartbeating
@@ -408,7 +409,7 @@ func (mqc *memoryQueueChannel) Enqueue(ctx context.Context, enqueueItem *v1willo
 	mqc.itemIDsEnqueued = append(mqc.itemIDsEnqueued, newId)
 
 	// signal to the notifier that we have something to process
-	_ = mqc.notifier.Add() // in the case of an error we are shutting down so just drop it
+	_ = mqc.notifier().Add() // in the case of an error we are shutting down so just drop it
 
 	return nil
 }
@@ -529,7 +530,7 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 				// always append to the front
 				mqc.itemIDsEnqueued = append([]string{itemID}, mqc.itemIDsEnqueued...)
-				mqc.notifier.Add()
+				mqc.notifier().Add()
 
 				return false
 			case "back":
@@ -537,7 +538,7 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 					backID = mqc.itemIDsEnqueued[len(mqc.itemIDsEnqueued)-1]
 				} else {
 					mqc.itemIDsEnqueued = append(mqc.itemIDsEnqueued, itemID)
-					mqc.notifier.Add()
+					mqc.notifier().Add()
 				}
 			}
 		}
@@ -569,7 +570,7 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 			} else {
 				// "append" to the list the item that failed
 				mqc.itemIDsEnqueued = append(mqc.itemIDsEnqueued, itemID)
-				mqc.notifier.Add()
+				mqc.notifier().Add()
 				return false
 			}
 		}
@@ -605,7 +606,7 @@ func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, fun
 		logger.Error("failed to update the counter for the queue item", zap.Error(err))
 
 		// re-add to the notifier since we failed to process this item properly
-		_ = mqc.notifier.Add()
+		_ = mqc.notifier().Add()
 
 		// resond to the queue forwarder that there is work to do checking that this limit is no longer reached
 		mqc.dequeueResponseChan <- true
@@ -738,7 +739,7 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 
 				// always put the item at the front of the queue to process again
 				mqc.itemIDsEnqueued = append([]string{itemID}, mqc.itemIDsEnqueued...)
-				mqc.notifier.Add() // indicate to the notifier that there is something to process
+				mqc.notifier().Add() // indicate to the notifier that there is something to process
 			} else {
 				// this should never happen!
 				logger.Debug("failed to stop the heartbeat process")
-- 
2.43.0


From 4a9b005ca9ee14b39f79d9257bdcf21080568663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 41/65] fix: a channel at a limit set for any value waits
 instead of retrying without a pause

---
 .../brokers/queue_channels/memory/memory_queue_channel.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index dae82c2..af98313 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -227,7 +227,9 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 								},
 							}
 
-							for key, value := range rule.Spec.DBDefinition.GroupByKeyValues {
+							for key := range rule.Spec.DBDefinition.GroupByKeyValues {
+								// the rule can be for any value, need to count those with the same values as the channel
+								value := erroredKeyValues[key]
 								query.Selection.KeyValues[key] = queryassociatedaction.ValueQuery{
 									Value:      value,
 									Comparison: v1common.Equals,
@@ -273,7 +275,9 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 									},
 								}
 
-								for key, value := range override.Spec.DBDefinition.GroupByKeyValues {
+								for key := range override.Spec.DBDefinition.GroupByKeyValues {
+									// the override can be for any value, need to count those with the same values as the channel
+									value := erroredKeyValues[key]
 									query.Selection.KeyValues[key] = queryassociatedaction.ValueQuery{
 										Value:      value,
 										Comparison: v1common.Equals,
-- 
2.43.0


From a2033263d8f7cddaeb135cf9edd6ca9b915c36f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:22 +0000
Subject: [PATCH 42/65] fix: operations on a queue that is being deleted are
 answered with a conflict

---
 .../brokers/queues/queues_client_local.go     | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/internal/willow/brokers/queues/queues_client_local.go b/internal/willow/brokers/queues/queues_client_local.go
index 5f128d3..8364111 100644
--- a/internal/willow/brokers/queues/queues_client_local.go
+++ b/internal/willow/brokers/queues/queues_client_local.go
@@ -255,8 +255,14 @@ func (qcl *queueClientLocal) Enqueue(ctx context.Context, queueName string, enqu
 	}
 
 	if err := qcl.queues.Find(datatypes.String(queueName), v1.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
-		logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
-		return errors.InternalServerError
+		switch err {
+		case btree.ErrorKeyDestroying:
+			logger.Warn("failed to enqueue the item. Queue by that name is currenly destroying")
+			return &errors.ServerError{Message: fmt.Sprintf("Queue with name '%s' is currently being destroyed. Refusing to enqueue the item", queueName), StatusCode: http.StatusConflict}
+		default:
+			logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
+			return errors.InternalServerError
+		}
 	}
 
 	return enqueueQueueError
@@ -274,8 +280,14 @@ func (qcl *queueClientLocal) Dequeue(ctx context.Context, queueName string, dequ
 	}
 
 	if err := qcl.queues.Find(datatypes.String(queueName), v1.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
-		logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
-		return nil, nil, nil, errors.InternalServerError
+		switch err {
+		case btree.ErrorKeyDestroying:
+			logger.Warn("failed to dequeue an item. Queue by that name is currenly destroying")
+			return nil, nil, nil, &errors.ServerError{Message: fmt.Sprintf("Queue with name '%s' is currently being destroyed. Refusing to dequeue an item", queueName), StatusCode: http.StatusConflict}
+		default:
+			logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
+			return nil, nil, nil, errors.InternalServerError
+		}
 	}
 
 	if queue == nil {
@@ -305,8 +317,14 @@ func (qcl *queueClientLocal) DeleteChannel(ctx context.Context, queueName string
 	}
 
 	if err := qcl.queues.Find(datatypes.String(queueName), v1.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
-		logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
-		return errors.InternalServerError
+		switch err {
+		case btree.ErrorKeyDestroying:
+			logger.Warn("failed to delete the channel. Queue by that name is currenly destroying")
+			return &errors.ServerError{Message: fmt.Sprintf("Queue with name '%s' is currently being destroyed. Refusing to delete the channel", queueName), StatusCode: http.StatusConflict}
+		default:
+			logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
+			return errors.InternalServerError
+		}
 	}
 
 	return deleteChannelsError
-- 
2.43.0


From b5ffff5211c5ce391a9e7bbcb126a0651153d3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 43/65] fix: a timed out heartbeat does not block the callers
 that hold the locks its callback needs

---
 internal/heartbeater/heartbeater.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/heartbeater/heartbeater.go b/internal/heartbeater/heartbeater.go
index 108295d..745a2d5 100644
--- a/internal/heartbeater/heartbeater.go
+++ b/internal/heartbeater/heartbeater.go
@@ -75,7 +75,9 @@ func New(timeout time.Duration, onShutdown, onTimeout func()) (*heartbeater, err
 
 // Execute expects a single instance of Start to be called
 func (h *heartbeater) Execute(ctx context.Context) error {
-	defer close(h.doneChan)
+	// any blocked calls are released before the callbacks run, as the callbacks can need locks which those callers hold
+	closeDone := sync.OnceFunc(func() { close(h.doneChan) })
+	defer closeDone()
 
 	// wait for start or stop instruction to be called
 	select {
@@ -91,6 +93,7 @@ func (h *heartbeater) Execute(ctx context.Context) error {
 		select {
 		case <-ctx.Done():
 			// in this case, the service is shutting down
+			closeDone()
 			if h.onShutdown != nil {
 				h.onShutdown()
 			}
@@ -101,6 +104,7 @@ func (h *heartbeater) Execute(ctx context.Context) error {
 			return nil
 		case <-timer.C:
 			// in this case the timer has hit the timeout limit. assumed the resource has failed.
+			closeDone()
 			h.onTimeout()
 
 			return nil
-- 
2.43.0


From 64e411e037bc25154bc864bb93846d32c2281380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:22 +0000
Subject: [PATCH 44/65] fix: operations that run into a channel being destroyed
 are answered with a conflict

---
 .../queue_channels_client_local.go            | 37 ++++++++++++++-----
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/queue_channels_client_local.go b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
index 1f16e35..7335372 100644
--- a/internal/willow/brokers/queue_channels/queue_channels_client_local.go
+++ b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
@@ -20,6 +20,9 @@ import (
 	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
 )
 
+// errorChannelDestroying is returned when an operation runs into the channel, or all the queue's channels being destroyed
+var errorChannelDestroying = &errors.ServerError{Message: "The queue's channel is being destroyed", StatusCode: http.StatusConflict}
+
 type clientWaiting struct {
 	// queue the client is waiting on
 	queueName string
@@ -95,7 +98,7 @@ func (qccl *queueChannelsClientLocal) DestroyChannelsForQueue(ctx context.Contex
 
 	if err := qccl.queueChannels.DestroyOne(queueName, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyIDDestroying:
 			logger.Debug("Already destroying the queue's channels")
 			return &errors.ServerError{Message: "queue channels already destroying", StatusCode: http.StatusNoContent}
 		default:
@@ -119,7 +122,7 @@ func (qccl *queueChannelsClientLocal) DeleteChannel(ctx context.Context, queueNa
 
 	if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, channelKeyValues, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying:
 			logger.Debug("Already destroying the queue's channel")
 			return &errors.ServerError{Message: "Already destroying the queue's channel", StatusCode: http.StatusConflict}
 		default:
@@ -141,7 +144,7 @@ func (qccl *queueChannelsClientLocal) attemptDeleteChannel(logger *zap.Logger, q
 
 	if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, channelKeyValues, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying:
 			logger.Debug("Already destroying the queue's channel on a timeout")
 		default:
 			logger.Fatal("Failed to delete channels for queue", zap.Error(err))
@@ -185,8 +188,10 @@ func (qccl *queueChannelsClientLocal) EnqueueQueueItem(ctx context.Context, queu
 
 	if _, err := qccl.queueChannels.CreateOrFind(queueName, enqueueItem.Spec.DBDefinition.KeyValues, bTreeOneToManyOnCreate, bTreeOneToManyOnFind); err != nil {
 		switch err {
-		//case btreeonetomany.ErrorOneIDDestroying:
-		// This shouldn't happen as the 'Queue' should ensure these don't process once it starts destroying
+		case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyIDDestroying:
+			// the queue or channel started to be destroyed after the 'Queue' was found
+			logger.Debug("Not enqueuing the item as the queue's channel is being destroyed")
+			return errorChannelDestroying
 		default:
 			logger.Error("failed to create or find the queue channels", zap.Error(err))
 			return errors.InternalServerError
@@ -295,7 +300,13 @@ func (qccl *queueChannelsClientLocal) ACK(ctx context.Context, queueName string,
 	// ack the item in the queue channel
 	// NOTE: this could be a delete, but with the locks i think that will be slower than I want so use 1 find and then 1 delete
 	if err := qccl.queueChannels.QueryAction(queueName, queryassociatedaction.KeyValuesToExactAssociatedActionQuery(ack.KeyValues), performAck); err != nil {
-		panic(err)
+		switch err {
+		case btreeonetomany.ErrorOneIDDestroying:
+			logger.Debug("Not acking the item as the queue is being destroyed")
+			return errorChannelDestroying
+		default:
+			panic(err)
+		}
 	}
 
 	// if the item was acked and there are no more items, attempt to delete the channel
@@ -307,7 +318,7 @@ func (qccl *queueChannelsClientLocal) ACK(ctx context.Context, queueName string,
 
 		if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, ack.KeyValues, deleteChannel); err != nil {
 			switch err {
-			case btreeonetomany.ErrorManyIDDestroying:
+			case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying:
 				logger.Debug("Not deleting the channel after ack as queue is being deleted")
 			default:
 				logger.Fatal("Failed to delete queue after ack", zap.Error(err))
@@ -320,7 +331,7 @@ func (qccl *queueChannelsClientLocal) ACK(ctx context.Context, queueName string,
 
 // Heartbeat an item that has been pulled from the queue
 func (qccl *queueChannelsClientLocal) Heartbeat(ctx context.Context, queueName string, heartbeat *v1willow.Heartbeat) *errors.ServerError {
-	ctx, _ = middleware.GetNamedMiddlewareLogger(ctx, "Heartbeat")
+	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "Heartbeat")
 
 	heartbeatErr := &errors.ServerError{Message: "Failed to find channel for item by key values", StatusCode: http.StatusNotFound}
 
@@ -334,7 +345,13 @@ func (qccl *queueChannelsClientLocal) Heartbeat(ctx context.Context, queueName s
 	// ack the item in the queue channel
 	// NOTE: this could be a delete, but with the locks i think that will be slower than I want so use 1 find and then 1 delete
 	if err := qccl.queueChannels.QueryAction(queueName, queryassociatedaction.KeyValuesToExactAssociatedActionQuery(heartbeat.KeyValues), performHeartbeat); err != nil {
-		panic(err)
+		switch err {
+		case btreeonetomany.ErrorOneIDDestroying:
+			logger.Debug("Not heartbeating the item as the queue is being destroyed")
+			return errorChannelDestroying
+		default:
+			panic(err)
+		}
 	}
 
 	return heartbeatErr
@@ -400,7 +417,7 @@ func (qccl *queueChannelsClientLocal) Channels(ctx context.Context, queueName st
 
 	if err := qccl.queueChannels.QueryAction(queueName, query, queryChannels); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying:
 			logger.Debug("Already destroying the queue's channels")
 		default:
 			logger.Fatal("Failed to query channels", zap.Error(err))
-- 
2.43.0


From 4cc960f1acbaa0f1991929b8eef6600ad027167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 45/65] fix: destroying a channel while its items are dequeued
 or acknowledged is safe

---
 .../memory/memory_queue_channel.go            | 68 +++++++++++++++----
 1 file changed, 55 insertions(+), 13 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index af98313..3471dfa 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -58,6 +58,9 @@ type memoryQueueChannel struct {
 
 	itemsLock       *sync.RWMutex
 	itemIDsEnqueued []string
+
+	// set when the channel is force deleted, after which there are no more items
+	forceDeleted bool
 }
 
 func New(limiterClient limiterclient.LimiterClient, deleteCallback func(), queueName string, channelKeyValues datatypes.KeyValues) *memoryQueueChannel {
@@ -116,6 +119,12 @@ func (mqc *memoryQueueChannel) ForceDelete(ctx context.Context) {
 		close(mqc.deleteChan)
 	})
 
+	// the counters and items are removed together, so no operation on an item can update the counters afterwards
+	mqc.itemsLock.Lock()
+	defer mqc.itemsLock.Unlock()
+	mqc.forceDeleted = true
+	mqc.itemIDsEnqueued = []string{}
+
 	// delete the running and enqueued counters
 	if err := mqc.setLimiterEnqueuedValue(ctx); err != nil {
 		logger.Fatal("TODO fix this panic error with a queue of Limiter values to retry", zap.Error(err))
@@ -349,6 +358,10 @@ func (mqc *memoryQueueChannel) Enqueue(ctx context.Context, enqueueItem *v1willo
 	mqc.itemsLock.Lock() // need this lock so multiple enqueue requests can all be squashed into 1
 	defer mqc.itemsLock.Unlock()
 
+	if mqc.forceDeleted {
+		return &errors.ServerError{Message: "The queue's channel is being destroyed", StatusCode: http.StatusConflict}
+	}
+
 	lastItemIndex := len(mqc.itemIDsEnqueued) - 1
 
 	// attempt to update the last item enqueued
@@ -435,6 +448,13 @@ func (mqc *memoryQueueChannel) ACK(ctx context.Context, ack *v1willow.ACK) (bool
 
 	switch ack.Passed {
 	case true:
+		mqc.itemsLock.Lock()
+		defer mqc.itemsLock.Unlock()
+
+		if mqc.forceDeleted {
+			return false, ackErr
+		}
+
 		canDelete := func(_ datatypes.EncapsulatedValue, treeItem any) bool {
 			queueItem := treeItem.(*item)
 
@@ -480,6 +500,10 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 	mqc.itemsLock.Lock()
 	defer mqc.itemsLock.Unlock()
 
+	if mqc.forceDeleted {
+		return false
+	}
+
 	attemptedDelete := false
 	backID := ""
 
@@ -605,6 +629,15 @@ func (mqc *memoryQueueChannel) Dequeue() <-chan func(ctx context.Context) (*v1wi
 func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, func(), func()) {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "dequeue")
 
+	mqc.itemsLock.Lock()
+	defer mqc.itemsLock.Unlock()
+
+	// the channel can be destroyed, or the items can be dropped by an update since the notifier was ready
+	if mqc.forceDeleted || len(mqc.itemIDsEnqueued) == 0 {
+		mqc.dequeueResponseChan <- false
+		return nil, nil, nil
+	}
+
 	// 1. ensure that the item can be dequeued when running. This just forwards the key values that define the channel
 	if err := mqc.limterUpdateRunningValue(ctx, 1); err != nil {
 		logger.Error("failed to update the counter for the queue item", zap.Error(err))
@@ -618,10 +651,8 @@ func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, fun
 	}
 
 	// drop the first index since we are now processing it
-	mqc.itemsLock.Lock()
 	firtItemID := mqc.itemIDsEnqueued[0]
 	mqc.itemIDsEnqueued = mqc.itemIDsEnqueued[1:]
-	mqc.itemsLock.Unlock()
 
 	// 2. successfully incremented the counters, pull an item off for the client
 	dequeueItem := &v1willow.Item{}
@@ -683,6 +714,16 @@ func (mqc *memoryQueueChannel) successfulDequeue(ctx context.Context, itemID str
 	return func() {
 		_, logger := middleware.GetNamedMiddlewareLogger(ctx, "successfulDequeue")
 
+		// resond to the queue forwarder that it can start processing the next item in the queue
+		defer func() { mqc.dequeueResponseChan <- false }()
+
+		mqc.itemsLock.Lock()
+		defer mqc.itemsLock.Unlock()
+
+		if mqc.forceDeleted {
+			return
+		}
+
 		// start the heartbeater process
 		onfindBTree := func(key datatypes.EncapsulatedValue, treeItem any) bool {
 			queueItem := treeItem.(*item)
@@ -700,9 +741,6 @@ func (mqc *memoryQueueChannel) successfulDequeue(ctx context.Context, itemID str
 		if err := mqc.items.Find(datatypes.String(itemID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onfindBTree); err != nil {
 			panic(err)
 		}
-
-		// resond to the queue forwarder that it can start processing the next item in the queue
-		mqc.dequeueResponseChan <- false
 	}
 }
 
@@ -711,14 +749,16 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 	return func() {
 		ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "failedDequeue")
 
-		// update the running counter that we are no longer processing since we failed to dequeue to the remote client
-		if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
-			panic(err)
-		}
+		// resond to the queue forwarder that it can start processing the next item in the queue
+		defer func() { mqc.dequeueResponseChan <- false }()
 
 		mqc.itemsLock.Lock()
 		defer mqc.itemsLock.Unlock()
 
+		if mqc.forceDeleted {
+			return
+		}
+
 		// requeue the item
 		canDelete := func(_ datatypes.EncapsulatedValue, treeItem any) bool { // i think this should be canDestroy?
 			queueItem := treeItem.(*item)
@@ -729,6 +769,11 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 			if queueItem.StopHeartbeater() {
 				logger.Debug("stopped the heartbeat process")
 
+				// update the running counter that we are no longer processing since we failed to dequeue to the remote client
+				if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
+					panic(err)
+				}
+
 				// if the queue item is updateable, check to see if there is something else in the queeu
 				if queueItem.updateable {
 					if len(mqc.itemIDsEnqueued) >= 1 {
@@ -755,9 +800,6 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 		if err := mqc.items.Delete(datatypes.String(itemID), canDelete); err != nil {
 			panic(err)
 		}
-
-		// resond to the queue forwarder that it can start processing the next item in the queue
-		mqc.dequeueResponseChan <- false
 	}
 }
 
@@ -775,7 +817,7 @@ func (mqc *memoryQueueChannel) Heartbeat(ctx context.Context, heartbeat *v1willo
 		return false
 	}
 
-	if err := mqc.items.Find(datatypes.String(heartbeat.ItemID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
+	if err := mqc.items.Find(datatypes.String(heartbeat.ItemID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil && err != btree.ErrorTreeDestroying {
 		logger.Fatal("failed to lookup item to heartbeat", zap.Error(err))
 	}
 
-- 
2.43.0


From a1d3c6b98b77a723106c9e7e84d7292af589f895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:12 +0000
Subject: [PATCH 46/65] fix: a late ack for an item does not remove the item
 that replaced it

---
 .../memory/memory_queue_channel.go            | 51 +++++++++----------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 3471dfa..c3d74cb 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -98,6 +98,9 @@ func New(limiterClient limiterclient.LimiterClient, deleteCallback func(), queue
 
 // this is write loked from the client in a "Destroy" call
 func (mqc *memoryQueueChannel) Delete() bool {
+	mqc.itemsLock.RLock()
+	defer mqc.itemsLock.RUnlock()
+
 	if mqc.items.Empty() {
 		mqc.deleteOnce.Do(func() {
 			close(mqc.deleteChan)
@@ -364,37 +367,44 @@ func (mqc *memoryQueueChannel) Enqueue(ctx context.Context, enqueueItem *v1willo
 
 	lastItemIndex := len(mqc.itemIDsEnqueued) - 1
 
+	newId := mqc.idGenerator.ID()
+	onCreate := func() any {
+		return newItem(
+			enqueueItem.Spec.Properties.Data,
+			*enqueueItem.Spec.Properties.Updateable,
+			*enqueueItem.Spec.Properties.RetryAttempts,
+			*enqueueItem.Spec.Properties.RetryPosition,
+			*enqueueItem.Spec.Properties.TimeoutDuration,
+		)
+	}
+
 	// attempt to update the last item enqueued
 	if lastItemIndex >= 0 {
 		lastItemID := mqc.itemIDsEnqueued[lastItemIndex]
 
+		// the last item is replaced under a new id. A client that timed out processing the last item still knows the last
+		// item's id, and a late ACK from them must not remove the data they never received
 		updated := false
-		onFind := func(key datatypes.EncapsulatedValue, treeItem any) bool {
+		canReplace := func(key datatypes.EncapsulatedValue, treeItem any) bool {
 			queueItem := treeItem.(*item)
 			queueItem.lock.Lock()
 			defer queueItem.lock.Unlock()
 
-			// update the last item
-			if queueItem.updateable {
-				updated = true
-
-				queueItem.data = enqueueItem.Spec.Properties.Data
-				queueItem.updateable = *enqueueItem.Spec.Properties.Updateable
-				queueItem.maxRetryAttempts = *enqueueItem.Spec.Properties.RetryAttempts
-				queueItem.retryPosition = *enqueueItem.Spec.Properties.RetryPosition
-				queueItem.heartbeatTimeout = *enqueueItem.Spec.Properties.TimeoutDuration
-				queueItem.retryCount = 0
-			}
-
-			return false
+			updated = queueItem.updateable
+			return updated
 		}
 
 		// try to update the last item enqueud
-		if err := mqc.items.Find(datatypes.String(lastItemID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
+		if err := mqc.items.Delete(datatypes.String(lastItemID), canReplace); err != nil {
 			panic(err)
 		}
 
 		if updated {
+			if err := mqc.items.Create(datatypes.String(newId), onCreate); err != nil {
+				panic(err)
+			}
+
+			mqc.itemIDsEnqueued[lastItemIndex] = newId
 			return nil
 		}
 	}
@@ -407,17 +417,6 @@ func (mqc *memoryQueueChannel) Enqueue(ctx context.Context, enqueueItem *v1willo
 	}
 
 	// create the new item in the channel
-	newId := mqc.idGenerator.ID()
-	onCreate := func() any {
-		return newItem(
-			enqueueItem.Spec.Properties.Data,
-			*enqueueItem.Spec.Properties.Updateable,
-			*enqueueItem.Spec.Properties.RetryAttempts,
-			*enqueueItem.Spec.Properties.RetryPosition,
-			*enqueueItem.Spec.Properties.TimeoutDuration,
-		)
-	}
-
 	if err := mqc.items.Create(datatypes.String(newId), onCreate); err != nil {
 		panic(err)
 	}
-- 
2.43.0


From a5cdf71106ccd1aac385b42e97a3fc315c96be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 47/65] fix: a queue channel that stops while an item is
 requeued does not panic

---
 .../brokers/queue_channels/memory/memory_queue_channel.go     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index c3d74cb..181a849 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -346,7 +346,11 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 BREAK_DEQUEUE:
 
 	close(mqc.dequeueChan)
+
+	// the notifier is only added to with the items locked. So nothing can be added to it while it is stopping
+	mqc.itemsLock.Lock()
 	mqc.notifier().ForceStop()
+	mqc.itemsLock.Unlock()
 
 	// wait for any heartbeat operations to finish
 	<-stoppedHeartbeating
-- 
2.43.0


From 79333e3cb536512a97da4cce3ac85bd33bc72564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 48/65] fix: the willow client heartbeats the items it dequeued

---
 pkg/clients/willow_client/item.go | 156 +++++++++++++++++++-----------
 1 file changed, 98 insertions(+), 58 deletions(-)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 1643be2..7234b6b 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"net/http"
+	"net/url"
 	"sync"
 	"time"
 
@@ -39,11 +40,17 @@ type Item struct {
 	queueName        string
 	heartbeatTimeout time.Duration
 
+	// used to interrupt a heartbeat request when the item is acked
+	heartbeatCtx    context.Context
+	cancelHeartbeat context.CancelFunc
+
 	heartbeatErrorLock     *sync.RWMutex
 	heartbeatErrorCallback func(err error)
 }
 
 func newItem(url string, client *http.Client, queueName string, dequeueItem *v1willow.Item) *Item {
+	heartbeatCtx, cancelHeartbeat := context.WithCancel(context.Background())
+
 	item := &Item{
 		doneOnce: new(sync.Once),
 		done:     make(chan struct{}),
@@ -57,6 +64,9 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 		queueName:        queueName,
 		heartbeatTimeout: *dequeueItem.Spec.Properties.TimeoutDuration,
 
+		heartbeatCtx:    heartbeatCtx,
+		cancelHeartbeat: cancelHeartbeat,
+
 		heartbeatErrorLock: new(sync.RWMutex),
 	}
 
@@ -64,78 +74,53 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 		defer item.stop()
 
 		// set ticker to be ((timeout - 10%) /3). This way we try and heartbeat at least 3 times before a failure occurs
-		lastHeartbeat := time.Now()
 		adjustedTimeout := item.heartbeatTimeout - (item.heartbeatTimeout / 10)
-		ticker := time.NewTicker(adjustedTimeout / 3)
+		ticker := time.NewTicker(max(adjustedTimeout/3, 1))
+		defer ticker.Stop()
+
+		// the service keeps the item for the timeout, counted from the last heartbeat that it answered. The client cannot
+		// know when the service processed a heartbeat, so the time of sending it is what counts
+		expires := time.Now().Add(item.heartbeatTimeout)
+		timeout := time.NewTimer(item.heartbeatTimeout)
+		defer timeout.Stop()
 
 		for {
 			select {
 			case <-item.done:
 				// ack was called can just escape
 				return
-			case <-ticker.C:
+			case <-timeout.C:
 				// in this case, we know that we have timed out and don't need to heartbeat anymore
-				if time.Since(lastHeartbeat) >= adjustedTimeout {
-					return
+				if remaining := time.Until(expires); remaining > 0 {
+					timeout.Reset(remaining)
+					continue
 				}
 
-				data, err := api.ModelEncodeRequest(v1willow.Heartbeat{
-					ItemID:    item.itemID,
-					KeyValues: item.keyValues,
-				})
-				if err != nil {
-					item.forwardError(err)
-					continue
+				return
+			case <-ticker.C:
+				sent := time.Now()
+				found, err := item.heartbeat(expires)
+
+				select {
+				case <-item.done:
+					// nothing to do here. race between ack and heartbeat
+					return
+				default:
 				}
 
-				req, err := http.NewRequest(
-					"POST",
-					fmt.Sprintf("%s/v1/queues/%s/channels/items/heartbeat", item.url, item.queueName),
-					bytes.NewBuffer(data),
-				)
 				if err != nil {
 					item.forwardError(err)
-					continue
-				}
 
-				resp, err := client.Do(req)
-				// error making the request. This should not happen
-				if err != nil {
-					select {
-					case <-item.done:
-						//nothing to do here. race between ack and heartbeat
-					default:
-						item.forwardError(err)
-						continue
+					if !found {
+						// the service already counts the item as a failure
+						return
 					}
-				}
 
-				// parse the response
-				switch resp.StatusCode {
-				case http.StatusOK:
-					// sent a heartbeat
-					lastHeartbeat = time.Now()
-				case http.StatusBadRequest, http.StatusConflict, http.StatusInternalServerError:
-					// faild to heartbeat for some reason
-					apiError := &errors.Error{}
-					if err := api.ModelDecodeResponse(resp, apiError); err != nil {
-						select {
-						case <-item.done:
-							//nothing to do here. race between ack and heartbeat
-						default:
-							item.forwardError(err)
-						}
-					} else {
-						select {
-						case <-item.done:
-							//nothing to do here. race between ack and heartbeat
-						default:
-							item.forwardError(apiError)
-						}
-					}
-				default:
-					item.forwardError(fmt.Errorf("unexpected status code while heartbeating: %d", resp.StatusCode))
+					continue
 				}
+
+				// sent a heartbeat
+				expires = sent.Add(item.heartbeatTimeout)
 			}
 		}
 	}()
@@ -143,6 +128,60 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 	return item
 }
 
+//	PARAMETERS:
+//	- expires - time the item is lost, so there is no need to wait any longer for an answer
+//
+//	RETURNS:
+//	- bool - false iff the service answered that the item is no longer processing
+//	- error - error heartbeating the item
+//
+// heartbeat sends a single heartbeat to the service
+func (item *Item) heartbeat(expires time.Time) (bool, error) {
+	data, err := api.ModelEncodeRequest(v1willow.Heartbeat{
+		ItemID:    item.itemID,
+		KeyValues: item.keyValues,
+	})
+	if err != nil {
+		return true, err
+	}
+
+	ctx, cancel := context.WithDeadline(item.heartbeatCtx, expires)
+	defer cancel()
+
+	req, err := http.NewRequestWithContext(
+		ctx,
+		"POST",
+		fmt.Sprintf("%s/v1/queues/%s/channels/items/heartbeat", item.url, url.PathEscape(item.queueName)),
+		bytes.NewBuffer(data),
+	)
+	if err != nil {
+		return true, err
+	}
+	req.Header.Add("Content-Type", "application/json")
+
+	resp, err := item.client.Do(req)
+	if err != nil {
+		return true, err
+	}
+	defer resp.Body.Close()
+
+	// parse the response
+	switch resp.StatusCode {
+	case http.StatusOK:
+		return true, nil
+	case http.StatusBadRequest, http.StatusNotFound, http.StatusConflict, http.StatusInternalServerError:
+		// faild to heartbeat for some reason
+		apiError := &errors.Error{}
+		if err := api.ModelDecodeResponse(resp, apiError); err != nil {
+			return true, err
+		}
+
+		return resp.StatusCode != http.StatusNotFound, apiError
+	default:
+		return true, fmt.Errorf("unexpected status code while heartbeating: %d", resp.StatusCode)
+	}
+}
+
 // add or update the callback function for when a heartbeat happens
 func (item *Item) SetHeartbeatErrorCallback(callback func(err error)) {
 	item.heartbeatErrorLock.Lock()
@@ -180,7 +219,7 @@ func (item *Item) ACK(ctx context.Context, passed bool) error {
 
 	req, err := http.NewRequest(
 		"POST",
-		fmt.Sprintf("%s/v1/queues/%s/channels/items/ack", item.url, item.queueName),
+		fmt.Sprintf("%s/v1/queues/%s/channels/items/ack", item.url, url.PathEscape(item.queueName)),
 		bytes.NewBuffer(data),
 	)
 	if err != nil {
@@ -207,10 +246,8 @@ func (item *Item) ACK(ctx context.Context, passed bool) error {
 
 		return apiError
 	default:
-		item.forwardError(fmt.Errorf("unexpected status code while heartbeating: %d", resp.StatusCode))
+		return fmt.Errorf("unexpected status code while acking: %d", resp.StatusCode)
 	}
-
-	return nil
 }
 
 // get the dequeued item
@@ -230,6 +267,9 @@ func (item *Item) forwardError(err error) {
 func (item *Item) stop() {
 	item.doneOnce.Do(func() {
 		close(item.done)
+
+		// stop waiting for the answer of a heartbeat
+		item.cancelHeartbeat()
 	})
 }
 
-- 
2.43.0


From 460e05156e5678d0b7501a7d24dcebb273e32f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 49/65] fix: the willow client escapes queue names

---
 pkg/clients/willow_client/channel.go | 7 ++++---
 pkg/clients/willow_client/queue.go   | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/clients/willow_client/channel.go b/pkg/clients/willow_client/channel.go
index e4e0d3a..583956e 100644
--- a/pkg/clients/willow_client/channel.go
+++ b/pkg/clients/willow_client/channel.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/http"
+	"net/url"
 
 	"github.com/DanLavine/willow/pkg/clients"
 	"github.com/DanLavine/willow/pkg/models/api"
@@ -33,7 +34,7 @@ func (wc *WillowClient) EnqueueQueueItem(ctx context.Context, queueName string,
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("POST", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("POST", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
@@ -79,7 +80,7 @@ func (wc *WillowClient) DequeueQueueItem(ctx context.Context, queueName string,
 	}
 
 	// setup and make the request
-	req, err := http.NewRequestWithContext(ctx, "GET", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequestWithContext(ctx, "GET", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return nil, err
 	}
@@ -132,7 +133,7 @@ func (wc *WillowClient) DeleteQueueChannel(ctx context.Context, queueName string
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s/channels", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s/channels", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
diff --git a/pkg/clients/willow_client/queue.go b/pkg/clients/willow_client/queue.go
index 6740f32..ec33cd2 100644
--- a/pkg/clients/willow_client/queue.go
+++ b/pkg/clients/willow_client/queue.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"fmt"
 	"net/http"
+	"net/url"
 
 	"github.com/DanLavine/willow/pkg/clients"
 	"github.com/DanLavine/willow/pkg/models/api"
@@ -115,7 +116,7 @@ func (wc *WillowClient) GetQueue(ctx context.Context, queueName string, channels
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/queues/%s", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/queues/%s", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return nil, err
 	}
@@ -165,7 +166,7 @@ func (wc *WillowClient) UpdateQueue(ctx context.Context, queueName string, queue
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("PUT", fmt.Sprintf("%s/v1/queues/%s", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("PUT", fmt.Sprintf("%s/v1/queues/%s", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
@@ -202,7 +203,7 @@ func (wc *WillowClient) UpdateQueue(ctx context.Context, queueName string, queue
 // Delete a queue and any channels associated with the Queue
 func (wc *WillowClient) DeleteQueue(ctx context.Context, queueName string) error {
 	// setup and make the request
-	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s", wc.url, queueName), nil)
+	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s", wc.url, url.PathEscape(queueName)), nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c40e2d70db1f252d181ceabc8e42c427d7275b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 50/65] fix: the lock client does not panic on the shortest
 timeouts

---
 pkg/clients/locker_client/lock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/clients/locker_client/lock.go b/pkg/clients/locker_client/lock.go
index 9911d76..31fc124 100644
--- a/pkg/clients/locker_client/lock.go
+++ b/pkg/clients/locker_client/lock.go
@@ -96,7 +96,7 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 
 		// set ticker to be ((timeout - 10%) /3). This way we try and heartbeat at least 3 times before a failure occurs
 		adjustedTimeout := *lockResponse.Spec.Properties.Timeout - (*lockResponse.Spec.Properties.Timeout / 10)
-		ticker := time.NewTicker(adjustedTimeout / 3)
+		ticker := time.NewTicker(max(adjustedTimeout/3, 1))
 		timeoutTicker := time.NewTicker(lock.timeout)
 
 		// the service keeps the lock for the timeout, counted from the last heartbeat that it answered. The client cannot
-- 
2.43.0


From f9642a8fef111d9a3215baed9e0c30e06edaa25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 51/65] fix: a heartbeat for an item that is still being handed
 out does not block the queue channel

---
 internal/heartbeater/heartbeater.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/heartbeater/heartbeater.go b/internal/heartbeater/heartbeater.go
index 745a2d5..a242315 100644
--- a/internal/heartbeater/heartbeater.go
+++ b/internal/heartbeater/heartbeater.go
@@ -152,8 +152,13 @@ func (h *heartbeater) Start() bool {
 //	RETURNS:
 //	- bool - TRUE iff the heartneat was processed
 //
-// Signal the heartbeter that we recieved a heartbeat and to reset the timer
+// Signal the heartbeter that we recieved a heartbeat and to reset the timer. There is nothing to heartbeat before Start
+// is called, and waiting for it could block the caller that is about to call Start
 func (h *heartbeater) Heartbeat() bool {
+	if !h.started.Load() {
+		return false
+	}
+
 	select {
 	case h.heartbeaterChan <- struct{}{}:
 		return true
-- 
2.43.0


From 79ff9acf823faaca602b670dfbce08deb544054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:42 +0000
Subject: [PATCH 52/65] fix: a client that finds a lock created during the
 shutdown is not blocked for good

---
 internal/locker/lock_manager/exclusive_lock.go   | 13 ++++++++-----
 internal/locker/lock_manager/exclusive_locker.go | 15 ++++++---------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_lock.go b/internal/locker/lock_manager/exclusive_lock.go
index 30e9a5c..c702a3b 100644
--- a/internal/locker/lock_manager/exclusive_lock.go
+++ b/internal/locker/lock_manager/exclusive_lock.go
@@ -97,11 +97,7 @@ func newExclusiveLock(timeout func()) *exclusiveLock {
 // Can possibly be easier and not needed if the client's each call "lock" with a Context that cancels on client disconnect + server shutdown?
 // then the heartbeater is direct to the object (there was something complicated about that before, but cannot remember now)
 func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
-	defer func() {
-		close(exclusiveLock.clientLost)
-		close(exclusiveLock.claim)
-		close(exclusiveLock.done)
-	}()
+	defer exclusiveLock.close()
 
 	for {
 		select {
@@ -264,6 +260,13 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 	}
 }
 
+// close releases all the callers that are waiting on the lock, once it is no longer executing
+func (exclusiveLock *exclusiveLock) close() {
+	close(exclusiveLock.clientLost)
+	close(exclusiveLock.claim)
+	close(exclusiveLock.done)
+}
+
 //	PARAMETERS:
 //	- timeout - how long a lock should last until it times out
 //
diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index db70a0d..5f1427f 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -72,17 +72,14 @@ func (exclusiveLocker *exclusiveLocker) ObtainLock(ctx context.Context, createLo
 		})
 
 		// add the task to the task manager
-		if err := exclusiveLocker.taskManager.AddExecuteTask("", lock); err == nil {
-			claimChannel = lock.GetClaimChannel()
-		} else {
-			// on an error, just set these to a closed channel to exit from the claim operation. The client will
-			// need to retry and the lock should not be saved
-			closedChannel := make(chan func(time.Duration) string)
-			close(closedChannel)
-
-			claimChannel = closedChannel
+		if err := exclusiveLocker.taskManager.AddExecuteTask("", lock); err != nil {
+			// on an error, the lock never executes. So close it to exit from the claim operation for this client and any
+			// other client that finds the lock. The clients will need to retry
+			lock.close()
 		}
 
+		claimChannel = lock.GetClaimChannel()
+
 		return lock
 	}
 
-- 
2.43.0


From 2a5debdc6c87f7324acbfea8bc3fad93469c4877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:03 +0000
Subject: [PATCH 53/65] fix: the locker's shutdown does not wait for a timeout
 that waits for the shutdown

---
 .../locker/lock_manager/exclusive_lock.go     | 36 ++++++-------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_lock.go b/internal/locker/lock_manager/exclusive_lock.go
index c702a3b..b442ef6 100644
--- a/internal/locker/lock_manager/exclusive_lock.go
+++ b/internal/locker/lock_manager/exclusive_lock.go
@@ -22,8 +22,7 @@ const (
 
 type exclusiveLock struct {
 	// done is used to indicate that the lock is no longer processing heartbeats, claims, or releases
-	done      chan struct{}
-	blockDone chan struct{}
+	done chan struct{}
 
 	// id of the current session that hold the claim to this lock
 	sessionID      string
@@ -65,8 +64,7 @@ func newExclusiveLock(timeout func()) *exclusiveLock {
 	clientsWaitingForClaim := new(atomic.Uint64)
 
 	return &exclusiveLock{
-		done:      make(chan struct{}),
-		blockDone: make(chan struct{}, 1),
+		done: make(chan struct{}),
 
 		sessionChannel: make(chan string),
 		sessionIDLock:  new(sync.RWMutex),
@@ -140,21 +138,6 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 				select {
 				// server shutdown
 				case <-ctx.Done():
-					select {
-					// if a timeout is processing, this should wait untill that is finished
-					case <-exclusiveLock.blockDone:
-						// wait and process the timeout
-						<-exclusiveLock.timedOut
-
-						if exclusiveLock.clientsWaitingForClaim.Add(^uint64(0)) == 0 {
-							exclusiveLock.timedOut <- true
-							return nil
-						} else {
-							exclusiveLock.timedOut <- false
-						}
-					default:
-					}
-
 					return nil
 
 				// processed a client lost
@@ -235,17 +218,12 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 					exclusiveLock.lastHeartbeatLock.Unlock()
 
 					// need to run the cleanup in a background thread so the tree can grab the delete lock to check
-					exclusiveLock.blockDone <- struct{}{}
-
 					go func() {
 						exclusiveLock.timeout()
 					}()
 
 				// will trigger on a timeout
 				case <-exclusiveLock.timedOut:
-					// always read from the block of done to clear it out
-					<-exclusiveLock.blockDone
-
 					if exclusiveLock.clientsWaitingForClaim.Add(^uint64(0)) == 0 {
 						exclusiveLock.timedOut <- true
 						return nil
@@ -375,8 +353,14 @@ func (exclusiveLock *exclusiveLock) LostClient() bool {
 //
 // TimeOut a currently held lock and allow for another client to process the request
 func (exclusiveLock *exclusiveLock) TimeOut() bool {
-	exclusiveLock.timedOut <- true
-	return <-exclusiveLock.timedOut
+	select {
+	case exclusiveLock.timedOut <- true:
+		return <-exclusiveLock.timedOut
+	case <-exclusiveLock.done:
+		// the service is shutting down, which cannot wait for the timeout. The timeout can be blocked by a client that
+		// is trying to create a new lock until the shutdown finishes
+		return false
+	}
 }
 
 func (exclusiveLock *exclusiveLock) getLastHeartbeatTime() time.Time {
-- 
2.43.0


From 63b7af92b63a47fb8fda67022813936a0376a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:16 +0000
Subject: [PATCH 54/65] fix: an invalid request to delete a channel is refused
 and nothing else

---
 internal/willow/api/v1/handlers/channel_handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/willow/api/v1/handlers/channel_handler.go b/internal/willow/api/v1/handlers/channel_handler.go
index bb9a37c..25cbc71 100644
--- a/internal/willow/api/v1/handlers/channel_handler.go
+++ b/internal/willow/api/v1/handlers/channel_handler.go
@@ -49,11 +49,13 @@ func (qh queueHandler) ChannelDelete(w http.ResponseWriter, r *http.Request) {
 	if err := json.NewDecoder(r.Body).Decode(&keyValues); err != nil {
 		logger.Warn("failed to decode request", zap.Error(err))
 		_, _ = api.ModelEncodeResponse(w, http.StatusBadRequest, errors.ServerErrorModelRequestValidation(err))
+		return
 	}
 
 	if err := keyValues.Validate(datatypes.MinDataType, datatypes.MaxWithoutAnyDataType); err != nil {
 		logger.Warn("failed to validated request", zap.Error(err))
 		_, _ = api.ModelEncodeResponse(w, http.StatusBadRequest, errors.ServerErrorModelRequestValidation(err))
+		return
 	}
 
 	if err := qh.queueClient.DeleteChannel(ctx, urlrouter.GetNamedParamters(r.Context())["queue_name"], keyValues); err != nil {
-- 
2.43.0


From 2f0d1ca298f8b7d20121c1968309ce27369aa30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:49 +0000
Subject: [PATCH 55/65] fix: an override with a reserved key is a bad request

---
 internal/limiter/overrides/overrides_client_local.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/limiter/overrides/overrides_client_local.go b/internal/limiter/overrides/overrides_client_local.go
index 7470ea5..cc696e7 100644
--- a/internal/limiter/overrides/overrides_client_local.go
+++ b/internal/limiter/overrides/overrides_client_local.go
@@ -65,6 +65,10 @@ func (ocl *overridesClientLocal) CreateOverride(ctx context.Context, ruleID stri
 			// override is currently being destroyed
 			logger.Warn("override is being destroyed")
 			return "", &errors.ServerError{Message: "override is being destroy", StatusCode: http.StatusConflict}
+		case btreeonetomany.ErrorManyKeyValuesContainsReservedKeys:
+			// the request itself is invalid
+			logger.Warn("override uses reserved keys", zap.Error(err))
+			return "", &errors.ServerError{Message: "override KeyValues cannot contain the reserved key '_associated_id'", StatusCode: http.StatusBadRequest}
 		default:
 			logger.Error("Unexpected error creating the override", zap.Error(err))
 			return "", errors.InternalServerError
-- 
2.43.0


From 3cab6055e3bb3f22cbf983dc07e3ef40e3f63f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 56/65] fix: an item for a channel with a reserved key is a bad
 request

---
 .../brokers/queue_channels/queue_channels_client_local.go     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/willow/brokers/queue_channels/queue_channels_client_local.go b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
index 7335372..edfacf1 100644
--- a/internal/willow/brokers/queue_channels/queue_channels_client_local.go
+++ b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
@@ -192,6 +192,10 @@ func (qccl *queueChannelsClientLocal) EnqueueQueueItem(ctx context.Context, queu
 			// the queue or channel started to be destroyed after the 'Queue' was found
 			logger.Debug("Not enqueuing the item as the queue's channel is being destroyed")
 			return errorChannelDestroying
+		case btreeonetomany.ErrorManyKeyValuesContainsReservedKeys:
+			// the request itself is invalid
+			logger.Warn("channel uses reserved keys", zap.Error(err))
+			return &errors.ServerError{Message: "channel KeyValues cannot contain the reserved key '_associated_id'", StatusCode: http.StatusBadRequest}
 		default:
 			logger.Error("failed to create or find the queue channels", zap.Error(err))
 			return errors.InternalServerError
-- 
2.43.0


From c1eb2ac705b4bc70557569e7029a27589b4aa2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:53 +0000
Subject: [PATCH 57/65] fix: the limiter reuses its connections to the locker
 and its TLS settings are not written by every request

---
 .../api/v1/handlers/counters_handler.go       |  3 +--
 .../api/v1/handlers/limiter_handler.go        | 24 +++++++++++++++++++
 pkg/clients/locker_client/locker_client.go    | 18 ++++++++++----
 3 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/internal/limiter/api/v1/handlers/counters_handler.go b/internal/limiter/api/v1/handlers/counters_handler.go
index 2ac453b..b4b1c40 100644
--- a/internal/limiter/api/v1/handlers/counters_handler.go
+++ b/internal/limiter/api/v1/handlers/counters_handler.go
@@ -9,7 +9,6 @@ import (
 	"github.com/DanLavine/willow/pkg/models/api/common/errors"
 	"go.uber.org/zap"
 
-	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
 	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
 	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
 )
@@ -34,7 +33,7 @@ func (grh *groupRuleHandler) UpsertCounters(w http.ResponseWriter, r *http.Reque
 
 		// need to always setup a new lock client for each request. This is because each update to the counters
 		// are independent and multiple request to the same counter need to happen serialy
-		lockerClient, lockerErr := lockerclient.NewLockClient(grh.lockerClientConfig)
+		lockerClient, lockerErr := grh.newLockClient()
 		if lockerErr != nil {
 			logger.Error("failed to create locker client on increment counter request", zap.Error(lockerErr))
 			err := errors.InternalServerError
diff --git a/internal/limiter/api/v1/handlers/limiter_handler.go b/internal/limiter/api/v1/handlers/limiter_handler.go
index 792f267..279ae73 100644
--- a/internal/limiter/api/v1/handlers/limiter_handler.go
+++ b/internal/limiter/api/v1/handlers/limiter_handler.go
@@ -3,10 +3,13 @@ package handlers
 import (
 	"context"
 	"net/http"
+	"sync"
 
 	"github.com/DanLavine/willow/internal/limiter/counters"
 	"github.com/DanLavine/willow/internal/limiter/rules"
 	"github.com/DanLavine/willow/pkg/clients"
+
+	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
 )
 
 // Handles CRUD operations for Limit operations
@@ -41,6 +44,10 @@ type groupRuleHandler struct {
 	// locker client to ensure that all locks are respected
 	lockerClientConfig *clients.Config
 
+	// http client to the locker service, which is shared by all requests to reuse the connections
+	lockerHTTPClientLock sync.Mutex
+	lockerHTTPClient     *http.Client
+
 	// clients for the service
 	ruleClient    rules.RuleClient
 	counterClient counters.CounterClient
@@ -54,3 +61,20 @@ func NewGroupRuleHandler(shutdownContext context.Context, lockerClientConfig *cl
 		counterClient:      countersClient,
 	}
 }
+
+// newLockClient sets up a lock client that shares nothing but the connections to the locker service with the others
+func (grh *groupRuleHandler) newLockClient() (*lockerclient.LockClient, error) {
+	grh.lockerHTTPClientLock.Lock()
+	defer grh.lockerHTTPClientLock.Unlock()
+
+	if grh.lockerHTTPClient == nil {
+		httpClient, err := clients.NewHTTPClient(grh.lockerClientConfig)
+		if err != nil {
+			return nil, err
+		}
+
+		grh.lockerHTTPClient = httpClient
+	}
+
+	return lockerclient.NewLockClientWithHTTPClient(grh.lockerClientConfig.URL, grh.lockerHTTPClient), nil
+}
diff --git a/pkg/clients/locker_client/locker_client.go b/pkg/clients/locker_client/locker_client.go
index 7ebb61a..01e1b19 100644
--- a/pkg/clients/locker_client/locker_client.go
+++ b/pkg/clients/locker_client/locker_client.go
@@ -81,13 +81,23 @@ func NewLockClient(cfg *clients.Config) (*LockClient, error) {
 		return nil, err
 	}
 
-	lockerClient := &LockClient{
-		url:    cfg.URL,
+	return NewLockClientWithHTTPClient(cfg.URL, httpClient), nil
+}
+
+//	PARAMS
+//	- url - url of the remote locker service
+//	- httpClient - HTTP(s) client, which can be shared with other clients
+//
+//	RETURNS:
+//	- LockClient - properly configured locker client that manages all held locks
+//
+// Setup a new client to the remote locker service like 'NewLockClient', which uses the connections of the HTTP client.
+func NewLockClientWithHTTPClient(url string, httpClient *http.Client) *LockClient {
+	return &LockClient{
+		url:    url,
 		client: httpClient,
 		locks:  btreeassociated.NewThreadSafe(),
 	}
-
-	return lockerClient, nil
 }
 
 //	RETURNS:
-- 
2.43.0


From 0f3f3bb41755de617eba23975d23114a473312ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:49 +0000
Subject: [PATCH 58/65] fix: the clients close the bodies of the responses, so
 that connections do not pile up

---
 pkg/clients/limiter_client/counter.go        | 3 +++
 pkg/clients/limiter_client/limiter_client.go | 1 +
 pkg/clients/limiter_client/override.go       | 6 ++++++
 pkg/clients/limiter_client/rule.go           | 6 ++++++
 pkg/clients/locker_client/lock.go            | 1 +
 pkg/clients/locker_client/locker_client.go   | 3 +++
 pkg/clients/willow_client/channel.go         | 3 +++
 pkg/clients/willow_client/item.go            | 1 +
 pkg/clients/willow_client/queue.go           | 5 +++++
 pkg/clients/willow_client/willow_client.go   | 1 +
 10 files changed, 30 insertions(+)

diff --git a/pkg/clients/limiter_client/counter.go b/pkg/clients/limiter_client/counter.go
index 025652f..9dcc32d 100644
--- a/pkg/clients/limiter_client/counter.go
+++ b/pkg/clients/limiter_client/counter.go
@@ -43,6 +43,7 @@ func (lc *LimitClient) UpdateCounter(ctx context.Context, counter *v1limiter.Cou
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -87,6 +88,7 @@ func (lc *LimitClient) QueryCounters(ctx context.Context, query *queryassociated
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -135,6 +137,7 @@ func (lc *LimitClient) SetCounters(ctx context.Context, counters *v1limiter.Coun
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
diff --git a/pkg/clients/limiter_client/limiter_client.go b/pkg/clients/limiter_client/limiter_client.go
index ace62a0..a82bb8f 100644
--- a/pkg/clients/limiter_client/limiter_client.go
+++ b/pkg/clients/limiter_client/limiter_client.go
@@ -95,6 +95,7 @@ func (lc *LimitClient) Healthy() error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
diff --git a/pkg/clients/limiter_client/override.go b/pkg/clients/limiter_client/override.go
index 6428f3a..66008a0 100644
--- a/pkg/clients/limiter_client/override.go
+++ b/pkg/clients/limiter_client/override.go
@@ -43,6 +43,7 @@ func (lc *LimitClient) CreateOverride(ctx context.Context, ruleName string, over
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -92,6 +93,7 @@ func (lc *LimitClient) QueryOverrides(ctx context.Context, ruleName string, quer
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -141,6 +143,7 @@ func (lc *LimitClient) MatchOverrides(ctx context.Context, ruleName string, matc
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -186,6 +189,7 @@ func (lc *LimitClient) GetOverride(ctx context.Context, ruleName string, overrid
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -237,6 +241,7 @@ func (lc *LimitClient) UpdateOverride(ctx context.Context, ruleName string, over
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -275,6 +280,7 @@ func (lc *LimitClient) DeleteOverride(ctx context.Context, ruleName, overrideNam
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
diff --git a/pkg/clients/limiter_client/rule.go b/pkg/clients/limiter_client/rule.go
index 518fc82..0969a10 100644
--- a/pkg/clients/limiter_client/rule.go
+++ b/pkg/clients/limiter_client/rule.go
@@ -40,6 +40,7 @@ func (lc *LimitClient) CreateRule(ctx context.Context, rule *v1limiter.Rule) (*v
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -83,6 +84,7 @@ func (lc *LimitClient) GetRule(ctx context.Context, ruleName string) (*v1limiter
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the responseEncodedRequest
 	switch resp.StatusCode {
@@ -131,6 +133,7 @@ func (lc *LimitClient) QueryRules(ctx context.Context, query *queryassociatedact
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -179,6 +182,7 @@ func (lc *LimitClient) MatchRules(ctx context.Context, match *querymatchaction.M
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -228,6 +232,7 @@ func (lc *LimitClient) UpdateRule(ctx context.Context, ruleName string, ruleUpda
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -265,6 +270,7 @@ func (lc *LimitClient) DeleteRule(ctx context.Context, ruleName string) error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
diff --git a/pkg/clients/locker_client/lock.go b/pkg/clients/locker_client/lock.go
index 31fc124..3e5f7b6 100644
--- a/pkg/clients/locker_client/lock.go
+++ b/pkg/clients/locker_client/lock.go
@@ -220,6 +220,7 @@ func (l *lock) Release(ctx context.Context) error {
 		if err != nil {
 			return err
 		}
+		defer resp.Body.Close()
 
 		// parse the release response
 		switch resp.StatusCode {
diff --git a/pkg/clients/locker_client/locker_client.go b/pkg/clients/locker_client/locker_client.go
index 01e1b19..6eeaaca 100644
--- a/pkg/clients/locker_client/locker_client.go
+++ b/pkg/clients/locker_client/locker_client.go
@@ -115,6 +115,7 @@ func (lc *LockClient) Healthy() error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -186,6 +187,7 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 				// don't save anything for create since there was an error obtaining the lock
 				return nil
 			}
+			defer resp.Body.Close()
 
 			switch resp.StatusCode {
 			case http.StatusOK:
@@ -216,6 +218,7 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 				return nil
 			case http.StatusServiceUnavailable:
 				// server is restarting so retry the request
+				resp.Body.Close()
 				time.Sleep(time.Second)
 			default:
 				lockErr = fmt.Errorf("received an unexpected status code: %d", resp.StatusCode)
diff --git a/pkg/clients/willow_client/channel.go b/pkg/clients/willow_client/channel.go
index 583956e..2733e93 100644
--- a/pkg/clients/willow_client/channel.go
+++ b/pkg/clients/willow_client/channel.go
@@ -44,6 +44,7 @@ func (wc *WillowClient) EnqueueQueueItem(ctx context.Context, queueName string,
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -90,6 +91,7 @@ func (wc *WillowClient) DequeueQueueItem(ctx context.Context, queueName string,
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -143,6 +145,7 @@ func (wc *WillowClient) DeleteQueueChannel(ctx context.Context, queueName string
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 7234b6b..cefb8af 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -231,6 +231,7 @@ func (item *Item) ACK(ctx context.Context, passed bool) error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
diff --git a/pkg/clients/willow_client/queue.go b/pkg/clients/willow_client/queue.go
index ec33cd2..b2061a2 100644
--- a/pkg/clients/willow_client/queue.go
+++ b/pkg/clients/willow_client/queue.go
@@ -41,6 +41,7 @@ func (wc *WillowClient) CreateQueue(ctx context.Context, queue *v1willow.Queue)
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -77,6 +78,7 @@ func (wc *WillowClient) ListQueues(ctx context.Context) (v1willow.Queues, error)
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -126,6 +128,7 @@ func (wc *WillowClient) GetQueue(ctx context.Context, queueName string, channels
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -176,6 +179,7 @@ func (wc *WillowClient) UpdateQueue(ctx context.Context, queueName string, queue
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -213,6 +217,7 @@ func (wc *WillowClient) DeleteQueue(ctx context.Context, queueName string) error
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
diff --git a/pkg/clients/willow_client/willow_client.go b/pkg/clients/willow_client/willow_client.go
index 600d010..033fb12 100644
--- a/pkg/clients/willow_client/willow_client.go
+++ b/pkg/clients/willow_client/willow_client.go
@@ -80,6 +80,7 @@ func (wc *WillowClient) Healthy() error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
-- 
2.43.0


From ef00541f9875d891d328efc6cf2ed347d6c74941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:34 +0000
Subject: [PATCH 59/65] fix: a client that starts to wait while a channel is
 created does not miss the channel

---
 .../queue_channels/queue_channels_client_local.go  | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/queue_channels_client_local.go b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
index edfacf1..f6b2e8d 100644
--- a/internal/willow/brokers/queue_channels/queue_channels_client_local.go
+++ b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
@@ -156,6 +156,9 @@ func (qccl *queueChannelsClientLocal) EnqueueQueueItem(ctx context.Context, queu
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "EnqueueQueueItem")
 	var enqueueError *errors.ServerError
 
+	// set if a new channel was created that the clients need to be informed about
+	var createdChannel constructor.QueueChannel
+
 	//create a new channel to enqueue items to
 	bTreeOneToManyOnCreate := func() any {
 		destroyCallback := func() {
@@ -173,8 +176,7 @@ func (qccl *queueChannelsClientLocal) EnqueueQueueItem(ctx context.Context, queu
 		// when a new channel is created, need to add it to the async task manager. if there is an error, that means the
 		// server is shutting down so don't add it to any waiting clients.
 		if err := qccl.asyncManager.AddExecuteTask(queueName, queueChannel); err == nil {
-			// when a new channel is created, inform any clients currently waiting to process that there is something they might care about
-			qccl.updateClientsWaiting(queueName, enqueueItem.Spec.DBDefinition.KeyValues, queueChannel.Dequeue())
+			createdChannel = queueChannel
 		}
 
 		return queueChannel
@@ -202,6 +204,12 @@ func (qccl *queueChannelsClientLocal) EnqueueQueueItem(ctx context.Context, queu
 		}
 	}
 
+	// when a new channel is created, inform any clients currently waiting to process that there is something they might care about.
+	// This is done once the channel can be found. Otherwise a client that starts to wait now could miss the channel
+	if createdChannel != nil {
+		qccl.updateClientsWaiting(queueName, enqueueItem.Spec.DBDefinition.KeyValues, createdChannel.Dequeue())
+	}
+
 	return enqueueError
 }
 
@@ -391,7 +399,7 @@ func (qccl *queueChannelsClientLocal) updateClientsWaiting(queueName string, cha
 	for _, clientWaiting := range qccl.clientsWaiting {
 		if clientWaiting.queueName == queueName {
 			if clientWaiting.query.MatchTags(channelTags) {
-				clientWaiting.channelOPS.MergeOrToOne(channel)
+				clientWaiting.channelOPS.MergeOrToOneIgnoreDuplicates(channel)
 			}
 		}
 	}
-- 
2.43.0


From e067b1646c14c3c660574ae0233d195a37d29596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 60/65] fix: shutting down does not hang when an item times out
 while another one is dequeued

---
 .../queue_channels/memory/memory_queue_channel.go      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 181a849..4ed1a82 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -689,11 +689,15 @@ func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, fun
 		}
 
 		// The timeout function is the same behavior as a failed ACK operation + the parent callback to try and destroy this queue channel
+		// NOTE: this must not run as part of the heartbeat operation. On a shutdown, adding another heartbeat operation waits for
+		// this one to finish, but holds the locks that are needed here
 		onTimeout := func() {
-			_ = mqc.failItem(reporting.StripedContext(logger), firtItemID, true)
+			go func() {
+				_ = mqc.failItem(reporting.StripedContext(logger), firtItemID, true)
 
-			// if this times out, call the client to try and delete this channel
-			mqc.deleteCallback()
+				// if this times out, call the client to try and delete this channel
+				mqc.deleteCallback()
+			}()
 		}
 
 		if err := mqc.asyncManager.AddExecuteTask(firtItemID, queueItem.CreateHeartbeater(onShutdown, onTimeout)); err != nil {
-- 
2.43.0


From bef9e895265227375bebe394678b6b33da6727a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:22 +0000
Subject: [PATCH 61/65] fix: deleting a rule that a channel waits for does not
 crash willow

---
 .../memory/memory_queue_channel.go              | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 4ed1a82..b76f3bf 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -203,18 +203,17 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 				}
 
 				for {
-					// find any rules we might be at the limit for
+					// find any rules we might be at the limit for. If the limits cannot be read, for example because a rule was just
+					// deleted, try again later
 					rules, err := mqc.limiterClient.MatchRules(context.Background(), querymatchaction.KeyValuesToAnyMatchActionQuery(erroredKeyValues))
-					if err != nil {
-						panic(err)
-					}
 
 					// for each rule, query the counters to know if there is an issue
-					underLimit := true
+					underLimit := err == nil
 					for _, rule := range rules {
 						overrides, err := mqc.limiterClient.MatchOverrides(context.Background(), rule.State.ID, querymatchaction.KeyValuesToAnyMatchActionQuery(erroredKeyValues))
 						if err != nil {
-							panic(err)
+							underLimit = false
+							break
 						}
 
 						switch len(overrides) {
@@ -254,7 +253,8 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 
 							counters, err := mqc.limiterClient.QueryCounters(context.Background(), query)
 							if err != nil {
-								panic(err)
+								underLimit = false
+								break
 							}
 
 							totalCount := int64(0)
@@ -302,7 +302,8 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 
 								counters, err := mqc.limiterClient.QueryCounters(context.Background(), query)
 								if err != nil {
-									panic(err)
+									underLimit = false
+									break
 								}
 
 								totalCount := int64(0)
-- 
2.43.0


From 77cd2a5936b6e277338e60ee4662c5c194a50717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:16 +0000
Subject: [PATCH 62/65] fix: creating an item of the associated tree beside the
 destruction of a stale id is not reported as a duplicate

---
 .../btree_associated/threadsafe_create.go     | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_create.go b/internal/datastructures/btree_associated/threadsafe_create.go
index da79710..176e250 100644
--- a/internal/datastructures/btree_associated/threadsafe_create.go
+++ b/internal/datastructures/btree_associated/threadsafe_create.go
@@ -71,6 +71,7 @@ func createKey(onFind btree.BTreeOnFind) func() any {
 //	          4. ErrorAssociatedIDAlreadyExists
 //	          5. ErrorKeyValuesAlreadyExists
 //	          6. ErrorTreeDestroying
+//	          7. ErrorTreeItemDestroying
 func (tsat *threadsafeAssociatedTree) Create(keyValues datatypes.KeyValues, onCreate BTreeAssociatedOnCreate) (string, error) {
 	// check parameters
 	if err := keyValues.Validate(datatypes.MinDataType, datatypes.MaxDataType); err != nil {
@@ -123,14 +124,21 @@ func (tsat *threadsafeAssociatedTree) Create(keyValues datatypes.KeyValues, onCr
 	}
 
 	// the KeyValues already exist with an item. need to return an error because we failed to create
-	if idSet != nil && idSet.Size() == 1 && !tsat.removeDestroyedID(idNodes, keyValuesLen, idSet.Values()[0]) {
-		// unlock the IDs
-		for _, idNode := range idNodes {
-			idNode.creating.Add(-1)
-			idNode.lock.Unlock()
-		}
+	if idSet != nil && idSet.Size() == 1 {
+		destroyed, err := tsat.removeDestroyedID(idNodes, keyValuesLen, idSet.Values()[0])
+		if !destroyed {
+			// unlock the IDs
+			for _, idNode := range idNodes {
+				idNode.creating.Add(-1)
+				idNode.lock.Unlock()
+			}
 
-		return "", ErrorKeyValuesAlreadyExists
+			if err != nil {
+				return "", err
+			}
+
+			return "", ErrorKeyValuesAlreadyExists
+		}
 	}
 
 	// always save the new IDs so we can unlock the IDNodes
@@ -189,7 +197,8 @@ func (tsat *threadsafeAssociatedTree) Create(keyValues datatypes.KeyValues, onCr
 //
 //	RETURNS:
 //	- bool - true iff the item for the id no longer exists
-func (tsat *threadsafeAssociatedTree) removeDestroyedID(idNodes []*threadsafeIDNode, keyValuesLen int, associatedID string) bool {
+//	- error - ErrorTreeItemDestroying if it is not known yet, because the item is in the process of being destroyed
+func (tsat *threadsafeAssociatedTree) removeDestroyedID(idNodes []*threadsafeIDNode, keyValuesLen int, associatedID string) (bool, error) {
 	destroyed := true
 	onFind := func(_ datatypes.EncapsulatedValue, _ any) bool {
 		destroyed = false
@@ -198,7 +207,7 @@ func (tsat *threadsafeAssociatedTree) removeDestroyedID(idNodes []*threadsafeIDN
 
 	if err := tsat.associatedIDs.Find(datatypes.String(associatedID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
 		// the item is still in the process of being destroyed
-		return false
+		return false, ErrorTreeItemDestroying
 	}
 
 	if destroyed {
@@ -207,7 +216,7 @@ func (tsat *threadsafeAssociatedTree) removeDestroyedID(idNodes []*threadsafeIDN
 		}
 	}
 
-	return destroyed
+	return destroyed, nil
 }
 
 // CreateOrFind inserts or finds the value in the assoociation tree. This is thread safe to call with
-- 
2.43.0


From 19141e52d9ec7d8ca00b044d33e4f659957d66f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:42 +0000
Subject: [PATCH 63/65] fix: the lock client does not use the request of the
 caller after ObtainLock returned

---
 pkg/clients/locker_client/locker_client.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/clients/locker_client/locker_client.go b/pkg/clients/locker_client/locker_client.go
index 6eeaaca..8f59d6f 100644
--- a/pkg/clients/locker_client/locker_client.go
+++ b/pkg/clients/locker_client/locker_client.go
@@ -143,13 +143,19 @@ func (lc *LockClient) Healthy() error {
 func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock, heartbeatErrorCallback func(keyValue datatypes.KeyValues, err error)) (Lock, error) {
 	var lockErr error
 
+	// the caller can use the request again once this returns, but the KeyValues are needed until the lock is released
+	keyValues := datatypes.KeyValues{}
+	for key, value := range lockRequest.Spec.DBDefinition.KeyValues {
+		keyValues[key] = value
+	}
+
 	// cleans up the client's entry for the lock
 	removeEntry := func() {
 		canDelete := func(_ btreeassociated.AssociatedKeyValues) bool {
 			return true
 		}
 
-		if err := lc.locks.Delete(lockRequest.Spec.DBDefinition.KeyValues, canDelete); err != nil {
+		if err := lc.locks.Delete(keyValues, canDelete); err != nil {
 			panic(fmt.Sprintf("failed to relase the lock's memeory footprint: %s", err.Error()))
 		}
 	}
@@ -200,7 +206,7 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 
 				if heartbeatErrorCallback != nil {
 					errCallback := func(err error) {
-						heartbeatErrorCallback(lockRequest.Spec.DBDefinition.KeyValues, err)
+						heartbeatErrorCallback(keyValues, err)
 					}
 					return newLock(createLockResponse, lc.url, lc.client, errCallback, removeEntry)
 				}
@@ -242,7 +248,7 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 		}
 
 		// create or find the entry if we already have it
-		if _, err := lc.locks.CreateOrFind(lockRequest.Spec.DBDefinition.KeyValues, onCreate, onFind); err != nil {
+		if _, err := lc.locks.CreateOrFind(keyValues, onCreate, onFind); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From 080bb61fa08701afd24f98dcd6426d9b841f897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:55 +0000
Subject: [PATCH 64/65] fix: the lock client refuses an invalid request with an
 error

---
 pkg/clients/locker_client/locker_client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/clients/locker_client/locker_client.go b/pkg/clients/locker_client/locker_client.go
index 8f59d6f..53d665b 100644
--- a/pkg/clients/locker_client/locker_client.go
+++ b/pkg/clients/locker_client/locker_client.go
@@ -143,6 +143,11 @@ func (lc *LockClient) Healthy() error {
 func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock, heartbeatErrorCallback func(keyValue datatypes.KeyValues, err error)) (Lock, error) {
 	var lockErr error
 
+	// a request that is missing parts cannot be used to find the lock in the client
+	if err := lockRequest.ValidateSpecOnly(); err != nil {
+		return nil, err
+	}
+
 	// the caller can use the request again once this returns, but the KeyValues are needed until the lock is released
 	keyValues := datatypes.KeyValues{}
 	for key, value := range lockRequest.Spec.DBDefinition.KeyValues {
-- 
2.43.0


From a3e302d514eb98a860638c5c0751a3940496d980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:57 +0000
Subject: [PATCH 65/65] fix: deleting a queue does not crash when other
 overrides of the queue exist

---
 internal/willow/brokers/queues/memory/memory_queue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index 90ce3b9..1bdb90f 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -142,6 +142,8 @@ func (mq *memoryQueue) Destroy(ctx context.Context, limiterRuleID, queueID strin
 					},
 				},
 			},
+			MinNumberOfKeyValues: helpers.PointerOf(2),
+			MaxNumberOfKeyValues: helpers.PointerOf(2),
 		},
 	})
 	if err != nil {
-- 
2.43.0

