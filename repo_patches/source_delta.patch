From ec30805ab72442259bf735e14f194c97643758da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:10 +0000
Subject: [PATCH 1/5] fix: do not close a walker's signal channel, so that a
 late stop request cannot panic

The signal channel belongs to the caller, who sends on it. Closing it at the
end of the walk made a stop request that arrives when the walk is already over
panic with 'send on closed channel'.
---
 pkg/dag/dag.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pkg/dag/dag.go b/pkg/dag/dag.go
index 7e29c32..a10e257 100644
--- a/pkg/dag/dag.go
+++ b/pkg/dag/dag.go
@@ -437,7 +437,6 @@ func (g *AcyclicGraph[K, T]) AncestorsWalker(id K) (chan K, chan bool, error) {
 	go func() {
 		g.walkAncestors(id, ids, signal)
 		close(ids)
-		close(signal)
 	}()
 
 	return ids, signal, nil
@@ -496,7 +495,6 @@ func (g *AcyclicGraph[K, T]) DescendantsWalker(id K) (chan K, chan bool, error)
 	go func() {
 		g.walkDescendants(id, ids, signal)
 		close(ids)
-		close(signal)
 	}()
 
 	return ids, signal, nil
-- 
2.43.0


From 86e0ef256214ee4fefe4d968272fe29a689c13b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 2/5] fix: end a walk that was asked to stop while it offers an
 identifier

A walker that had passed its check for a stop request waited for the receiver
only. If the receiver asked it to stop and read no more, the walker's goroutine
never ended.
---
 pkg/dag/dag.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/dag/dag.go b/pkg/dag/dag.go
index a10e257..230ee64 100644
--- a/pkg/dag/dag.go
+++ b/pkg/dag/dag.go
@@ -468,11 +468,17 @@ func (g *AcyclicGraph[K, T]) walkAncestors(id K, ids chan K, signal chan bool) {
 			}
 		}
 
+		// A stop request takes precedence over a receiver that is ready.
 		select {
 		case <-signal:
 			return
 		default:
-			ids <- top
+		}
+
+		select {
+		case <-signal:
+			return
+		case ids <- top:
 		}
 	}
 }
@@ -526,11 +532,17 @@ func (g *AcyclicGraph[K, T]) walkDescendants(id K, ids chan K, signal chan bool)
 			}
 		}
 
+		// A stop request takes precedence over a receiver that is ready.
 		select {
 		case <-signal:
 			return
 		default:
-			ids <- top
+		}
+
+		select {
+		case <-signal:
+			return
+		case ids <- top:
 		}
 	}
 }
-- 
2.43.0


From f1f605337a79d23d36df1d5e0ea79d61f810f4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:50 +0000
Subject: [PATCH 3/5] fix: clone the type of a function-level declaration
 instead of sharing it

---
 pkg/etx/func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/etx/func.go b/pkg/etx/func.go
index 3f2bce4..c80d461 100644
--- a/pkg/etx/func.go
+++ b/pkg/etx/func.go
@@ -195,7 +195,7 @@ func (n *FuncDecl) Clone() *FuncDecl {
 		ASTNode:  n.ASTNode.Clone(),
 		DeclType: n.DeclType,
 		Label:    n.Label,
-		Type:     n.Type,
+		Type:     n.Type.Clone(),
 		Value:    n.Value.Clone(),
 	}
 }
-- 
2.43.0


From 91c76ec4a74f73ba676e1fd32a2c282cc0673d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:52 +0000
Subject: [PATCH 4/5] fix: keep the deep copy of a heredoc when cloning a value

---
 pkg/etx/value.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 0e39ef0..d7eae7d 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -34,7 +34,7 @@ func (v *Value) Clone() *Value {
 		return nil
 	}
 
-	out := Value{
+	return &Value{
 		ASTNode: v.ASTNode.Clone(),
 		Null:    v.Null,
 		Bool:    v.Bool.Clone(),
@@ -44,13 +44,6 @@ func (v *Value) Clone() *Value {
 		List:    v.List.Clone(),
 		Map:     v.Map.Clone(),
 	}
-
-	if v.Heredoc != nil {
-		s := *v.Heredoc
-		out.Heredoc = &s
-	}
-
-	return &out
 }
 
 func (v *Value) Children() (children []Node) {
-- 
2.43.0


From bb7b5cb621def0ed55ceacf2d19f0588345989dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:32 +0000
Subject: [PATCH 5/5] fix: refuse an absent interface value as an empty vertex
 id

reflect.Value.IsZero panics on the zero Value that an interface-typed
identifier without a value gives, so every operation crashed instead of
reporting the documented error.
---
 pkg/dag/dag.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/dag/dag.go b/pkg/dag/dag.go
index 230ee64..15a158c 100644
--- a/pkg/dag/dag.go
+++ b/pkg/dag/dag.go
@@ -32,7 +32,7 @@ func NewAcyclicGraph[K comparable, T any]() *AcyclicGraph[K, T] {
 // 	- ErrVertexIDEmpty if id is empty.
 // 	- ErrVertexDuplicate if id is already part of the graph.
 func (g *AcyclicGraph[K, T]) AddVertex(id K, v T) error {
-	if reflect.ValueOf(id).IsZero() {
+	if isEmptyID(id) {
 		return ErrVertexIDEmpty
 	}
 
@@ -609,9 +609,17 @@ func (g *AcyclicGraph[K, T]) String() string {
 	return sb.String()
 }
 
+// isEmptyID returns whether id is the empty identifier, which for identifiers
+// of an interface type includes the one without a value.
+func isEmptyID[K comparable](id K) bool {
+	v := reflect.ValueOf(id)
+
+	return !v.IsValid() || v.IsZero()
+}
+
 // checkVertexID checks that the specified vertex ID is valid for this graph.
 func (g *AcyclicGraph[K, T]) checkVertexID(id K) error {
-	if reflect.ValueOf(id).IsZero() {
+	if isEmptyID(id) {
 		return ErrVertexIDEmpty
 	}
 
@@ -625,10 +633,10 @@ func (g *AcyclicGraph[K, T]) checkVertexID(id K) error {
 // checkVertexID checks that the specified vertex IDs is a valid edge
 // in this graph.
 func (g *AcyclicGraph[K, T]) checkEdgeIDs(sourceID, targetID K) error {
-	if reflect.ValueOf(sourceID).IsZero() {
+	if isEmptyID(sourceID) {
 		return ErrEdgeSourceIDEmpty
 	}
-	if reflect.ValueOf(targetID).IsZero() {
+	if isEmptyID(targetID) {
 		return ErrEdgeTargetIDEmpty
 	}
 	if sourceID == targetID {
-- 
2.43.0

