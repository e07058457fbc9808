From 1c372d111b6ed99ee06190e922f8729c961eaae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:57 +0000
Subject: [PATCH 01/62] fix: queue Push must detect a full ring wherever the
 tail meets the head

---
 stl/gp/queue.gp     | 16 ++++++++--------
 stl/gp/queue.gp.go  | 16 ++++++++--------
 stl/queue.gp_int.go | 16 ++++++++--------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/stl/gp/queue.gp b/stl/gp/queue.gp
index 23094be..81d9359 100644
--- a/stl/gp/queue.gp
+++ b/stl/gp/queue.gp
@@ -78,14 +78,14 @@ func (this *<GLOBAL_NAME_PREFIX>Queue) Push(v <VALUE_TYPE>) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
diff --git a/stl/gp/queue.gp.go b/stl/gp/queue.gp.go
index 1a4fc92..b95af18 100644
--- a/stl/gp/queue.gp.go
+++ b/stl/gp/queue.gp.go
@@ -175,14 +175,14 @@ func (this *GOGPGlobalNamePrefixQueue) Push(v GOGPValueType) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
diff --git a/stl/queue.gp_int.go b/stl/queue.gp_int.go
index 6e1c95e..84fe823 100644
--- a/stl/queue.gp_int.go
+++ b/stl/queue.gp_int.go
@@ -72,14 +72,14 @@ func (this *IntQueue) Push(v int) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
-- 
2.43.0


From e17558c45c4ca9e760c84f27907611c66c8c3a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:57 +0000
Subject: [PATCH 02/62] fix: queue Shrink must keep room for and copy all
 elements, and report its result

---
 stl/gp/queue.gp     | 6 +++---
 stl/gp/queue.gp.go  | 6 +++---
 stl/queue.gp_int.go | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/stl/gp/queue.gp b/stl/gp/queue.gp
index 81d9359..9caef41 100644
--- a/stl/gp/queue.gp
+++ b/stl/gp/queue.gp
@@ -126,16 +126,16 @@ func (this *<GLOBAL_NAME_PREFIX>Queue) Back() (back <VALUE_TYPE>, ok bool) {
 func (this *<GLOBAL_NAME_PREFIX>Queue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/queue.gp.go b/stl/gp/queue.gp.go
index b95af18..89860a2 100644
--- a/stl/gp/queue.gp.go
+++ b/stl/gp/queue.gp.go
@@ -223,16 +223,16 @@ func (this *GOGPGlobalNamePrefixQueue) Back() (back GOGPValueType, ok bool) {
 func (this *GOGPGlobalNamePrefixQueue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/queue.gp_int.go b/stl/queue.gp_int.go
index 84fe823..514955b 100644
--- a/stl/queue.gp_int.go
+++ b/stl/queue.gp_int.go
@@ -120,16 +120,16 @@ func (this *IntQueue) Back() (back int, ok bool) {
 func (this *IntQueue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
-- 
2.43.0


From bd235ed2a25762ef3c1c3ee12a1e5712336e9fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:57 +0000
Subject: [PATCH 03/62] fix: deque must not drop the wrapped part of the ring
 when it reallocates

---
 stl/deque.gp_int.go | 6 +++---
 stl/gp/deque.gp     | 6 +++---
 stl/gp/deque.gp.go  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/stl/deque.gp_int.go b/stl/deque.gp_int.go
index 92f337f..c8b0dd8 100644
--- a/stl/deque.gp_int.go
+++ b/stl/deque.gp_int.go
@@ -81,7 +81,7 @@ func (this *IntDeque) PushFront(v int) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -101,7 +101,7 @@ func (this *IntDeque) PushBack(v int) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -156,7 +156,7 @@ func (this *IntDeque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/deque.gp b/stl/gp/deque.gp
index eddd2c8..f3f7e1b 100644
--- a/stl/gp/deque.gp
+++ b/stl/gp/deque.gp
@@ -85,7 +85,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) PushFront(v <VALUE_TYPE>) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -105,7 +105,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) PushBack(v <VALUE_TYPE>) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -160,7 +160,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/deque.gp.go b/stl/gp/deque.gp.go
index e1b76af..0e9e7d2 100644
--- a/stl/gp/deque.gp.go
+++ b/stl/gp/deque.gp.go
@@ -85,7 +85,7 @@ func (this *GOGPGlobalNamePrefixDeque) PushFront(v GOGPValueType) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -105,7 +105,7 @@ func (this *GOGPGlobalNamePrefixDeque) PushBack(v GOGPValueType) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -160,7 +160,7 @@ func (this *GOGPGlobalNamePrefixDeque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
-- 
2.43.0


From 6ce58a370ee8bf3731c2d43a9c5c8e01b8a56e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:57 +0000
Subject: [PATCH 04/62] fix: deque Shrink must report its result

---
 stl/deque.gp_int.go | 2 +-
 stl/gp/deque.gp     | 2 +-
 stl/gp/deque.gp.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/deque.gp_int.go b/stl/deque.gp_int.go
index c8b0dd8..79389a7 100644
--- a/stl/deque.gp_int.go
+++ b/stl/deque.gp_int.go
@@ -147,7 +147,7 @@ func (this *IntDeque) Back() (back int, ok bool) {
 func (this *IntDeque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
diff --git a/stl/gp/deque.gp b/stl/gp/deque.gp
index f3f7e1b..0296e60 100644
--- a/stl/gp/deque.gp
+++ b/stl/gp/deque.gp
@@ -151,7 +151,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) Back() (back <VALUE_TYPE>, ok bool) {
 func (this *<GLOBAL_NAME_PREFIX>Deque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
diff --git a/stl/gp/deque.gp.go b/stl/gp/deque.gp.go
index 0e9e7d2..c0434be 100644
--- a/stl/gp/deque.gp.go
+++ b/stl/gp/deque.gp.go
@@ -151,7 +151,7 @@ func (this *GOGPGlobalNamePrefixDeque) Back() (back GOGPValueType, ok bool) {
 func (this *GOGPGlobalNamePrefixDeque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
-- 
2.43.0


From 2d3860eee4b6bf15d3a0128dbf619e1a9399270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:57 +0000
Subject: [PATCH 05/62] fix: heap Reverse must accept an empty slice

---
 stl/gp/heap.gp     | 2 +-
 stl/gp/heap.gp.go  | 2 +-
 stl/heap.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/heap.gp b/stl/gp/heap.gp
index b98a3d5..a7fc6ee 100644
--- a/stl/gp/heap.gp
+++ b/stl/gp/heap.gp
@@ -140,7 +140,7 @@ func (this *<GLOBAL_NAME_PREFIX>Heap) MakeHeap(b []<VALUE_TYPE>) {
 //reverse order of b
 func (this *<GLOBAL_NAME_PREFIX>Heap) Reverse(b []<VALUE_TYPE>) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := len(b)/2 - 1; i >= 0; i-- {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
diff --git a/stl/gp/heap.gp.go b/stl/gp/heap.gp.go
index 90dd76d..326b88d 100644
--- a/stl/gp/heap.gp.go
+++ b/stl/gp/heap.gp.go
@@ -237,7 +237,7 @@ func (this *GOGPGlobalNamePrefixHeap) MakeHeap(b []GOGPValueType) {
 //reverse order of b
 func (this *GOGPGlobalNamePrefixHeap) Reverse(b []GOGPValueType) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := len(b)/2 - 1; i >= 0; i-- {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
diff --git a/stl/heap.gp_int.go b/stl/heap.gp_int.go
index 92eff7a..4a25c05 100644
--- a/stl/heap.gp_int.go
+++ b/stl/heap.gp_int.go
@@ -123,7 +123,7 @@ func (this *IntHeap) MakeHeap(b []int) {
 //reverse order of b
 func (this *IntHeap) Reverse(b []int) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := len(b)/2 - 1; i >= 0; i-- {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
-- 
2.43.0


From 29de3cdadb26fe19d744b2c4eea5cec16d8a8a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:57 +0000
Subject: [PATCH 06/62] fix: sort slice Insert must not overwrite the element
 at the index

---
 fs/sort_slice.gp_#filehashtreenodef199.go | 2 +-
 stl/gp/sort_slice.gp                      | 2 +-
 stl/gp/sort_slice.gp.go                   | 2 +-
 stl/sort_slice.gp_#inttreenodeb60b.go     | 2 +-
 stl/sort_slice.gp_int.go                  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/fs/sort_slice.gp_#filehashtreenodef199.go b/fs/sort_slice.gp_#filehashtreenodef199.go
index 2c83af8..f5e5ac2 100644
--- a/fs/sort_slice.gp_#filehashtreenodef199.go
+++ b/fs/sort_slice.gp_#filehashtreenodef199.go
@@ -70,7 +70,7 @@ func (this *FileHashSortSlice) Push(v *FileHashTreeNode) int {
 //insert
 func (this *FileHashSortSlice) Insert(v *FileHashTreeNode, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
+		right := append(this.d[:0:0], this.d[idx:]...)
 		this.d = append(this.d[:idx], v)
 		this.d = append(this.d, right...)
 	} else {
diff --git a/stl/gp/sort_slice.gp b/stl/gp/sort_slice.gp
index 35e2942..0249d56 100644
--- a/stl/gp/sort_slice.gp
+++ b/stl/gp/sort_slice.gp
@@ -76,7 +76,7 @@ func (this *<GLOBAL_NAME_PREFIX>SortSlice) Push(v <VALUE_TYPE>) int {
 //insert
 func (this *<GLOBAL_NAME_PREFIX>SortSlice) Insert(v <VALUE_TYPE>, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
+		right := append(this.d[:0:0], this.d[idx:]...)
 		this.d = append(this.d[:idx], v)
 		this.d = append(this.d, right...)
 	} else {
diff --git a/stl/gp/sort_slice.gp.go b/stl/gp/sort_slice.gp.go
index ac6a660..2e8c8f1 100644
--- a/stl/gp/sort_slice.gp.go
+++ b/stl/gp/sort_slice.gp.go
@@ -173,7 +173,7 @@ func (this *GOGPGlobalNamePrefixSortSlice) Push(v GOGPValueType) int {
 //insert
 func (this *GOGPGlobalNamePrefixSortSlice) Insert(v GOGPValueType, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
+		right := append(this.d[:0:0], this.d[idx:]...)
 		this.d = append(this.d[:idx], v)
 		this.d = append(this.d, right...)
 	} else {
diff --git a/stl/sort_slice.gp_#inttreenodeb60b.go b/stl/sort_slice.gp_#inttreenodeb60b.go
index 8700512..362682a 100644
--- a/stl/sort_slice.gp_#inttreenodeb60b.go
+++ b/stl/sort_slice.gp_#inttreenodeb60b.go
@@ -70,7 +70,7 @@ func (this *IntTreeNodeSortSlice) Push(v *IntTreeNode) int {
 //insert
 func (this *IntTreeNodeSortSlice) Insert(v *IntTreeNode, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
+		right := append(this.d[:0:0], this.d[idx:]...)
 		this.d = append(this.d[:idx], v)
 		this.d = append(this.d, right...)
 	} else {
diff --git a/stl/sort_slice.gp_int.go b/stl/sort_slice.gp_int.go
index 65e0f3c..4f95f2b 100644
--- a/stl/sort_slice.gp_int.go
+++ b/stl/sort_slice.gp_int.go
@@ -70,7 +70,7 @@ func (this *IntSortSlice) Push(v int) int {
 //insert
 func (this *IntSortSlice) Insert(v int, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
+		right := append(this.d[:0:0], this.d[idx:]...)
 		this.d = append(this.d[:idx], v)
 		this.d = append(this.d, right...)
 	} else {
-- 
2.43.0


From 6d90fb1a3cbcea8ae6f5420a8c2adeacafd06818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:57 +0000
Subject: [PATCH 07/62] fix: sort slice Pop must not panic on an empty slice

---
 fs/sort_slice.gp_#filehashtreenodef199.go | 2 +-
 stl/gp/sort_slice.gp                      | 2 +-
 stl/gp/sort_slice.gp.go                   | 2 +-
 stl/sort_slice.gp_#inttreenodeb60b.go     | 2 +-
 stl/sort_slice.gp_int.go                  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/fs/sort_slice.gp_#filehashtreenodef199.go b/fs/sort_slice.gp_#filehashtreenodef199.go
index f5e5ac2..87f06f4 100644
--- a/fs/sort_slice.gp_#filehashtreenodef199.go
+++ b/fs/sort_slice.gp_#filehashtreenodef199.go
@@ -92,8 +92,8 @@ func (this *FileHashSortSlice) Remove(idx int) (r *FileHashTreeNode, ok bool) {
 func (this *FileHashSortSlice) Pop() (r *FileHashTreeNode, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/gp/sort_slice.gp b/stl/gp/sort_slice.gp
index 0249d56..fd125f9 100644
--- a/stl/gp/sort_slice.gp
+++ b/stl/gp/sort_slice.gp
@@ -98,8 +98,8 @@ func (this *<GLOBAL_NAME_PREFIX>SortSlice) Remove(idx int) (r <VALUE_TYPE>, ok b
 func (this *<GLOBAL_NAME_PREFIX>SortSlice) Pop() (r <VALUE_TYPE>, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/gp/sort_slice.gp.go b/stl/gp/sort_slice.gp.go
index 2e8c8f1..77b9547 100644
--- a/stl/gp/sort_slice.gp.go
+++ b/stl/gp/sort_slice.gp.go
@@ -195,8 +195,8 @@ func (this *GOGPGlobalNamePrefixSortSlice) Remove(idx int) (r GOGPValueType, ok
 func (this *GOGPGlobalNamePrefixSortSlice) Pop() (r GOGPValueType, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/sort_slice.gp_#inttreenodeb60b.go b/stl/sort_slice.gp_#inttreenodeb60b.go
index 362682a..ff38c4a 100644
--- a/stl/sort_slice.gp_#inttreenodeb60b.go
+++ b/stl/sort_slice.gp_#inttreenodeb60b.go
@@ -92,8 +92,8 @@ func (this *IntTreeNodeSortSlice) Remove(idx int) (r *IntTreeNode, ok bool) {
 func (this *IntTreeNodeSortSlice) Pop() (r *IntTreeNode, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/sort_slice.gp_int.go b/stl/sort_slice.gp_int.go
index 4f95f2b..c23d6bd 100644
--- a/stl/sort_slice.gp_int.go
+++ b/stl/sort_slice.gp_int.go
@@ -92,8 +92,8 @@ func (this *IntSortSlice) Remove(idx int) (r int, ok bool) {
 func (this *IntSortSlice) Pop() (r int, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
-- 
2.43.0


From 1e2c4f1743c8efba7b28bc4b61ddd3e0855a823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:33 +0000
Subject: [PATCH 08/62] fix: list Reachable/IsValidNode must walk the nodes
 behind the first one

---
 stl/gp/list.gp     | 2 +-
 stl/gp/list.gp.go  | 2 +-
 stl/list.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index d6f28f6..35d94c3 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -277,7 +277,7 @@ func (this *<GLOBAL_NAME_PREFIX>List) Remove(node *<GLOBAL_NAME_PREFIX>ListNode)
 
 func (this *<GLOBAL_NAME_PREFIX>List) Reachable(node, dest *<GLOBAL_NAME_PREFIX>ListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index ca7275a..e995354 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -374,7 +374,7 @@ func (this *GOGPGlobalNamePrefixList) Remove(node *GOGPGlobalNamePrefixListNode)
 
 func (this *GOGPGlobalNamePrefixList) Reachable(node, dest *GOGPGlobalNamePrefixListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index 7009afe..f14ce9d 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -271,7 +271,7 @@ func (this *IntList) Remove(node *IntListNode) (n *IntListNode) {
 
 func (this *IntList) Reachable(node, dest *IntListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
-- 
2.43.0


From bf46a0c2cba8ad7bec2999e3c9380d99ca9d8cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:33 +0000
Subject: [PATCH 09/62] fix: list InsertAfter must set the back link of the
 following node

---
 stl/gp/list.gp     | 1 +
 stl/gp/list.gp.go  | 1 +
 stl/list.gp_int.go | 1 +
 3 files changed, 3 insertions(+)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index 35d94c3..cb8fc4a 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -247,6 +247,7 @@ func (this *<GLOBAL_NAME_PREFIX>List) InsertAfter(node, mark *<GLOBAL_NAME_PREFI
 	if n = node; node != nil && mark != nil {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index e995354..bc41d88 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -344,6 +344,7 @@ func (this *GOGPGlobalNamePrefixList) InsertAfter(node, mark *GOGPGlobalNamePref
 	if n = node; node != nil && mark != nil {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index f14ce9d..d28cdb6 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -241,6 +241,7 @@ func (this *IntList) InsertAfter(node, mark *IntListNode) (n *IntListNode) {
 	if n = node; node != nil && mark != nil {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
-- 
2.43.0


From f296287dbe708a5d40dbe23fff806c449ef185aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:33 +0000
Subject: [PATCH 10/62] fix: list InsertFrontList must put the whole other list
 in front

---
 stl/gp/list.gp     | 6 +++---
 stl/gp/list.gp.go  | 6 +++---
 stl/list.gp_int.go | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index cb8fc4a..bd83541 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -191,9 +191,9 @@ func (this *<GLOBAL_NAME_PREFIX>List) PopBack() (v <VALUE_TYPE>, ok bool) {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) InsertFrontList(other *<GLOBAL_NAME_PREFIX>List) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	front := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = front
 	}
 	return
 }
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index bc41d88..4a538a8 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -288,9 +288,9 @@ func (this *GOGPGlobalNamePrefixList) PopBack() (v GOGPValueType, ok bool) {
 }
 
 func (this *GOGPGlobalNamePrefixList) InsertFrontList(other *GOGPGlobalNamePrefixList) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	front := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = front
 	}
 	return
 }
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index d28cdb6..da48714 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -185,9 +185,9 @@ func (this *IntList) PopBack() (v int, ok bool) {
 }
 
 func (this *IntList) InsertFrontList(other *IntList) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	front := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = front
 	}
 	return
 }
-- 
2.43.0


From 6532ad11ae2a9f0ae1ee0c26c766f50224b25151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:33 +0000
Subject: [PATCH 11/62] fix: list Reverse must keep all nodes

---
 stl/gp/list.gp     | 10 ++++++----
 stl/gp/list.gp.go  | 10 ++++++----
 stl/list.gp_int.go | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index bd83541..c883349 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -340,10 +340,12 @@ func (this *<GLOBAL_NAME_PREFIX>List) Empty() bool {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) Reverse() {
-	v := this.Visitor()
-	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	if n := this.head; n != nil {
+		for ok := true; ok; ok = n != this.head {
+			n.prev, n.next = n.next, n.prev
+			n = n.prev //the original next
+		}
+		this.RotateForward()
 	}
 }
 
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index 4a538a8..0e3ab66 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -437,10 +437,12 @@ func (this *GOGPGlobalNamePrefixList) Empty() bool {
 }
 
 func (this *GOGPGlobalNamePrefixList) Reverse() {
-	v := this.Visitor()
-	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	if n := this.head; n != nil {
+		for ok := true; ok; ok = n != this.head {
+			n.prev, n.next = n.next, n.prev
+			n = n.prev //the original next
+		}
+		this.RotateForward()
 	}
 }
 
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index da48714..fb00dcd 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -334,10 +334,12 @@ func (this *IntList) Empty() bool {
 }
 
 func (this *IntList) Reverse() {
-	v := this.Visitor()
-	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	if n := this.head; n != nil {
+		for ok := true; ok; ok = n != this.head {
+			n.prev, n.next = n.next, n.prev
+			n = n.prev //the original next
+		}
+		this.RotateForward()
 	}
 }
 
-- 
2.43.0


From 48cfeebc1c0d2e3e2130182eb202fe2eee0b0543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:33 +0000
Subject: [PATCH 12/62] fix: list MoveBack/MoveFront must handle the front node

---
 stl/gp/list.gp     | 5 ++++-
 stl/gp/list.gp.go  | 5 ++++-
 stl/list.gp_int.go | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index c883349..2bdac80 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -300,13 +300,16 @@ func (this *<GLOBAL_NAME_PREFIX>List) MoveFront(node *<GLOBAL_NAME_PREFIX>ListNo
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveBack(node *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
 	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
+		if r = node; node == this.head {
+			this.RotateForward()
+			return
+		}
 		node.next.prev = node.prev
 		node.prev.next = node.next
 		node.next = this.head
 		node.prev = this.head.prev
 		this.head.prev.next = node
 		this.head.prev = node
-		r = node
 	}
 	return
 }
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index 0e3ab66..b186217 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -397,13 +397,16 @@ func (this *GOGPGlobalNamePrefixList) MoveFront(node *GOGPGlobalNamePrefixListNo
 
 func (this *GOGPGlobalNamePrefixList) MoveBack(node *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
 	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
+		if r = node; node == this.head {
+			this.RotateForward()
+			return
+		}
 		node.next.prev = node.prev
 		node.prev.next = node.next
 		node.next = this.head
 		node.prev = this.head.prev
 		this.head.prev.next = node
 		this.head.prev = node
-		r = node
 	}
 	return
 }
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index fb00dcd..818a91c 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -294,13 +294,16 @@ func (this *IntList) MoveFront(node *IntListNode) (r *IntListNode) {
 
 func (this *IntList) MoveBack(node *IntListNode) (r *IntListNode) {
 	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
+		if r = node; node == this.head {
+			this.RotateForward()
+			return
+		}
 		node.next.prev = node.prev
 		node.prev.next = node.next
 		node.next = this.head
 		node.prev = this.head.prev
 		this.head.prev.next = node
 		this.head.prev = node
-		r = node
 	}
 	return
 }
-- 
2.43.0


From ea124b956892083a1641bd013683b58a73be03c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:33 +0000
Subject: [PATCH 13/62] fix: list MoveBefore/MoveAfter must handle both ends of
 the list

---
 stl/gp/list.gp     | 7 +++++--
 stl/gp/list.gp.go  | 7 +++++--
 stl/list.gp_int.go | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index 2bdac80..70df3b6 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -315,19 +315,22 @@ func (this *<GLOBAL_NAME_PREFIX>List) MoveBack(node *<GLOBAL_NAME_PREFIX>ListNod
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveBefore(node, mark *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.prev.next
 			node.prev = mark.prev
 			mark.prev.next = node
 			mark.prev = node
+			if this.head == mark {
+				this.RotateBackward()
+			}
 		}
 	}
 	return
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveAfter(node, mark *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index b186217..9b63da6 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -412,19 +412,22 @@ func (this *GOGPGlobalNamePrefixList) MoveBack(node *GOGPGlobalNamePrefixListNod
 }
 
 func (this *GOGPGlobalNamePrefixList) MoveBefore(node, mark *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.prev.next
 			node.prev = mark.prev
 			mark.prev.next = node
 			mark.prev = node
+			if this.head == mark {
+				this.RotateBackward()
+			}
 		}
 	}
 	return
 }
 
 func (this *GOGPGlobalNamePrefixList) MoveAfter(node, mark *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index 818a91c..de0b5b1 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -309,19 +309,22 @@ func (this *IntList) MoveBack(node *IntListNode) (r *IntListNode) {
 }
 
 func (this *IntList) MoveBefore(node, mark *IntListNode) (r *IntListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.prev.next
 			node.prev = mark.prev
 			mark.prev.next = node
 			mark.prev = node
+			if this.head == mark {
+				this.RotateBackward()
+			}
 		}
 	}
 	return
 }
 
 func (this *IntList) MoveAfter(node, mark *IntListNode) (r *IntListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
-- 
2.43.0


From 1f9c2c929d1e2a9a3700b16ac05ac14f0ed6314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:39 +0000
Subject: [PATCH 14/62] fix: slist visitor Next must report whether it reached
 a node

---
 stl/gp/slist.gp     | 2 +-
 stl/gp/slist.gp.go  | 2 +-
 stl/slist.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 1a85b5a..2c487ba 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -79,7 +79,7 @@ func (this *<GLOBAL_NAME_PREFIX>SListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SListNodeVisitor) Get() *<GLOBAL_NAME_PREFIX>SListNode {
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 361b1d0..719391c 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -176,7 +176,7 @@ func (this *GOGPGlobalNamePrefixSListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *GOGPGlobalNamePrefixSListNodeVisitor) Get() *GOGPGlobalNamePrefixSListNode {
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index af27744..ec1b712 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -73,7 +73,7 @@ func (this *IntSListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *IntSListNodeVisitor) Get() *IntSListNode {
-- 
2.43.0


From 5cea05c9af446007ac07a849be686df2f11ff9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:39 +0000
Subject: [PATCH 15/62] fix: slist Empty must be true exactly for an empty list

---
 stl/gp/slist.gp     | 2 +-
 stl/gp/slist.gp.go  | 2 +-
 stl/slist.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 2c487ba..8cb9103 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -103,7 +103,7 @@ func New<GLOBAL_NAME_PREFIX>SList() *<GLOBAL_NAME_PREFIX>SList {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Len() (n int) {
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 719391c..4074e90 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -200,7 +200,7 @@ func NewGOGPGlobalNamePrefixSList() *GOGPGlobalNamePrefixSList {
 }
 
 func (this *GOGPGlobalNamePrefixSList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *GOGPGlobalNamePrefixSList) Len() (n int) {
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index ec1b712..6e1977f 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -94,7 +94,7 @@ func NewIntSList() *IntSList {
 }
 
 func (this *IntSList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *IntSList) Len() (n int) {
-- 
2.43.0


From 91a2e7031b85521053423d6d2b6574e776f4aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:39 +0000
Subject: [PATCH 16/62] fix: slist HasCycle must advance two nodes per step and
 not skip the meeting point

---
 stl/gp/slist.gp     | 2 +-
 stl/gp/slist.gp.go  | 2 +-
 stl/slist.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 8cb9103..4bf5891 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -329,7 +329,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) Reverse() {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) HasCycle(head *<GLOBAL_NAME_PREFIX>SListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
+	for slow, fast := head, head; fast != nil; {
 		fast = fast.next
 		if ok = fast != nil; !ok {
 			break
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 4074e90..ae51d95 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -426,7 +426,7 @@ func (this *GOGPGlobalNamePrefixSList) Reverse() {
 }
 
 func (this *GOGPGlobalNamePrefixSList) HasCycle(head *GOGPGlobalNamePrefixSListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
+	for slow, fast := head, head; fast != nil; {
 		fast = fast.next
 		if ok = fast != nil; !ok {
 			break
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index 6e1977f..fa69a30 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -238,7 +238,7 @@ func (this *IntSList) Reverse() {
 }
 
 func (this *IntSList) HasCycle(head *IntSListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
+	for slow, fast := head, head; fast != nil; {
 		fast = fast.next
 		if ok = fast != nil; !ok {
 			break
-- 
2.43.0


From be048fe073753660eaa2965d567819b1e3015429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:39 +0000
Subject: [PATCH 17/62] fix: slist Reachable/IsValidNode must walk the nodes
 behind the first one

---
 stl/gp/slist.gp     | 5 ++++-
 stl/gp/slist.gp.go  | 5 ++++-
 stl/slist.gp_int.go | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 4bf5891..f070372 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -351,10 +351,13 @@ func (this *<GLOBAL_NAME_PREFIX>SList) HasCycle(head *<GLOBAL_NAME_PREFIX>SListN
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Reachable(node, dest *<GLOBAL_NAME_PREFIX>SListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p, slow, step := node.next, node, false; p != nil && p != slow; p, step = p.next, !step {
 			if ok = (p == dest); ok {
 				break
 			}
+			if step { //slow follows at half speed, to stop in a cycle
+				slow = slow.next
+			}
 		}
 	}
 	return
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index ae51d95..92c6f77 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -448,10 +448,13 @@ func (this *GOGPGlobalNamePrefixSList) HasCycle(head *GOGPGlobalNamePrefixSListN
 
 func (this *GOGPGlobalNamePrefixSList) Reachable(node, dest *GOGPGlobalNamePrefixSListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p, slow, step := node.next, node, false; p != nil && p != slow; p, step = p.next, !step {
 			if ok = (p == dest); ok {
 				break
 			}
+			if step { //slow follows at half speed, to stop in a cycle
+				slow = slow.next
+			}
 		}
 	}
 	return
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index fa69a30..1ea2ed2 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -260,10 +260,13 @@ func (this *IntSList) HasCycle(head *IntSListNode) (ok bool) {
 
 func (this *IntSList) Reachable(node, dest *IntSListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p, slow, step := node.next, node, false; p != nil && p != slow; p, step = p.next, !step {
 			if ok = (p == dest); ok {
 				break
 			}
+			if step { //slow follows at half speed, to stop in a cycle
+				slow = slow.next
+			}
 		}
 	}
 	return
-- 
2.43.0


From 5b78da8ff541469e3e19a38b1b774325cae6ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:42 +0000
Subject: [PATCH 18/62] fix: Copys must deliver the data of a WriterTo source
 to every dst

---
 io/io.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/io/io.go b/io/io.go
index 19d3567..1094f9d 100644
--- a/io/io.go
+++ b/io/io.go
@@ -12,13 +12,8 @@ func Copys(src io.Reader, dsts ...io.Writer) (written int64, err error) {
 
 //copy src to multi dsts
 func CopysBuffer(src io.Reader, buf []byte, dsts ...io.Writer) (written int64, err error) {
-	if wt, ok := src.(io.WriterTo); ok {
-		for _, dst := range dsts {
-			if written, err = wt.WriteTo(dst); err != nil {
-				break
-			}
-		}
-		return
+	if wt, ok := src.(io.WriterTo); ok && len(dsts) == 1 { //WriteTo can feed one dst only
+		return wt.WriteTo(dsts[0])
 	}
 
 	if buf == nil {
-- 
2.43.0


From 41f7b7af04a7274d0ad3b7b46342dde115945f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:43 +0000
Subject: [PATCH 19/62] fix: Copys must report a short write of any dst, not
 only the last one

---
 io/io.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/io/io.go b/io/io.go
index 1094f9d..68ae966 100644
--- a/io/io.go
+++ b/io/io.go
@@ -23,12 +23,16 @@ ReadAll:
 	for {
 		nr, er := src.Read(buf)
 		if nr > 0 {
-			nw, ew := int(0), error(nil)
+			nw := nr //min count that every dst has accepted
 			for _, dst := range dsts {
-				if nw, ew = dst.Write(buf[0:nr]); ew != nil {
+				n, ew := dst.Write(buf[0:nr])
+				if ew != nil {
 					err = ew
 					break ReadAll
 				}
+				if n < nw {
+					nw = n
+				}
 			}
 			if nw > 0 {
 				written += int64(nw)
-- 
2.43.0


From dc0c272301660477c756fc7cf93e743967576dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:43 +0000
Subject: [PATCH 20/62] fix: Fingerprint.Sum must append to its argument

---
 hash/finger_print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/finger_print.go b/hash/finger_print.go
index f0b3859..08572a0 100644
--- a/hash/finger_print.go
+++ b/hash/finger_print.go
@@ -48,7 +48,7 @@ func (this *Fingerprint) Write(p []byte) (n int, err error) {
 }
 
 func (this *Fingerprint) Sum(b []byte) []byte {
-	buf := bytes.NewBuffer(nil)
+	buf := bytes.NewBuffer(append([]byte(nil), b...))
 	size := uint64(this.size & 0xFFFFFFFFFFFF)
 	for i := uint(6); i > 0; i-- {
 		buf.WriteByte(byte(size >> ((i - 1) * 8) & 0xff))
-- 
2.43.0


From 61fb05a4f8b3a8f4006eb6762ab71aca6c3eb045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:43 +0000
Subject: [PATCH 21/62] fix: Fingerprint.Reset must reset the counted size

---
 hash/finger_print.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hash/finger_print.go b/hash/finger_print.go
index 08572a0..200b629 100644
--- a/hash/finger_print.go
+++ b/hash/finger_print.go
@@ -63,6 +63,7 @@ func (this *Fingerprint) Reset() {
 	this.hs1.Reset()
 	this.hs2.Reset()
 	this.hs3.Reset()
+	this.size = 0
 }
 
 func (this *Fingerprint) Size() int {
-- 
2.43.0


From 402e5e36c6e7855adf715963fdf56c0aac64bbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:43 +0000
Subject: [PATCH 22/62] fix: Fingerprint.Size must be the number of bytes Sum
 appends

---
 hash/finger_print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/finger_print.go b/hash/finger_print.go
index 200b629..5dc6aa3 100644
--- a/hash/finger_print.go
+++ b/hash/finger_print.go
@@ -67,7 +67,7 @@ func (this *Fingerprint) Reset() {
 }
 
 func (this *Fingerprint) Size() int {
-	return int(this.size)
+	return 24
 }
 
 func (this *Fingerprint) BlockSize() int {
-- 
2.43.0


From bbaaeb50701f83c1f59fc23c8ff410e5fb2362ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:43 +0000
Subject: [PATCH 23/62] fix: NoneHash.Write must report all bytes as written

---
 hash/none_hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/none_hash.go b/hash/none_hash.go
index 7c08ca2..cdcedbb 100644
--- a/hash/none_hash.go
+++ b/hash/none_hash.go
@@ -24,7 +24,7 @@ func (this *NoneHash) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 func (this *NoneHash) Write(p []byte) (n int, err error) {
-	return
+	return len(p), nil
 }
 
 func (this *NoneHash) Sum(b []byte) []byte {
-- 
2.43.0


From c543c93af732b7bf84076d51ecd715ad17a1c782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:43 +0000
Subject: [PATCH 24/62] fix: NoneHash.Sum must append to its argument, Size
 must match

---
 hash/none_hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hash/none_hash.go b/hash/none_hash.go
index cdcedbb..fd3fec4 100644
--- a/hash/none_hash.go
+++ b/hash/none_hash.go
@@ -28,7 +28,7 @@ func (this *NoneHash) Write(p []byte) (n int, err error) {
 }
 
 func (this *NoneHash) Sum(b []byte) []byte {
-	buf := bytes.NewBuffer(nil)
+	buf := bytes.NewBuffer(append([]byte(nil), b...))
 	id := this.id
 	for i := uint(4); i > 0; i-- {
 		buf.WriteByte(byte(id >> ((i - 1) * 8) & 0xff))
@@ -40,7 +40,7 @@ func (this *NoneHash) Reset() {
 }
 
 func (this *NoneHash) Size() int {
-	return 0
+	return 4
 }
 
 func (this *NoneHash) BlockSize() int {
-- 
2.43.0


From 9cbaa192b4118d2e624e339f5c33ca5ead119df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:19 +0000
Subject: [PATCH 25/62] fix: RangeUint32 must report values out of range,
 overflows and division by zero

---
 math/range_uint32.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/math/range_uint32.go b/math/range_uint32.go
index 21be19c..126c00f 100644
--- a/math/range_uint32.go
+++ b/math/range_uint32.go
@@ -41,7 +41,7 @@ func (me *RangeUint32) Init(_val, _min, _max uint32) (err error) {
 
 func (me *RangeUint32) Add(other uint32) (r uint32, err error) {
 	if math.MaxUint32-other < me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Add(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Add(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val + other
 	r, err = v, me.verify(v)
@@ -49,7 +49,7 @@ func (me *RangeUint32) Add(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Sub(other uint32) (r uint32, err error) {
 	if me.val < other {
-		//return me.min, aerr.Newf(errid_ru32_full, "Sub(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Sub(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val - other
 	r, err = v, me.verify(v)
@@ -58,7 +58,7 @@ func (me *RangeUint32) Sub(other uint32) (r uint32, err error) {
 
 func (me *RangeUint32) Mul(other uint32) (r uint32, err error) {
 	if other > 0 && math.MaxUint32/other < me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Mul(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Mul(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val * other
 	r, err = v, me.verify(v)
@@ -66,7 +66,7 @@ func (me *RangeUint32) Mul(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Div(other uint32) (r uint32, err error) {
 	if 0 == other {
-		//return me.min, aerr.Newf(errid_ru32_full, "Div(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Div(%d) error:%s", other, me.Info())
 	}
 	v := me.val / other
 	r, err = v, me.verify(v)
@@ -82,14 +82,14 @@ func (me *RangeUint32) Mod(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Inc() (r uint32, err error) {
 	if math.MaxUint32 == me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Inc() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Inc() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val + 1)
 	return
 }
 func (me *RangeUint32) Dec(other uint32) (r uint32, err error) {
 	if 0 == me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Dec() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Dec() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val - 1)
 	return
@@ -135,16 +135,16 @@ func (me *RangeUint32) Info() string {
 
 func (me *RangeUint32) verify(_val uint32) (err error) {
 	if !me.InRange(_val) {
-		//err = aerr.Newf(errid_ru32_full, "val(%d) out of range[%d,%d]", _val, me.min, me.max)
+		err = fmt.Errorf("[RangeUint32] val(%d) out of range[%d,%d]", _val, me.min, me.max)
 	}
 	return
 }
 
 func verifyRangeUint32(_val, _min, _max uint32) (err error) {
 	if _min > _max {
-		//err = aerr.New(errid_min_max_error)
+		err = fmt.Errorf("[RangeUint32] min(%d) > max(%d)", _min, _max)
 	} else if _val < _min || _val > _max {
-		//err = aerr.Newf(errid_ru32_full, "val(%d) out of range[%d,%d]", _val, _min, _max)
+		err = fmt.Errorf("[RangeUint32] val(%d) out of range[%d,%d]", _val, _min, _max)
 	}
 	return
 }
-- 
2.43.0


From 338929ac248fcd72e3cee61b4dafd2572be752bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:19 +0000
Subject: [PATCH 26/62] fix: RangeUInt64 must report values out of range,
 overflows and division by zero

---
 math/range_uint64.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/math/range_uint64.go b/math/range_uint64.go
index 4fb12fe..26c0292 100644
--- a/math/range_uint64.go
+++ b/math/range_uint64.go
@@ -47,7 +47,7 @@ func (me *RangeUInt64) Init(_val, _min, _max uint64) (err error) {
 
 func (me *RangeUInt64) Add(other uint64) (r uint64, err error) {
 	if math.MaxUint64-other < me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Add(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Add(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val + other
 	r, err = v, me.verify(v)
@@ -55,7 +55,7 @@ func (me *RangeUInt64) Add(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Sub(other uint64) (r uint64, err error) {
 	if me.val < other {
-		//return me.min, aerr.Newf(errid_ru64_full, "Sub(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Sub(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val - other
 	r, err = v, me.verify(v)
@@ -64,7 +64,7 @@ func (me *RangeUInt64) Sub(other uint64) (r uint64, err error) {
 
 func (me *RangeUInt64) Mul(other uint64) (r uint64, err error) {
 	if other > 0 && math.MaxUint64/other < me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Mul(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Mul(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val * other
 	r, err = v, me.verify(v)
@@ -72,7 +72,7 @@ func (me *RangeUInt64) Mul(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Div(other uint64) (r uint64, err error) {
 	if 0 == other {
-		//return me.min, aerr.Newf(errid_ru64_full, "Div(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Div(%d) error:%s", other, me.Info())
 	}
 	v := me.val / other
 	r, err = v, me.verify(v)
@@ -80,7 +80,7 @@ func (me *RangeUInt64) Div(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Mod(other uint64) (r uint64, err error) {
 	if 0 == other {
-		//return me.min, fmt.Errorf("[RangeUInt64] Mod(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Mod(%d) error:%s", other, me.Info())
 	}
 	v := me.val % other
 	r, err = v, me.verify(v)
@@ -88,14 +88,14 @@ func (me *RangeUInt64) Mod(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Inc() (r uint64, err error) {
 	if math.MaxUint64 == me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Inc() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Inc() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val + 1)
 	return
 }
 func (me *RangeUInt64) Dec(other uint64) (r uint64, err error) {
 	if 0 == me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Dec() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Dec() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val - 1)
 	return
@@ -136,16 +136,16 @@ func (me *RangeUInt64) Info() string {
 
 func (me *RangeUInt64) verify(_val uint64) (err error) {
 	if !me.InRange(_val) {
-		//err = aerr.Newf(errid_ru64_full, "val(%d) out of range[%d,%d]", _val, me.min, me.max)
+		err = fmt.Errorf("[RangeUInt64] val(%d) out of range[%d,%d]", _val, me.min, me.max)
 	}
 	return
 }
 
 func verifyRangeUInt64(_val, _min, _max uint64) (err error) {
 	if _min > _max {
-		//err = aerr.New(errid_min_max_error)
+		err = fmt.Errorf("[RangeUInt64] min(%d) > max(%d)", _min, _max)
 	} else if _val < _min || _val > _max {
-		//err = aerr.Newf(errid_ru64_full, "val(%d) out of range[%d,%d]", _val, _min, _max)
+		err = fmt.Errorf("[RangeUInt64] val(%d) out of range[%d,%d]", _val, _min, _max)
 	}
 	return
 }
-- 
2.43.0


From 8456920e843e32492f8839f446c209a60ffa0043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:32 +0000
Subject: [PATCH 27/62] fix: IsPrime must try all primes up to the square root

---
 math/prime/prime.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/prime/prime.go b/math/prime/prime.go
index 9889ddf..0b23baf 100644
--- a/math/prime/prime.go
+++ b/math/prime/prime.go
@@ -11,7 +11,7 @@ func IsPrime(num uint32) bool {
 	if mod != 1 && mod != 5 {
 		return false
 	}
-	max := uint32(0) //uint64(math.Floor(math.Sqrt(float64(num))))
+	max := SqrtUint32(num)
 	for i := 2; i < len(g_primes); i++ {
 		prime := g_primes[i]
 		if prime > max {
-- 
2.43.0


From 8641b0a9839bfa23d662fb9f817fc205f11f17b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:25 +0000
Subject: [PATCH 28/62] fix: ZeroPadding/PKCS5Padding must not write behind the
 caller's slice

---
 crypto/padding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/padding.go b/crypto/padding.go
index 798ffe1..bfa1090 100644
--- a/crypto/padding.go
+++ b/crypto/padding.go
@@ -5,7 +5,7 @@ import "bytes"
 func ZeroPadding(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{0}, padding)
-	return append(ciphertext, padtext...)
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func ZeroUnPadding(origData []byte) []byte {
@@ -17,7 +17,7 @@ func ZeroUnPadding(origData []byte) []byte {
 func PKCS5Padding(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(ciphertext, padtext...)
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func PKCS5UnPadding(origData []byte) []byte {
-- 
2.43.0


From dc973a7f6046eaf428e07cc002b02f4ed8d8db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:25 +0000
Subject: [PATCH 29/62] fix: factories must store and remove creaters

---
 factory/factoryi.go | 2 ++
 factory/factorys.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/factory/factoryi.go b/factory/factoryi.go
index 0febb58..e525c00 100644
--- a/factory/factoryi.go
+++ b/factory/factoryi.go
@@ -9,10 +9,12 @@ type FactoryI struct {
 }
 
 func (me *FactoryI) AddCreater(nType int, creater Creater) error {
+	me.cmap[nType] = creater
 	return nil
 }
 
 func (me *FactoryI) RemoveCreater(nType int) error {
+	delete(me.cmap, nType)
 	return nil
 }
 
diff --git a/factory/factorys.go b/factory/factorys.go
index a66e9a6..575a06d 100644
--- a/factory/factorys.go
+++ b/factory/factorys.go
@@ -9,10 +9,12 @@ type FactoryS struct {
 }
 
 func (me *FactoryS) AddCreater(typename string, creater Creater) error {
+	me.cmap[typename] = creater
 	return nil
 }
 
 func (me *FactoryS) RemoveCreater(typename string) error {
+	delete(me.cmap, typename)
 	return nil
 }
 
-- 
2.43.0


From 8c58ffc97c403298ab784b835908061d5e89458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:25 +0000
Subject: [PATCH 30/62] fix: Bts/CallStackList must report the line of the
 call, not of the return address

---
 debug/backtrace.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/debug/backtrace.go b/debug/backtrace.go
index 59a99e5..0e6d230 100644
--- a/debug/backtrace.go
+++ b/debug/backtrace.go
@@ -60,12 +60,12 @@ func Bts() (bts string) {
 	var buf bytes.Buffer
 	var __pcs [maxBtListLen]uintptr
 	n := runtime.Callers(BtMe, __pcs[0:])
-	for i := 0; i < n; i++ {
-		_pc := __pcs[i]
-		_f := runtime.FuncForPC(_pc)
-		_file, _line := _f.FileLine(_pc)
+	frames := runtime.CallersFrames(__pcs[0:n])
+	for i, more := 0, n > 0; more; i++ {
+		var _f runtime.Frame
+		_f, more = frames.Next()
 		s := fmt.Sprintf("#%d Func{%s} File{%s : %d} pc{%0X}\n",
-			i, _f.Name(), _file, _line, _pc)
+			i, _f.Function, _f.File, _f.Line, _f.PC)
 		buf.WriteString(s)
 	}
 
@@ -97,12 +97,12 @@ func CallStackList(nDepth int) []string {
 	var __pcs [maxBtListLen]uintptr
 	n := runtime.Callers(nDepth, __pcs[0:])
 	cs := make([]string, 0, n)
-	for i := 0; i < n; i++ {
-		_pc := __pcs[i]
-		_f := runtime.FuncForPC(_pc)
-		_file, _line := _f.FileLine(_pc)
+	frames := runtime.CallersFrames(__pcs[0:n])
+	for more := n > 0; more; {
+		var _f runtime.Frame
+		_f, more = frames.Next()
 		s := fmt.Sprintf("Func{%s} FileLine{%s : %d} pc{%0X}",
-			_f.Name(), _file, _line, _pc)
+			_f.Function, _f.File, _f.Line, _f.PC)
 		cs = append(cs, s)
 	}
 	return cs
-- 
2.43.0


From 0a82330a460359ebf83bc81f3de9668a2ba970e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:25 +0000
Subject: [PATCH 31/62] fix: Writeable must accept heap memory below the first
 allocated pointer

---
 unsafe/string.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unsafe/string.go b/unsafe/string.go
index e2d7607..20d2dc6 100644
--- a/unsafe/string.go
+++ b/unsafe/string.go
@@ -6,8 +6,8 @@ import (
 )
 
 var (
-	//dynamic data address
-	firstPointer = uintptr(unsafe.Pointer(new(int)))
+	//dynamic data address, start of the heap arena(64M) that holds it
+	firstPointer = uintptr(unsafe.Pointer(new(int))) &^ (64<<20 - 1)
 )
 
 type Pointer unsafe.Pointer
-- 
2.43.0


From 1be2da5f03dde3277b16979917f30bf994dc7209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:01 +0000
Subject: [PATCH 32/62] fix: RWSpinLock must exclude readers from writers and
 not lose releases

---
 sync/spinrwlock.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sync/spinrwlock.go b/sync/spinrwlock.go
index 3d5e8c0..a132f5c 100644
--- a/sync/spinrwlock.go
+++ b/sync/spinrwlock.go
@@ -17,6 +17,11 @@ type RWSpinLock struct {
 func (this *RWSpinLock) Lock() {
 	this.w.Lock()                                             //get writer lock first
 	atomic.AddInt32(&this.readerCount, -rwSpinLockMaxReaders) //tell readers there is a writer
+	for i := 0; atomic.LoadInt32(&this.readerCount) != -rwSpinLockMaxReaders; i++ { //wait for active readers
+		if i > spinLockMaxLoop {
+			panic("[sync] maybe dead lock on RWSpinLock.Lock")
+		}
+	}
 }
 
 func (this *RWSpinLock) Unlock() {
@@ -33,10 +38,9 @@ func (this *RWSpinLock) RLock() {
 		}
 
 		if r := atomic.LoadInt32(&this.readerCount); r >= 0 { // A writer is pending, wait for it.
-			if atomic.AddInt32(&this.readerCount, 1) == 1 {
-				this.w.Lock() //first waiter reader, block writer
+			if atomic.CompareAndSwapInt32(&this.readerCount, r, r+1) { // never enter behind a writer
+				break
 			}
-			break
 		}
 	}
 }
@@ -45,9 +49,5 @@ func (this *RWSpinLock) RUnlock() {
 		if r+1 == 0 || r+1 == -rwSpinLockMaxReaders {
 			panic("sync: RUnlock of unlocked RWSpinLock")
 		}
-		if r == 0 {
-			// The last reader unblocks the writer.
-			this.w.Unlock()
-		}
 	}
 }
-- 
2.43.0


From f151ae8dbfc56b23c2b0b656a31551d6ee48068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:51 +0000
Subject: [PATCH 33/62] fix: package time must compile (duplicate method)

---
 time/time_sys.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/time/time_sys.go b/time/time_sys.go
index 3154fde..6226460 100644
--- a/time/time_sys.go
+++ b/time/time_sys.go
@@ -55,11 +55,6 @@ func (this *timeSys) UpdateAdjust(_unix_time int64) error {
 	return nil
 }
 
-//auto update local time
-func (this *timeSys) autoUpdate() {
-
-}
-
 //autoUpdate is autoUpdateTime duration
 func StartSys(autoUpdate Duration) {
 }
-- 
2.43.0


From fb0508689760d0a41fa00a5ed212eb60ef2e6355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:51 +0000
Subject: [PATCH 34/62] fix: package rsa must compile (GenRsaKeys returns byte
 slices)

---
 crypto/rsa/rsa.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crypto/rsa/rsa.go b/crypto/rsa/rsa.go
index 805b891..f53bb75 100644
--- a/crypto/rsa/rsa.go
+++ b/crypto/rsa/rsa.go
@@ -104,7 +104,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	//generate private key
 	priKey, _err := rsa.GenerateKey(rand.Reader, bits)
 	if _err != nil {
-		return "", "", _err
+		return nil, nil, _err
 	}
 	derStream := x509.MarshalPKCS1PrivateKey(priKey)
 	block := &pem.Block{
@@ -115,7 +115,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	var bufPri bytes.Buffer
 	err = pem.Encode(&bufPri, block)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	privateKey = bufPri.Bytes()
 
@@ -123,7 +123,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	pubKey := &priKey.PublicKey
 	derPkix, err := x509.MarshalPKIXPublicKey(pubKey)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	block = &pem.Block{
 		Type:  "public key",
@@ -132,7 +132,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	var bufPub bytes.Buffer
 	err = pem.Encode(&bufPub, block)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	publicKey = bufPub.Bytes()
 	return
-- 
2.43.0


From 7cba7c738dcc0687e9761b36c4de0ee3591d4e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:51 +0000
Subject: [PATCH 35/62] fix: RandRange must accept the full word range

---
 math/rand/rand.gp       | 3 +++
 math/rand/rand.gp_32.go | 3 +++
 math/rand/rand.gp_64.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/math/rand/rand.gp b/math/rand/rand.gp
index e958077..810f322 100644
--- a/math/rand/rand.gp
+++ b/math/rand/rand.gp
@@ -67,6 +67,9 @@ func (me *Rand<BITS>T) RandRange(min, max <SEED_TYPE>) <SEED_TYPE> {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //full range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
diff --git a/math/rand/rand.gp_32.go b/math/rand/rand.gp_32.go
index 4d3cfbd..7dc6988 100644
--- a/math/rand/rand.gp_32.go
+++ b/math/rand/rand.gp_32.go
@@ -87,6 +87,9 @@ func (me *Rand32T) RandRange(min, max uint32) uint32 {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //full range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
diff --git a/math/rand/rand.gp_64.go b/math/rand/rand.gp_64.go
index b286e57..3d77fb2 100644
--- a/math/rand/rand.gp_64.go
+++ b/math/rand/rand.gp_64.go
@@ -87,6 +87,9 @@ func (me *Rand64T) RandRange(min, max uint64) uint64 {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //full range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
-- 
2.43.0


From d44843ef062dfce8d790d3ed1760cc1d4a9a864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:55 +0000
Subject: [PATCH 36/62] fix: NewClient must reject keys that are not RSA keys

---
 crypto/rsa/rsa.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/rsa/rsa.go b/crypto/rsa/rsa.go
index f53bb75..a650faf 100644
--- a/crypto/rsa/rsa.go
+++ b/crypto/rsa/rsa.go
@@ -36,7 +36,10 @@ func NewClient(publicKey []byte) (*RsaClient, error) {
 	if err != nil {
 		return nil, err
 	}
-	pub := pubInterface.(*rsa.PublicKey)
+	pub, ok := pubInterface.(*rsa.PublicKey)
+	if !ok {
+		return nil, errPublicKey
+	}
 	c := &RsaClient{publicKey: pub}
 	return c, nil
 }
-- 
2.43.0


From afaa5a9584f938cd4f4b21e268e543b235f354b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:10 +0000
Subject: [PATCH 37/62] fix: package errors must compile (two functions Reg)

---
 errors/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors/interface.go b/errors/interface.go
index 35f5d87..b9699ed 100644
--- a/errors/interface.go
+++ b/errors/interface.go
@@ -16,7 +16,7 @@ type ErrorObj struct {
 }
 
 //regist an error
-func Reg(moduleId uint16, name, content string, handle Handler) ErrorId {
+func RegError(moduleId uint16, name, content string, handle Handler) ErrorId {
 	return 0
 }
 
-- 
2.43.0


From 6888d1a6f7a25bd042fa194cef280a6757257dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:10 +0000
Subject: [PATCH 38/62] fix: ERRID_STD must not share its id with ERRID_UNKNOWN

---
 errors/errors.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index f5d496d..7eaed44 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -37,10 +37,6 @@ type ErrorDef struct {
 //}
 
 //-------------------------------------------------------------------
-func init() {
-	g_id2err = []string{"unknown error"}
-}
-
 const (
 	//unknown error id
 	ERRID_UNKNOWN = errId(g_id_min)
@@ -52,9 +48,9 @@ var (
 
 var (
 	//registered error mapping
-	g_id2err      = make([]string, 0, g_init_err)
+	g_id2err      = append(make([]string, 0, g_init_err), "unknown error")
 	g_id2err_lock sync.RWMutex
-	g_id_cur_max  errId = g_id_invalid
+	g_id_cur_max  errId = ERRID_UNKNOWN
 )
 
 const (
-- 
2.43.0


From 83eb0080463affe8b384ed0522d90f97141b54e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:10 +0000
Subject: [PATCH 39/62] fix: StdErr must not take the text of an error as a
 format

---
 errors/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors/errors.go b/errors/errors.go
index 7eaed44..16a6064 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -132,5 +132,5 @@ func (cp errId) String() string {
 }
 
 func StdErr(e error) (err WithIdErr) {
-	return Newf(ERRID_STD, e.Error())
+	return Newf(ERRID_STD, "%s", e.Error())
 }
-- 
2.43.0


From 27bcc47750fca933a6974bbba1d1710b715213b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:10 +0000
Subject: [PATCH 40/62] fix: ShowAll must not read the registry without its
 lock

---
 errors/errors.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index 16a6064..9f957ea 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -95,9 +95,12 @@ func Reg(_err_name string) (id errId, err error) {
 
 func ShowAll() string {
 	var buf bytes.Buffer
-	s := fmt.Sprintf("[errors] Count:%d", g_id_cur_max-g_id_min+1)
+	g_id2err_lock.RLock()
+	max := g_id_cur_max
+	g_id2err_lock.RUnlock()
+	s := fmt.Sprintf("[errors] Count:%d", max-g_id_min+1)
 	buf.WriteString(s)
-	for id := errId(g_id_min); id <= g_id_cur_max; id++ {
+	for id := errId(g_id_min); id <= max; id++ {
 		buf.WriteString(consts.NewLine)
 		buf.WriteString(id.String())
 	}
-- 
2.43.0


From 870d8b3dd9576e257716885198871eabe03bf350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:12 +0000
Subject: [PATCH 41/62] fix: package fs must compile (name of the children
 slice, fields of a tree node)

---
 fs/file_path.go                           | 26 ++++++++--------
 fs/functorcmp.gp_#filehashtreenodef199.go | 26 ++++++++--------
 fs/sort_slice.gp_#filehashtreenodef199.go | 38 +++++++++++------------
 fs/tree.gpg                               |  2 +-
 4 files changed, 46 insertions(+), 46 deletions(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index d353667..efe3334 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -415,21 +415,21 @@ func (me FilePathObject) Fingerprint() (root *FileHashTreeNode, err error) {
 					}
 					root.SortChildren()
 					for _, v := range root.Children() {
-						r := strings.NewReader(v.Hash)
+						r := strings.NewReader(v.val.Hash)
 						io.Copy(h, r)
-						root.Size += v.Size
+						root.val.Size += v.val.Size
 					}
-					root.IsDir = true
+					root.val.IsDir = true
 				}
 			} else {
 				r := io.Reader(f)
 				io.Copy(h, r)
-				root.Size = FileSize(fi.Size())
+				root.val.Size = FileSize(fi.Size())
 			}
-			h.Resetsize(int64(root.Size))
+			h.Resetsize(int64(root.val.Size))
 			p := h.String()
-			root.Path = me.String()
-			root.Hash = p
+			root.val.Path = me.String()
+			root.val.Hash = p
 		}
 	}
 	return
@@ -464,20 +464,20 @@ func (me FilePathObject) Hash(method xhash.HashMethod, salt string) (root *FileH
 					}
 					root.SortChildren()
 					for _, v := range root.Children() {
-						r := strings.NewReader(v.Hash)
+						r := strings.NewReader(v.val.Hash)
 						io.Copy(h, r)
-						root.Size += v.Size
+						root.val.Size += v.val.Size
 					}
-					root.IsDir = true
+					root.val.IsDir = true
 				}
 			} else {
 				r := io.Reader(f)
 				io.Copy(h, r)
-				root.Size = FileSize(fi.Size())
+				root.val.Size = FileSize(fi.Size())
 			}
 			p := fmt.Sprintf("%x", h.Sum(nil))
-			root.Path = me.String()
-			root.Hash = p
+			root.val.Path = me.String()
+			root.val.Hash = p
 		}
 	}
 	return
diff --git a/fs/functorcmp.gp_#filehashtreenodef199.go b/fs/functorcmp.gp_#filehashtreenodef199.go
index 7ea6adc..725f62a 100644
--- a/fs/functorcmp.gp_#filehashtreenodef199.go
+++ b/fs/functorcmp.gp_#filehashtreenodef199.go
@@ -29,21 +29,21 @@ const (
 ) //
 
 //cmp object, zero is Lesser
-type CmpFileHash byte
+type CmpFileHashTreeNode byte
 
 const (
-	CmpFileHashLesser  CmpFileHash = CMPLesser
-	CmpFileHashGreater CmpFileHash = CMPGreater
+	CmpFileHashTreeNodeLesser  CmpFileHashTreeNode = CMPLesser
+	CmpFileHashTreeNodeGreater CmpFileHashTreeNode = CMPGreater
 )
 
 //create cmp object by name
-func CreateCmpFileHash(cmpName string) (r CmpFileHash) {
-	r = CmpFileHashLesser.CreateByName(cmpName)
+func CreateCmpFileHashTreeNode(cmpName string) (r CmpFileHashTreeNode) {
+	r = CmpFileHashTreeNodeLesser.CreateByName(cmpName)
 	return
 }
 
 //uniformed global function
-func (me CmpFileHash) F(left, right *FileHashTreeNode) (ok bool) {
+func (me CmpFileHashTreeNode) F(left, right *FileHashTreeNode) (ok bool) {
 	switch me {
 	case CMPLesser:
 		ok = me.less(left, right)
@@ -54,13 +54,13 @@ func (me CmpFileHash) F(left, right *FileHashTreeNode) (ok bool) {
 }
 
 //Lesser object
-func (me CmpFileHash) Lesser() CmpFileHash { return CMPLesser }
+func (me CmpFileHashTreeNode) Lesser() CmpFileHashTreeNode { return CMPLesser }
 
 //Greater object
-func (me CmpFileHash) Greater() CmpFileHash { return CMPGreater }
+func (me CmpFileHashTreeNode) Greater() CmpFileHashTreeNode { return CMPGreater }
 
 //show as string
-func (me CmpFileHash) String() (s string) {
+func (me CmpFileHashTreeNode) String() (s string) {
 	switch me {
 	case CMPLesser:
 		s = "Lesser"
@@ -73,7 +73,7 @@ func (me CmpFileHash) String() (s string) {
 }
 
 //create by bool
-func (me CmpFileHash) CreateByBool(bigFirst bool) (r CmpFileHash) {
+func (me CmpFileHashTreeNode) CreateByBool(bigFirst bool) (r CmpFileHashTreeNode) {
 	if bigFirst {
 		r = CMPGreater
 	} else {
@@ -83,7 +83,7 @@ func (me CmpFileHash) CreateByBool(bigFirst bool) (r CmpFileHash) {
 }
 
 //create cmp object by name
-func (me CmpFileHash) CreateByName(cmpName string) (r CmpFileHash) {
+func (me CmpFileHashTreeNode) CreateByName(cmpName string) (r CmpFileHashTreeNode) {
 	switch cmpName {
 	case "": //default Lesser
 		fallthrough
@@ -98,7 +98,7 @@ func (me CmpFileHash) CreateByName(cmpName string) (r CmpFileHash) {
 }
 
 //lesser operation
-func (me CmpFileHash) less(left, right *FileHashTreeNode) (ok bool) {
+func (me CmpFileHashTreeNode) less(left, right *FileHashTreeNode) (ok bool) {
 
 	ok = left.Less(right)
 
@@ -106,7 +106,7 @@ func (me CmpFileHash) less(left, right *FileHashTreeNode) (ok bool) {
 }
 
 //Greater operation
-func (me CmpFileHash) great(left, right *FileHashTreeNode) (ok bool) {
+func (me CmpFileHashTreeNode) great(left, right *FileHashTreeNode) (ok bool) {
 
 	ok = right.Less(left)
 
diff --git a/fs/sort_slice.gp_#filehashtreenodef199.go b/fs/sort_slice.gp_#filehashtreenodef199.go
index 87f06f4..33110fb 100644
--- a/fs/sort_slice.gp_#filehashtreenodef199.go
+++ b/fs/sort_slice.gp_#filehashtreenodef199.go
@@ -26,49 +26,49 @@ import "sort"
 
 ////////////////////////////////////////////////////////////////////////////////
 
-var gFileHashSortSliceGbl struct {
-	cmp CmpFileHash
+var gFileHashTreeNodeSortSliceGbl struct {
+	cmp CmpFileHashTreeNode
 }
 
 func init() {
-	gFileHashSortSliceGbl.cmp = gFileHashSortSliceGbl.cmp.CreateByName("")
+	gFileHashTreeNodeSortSliceGbl.cmp = gFileHashTreeNodeSortSliceGbl.cmp.CreateByName("")
 }
 
 //new sort object
-func NewFileHashSortSlice(capacity int) *FileHashSortSlice {
-	p := &FileHashSortSlice{}
+func NewFileHashTreeNodeSortSlice(capacity int) *FileHashTreeNodeSortSlice {
+	p := &FileHashTreeNodeSortSlice{}
 	p.Init(capacity)
 	return p
 }
 
 //sort slice
-type FileHashSortSlice struct {
+type FileHashTreeNodeSortSlice struct {
 	d []*FileHashTreeNode
 }
 
 //init
-func (this *FileHashSortSlice) Init(capacity int) {
+func (this *FileHashTreeNodeSortSlice) Init(capacity int) {
 	this.d = make([]*FileHashTreeNode, 0, capacity)
 }
 
 //sort
-func (this *FileHashSortSlice) Sort() {
+func (this *FileHashTreeNodeSortSlice) Sort() {
 	sort.Sort(this)
 }
 
 //data buffer
-func (this *FileHashSortSlice) Buffer() []*FileHashTreeNode {
+func (this *FileHashTreeNodeSortSlice) Buffer() []*FileHashTreeNode {
 	return this.d
 }
 
 //push
-func (this *FileHashSortSlice) Push(v *FileHashTreeNode) int {
+func (this *FileHashTreeNodeSortSlice) Push(v *FileHashTreeNode) int {
 	this.d = append(this.d, v)
 	return this.Len()
 }
 
 //insert
-func (this *FileHashSortSlice) Insert(v *FileHashTreeNode, idx int) int {
+func (this *FileHashTreeNodeSortSlice) Insert(v *FileHashTreeNode, idx int) int {
 	if idx >= 0 && idx < this.Len() {
 		right := append(this.d[:0:0], this.d[idx:]...)
 		this.d = append(this.d[:idx], v)
@@ -80,7 +80,7 @@ func (this *FileHashSortSlice) Insert(v *FileHashTreeNode, idx int) int {
 }
 
 //remove
-func (this *FileHashSortSlice) Remove(idx int) (r *FileHashTreeNode, ok bool) {
+func (this *FileHashTreeNodeSortSlice) Remove(idx int) (r *FileHashTreeNode, ok bool) {
 	if r, ok = this.Get(idx); ok {
 		right := this.d[idx+1:]
 		this.d = append(this.d[:idx], right...)
@@ -89,7 +89,7 @@ func (this *FileHashSortSlice) Remove(idx int) (r *FileHashTreeNode, ok bool) {
 }
 
 //pop
-func (this *FileHashSortSlice) Pop() (r *FileHashTreeNode, ok bool) {
+func (this *FileHashTreeNodeSortSlice) Pop() (r *FileHashTreeNode, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
 		this.d = (this.d)[:len(this.d)-1]
@@ -98,7 +98,7 @@ func (this *FileHashSortSlice) Pop() (r *FileHashTreeNode, ok bool) {
 }
 
 //get
-func (this *FileHashSortSlice) Get(idx int) (r *FileHashTreeNode, ok bool) {
+func (this *FileHashTreeNodeSortSlice) Get(idx int) (r *FileHashTreeNode, ok bool) {
 	if ok = idx >= 0 && idx < this.Len(); ok {
 		r = this.d[idx]
 	}
@@ -106,7 +106,7 @@ func (this *FileHashSortSlice) Get(idx int) (r *FileHashTreeNode, ok bool) {
 }
 
 //must get
-func (this *FileHashSortSlice) MustGet(idx int) (r *FileHashTreeNode) {
+func (this *FileHashTreeNodeSortSlice) MustGet(idx int) (r *FileHashTreeNode) {
 	ok := false
 	if r, ok = this.Get(idx); !ok {
 		panic(idx)
@@ -115,17 +115,17 @@ func (this *FileHashSortSlice) MustGet(idx int) (r *FileHashTreeNode) {
 }
 
 //len
-func (this *FileHashSortSlice) Len() int {
+func (this *FileHashTreeNodeSortSlice) Len() int {
 	return len(this.d)
 }
 
 //sort by Hash decend,the larger one first
-func (this *FileHashSortSlice) Less(i, j int) (ok bool) {
+func (this *FileHashTreeNodeSortSlice) Less(i, j int) (ok bool) {
 	l, r := (this.d)[i], (this.d)[j]
-	return gFileHashSortSliceGbl.cmp.F(l, r)
+	return gFileHashTreeNodeSortSliceGbl.cmp.F(l, r)
 }
 
 //swap
-func (this *FileHashSortSlice) Swap(i, j int) {
+func (this *FileHashTreeNodeSortSlice) Swap(i, j int) {
 	(this.d)[i], (this.d)[j] = (this.d)[j], (this.d)[i]
 }
diff --git a/fs/tree.gpg b/fs/tree.gpg
index c97632e..befdb02 100644
--- a/fs/tree.gpg
+++ b/fs/tree.gpg
@@ -18,4 +18,4 @@ GOGP_GpFilePath=github.com/vipally/gx/stl/gp/sort_slice
 GOGP_HasCmpFunc=true
 PACKAGE=package fs
 VALUE_TYPE=*FileHashTreeNode
-GLOBAL_NAME_PREFIX=FileHash
+GLOBAL_NAME_PREFIX=FileHashTreeNode
-- 
2.43.0


From 4211e9af5507854e0280d11d524a2042d08b354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:12 +0000
Subject: [PATCH 42/62] fix: CollectSubs must report the errors of Open and
 Readdir

---
 fs/fs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fs/fs.go b/fs/fs.go
index 82de1d0..f0aa364 100644
--- a/fs/fs.go
+++ b/fs/fs.go
@@ -55,9 +55,11 @@ func GetDeepFiles(dir string) (subs []string, err error) {
 }
 
 func CollectSubs(dir string, opt FsOption) (subs []string, err error) {
-	if _f, err := os.Open(dir); err == nil {
+	var _f *os.File
+	if _f, err = os.Open(dir); err == nil {
 		defer _f.Close()
-		if _subs, err := _f.Readdir(0); err == nil {
+		var _subs []os.FileInfo
+		if _subs, err = _f.Readdir(0); err == nil {
 			_has_sub_dir := false
 			for _, _v := range _subs {
 				_sub_name := _v.Name()
-- 
2.43.0


From 7776d01aa2b42bf2e9a88182841e4d2130cc6895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:12 +0000
Subject: [PATCH 43/62] fix: Create must create the directory, not recurse
 without end

---
 fs/fs.go | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/fs/fs.go b/fs/fs.go
index f0aa364..d2398f8 100644
--- a/fs/fs.go
+++ b/fs/fs.go
@@ -96,18 +96,7 @@ func CollectSubs(dir string, opt FsOption) (subs []string, err error) {
 }
 
 func Create(_dir string) error {
-	_parent := _dir //Dir(_dir)
-	if f, e := os.Open(_dir); e == nil {
-		if e2 := Create(_parent); e2 == nil {
-			_, e2 = os.Create(_parent)
-			return e2
-		} else {
-			return e2
-		}
-	} else {
-		f.Close()
-	}
-	return nil
+	return os.MkdirAll(_dir, os.ModePerm)
 }
 
 func Split(file_path string) (_path, _file string) {
-- 
2.43.0


From bc03582c33fbe2acf3a74f926e82092898d7751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:12 +0000
Subject: [PATCH 44/62] fix: Link/Rename/Symlink/Move must take an absolute
 destination as it is

---
 fs/file_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index efe3334..a93990d 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -339,7 +339,7 @@ func (me FilePathObject) Stat() (os.FileInfo, error) {
 //if _destPath is related path, then calculate from me.Dir
 func (me FilePathObject) relateThisPath(_destPath string) FilePathObject {
 	n := FilePath(_destPath)
-	if n.VolumeName() == "" { //related path, then calculate from me.Dir
+	if n.VolumeName() == "" && !filepath.IsAbs(n.String()) { //related path, then calculate from me.Dir
 		n.Set(Joins(me.Dir(), n.String()))
 	}
 	return n
-- 
2.43.0


From 813bb410d64e76b39bb3c1944a7ab45b37c5e8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:12 +0000
Subject: [PATCH 45/62] fix: Move must not relate a relative destination twice

---
 fs/file_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index a93990d..92d6a0e 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -493,7 +493,7 @@ func (me FilePathObject) Copy(destPath string) (FilePathObject, error) {
 func (me FilePathObject) Move(destPath string) (FilePathObject, error) {
 	n := me.relateThisPath(destPath)
 	if me.VolumeName() == n.VolumeName() { //not cross disk,use rename operation
-		return me.Rename(n.String())
+		return n, os.Rename(string(me), n.String())
 	}
 	return "", nil
 }
-- 
2.43.0


From 1c3b628a6deea583f9c2ca48b51962531f729702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:12 +0000
Subject: [PATCH 46/62] fix: GoPath must use the system's list separator

---
 fs/file_line.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs/file_line.go b/fs/file_line.go
index aa0e1ec..ef1e971 100644
--- a/fs/file_line.go
+++ b/fs/file_line.go
@@ -45,7 +45,7 @@ func Func() (f string) {
 func goPath() (p string) {
 	//get GoPath
 	s := os.Getenv("GOPATH")
-	if ss := strings.Split(s, ";"); ss != nil && len(ss) > 0 {
+	if ss := strings.Split(s, string(os.PathListSeparator)); ss != nil && len(ss) > 0 {
 		p = FormatPath(ss[0] + "/src/")
 	}
 	return
-- 
2.43.0


From c0d312e0d0c8984e329a60862f9b3600f4ebb6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:12 +0000
Subject: [PATCH 47/62] fix: Fingerprint/Hash must report read errors

---
 fs/file_path.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index 92d6a0e..f40f298 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -423,7 +423,9 @@ func (me FilePathObject) Fingerprint() (root *FileHashTreeNode, err error) {
 				}
 			} else {
 				r := io.Reader(f)
-				io.Copy(h, r)
+				if _, err = io.Copy(h, r); err != nil {
+					return
+				}
 				root.val.Size = FileSize(fi.Size())
 			}
 			h.Resetsize(int64(root.val.Size))
@@ -472,7 +474,9 @@ func (me FilePathObject) Hash(method xhash.HashMethod, salt string) (root *FileH
 				}
 			} else {
 				r := io.Reader(f)
-				io.Copy(h, r)
+				if _, err = io.Copy(h, r); err != nil {
+					return
+				}
 				root.val.Size = FileSize(fi.Size())
 			}
 			p := fmt.Sprintf("%x", h.Sum(nil))
-- 
2.43.0


From 9c63d02b7caf3aacff68c8d6478180b620e4e4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:05 +0000
Subject: [PATCH 48/62] fix: SplitAll must not panic on relative paths

---
 fs/file_path.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fs/file_path.go b/fs/file_path.go
index f40f298..3f271e5 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -205,6 +205,9 @@ func (me FilePathObject) SplitAll() []string {
 			break
 		}
 	}
+	if i < 0 { //relative path, all elements are used
+		i = 0
+	}
 	return b[i:]
 }
 
-- 
2.43.0


From fb017647bb23d432d5ae254da24ab34ceb7fa4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:05 +0000
Subject: [PATCH 49/62] fix: SplitAll must keep the root of an absolute path

---
 fs/file_path.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index 3f271e5..e8a8fb8 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -193,7 +193,9 @@ func (me FilePathObject) SplitAll() []string {
 	i := maxn - 1
 	for ; i >= 0; i-- {
 		p, f := filepath.Split(s)
-		s = strings.TrimSuffix(p, "/")
+		if s = strings.TrimSuffix(p, "/"); s == "" { //keep the root
+			s = p
+		}
 		if f != "" {
 			b[i] = f
 		} else {
-- 
2.43.0


From e913e46801214c56d28e581d36a5d4715bfada02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:40 +0000
Subject: [PATCH 50/62] fix: package regable must compile (import paths)

---
 regable/reg.go     | 4 ++--
 regable/reg.gp     | 4 ++--
 regable/regable.go | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index 01dce47..43fe26b 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -25,8 +25,8 @@ import (
 	"fmt"
 	"sync"
 	"github.com/vipally/gx/consts"
-	"github.com/vipally/gx/errors"
-	xmath "github.com/vipally/gx/math"
+	aerr "github.com/vipally/gx/errors"
+	amath "github.com/vipally/gx/math"
 )
 
 const (
diff --git a/regable/reg.gp b/regable/reg.gp
index 96c711d..6b1063f 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -5,8 +5,8 @@ import (
 	"fmt"
 	<LOCK_COMMENT>"sync"
 	"github.com/vipally/gx/consts"
-	"github.com/vipally/gx/errors"
-	xmath "github.com/vipally/gx/math"
+	aerr "github.com/vipally/gx/errors"
+	amath "github.com/vipally/gx/math"
 )
 
 const (
diff --git a/regable/regable.go b/regable/regable.go
index 8a15053..0bd94d7 100644
--- a/regable/regable.go
+++ b/regable/regable.go
@@ -8,8 +8,8 @@ import (
 	"bytes"
 	"fmt"
 
-	acst "vipally.gmail.com/basic/consts"
-	aerr "vipally.gmail.com/basic/errors"
+	acst "github.com/vipally/gx/consts"
+	aerr "github.com/vipally/gx/errors"
 )
 
 const (
@@ -48,7 +48,7 @@ func ShowAllRegs() string {
 	var buf bytes.Buffer
 	buf.WriteString(str_head)
 	for _, f := range g_show_reg_funcs {
-		buf.WriteString(acst.NEW_LINE)
+		buf.WriteString(acst.NewLine)
 		buf.WriteString(f())
 	}
 	return buf.String()
-- 
2.43.0


From 46a3bada933692302205845bd4fed0e67486f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:40 +0000
Subject: [PATCH 51/62] fix: an invalid registered id must give an error, not
 an index panic

---
 regable/reg.go | 2 ++
 regable/reg.gp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/regable/reg.go b/regable/reg.go
index 43fe26b..4503496 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -191,10 +191,12 @@ func (cp Uint32Id) get() (rg *Uint32Reger, r *_uint32Record, err error) {
 	idregidx, idx := idrgr-g_invalid_id-1, id-g_invalid_id-1
 	if idrgr == g_invalid_id || !g_u32_rgr_id_gen.InCurrentRange(idrgr) {
 		err = aerr.New(errid_u32_id)
+		return
 	}
 	rg = g_u32_reger_list[idregidx]
 	if id == g_invalid_id || !rg.id_gen.InCurrentRange(id) {
 		err = aerr.New(errid_u32_id)
+		return
 	}
 	r = rg.reg_list[idx]
 	return
diff --git a/regable/reg.gp b/regable/reg.gp
index 6b1063f..1fcb610 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -171,10 +171,12 @@ func (cp <TYPENAME_U>Id) get() (rg *<TYPENAME_U>Reger, r *_<TYPENAME_L>Record, e
 	idregidx, idx := idrgr-g_invalid_id-1, id-g_invalid_id-1
 	if idrgr == g_invalid_id || !g_<TYPENAME_L_SHORT>_rgr_id_gen.InCurrentRange(idrgr) {
 		err = aerr.New(errid_<TYPENAME_L_SHORT>_id)
+		return
 	}
 	rg = g_<TYPENAME_L_SHORT>_reger_list[idregidx]
 	if id == g_invalid_id || !rg.id_gen.InCurrentRange(id) {
 		err = aerr.New(errid_<TYPENAME_L_SHORT>_id)
+		return
 	}
 	r = rg.reg_list[idx]
 	return
-- 
2.43.0


From a5a893d6a76331dc41c719dd178cb2614d3276b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:40 +0000
Subject: [PATCH 52/62] fix: the id behind the last registered one must not
 count as valid

---
 regable/reg.go | 10 ++++++----
 regable/reg.gp | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index 4503496..91d6481 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -34,7 +34,7 @@ const (
 )
 
 var (
-	g_u32_rgr_id_gen, _         = amath.NewRangeUint32(g_invalid_id+1, g_invalid_id, g_max_reger_id)
+	g_u32_rgr_id_gen, _         = amath.NewRangeUint32(g_invalid_id, g_invalid_id, g_max_reger_id)
 	errid_u32_id, _  = aerr.Reg("Uint32Id error")
 	errid_u32_obj, _ = aerr.Reg("Uint32 object error")
 )
@@ -58,9 +58,10 @@ func NewUint32Reger(name string) (r *Uint32Reger, err error) {
 		return
 	}
 	id := g_invalid_id
-	if id, err = g_u32_rgr_id_gen.Inc(); err != nil {
+	if _, err = g_u32_rgr_id_gen.Inc(); err != nil { //returns the previous value
 		return
 	}
+	id = g_u32_rgr_id_gen.Val()
 	p := new(Uint32Reger)
 	if err = p.init(name); err == nil {
 		p.reger_id = uint8(id)
@@ -101,7 +102,7 @@ type Uint32Reger struct {
 
 func (me *Uint32Reger) init(name string) (err error) {
 	me.name = name
-	if err = me.id_gen.Init(g_invalid_id+1, g_invalid_id,
+	if err = me.id_gen.Init(g_invalid_id, g_invalid_id,
 		g_invalid_id+default_u32_reg_cnt); err != nil {
 		return
 	}
@@ -134,9 +135,10 @@ func (me *Uint32Reger) Reg(name string, val uint32) (r Uint32Id, err error) {
 	if err = check_lock(); err != nil {
 		return
 	}
-	if id, err = me.id_gen.Inc(); err != nil {
+	if _, err = me.id_gen.Inc(); err != nil { //returns the previous value
 		return
 	}
+	id = me.id_gen.Val()
 	p := me.new_rec(name, val)
 	p.id = id
 	me.reg_list = append(me.reg_list, p)
diff --git a/regable/reg.gp b/regable/reg.gp
index 1fcb610..671e304 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -14,7 +14,7 @@ const (
 )
 
 var (
-	g_<TYPENAME_L_SHORT>_rgr_id_gen, _         = amath.NewRangeUint32(g_invalid_id+1, g_invalid_id, g_max_reger_id)
+	g_<TYPENAME_L_SHORT>_rgr_id_gen, _         = amath.NewRangeUint32(g_invalid_id, g_invalid_id, g_max_reger_id)
 	errid_<TYPENAME_L_SHORT>_id, _  = aerr.Reg("<TYPENAME_U>Id error")
 	errid_<TYPENAME_L_SHORT>_obj, _ = aerr.Reg("<TYPENAME_U> object error")
 )
@@ -38,9 +38,10 @@ func New<TYPENAME_U>Reger(name string) (r *<TYPENAME_U>Reger, err error) {
 		return
 	}
 	id := g_invalid_id
-	if id, err = g_<TYPENAME_L_SHORT>_rgr_id_gen.Inc(); err != nil {
+	if _, err = g_<TYPENAME_L_SHORT>_rgr_id_gen.Inc(); err != nil { //returns the previous value
 		return
 	}
+	id = g_<TYPENAME_L_SHORT>_rgr_id_gen.Val()
 	p := new(<TYPENAME_U>Reger)
 	if err = p.init(name); err == nil {
 		p.reger_id = uint8(id)
@@ -81,7 +82,7 @@ type <TYPENAME_U>Reger struct {
 
 func (me *<TYPENAME_U>Reger) init(name string) (err error) {
 	me.name = name
-	if err = me.id_gen.Init(g_invalid_id+1, g_invalid_id,
+	if err = me.id_gen.Init(g_invalid_id, g_invalid_id,
 		g_invalid_id+default_<TYPENAME_L_SHORT>_reg_cnt); err != nil {
 		return
 	}
@@ -114,9 +115,10 @@ func (me *<TYPENAME_U>Reger) Reg(<NAME_COMMENT_B>name string,<NAME_COMMENT_E> va
 	if err = check_lock(); err != nil {
 		return
 	}
-	if id, err = me.id_gen.Inc(); err != nil {
+	if _, err = me.id_gen.Inc(); err != nil { //returns the previous value
 		return
 	}
+	id = me.id_gen.Val()
 	p := me.new_rec(<NAME_COMMENT_B>name,<NAME_COMMENT_E> val)
 	p.id = id
 	me.reg_list = append(me.reg_list, p)
-- 
2.43.0


From aa15bd24359c79073da01f33d995be0e64454751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:40 +0000
Subject: [PATCH 53/62] fix: Id of a registered object must name its reger

---
 regable/reg.go | 2 +-
 regable/reg.gp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index 91d6481..5ac8fa1 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -140,7 +140,7 @@ func (me *Uint32Reger) Reg(name string, val uint32) (r Uint32Id, err error) {
 	}
 	id = me.id_gen.Val()
 	p := me.new_rec(name, val)
-	p.id = id
+	p.id = MakeRegedId(uint32(me.reger_id), id)
 	me.reg_list = append(me.reg_list, p)
 	r = Uint32Id(MakeRegedId(uint32(me.reger_id), id))
 	return
diff --git a/regable/reg.gp b/regable/reg.gp
index 671e304..becb88c 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -120,7 +120,7 @@ func (me *<TYPENAME_U>Reger) Reg(<NAME_COMMENT_B>name string,<NAME_COMMENT_E> va
 	}
 	id = me.id_gen.Val()
 	p := me.new_rec(<NAME_COMMENT_B>name,<NAME_COMMENT_E> val)
-	p.id = id
+	p.id = MakeRegedId(uint32(me.reger_id), id)
 	me.reg_list = append(me.reg_list, p)
 	r = <TYPENAME_U>Id(MakeRegedId(uint32(me.reger_id), id))
 	return
-- 
2.43.0


From 48954b80968ad6f35e10e9a185f5251ad51b54aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:16 +0000
Subject: [PATCH 54/62] fix: SList template with GOGP_HasTail must keep its
 tail at the last node

---
 stl/gp/slist.gp    | 17 ++++++++++++++++-
 stl/gp/slist.gp.go | 17 ++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index f070372..b9230e7 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -223,6 +223,11 @@ func (this *<GLOBAL_NAME_PREFIX>SList) InsertAfter(node, mark *<GLOBAL_NAME_PREF
 		node.next = mark.next
 		mark.next = node
 		n = node
+		//#GOGP_IFDEF GOGP_HasTail
+		if node.next == nil {
+			this.tail = node
+		} //
+		//#GOGP_ENDIF
 	}
 	return
 }
@@ -244,6 +249,13 @@ func (this *<GLOBAL_NAME_PREFIX>SList) Remove(node *<GLOBAL_NAME_PREFIX>SListNod
 				b.next = node.next
 				node.next = nil
 				r = node
+				//#GOGP_IFDEF GOGP_HasTail
+				if this.tail == node {
+					if this.tail = b; b == &this.head {
+						this.tail = nil
+					}
+				} //
+				//#GOGP_ENDIF
 				break
 			}
 		}
@@ -274,7 +286,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) MoveFront(node *<GLOBAL_NAME_PREFIX>SList
 //#GOGP_IFDEF GOGP_HasTail
 func (this *<GLOBAL_NAME_PREFIX>SList) MoveBack(node *<GLOBAL_NAME_PREFIX>SListNode) (r *<GLOBAL_NAME_PREFIX>SListNode) {
 	if node != nil && node.next != nil {
-		for b := this.head.next; b != nil; b = b.next {
+		for b := &this.head; b != nil; b = b.next {
 			if b.next == node {
 				b.next = node.next
 				node.next = nil
@@ -305,6 +317,9 @@ func (this *<GLOBAL_NAME_PREFIX>SList) MoveAfter(node, mark *<GLOBAL_NAME_PREFIX
 					//#GOGP_IFDEF GOGP_HasTail
 					if this.tail == node {
 						this.tail = b
+					}
+					if this.tail == mark {
+						this.tail = node
 					} //
 					//#GOGP_ENDIF
 				}
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 92c6f77..d396bfb 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -320,6 +320,11 @@ func (this *GOGPGlobalNamePrefixSList) InsertAfter(node, mark *GOGPGlobalNamePre
 		node.next = mark.next
 		mark.next = node
 		n = node
+		//#GOGP_IFDEF GOGP_HasTail
+		if node.next == nil {
+			this.tail = node
+		} //
+		//#GOGP_ENDIF
 	}
 	return
 }
@@ -341,6 +346,13 @@ func (this *GOGPGlobalNamePrefixSList) Remove(node *GOGPGlobalNamePrefixSListNod
 				b.next = node.next
 				node.next = nil
 				r = node
+				//#GOGP_IFDEF GOGP_HasTail
+				if this.tail == node {
+					if this.tail = b; b == &this.head {
+						this.tail = nil
+					}
+				} //
+				//#GOGP_ENDIF
 				break
 			}
 		}
@@ -371,7 +383,7 @@ func (this *GOGPGlobalNamePrefixSList) MoveFront(node *GOGPGlobalNamePrefixSList
 //#GOGP_IFDEF GOGP_HasTail
 func (this *GOGPGlobalNamePrefixSList) MoveBack(node *GOGPGlobalNamePrefixSListNode) (r *GOGPGlobalNamePrefixSListNode) {
 	if node != nil && node.next != nil {
-		for b := this.head.next; b != nil; b = b.next {
+		for b := &this.head; b != nil; b = b.next {
 			if b.next == node {
 				b.next = node.next
 				node.next = nil
@@ -402,6 +414,9 @@ func (this *GOGPGlobalNamePrefixSList) MoveAfter(node, mark *GOGPGlobalNamePrefi
 					//#GOGP_IFDEF GOGP_HasTail
 					if this.tail == node {
 						this.tail = b
+					}
+					if this.tail == mark {
+						this.tail = node
 					} //
 					//#GOGP_ENDIF
 				}
-- 
2.43.0


From ef8accc49b6058f1a08e91cb37eddf16a1024a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:16 +0000
Subject: [PATCH 55/62] fix: PopFront of an empty LFQueue must not decrease its
 size

---
 stl/gp/lfqueue.gp    | 2 +-
 stl/gp/lfqueue.gp.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl/gp/lfqueue.gp b/stl/gp/lfqueue.gp
index be666a6..6e39a3a 100644
--- a/stl/gp/lfqueue.gp
+++ b/stl/gp/lfqueue.gp
@@ -97,11 +97,11 @@ func (this *<GLOBAL_NAME_PREFIX>LFQueue) PopFront() (v <VALUE_TYPE>, ok bool) {
 			next := n.next
 			if atomic.CompareAndSwapPointer(&this.head.next, t, next) {
 				v, ok = n.val, true
+				atomic.AddInt32(&this.size, -1)
 				break
 			}
 		}
 	}
-	atomic.AddInt32(&this.size, -1)
 	return
 }
 
diff --git a/stl/gp/lfqueue.gp.go b/stl/gp/lfqueue.gp.go
index d95984d..86d3086 100644
--- a/stl/gp/lfqueue.gp.go
+++ b/stl/gp/lfqueue.gp.go
@@ -97,11 +97,11 @@ func (this *GOGPGlobalNamePrefixLFQueue) PopFront() (v GOGPValueType, ok bool) {
 			next := n.next
 			if atomic.CompareAndSwapPointer(&this.head.next, t, next) {
 				v, ok = n.val, true
+				atomic.AddInt32(&this.size, -1)
 				break
 			}
 		}
 	}
-	atomic.AddInt32(&this.size, -1)
 	return
 }
 
-- 
2.43.0


From f3d00a42bfb3ac6c99f46fc59852dce53a3b722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:16 +0000
Subject: [PATCH 56/62] fix: Clear of a LFQueue must leave the size 0

---
 stl/gp/lfqueue.gp    | 3 ++-
 stl/gp/lfqueue.gp.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/stl/gp/lfqueue.gp b/stl/gp/lfqueue.gp
index 6e39a3a..9918cc7 100644
--- a/stl/gp/lfqueue.gp
+++ b/stl/gp/lfqueue.gp
@@ -106,7 +106,8 @@ func (this *<GLOBAL_NAME_PREFIX>LFQueue) PopFront() (v <VALUE_TYPE>, ok bool) {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>LFQueue) Clear() {
-	atomic.StorePointer(&this.head.next, nil)
+	for _, ok := this.PopFront(); ok; _, ok = this.PopFront() { //every removed value is taken off the size
+	}
 	//atomic.StorePointer(&this.tail, nil)
 }
 
diff --git a/stl/gp/lfqueue.gp.go b/stl/gp/lfqueue.gp.go
index 86d3086..29d6884 100644
--- a/stl/gp/lfqueue.gp.go
+++ b/stl/gp/lfqueue.gp.go
@@ -106,7 +106,8 @@ func (this *GOGPGlobalNamePrefixLFQueue) PopFront() (v GOGPValueType, ok bool) {
 }
 
 func (this *GOGPGlobalNamePrefixLFQueue) Clear() {
-	atomic.StorePointer(&this.head.next, nil)
+	for _, ok := this.PopFront(); ok; _, ok = this.PopFront() { //every removed value is taken off the size
+	}
 	//atomic.StorePointer(&this.tail, nil)
 }
 
-- 
2.43.0


From 7a13b5d5fc81d360c6b8e45ca75f44c8fcb25391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:55 +0000
Subject: [PATCH 57/62] fix: MakeHeap of the Heap template without
 GOGP_ImproveSTL must build a heap

---
 stl/gp/heap.gp    | 10 +++++++++-
 stl/gp/heap.gp.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/stl/gp/heap.gp b/stl/gp/heap.gp
index a7fc6ee..48a8c48 100644
--- a/stl/gp/heap.gp
+++ b/stl/gp/heap.gp
@@ -105,6 +105,7 @@ func (this *<GLOBAL_NAME_PREFIX>Heap) adjustDown(b []<VALUE_TYPE>, hole int, v <
 	//#GOGP_ELSE
 	//C++ stl's adjust down algorithm
 	//it seems to cost more move, to get probably less cmpare
+	top := hole
 	for l := this.lchild(hole); l < size; l = this.lchild(hole) {
 		c := l                                              //index that need to be new root
 		if r := l + 1; r < size && !this.cmpV(b[r], b[l]) { //let the most proper child to compare with v
@@ -112,7 +113,14 @@ func (this *<GLOBAL_NAME_PREFIX>Heap) adjustDown(b []<VALUE_TYPE>, hole int, v <
 		}
 		b[hole], hole = b[c], c
 	}
-	this.adjustUp(b, hole, v) //adjust up from leaf hole
+	for hole > top { //adjust up from leaf hole, but never above the start
+		if parent := this.parent(hole); !this.cmpV(v, b[parent]) {
+			b[hole], hole = b[parent], parent
+		} else {
+			break
+		}
+	}
+	b[hole] = v //put v to last hole
 	//#GOGP_ENDIF
 }
 
diff --git a/stl/gp/heap.gp.go b/stl/gp/heap.gp.go
index 326b88d..3bf188b 100644
--- a/stl/gp/heap.gp.go
+++ b/stl/gp/heap.gp.go
@@ -202,6 +202,7 @@ func (this *GOGPGlobalNamePrefixHeap) adjustDown(b []GOGPValueType, hole int, v
 	//#GOGP_ELSE
 	//C++ stl's adjust down algorithm
 	//it seems to cost more move, to get probably less cmpare
+	top := hole
 	for l := this.lchild(hole); l < size; l = this.lchild(hole) {
 		c := l                                              //index that need to be new root
 		if r := l + 1; r < size && !this.cmpV(b[r], b[l]) { //let the most proper child to compare with v
@@ -209,7 +210,14 @@ func (this *GOGPGlobalNamePrefixHeap) adjustDown(b []GOGPValueType, hole int, v
 		}
 		b[hole], hole = b[c], c
 	}
-	this.adjustUp(b, hole, v) //adjust up from leaf hole
+	for hole > top { //adjust up from leaf hole, but never above the start
+		if parent := this.parent(hole); !this.cmpV(v, b[parent]) {
+			b[hole], hole = b[parent], parent
+		} else {
+			break
+		}
+	}
+	b[hole] = v //put v to last hole
 	//#GOGP_ENDIF
 }
 
-- 
2.43.0


From 4f72932a9c77c9ab1f6507e44f5c477dd234c3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:40 +0000
Subject: [PATCH 58/62] fix: a LFDeque must wrap from the first to the last
 slot

---
 stl/gp/lfdeque.gp    | 5 +++--
 stl/gp/lfdeque.gp.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/stl/gp/lfdeque.gp b/stl/gp/lfdeque.gp
index f7c5b8d..0f97714 100644
--- a/stl/gp/lfdeque.gp
+++ b/stl/gp/lfdeque.gp
@@ -212,9 +212,10 @@ func (this *<GLOBAL_NAME_PREFIX>LFDeque) next(idx uint32) (r uint32) {
 
 //prev buff
 func (this *<GLOBAL_NAME_PREFIX>LFDeque) prev(idx uint32) (r uint32) {
-	if r = idx - 1; r < 0 {
-		r = this.Cap() - 1
+	if r = idx; r == 0 { //idx is unsigned
+		r = this.Cap()
 	}
+	r--
 	return
 }
 
diff --git a/stl/gp/lfdeque.gp.go b/stl/gp/lfdeque.gp.go
index 5566815..9151b65 100644
--- a/stl/gp/lfdeque.gp.go
+++ b/stl/gp/lfdeque.gp.go
@@ -212,9 +212,10 @@ func (this *GOGPGlobalNamePrefixLFDeque) next(idx uint32) (r uint32) {
 
 //prev buff
 func (this *GOGPGlobalNamePrefixLFDeque) prev(idx uint32) (r uint32) {
-	if r = idx - 1; r < 0 {
-		r = this.Cap() - 1
+	if r = idx; r == 0 { //idx is unsigned
+		r = this.Cap()
 	}
+	r--
 	return
 }
 
-- 
2.43.0


From d9e8d126561b245d4b27b5bb4328b189dcf72b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:40 +0000
Subject: [PATCH 59/62] fix: Init of a RingBuffer must size the buffer

---
 stl/gp/ringbuffer.gp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stl/gp/ringbuffer.gp.go b/stl/gp/ringbuffer.gp.go
index b1eec5a..e1b9c99 100644
--- a/stl/gp/ringbuffer.gp.go
+++ b/stl/gp/ringbuffer.gp.go
@@ -38,7 +38,8 @@ func (this *GOGPGlobalNamePrefixRingBuffer) Init(bufSize int) {
 			bufSize = defaultRingBufferCap //default buffer size
 		}
 		sizeRndUp := 1
-		for sizeRndUp := 1; sizeRndUp < bufSize; sizeRndUp *= 2 { //body do nothing
+		for sizeRndUp < bufSize {
+			sizeRndUp *= 2
 		}
 		this.mask = uint64(sizeRndUp - 1)
 		this.newBuf(sizeRndUp)
-- 
2.43.0


From c5ea5ea2982aca29b5809555f8671dd1669a19bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:40 +0000
Subject: [PATCH 60/62] fix: Push of a RingBuffer must fail when it is full and
 report success

---
 stl/gp/ringbuffer.gp.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/stl/gp/ringbuffer.gp.go b/stl/gp/ringbuffer.gp.go
index e1b9c99..e885067 100644
--- a/stl/gp/ringbuffer.gp.go
+++ b/stl/gp/ringbuffer.gp.go
@@ -87,12 +87,18 @@ func (this *GOGPGlobalNamePrefixRingBuffer) MustPop() (val GOGPValueType, ok boo
 
 //push to back of deque, will return false when full
 func (this *GOGPGlobalNamePrefixRingBuffer) Push(v GOGPValueType) (ok bool) {
-	tail_r := atomic.AddUint64(&this.tail_r, 1)
-	idx := tail_r & this.mask
-	this.d[idx] = v
-	for old := tail_r - 1; !atomic.CompareAndSwapUint64(&this.tail, old, tail_r); { //body do nothing
+	for {
+		old := atomic.LoadUint64(&this.tail_r)
+		if old > atomic.LoadUint64(&this.head)+this.mask { //full
+			return false
+		}
+		if tail_r := old + 1; atomic.CompareAndSwapUint64(&this.tail_r, old, tail_r) {
+			this.d[old&this.mask] = v
+			for !atomic.CompareAndSwapUint64(&this.tail, old, tail_r) { //body do nothing
+			}
+			return true
+		}
 	}
-	return
 }
 
 //pop front of deque, will return false when empty
-- 
2.43.0


From eaf0a6aa5bb923863b971e30fa7d17017eee5a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:40 +0000
Subject: [PATCH 61/62] fix: Pop of a RingBuffer must fail when it is empty and
 take the front

---
 stl/gp/ringbuffer.gp.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/stl/gp/ringbuffer.gp.go b/stl/gp/ringbuffer.gp.go
index e885067..f91e49e 100644
--- a/stl/gp/ringbuffer.gp.go
+++ b/stl/gp/ringbuffer.gp.go
@@ -103,12 +103,18 @@ func (this *GOGPGlobalNamePrefixRingBuffer) Push(v GOGPValueType) (ok bool) {
 
 //pop front of deque, will return false when empty
 func (this *GOGPGlobalNamePrefixRingBuffer) Pop() (val GOGPValueType, ok bool) {
-	head_r := atomic.AddUint64(&this.head_r, 1)
-	idx := head_r & this.mask
-	val, ok = this.d[idx], true
-	for old := head_r - 1; !atomic.CompareAndSwapUint64(&this.head, old, head_r); { //body do nothing
+	for {
+		old := atomic.LoadUint64(&this.head_r)
+		if old >= atomic.LoadUint64(&this.tail) { //empty
+			return
+		}
+		if head_r := old + 1; atomic.CompareAndSwapUint64(&this.head_r, old, head_r) {
+			val, ok = this.d[old&this.mask], true
+			for !atomic.CompareAndSwapUint64(&this.head, old, head_r) { //body do nothing
+			}
+			return
+		}
 	}
-	return
 }
 
 //data buffer size
-- 
2.43.0


From 840544c127f91708c2a9e03a8a479c94b65b808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:08 +0000
Subject: [PATCH 62/62] fix: NONE hash objects made in several goroutines must
 have different ids

---
 hash/none_hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hash/none_hash.go b/hash/none_hash.go
index fd3fec4..9c76d22 100644
--- a/hash/none_hash.go
+++ b/hash/none_hash.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"hash"
 	"io"
+	"sync/atomic"
 )
 
 var (
@@ -15,8 +16,7 @@ type NoneHash struct {
 }
 
 func NewNoneHash() hash.Hash {
-	gId++
-	return &NoneHash{id: gId}
+	return &NoneHash{id: atomic.AddUint32(&gId, 1)}
 }
 
 func (this *NoneHash) ReadFrom(r io.Reader) (n int64, err error) {
-- 
2.43.0

