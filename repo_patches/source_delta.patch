From 35f50d6c4dd60bc0be3fa0aad476348d71a50c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 1/6] fix: read MaxGor and goroutine counter atomically

---
 sorty.go     | 9 ++++-----
 sortyB.go    | 2 +-
 sortyF4.go   | 2 +-
 sortyF8.go   | 2 +-
 sortyI4.go   | 2 +-
 sortyI8.go   | 2 +-
 sortyLenB.go | 2 +-
 sortyLenS.go | 2 +-
 sortyLsw.go  | 2 +-
 sortyS.go    | 2 +-
 sortyU4.go   | 2 +-
 sortyU8.go   | 2 +-
 12 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/sorty.go b/sorty.go
index 0ca4b2b..272c059 100644
--- a/sorty.go
+++ b/sorty.go
@@ -19,6 +19,7 @@ package sorty
 
 import (
 	"reflect"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/jfcg/sixb"
@@ -26,7 +27,7 @@ import (
 
 // MaxGor is the maximum number of goroutines (including caller) that can be
 // concurrently used for sorting per Sort*() call. MaxGor can be changed live, even
-// during ongoing Sort*() calls. MaxGor ≤ 1 (or a short input) yields single-goroutine
+// during ongoing Sort*() calls (with sync/atomic). MaxGor ≤ 1 (or a short input) yields single-goroutine
 // sorting: sorty will not create any goroutines or channel.
 var MaxGor uint64 = 3
 
@@ -84,11 +85,9 @@ type syncVar struct {
 }
 
 // gorFull returns true if goroutine quota is full, inlined
-//
-//go:norace
 func gorFull(sv *syncVar) bool {
-	mg := MaxGor
-	return sv.nGor >= mg
+	mg := atomic.LoadUint64(&MaxGor)
+	return atomic.LoadUint64(&sv.nGor) >= mg
 }
 
 const (
diff --git a/sortyB.go b/sortyB.go
index e5f93d0..1396160 100644
--- a/sortyB.go
+++ b/sortyB.go
@@ -315,7 +315,7 @@ start:
 // sortB concurrently sorts ar in ascending lexicographic order.
 func sortB(ar [][]byte) {
 
-	if len(ar) < 2*(MaxLenRecFC+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRecFC+1) || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRecFC { // single-goroutine sorting
 			longB(ar, nil)
diff --git a/sortyF4.go b/sortyF4.go
index 48355a8..f162812 100644
--- a/sortyF4.go
+++ b/sortyF4.go
@@ -364,7 +364,7 @@ func sortF4(ar []float32) {
 		ar = ar[l:]
 	}
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRec+1) || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longF4(ar, nil)
diff --git a/sortyF8.go b/sortyF8.go
index 7afe6af..22bf19c 100644
--- a/sortyF8.go
+++ b/sortyF8.go
@@ -364,7 +364,7 @@ func sortF8(ar []float64) {
 		ar = ar[l:]
 	}
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRec+1) || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longF8(ar, nil)
diff --git a/sortyI4.go b/sortyI4.go
index 0476f29..88c9013 100644
--- a/sortyI4.go
+++ b/sortyI4.go
@@ -321,7 +321,7 @@ start:
 //go:nosplit
 func sortI4(ar []int32) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRec+1) || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longI4(ar, nil)
diff --git a/sortyI8.go b/sortyI8.go
index c546035..3e7ea21 100644
--- a/sortyI8.go
+++ b/sortyI8.go
@@ -321,7 +321,7 @@ start:
 //go:nosplit
 func sortI8(ar []int64) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRec+1) || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longI8(ar, nil)
diff --git a/sortyLenB.go b/sortyLenB.go
index e8d4874..b85becf 100644
--- a/sortyLenB.go
+++ b/sortyLenB.go
@@ -322,7 +322,7 @@ start:
 //go:nosplit
 func sortLenB(ar [][]byte) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRec+1) || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longLenB(ar, nil)
diff --git a/sortyLenS.go b/sortyLenS.go
index d9f590e..1ac7c48 100644
--- a/sortyLenS.go
+++ b/sortyLenS.go
@@ -322,7 +322,7 @@ start:
 //go:nosplit
 func sortLenS(ar []string) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRec+1) || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longLenS(ar, nil)
diff --git a/sortyLsw.go b/sortyLsw.go
index 7612f92..69ad393 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -337,7 +337,7 @@ start:
 func Sort(n int, lsw Lesswap) {
 
 	n-- // high index
-	if n <= 2*MaxLenRecFC || MaxGor <= 1 {
+	if n <= 2*MaxLenRecFC || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if n >= MaxLenRecFC { // single-goroutine sorting
 			long(lsw, 0, n, nil)
diff --git a/sortyS.go b/sortyS.go
index 621df0d..416c040 100644
--- a/sortyS.go
+++ b/sortyS.go
@@ -315,7 +315,7 @@ start:
 // sortS concurrently sorts ar in ascending lexicographic order.
 func sortS(ar []string) {
 
-	if len(ar) < 2*(MaxLenRecFC+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRecFC+1) || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRecFC { // single-goroutine sorting
 			longS(ar, nil)
diff --git a/sortyU4.go b/sortyU4.go
index 8b222f7..42f755e 100644
--- a/sortyU4.go
+++ b/sortyU4.go
@@ -321,7 +321,7 @@ start:
 //go:nosplit
 func sortU4(ar []uint32) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRec+1) || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longU4(ar, nil)
diff --git a/sortyU8.go b/sortyU8.go
index 906f041..5091626 100644
--- a/sortyU8.go
+++ b/sortyU8.go
@@ -321,7 +321,7 @@ start:
 //go:nosplit
 func sortU8(ar []uint64) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRec+1) || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longU8(ar, nil)
-- 
2.43.0


From 38f9fab096fa5e790b6f83fa6b8b5387795a46e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 2/6] fix: never exceed MaxGor goroutines per call

Quota check and counter increase were separate steps, and the goroutine used
for concurrent partitioning was not counted.
---
 sorty.go     | 17 ++++++++++++-----
 sortyB.go    | 22 ++++++++++++----------
 sortyF4.go   | 22 ++++++++++++----------
 sortyF8.go   | 22 ++++++++++++----------
 sortyI4.go   | 22 ++++++++++++----------
 sortyI8.go   | 22 ++++++++++++----------
 sortyLenB.go | 22 ++++++++++++----------
 sortyLenS.go | 22 ++++++++++++----------
 sortyLsw.go  | 22 ++++++++++++----------
 sortyS.go    | 22 ++++++++++++----------
 sortyU4.go   | 22 ++++++++++++----------
 sortyU8.go   | 22 ++++++++++++----------
 12 files changed, 144 insertions(+), 115 deletions(-)

diff --git a/sorty.go b/sorty.go
index 272c059..5ef77e7 100644
--- a/sorty.go
+++ b/sorty.go
@@ -80,14 +80,21 @@ func Search(n int, fn func(int) bool) int {
 
 // synchronization variables for [g]long*()
 type syncVar struct {
-	nGor uint64   // number of sorting goroutines
+	nGor uint64   // number of sorting & partitioning goroutines
 	done chan int // end signal
 }
 
-// gorFull returns true if goroutine quota is full, inlined
-func gorFull(sv *syncVar) bool {
-	mg := atomic.LoadUint64(&MaxGor)
-	return atomic.LoadUint64(&sv.nGor) >= mg
+// gorReserve increases goroutine counter and returns true, unless quota is full
+func gorReserve(sv *syncVar) bool {
+	for {
+		n := atomic.LoadUint64(&sv.nGor)
+		if n >= atomic.LoadUint64(&MaxGor) {
+			return false
+		}
+		if atomic.CompareAndSwapUint64(&sv.nGor, n, n+1) {
+			return true
+		}
+	}
 }
 
 const (
diff --git a/sortyB.go b/sortyB.go
index 1396160..56f23ee 100644
--- a/sortyB.go
+++ b/sortyB.go
@@ -298,15 +298,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorReserve(sv) {
 		longB(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongB(ar, sv)
 	ar = aq
 	goto start
@@ -328,7 +327,7 @@ func sortB(ar [][]byte) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -345,17 +344,20 @@ func sortB(ar [][]byte) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongB(aq, &sv)
+			go gLongB(aq, &sv) // takes over from partitioning goroutine
 
-		} else if len(aq) > MaxLenInsFC {
-			shortB(aq)
 		} else {
-			insertionB(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenInsFC {
+				shortB(aq)
+			} else {
+				insertionB(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRecFC+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRecFC+1) || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyF4.go b/sortyF4.go
index f162812..fc80c2b 100644
--- a/sortyF4.go
+++ b/sortyF4.go
@@ -313,15 +313,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorReserve(sv) {
 		longF4(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongF4(ar, sv)
 	ar = aq
 	goto start
@@ -377,7 +376,7 @@ func sortF4(ar []float32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -394,17 +393,20 @@ func sortF4(ar []float32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongF4(aq, &sv)
+			go gLongF4(aq, &sv) // takes over from partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortF4(aq)
 		} else {
-			insertionF4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenIns {
+				shortF4(aq)
+			} else {
+				insertionF4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyF8.go b/sortyF8.go
index 22bf19c..0107ebb 100644
--- a/sortyF8.go
+++ b/sortyF8.go
@@ -313,15 +313,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorReserve(sv) {
 		longF8(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongF8(ar, sv)
 	ar = aq
 	goto start
@@ -377,7 +376,7 @@ func sortF8(ar []float64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -394,17 +393,20 @@ func sortF8(ar []float64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongF8(aq, &sv)
+			go gLongF8(aq, &sv) // takes over from partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortF8(aq)
 		} else {
-			insertionF8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenIns {
+				shortF8(aq)
+			} else {
+				insertionF8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyI4.go b/sortyI4.go
index 88c9013..4c7adbb 100644
--- a/sortyI4.go
+++ b/sortyI4.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorReserve(sv) {
 		longI4(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongI4(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortI4(ar []int32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,20 @@ func sortI4(ar []int32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongI4(aq, &sv)
+			go gLongI4(aq, &sv) // takes over from partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortI4(aq)
 		} else {
-			insertionI4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenIns {
+				shortI4(aq)
+			} else {
+				insertionI4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyI8.go b/sortyI8.go
index 3e7ea21..c898488 100644
--- a/sortyI8.go
+++ b/sortyI8.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorReserve(sv) {
 		longI8(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongI8(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortI8(ar []int64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,20 @@ func sortI8(ar []int64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongI8(aq, &sv)
+			go gLongI8(aq, &sv) // takes over from partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortI8(aq)
 		} else {
-			insertionI8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenIns {
+				shortI8(aq)
+			} else {
+				insertionI8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLenB.go b/sortyLenB.go
index b85becf..f7070b3 100644
--- a/sortyLenB.go
+++ b/sortyLenB.go
@@ -303,15 +303,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorReserve(sv) {
 		longLenB(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongLenB(ar, sv)
 	ar = aq
 	goto start
@@ -335,7 +334,7 @@ func sortLenB(ar [][]byte) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -352,17 +351,20 @@ func sortLenB(ar [][]byte) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongLenB(aq, &sv)
+			go gLongLenB(aq, &sv) // takes over from partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortLenB(aq)
 		} else {
-			insertionLenB(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenIns {
+				shortLenB(aq)
+			} else {
+				insertionLenB(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLenS.go b/sortyLenS.go
index 1ac7c48..430c83a 100644
--- a/sortyLenS.go
+++ b/sortyLenS.go
@@ -303,15 +303,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorReserve(sv) {
 		longLenS(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongLenS(ar, sv)
 	ar = aq
 	goto start
@@ -335,7 +334,7 @@ func sortLenS(ar []string) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -352,17 +351,20 @@ func sortLenS(ar []string) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongLenS(aq, &sv)
+			go gLongLenS(aq, &sv) // takes over from partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortLenS(aq)
 		} else {
-			insertionLenS(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenIns {
+				shortLenS(aq)
+			} else {
+				insertionLenS(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLsw.go b/sortyLsw.go
index 69ad393..435c2b1 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -299,15 +299,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorReserve(sv) {
 		long(lsw, l, h, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLong(lsw, lo, hi, sv)
 	lo, hi = l, h
 	goto start
@@ -350,7 +349,7 @@ func Sort(n int, lsw Lesswap) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	lo, hi := 0, n
 	for {
@@ -368,17 +367,20 @@ func Sort(n int, lsw Lesswap) {
 
 		// handle shorter range
 		if n >= MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLong(lsw, l, h, &sv)
+			go gLong(lsw, l, h, &sv) // takes over from partitioning goroutine
 
-		} else if n >= MaxLenInsFC {
-			short(lsw, l, h)
 		} else {
-			insertion(lsw, l, h)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if n >= MaxLenInsFC {
+				short(lsw, l, h)
+			} else {
+				insertion(lsw, l, h)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if no <= 2*MaxLenRecFC || gorFull(&sv) {
+		if no <= 2*MaxLenRecFC || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyS.go b/sortyS.go
index 416c040..d82ebc3 100644
--- a/sortyS.go
+++ b/sortyS.go
@@ -298,15 +298,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorReserve(sv) {
 		longS(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongS(ar, sv)
 	ar = aq
 	goto start
@@ -328,7 +327,7 @@ func sortS(ar []string) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -345,17 +344,20 @@ func sortS(ar []string) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongS(aq, &sv)
+			go gLongS(aq, &sv) // takes over from partitioning goroutine
 
-		} else if len(aq) > MaxLenInsFC {
-			shortS(aq)
 		} else {
-			insertionS(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenInsFC {
+				shortS(aq)
+			} else {
+				insertionS(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRecFC+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRecFC+1) || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyU4.go b/sortyU4.go
index 42f755e..8f4af7b 100644
--- a/sortyU4.go
+++ b/sortyU4.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorReserve(sv) {
 		longU4(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongU4(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortU4(ar []uint32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,20 @@ func sortU4(ar []uint32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongU4(aq, &sv)
+			go gLongU4(aq, &sv) // takes over from partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortU4(aq)
 		} else {
-			insertionU4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenIns {
+				shortU4(aq)
+			} else {
+				insertionU4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyU8.go b/sortyU8.go
index 5091626..eebf4dd 100644
--- a/sortyU8.go
+++ b/sortyU8.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorReserve(sv) {
 		longU8(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongU8(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortU8(ar []uint64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,20 @@ func sortU8(ar []uint64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongU8(aq, &sv)
+			go gLongU8(aq, &sv) // takes over from partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortU8(aq)
 		} else {
-			insertionU8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenIns {
+				shortU8(aq)
+			} else {
+				insertionU8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
-- 
2.43.0


From 03eb2d3b18812dc0780ed271928a31462cc47f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 3/6] fix: avoid overflow with very large MaxLenRec/MaxLenRecFC

---
 sortyB.go    | 4 ++--
 sortyF4.go   | 4 ++--
 sortyF8.go   | 4 ++--
 sortyI4.go   | 4 ++--
 sortyI8.go   | 4 ++--
 sortyLenB.go | 4 ++--
 sortyLenS.go | 4 ++--
 sortyLsw.go  | 4 ++--
 sortyS.go    | 4 ++--
 sortyU4.go   | 4 ++--
 sortyU8.go   | 4 ++--
 11 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/sortyB.go b/sortyB.go
index 56f23ee..3a9a193 100644
--- a/sortyB.go
+++ b/sortyB.go
@@ -314,7 +314,7 @@ start:
 // sortB concurrently sorts ar in ascending lexicographic order.
 func sortB(ar [][]byte) {
 
-	if len(ar) < 2*(MaxLenRecFC+1) || atomic.LoadUint64(&MaxGor) <= 1 {
+	if len(ar)>>1 <= MaxLenRecFC || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRecFC { // single-goroutine sorting
 			longB(ar, nil)
@@ -357,7 +357,7 @@ func sortB(ar [][]byte) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRecFC+1) || !gorReserve(&sv) {
+		if len(ar)>>1 <= MaxLenRecFC || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyF4.go b/sortyF4.go
index fc80c2b..cf0f269 100644
--- a/sortyF4.go
+++ b/sortyF4.go
@@ -363,7 +363,7 @@ func sortF4(ar []float32) {
 		ar = ar[l:]
 	}
 
-	if len(ar) < 2*(MaxLenRec+1) || atomic.LoadUint64(&MaxGor) <= 1 {
+	if len(ar)>>1 <= MaxLenRec || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longF4(ar, nil)
@@ -406,7 +406,7 @@ func sortF4(ar []float32) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || !gorReserve(&sv) {
+		if len(ar)>>1 <= MaxLenRec || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyF8.go b/sortyF8.go
index 0107ebb..e1935e9 100644
--- a/sortyF8.go
+++ b/sortyF8.go
@@ -363,7 +363,7 @@ func sortF8(ar []float64) {
 		ar = ar[l:]
 	}
 
-	if len(ar) < 2*(MaxLenRec+1) || atomic.LoadUint64(&MaxGor) <= 1 {
+	if len(ar)>>1 <= MaxLenRec || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longF8(ar, nil)
@@ -406,7 +406,7 @@ func sortF8(ar []float64) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || !gorReserve(&sv) {
+		if len(ar)>>1 <= MaxLenRec || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyI4.go b/sortyI4.go
index 4c7adbb..fd97c15 100644
--- a/sortyI4.go
+++ b/sortyI4.go
@@ -320,7 +320,7 @@ start:
 //go:nosplit
 func sortI4(ar []int32) {
 
-	if len(ar) < 2*(MaxLenRec+1) || atomic.LoadUint64(&MaxGor) <= 1 {
+	if len(ar)>>1 <= MaxLenRec || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longI4(ar, nil)
@@ -363,7 +363,7 @@ func sortI4(ar []int32) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || !gorReserve(&sv) {
+		if len(ar)>>1 <= MaxLenRec || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyI8.go b/sortyI8.go
index c898488..2f9132e 100644
--- a/sortyI8.go
+++ b/sortyI8.go
@@ -320,7 +320,7 @@ start:
 //go:nosplit
 func sortI8(ar []int64) {
 
-	if len(ar) < 2*(MaxLenRec+1) || atomic.LoadUint64(&MaxGor) <= 1 {
+	if len(ar)>>1 <= MaxLenRec || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longI8(ar, nil)
@@ -363,7 +363,7 @@ func sortI8(ar []int64) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || !gorReserve(&sv) {
+		if len(ar)>>1 <= MaxLenRec || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLenB.go b/sortyLenB.go
index f7070b3..6489d88 100644
--- a/sortyLenB.go
+++ b/sortyLenB.go
@@ -321,7 +321,7 @@ start:
 //go:nosplit
 func sortLenB(ar [][]byte) {
 
-	if len(ar) < 2*(MaxLenRec+1) || atomic.LoadUint64(&MaxGor) <= 1 {
+	if len(ar)>>1 <= MaxLenRec || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longLenB(ar, nil)
@@ -364,7 +364,7 @@ func sortLenB(ar [][]byte) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || !gorReserve(&sv) {
+		if len(ar)>>1 <= MaxLenRec || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLenS.go b/sortyLenS.go
index 430c83a..302a193 100644
--- a/sortyLenS.go
+++ b/sortyLenS.go
@@ -321,7 +321,7 @@ start:
 //go:nosplit
 func sortLenS(ar []string) {
 
-	if len(ar) < 2*(MaxLenRec+1) || atomic.LoadUint64(&MaxGor) <= 1 {
+	if len(ar)>>1 <= MaxLenRec || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longLenS(ar, nil)
@@ -364,7 +364,7 @@ func sortLenS(ar []string) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || !gorReserve(&sv) {
+		if len(ar)>>1 <= MaxLenRec || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLsw.go b/sortyLsw.go
index 435c2b1..b187474 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -336,7 +336,7 @@ start:
 func Sort(n int, lsw Lesswap) {
 
 	n-- // high index
-	if n <= 2*MaxLenRecFC || atomic.LoadUint64(&MaxGor) <= 1 {
+	if (n+1)>>1 <= MaxLenRecFC || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if n >= MaxLenRecFC { // single-goroutine sorting
 			long(lsw, 0, n, nil)
@@ -380,7 +380,7 @@ func Sort(n int, lsw Lesswap) {
 		}
 
 		// longer range big enough? max goroutines?
-		if no <= 2*MaxLenRecFC || !gorReserve(&sv) {
+		if (no+1)>>1 <= MaxLenRecFC || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyS.go b/sortyS.go
index d82ebc3..bebdcde 100644
--- a/sortyS.go
+++ b/sortyS.go
@@ -314,7 +314,7 @@ start:
 // sortS concurrently sorts ar in ascending lexicographic order.
 func sortS(ar []string) {
 
-	if len(ar) < 2*(MaxLenRecFC+1) || atomic.LoadUint64(&MaxGor) <= 1 {
+	if len(ar)>>1 <= MaxLenRecFC || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRecFC { // single-goroutine sorting
 			longS(ar, nil)
@@ -357,7 +357,7 @@ func sortS(ar []string) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRecFC+1) || !gorReserve(&sv) {
+		if len(ar)>>1 <= MaxLenRecFC || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyU4.go b/sortyU4.go
index 8f4af7b..13b217d 100644
--- a/sortyU4.go
+++ b/sortyU4.go
@@ -320,7 +320,7 @@ start:
 //go:nosplit
 func sortU4(ar []uint32) {
 
-	if len(ar) < 2*(MaxLenRec+1) || atomic.LoadUint64(&MaxGor) <= 1 {
+	if len(ar)>>1 <= MaxLenRec || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longU4(ar, nil)
@@ -363,7 +363,7 @@ func sortU4(ar []uint32) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || !gorReserve(&sv) {
+		if len(ar)>>1 <= MaxLenRec || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyU8.go b/sortyU8.go
index eebf4dd..23a2f94 100644
--- a/sortyU8.go
+++ b/sortyU8.go
@@ -320,7 +320,7 @@ start:
 //go:nosplit
 func sortU8(ar []uint64) {
 
-	if len(ar) < 2*(MaxLenRec+1) || atomic.LoadUint64(&MaxGor) <= 1 {
+	if len(ar)>>1 <= MaxLenRec || atomic.LoadUint64(&MaxGor) <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longU8(ar, nil)
@@ -363,7 +363,7 @@ func sortU8(ar []uint64) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || !gorReserve(&sv) {
+		if len(ar)>>1 <= MaxLenRec || !gorReserve(&sv) {
 			break
 		}
 		// dual partition longer range
-- 
2.43.0


From dd2ab1b122bfcb2d4d53778465ed39d4e0bafa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 4/6] fix: avoid overflow in start-up check of very large
 MaxLenIns

---
 sorty.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sorty.go b/sorty.go
index 5ef77e7..bdf5e06 100644
--- a/sorty.go
+++ b/sorty.go
@@ -32,8 +32,8 @@ import (
 var MaxGor uint64 = 3
 
 func init() {
-	if !(4097 > MaxGor && MaxGor > 0 && MaxLenRec > MaxLenRecFC && MaxLenRecFC >
-		2*MaxLenIns && MaxLenIns > MaxLenInsFC && MaxLenInsFC > 2*nsShort) {
+	if !(4097 > MaxGor && MaxGor > 0 && MaxLenRec > MaxLenRecFC && (MaxLenRecFC+1)>>1 >
+		MaxLenIns && MaxLenIns > MaxLenInsFC && MaxLenInsFC > 2*nsShort) {
 		panic("sorty: check your MaxGor/MaxLen* values")
 	}
 }
-- 
2.43.0


From a0bf99d9e254684046fc53b9ffd54134dd261b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 5/6] fix: keep pointers visible to the garbage collector while
 sorting them

[]*T and []unsafe.Pointer were sorted as []uint32/64, without write barriers
and with elements held in integer variables. A garbage collection during such
a call could free objects that the slice refers to.
---
 sorty.go      |   7 +-
 sortyP.go     | 382 ++++++++++++++++++++++++++++++++++++++++++++++++++
 sortySlice.go |   6 +
 3 files changed, 393 insertions(+), 2 deletions(-)
 create mode 100644 sortyP.go

diff --git a/sorty.go b/sorty.go
index bdf5e06..cb64b71 100644
--- a/sorty.go
+++ b/sorty.go
@@ -155,8 +155,11 @@ func extractSK(ar any) (slc sixb.Slice, kind reflect.Kind) {
 	kind = tipe.Kind()
 
 	switch kind {
-	// map int/uint/pointer types to hardware type
-	case reflect.Uintptr, reflect.Pointer, reflect.UnsafePointer:
+	// pointers are kept visible to garbage collector
+	case reflect.Pointer, reflect.UnsafePointer:
+		kind = reflect.UnsafePointer
+	// map int/uint types to hardware type
+	case reflect.Uintptr:
 		kind = reflect.Uint32 + reflect.Kind(unsafe.Sizeof(uintptr(0))>>3)
 	case reflect.Uint:
 		kind = reflect.Uint32 + reflect.Kind(unsafe.Sizeof(uint(0))>>3)
diff --git a/sortyP.go b/sortyP.go
new file mode 100644
index 0000000..83474ff
--- /dev/null
+++ b/sortyP.go
@@ -0,0 +1,382 @@
+/*	Copyright (c) 2019-present, Serhat Şevki Dinçer.
+	This Source Code Form is subject to the terms of the Mozilla Public
+	License, v. 2.0. If a copy of the MPL was not distributed with this
+	file, You can obtain one at http://mozilla.org/MPL/2.0/.
+*/
+
+package sorty
+
+import (
+	"sync/atomic"
+	"unsafe"
+
+	"github.com/jfcg/sixb"
+)
+
+// Pointers are sorted via their own type (not as integers of same size), so that
+// the garbage collector sees them & their moves all the time.
+
+// isSortedP returns 0 if ar is sorted in ascending
+// order, otherwise it returns i > 0 with ar[i] < ar[i-1], inlined
+func isSortedP(ar []unsafe.Pointer) int {
+	for i := len(ar) - 1; i > 0; i-- {
+		if uintptr(ar[i]) < uintptr(ar[i-1]) {
+			return i
+		}
+	}
+	return 0
+}
+
+// insertion sort, inlined
+func insertionP(slc []unsafe.Pointer) {
+	for h := 1; h < len(slc); h++ {
+		l, val := h, slc[h]
+		var pre unsafe.Pointer
+		goto start
+	loop:
+		slc[l] = pre
+		l--
+		if l == 0 {
+			goto last
+		}
+	start:
+		pre = slc[l-1]
+		if uintptr(val) < uintptr(pre) {
+			goto loop
+		}
+		if l == h {
+			continue
+		}
+	last:
+		slc[l] = val
+	}
+}
+
+// pivotP selects n equidistant samples from slc that minimizes max distance
+// to non-selected members, then calculates median-of-n pivot from samples.
+// Assumes even n, nsConc ≥ n ≥ 2, len(slc) ≥ 2n. Returns pivot for partitioning.
+//
+//go:nosplit
+func pivotP(slc []unsafe.Pointer, n uint) uintptr {
+
+	first, step, _ := minMaxSample(uint(len(slc)), n)
+
+	var sample [nsConc]uint64
+	for i := int(n - 1); i >= 0; i-- {
+		sample[i] = uint64(uintptr(slc[first]))
+		first += step
+	}
+	insertionU8(sample[:n]) // sort n samples
+
+	n >>= 1 // return mean of middle two samples
+	return uintptr(sixb.MeanU8(sample[n-1], sample[n]))
+}
+
+// partition slc, returns k with slc[:k] ≤ pivot ≤ slc[k:]
+// swap: slc[h] < pv ≤ slc[l]
+// swap: slc[h] ≤ pv < slc[l]
+// next: slc[l] ≤ pv ≤ slc[h]
+//
+//go:nosplit
+func partOneP(slc []unsafe.Pointer, pv uintptr) int {
+	l, h := 0, len(slc)-1
+	goto start
+second:
+	for {
+		h--
+		if h <= l {
+			return l
+		}
+		if uintptr(slc[h]) <= pv {
+			break
+		}
+	}
+swap:
+	slc[l], slc[h] = slc[h], slc[l]
+next:
+	l++
+	h--
+start:
+	if h <= l {
+		goto last
+	}
+
+	if pv <= uintptr(slc[h]) { // avoid unnecessary comparisons
+		if pv < uintptr(slc[l]) { // extend ranges in balance
+			goto second
+		}
+		goto next
+	}
+	for {
+		if pv <= uintptr(slc[l]) {
+			goto swap
+		}
+		l++
+		if h <= l {
+			return l + 1
+		}
+	}
+last:
+	if l == h && uintptr(slc[h]) < pv { // classify mid element
+		l++
+	}
+	return l
+}
+
+// swaps elements to get slc[:l] ≤ pivot ≤ slc[h:]
+// Gap (l,h) expands until one of the intervals is fully consumed.
+// swap: slc[h] < pv ≤ slc[l]
+// swap: slc[h] ≤ pv < slc[l]
+// next: slc[l] ≤ pv ≤ slc[h]
+//
+//go:nosplit
+func partTwoP(slc []unsafe.Pointer, l, h int, pv uintptr) int {
+	l--
+	if h <= l {
+		return -1 // will not run
+	}
+	goto start
+second:
+	for {
+		h++
+		if h >= len(slc) {
+			return l
+		}
+		if uintptr(slc[h]) <= pv {
+			break
+		}
+	}
+swap:
+	slc[l], slc[h] = slc[h], slc[l]
+next:
+	l--
+	h++
+start:
+	if l < 0 {
+		return h
+	}
+	if h >= len(slc) {
+		return l
+	}
+
+	if pv <= uintptr(slc[h]) { // avoid unnecessary comparisons
+		if pv < uintptr(slc[l]) { // extend ranges in balance
+			goto second
+		}
+		goto next
+	}
+	for {
+		if pv <= uintptr(slc[l]) {
+			goto swap
+		}
+		l--
+		if l < 0 {
+			return h
+		}
+	}
+}
+
+// new-goroutine partition
+//
+//go:nosplit
+func gPartOneP(ar []unsafe.Pointer, pv uintptr, ch chan int) {
+	ch <- partOneP(ar, pv)
+}
+
+// partition slc in two goroutines, returns k with slc[:k] ≤ pivot ≤ slc[k:]
+//
+//go:nosplit
+func partConP(slc []unsafe.Pointer, ch chan int) int {
+
+	pv := pivotP(slc, nsConc) // median-of-n pivot
+	mid := len(slc) >> 1
+	l, h := mid>>1, sixb.MeanI(mid, len(slc))
+
+	go gPartOneP(slc[l:h:h], pv, ch) // mid half range
+
+	r := partTwoP(slc, l, h, pv) // left/right quarter ranges
+
+	k := l + <-ch // convert returned index to slc
+
+	// only one gap is possible
+	if r < mid {
+		for ; 0 <= r; r-- { // gap left in low range?
+			if pv < uintptr(slc[r]) {
+				k--
+				slc[r], slc[k] = slc[k], slc[r]
+			}
+		}
+	} else {
+		for ; r < len(slc); r++ { // gap left in high range?
+			if uintptr(slc[r]) < pv {
+				slc[r], slc[k] = slc[k], slc[r]
+				k++
+			}
+		}
+	}
+	return k
+}
+
+// short range sort function, assumes MaxLenIns < len(ar) <= MaxLenRec, recursive
+func shortP(ar []unsafe.Pointer) {
+start:
+	first, step := minMaxFour(uint32(len(ar)))
+	a, b := uint64(uintptr(ar[first])), uint64(uintptr(ar[first+step]))
+	c, d := uint64(uintptr(ar[first+2*step])), uint64(uintptr(ar[first+3*step]))
+
+	if d < b {
+		d, b = b, d
+	}
+	if c < a {
+		c, a = a, c
+	}
+	if d < c {
+		c = d
+	}
+	if b < a {
+		b = a
+	}
+	pv := uintptr(sixb.MeanU8(b, c)) // median-of-4 pivot
+
+	k := partOneP(ar, pv)
+	var aq []unsafe.Pointer
+
+	if k < len(ar)-k {
+		aq = ar[:k:k]
+		ar = ar[k:] // ar is the longer range
+	} else {
+		aq = ar[k:]
+		ar = ar[:k:k]
+	}
+
+	if len(aq) > MaxLenIns {
+		shortP(aq) // recurse on the shorter range
+		goto start
+	}
+isort:
+	insertionP(aq) // at least one insertion range
+
+	if len(ar) > MaxLenIns {
+		goto start
+	}
+	if &ar[0] != &aq[0] {
+		aq = ar
+		goto isort // two insertion ranges
+	}
+}
+
+// new-goroutine sort function
+//
+//go:nosplit
+func gLongP(ar []unsafe.Pointer, sv *syncVar) {
+	longP(ar, sv)
+
+	if atomic.AddUint64(&sv.nGor, ^uint64(0)) == 0 { // decrease goroutine counter
+		sv.done <- 0 // we are the last, all done
+	}
+}
+
+// long range sort function, assumes len(ar) > MaxLenRec, recursive
+func longP(ar []unsafe.Pointer, sv *syncVar) {
+start:
+	pv := pivotP(ar, nsLong) // median-of-n pivot
+	k := partOneP(ar, pv)
+	var aq []unsafe.Pointer
+
+	if k < len(ar)-k {
+		aq = ar[:k:k]
+		ar = ar[k:] // ar is the longer range
+	} else {
+		aq = ar[k:]
+		ar = ar[:k:k]
+	}
+
+	// branches below are optimal for fewer total jumps
+	if len(aq) <= MaxLenRec { // at least one not-long range?
+
+		if len(aq) > MaxLenIns {
+			shortP(aq)
+		} else {
+			insertionP(aq)
+		}
+
+		if len(ar) > MaxLenRec { // two not-long ranges?
+			goto start
+		}
+		shortP(ar) // we know len(ar) > MaxLenIns
+		return
+	}
+
+	// max goroutines?
+	if sv == nil || !gorReserve(sv) {
+		longP(aq, sv) // recurse on the shorter range
+		goto start
+	}
+
+	// new-goroutine sort on the longer range only when
+	// both ranges are big and max goroutines is not exceeded
+	go gLongP(ar, sv)
+	ar = aq
+	goto start
+}
+
+// sortP concurrently sorts ar in ascending order.
+//
+//go:nosplit
+func sortP(ar []unsafe.Pointer) {
+
+	if len(ar)>>1 <= MaxLenRec || atomic.LoadUint64(&MaxGor) <= 1 {
+
+		if len(ar) > MaxLenRec { // single-goroutine sorting
+			longP(ar, nil)
+		} else if len(ar) > MaxLenIns {
+			shortP(ar)
+		} else {
+			insertionP(ar)
+		}
+		return
+	}
+
+	// create channel only when concurrent partitioning & sorting
+	sv := syncVar{2, // number of goroutines including this & partitioning one
+		make(chan int)} // end signal
+	for {
+		// concurrent dual partitioning with done
+		k := partConP(ar, sv.done)
+		var aq []unsafe.Pointer
+
+		if k < len(ar)-k {
+			aq = ar[:k:k]
+			ar = ar[k:] // ar is the longer range
+		} else {
+			aq = ar[k:]
+			ar = ar[:k:k]
+		}
+
+		// handle shorter range
+		if len(aq) > MaxLenRec {
+			go gLongP(aq, &sv) // takes over from partitioning goroutine
+
+		} else {
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // decrease goroutine counter
+
+			if len(aq) > MaxLenIns {
+				shortP(aq)
+			} else {
+				insertionP(aq)
+			}
+		}
+
+		// longer range big enough? max goroutines?
+		if len(ar)>>1 <= MaxLenRec || !gorReserve(&sv) {
+			break
+		}
+		// dual partition longer range
+	}
+
+	longP(ar, &sv) // we know len(ar) > MaxLenRec
+
+	if atomic.AddUint64(&sv.nGor, ^uint64(0)) != 0 { // decrease goroutine counter
+		<-sv.done // we are not the last, wait
+	}
+}
diff --git a/sortySlice.go b/sortySlice.go
index 6b3cf81..f91db95 100644
--- a/sortySlice.go
+++ b/sortySlice.go
@@ -48,6 +48,9 @@ func IsSortedSlice(ar any) int {
 	case reflect.String:
 		s := *(*[]string)(unsafe.Pointer(&slc))
 		return isSortedS(s)
+	case reflect.UnsafePointer:
+		p := *(*[]unsafe.Pointer)(unsafe.Pointer(&slc))
+		return isSortedP(p)
 	}
 	panic("sorty: IsSortedSlice: invalid input type")
 }
@@ -88,6 +91,9 @@ func SortSlice(ar any) {
 	case reflect.String:
 		s := *(*[]string)(unsafe.Pointer(&slc))
 		sortS(s)
+	case reflect.UnsafePointer:
+		p := *(*[]unsafe.Pointer)(unsafe.Pointer(&slc))
+		sortP(p)
 	default:
 		panic("sorty: SortSlice: invalid input type")
 	}
-- 
2.43.0


From 00b7992c4e0e3726297143b51d787a67417d72ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 6/6] fix: Sort and IsSorted with the least int as length

---
 sortyLsw.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sortyLsw.go b/sortyLsw.go
index b187474..c6be85e 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -28,6 +28,9 @@ type Lesswap func(i, k, r, s int) bool
 //
 //go:nosplit
 func IsSorted(n int, lsw Lesswap) int {
+	if n <= 1 {
+		return 0 // n-1 can overflow
+	}
 	for i := n - 1; i > 0; i-- {
 		if lsw(i, i-1, i, i) { // 3rd=4th disables swap
 			return i
@@ -335,6 +338,9 @@ start:
 //go:nosplit
 func Sort(n int, lsw Lesswap) {
 
+	if n <= 1 {
+		return // n-1 can overflow
+	}
 	n-- // high index
 	if (n+1)>>1 <= MaxLenRecFC || atomic.LoadUint64(&MaxGor) <= 1 {
 
-- 
2.43.0

