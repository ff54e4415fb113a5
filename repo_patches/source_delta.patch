From 8e386bf21fdcb1d9285060f9dc79882106ceacae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 01/29] fix: compare the old value in Map.CompareAndSwap and
 CompareAndDelete

---
 gogenerics/gconcurrent/sync/map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconcurrent/sync/map.go b/gogenerics/gconcurrent/sync/map.go
index 7d64677..91c1596 100644
--- a/gogenerics/gconcurrent/sync/map.go
+++ b/gogenerics/gconcurrent/sync/map.go
@@ -166,7 +166,7 @@ func (m *Map[K, V]) Store(key K, value V) {
 // the entry unchanged.
 func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 	p := e.p.Load()
-	if p == nil || unsafe.Pointer(p) == expunged {
+	if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 		return false
 	}
 
@@ -179,7 +179,7 @@ func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 			return true
 		}
 		p = e.p.Load()
-		if p == nil || unsafe.Pointer(p) == expunged {
+		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 			return false
 		}
 	}
@@ -434,7 +434,7 @@ func (m *Map[K, V]) CompareAndDelete(key K, old V) (deleted bool) {
 	}
 	for ok {
 		p := e.p.Load()
-		if p == nil || unsafe.Pointer(p) == expunged {
+		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 			return false
 		}
 		if e.p.CompareAndSwap(p, nil) {
-- 
2.43.0


From 7c5fcd15d6661a6b07525cd3e42f190e53b0a4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 02/29] fix: gmap.Equal looks keys up in the second map

---
 gogenerics/gcontainers/gmap/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gmap/map.go b/gogenerics/gcontainers/gmap/map.go
index ab0d76f..24f99c8 100644
--- a/gogenerics/gcontainers/gmap/map.go
+++ b/gogenerics/gcontainers/gmap/map.go
@@ -81,7 +81,7 @@ func Equal[K, V comparable](m1, m2 map[K]V) bool {
 	}
 
 	for k, v1 := range m1 {
-		v2, ok := m1[k]
+		v2, ok := m2[k]
 		if !ok || v2 != v1 {
 			return false
 		}
-- 
2.43.0


From 05baad0832a225eaacd7163200cc66cd3b6261da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 03/29] fix: gslice.Merge no longer writes into the spare
 capacity of s1

---
 gogenerics/gcontainers/gslice/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gslice/slice.go b/gogenerics/gcontainers/gslice/slice.go
index 5e3a692..e30f18f 100644
--- a/gogenerics/gcontainers/gslice/slice.go
+++ b/gogenerics/gcontainers/gslice/slice.go
@@ -151,7 +151,7 @@ func Merge[T any](s1, s2 []T) []T {
 	if s2 == nil {
 		return Copy(s1)
 	}
-	return append(s1, s2...)
+	return append(Copy(s1), s2...)
 }
 
 // IsSorted reports whether x is sorted in ascending order
-- 
2.43.0


From 4ffd4772646e0d3f3a5e94090a58fc4e4259c8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 04/29] fix: bitset.Count and Sub handle ranges within one
 byte, and Sub keeps every bit

---
 library/bitset/bitset.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index 757c39f..3efcdc7 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -131,6 +131,9 @@ func (b *BitSet) Count(start, end int) int {
 	if !valid {
 		return 0
 	}
+	if sgi == egi {
+		return bits.OnesCount8(b.set[sgi] << sbi >> sbi >> (7 - ebi))
+	}
 	var n int
 	n += bits.OnesCount8(b.set[sgi] << sbi)
 	for _, v := range b.set[sgi+1 : egi] {
@@ -349,14 +352,18 @@ func (b *BitSet) Sub(start, end int) *BitSet {
 	if !valid {
 		return newBitSet
 	}
+	if sgi == egi {
+		newBitSet.set = append(newBitSet.set, b.set[sgi]>>(7-ebi)<<(7-ebi)<<sbi)
+		return newBitSet
+	}
 	pre := b.set[sgi] << sbi
 	for _, v := range b.set[sgi+1 : egi] {
-		newBitSet.set = append(newBitSet.set, pre|v>>(7-sbi))
+		newBitSet.set = append(newBitSet.set, pre|v>>(8-sbi))
 		pre = v << sbi
 	}
 	last := b.set[egi] >> (7 - ebi) << (7 - ebi)
-	newBitSet.set = append(newBitSet.set, pre|last>>(7-sbi))
-	if sbi < ebi {
+	newBitSet.set = append(newBitSet.set, pre|last>>(8-sbi))
+	if sbi <= ebi {
 		newBitSet.set = append(newBitSet.set, last<<sbi)
 	}
 	return newBitSet
-- 
2.43.0


From 55091845d92b686b1c999a6e1f94495adffb0693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 05/29] fix: bitset And/Or/Xor/AndNot no longer deadlock with
 concurrent writers

---
 library/bitset/bitset.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index 3efcdc7..b69f40b 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -187,20 +187,16 @@ func (b *BitSet) Not() *BitSet {
 //
 //	If the bitSets are empty, returns b.
 func (b *BitSet) And(bitSets ...*BitSet) *BitSet {
-	b.mu.RLock()
-	defer b.mu.RUnlock()
 	if len(bitSets) == 0 {
 		return b
 	}
+	b, bitSets = snapshot(b), snapshots(bitSets)
 	var (
 		maxLen  = len(b.set)
 		minLen  = maxLen
 		currLen int
 	)
 	for _, g := range bitSets {
-		g.mu.RLock()
-		defer g.mu.RUnlock()
-
 		currLen = len(g.set)
 		if currLen > maxLen {
 			maxLen = currLen
@@ -248,14 +244,11 @@ func (b *BitSet) op(op string, bitSets []*BitSet) *BitSet {
 	if len(bitSets) == 0 {
 		return b
 	}
-	b.mu.RLock()
-	defer b.mu.RUnlock()
+	b, bitSets = snapshot(b), snapshots(bitSets)
 	var (
 		maxLen, currLen = len(b.set), 0
 	)
 	for _, g := range bitSets {
-		g.mu.RLock()
-		defer g.mu.RUnlock()
 		currLen = len(g.set)
 		if currLen > maxLen {
 			maxLen = currLen
@@ -280,6 +273,22 @@ func (b *BitSet) op(op string, bitSets []*BitSet) *BitSet {
 	return rBitSet
 }
 
+// snapshot returns a private copy of b.
+func snapshot(b *BitSet) *BitSet {
+	return &BitSet{set: b.Bytes()}
+}
+
+// snapshots returns private copies of the bit sets. Only one of them is locked
+// at a time: holding several read locks deadlocks with pending writers as soon
+// as an operand is repeated or two operations list their operands in different orders.
+func snapshots(bitSets []*BitSet) []*BitSet {
+	res := make([]*BitSet, len(bitSets))
+	for i, g := range bitSets {
+		res[i] = snapshot(g)
+	}
+	return res
+}
+
 // Clear clears the bit set.
 func (b *BitSet) Clear() {
 	b.mu.Lock()
-- 
2.43.0


From d076d7bd79dd0f4cca8ed4f81dbf7273b908bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 06/29] fix: LRUCacheV2.MGet takes the cache's lock

---
 library/cachex/lrucache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/cachex/lrucache.go b/library/cachex/lrucache.go
index 7b800be..e6707be 100644
--- a/library/cachex/lrucache.go
+++ b/library/cachex/lrucache.go
@@ -96,6 +96,8 @@ func (lc *LRUCacheV2[K, V]) MGet(_ context.Context, keys ...K) ([]V, []bool, err
 	if len(keys) == 0 {
 		return nil, nil, nil
 	}
+	lc.mux.Lock()
+	defer lc.mux.Unlock()
 	values := make([]V, len(keys))
 	oks := make([]bool, len(keys))
 	for idx, key := range keys {
-- 
2.43.0


From 4052efa1837d4481e104262a2fd57616823aee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 07/29] fix: Chain.MGet fills every position of a repeated key

---
 library/cachex/cache.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/library/cachex/cache.go b/library/cachex/cache.go
index c6ec8e5..ac70b1a 100644
--- a/library/cachex/cache.go
+++ b/library/cachex/cache.go
@@ -157,9 +157,10 @@ func (c *Chain[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error)
 		return nil, nil, nil
 	}
 	length := len(keys)
-	indexMap := make(map[K]int, length)
-	for i, k := range keys {
-		indexMap[k] = i
+	// indexes holds the positions of the remaining keys, which may contain duplicates
+	indexes := make([]int, length)
+	for i := range indexes {
+		indexes[i] = i
 	}
 	values := make([]V, length)
 	status := make([]bool, length)
@@ -174,13 +175,16 @@ func (c *Chain[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error)
 		if err1 != nil && !c.ContinueOnReadErr {
 			return nil, nil, err1
 		}
-		for j := 0; j < len(oks); j++ {
-			if oks[j] {
-				keyIndex := indexMap[keys[j]]
+		remaining := make([]int, 0, len(indexes))
+		for j, keyIndex := range indexes {
+			if j < len(oks) && oks[j] {
 				values[keyIndex] = vals[j]
 				status[keyIndex] = true
+			} else {
+				remaining = append(remaining, keyIndex)
 			}
 		}
+		indexes = remaining
 		// Set the content queried from the next-level cache to the upper-level cache
 		c.msetForMGet(ctx, c.Caches[:idx], keys, vals, oks)
 		keys = c.keysNotFound(keys, oks)
-- 
2.43.0


From b5723f5afa9f9be32a2554362cdb66dadef617fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 08/29] fix: AtomicError accepts errors of different concrete
 types

---
 gogenerics/gconstraints/errors.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconstraints/errors.go b/gogenerics/gconstraints/errors.go
index 81c3bbd..c862895 100644
--- a/gogenerics/gconstraints/errors.go
+++ b/gogenerics/gconstraints/errors.go
@@ -7,20 +7,25 @@ import (
 // AtomicError defines an atomic error.
 
 type AtomicError struct {
-	err atomic.Value // error
+	err atomic.Value // errorHolder
+}
+
+// errorHolder gives every stored error the same concrete type, as atomic.Value requires.
+type errorHolder struct {
+	err error
 }
 
 // Set sets the error.
 func (ae *AtomicError) Set(err error) {
 	if err != nil {
-		ae.err.Store(err)
+		ae.err.Store(errorHolder{err: err})
 	}
 }
 
 // Load returns the error.
 func (ae *AtomicError) Load() error {
 	if v := ae.err.Load(); v != nil {
-		return v.(error)
+		return v.(errorHolder).err
 	}
 	return nil
 }
-- 
2.43.0


From 1aba099ca17afae1ce1771a82f1e669d187db38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 09/29] fix: AES encryption no longer pads into the caller's
 spare capacity

---
 library/cryptox/cryptox.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index cb29f56..dc88794 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -203,6 +203,8 @@ func mustNewCipher(cipherKey []byte) cipher.Block {
 
 func pkcs5Padding(plainText []byte, blockSize int) []byte {
 	n := byte(blockSize - len(plainText)%blockSize)
+	// never append into the spare capacity of the caller's slice
+	plainText = plainText[:len(plainText):len(plainText)]
 	for i := byte(0); i < n; i++ {
 		plainText = append(plainText, n)
 	}
-- 
2.43.0


From c280ecfa72cd72208dfed60de305c6f623b84056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 10/29] fix: AESDecrypt reports a partial block instead of
 panicking

---
 library/cryptox/cryptox.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index dc88794..edd3f91 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -87,6 +87,9 @@ func AESDecrypt(cipherKey, ciphertext []byte, useBase64 ...bool) ([]byte, error)
 		return nil, err
 	}
 	blockSize := block.BlockSize()
+	if len(src)%blockSize != 0 {
+		return nil, errors.New("ciphertext is not a multiple of the block size")
+	}
 	r := make([]byte, len(src))
 	dst := r
 	for len(src) > 0 {
-- 
2.43.0


From 155dfa1a95ab2306f8fe0b9d01e9051034f8c392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 11/29] fix: decryption rejects padding lengths that encryption
 never produces

---
 library/cryptox/cryptox.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index edd3f91..a9d930d 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -220,7 +220,7 @@ func pkcs5Unpadding(r []byte) ([]byte, error) {
 		return nil, errors.New("input padded bytes is empty")
 	}
 	last := int(r[l-1])
-	if l-last < 0 {
+	if l-last < 0 || last == 0 || last > aes.BlockSize {
 		return nil, errors.New("input padded bytes is invalid")
 	}
 	n := byte(last)
-- 
2.43.0


From 6f83d927c74640f80e7369dad6c4b3d59694dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 12/29] fix: HTMLEntityToUTF8 replaces each entity on its own

---
 library/stringx/stringx.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/library/stringx/stringx.go b/library/stringx/stringx.go
index 2b90b6f..7985788 100644
--- a/library/stringx/stringx.go
+++ b/library/stringx/stringx.go
@@ -192,18 +192,13 @@ var htmlEntityRegexp = regexp.MustCompile(`&#([0-9a-zA-Z]+);*`)
 // e.g.: HTMLEntityToUTF8(`{"info":[["color","&#5496;&#5561;&#8272;&#7c;&#7eff;&#8272;"]]｝`, 16)
 // => `{"info":[["color","咖啡色|绿色"]]｝`
 func HTMLEntityToUTF8(str string, base int) string {
-	a := htmlEntityRegexp.FindAllStringSubmatch(str, -1)
-	if len(a) == 0 {
-		return str
-	}
-	oldnew := make([]string, 0, len(a)*2)
-	for _, s := range a {
-		if i, err := strconv.ParseInt(s[1], base, 32); err == nil {
-			oldnew = append(oldnew, s[0], string(rune(i)))
+	return htmlEntityRegexp.ReplaceAllStringFunc(str, func(s string) string {
+		code := htmlEntityRegexp.FindStringSubmatch(s)[1]
+		if i, err := strconv.ParseInt(code, base, 32); err == nil {
+			return string(rune(i))
 		}
-	}
-	r := strings.NewReplacer(oldnew...)
-	return r.Replace(str)
+		return s
+	})
 }
 
 // CodePointToUTF8 converts Unicode Code Point to UTF-8.
-- 
2.43.0


From b24333d1a83108bcdc83eee56ef1399624f47163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 13/29] fix: CodePointToUTF8 only rewrites the escapes and
 keeps the text around them

---
 library/stringx/stringx.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/library/stringx/stringx.go b/library/stringx/stringx.go
index 7985788..19e5fbe 100644
--- a/library/stringx/stringx.go
+++ b/library/stringx/stringx.go
@@ -205,24 +205,36 @@ func HTMLEntityToUTF8(str string, base int) string {
 // e.g.: CodePointToUTF8(`{"info":[["color","\u5496\u5561\u8272\u7c\u7eff\u8272"]]｝`, 16)
 // => `{"info":[["color","咖啡色|绿色"]]｝`
 func CodePointToUTF8(str string, base int) string {
-	i := 0
-	if strings.Index(str, `\u`) > 0 {
-		i = 1
-	}
 	strSlice := strings.Split(str, `\u`)
-	last := len(strSlice) - 1
-	if len(strSlice[last]) > 4 {
-		strSlice = append(strSlice, string(strSlice[last][4:]))
-		strSlice[last] = string(strSlice[last][:4])
-	}
-	for ; i <= last; i++ {
-		if x, err := strconv.ParseInt(strSlice[i], base, 32); err == nil {
-			strSlice[i] = string(rune(x))
+	for i := 1; i < len(strSlice); i++ {
+		s := strSlice[i]
+		n := codePointLen(s, base)
+		if x, err := strconv.ParseInt(s[:n], base, 32); err == nil {
+			strSlice[i] = string(rune(x)) + s[n:]
+		} else {
+			strSlice[i] = `\u` + s
 		}
 	}
 	return strings.Join(strSlice, "")
 }
 
+// codePointLen returns the number of leading digits of s that belong to one code point,
+// at most as many as the largest 16-bit value has in the given base (4 in base 16).
+func codePointLen(s string, base int) int {
+	max := 4
+	if base >= 2 && base <= 36 {
+		max = len(strconv.FormatInt(0xffff, base))
+	}
+	n := 0
+	for n < len(s) && n < max {
+		if _, err := strconv.ParseUint(s[n:n+1], base, 32); err != nil {
+			break
+		}
+		n++
+	}
+	return n
+}
+
 var spaceReplacer = strings.NewReplacer(
 	"  ", " ",
 	"\n\n", "\n",
-- 
2.43.0


From 4490697fc19a4992182da5b5cd075a29ec27df4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 14/29] fix: MapReduce never closes the channel its reducer
 writes to

---
 gogenerics/gconcurrent/mr/mr.go | 42 +++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 2c7d316..911ff6f 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -154,18 +154,21 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 	reducer ReducerFunc[U, V], opts ...Option) (val V, err error) {
 	options := buildOptions(opts...)
 	// output is used to write the final result
+	// it is never closed, because the reducer may be about to write to it
 	output := make(chan V)
+	// collector is used to collect data from mapper, and consume in reducer
+	collector := make(chan U, options.workers)
+	// if done is closed, all mappers and reducer should stop processing
+	done := make(chan struct{})
 	defer func() {
 		// reducer can only write once, if more, panic
-		for range output {
+		select {
+		case <-output:
 			panic("more than one element written in reducer")
+		case <-done:
 		}
 	}()
 
-	// collector is used to collect data from mapper, and consume in reducer
-	collector := make(chan U, options.workers)
-	// if done is closed, all mappers and reducer should stop processing
-	done := make(chan struct{})
 	writer := newGuardedWriter(options.ctx, output, done)
 	var closeOnce sync.Once
 	// use atomic type to avoid data race
@@ -173,7 +176,6 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 	finish := func() {
 		closeOnce.Do(func() {
 			close(done)
-			close(output)
 		})
 	}
 	cancel := once(func(err error) {
@@ -217,13 +219,17 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 		err = context.DeadlineExceeded
 	case v := <-panicChan.channel:
 		// drain output here, otherwise for loop panic in defer
-		drain(output)
+		drainUntil(output, done)
 		panic(v)
-	case v, ok := <-output:
+	case v := <-output:
 		if e := retErr.Load(); e != nil {
 			err = e
-		} else if ok {
+		} else {
 			val = v
+		}
+	case <-done:
+		if e := retErr.Load(); e != nil {
+			err = e
 		} else {
 			err = ErrReduceNoOutput
 		}
@@ -297,6 +303,17 @@ func drain[T any](channel <-chan T) {
 
 }
 
+// drainUntil drains the channel until done is closed.
+func drainUntil[T any](channel <-chan T, done <-chan struct{}) {
+	for {
+		select {
+		case <-channel:
+		case <-done:
+			return
+		}
+	}
+}
+
 func executeMappers[T, U any](mCtx mapperContext[T, U]) {
 	var wg sync.WaitGroup
 	defer func() {
@@ -375,7 +392,12 @@ func (gw guardedWriter[T]) Write(v T) {
 	case <-gw.done:
 		return
 	default:
-		gw.channel <- v
+	}
+
+	select {
+	case <-gw.ctx.Done():
+	case <-gw.done:
+	case gw.channel <- v:
 	}
 }
 
-- 
2.43.0


From b7422dd351a16655d819906fda1976197e9d0317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 15/29] fix: a panic in MapReduce or ForEach always reaches the
 caller or ends its goroutine

---
 gogenerics/gconcurrent/mr/mr.go | 49 +++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 911ff6f..6da62e7 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -104,7 +104,8 @@ func FinishVoid(fns ...func()) {
 // ForEach maps all elements from given generate but no output.
 func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Option) {
 	options := buildOptions(opts...)
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
+	defer close(panicChan.done)
 	source := buildSource(generate, panicChan)
 	collector := make(chan any)
 	done := make(chan struct{})
@@ -137,7 +138,7 @@ func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Opt
 // and reduces the output elements with given reducer.
 func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	source := buildSource(generate, panicChan)
 	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
 }
@@ -145,7 +146,7 @@ func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], r
 // MapReduceChan maps all elements from source, and reduce the output elements with given reducer.
 func MapReduceChan[T, U, V any](source <-chan T, mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
 }
 
@@ -160,12 +161,24 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 	collector := make(chan U, options.workers)
 	// if done is closed, all mappers and reducer should stop processing
 	done := make(chan struct{})
+	written, twice := false, false
 	defer func() {
-		// reducer can only write once, if more, panic
-		select {
-		case <-output:
-			panic("more than one element written in reducer")
-		case <-done:
+		defer close(panicChan.done)
+		for {
+			select {
+			case v := <-panicChan.channel:
+				drainUntil(output, done)
+				panic(v)
+			case <-output:
+				// reducer can only write once, if more, panic
+				twice = written
+				written = true
+			case <-done:
+				if twice {
+					panic("more than one element written in reducer")
+				}
+				return
+			}
 		}
 	}()
 
@@ -215,13 +228,15 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 
 	select {
 	case <-options.ctx.Done():
-		cancel(context.DeadlineExceeded)
+		// the generator may panic while cancel drains the source
+		go cancel(context.DeadlineExceeded)
 		err = context.DeadlineExceeded
 	case v := <-panicChan.channel:
 		// drain output here, otherwise for loop panic in defer
 		drainUntil(output, done)
 		panic(v)
 	case v := <-output:
+		written = true
 		if e := retErr.Load(); e != nil {
 			err = e
 		} else {
@@ -403,11 +418,23 @@ func (gw guardedWriter[T]) Write(v T) {
 
 type onceChan struct {
 	channel chan any
-	wrote   int32
+	// done is closed when nobody reads the channel any more
+	done  chan struct{}
+	wrote int32
+}
+
+func newOnceChan() *onceChan {
+	return &onceChan{
+		channel: make(chan any),
+		done:    make(chan struct{}),
+	}
 }
 
 func (oc *onceChan) write(val any) {
 	if atomic.CompareAndSwapInt32(&oc.wrote, 0, 1) {
-		oc.channel <- val
+		select {
+		case oc.channel <- val:
+		case <-oc.done:
+		}
 	}
 }
-- 
2.43.0


From 6a9afb473bbbf49c0c9e6a1b4b72cbf1b2946a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 16/29] fix: an expired context is reported even when the
 reducer ends first

---
 gogenerics/gconcurrent/mr/mr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 6da62e7..fc18191 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -245,6 +245,8 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 	case <-done:
 		if e := retErr.Load(); e != nil {
 			err = e
+		} else if options.ctx.Err() != nil {
+			err = context.DeadlineExceeded
 		} else {
 			err = ErrReduceNoOutput
 		}
-- 
2.43.0


From 4cd84a98b06866fad111543de21403c891e0ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 17/29] fix: FileStore readers no longer see or remove a file
 that is being written

---
 library/cachex/file.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index be9cd26..42905aa 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 	"sync/atomic"
 	"time"
 )
@@ -36,6 +37,10 @@ type FileStore[K comparable, V any] struct {
 	// Every GCCycle duration, when calling Set, Get, and other interfaces, a background goroutine is started to scan files and delete expired cache files.
 	GCCycle time.Duration
 
+	// mux keeps a reader from seeing a half written file, and from removing a file
+	// that has been replaced since it was found to be expired
+	mux sync.Mutex
+
 	lastGC   atomic.Int64
 	gcStatus atomic.Bool
 }
@@ -62,6 +67,8 @@ func (f *FileStore[K, V]) Get(_ context.Context, key K) (V, bool, error) {
 }
 
 func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
+	f.mux.Lock()
+	defer f.mux.Unlock()
 	content, err := os.ReadFile(fp)
 	if err != nil {
 		var emp V
@@ -105,6 +112,8 @@ func (f *FileStore[K, V]) Set(ctx context.Context, key K, value V, ttl time.Dura
 	if err != nil {
 		return err
 	}
+	f.mux.Lock()
+	defer f.mux.Unlock()
 	dir := filepath.Dir(fp)
 	_, err = os.Stat(dir)
 	if err != nil && os.IsNotExist(err) {
@@ -172,7 +181,9 @@ func (f *FileStore[K, V]) Delete(ctx context.Context, keys ...K) error {
 	var errs []error
 	for _, k := range keys {
 		fp := f.getFilePath(k)
+		f.mux.Lock()
 		err := os.Remove(fp)
+		f.mux.Unlock()
 		if err == nil || os.IsNotExist(err) {
 			continue
 		}
-- 
2.43.0


From be6030f7023bd11ff7494ff50266c8bc2ac56c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 18/29] fix: FileStore gives different keys different files

---
 library/cachex/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 42905aa..a946914 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -46,7 +46,7 @@ type FileStore[K comparable, V any] struct {
 }
 
 func (f *FileStore[K, V]) getFilePath(key K) string {
-	str := fmt.Sprint(key)
+	str := fmt.Sprintf("%#v", key) // unlike %v, it is different for different keys
 	h := md5.New()
 	h.Write([]byte(str))
 	s := hex.EncodeToString(h.Sum(nil))
-- 
2.43.0


From 028ce86f783740d70def369361888147c23e0e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 19/29] fix: FileStore's cleaning leaves files it did not write
 alone

---
 library/cachex/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index a946914..46cc2d3 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -232,7 +232,7 @@ func (f *FileStore[K, V]) scanExpire() {
 		if err != nil {
 			return nil
 		}
-		if d.IsDir() {
+		if d.IsDir() || !strings.HasSuffix(path, cacheFileExt) {
 			return nil
 		}
 		_, _, _ = f.readFile(path)
-- 
2.43.0


From ecdefb17e06762386d435beae771a13343d7ad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 20/29] fix: FileStore.Purge skips directories and files that
 are already gone

---
 library/cachex/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 46cc2d3..377b765 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -248,9 +248,9 @@ func (f *FileStore[K, V]) Purge() error {
 	var lastErr error
 	var errTotal int
 	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
-		if strings.HasSuffix(path, cacheFileExt) {
+		if d != nil && !d.IsDir() && strings.HasSuffix(path, cacheFileExt) {
 			e := os.Remove(path)
-			if e != nil && !os.IsNotExist(err) {
+			if e != nil && !os.IsNotExist(e) {
 				errTotal++
 				lastErr = e
 			}
-- 
2.43.0


From 5d62dd004f6052fa5dbf683dded5db52ff933277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 21/29] fix: fastrand.Uint and Uintn link with Go 1.22 and
 later

---
 hack/fastrand/runtime19.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hack/fastrand/runtime19.go b/hack/fastrand/runtime19.go
index 6244da5..8c46566 100644
--- a/hack/fastrand/runtime19.go
+++ b/hack/fastrand/runtime19.go
@@ -13,5 +13,7 @@ func runtimefastrand() uint32
 //go:linkname runtimefastrand64 runtime.fastrand64
 func runtimefastrand64() uint64
 
-//go:linkname runtimefastrandu runtime.fastrandu
-func runtimefastrandu() uint
+// runtimefastrandu does not use runtime.fastrandu, which Go 1.22 removed.
+func runtimefastrandu() uint {
+	return uint(runtimefastrand64())
+}
-- 
2.43.0


From c0390292d1ac9c080bae5558d6c5ec0940e1b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 22/29] fix: mr waits until the first panic value has arrived

When two callbacks panicked, the second one went on while the first had
only claimed the channel, so that MapReduce could return without panic.
---
 gogenerics/gconcurrent/mr/mr.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index fc18191..2f6a947 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -421,8 +421,8 @@ func (gw guardedWriter[T]) Write(v T) {
 type onceChan struct {
 	channel chan any
 	// done is closed when nobody reads the channel any more
-	done  chan struct{}
-	wrote int32
+	done chan struct{}
+	once sync.Once
 }
 
 func newOnceChan() *onceChan {
@@ -432,11 +432,13 @@ func newOnceChan() *onceChan {
 	}
 }
 
+// write passes on the first value. Later writers wait until it has arrived,
+// otherwise the call may return before it does.
 func (oc *onceChan) write(val any) {
-	if atomic.CompareAndSwapInt32(&oc.wrote, 0, 1) {
+	oc.once.Do(func() {
 		select {
 		case oc.channel <- val:
 		case <-oc.done:
 		}
-	}
+	})
 }
-- 
2.43.0


From 76c75cecfa96356a288df86b712de36f018e5dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:37 +0000
Subject: [PATCH 23/29] fix: a cache file that holds null no longer makes
 FileStore panic

---
 library/cachex/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 377b765..78ef2dc 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -78,7 +78,7 @@ func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
 		return emp, false, err
 	}
 	item := &fileCacheItem[K, V]{}
-	err = json.Unmarshal(content, &item)
+	err = json.Unmarshal(content, item)
 	if err != nil {
 		_ = os.Remove(fp)
 		var emp V
-- 
2.43.0


From b92cd2f2b7a64d198b51da4a0153c7ba6e854ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:50 +0000
Subject: [PATCH 24/29] fix: FileStore.Purge reports directories it could not
 read

---
 library/cachex/file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 78ef2dc..82da43b 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -248,6 +248,11 @@ func (f *FileStore[K, V]) Purge() error {
 	var lastErr error
 	var errTotal int
 	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
+		if err != nil && !os.IsNotExist(err) { // not all files have been seen
+			errTotal++
+			lastErr = err
+			return nil
+		}
 		if d != nil && !d.IsDir() && strings.HasSuffix(path, cacheFileExt) {
 			e := os.Remove(path)
 			if e != nil && !os.IsNotExist(e) {
-- 
2.43.0


From 6446a92d96f0590d9472f1441d22eef6c81454d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:21 +0000
Subject: [PATCH 25/29] fix: FileStore cleans at most once in a cycle

---
 library/cachex/file.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 82da43b..dc654be 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -217,6 +217,10 @@ func (f *FileStore[K, V]) gc() {
 	if !f.gcStatus.CompareAndSwap(false, true) {
 		return
 	}
+	if time.Now().Unix()-f.lastGC.Load() < int64(cycle/time.Second) {
+		f.gcStatus.Store(false) // another cleaning has come and gone since the check above
+		return
+	}
 	go func() {
 		defer func() {
 			f.lastGC.Store(time.Now().Unix())
-- 
2.43.0


From 92aebb613c194fa607f4de1d47c39fa9d367cc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:30 +0000
Subject: [PATCH 26/29] fix: a lifetime of more than about two centuries made a
 file cache entry expire at once

The end of the lifetime did not fit into nanoseconds of Unix time and wrapped around,
so Set with a very long ttl reported success and stored nothing.
---
 library/cachex/file.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index dc654be..4780bdd 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"io/fs"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -106,7 +107,7 @@ func (f *FileStore[K, V]) Set(ctx context.Context, key K, value V, ttl time.Dura
 		Data: value,
 		Key:  key,
 		TTL:  int64(ttl),
-		Exp:  time.Now().Add(ttl).UnixNano(),
+		Exp:  expireAt(ttl),
 	}
 	content, err := json.MarshalIndent(item, "", "  ")
 	if err != nil {
@@ -122,6 +123,16 @@ func (f *FileStore[K, V]) Set(ctx context.Context, key K, value V, ttl time.Dura
 	return os.WriteFile(fp, content, 0666)
 }
 
+// expireAt returns the end of a lifetime that begins now in nanoseconds of Unix time,
+// or the last moment these can express, if it lies beyond that
+func expireAt(ttl time.Duration) int64 {
+	now := time.Now().UnixNano()
+	if int64(ttl) > math.MaxInt64-now {
+		return math.MaxInt64
+	}
+	return now + int64(ttl)
+}
+
 // MGet Batch read the content from the cache
 //
 // Return values:
-- 
2.43.0


From 3bbc4fdfca0a85e624e745d24052ac33883b6f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:33 +0000
Subject: [PATCH 27/29] fix: file cache cleaned more than once in a cycle

The time of the last cleaning was kept in whole seconds: with a GCCycle below one second
every call started a cleaning, and longer cycles were up to a second too short.
---
 library/cachex/file.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 4780bdd..90dcc41 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -213,7 +213,7 @@ func (f *FileStore[K, V]) gc() {
 	}
 
 	if f.lastGC.Load() == 0 {
-		f.lastGC.Store(time.Now().Unix())
+		f.lastGC.Store(time.Now().UnixNano())
 		return
 	}
 
@@ -222,19 +222,19 @@ func (f *FileStore[K, V]) gc() {
 		cycle = time.Minute
 	}
 
-	if time.Now().Unix()-f.lastGC.Load() < int64(cycle/time.Second) {
+	if time.Now().UnixNano()-f.lastGC.Load() < int64(cycle) {
 		return
 	}
 	if !f.gcStatus.CompareAndSwap(false, true) {
 		return
 	}
-	if time.Now().Unix()-f.lastGC.Load() < int64(cycle/time.Second) {
+	if time.Now().UnixNano()-f.lastGC.Load() < int64(cycle) {
 		f.gcStatus.Store(false) // another cleaning has come and gone since the check above
 		return
 	}
 	go func() {
 		defer func() {
-			f.lastGC.Store(time.Now().Unix())
+			f.lastGC.Store(time.Now().UnixNano())
 			f.gcStatus.Store(false)
 			_ = recover()
 		}()
-- 
2.43.0


From 02d4e687dbd2f9b45a682e667222528145388929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:02 +0000
Subject: [PATCH 28/29] fix: Pool.Get panicked on a nil value of an interface
 type

---
 gogenerics/gcontainers/gpool/syncpool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gpool/syncpool.go b/gogenerics/gcontainers/gpool/syncpool.go
index 2cb4561..1013bde 100644
--- a/gogenerics/gcontainers/gpool/syncpool.go
+++ b/gogenerics/gcontainers/gpool/syncpool.go
@@ -21,7 +21,9 @@ func New[T any](fn func() T) Pool[T] {
 
 // Get is a generic wrapper around sync.Pool's Get method.
 func (p *Pool[T]) Get() T {
-	return p.pool.Get().(T)
+	// a nil value of an interface type comes back as an untyped nil
+	x, _ := p.pool.Get().(T)
+	return x
 }
 
 // Put is a generic wrapper around sync.Pool's Put method.
-- 
2.43.0


From b4eed623799ce154d718666cef1c4eeaeeea4dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:43 +0000
Subject: [PATCH 29/29] fix: Finish and MapReduceVoid no longer swallow an
 error that is ErrReduceNoOutput

---
 gogenerics/gconcurrent/mr/mr.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 2f6a947..b17c13d 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -140,19 +140,20 @@ func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], r
 	opts ...Option) (V, error) {
 	panicChan := newOnceChan()
 	source := buildSource(generate, panicChan)
-	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
+	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, ErrReduceNoOutput, opts...)
 }
 
 // MapReduceChan maps all elements from source, and reduce the output elements with given reducer.
 func MapReduceChan[T, U, V any](source <-chan T, mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
 	panicChan := newOnceChan()
-	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
+	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, ErrReduceNoOutput, opts...)
 }
 
 // mapReduceWithPanicChan maps all elements from source, and reduce the output elements with given reducer.
+// It returns noOutput if the reducer writes nothing.
 func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, mapper MapperFunc[T, U],
-	reducer ReducerFunc[U, V], opts ...Option) (val V, err error) {
+	reducer ReducerFunc[U, V], noOutput error, opts ...Option) (val V, err error) {
 	options := buildOptions(opts...)
 	// output is used to write the final result
 	// it is never closed, because the reducer may be about to write to it
@@ -248,7 +249,7 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 		} else if options.ctx.Err() != nil {
 			err = context.DeadlineExceeded
 		} else {
-			err = ErrReduceNoOutput
+			err = noOutput
 		}
 	}
 
@@ -259,12 +260,12 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 // and reduce the output elements with given reducer.
 func MapReduceVoid[T, U any](generate GenerateFunc[T], mapper MapperFunc[T, U],
 	reducer VoidReducerFunc[U], opts ...Option) error {
-	_, err := MapReduce(generate, mapper, func(input <-chan U, writer Writer[any], cancel func(error)) {
+	panicChan := newOnceChan()
+	source := buildSource(generate, panicChan)
+	// ErrReduceNoOutput may be the error a callback cancels with, it must not be mistaken for this call's own
+	_, err := mapReduceWithPanicChan(source, panicChan, mapper, func(input <-chan U, writer Writer[any], cancel func(error)) {
 		reducer(input, cancel)
-	}, opts...)
-	if errors.Is(err, ErrReduceNoOutput) {
-		return nil
-	}
+	}, nil, opts...)
 
 	return err
 }
-- 
2.43.0

