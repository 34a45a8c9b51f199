From ca4092f2e4dd586487b2c660fd20dfe5f2cdc5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:06 +0000
Subject: [PATCH 01/60] fix: slice comparison of unequal lengths no longer
 indexes past the shorter slice

The length guard tested the wrong slice with the wrong bound, so comparing a
slice with a proper prefix of it panicked. A comparable slice wrapping nil also
compared as smaller than itself.
---
 src/collection/comparable.go | 36 +++++++++---------------------------
 src/collection/util.go       | 20 ++++++++++----------
 2 files changed, 19 insertions(+), 37 deletions(-)

diff --git a/src/collection/comparable.go b/src/collection/comparable.go
index 39e2c96..6b2afe0 100644
--- a/src/collection/comparable.go
+++ b/src/collection/comparable.go
@@ -88,13 +88,11 @@ func (s *ComparableSlice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil, s.slice may still be nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableSlice [%v]", reflect.TypeOf(c)))
 	}
@@ -145,13 +143,11 @@ func (s *ComparableByteSlice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil, s.slice may still be nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableByteSlice [%v]", reflect.TypeOf(c)))
 	}
@@ -202,13 +198,11 @@ func (s *ComparableInt8Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil, s.slice may still be nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt8Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -259,13 +253,11 @@ func (s *ComparableInt16Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil, s.slice may still be nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt16Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -316,13 +308,11 @@ func (s *ComparableUint16Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil, s.slice may still be nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableUint16Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -373,13 +363,11 @@ func (s *ComparableInt32Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil, s.slice may still be nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt32Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -430,13 +418,11 @@ func (s *ComparableUint32Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil, s.slice may still be nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableUint32Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -487,13 +473,11 @@ func (s *ComparableInt64Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil, s.slice may still be nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt64Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -545,13 +529,11 @@ func (s *ComparableUint64Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil, s.slice may still be nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableUint64Slice [%v]", reflect.TypeOf(c)))
 	}
diff --git a/src/collection/util.go b/src/collection/util.go
index c235b01..42695bc 100644
--- a/src/collection/util.go
+++ b/src/collection/util.go
@@ -437,7 +437,7 @@ func CompareSlice(s1, s2 []IComparable) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -470,7 +470,7 @@ func CompareByteSlice(s1, s2 []byte) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -504,7 +504,7 @@ func CompareInt8Slice(s1, s2 []int8) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -538,7 +538,7 @@ func CompareInt16Slice(s1, s2 []int16) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -572,7 +572,7 @@ func CompareUint16Slice(s1, s2 []uint16) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -606,7 +606,7 @@ func CompareInt32Slice(s1, s2 []int32) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -640,7 +640,7 @@ func CompareUint32Slice(s1, s2 []uint32) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -674,7 +674,7 @@ func CompareInt64Slice(s1, s2 []int64) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -708,7 +708,7 @@ func CompareUint64Slice(s1, s2 []uint64) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -742,7 +742,7 @@ func CompareIntSlice(s1, s2 []int) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
-- 
2.43.0


From e62aa7fd76c54cb21200cf56eb52106ae9eddd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:23 +0000
Subject: [PATCH 02/60] fix: range iteration of sorted map and set starts at
 the range start

The start comparison was inverted and the walk to the start node did not keep
the path of pending ancestors, so ranges lost, repeated or crossed entries.
Seek to the first node no less than start when the iterator is created.
---
 src/collection/avl.go | 60 ++++++++++---------------------------------
 1 file changed, 13 insertions(+), 47 deletions(-)

diff --git a/src/collection/avl.go b/src/collection/avl.go
index f5a0932..f5dc62a 100644
--- a/src/collection/avl.go
+++ b/src/collection/avl.go
@@ -325,33 +325,30 @@ type AVLIterator struct {
 	paths       []*AVLNode
 	currNode    *AVLNode
 	currPos     int
-	start       IComparable
 	end         IComparable
 }
 
 func NewAVLIterator(root *AVLNode, start, end IComparable) *AVLIterator {
 
-	iter := &AVLIterator{initialized: false, paths: []*AVLNode{}}
-	iter.currNode = root
-	iter.currPos = 0
-
-	for iter.currNode != nil && iter.currNode.link[0] != nil {
-		iter.paths = append(iter.paths, iter.currNode)
-		iter.currNode = iter.currNode.link[0]
-		iter.currPos = 0
-	}
-
-	if start == nil && end == nil {
-		return iter
-	}
-
 	if start != nil && end != nil && start.Compare(end) > 0 {
 		panic(fmt.Sprintf("NewAVLIterator - start [%v] is larger than end [%v]", start, end))
 	}
 
-	iter.start = start
+	iter := &AVLIterator{initialized: false, paths: []*AVLNode{}}
+	iter.currPos = 0
 	iter.end = end
 
+	// seek to the smallest node no less than start, the ancestors pushed are
+	// the larger nodes to visit afterwards
+	for node := root; node != nil; {
+		if start != nil && node.key.Compare(start) < 0 {
+			node = node.link[1]
+		} else {
+			iter.paths = append(iter.paths, node)
+			node = node.link[0]
+		}
+	}
+
 	return iter
 }
 
@@ -435,7 +432,6 @@ func (i *AVLIterator) advance() {
 			} else {
 				// no more left
 				i.currNode = nil
-				i.start = nil
 				i.end = nil
 				return
 			}
@@ -446,36 +442,6 @@ func (i *AVLIterator) advance() {
 		panic(fmt.Sprintf("AVLIterator::advance - unknown currPos %d", i.currPos))
 	}
 
-	if i.start != nil {
-
-		for comp := i.start.Compare(i.currNode.key); comp < 0; {
-
-			if i.currNode.link[1] != nil {
-
-				i.currNode = i.currNode.link[1]
-				comp = i.start.Compare(i.currNode.key)
-
-			} else {
-
-				if len(i.paths) == 0 {
-
-					i.currNode = nil
-					return
-
-				} else {
-
-					i.currNode = i.paths[len(i.paths)-1]
-					i.currPos = 0
-					i.paths = i.paths[:len(i.paths)-1]
-					comp = i.start.Compare(i.currNode.key)
-				}
-			}
-		}
-
-		// we are here as i.CurrNode is no less than i.start
-		i.start = nil
-	}
-
 	if i.end != nil {
 
 		for comp := i.currNode.key.Compare(i.end); comp >= 0; {
-- 
2.43.0


From 3e9f26c943e38b8565e7339b9410623ac988ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:23 +0000
Subject: [PATCH 03/60] fix: map and set iterators return nil past the last
 entry instead of panicking

The iterator interfaces return nil when nothing is left, the unchecked type
assertion on that nil panicked.
---
 src/collection/hash_map.go   | 4 ++--
 src/collection/hash_set.go   | 4 ++--
 src/collection/sorted_map.go | 4 ++--
 src/collection/sorted_set.go | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/collection/hash_map.go b/src/collection/hash_map.go
index 7d0fa41..760c6ea 100644
--- a/src/collection/hash_map.go
+++ b/src/collection/hash_map.go
@@ -50,7 +50,7 @@ func (m *HashMap) Size() int {
 }
 
 func (i *HashMapIterator) Next() (IHashable, IObject) {
-	node := i.iter.Next().(*HashNode)
+	node, _ := i.iter.Next().(*HashNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
@@ -63,7 +63,7 @@ func (i *HashMapIterator) HasNext() bool {
 }
 
 func (i *HashMapIterator) Peek() (IHashable, IObject) {
-	node := i.iter.Peek().(*HashNode)
+	node, _ := i.iter.Peek().(*HashNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
diff --git a/src/collection/hash_set.go b/src/collection/hash_set.go
index 46d8b34..7d77ef0 100644
--- a/src/collection/hash_set.go
+++ b/src/collection/hash_set.go
@@ -50,7 +50,7 @@ func (m *HashSet) Size() int {
 }
 
 func (i *HashSetIterator) Next() IObject {
-	node := i.iter.Next().(*HashNode)
+	node, _ := i.iter.Next().(*HashNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
@@ -63,7 +63,7 @@ func (i *HashSetIterator) HasNext() bool {
 }
 
 func (i *HashSetIterator) Peek() IObject {
-	node := i.iter.Peek().(*HashNode)
+	node, _ := i.iter.Peek().(*HashNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
diff --git a/src/collection/sorted_map.go b/src/collection/sorted_map.go
index dc10121..ff1653f 100644
--- a/src/collection/sorted_map.go
+++ b/src/collection/sorted_map.go
@@ -45,7 +45,7 @@ func (m *SortedMap) Size() int {
 }
 
 func (i *SortedMapIterator) Next() (IComparable, IObject) {
-	node := i.iter.Next().(*AVLNode)
+	node, _ := i.iter.Next().(*AVLNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
@@ -58,7 +58,7 @@ func (i *SortedMapIterator) HasNext() bool {
 }
 
 func (i *SortedMapIterator) Peek() (IComparable, IObject) {
-	node := i.iter.Peek().(*AVLNode)
+	node, _ := i.iter.Peek().(*AVLNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
diff --git a/src/collection/sorted_set.go b/src/collection/sorted_set.go
index 6b4ffd4..faf6724 100644
--- a/src/collection/sorted_set.go
+++ b/src/collection/sorted_set.go
@@ -45,7 +45,7 @@ func (m *SortedSet) Size() int {
 }
 
 func (i *SortedSetIterator) Next() IObject {
-	node := i.iter.Next().(*AVLNode)
+	node, _ := i.iter.Next().(*AVLNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
@@ -58,7 +58,7 @@ func (i *SortedSetIterator) HasNext() bool {
 }
 
 func (i *SortedSetIterator) Peek() IObject {
-	node := i.iter.Peek().(*AVLNode)
+	node, _ := i.iter.Peek().(*AVLNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
-- 
2.43.0


From 50d9175136d82b4ee5fe0c39caf0687acb231b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:25 +0000
Subject: [PATCH 04/60] fix: hashing of slice wrappers no longer panics

The integer slices were resliced as bytes beyond the element capacity, and the
object slice reflected on a nil interface type.
---
 src/collection/hashable.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/collection/hashable.go b/src/collection/hashable.go
index 1570685..3e76171 100644
--- a/src/collection/hashable.go
+++ b/src/collection/hashable.go
@@ -1,7 +1,6 @@
 package collection
 
 import (
-	"fmt"
 	"reflect"
 	"unsafe"
 )
@@ -102,10 +101,7 @@ func (s *HashableSlice) HashUint32(f func([]byte) uint32) uint32 {
 		if obj == nil {
 			h ^= empty_hash
 		} else {
-			if !reflect.TypeOf(obj).Implements(reflect.TypeOf((IHashable)(nil))) {
-				panic(fmt.Sprintf("HashableSlice::HashUint32 - unexpected object type [%s]", reflect.TypeOf(obj)))
-			}
-			h ^= obj.(IHashable).HashUint32(f)
+			h ^= obj.HashUint32(f)
 		}
 	}
 
@@ -204,7 +200,7 @@ func (s *HashableInt16Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int16 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*2]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*2)
 	return f(b)
 }
 
@@ -253,7 +249,7 @@ func (s *HashableUint16Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint16 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*2]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*2)
 	return f(b)
 }
 
@@ -302,7 +298,7 @@ func (s *HashableInt32Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int32 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*4]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*4)
 	return f(b)
 }
 
@@ -351,7 +347,7 @@ func (s *HashableUint32Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint32 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*4]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*4)
 	return f(b)
 }
 
@@ -400,7 +396,7 @@ func (s *HashableInt64Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int64 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*8]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*8)
 	return f(b)
 }
 
@@ -449,6 +445,6 @@ func (s *HashableUint64Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint64 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*8]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*8)
 	return f(b)
 }
-- 
2.43.0


From 5e9426e328c6b0343a02bc80409eed2df1c3fe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:49 +0000
Subject: [PATCH 05/60] fix: varint decoding no longer treats the value as a
 following length

A bare varint was rejected unless as many bytes followed as its value, and a
varchar length above the int range slipped past the bounds check and panicked.
MappedKey relied on the former to bound its sub key count, check that there.
---
 src/util/key_util.go  | 4 ++++
 src/util/misc_util.go | 6 +-----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 93a3ae0..67a4ff3 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -227,6 +227,10 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 		return 0, fmt.Errorf("MappedKey::Decode - subKey size error [%v]", err)
 	}
 	pos += length
+	if subKeySize > uint64(len(k.buf)-pos) {
+		// each subKey takes at least one byte
+		return 0, fmt.Errorf("MappedKey::Decode - subKey size [%d] bigger than remaining buf size [%d]", subKeySize, len(k.buf)-pos)
+	}
 	k.keys = make([][]byte, subKeySize)
 	for idx, _ := range k.keys {
 		k.keys[idx], length, err = DecodeVarchar(k.buf[pos:])
diff --git a/src/util/misc_util.go b/src/util/misc_util.go
index a07b0c6..ec9e940 100644
--- a/src/util/misc_util.go
+++ b/src/util/misc_util.go
@@ -51,8 +51,6 @@ func DecodeVarint64(buf []byte) (int64, int, error) {
 		return 0, 0, fmt.Errorf("DecodeVarint64 - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return 0, 0, fmt.Errorf("DecodeVarint64 - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
-		return 0, 0, fmt.Errorf("DecodeVarint64 - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
 	return bufLength, bufN, nil
@@ -85,8 +83,6 @@ func DecodeUvarint64(buf []byte) (uint64, int, error) {
 		return 0, 0, fmt.Errorf("DecodeUvarint64 - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return 0, 0, fmt.Errorf("DecodeUvarint64 - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
-		return 0, 0, fmt.Errorf("DecodeUvarint64 - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
 	return bufLength, bufN, nil
@@ -122,7 +118,7 @@ func DecodeVarchar(buf []byte) ([]byte, int, error) {
 		return nil, 0, fmt.Errorf("DecodeVarchar - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return nil, 0, fmt.Errorf("DecodeVarchar - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
+	} else if bufLength > uint64(len(buf)-bufN) {
 		return nil, 0, fmt.Errorf("DecodeVarchar - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
-- 
2.43.0


From 9ba9017928897446bea1351daa638c3b1f12f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:51 +0000
Subject: [PATCH 06/60] fix: a truncated encoded key is an error, not a key
 with empty sub keys

---
 src/util/key_util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 67a4ff3..7fad7c2 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -233,6 +233,9 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 	}
 	k.keys = make([][]byte, subKeySize)
 	for idx, _ := range k.keys {
+		if pos >= len(k.buf) {
+			return 0, fmt.Errorf("MappedKey::Decode - subKey [%d] missing", idx)
+		}
 		k.keys[idx], length, err = DecodeVarchar(k.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedKey::Decode - subKey [%d] error [%v]", idx, err)
-- 
2.43.0


From 525a96ad39d05b56b5510609b94d44b3615b4000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:51 +0000
Subject: [PATCH 07/60] fix: comparing a key with a proper prefix of it no
 longer panics

---
 src/util/key_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 7fad7c2..12516ca 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -303,7 +303,7 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 
 	t := c.(IKey)
 	for idx, subKey := range k.Key() {
-		if len(t.Key()) < idx {
+		if len(t.Key()) <= idx {
 			return 1
 		}
 		r := collection.CompareByteSlice(subKey, t.SubKeyAt(idx))
@@ -509,7 +509,7 @@ func (k *Key) Compare(c collection.IComparable) int {
 
 	t := c.(IKey)
 	for idx, subKey := range k.Key() {
-		if len(t.Key()) < idx {
+		if len(t.Key()) <= idx {
 			return 1
 		}
 		r := collection.CompareByteSlice(subKey, t.SubKeyAt(idx))
-- 
2.43.0


From 721cc534903fb2aa7d85f704e51b532fe4794233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:53 +0000
Subject: [PATCH 08/60] fix: a mapped key holds only its own bytes

The key decoded at the start of a longer buffer reported the whole buffer as its
encoding, and reported being decoded the wrong way round.
---
 src/util/key_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 12516ca..effbeee 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -213,7 +213,7 @@ func (k *MappedKey) Encode(IContext) error {
 }
 
 func (k *MappedKey) IsDecoded() bool {
-	return k.keys == nil
+	return k.decoded
 }
 
 func (k *MappedKey) Decode(IContext) (int, error) {
@@ -244,6 +244,7 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 	}
 
 	k.decoded = true
+	k.buf = k.buf[:pos] // the rest of the buf is not part of the key
 
 	return pos, nil
 }
-- 
2.43.0


From c415752792d775b7a3783498bc0f53ebde869b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:55 +0000
Subject: [PATCH 09/60] fix: adding to an encoded key invalidates its encoded
 buffer

---
 src/util/key_util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index effbeee..b0d6c42 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -558,5 +558,6 @@ func (k *Key) Add(subKey []byte) *Key {
 
 	k.keys = append(k.keys, subKey)
 	k.estBufSize += 1 + len(subKey)
+	k.encoded = false // encoded buf does not have the new subKey
 	return k
 }
-- 
2.43.0


From 330fca58a30c467ba78ae57e795f8a9b64f3d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:56 +0000
Subject: [PATCH 10/60] fix: key hash depends on the order and repetition of
 sub keys

With a plain XOR of the sub key hashes, distinct keys such as (a,b) and (b,a)
collide for every seed, and building a perfect hash over them never ends.
---
 src/util/key_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index b0d6c42..1033dea 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -326,7 +326,7 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
 	hashValue := uint32(0)
 	for _, key := range k.keys {
-		hashValue ^= f(key)
+		hashValue = hashValue*16777619 ^ f(key) // depends on subKey order
 	}
 	return hashValue
 }
@@ -470,7 +470,7 @@ func (k *Key) CopyConstruct() (IEncodable, error) {
 func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
 	hashValue := uint32(0)
 	for _, key := range k.keys {
-		hashValue ^= f(key)
+		hashValue = hashValue*16777619 ^ f(key) // depends on subKey order
 	}
 	return hashValue
 }
-- 
2.43.0


From 83fdfe8078442eb9f517a6f60f06e0b8d1b5f75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:19 +0000
Subject: [PATCH 11/60] fix: lookup in an empty or malformed perfect hash table
 no longer panics

An empty table has no verify entry to look at. Masks that do not match the
table length and missing verify keys are refused when the table is loaded.
---
 src/util/mph_util.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/util/mph_util.go b/src/util/mph_util.go
index bc53b34..774e401 100644
--- a/src/util/mph_util.go
+++ b/src/util/mph_util.go
@@ -92,6 +92,9 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 	}
 	t.level0Mask = int(binary.BigEndian.Uint32(buf[pos:]))
 	pos += 4
+	if t.level0Mask != len(t.level0)-1 {
+		return nil, pos, fmt.Errorf("NewMPHTable - level 0 mask %d does not match length %d", t.level0Mask, level0_len)
+	}
 
 	////////////////////////////////////////
 	// level 1 size
@@ -117,6 +120,9 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 	}
 	t.level1Mask = int(binary.BigEndian.Uint32(buf[pos:]))
 	pos += 4
+	if t.level1Mask != len(t.level1)-1 {
+		return nil, pos, fmt.Errorf("NewMPHTable - level 1 mask %d does not match length %d", t.level1Mask, level1_len)
+	}
 
 	////////////////////////////////////////
 	// verify key, or verify hash
@@ -132,11 +138,19 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 		verifyKeySize := binary.BigEndian.Uint32(buf[pos:])
 		pos += 4
 
+		// each verify key takes at least one byte
+		if len(buf)-pos < int(verifyKeySize) {
+			return nil, pos, fmt.Errorf("NewMPHTable - missing verify keys %d", verifyKeySize)
+		}
 		t.verifyKey = make([]IKey, verifyKeySize)
 
 		// iterate each key
 		for i := 0; i < int(verifyKeySize); i++ {
 
+			if len(buf) <= pos {
+				return nil, pos, fmt.Errorf("NewMPHTable - missing verify key [%d] %d", i, len(buf))
+			}
+
 			// verify key length
 			verifyKey, verifyKeyN, err := NewMappedKey(buf[pos:])
 			if err != nil {
@@ -357,6 +371,10 @@ func (t *MPHTable) Lookup(s IKey) (n uint32, ok bool) {
 	seed := t.level0[i0]
 	i1 := int(s.HashUint32(collection.MurmurSeed(seed).Hash)) & t.level1Mask
 	n = t.level1[i1]
+	if int(n) >= len(t.verifyKey) && int(n) >= len(t.verifyHash) {
+		// no such index, e.g. empty table
+		return n, false
+	}
 	if t.verifyKey != nil {
 		return n, s.Equal(t.verifyKey[int(n)])
 	} else {
-- 
2.43.0


From 7769a88f9d9c29d0122199506db762418ae5ec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:48 +0000
Subject: [PATCH 12/60] fix: a nil primitive encodes as the one byte nil value

Encoding to nothing made a value array holding it undecodable.
---
 src/util/value_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 5a44774..16882bc 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -691,7 +691,7 @@ func (d *Primitive) Encode(IContext) error {
 
 	if d.data == nil {
 		d.magic = 0x00
-		d.buf = nil
+		d.buf = []byte{0x00}
 		d.encoded = true
 		return nil
 	}
-- 
2.43.0


From 5aca7d52ee677fb33cb91c4794a491fe0fe5d7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:51 +0000
Subject: [PATCH 13/60] fix: reading a malformed element twice returns the
 error twice

The failed decode left a typed nil in the element cache, which the next access
returned as a value or dereferenced.
---
 src/util/value_util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 16882bc..2251bac 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -280,17 +280,17 @@ func (d *StandardMappedValue) ValueAt(idx uint16) (IValue, error) {
 		return d.data_array[idx], nil
 	}
 
-	var err error
 	pos := 0
 	for i := uint16(0); i <= idx; i++ {
 		if d.data_array[i] == nil {
 			if len(d.content) < pos {
 				return nil, fmt.Errorf("StandardMappedValue:ValueAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
 			}
-			d.data_array[i], _, err = NewStandardMappedValue(d.content[pos:])
+			element, _, err := NewStandardMappedValue(d.content[pos:])
 			if err != nil {
 				return nil, err
 			}
+			d.data_array[i] = element
 		}
 		pos += len(d.data_array[i].Buf())
 		//pos += length
@@ -317,17 +317,17 @@ func (d *StandardMappedValue) RecordAt(idx uint16) (IRecord, error) {
 		return d.record_list[idx], nil
 	}
 
-	var err error
 	pos := 0
 	for i := uint16(0); i <= idx; i++ {
 		if d.record_list[i] == nil {
 			if len(d.content) < pos {
 				return nil, fmt.Errorf("StandardMappedValue:RecordAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
 			}
-			d.record_list[i], _, err = NewMappedRecord(d.content[pos:])
+			element, _, err := NewMappedRecord(d.content[pos:])
 			if err != nil {
 				return nil, err
 			}
+			d.record_list[i] = element
 		}
 		pos += len(d.record_list[i].Buf())
 	}
-- 
2.43.0


From 1f2a2dadb8aa4fb4cf513b0875a90f7f4861fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:36 +0000
Subject: [PATCH 14/60] fix: a record without a key, value or scheme decodes
 instead of panicking

The bits for absent parts were read but the parts were dereferenced anyway. A
part whose bit is set but whose bytes are missing is an error.
---
 src/util/record_util.go | 51 ++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index d3c2ead..aa03aea 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -166,15 +166,18 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 	// key
 	hasKey := (r.buf[0] >> 6) & 0x01
 	if hasKey != 0 {
+		if len(r.buf) <= pos {
+			return 0, fmt.Errorf("MappedRecord::Decode - invalid buf, no key, %d, %x", len(r.buf), r.buf)
+		}
 		key, length, err = NewMappedKey(r.buf[pos:])
-	}
-	if err != nil {
-		return 0, fmt.Errorf("MappedRecord::Decode - key error [%v]", err)
-	} else if len(key.Buf()) > MAX_KEY_LENGTH {
-		return 0, fmt.Errorf("MappedRecord::Decode - key size %d larger than %d", len(key.Buf()), MAX_KEY_LENGTH)
-	} else {
-		r.key = key
-		pos += len(r.key.Buf())
+		if err != nil {
+			return 0, fmt.Errorf("MappedRecord::Decode - key error [%v]", err)
+		} else if len(key.Buf()) > MAX_KEY_LENGTH {
+			return 0, fmt.Errorf("MappedRecord::Decode - key size %d larger than %d", len(key.Buf()), MAX_KEY_LENGTH)
+		} else {
+			r.key = key
+			pos += length
+		}
 	}
 
 	// value
@@ -184,14 +187,14 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 	hasValue := (r.buf[0] >> 5) & 0x01
 	if hasValue != 0 {
 		value, length, err = NewStandardMappedValue(r.buf[pos:])
-	}
-	if err != nil {
-		return 0, fmt.Errorf("MappedRecord::Decode - value error [%v]", err)
-	} else if len(value.Buf()) > MAX_VALUE_LENGTH {
-		return 0, fmt.Errorf("MappedRecord::Decode - value size %d larger than %d", len(value.Buf()), MAX_VALUE_LENGTH)
-	} else {
-		r.value = value
-		pos += len(r.value.Buf())
+		if err != nil {
+			return 0, fmt.Errorf("MappedRecord::Decode - value error [%v]", err)
+		} else if len(value.Buf()) > MAX_VALUE_LENGTH {
+			return 0, fmt.Errorf("MappedRecord::Decode - value size %d larger than %d", len(value.Buf()), MAX_VALUE_LENGTH)
+		} else {
+			r.value = value
+			pos += length
+		}
 	}
 
 	// scheme
@@ -201,14 +204,14 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 	hasScheme := (r.buf[0] >> 4) & 0x01
 	if hasScheme != 0 {
 		scheme, length, err = NewStandardMappedValue(r.buf[pos:])
-	}
-	if err != nil {
-		return 0, fmt.Errorf("MappedRecord::Decode - scheme error [%v]", err)
-	} else if len(scheme.Buf()) > MAX_SCHEME_LENGTH {
-		return 0, fmt.Errorf("MappedRecord::Decode - scheme size %d larger than %d", len(scheme.Buf()), MAX_SCHEME_LENGTH)
-	} else {
-		r.scheme = scheme
-		pos += len(r.scheme.Buf())
+		if err != nil {
+			return 0, fmt.Errorf("MappedRecord::Decode - scheme error [%v]", err)
+		} else if len(scheme.Buf()) > MAX_SCHEME_LENGTH {
+			return 0, fmt.Errorf("MappedRecord::Decode - scheme size %d larger than %d", len(scheme.Buf()), MAX_SCHEME_LENGTH)
+		} else {
+			r.scheme = scheme
+			pos += length
+		}
 	}
 
 	// timestamp bit
-- 
2.43.0


From e43b8009ecf4e01681994ba8ac7e3b54faa89fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:38 +0000
Subject: [PATCH 15/60] fix: copying a mapped record with absent or malformed
 parts no longer panics

---
 src/util/record_util.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index aa03aea..992175f 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -269,24 +269,29 @@ func (r *MappedRecord) Copy() IEncodable {
 func (r *MappedRecord) CopyConstruct() (IEncodable, error) {
 
 	result := NewRecord()
-	var err error
 
-	key, err := r.Key().CopyConstruct()
-	result.key = key.(IKey)
-	if err != nil {
-		return nil, fmt.Errorf("MappedRecord::CopyConstruct - key error [%v]", err)
+	if r.Key() != nil {
+		key, err := r.Key().CopyConstruct()
+		if err != nil {
+			return nil, fmt.Errorf("MappedRecord::CopyConstruct - key error [%v]", err)
+		}
+		result.key = key.(IKey)
 	}
 
-	value, err := r.Value().CopyConstruct()
-	result.value = value.(IValue)
-	if err != nil {
-		return nil, fmt.Errorf("MappedRecord::CopyConstruct - value error [%v]", err)
+	if r.Value() != nil {
+		value, err := r.Value().CopyConstruct()
+		if err != nil {
+			return nil, fmt.Errorf("MappedRecord::CopyConstruct - value error [%v]", err)
+		}
+		result.value = value.(IValue)
 	}
 
-	scheme, err := r.Scheme().CopyConstruct()
-	result.scheme = scheme.(IValue)
-	if err != nil {
-		return nil, fmt.Errorf("MappedRecord::CopyConstruct - scheme error [%v]", err)
+	if r.Scheme() != nil {
+		scheme, err := r.Scheme().CopyConstruct()
+		if err != nil {
+			return nil, fmt.Errorf("MappedRecord::CopyConstruct - scheme error [%v]", err)
+		}
+		result.scheme = scheme.(IValue)
 	}
 
 	result.timestamp = r.Timestamp()                       // timestamp is immutable
-- 
2.43.0


From b99bf1f81f7004dd5b93271f0d1ac9b6ad662ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:40 +0000
Subject: [PATCH 16/60] fix: encoding a record enforces the value and scheme
 limits decoding enforces

Otherwise encoding succeeds and produces bytes that can never be read back.
---
 src/util/record_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index 992175f..62b25a7 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -436,6 +436,8 @@ func (r *Record) Encode(IContext) error {
 		err := r.value.Encode(nil)
 		if err != nil {
 			return fmt.Errorf("Record::Encode - value error [%v]", err)
+		} else if len(r.value.Buf()) > MAX_VALUE_LENGTH {
+			return fmt.Errorf("Record::Encode - value size %d larger than %d", len(r.value.Buf()), MAX_VALUE_LENGTH)
 		}
 
 		buf[0] |= byte(0x01) << 5
@@ -448,6 +450,8 @@ func (r *Record) Encode(IContext) error {
 		err := r.scheme.Encode(nil)
 		if err != nil {
 			return fmt.Errorf("Record::Encode - scheme error [%v]", err)
+		} else if len(r.scheme.Buf()) > MAX_SCHEME_LENGTH {
+			return fmt.Errorf("Record::Encode - scheme size %d larger than %d", len(r.scheme.Buf()), MAX_SCHEME_LENGTH)
 		}
 
 		buf[0] |= byte(0x01) << 4
-- 
2.43.0


From f231a6bbe6ad567237e2b93dd7b5e0b57935d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:04 +0000
Subject: [PATCH 17/60] fix: scheme encoding marks the parts it holds and
 decoding honours the marks

Encoding never set the presence bits and decoding read every part regardless of
them, and truncated or empty input crashed or decoded to empty parts.
---
 src/util/scheme_util.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index bb0c842..958ceb4 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -153,12 +153,19 @@ func (s *MappedScheme) IsDecoded() bool {
 
 func (s *MappedScheme) Decode(IContext) (int, error) {
 
+	if len(s.buf) < 1 {
+		return 0, fmt.Errorf("MappedScheme::Decode - empty buf")
+	}
+
 	pos := 1
 	var length int
 	var err error
 
 	// decode domain
-	if s.buf[0]|(0x01<<7) != 0 {
+	if s.buf[0]&(0x01<<7) != 0 {
+		if len(s.buf) <= pos {
+			return 0, fmt.Errorf("MappedScheme::Decode - missing domain")
+		}
 		s.domain, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - domain error [%v]", err)
@@ -167,7 +174,10 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	}
 
 	// decode tablet
-	if s.buf[0]|(0x01<<6) != 0 {
+	if s.buf[0]&(0x01<<6) != 0 {
+		if len(s.buf) <= pos {
+			return 0, fmt.Errorf("MappedScheme::Decode - missing tablet")
+		}
 		s.tablet, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - tablet error [%v]", err)
@@ -176,14 +186,24 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	}
 
 	// decode buckets
-	if s.buf[0]|(0x01<<5) != 0 {
+	if s.buf[0]&(0x01<<5) != 0 {
+		if len(s.buf) <= pos {
+			return 0, fmt.Errorf("MappedScheme::Decode - missing bucket size")
+		}
 		bucketSize, length, err := DecodeUvarint64(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - bucket size error [%v]", err)
 		}
 		pos += length
+		if bucketSize > uint64(len(s.buf)-pos) {
+			// each bucket takes at least one byte
+			return 0, fmt.Errorf("MappedScheme::Decode - bucket size [%d] bigger than remaining buf size [%d]", bucketSize, len(s.buf)-pos)
+		}
 		s.buckets = make([][]byte, bucketSize)
 		for idx, _ := range s.buckets {
+			if len(s.buf) <= pos {
+				return 0, fmt.Errorf("MappedScheme::Decode - missing bucket [%d]", idx)
+			}
 			s.buckets[idx], length, err = DecodeVarchar(s.buf[pos:])
 			if err != nil {
 				return 0, fmt.Errorf("MappedScheme::Decode - bucket [%d] error [%v]", idx, err)
@@ -192,6 +212,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 		}
 	}
 
+	s.buf = s.buf[:pos] // the rest of the buf is not part of the scheme
 	s.decoded = true
 
 	return pos, nil
@@ -326,7 +347,7 @@ func (s *Scheme) Encode(IContext) error {
 	buf := []byte{byte(0x00)}
 
 	if s.domain != nil {
-		buf[0] |= 0x00 << 7
+		buf[0] |= 0x01 << 7
 		buf = append(buf, EncodeVarchar(s.domain)...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
@@ -336,7 +357,7 @@ func (s *Scheme) Encode(IContext) error {
 	}
 
 	if s.tablet != nil {
-		buf[0] |= 0x00 << 6
+		buf[0] |= 0x01 << 6
 		buf = append(buf, EncodeVarchar(s.tablet)...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
@@ -346,7 +367,7 @@ func (s *Scheme) Encode(IContext) error {
 	}
 
 	if s.buckets != nil {
-		buf[0] |= 0x00 << 5
+		buf[0] |= 0x01 << 5
 		buf = append(buf, EncodeUvarint64(uint64(len(s.buckets)))...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
-- 
2.43.0


From d762852c8b4a4b5a7e4f78e51859a7ff56610d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:06 +0000
Subject: [PATCH 18/60] fix: copying a scheme copies its bytes

---
 src/util/scheme_util.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index 958ceb4..0651cc3 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -226,16 +226,18 @@ func (s *MappedScheme) Copy() IEncodable {
 	c := NewScheme()
 
 	if s.domain != nil {
-		c.domain = s.domain
+		c.domain = append([]byte{}, s.domain...)
 	}
 
 	if s.tablet != nil {
-		c.tablet = s.tablet
+		c.tablet = append([]byte{}, s.tablet...)
 	}
 
 	if s.buckets != nil {
 		c.buckets = make([][]byte, len(s.buckets))
-		copy(c.buckets, s.buckets)
+		for i, bucket := range s.buckets {
+			c.buckets[i] = append([]byte{}, bucket...)
+		}
 	}
 
 	return c
@@ -406,16 +408,18 @@ func (s *Scheme) Copy() IEncodable {
 	c := NewScheme()
 
 	if s.domain != nil {
-		c.domain = s.domain
+		c.domain = append([]byte{}, s.domain...)
 	}
 
 	if s.tablet != nil {
-		c.tablet = s.tablet
+		c.tablet = append([]byte{}, s.tablet...)
 	}
 
 	if s.buckets != nil {
 		c.buckets = make([][]byte, len(s.buckets))
-		copy(c.buckets, s.buckets)
+		for i, bucket := range s.buckets {
+			c.buckets[i] = append([]byte{}, bucket...)
+		}
 	}
 
 	return c
-- 
2.43.0


From 165a2395ee24ea7f807885f16a3de76a7258c56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 19/60] fix: encoded raft time keeps its magic byte and whole
 fields

The term overwrote the magic and every field sat one byte early, so encoded raft
times could not be read back.
---
 src/util/consensus_util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index c7ac540..e112bff 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -143,9 +143,9 @@ func NewRaftTime(term, millis, count uint32) *RaftTime {
 func (t *RaftTime) Buf() []byte {
 	buf := make([]byte, 1+12)
 	buf[0] = CONSENSUS_TIME_RAFT
-	binary.BigEndian.PutUint32(buf, t.term)
-	binary.BigEndian.PutUint32(buf[4:], t.millis)
-	binary.BigEndian.PutUint32(buf[8:], t.count)
+	binary.BigEndian.PutUint32(buf[1:], t.term)
+	binary.BigEndian.PutUint32(buf[5:], t.millis)
+	binary.BigEndian.PutUint32(buf[9:], t.count)
 	return buf
 }
 
-- 
2.43.0


From 0ddf2cbb45d995e532edc28e27f52307a71b6b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:23 +0000
Subject: [PATCH 20/60] fix: raft time LT and LE order by the first differing
 field

---
 src/util/consensus_util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index e112bff..ff1e894 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -223,17 +223,17 @@ func (t *RaftTime) LT(ict IConsensusTime) (bool, error) {
 	if tmp, ok := ict.(*RaftTime); ok {
 		if t.term < tmp.term {
 			return true, nil
-		} else if t.term < tmp.term {
+		} else if t.term > tmp.term {
 			return false, nil
 		}
 		if t.millis < tmp.millis {
 			return true, nil
-		} else if t.millis < tmp.millis {
+		} else if t.millis > tmp.millis {
 			return false, nil
 		}
 		if t.count < tmp.count {
 			return true, nil
-		} else if t.count < tmp.count {
+		} else if t.count > tmp.count {
 			return false, nil
 		}
 		return false, nil
@@ -246,17 +246,17 @@ func (t *RaftTime) LE(ict IConsensusTime) (bool, error) {
 	if tmp, ok := ict.(*RaftTime); ok {
 		if t.term < tmp.term {
 			return true, nil
-		} else if t.term < tmp.term {
+		} else if t.term > tmp.term {
 			return false, nil
 		}
 		if t.millis < tmp.millis {
 			return true, nil
-		} else if t.millis < tmp.millis {
+		} else if t.millis > tmp.millis {
 			return false, nil
 		}
 		if t.count < tmp.count {
 			return true, nil
-		} else if t.count < tmp.count {
+		} else if t.count > tmp.count {
 			return false, nil
 		}
 		return true, nil
-- 
2.43.0


From e1727d65fa9f594bb0ecea080829a14cfcb0aa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:25 +0000
Subject: [PATCH 21/60] fix: an empty consensus id is an error, not a panic

---
 src/util/consensus_util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index ff1e894..20420f4 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -280,7 +280,11 @@ type MappedConsensusID struct {
 }
 
 func NewMappedConsensusID(buf []byte) (*MappedConsensusID, error) {
-	if buf == nil || len(buf) == 0 || buf[0] == 0x00 {
+	if len(buf) == 0 {
+		return nil, fmt.Errorf("NewConsensusID - empty buf")
+	}
+
+	if buf[0] == 0x00 {
 		return nil, fmt.Errorf("NewConsensusID - invalid magic [%b]", buf[0])
 	}
 
-- 
2.43.0


From fb6dd911faa540edfd0c87a5d9c30223be652da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:43 +0000
Subject: [PATCH 22/60] fix: signed random ranges stay within their bounds

The remainder of a negative draw is negative, so about half of the results were
below the minimum, and ranges wider than the positive half overflowed.
---
 src/util/rand_util.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/util/rand_util.go b/src/util/rand_util.go
index 34d3dc3..bc0dfe0 100644
--- a/src/util/rand_util.go
+++ b/src/util/rand_util.go
@@ -154,8 +154,8 @@ func RandUint64() uint64 {
 }
 
 func RandInt8Range(min, max int8) int8 {
-	data := RandInt8()
-	result := data%(max-min) + min
+	data := RandUint8()
+	result := int8(data%uint8(max-min)) + min
 	return result
 }
 
@@ -166,8 +166,8 @@ func RandUint8Range(min, max uint8) uint8 {
 }
 
 func RandInt16Range(min, max int16) int16 {
-	data := RandInt16()
-	result := data%(max-min) + min
+	data := RandUint16()
+	result := int16(data%uint16(max-min)) + min
 	return result
 }
 
@@ -178,8 +178,8 @@ func RandUint16Range(min, max uint16) uint16 {
 }
 
 func RandInt32Range(min, max int32) int32 {
-	data := RandInt32()
-	result := data%(max-min) + min
+	data := RandUint32()
+	result := int32(data%uint32(max-min)) + min
 	return result
 }
 
@@ -190,8 +190,8 @@ func RandUint32Range(min, max uint32) uint32 {
 }
 
 func RandInt64Range(min, max int64) int64 {
-	data := RandInt64()
-	result := data%(max-min) + min
+	data := RandUint64()
+	result := int64(data%uint64(max-min)) + min
 	return result
 }
 
-- 
2.43.0


From 69b542894ee275c22418d49ed25ab3f0e00d0a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:45 +0000
Subject: [PATCH 23/60] fix: truncated key files and unusable key directories
 are errors, not panics

---
 src/util/lc_util.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 0b816ae..e25cd46 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -233,6 +233,10 @@ func lc_load_key_data(filepath string) ([]byte, error) {
 		return nil, err
 	}
 
+	if n < 4 {
+		return nil, fmt.Errorf("[%s] content too short for CRC", filepath)
+	}
+
 	data := output[:n-4]
 	compute_crc := make([]byte, 4)
 	binary.BigEndian.PutUint32(compute_crc, crc32.ChecksumIEEE(data))
@@ -271,6 +275,10 @@ func lc_load_priv_key(cls int, id string, secret []byte) (*ecdsa.PrivateKey, err
 		return nil, err
 	}
 
+	if len(data) < 12 {
+		return nil, fmt.Errorf("[%s] content too short for nonce", filepath)
+	}
+
 	key := []byte(secret)
 	nonce := data[:12]
 	ciphertext := data[12:]
@@ -300,7 +308,10 @@ func lc_mkdir_if_not_exist(path string) error {
 	}
 
 	// check again for the path
-	stat_info, _ := os.Stat(path)
+	stat_info, stat_err := os.Stat(path)
+	if stat_err != nil {
+		return stat_err
+	}
 	if !stat_info.Mode().IsDir() {
 		return fmt.Errorf("Path is not a directory : %s", path)
 	}
-- 
2.43.0


From 3843535fb986599805a49089ef9b0927dc4bede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:29 +0000
Subject: [PATCH 24/60] fix: generated keys verify their signatures after the
 public key is reloaded

Public keys are stored as X only and reloaded with one of the two possible Y,
which for half of the generated keys was the wrong one. Generate keys whose Y is
the one calculated from X.
---
 src/util/ecdsa_util.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/util/ecdsa_util.go b/src/util/ecdsa_util.go
index fa21d10..0a571c7 100644
--- a/src/util/ecdsa_util.go
+++ b/src/util/ecdsa_util.go
@@ -43,9 +43,14 @@ func ECDSAGenerateKey() *ecdsa.PrivateKey {
 	if err != nil {
 		fmt.Println(err)
 		return nil
-	} else {
-		return priv_key
 	}
+
+	// public keys are kept by X only, choose the private key of which the
+	// public key has the Y that is calculated from X
+	if priv_key.Y.Cmp(ECDSACalculateY(curve, priv_key.X)) != 0 {
+		priv_key = ECDSAGetPrivateKey(new(big.Int).Sub(curve.Params().N, priv_key.D).Bytes())
+	}
+	return priv_key
 }
 
 func ECDSASign(priv_key *ecdsa.PrivateKey, hash []byte) (r, s *big.Int, err error) {
-- 
2.43.0


From 9017fd3ea805e184a264a388d2f3e4ed0ef46d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:31 +0000
Subject: [PATCH 25/60] fix: verifying with an invalid public key or no
 signature fails instead of panicking

---
 src/util/ecdsa_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/ecdsa_util.go b/src/util/ecdsa_util.go
index 0a571c7..70e2b91 100644
--- a/src/util/ecdsa_util.go
+++ b/src/util/ecdsa_util.go
@@ -58,6 +58,10 @@ func ECDSASign(priv_key *ecdsa.PrivateKey, hash []byte) (r, s *big.Int, err erro
 }
 
 func ECDSAVerify(pub_key *ecdsa.PublicKey, hash []byte, r, s *big.Int) bool {
+	if pub_key.Y == nil || r == nil || s == nil {
+		// X is not on the curve, or there is no signature
+		return false
+	}
 	return ecdsa.Verify(pub_key, hash, r, s)
 }
 
-- 
2.43.0


From 31b454eb5c72a70e5bddb3aa0b4360e6ca72ecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:45 +0000
Subject: [PATCH 26/60] fix: trie get and set of keys that are not there no
 longer panic or lose children

Looking up a missing child asserted on a nil interface, and setting a nil value
removed the node together with its children and walked past the root.
---
 src/util/trie_util.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 29af67d..573621d 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -369,7 +369,8 @@ func (tn *MappedTrieNode) GetChild(nodeKey []byte) ITrieNode {
 		return nil
 	}
 
-	return tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	child, _ := tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	return child
 }
 
 func (tn *MappedTrieNode) PutChild(nodeKey []byte, n ITrieNode) error {
@@ -606,9 +607,8 @@ func (t *Trie) Set(k IKey, d IValue) IValue {
 	t.estBufSize += estimateValueBufSize(d) - estimateValueBufSize(resultValue)
 	// if d is nil, clean up unused nodes
 	if d == nil {
-		currNode.Parent().RemoveChild(currNode.NodeKey())
-		t.estBufSize -= currNode.EstBufSize()
-		for currNode = currNode.Parent(); currNode.ChildSize() == 0 && currNode.Value() == nil; {
+		// keep nodes that have children or data, and the root node
+		for currNode != t.root && currNode.ChildSize() == 0 && currNode.Value() == nil {
 			currNode.Parent().RemoveChild(currNode.NodeKey())
 			t.estBufSize -= currNode.EstBufSize()
 			currNode = currNode.Parent()
@@ -837,7 +837,8 @@ func (tn *TrieNode) ChildSize() int {
 }
 
 func (tn *TrieNode) GetChild(nodeKey []byte) ITrieNode {
-	return tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	child, _ := tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	return child
 }
 
 func (tn *TrieNode) PutChild(nodeKey []byte, n ITrieNode) error {
-- 
2.43.0


From 4494c59c2409fe2490298732c75c3a56556dc2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:48 +0000
Subject: [PATCH 27/60] fix: the full key of a trie node does not include the
 keyless root

---
 src/util/trie_util.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 573621d..0f25036 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -307,8 +307,9 @@ func (tn *MappedTrieNode) FullKey() IKey {
 	}
 
 	subKeys := []([]byte){}
-	for currNode := tn; currNode != nil; currNode = currNode.parent.(*MappedTrieNode) {
-		subKeys = append([]([]byte){currNode.nodeKey}, subKeys...)
+	var currNode ITrieNode
+	for currNode = tn; currNode.Parent() != nil; currNode = currNode.Parent() {
+		subKeys = append([]([]byte){currNode.NodeKey()}, subKeys...)
 	}
 
 	fullKey := NewKey()
@@ -808,7 +809,7 @@ func (tn *TrieNode) FullKey() IKey {
 
 	subKeys := []([]byte){}
 	var currNode ITrieNode
-	for currNode = tn; currNode != nil; currNode = currNode.Parent() {
+	for currNode = tn; currNode.Parent() != nil; currNode = currNode.Parent() {
 		subKeys = append([]([]byte){currNode.NodeKey()}, subKeys...)
 	}
 
-- 
2.43.0


From 1c8179c23df1c1db04333444302281e4077fcaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:50 +0000
Subject: [PATCH 28/60] fix: trie key iteration starts at the node of the key
 and knows when it ends

The iterator was created from the value of the key instead of its node, looked
every sub key up in the root, and had its end test inverted.
---
 src/util/trie_util.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 0f25036..d29d840 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -145,13 +145,14 @@ func (t *MappedTrie) KeyIterator(k IKey) ITrieIterator {
 	if collection.IsNil(k) || k.IsEmpty() {
 		return NewTrieKeyIterator(t.root, t.root)
 	} else {
-		node := t.Get(k)
-		if collection.IsNil(node) {
-			return &TrieKeyIterator{} // return an empty iterator
-		} else {
-			currNode := node.(ITrieNode)
-			return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
+		currNode := t.root
+		for _, subKey := range k.Key() {
+			currNode = currNode.GetChild(subKey)
+			if currNode == nil {
+				return &TrieKeyIterator{} // return an empty iterator
+			}
 		}
+		return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
 	}
 }
 
@@ -627,13 +628,14 @@ func (t *Trie) KeyIterator(k IKey) ITrieIterator {
 	if collection.IsNil(k) || k.IsEmpty() {
 		return NewTrieKeyIterator(t.root, t.root)
 	} else {
-		node := t.Get(k)
-		if collection.IsNil(node) {
-			return &TrieKeyIterator{} // return an empty iterator
-		} else {
-			currNode := node.(ITrieNode)
-			return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
+		currNode := t.root
+		for _, subKey := range k.Key() {
+			currNode = currNode.GetChild(subKey)
+			if currNode == nil {
+				return &TrieKeyIterator{} // return an empty iterator
+			}
 		}
+		return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
 	}
 }
 
@@ -1006,8 +1008,9 @@ func NewTrieKeyIterator(root, curr ITrieNode) *TrieKeyIterator {
 	if collection.IsNil(curr) {
 		result.currNode = root
 	} else {
+		child := root
 		for _, subKey := range curr.FullKey().Key() {
-			child := root.GetChild(subKey)
+			child = child.GetChild(subKey)
 			if collection.IsNil(child) {
 				panic(fmt.Sprintf("NewTrieIterator - curr node [%s] is not a child of root [%s]",
 					root.FullKey().ToString(),
@@ -1066,7 +1069,7 @@ func (i *TrieKeyIterator) HasNext() bool {
 
 	i.advance()
 
-	return collection.IsNil(i.currNode) && (collection.IsNil(i.paths) || len(i.paths) == 0)
+	return !collection.IsNil(i.currNode) || len(i.paths) != 0
 }
 
 func (i *TrieKeyIterator) Peek() (IKey, IValue) {
-- 
2.43.0


From 12b4ba010dc6a1ae9ba73759a584edee26f4f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:56 +0000
Subject: [PATCH 29/60] fix: trie range iteration yields exactly the keys of
 the range

The start and end tracking descended with the wrong sub key, skipped the root
and nodes next to the bounds, never ended on some ranges and ignored an end
whose first sub key is not in the trie. Position a key iterator at the start
and stop at the end.
---
 src/util/trie_util.go | 335 +++++-------------------------------------
 1 file changed, 35 insertions(+), 300 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index d29d840..2c6574b 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -1126,35 +1126,17 @@ func (i *TrieKeyIterator) advance() {
 ////////////////////////////////////////////////////////////////////////////////
 
 type TrieRangeIterator struct {
-	rootNode         ITrieNode
-	isRoot           bool
-	startNodes       []ITrieNode
-	startChild       []byte
-	endNodes         []ITrieNode
-	endChild         []byte
-	paths            []collection.ISortedMapIterator
-	startInitialized bool
-	endMatches       []bool
+	iter *TrieKeyIterator // iterates the keys no less than start
+	end  IKey
 }
 
 func NewTrieRangeIterator(root ITrieNode, start, end IKey) *TrieRangeIterator {
 
-	result := &TrieRangeIterator{
-		startNodes:       make([]ITrieNode, 0),
-		endNodes:         make([]ITrieNode, 0),
-		paths:            make([]collection.ISortedMapIterator, 0),
-		startInitialized: false,
-		endMatches:       make([]bool, 0),
-	}
-
 	// check root validaty
 	if collection.IsNil(root) {
 		panic("NewTrieRangeIterator - root cannot be nil")
 	} else if !root.FullKey().IsEmpty() {
 		panic("NewTrieRangeIterator - root key is not empty")
-	} else {
-		result.rootNode = root
-		result.isRoot = true
 	}
 
 	if !collection.IsNil(start) && !collection.IsNil(end) && start.Compare(end) > 0 {
@@ -1163,311 +1145,64 @@ func NewTrieRangeIterator(root ITrieNode, start, end IKey) *TrieRangeIterator {
 			end.ToString()))
 	}
 
-	// process start key
-	if collection.IsNil(start) {
-		result.startChild = nil
-	} else {
-		currNode := result.rootNode
-		for _, subKey := range start.Key() {
-			child := currNode.GetChild(subKey)
-			if !collection.IsNil(child) {
-				// result.paths = append(result.paths,
-				//    currNode.Children().RangeIterator(collection.NewComparableByteSlice(subKey), nil))
-				result.startNodes = append(result.startNodes, child)
-				currNode = child
-			} else {
-				result.startChild = subKey
-				break
-			}
-		}
+	result := &TrieRangeIterator{
+		iter: &TrieKeyIterator{rootNode: root, currNode: root},
+		end:  end,
 	}
 
-	// process end key
-	if collection.IsNil(end) {
-		result.endChild = nil
-	} else {
-		currNode := result.rootNode
-		for _, subKey := range end.Key() {
-			child := currNode.GetChild(subKey)
-			if !collection.IsNil(child) {
-				result.endNodes = append(result.endNodes, child)
-				//if len(result.paths) < len(result.endNodes) {
-				result.endMatches = append(result.endMatches, false)
-				//} else if len(result.endMatches) != 0 && !result.endMatches[len(result.endMatches)-1] {
-				//	result.endMatches = append(result.endMatches, false)
-				//} else {
-				//	_, node := result.paths[len(result.endNodes)-1].Peek()
-				//	if collection.IsNil(node) ||
-				//		collection.CompareByteSlice(node.(ITrieNode).NodeKey(), child.NodeKey()) == 0 {
-				//		result.endMatches = append(result.endMatches, true)
-				//	} else {
-				//		result.endMatches = append(result.endMatches, false)
-				//	}
-				//}
-				currNode = child
-			} else {
-				result.endChild = subKey
-				break
-			}
-		}
+	if collection.IsNil(start) {
+		return result
 	}
 
-	return result
-}
-
-func (i *TrieRangeIterator) Next() (IKey, IValue) {
-
-	i.checkStart() // this method returns with last iterator after proper start key
-	i.checkEnd()   // this method by pass any unnessary last iterators if they passed end key
-
-	// if currNode has not been iterated
-	if i.isRoot {
+	// follow the start key, and leave the larger siblings on the way to be
+	// iterated after the node (and children) of the start key
+	for _, subKey := range start.Key() {
 
-		if len(i.paths) != 0 {
-			panic(fmt.Sprintf("TrieRangeIterator::Next - paths length [%d] is not 0 when currNode is not nil", len(i.paths)))
+		nodeKey := collection.NewComparableByteSlice(subKey)
+		siblings := result.iter.currNode.Children().RangeIterator(nodeKey, nil)
+		child := result.iter.currNode.GetChild(subKey)
+		if child != nil {
+			siblings.Next() // bypass the child itself
 		}
-		if len(i.startNodes) != 0 {
-			panic(fmt.Sprintf("TrieRangeIterator::Next - start nodes length [%d] is not 0 when currNode is not nil", len(i.startNodes)))
-		}
-
-		returnNode := i.rootNode
-		if returnNode.ChildSize() != 0 {
-
-			// create child iterator and add to paths
-			iter := i.rootNode.Children().Iterator()
-			i.paths = append(i.paths, iter)
-			i.isRoot = false
 
+		result.iter.paths = append(result.iter.paths, siblings)
+		result.iter.currNode = child
+		if child == nil {
+			break
 		}
-
-		i.checkEnd() // this method by pass any unnessary last iterators if they passed end key
-		return returnNode.FullKey(), returnNode.Value()
 	}
 
-	// we are here if root node has been iterated
-	// check iterator paths
-	for i.paths != nil && len(i.paths) != 0 {
-
-		lastIter := i.paths[len(i.paths)-1]
-		if lastIter.HasNext() {
-
-			_, data := lastIter.Next()
-
-			returnNode := data.(ITrieNode)
-			if returnNode.ChildSize() != 0 {
-
-				iter := returnNode.Children().Iterator() // it is not possible to be here and have child iterator with start key
-				i.paths = append(i.paths, iter)
-			}
-
-			i.checkEnd() // this method by pass any unnessary last iterators if they passed end key
-			return returnNode.FullKey(), returnNode.Value()
-		}
-	}
-
-	return nil, nil
-}
-
-func (i *TrieRangeIterator) HasNext() bool {
-
-	i.checkStart()
-	i.checkEnd()
-
-	return i.isRoot || len(i.paths) != 0
+	return result
 }
 
-func (i *TrieRangeIterator) Peek() (IKey, IValue) {
-
-	i.checkStart() // this method returns with last iterator after proper start key
-	i.checkEnd()   // this method by pass any unnessary last iterators if they passed end key
-
-	// if currNode has not been iterated
-	if i.isRoot {
-
-		if len(i.paths) != 0 {
-			panic(fmt.Sprintf("TrieRangeIterator::Peek - paths length [%d] is not 0 when currNode is not nil", len(i.paths)))
-		}
-		if len(i.startNodes) != 0 {
-			panic(fmt.Sprintf("TrieRangeIterator::Peek - start nodes length [%d] is not 0 when currNode is not nil", len(i.startNodes)))
-		}
-
-		returnNode := i.rootNode
-		return returnNode.FullKey(), returnNode.Value()
-	}
-
-	// we are here if root node has been iterated
-	// check iterator paths
-	for i.paths != nil && len(i.paths) != 0 {
-
-		lastIter := i.paths[len(i.paths)-1]
-		if lastIter.HasNext() {
-
-			_, data := lastIter.Peek()
+func (i *TrieRangeIterator) Next() (IKey, IValue) {
 
-			returnNode := data.(ITrieNode)
-			return returnNode.FullKey(), returnNode.Value()
-		}
+	if !i.HasNext() {
+		return nil, nil
 	}
 
-	return nil, nil
+	return i.iter.Next()
 }
 
-func (i *TrieRangeIterator) checkStart() {
+func (i *TrieRangeIterator) HasNext() bool {
 
-	if i.startInitialized {
-		return
+	if !i.iter.HasNext() {
+		return false
 	}
 
-	if len(i.startNodes) == 0 {
-
-		if collection.IsNil(i.startChild) {
-			i.startInitialized = true
-			return
-		}
-
-		if i.isRoot && i.rootNode.ChildSize() != 0 {
-			// create child iterator and add to paths
-			iter := i.rootNode.Children().RangeIterator(collection.NewComparableByteSlice(i.startChild), nil)
-			i.paths = append(i.paths, iter)
-			i.isRoot = false
-		}
-
-	} else {
-
-		if i.isRoot && i.rootNode.ChildSize() != 0 {
-			// create child iterator and add to paths
-			iter := i.rootNode.Children().RangeIterator(collection.NewComparableByteSlice(i.startNodes[0].NodeKey()), nil)
-			i.paths = append(i.paths, iter)
-			i.isRoot = false
-		}
+	if collection.IsNil(i.end) {
+		return true
 	}
 
-	i.startInitialized = true
-	for len(i.paths) != 0 && len(i.startNodes) >= len(i.paths) {
-
-		lastIter := i.paths[len(i.paths)-1]
-		_, node := lastIter.Peek()
-
-		comp := collection.CompareByteSlice(node.(ITrieNode).NodeKey(), i.startNodes[len(i.paths)-1].NodeKey())
-		if comp < 0 {
-
-			panic(fmt.Sprintf("TrieRangeIterator::checkStart - unexpected node [%v], less than but not matching start key [%v]",
-				node.(ITrieNode).FullKey().ToString(),
-				i.startNodes[len(i.paths)-1].FullKey().ToString()))
-
-		} else if comp == 0 {
-
-			if len(i.startNodes) < len(i.paths) {
-
-				panic(fmt.Sprintf("TrieRangeIterator::checkStart - unexpected paths len [%d], greater than start nodes [%d]",
-					len(i.paths),
-					len(i.startNodes)))
-
-			} else if len(i.startNodes) == len(i.paths) {
-
-				if collection.IsNil(i.startChild) {
-					return // iterate this node, as it matches start key, and there are no child key
-				} else {
-					_, node = lastIter.Next() // bypass this node, as it matches start key, and child key exist
-					childIter := node.(ITrieNode).Children().RangeIterator(
-						collection.NewComparableByteSlice(i.startChild),
-						nil)
-					i.paths = append(i.paths, childIter)
-					return
-				}
-
-			} else {
-
-				_, node = lastIter.Next() // bypass this node, as it matches start key, and child node(s) exist
-				childIter := node.(ITrieNode).Children().RangeIterator(
-					collection.NewComparableByteSlice(i.startNodes[len(i.paths)-1].NodeKey()),
-					nil)
-				i.paths = append(i.paths, childIter)
-				// continue loop
-
-			}
-
-		} else { // comp > 0
-
-			return
-
-		}
-	}
+	key, _ := i.iter.Peek()
+	return key.Compare(i.end) < 0
 }
 
-func (i *TrieRangeIterator) checkEnd() {
-
-	if len(i.endNodes) != len(i.endMatches) {
-		panic(fmt.Sprintf("TrieRangeIterator::checkEnd - endNodes len [%d] does not match endMatches [%d]",
-			len(i.endNodes),
-			len(i.endMatches)))
-	}
-
-	if len(i.endNodes) == 0 {
-		return
-	}
+func (i *TrieRangeIterator) Peek() (IKey, IValue) {
 
-	if i.isRoot {
-		//panic("TrieRangeIterator::checkEnd - isRoot set!")
-		return
+	if !i.HasNext() {
+		return nil, nil
 	}
 
-	for len(i.paths) != 0 && len(i.endNodes) >= len(i.paths) {
-
-		lastIter := i.paths[len(i.paths)-1]
-		if !lastIter.HasNext() {
-			i.paths = i.paths[:len(i.paths)-1] // destack if no more element left
-			continue                           // continue to next loop
-		}
-
-		if len(i.paths) != 1 && !i.endMatches[len(i.paths)-2] {
-			return // iterate this node, as some of previous end node(s) does not match
-		}
-
-		// we are here if all previous end node(s) match(es)
-		_, node := i.paths[len(i.paths)-1].Peek()
-		if collection.IsNil(node) {
-			panic("TrieRangeIterator::checkEnd - unexpected nil node from iterator")
-		}
-
-		comp := collection.CompareByteSlice(node.(ITrieNode).NodeKey(), i.endNodes[len(i.paths)-1].NodeKey())
-		if comp > 0 {
-
-			i.endMatches[len(i.paths)-1] = true
-			i.paths = i.paths[:len(i.paths)-1]
-			continue // next loop
-
-		} else if comp == 0 {
-
-			i.endMatches[len(i.paths)-1] = true
-			if len(i.paths) > len(i.endNodes) {
-
-				panic(fmt.Sprintf("TrieRangeIterator::checkEnd - unexpected paths len [%d], greater than end nodes [%d]",
-					len(i.paths),
-					len(i.endNodes)))
-
-			} else if len(i.paths) == len(i.endNodes) {
-
-				if collection.IsNil(i.endChild) {
-
-					i.paths = i.paths[:len(i.paths)-1] // bypass this node, this node matches full end key, (no child)
-					continue                           // next loop
-
-				} else {
-
-					return // iterate this node, this node does not match full end key, child exist
-				}
-
-			} else { // len(i.paths) < len(i.endNodes)
-
-				return // iterate this node, this node does not match ffull end key, child exist
-			}
-
-		} else { // comp < 0
-
-			i.endMatches[len(i.paths)-1] = false // iterate this node, as more element exists
-			return                               // just return
-		}
-
-	}
+	return i.iter.Peek()
 }
-- 
2.43.0


From 190370903c1537c76f0d19196b8cadc12bcec72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:12 +0000
Subject: [PATCH 30/60] fix: an encoded trie decodes to the same trie

The dummy node that ends a list of children could not be told from a node
with an empty key, the root was rejected, nil data was written as nothing,
and the parent offset and child size were never checked.
---
 src/util/trie_util.go | 155 ++++++++++++++++++++++++------------------
 1 file changed, 87 insertions(+), 68 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 2c6574b..425634c 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -78,8 +78,6 @@ type MappedTrie struct {
 	// elements
 	root ITrieNode
 	size int
-	// hidden field
-	known_nodes map[uint32]ITrieNode
 }
 
 ////////////////////////////////////////
@@ -191,9 +189,7 @@ func (t *MappedTrie) IsDecoded() bool {
 func (t *MappedTrie) Decode(IContext) (int, error) {
 
 	// initial setup
-	t.known_nodes = map[uint32]ITrieNode{}                                                   // clear known knows
-	t.root = &MappedTrieNode{parent: nil, buf: t.buf, offset: 0, known_nodes: t.known_nodes} // start with root node
-	t.known_nodes[0] = t.root                                                                // add myself
+	t.root = &MappedTrieNode{parent: nil, buf: t.buf, offset: 0} // start with root node
 
 	pos, err := t.root.Decode(nil)
 	if err != nil {
@@ -202,13 +198,17 @@ func (t *MappedTrie) Decode(IContext) (int, error) {
 
 	currNode := (t.root).(*MappedTrieNode)
 	for {
-		node := &MappedTrieNode{parent: currNode, buf: t.buf[pos:], offset: uint32(pos), known_nodes: t.known_nodes}
+		node := &MappedTrieNode{parent: currNode, buf: t.buf[pos:], offset: uint32(pos)}
 		length, err := node.Decode(nil)
 		if err != nil {
 			return 0, fmt.Errorf("MappedTrie::Decode - pos [%d] %s", pos, err)
 		}
 		pos += length
 		if node.dummy {
+			if currNode.childSize != currNode.ChildSize() {
+				return 0, fmt.Errorf("MappedTrie::Decode - pos [%d] child size [%d] does not match [%d]",
+					pos, currNode.ChildSize(), currNode.childSize)
+			}
 			if currNode == t.root {
 				break // we have completed processing
 			} else {
@@ -219,8 +219,7 @@ func (t *MappedTrie) Decode(IContext) (int, error) {
 		}
 	}
 
-	// TODO - use size for validation
-
+	t.buf = t.buf[:pos]
 	t.decoded = true
 
 	return pos, nil
@@ -279,20 +278,19 @@ type MappedTrieNode struct {
 	children  *collection.SortedMap
 	childSize int // for verification only
 	// hidden fields
-	dummy       bool
-	known_nodes map[uint32]ITrieNode
+	dummy bool
 }
 
 ////////////////////////////////////////
 // constructor
 
-func NewMappedTrieNode(parent ITrieNode, buf []byte, offset uint32, known_nodes map[uint32]ITrieNode) (*MappedTrieNode, int, error) {
+func NewMappedTrieNode(parent ITrieNode, buf []byte, offset uint32) (*MappedTrieNode, int, error) {
 
-	result := &MappedTrieNode{parent: parent, buf: buf, offset: offset, children: collection.NewSortedMap(), known_nodes: known_nodes}
+	result := &MappedTrieNode{parent: parent, buf: buf, offset: offset}
 
 	length, err := result.Decode(nil)
 	if err != nil {
-		fmt.Errorf("NewMappedTrieNode - %s", err)
+		return nil, length, fmt.Errorf("NewMappedTrieNode - %s", err)
 	}
 
 	return result, length, nil
@@ -423,12 +421,19 @@ func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 
 	pos := 0
 
+	if len(tn.buf) == 0 {
+		return 0, fmt.Errorf("MappedTrieNode::Decode - missing node")
+	}
+
 	// check if this is a dummy Trie Node
 	isDummy, isDummyN, err := DecodeUvarint64(tn.buf[pos:])
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - dummy - %s", err)
 	}
 	if isDummy == 0 {
+		if tn.parent == nil {
+			return 0, fmt.Errorf("MappedTrieNode::Decode - missing root node")
+		}
 		tn.dummy = true
 		tn.decoded = true
 		return isDummyN, nil
@@ -439,8 +444,8 @@ func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 	nodeKey, nodeKeyN, err := DecodeVarchar(tn.buf[pos:])
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - nodeKey - %s", err)
-	} else if nodeKey == nil || len(nodeKey) == 0 {
-		return 0, fmt.Errorf("MappedTrieNode::Decode - empty nodeKey")
+	} else if (len(nodeKey) == 0) != (tn.parent == nil) {
+		return 0, fmt.Errorf("MappedTrieNode::Decode - only the root node has empty nodeKey")
 	}
 	tn.nodeKey = nodeKey
 	pos += nodeKeyN
@@ -450,24 +455,26 @@ func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - parent offset - %s", err)
 	}
-	parent := tn.known_nodes[uint32(parentOffset)]
-	if parent == nil {
-		return 0, fmt.Errorf("MappedTrieNode::Decode - parent node not found [%d]", parentOffset)
-	} else {
-		tn.parent = parent
-		pos += parentN
+	if tn.parent != nil && parentOffset != uint64(tn.parent.Offset()) {
+		return 0, fmt.Errorf("MappedTrieNode::Decode - parent offset [%d] does not match [%d]", parentOffset, tn.parent.Offset())
 	}
+	pos += parentN
 
 	// data
-	nodeValue, nodeValueN, err := NewSimpleMappedValue(tn.buf[pos:])
+	nodeValue, nodeValueN, err := NewStandardMappedValue(tn.buf[pos:])
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - data - %s", err)
 	}
-	tn.nodeValue = nodeValue
+	if !nodeValue.IsNil() {
+		tn.nodeValue = nodeValue
+	}
 	pos += nodeValueN
 
 	// child size
-	childSize, childSizeN, err := DecodeUvarint64(tn.buf)
+	if len(tn.buf) <= pos {
+		return 0, fmt.Errorf("MappedTrieNode::Decode - missing child size")
+	}
+	childSize, childSizeN, err := DecodeUvarint64(tn.buf[pos:])
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - child size - %s", err)
 	}
@@ -475,8 +482,12 @@ func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 	pos += childSizeN
 
 	// we are here if parsing has completed successfully
-	parent.(*MappedTrieNode).children.Put(collection.NewComparableByteSlice(nodeKey), tn) // update pointer in parent
-	tn.known_nodes[tn.offset] = tn                                                        // update known nodes
+	tn.children = collection.NewSortedMap()
+	tn.buf = tn.buf[:pos]
+	tn.decoded = true
+	if tn.parent != nil {
+		tn.parent.Children().Put(collection.NewComparableByteSlice(nodeKey), tn) // update pointer in parent
+	}
 
 	return pos, nil
 }
@@ -497,10 +508,18 @@ func (tn *MappedTrieNode) Copy() IEncodable {
 	buf := make([]byte, len(tn.buf))
 	copy(buf, tn.buf)
 
-	result := &MappedTrieNode{buf: buf, offset: tn.offset, known_nodes: tn.known_nodes}
-	_, err := result.Decode(nil)
-	if err != nil {
-		panic(fmt.Sprintf("MappedTrieNode::Copy - unexpected error %s", err))
+	// the copy has neither parent nor children
+	result := &MappedTrieNode{
+		decoded:   tn.decoded,
+		buf:       buf,
+		offset:    tn.offset,
+		nodeKey:   append([]byte{}, tn.nodeKey...),
+		childSize: tn.childSize,
+		children:  collection.NewSortedMap(),
+		dummy:     tn.dummy,
+	}
+	if tn.nodeValue != nil {
+		result.nodeValue = tn.nodeValue.Copy().(IValue)
 	}
 
 	return result
@@ -580,6 +599,8 @@ func (t *Trie) Get(k IKey) IValue {
 
 func (t *Trie) Set(k IKey, d IValue) IValue {
 
+	t.encoded = false
+
 	// set root data is key is nil
 	if k.IsEmpty() {
 		resultValue := t.root.Value()
@@ -669,53 +690,37 @@ func (t *Trie) IsEncoded() bool {
 
 func (t *Trie) Encode(ctx IContext) error {
 
-	buf := make([]byte, t.EstBufSize())
-	pos := 0
+	buf := make([]byte, 0, t.EstBufSize())
 
 	// encode root node
-	t.root.SetOffset(uint32(pos))
-	t.root.Encode(ctx)
-	if len(buf) > pos+len(t.root.Buf()) {
-		copy(buf[pos:], t.root.Buf())
-	} else {
-		buf = append(buf[:pos], t.root.Buf()...)
+	t.root.SetOffset(uint32(len(buf)))
+	if err := t.root.Encode(ctx); err != nil {
+		return fmt.Errorf("Trie::Encode - %s", err)
 	}
-	pos += len(t.root.Buf())
+	buf = append(buf, t.root.Buf()...)
 
 	// encode children
 	iterList := []collection.ISortedMapIterator{t.root.Children().Iterator()}
-	for lastIter := iterList[len(iterList)-1]; len(iterList) != 0; {
+	for len(iterList) != 0 {
+		lastIter := iterList[len(iterList)-1]
 		if lastIter.HasNext() {
 
 			// get next node, and encode
 			_, data := lastIter.Next()
-			node := data.(*TrieNode)
-			node.SetOffset(uint32(pos))
-			node.Encode(ctx)
-
-			// encode node
-			if len(buf) > pos+len(node.Buf()) {
-				copy(buf[pos:], node.Buf())
-			} else {
-				buf = append(buf[:pos], node.Buf()...)
+			node := data.(ITrieNode)
+			node.SetOffset(uint32(len(buf)))
+			if err := node.Encode(ctx); err != nil {
+				return fmt.Errorf("Trie::Encode - %s", err)
 			}
-			pos += len(node.Buf())
+			buf = append(buf, node.Buf()...)
 
-			// check if children exist
-			if node.ChildSize() != 0 {
-				iterList = append(iterList, node.Children().Iterator())
-				lastIter = iterList[len(iterList)-1]
-			}
+			// continue with the children
+			iterList = append(iterList, node.Children().Iterator())
 
 		} else {
 
 			// encode dummy node
-			if len(buf) > pos+1 {
-				buf[pos] = byte(0x00)
-			} else {
-				buf = append(buf[:pos], byte(0x00))
-			}
-			pos += 1
+			buf = append(buf, byte(0x00))
 
 			// destack
 			iterList = iterList[:len(iterList)-1]
@@ -724,6 +729,7 @@ func (t *Trie) Encode(ctx IContext) error {
 
 	// we are here if encoding has completed successfully
 	t.buf = buf
+	t.encoded = true
 	return nil
 }
 
@@ -884,30 +890,43 @@ func (tn *TrieNode) IsEncoded() bool {
 
 func (tn *TrieNode) Encode(IContext) error {
 
+	// mark that this is not a dummy node
+	nodeMarkBuf := EncodeUvarint64(1)
+
 	// node key
 	nodeKeyBuf := EncodeVarchar(tn.nodeKey)
 
 	// parent offset
-	parentOffsetBuf := EncodeUvarint64(uint64(tn.parent.Offset()))
+	parentOffset := uint32(0)
+	if tn.parent != nil {
+		parentOffset = tn.parent.Offset()
+	}
+	parentOffsetBuf := EncodeUvarint64(uint64(parentOffset))
 
 	// data
-	err := tn.data.Encode(false)
-	if err != nil {
-		return fmt.Errorf("TrieNode::Encode - data encode error %v", err)
+	dataBuf := []byte{0x00}
+	if tn.data != nil && !tn.data.IsNil() {
+		// mapped data is always encoded
+		if err := tn.data.Encode(nil); err != nil && !tn.data.IsEncoded() {
+			return fmt.Errorf("TrieNode::Encode - data encode error %v", err)
+		}
+		dataBuf = tn.data.Buf()
 	}
 
 	// child size
 	childSizeBuf := EncodeUvarint64(uint64(tn.children.Size()))
 
-	tn.buf = make([]byte, len(nodeKeyBuf)+len(parentOffsetBuf)+len(tn.data.Buf())+len(childSizeBuf))
+	tn.buf = make([]byte, len(nodeMarkBuf)+len(nodeKeyBuf)+len(parentOffsetBuf)+len(dataBuf)+len(childSizeBuf))
 
 	pos := 0
+	copy(tn.buf[pos:], nodeMarkBuf)
+	pos += len(nodeMarkBuf)
 	copy(tn.buf[pos:], nodeKeyBuf)
 	pos += len(nodeKeyBuf)
 	copy(tn.buf[pos:], parentOffsetBuf)
 	pos += len(parentOffsetBuf)
-	copy(tn.buf[pos:], tn.data.Buf())
-	pos += len(tn.data.Buf())
+	copy(tn.buf[pos:], dataBuf)
+	pos += len(dataBuf)
 	copy(tn.buf[pos:], childSizeBuf)
 	pos += len(childSizeBuf)
 
-- 
2.43.0


From 8e18d69a1f48087e552517da5274c906f3bcfc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:58 +0000
Subject: [PATCH 31/60] fix: copying a trie copies its entries

---
 src/util/trie_util.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 425634c..149e5b7 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -746,11 +746,12 @@ func (t *Trie) Decode(IContext) (int, error) {
 
 func (t *Trie) Copy() IEncodable {
 
-	buf := make([]byte, len(t.buf))
-	copy(buf, t.buf)
-	result, _, err := NewMappedTrie(buf)
-	if err != nil {
-		panic(fmt.Sprintf("MappedTrie::Copy - unexpected error %s", err))
+	result := NewTrie()
+	for iter := t.Iterator(); iter.HasNext(); {
+		key, value := iter.Next()
+		if value != nil {
+			result.Set(key, value.Copy().(IValue))
+		}
 	}
 
 	return result
-- 
2.43.0


From 5d9df595def7ee4b2770f887ca20fa379bc9ee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:53 +0000
Subject: [PATCH 32/60] fix: copying a key copies its bytes

---
 src/util/key_util.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 1033dea..eb74626 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -250,7 +250,9 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 }
 
 func (k *MappedKey) Copy() IEncodable {
-	result, _, err := NewMappedKey(k.buf)
+	buf := make([]byte, len(k.buf))
+	copy(buf, k.buf)
+	result, _, err := NewMappedKey(buf)
 	if err != nil {
 		panic(fmt.Errorf("MappedKey::Copy - unexpected failure %s", err))
 	}
@@ -263,7 +265,7 @@ func (k *MappedKey) CopyConstruct() (IEncodable, error) {
 	result := NewKey()
 
 	for _, key := range k.Key() {
-		result.Add(key)
+		result.Add(append([]byte{}, key...))
 	}
 
 	return result, nil
@@ -450,7 +452,7 @@ func (k *Key) Copy() IEncodable {
 	result := NewKey()
 
 	for _, key := range k.Key() {
-		result.Add(key)
+		result.Add(append([]byte{}, key...))
 	}
 
 	return result
@@ -461,7 +463,7 @@ func (k *Key) CopyConstruct() (IEncodable, error) {
 	result := NewKey()
 
 	for _, key := range k.Key() {
-		result.Add(key)
+		result.Add(append([]byte{}, key...))
 	}
 
 	return result, nil
-- 
2.43.0


From 57b661e4177480b3e77c49f48b2df3c56c0769b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:35 +0000
Subject: [PATCH 33/60] fix: perfect hash construction with the empty key
 terminates

---
 src/util/key_util.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index eb74626..ff48f9b 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -118,8 +118,7 @@ func (k *EmptyKey) Compare(c collection.IComparable) int {
 }
 
 func (k *EmptyKey) HashUint32(f func([]byte) uint32) uint32 {
-	hashValue := uint32(0)
-	return hashValue
+	return f([]byte{}) // depends on the hash function as the hash of any other key
 }
 
 func (k *EmptyKey) Print(w io.Writer, indent int) {
@@ -326,6 +325,10 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 }
 
 func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
+	if len(k.keys) == 0 {
+		return f([]byte{}) // same as EmptyKey
+	}
+
 	hashValue := uint32(0)
 	for _, key := range k.keys {
 		hashValue = hashValue*16777619 ^ f(key) // depends on subKey order
@@ -470,6 +473,10 @@ func (k *Key) CopyConstruct() (IEncodable, error) {
 }
 
 func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
+	if len(k.keys) == 0 {
+		return f([]byte{}) // same as EmptyKey
+	}
+
 	hashValue := uint32(0)
 	for _, key := range k.keys {
 		hashValue = hashValue*16777619 ^ f(key) // depends on subKey order
-- 
2.43.0


From 309b127bac5f728a48e1c16b8b536493fd8b1dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:40 +0000
Subject: [PATCH 34/60] fix: a nil comparable slice does not equal an empty one

---
 src/collection/comparable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collection/comparable.go b/src/collection/comparable.go
index 6b2afe0..6121150 100644
--- a/src/collection/comparable.go
+++ b/src/collection/comparable.go
@@ -65,7 +65,7 @@ func (s *ComparableSlice) Equal(t IObject) bool {
 	// convert to ComparableSlice
 	th := t.(*ComparableSlice)
 
-	if len(s.slice) != len(th.slice) {
+	if (s.slice == nil) != (th.slice == nil) || len(s.slice) != len(th.slice) {
 		return false
 	}
 
-- 
2.43.0


From 4c56691a50baac605d83afcc629814c2fb9d2b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:40 +0000
Subject: [PATCH 35/60] fix: a value announcing more elements than content
 bytes is an error

---
 src/util/value_util.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 2251bac..21900e1 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -411,7 +411,6 @@ func (d *StandardMappedValue) Decode(IContext) (int, error) {
 		}
 		format_is_set = true
 		d.size = uint16(d.buf[pos])
-		d.data_array = make([]IValue, d.size)
 		pos += 1
 	case 0x02:
 		if len(d.buf) < 2+int(pos) {
@@ -419,7 +418,6 @@ func (d *StandardMappedValue) Decode(IContext) (int, error) {
 		}
 		format_is_set = true
 		d.size = binary.BigEndian.Uint16(d.buf[pos:])
-		d.data_array = make([]IValue, d.size)
 		pos += 2
 	case 0x03:
 		return 0, fmt.Errorf("StandardMappedValue::Decode - invalid magic - data array: %x", d.buf[0])
@@ -439,7 +437,6 @@ func (d *StandardMappedValue) Decode(IContext) (int, error) {
 		}
 		format_is_set = true
 		d.size = uint16(d.buf[pos])
-		d.record_list = make([]IRecord, d.size)
 		pos += 1
 	case 0x02:
 		if format_is_set {
@@ -450,7 +447,6 @@ func (d *StandardMappedValue) Decode(IContext) (int, error) {
 		}
 		format_is_set = true
 		d.size = binary.BigEndian.Uint16(d.buf[pos:])
-		d.record_list = make([]IRecord, d.size)
 		pos += 2
 	case 0x03:
 		return 0, fmt.Errorf("StandardMappedValue::Decode - invalid magic [%x] - record list", d.buf[0])
@@ -503,6 +499,17 @@ func (d *StandardMappedValue) Decode(IContext) (int, error) {
 		return 0, fmt.Errorf("StandardMappedValue::Decode - invalid magic [%x] - length ", d.buf[0])
 	}
 
+	if d.size > content_length {
+		// each element takes at least one byte
+		return 0, fmt.Errorf("StandardMappedValue::Decode - size [%d] bigger than content length [%d]", d.size, content_length)
+	}
+
+	if data_array_bits != 0 {
+		d.data_array = make([]IValue, d.size)
+	} else if record_list_bits != 0 {
+		d.record_list = make([]IRecord, d.size)
+	}
+
 	d.content = d.buf[pos-int(content_length) : pos]
 	d.buf = d.buf[:pos]
 	d.decoded = true
-- 
2.43.0


From f5e7dd9f3b03b0755425add702afc7cc6a503b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:57 +0000
Subject: [PATCH 36/60] fix: perfect hash construction with repeated sub keys
 terminates

---
 src/util/key_util.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index ff48f9b..785b68e 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -329,10 +329,27 @@ func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
 		return f([]byte{}) // same as EmptyKey
 	}
 
+	return hashSubKeys(k.keys, f)
+}
+
+// combine the hashes of subKeys, the result depends on subKey order
+func hashSubKeys(keys [][]byte, f func([]byte) uint32) uint32 {
+	if len(keys) == 1 {
+		return f(keys[0])
+	}
+
 	hashValue := uint32(0)
-	for _, key := range k.keys {
-		hashValue = hashValue*16777619 ^ f(key) // depends on subKey order
+	for _, key := range keys {
+		hashValue = hashValue*16777619 ^ f(key)
 	}
+
+	// the lower bits alone do not tell keys apart, e.g. when a subKey repeats,
+	// and hash tables use the lower bits only
+	hashValue ^= hashValue >> 16
+	hashValue *= 0x85ebca6b
+	hashValue ^= hashValue >> 13
+	hashValue *= 0xc2b2ae35
+	hashValue ^= hashValue >> 16
 	return hashValue
 }
 
@@ -477,11 +494,7 @@ func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
 		return f([]byte{}) // same as EmptyKey
 	}
 
-	hashValue := uint32(0)
-	for _, key := range k.keys {
-		hashValue = hashValue*16777619 ^ f(key) // depends on subKey order
-	}
-	return hashValue
+	return hashSubKeys(k.keys, f)
 }
 
 func (k *Key) Equal(o collection.IObject) bool {
-- 
2.43.0


From f4a43e051e95fd9c7dfff81229a6ba356599d289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:46 +0000
Subject: [PATCH 37/60] fix: a public key file without a whole key is an error

---
 src/util/lc_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index e25cd46..71e0abf 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -263,6 +263,10 @@ func lc_load_pub_key(cls int, id string) (*ecdsa.PublicKey, error) {
 		return nil, err
 	}
 
+	if len(data) != 32 {
+		return nil, fmt.Errorf("[%s] invalid pub key length %d", filepath, len(data))
+	}
+
 	return ECDSAGetPublicKey(data), nil
 }
 
-- 
2.43.0


From 223c55e2b5e6525f0ef535610f0d782a94539798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:59 +0000
Subject: [PATCH 38/60] fix: the magic of an empty simple value does not panic

---
 src/util/value_util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 21900e1..e095b28 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -121,6 +121,11 @@ func (d *SimpleMappedValue) Value() []byte {
 // encoding, decoding, and buf
 
 func (d *SimpleMappedValue) ValueMagic() byte {
+	// an empty buf is an empty value
+	if len(d.buf) == 0 {
+		return 0x00
+	}
+
 	return d.buf[0]
 }
 
-- 
2.43.0


From ae8dbac037be692744e2807d1e22b0f6e5c85334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 39/60] fix: copying a key decoded with an empty sub key does
 not panic

---
 src/util/key_util.go | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 785b68e..ca7b30f 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -261,13 +261,7 @@ func (k *MappedKey) Copy() IEncodable {
 
 func (k *MappedKey) CopyConstruct() (IEncodable, error) {
 
-	result := NewKey()
-
-	for _, key := range k.Key() {
-		result.Add(append([]byte{}, key...))
-	}
-
-	return result, nil
+	return copyKey(k), nil
 }
 
 func (k *MappedKey) Equal(o collection.IObject) bool {
@@ -389,6 +383,19 @@ func NewKey() *Key {
 	return &Key{keys: []([]byte){}, buf: nil, estBufSize: 1}
 }
 
+// copy of any key, including keys decoded or constructed with an empty sub key
+func copyKey(k IKey) *Key {
+
+	result := NewKey()
+
+	for _, subKey := range k.Key() {
+		result.keys = append(result.keys, append([]byte{}, subKey...))
+		result.estBufSize += 1 + len(subKey)
+	}
+
+	return result
+}
+
 func NewSimpleKey(simpleKey []byte) *Key {
 	return &Key{keys: []([]byte){simpleKey}, buf: nil, estBufSize: 2 + len(simpleKey)}
 }
@@ -469,24 +476,12 @@ func (k *Key) Decode(IContext) (int, error) {
 
 func (k *Key) Copy() IEncodable {
 
-	result := NewKey()
-
-	for _, key := range k.Key() {
-		result.Add(append([]byte{}, key...))
-	}
-
-	return result
+	return copyKey(k)
 }
 
 func (k *Key) CopyConstruct() (IEncodable, error) {
 
-	result := NewKey()
-
-	for _, key := range k.Key() {
-		result.Add(append([]byte{}, key...))
-	}
-
-	return result, nil
+	return copyKey(k), nil
 }
 
 func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
-- 
2.43.0


From 352a1917bbc0f2bd1826c3d3ab5c88f6deb12f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:27 +0000
Subject: [PATCH 40/60] fix: the modifiable copy of the empty key is modifiable

---
 src/util/key_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index ca7b30f..b014c2f 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -83,7 +83,7 @@ func (k *EmptyKey) Copy() IEncodable {
 }
 
 func (k *EmptyKey) CopyConstruct() (IEncodable, error) {
-	return NewEmptyKey(), nil
+	return NewKey(), nil // modifiable
 }
 
 func (k *EmptyKey) Equal(o collection.IObject) bool {
-- 
2.43.0


From 1a6f08472ef3b2eed96b43a1dfe37bd5a6d7e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:29 +0000
Subject: [PATCH 41/60] fix: the copy of a trie does not share its keys with
 the original

---
 src/util/trie_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 149e5b7..272f1da 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -750,7 +750,7 @@ func (t *Trie) Copy() IEncodable {
 	for iter := t.Iterator(); iter.HasNext(); {
 		key, value := iter.Next()
 		if value != nil {
-			result.Set(key, value.Copy().(IValue))
+			result.Set(key.Copy().(IKey), value.Copy().(IValue))
 		}
 	}
 
-- 
2.43.0


From be492b223a6240a0e1dbb400dda418ebda2c98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:30 +0000
Subject: [PATCH 42/60] fix: encoding a trie reports a value that does not
 encode

---
 src/util/trie_util.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 272f1da..4505a0b 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -907,9 +907,13 @@ func (tn *TrieNode) Encode(IContext) error {
 	// data
 	dataBuf := []byte{0x00}
 	if tn.data != nil && !tn.data.IsNil() {
-		// mapped data is always encoded
-		if err := tn.data.Encode(nil); err != nil && !tn.data.IsEncoded() {
-			return fmt.Errorf("TrieNode::Encode - data encode error %v", err)
+		switch tn.data.(type) {
+		case *SimpleMappedValue, *StandardMappedValue:
+			// mapped data is always encoded
+		default:
+			if err := tn.data.Encode(nil); err != nil {
+				return fmt.Errorf("TrieNode::Encode - data encode error %v", err)
+			}
 		}
 		dataBuf = tn.data.Buf()
 	}
-- 
2.43.0


From 24593f257eb64ca6ca4b2a8673abe30e278072b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:21 +0000
Subject: [PATCH 43/60] fix: the modifiable copy of a trie has modifiable
 values

---
 src/util/trie_util.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 4505a0b..c8a87d1 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -758,7 +758,20 @@ func (t *Trie) Copy() IEncodable {
 }
 
 func (t *Trie) CopyConstruct() (IEncodable, error) {
-	return t.Copy(), nil
+
+	result := NewTrie()
+	for iter := t.Iterator(); iter.HasNext(); {
+		key, value := iter.Next()
+		if value != nil {
+			valueCopy, err := value.CopyConstruct()
+			if err != nil {
+				return nil, fmt.Errorf("Trie::CopyConstruct - value error [%v]", err)
+			}
+			result.Set(key.Copy().(IKey), valueCopy.(IValue))
+		}
+	}
+
+	return result, nil
 }
 
 ////////////////////////////////////////
-- 
2.43.0


From 5066ce0de27983e2799f0587600e0d245473a222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:31 +0000
Subject: [PATCH 44/60] fix: IsNil panicked on array values

---
 src/collection/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collection/util.go b/src/collection/util.go
index 42695bc..ab00e11 100644
--- a/src/collection/util.go
+++ b/src/collection/util.go
@@ -30,7 +30,7 @@ func IsNil(i interface{}) bool {
 		return true
 	}
 	switch reflect.TypeOf(i).Kind() {
-	case reflect.Ptr, reflect.Map, reflect.Array, reflect.Chan, reflect.Slice:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Slice:
 		return reflect.ValueOf(i).IsNil()
 	}
 	return false
-- 
2.43.0


From 3dbf0683581e59d45b64b9a25cf83c3386b3bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:56 +0000
Subject: [PATCH 45/60] fix: prompted passphrases not of an AES key size were
 refused

---
 src/util/lc_util.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 71e0abf..df6afbf 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -138,7 +138,12 @@ func LCLoadPrivKeyPrompt(cls int, id string) (*ecdsa.PrivateKey, error) {
 	}
 
 	// do not keep private key in fixed memory variables
-	return lc_load_priv_key(cls, id, secret)
+	key, err := lc_load_priv_key(cls, id, lc_passphrase_secret(secret))
+	if err != nil {
+		// the passphrase itself may have been used
+		return lc_load_priv_key(cls, id, secret)
+	}
+	return key, nil
 }
 
 // ECDSA pub / priv keys for node
@@ -153,12 +158,19 @@ func LCSaveKeyPairPrompt(cls int, id string, pub_key, priv_key *big.Int) error {
 		return err
 	}
 
-	return lc_save_key_pair(cls, id, pub_key, priv_key, node_secret)
+	return lc_save_key_pair(cls, id, pub_key, priv_key, lc_passphrase_secret(node_secret))
 }
 
 ////////////////////////////////////////////////////////////////////////////////
 // Private Functions
 
+// AES key of a passphrase, as used by pkeygen
+func lc_passphrase_secret(passphrase []byte) []byte {
+	secret := make([]byte, aes.BlockSize)
+	copy(secret, passphrase)
+	return secret
+}
+
 func lc_get_etc_dir(cls int) string {
 	switch cls {
 	case CLS_NODE:
-- 
2.43.0


From 30ae0d5a8347ae2638f83549ae7cc08af2c328d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:33 +0000
Subject: [PATCH 46/60] fix: pkeygen failed on an alias linking to a missing
 key

---
 src/main/pkeygen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/pkeygen.go b/src/main/pkeygen.go
index 1a96606..7ee4fb3 100644
--- a/src/main/pkeygen.go
+++ b/src/main/pkeygen.go
@@ -12,7 +12,8 @@ import (
 )
 
 func check_path_exist(filepath string) bool {
-    _, stat_err := os.Stat(filepath)
+    // the path itself counts, also a link to a missing file
+    _, stat_err := os.Lstat(filepath)
     if os.IsNotExist(stat_err) {
         return false
     } else {
-- 
2.43.0


From ef131d11bbf84c35c4dfda8c9221576dca5577c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:19 +0000
Subject: [PATCH 47/60] fix: iterators of hash maps and sets yielded no entries

---
 src/collection/hash.go     | 36 ++++++++++++++++++++++++++++++++++++
 src/collection/hash_map.go |  2 +-
 src/collection/hash_set.go |  2 +-
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/collection/hash.go b/src/collection/hash.go
index 2cbff91..c9789d7 100644
--- a/src/collection/hash.go
+++ b/src/collection/hash.go
@@ -254,6 +254,42 @@ func (h *Hash) Iterator() IIterator {
 	return &HashIterator{hash: h, pos: 0, currNode: nil}
 }
 
+// iterator over the nodes, as used by the map and set
+type hashNodeIterator struct {
+	hash     *Hash
+	pos      int       // next slot of the array
+	currNode *HashNode // next node, if any
+}
+
+func (i *hashNodeIterator) Next() IObject {
+	if !i.HasNext() {
+		return nil
+	}
+	resultNode := &HashNode{key: i.currNode.key, value: i.currNode.value}
+	i.currNode = i.currNode.link
+	return resultNode
+}
+
+func (i *hashNodeIterator) HasNext() bool {
+	// advance to the next non-nil node
+	for i.currNode == nil && i.pos < len(i.hash.array) {
+		i.currNode = i.hash.array[i.pos]
+		i.pos += 1
+	}
+	return i.currNode != nil
+}
+
+func (i *hashNodeIterator) Peek() IObject {
+	if !i.HasNext() {
+		return nil
+	}
+	return &HashNode{key: i.currNode.key, value: i.currNode.value}
+}
+
+func (h *Hash) nodeIterator() IIterator {
+	return &hashNodeIterator{hash: h}
+}
+
 func (h *Hash) Print(w io.Writer, indent int) {
 	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"s%s\n", "", h.ToString())
 	for _, hn := range h.array {
diff --git a/src/collection/hash_map.go b/src/collection/hash_map.go
index 760c6ea..dcccb52 100644
--- a/src/collection/hash_map.go
+++ b/src/collection/hash_map.go
@@ -72,5 +72,5 @@ func (i *HashMapIterator) Peek() (IHashable, IObject) {
 }
 
 func (m *HashMap) Iterator() IHashMapIterator {
-	return &HashMapIterator{iter: m.hash.Iterator()}
+	return &HashMapIterator{iter: m.hash.nodeIterator()}
 }
diff --git a/src/collection/hash_set.go b/src/collection/hash_set.go
index 7d77ef0..d2cc413 100644
--- a/src/collection/hash_set.go
+++ b/src/collection/hash_set.go
@@ -72,5 +72,5 @@ func (i *HashSetIterator) Peek() IObject {
 }
 
 func (m *HashSet) Iterator() IIterator {
-	return &HashSetIterator{iter: m.hash.Iterator()}
+	return &HashSetIterator{iter: m.hash.nodeIterator()}
 }
-- 
2.43.0


From 155d31621d8b9170e2aafa6529e0fa2fdf5f2f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:03 +0000
Subject: [PATCH 48/60] fix: a trie encodes a simple mapped value as a value

---
 src/util/trie_util.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index c8a87d1..e79610c 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -920,15 +920,17 @@ func (tn *TrieNode) Encode(IContext) error {
 	// data
 	dataBuf := []byte{0x00}
 	if tn.data != nil && !tn.data.IsNil() {
-		switch tn.data.(type) {
-		case *SimpleMappedValue, *StandardMappedValue:
-			// mapped data is always encoded
-		default:
-			if err := tn.data.Encode(nil); err != nil {
+		data := tn.data
+		if _, simple := data.(*SimpleMappedValue); simple {
+			// the buf of a simple value is not the buf of a standard value
+			data = NewPrimitive(data.Value())
+		}
+		if _, mapped := data.(*StandardMappedValue); !mapped { // mapped data is always encoded
+			if err := data.Encode(nil); err != nil {
 				return fmt.Errorf("TrieNode::Encode - data encode error %v", err)
 			}
 		}
-		dataBuf = tn.data.Buf()
+		dataBuf = data.Buf()
 	}
 
 	// child size
-- 
2.43.0


From 5f18a2728ae05c67207c3cc4a33761650f4d75cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:59 +0000
Subject: [PATCH 49/60] fix: comparing slices of comparables panicked on nil
 elements

---
 src/collection/util.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/collection/util.go b/src/collection/util.go
index ab00e11..f7099fa 100644
--- a/src/collection/util.go
+++ b/src/collection/util.go
@@ -441,6 +441,15 @@ func CompareSlice(s1, s2 []IComparable) int {
 			return 1
 		}
 
+		// a nil element orders before any other
+		if IsNil(s1[i]) && IsNil(s2[i]) {
+			continue
+		} else if IsNil(s1[i]) {
+			return -1
+		} else if IsNil(s2[i]) {
+			return 1
+		}
+
 		compare := s1[i].Compare(s2[i])
 		if compare != 0 {
 			return compare
-- 
2.43.0


From b2a63692897e6590807a56102800ad6d2deaacbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:00 +0000
Subject: [PATCH 50/60] fix: equality of comparables panicked on nil pointers

---
 src/collection/comparable.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/collection/comparable.go b/src/collection/comparable.go
index 6121150..f687364 100644
--- a/src/collection/comparable.go
+++ b/src/collection/comparable.go
@@ -50,7 +50,7 @@ func NewComparableSlice(s []IComparable) *ComparableSlice {
 
 // return XOR of hash of each IComparable object in the slice
 func (s *ComparableSlice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -70,10 +70,10 @@ func (s *ComparableSlice) Equal(t IObject) bool {
 	}
 
 	for i := range s.slice {
-		if (s.slice[i] == nil) != (th.slice[i] == nil) {
+		if IsNil(s.slice[i]) != IsNil(th.slice[i]) {
 			return false
 		}
-		if s.slice[i] == nil {
+		if IsNil(s.slice[i]) {
 			continue
 		} else if !s.slice[i].Equal(th.slice[i]) {
 			return false
@@ -116,7 +116,7 @@ func NewComparableByteSlice(s []byte) *ComparableByteSlice {
 
 // return if two hashable byte array equals
 func (s *ComparableByteSlice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -171,7 +171,7 @@ func NewComparableInt8Slice(s []int8) *ComparableInt8Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableInt8Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -226,7 +226,7 @@ func NewComparableInt16Slice(s []int16) *ComparableInt16Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableInt16Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -281,7 +281,7 @@ func NewComparableUint16Slice(s []uint16) *ComparableUint16Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableUint16Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -336,7 +336,7 @@ func NewComparableInt32Slice(s []int32) *ComparableInt32Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableInt32Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -391,7 +391,7 @@ func NewComparableUint32Slice(s []uint32) *ComparableUint32Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableUint32Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -446,7 +446,7 @@ func NewComparableInt64Slice(s []int64) *ComparableInt64Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableInt64Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -502,7 +502,7 @@ func NewComparableUint64Slice(s []uint64) *ComparableUint64Slice {
 // return if two hashable byte array equals
 func (s *ComparableUint64Slice) Equal(t IObject) bool {
 
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
-- 
2.43.0


From cf33d6f4126fc79b84ffd2a23dde690204af36be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:00 +0000
Subject: [PATCH 51/60] fix: equality and hashing of hashables panicked on nil
 pointers

---
 src/collection/hashable.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/collection/hashable.go b/src/collection/hashable.go
index 3e76171..8ddfb03 100644
--- a/src/collection/hashable.go
+++ b/src/collection/hashable.go
@@ -53,7 +53,7 @@ func NewHashableSlice(s []IHashable) *HashableSlice {
 
 // return XOR of hash of each IHashable object in the slice
 func (s *HashableSlice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -73,10 +73,10 @@ func (s *HashableSlice) Equal(t IObject) bool {
 	}
 
 	for i := range s.slice {
-		if (s.slice[i] == nil) != (th.slice[i] == nil) {
+		if IsNil(s.slice[i]) != IsNil(th.slice[i]) {
 			return false
 		}
-		if s.slice[i] == nil {
+		if IsNil(s.slice[i]) {
 			continue
 		} else if !s.slice[i].Equal(th.slice[i]) {
 			return false
@@ -98,7 +98,7 @@ func (s *HashableSlice) HashUint32(f func([]byte) uint32) uint32 {
 
 	h := empty_hash
 	for _, obj := range s.slice {
-		if obj == nil {
+		if IsNil(obj) {
 			h ^= empty_hash
 		} else {
 			h ^= obj.HashUint32(f)
@@ -123,7 +123,7 @@ func NewHashableByteSlice(s []byte) *HashableByteSlice {
 
 // return if two hashable byte array equals
 func (s *HashableByteSlice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -170,7 +170,7 @@ func NewHashableInt16Slice(s []int16) *HashableInt16Slice {
 
 // return if two hashable byte array equals
 func (s *HashableInt16Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -219,7 +219,7 @@ func NewHashableUint16Slice(s []uint16) *HashableUint16Slice {
 
 // return if two hashable byte array equals
 func (s *HashableUint16Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -268,7 +268,7 @@ func NewHashableInt32Slice(s []int32) *HashableInt32Slice {
 
 // return if two hashable byte array equals
 func (s *HashableInt32Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -317,7 +317,7 @@ func NewHashableUint32Slice(s []uint32) *HashableUint32Slice {
 
 // return if two hashable byte array equals
 func (s *HashableUint32Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -366,7 +366,7 @@ func NewHashableInt64Slice(s []int64) *HashableInt64Slice {
 
 // return if two hashable byte array equals
 func (s *HashableInt64Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -415,7 +415,7 @@ func NewHashableUint64Slice(s []uint64) *HashableUint64Slice {
 
 // return if two hashable byte array equals
 func (s *HashableUint64Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
-- 
2.43.0


From b6e42c757164b04c9ae10b7b422ae173e2c680ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:00 +0000
Subject: [PATCH 52/60] fix: equality of keys panicked on nil pointers

---
 src/util/key_util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index b014c2f..edbc16d 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -88,7 +88,7 @@ func (k *EmptyKey) CopyConstruct() (IEncodable, error) {
 
 func (k *EmptyKey) Equal(o collection.IObject) bool {
 
-	if o == nil {
+	if collection.IsNil(o) {
 		return false
 	}
 
@@ -265,7 +265,7 @@ func (k *MappedKey) CopyConstruct() (IEncodable, error) {
 }
 
 func (k *MappedKey) Equal(o collection.IObject) bool {
-	if o == nil {
+	if collection.IsNil(o) {
 		return false
 	}
 
@@ -493,7 +493,7 @@ func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
 }
 
 func (k *Key) Equal(o collection.IObject) bool {
-	if o == nil {
+	if collection.IsNil(o) {
 		return false
 	}
 
-- 
2.43.0


From 577b924a3ca219db883f9dc9755210e45c582ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:53 +0000
Subject: [PATCH 53/60] fix: PromptText took the input of the prompts after it

---
 src/util/lc_util.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index df6afbf..832e2a9 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -1,7 +1,6 @@
 package util
 
 import (
-	"bufio"
 	"bytes"
 	"crypto/aes"
 	"crypto/cipher"
@@ -27,10 +26,19 @@ import (
 // Util Functions
 
 func PromptText(prompt string) string {
-	reader := bufio.NewReader(os.Stdin)
 	fmt.Print(prompt + " : ")
-	text, _ := reader.ReadString('\n')
-	return strings.TrimSpace(text)
+
+	// take one line only, what follows is for the next prompt
+	text := []byte{}
+	buf := make([]byte, 1)
+	for {
+		n, err := os.Stdin.Read(buf)
+		text = append(text, buf[:n]...)
+		if err != nil || (n > 0 && buf[0] == '\n') {
+			break
+		}
+	}
+	return strings.TrimSpace(string(text))
 }
 
 func PromptPassphrase(repeat bool) ([]byte, error) {
-- 
2.43.0


From cceafcfc67b60890ea493d8ad510c168bf5ccd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:53 +0000
Subject: [PATCH 54/60] fix: choosing the log file again discarded all log
 lines

---
 src/util/lc_util.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 832e2a9..34f81d2 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -85,16 +85,14 @@ func LCSetLoggerStdout() error {
 
 func LCSetLoggerFileTmp() error {
 	// if filename exist
-	var file *os.File
 	if log_file == nil {
-		var err error
-		file, err = os.OpenFile(lc_get_log_file_tmp(), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0644)
+		file, err := os.OpenFile(lc_get_log_file_tmp(), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0644)
 		if err != nil {
 			return err
 		}
 		log_file = file
 	}
-	log.SetOutput(file)
+	log.SetOutput(log_file)
 	log.SetFlags(log.Lshortfile | log.Ldate | log.Ltime | log.Lmicroseconds)
 	return nil
 }
-- 
2.43.0


From 585d20c96aa6f6426d75c99efafcbf7644e9058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:07 +0000
Subject: [PATCH 55/60] fix: leave the stored private key as it was when the
 public key cannot be written

---
 src/util/lc_util.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 34f81d2..67bc602 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -403,6 +403,9 @@ func lc_save_key_pair(cls int, id string, pub_key, priv_key *big.Int, secret []b
 
 	//fmt.Printf("%x\n", priv_data)
 
+	// remember the stored private key, in case the public key cannot be written
+	old_priv_data, old_priv_err := ioutil.ReadFile(priv_key_filepath)
+
 	priv_write_err := ioutil.WriteFile(priv_key_filepath, []byte(fmt.Sprintf("%X", priv_data)), 0600)
 	if priv_write_err != nil {
 		return priv_write_err
@@ -410,6 +413,12 @@ func lc_save_key_pair(cls int, id string, pub_key, priv_key *big.Int, secret []b
 
 	pub_write_err := ioutil.WriteFile(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
 	if pub_write_err != nil {
+		// leave the stored private key as it was
+		if old_priv_err == nil {
+			ioutil.WriteFile(priv_key_filepath, old_priv_data, 0600)
+		} else if os.IsNotExist(old_priv_err) {
+			os.Remove(priv_key_filepath)
+		}
 		return pub_write_err
 	}
 
-- 
2.43.0


From 8c73f6599f3c4075b003d2b51fbee2cba9ba4989 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:50:15 +0000
Subject: [PATCH 56/60] fix: a record was encoded with a decoded key beyond the
 size limit

---
 src/util/record_util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index 62b25a7..d706276 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -424,6 +424,8 @@ func (r *Record) Encode(IContext) error {
 		err := r.key.Encode(nil)
 		if err != nil {
 			return fmt.Errorf("Record::Encode - key error [%v]", err)
+		} else if len(r.key.Buf()) > MAX_KEY_LENGTH {
+			return fmt.Errorf("Record::Encode - key size %d larger than %d", len(r.key.Buf()), MAX_KEY_LENGTH)
 		}
 
 		buf[0] |= byte(0x01) << 6
-- 
2.43.0


From 2eab312c3f01c66ea4b9a3846b00d9a80512b60b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:50:15 +0000
Subject: [PATCH 57/60] fix: iterating a trie panicked at a key with an empty
 sub key

---
 src/util/trie_util.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index e79610c..de32b7b 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -313,7 +313,8 @@ func (tn *MappedTrieNode) FullKey() IKey {
 
 	fullKey := NewKey()
 	for _, subKey := range subKeys {
-		fullKey.Add(subKey)
+		fullKey.keys = append(fullKey.keys, subKey) // the subKey may be empty
+		fullKey.estBufSize += 1 + len(subKey)
 	}
 
 	return fullKey
@@ -837,7 +838,8 @@ func (tn *TrieNode) FullKey() IKey {
 
 	fullKey := NewKey()
 	for _, subKey := range subKeys {
-		fullKey.Add(subKey)
+		fullKey.keys = append(fullKey.keys, subKey) // the subKey may be empty
+		fullKey.estBufSize += 1 + len(subKey)
 	}
 
 	return fullKey
-- 
2.43.0


From 070897f2d428cf1bfa3eef985687aab2244f36a5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:50:15 +0000
Subject: [PATCH 58/60] fix: a trie with an empty sub key was encoded to bytes
 that do not decode

---
 src/util/trie_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index de32b7b..397bb90 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -906,6 +906,10 @@ func (tn *TrieNode) IsEncoded() bool {
 
 func (tn *TrieNode) Encode(IContext) error {
 
+	if tn.parent != nil && len(tn.nodeKey) == 0 {
+		return fmt.Errorf("TrieNode::Encode - only the root node has empty nodeKey")
+	}
+
 	// mark that this is not a dummy node
 	nodeMarkBuf := EncodeUvarint64(1)
 
-- 
2.43.0


From 6d31b629068bcccc7ae64e2e0599d06774edaeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:35 +0000
Subject: [PATCH 59/60] fix: a key of one empty sub key had the hash of the
 empty key under every function

---
 src/util/key_util.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index edbc16d..b222a6e 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -118,7 +118,9 @@ func (k *EmptyKey) Compare(c collection.IComparable) int {
 }
 
 func (k *EmptyKey) HashUint32(f func([]byte) uint32) uint32 {
-	return f([]byte{}) // depends on the hash function as the hash of any other key
+	// depends on the hash function as the hash of any other key, but is not
+	// that of one empty subKey
+	return ^f([]byte{})
 }
 
 func (k *EmptyKey) Print(w io.Writer, indent int) {
@@ -320,7 +322,7 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 
 func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
 	if len(k.keys) == 0 {
-		return f([]byte{}) // same as EmptyKey
+		return ^f([]byte{}) // same as EmptyKey
 	}
 
 	return hashSubKeys(k.keys, f)
@@ -486,7 +488,7 @@ func (k *Key) CopyConstruct() (IEncodable, error) {
 
 func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
 	if len(k.keys) == 0 {
-		return f([]byte{}) // same as EmptyKey
+		return ^f([]byte{}) // same as EmptyKey
 	}
 
 	return hashSubKeys(k.keys, f)
-- 
2.43.0


From c807c5da7c84020f69201f9da7f5e1a3d212519a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:50:15 +0000
Subject: [PATCH 60/60] fix: a key of a nil sub key did not equal itself
 decoded

---
 src/util/key_util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index b222a6e..857845f 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -399,6 +399,9 @@ func copyKey(k IKey) *Key {
 }
 
 func NewSimpleKey(simpleKey []byte) *Key {
+	if simpleKey == nil {
+		simpleKey = []byte{} // as decoded
+	}
 	return &Key{keys: []([]byte){simpleKey}, buf: nil, estBufSize: 2 + len(simpleKey)}
 }
 
-- 
2.43.0

