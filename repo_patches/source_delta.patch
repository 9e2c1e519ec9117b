From d5f1e67cda7c04b54afedf9f84eafb3f46921f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 01/52] fix: store a newly created hash under its key

HSET, HMSET, HSETNX, HINCRBY and HINCRBYFLOAT on a missing key built a hash
table that was never put into the key space, so the write was lost.
---
 datastruct/hash_table.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 8194fe8..9016ae8 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -178,6 +178,17 @@ func loadAndCheckHashTable(key string, checkLen bool) (*hashTable, error) {
 	return h, nil
 }
 
+// newStoredHashTable put an empty hash table under given key
+func newStoredHashTable(key string) *hashTable {
+	h := newHashTable()
+	defaultCache.keys.Set(key, &KeyInfo{
+		Type:  KeyTypeHashTable,
+		Value: h,
+	})
+
+	return h
+}
+
 func HDel(key, field string) (int, error) {
 	h, err := loadAndCheckHashTable(key, true)
 	if err != nil {
@@ -226,7 +237,7 @@ func HGetAll(key string) (map[string]interface{}, error) {
 func HIncrBy(key, field string, i64 int64) (int64, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
-		h = newHashTable()
+		h = newStoredHashTable(key)
 		err = nil
 	}
 
@@ -240,7 +251,7 @@ func HIncrBy(key, field string, i64 int64) (int64, error) {
 func HIncrByFloat(key, field string, f64 float64) (float64, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
-		h = newHashTable()
+		h = newStoredHashTable(key)
 		err = nil
 	}
 
@@ -283,7 +294,7 @@ func HMGet(key string, fields ...string) ([]interface{}, error) {
 func HSet(key string, flag int, kvs ...*KV) (int, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
-		h = newHashTable()
+		h = newStoredHashTable(key)
 		err = nil
 	}
 
-- 
2.43.0


From e46a4fc812daccf2b428a729d226802326ac0385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 02/52] fix: HDEL counted absent fields as removed and removed
 ones as absent

The inverted condition also let the length of the hash run away from its
content.
---
 datastruct/hash_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 9016ae8..81586d8 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -24,7 +24,7 @@ func newHashTable() *hashTable {
 }
 
 func (h *hashTable) del(field string) int {
-	remove := !h.table.DeleteIfExists(field)
+	remove := h.table.DeleteIfExists(field)
 	if remove {
 		h.length--
 		return 1
-- 
2.43.0


From 7ab2513c1a95d270544f47b4a7cb341922d2486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 03/52] fix: HEXISTS replied 1 for fields that do not exist

---
 datastruct/hash_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 81586d8..941cc27 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -208,7 +208,7 @@ func HExists(key, field string) (int, error) {
 		return 1, nil
 	}
 
-	return 1, nil
+	return 0, nil
 }
 
 func HGet(key, field string) (interface{}, error) {
-- 
2.43.0


From a0850b75947432e06428b1c405815943143778d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 04/52] fix: count the fields HINCRBY and HINCRBYFLOAT create

They inserted the field without counting it, so HLEN was too small and a
hash made only of counters read as missing.
---
 datastruct/hash_table.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 941cc27..2302074 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -67,6 +67,7 @@ func (h *hashTable) getAll() map[string]interface{} {
 func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 	res, abort := h.table.Upsert(field, i, func(exist bool, valueInMap interface{}, newValue interface{}) (interface{}, bool) {
 		if !exist {
+			h.length++
 			return i, false
 		}
 
@@ -89,6 +90,7 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 	res, abort := h.table.Upsert(field, i, func(exist bool, valueInMap interface{}, newValue interface{}) (interface{}, bool) {
 		if !exist {
+			h.length++
 			return i, false
 		}
 
-- 
2.43.0


From 91f79f202bedb97c44d3bc328ff69ccf95c4562f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 05/52] fix: HGETALL on a key of another type replied nil
 instead of the error

---
 redis/hash_table.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redis/hash_table.go b/redis/hash_table.go
index bca2821..992dff7 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -73,12 +73,12 @@ func hGetAll(c *Command) (*protocol.Response, error) {
 	}
 
 	m, err := datastruct.HGetAll(c.Values[0])
-	if err == datastruct.ErrNil || len(m) == 0 {
-		return protocol.NewResponseWithNilBulk(), nil
+	if err != nil && err != datastruct.ErrNil {
+		return nil, err
 	}
 
-	if err != nil {
-		return nil, err
+	if err == datastruct.ErrNil || len(m) == 0 {
+		return protocol.NewResponseWithNilBulk(), nil
 	}
 
 	var (
-- 
2.43.0


From f52f8b13fcb58602bf13ce18eebc1886d2bfc8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 06/52] fix: HGETALL on a hash with numeric values left the
 client without a reply

The encoder expects strings and panicked on the int64 and float64 values
numeric text is stored as.
---
 redis/hash_table.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/redis/hash_table.go b/redis/hash_table.go
index 992dff7..8a43012 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -53,6 +53,11 @@ func hGet(c *Command) (*protocol.Response, error) {
 	if err != nil {
 		return nil, err
 	}
+	return protocol.NewResponseWithBulkString(hashValueString(v)), nil
+}
+
+// hashValueString returns the text of a value stored in a hash field
+func hashValueString(v interface{}) string {
 	var res string
 	switch vv := v.(type) {
 	case string:
@@ -63,7 +68,7 @@ func hGet(c *Command) (*protocol.Response, error) {
 		res = strconv.FormatFloat(vv, 'g', -1, 64)
 	}
 
-	return protocol.NewResponseWithBulkString(res), nil
+	return res
 }
 
 // hGetAll .
@@ -88,7 +93,7 @@ func hGetAll(c *Command) (*protocol.Response, error) {
 
 	for k, v := range m {
 		values[i] = k
-		values[i+1] = v
+		values[i+1] = hashValueString(v)
 		i += 2
 	}
 
-- 
2.43.0


From 23eb1a19046a8ba43128242ce89a3a80868c7f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 07/52] fix: hash values that look like numbers were rewritten
 when stored

HSET f 007, 1.50, 1e3, 0x1p4, +5, nan or a number beyond float precision was
read back as a different text (7, 1.5, 1000, 16, 5, NaN, ...). Convert only
text that the number prints as again.
---
 datastruct/hash_table.go | 19 +++++++++++++++++++
 util/strconv.go          |  5 +++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 2302074..291ba73 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -95,6 +95,9 @@ func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 		}
 
 		i64, ok := valueInMap.(float64)
+		if !ok {
+			i64, ok = floatText(valueInMap)
+		}
 		if !ok {
 			return ErrNotFloat, true
 		}
@@ -110,6 +113,22 @@ func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 	return res.(float64), nil
 }
 
+// floatText return the float v is the text of, text of an integer is not one.
+// Text that is not in the form a float prints in, like 1.50 or 2e3, is stored as it is.
+func floatText(v interface{}) (float64, bool) {
+	s, ok := v.(string)
+	if !ok {
+		return 0, false
+	}
+
+	if _, err := strconv.ParseInt(s, 10, 64); err == nil {
+		return 0, false
+	}
+
+	f64, err := strconv.ParseFloat(s, 64)
+	return f64, err == nil
+}
+
 func (h *hashTable) keys() []string {
 	return h.table.Keys()
 }
diff --git a/util/strconv.go b/util/strconv.go
index 4f079e7..99883b0 100644
--- a/util/strconv.go
+++ b/util/strconv.go
@@ -5,15 +5,16 @@ import (
 )
 
 // ConvertToValidValue convert s either int64 or float64 otherwise return s itself.
+// s is only converted when the number prints as s again, so that no text is altered by storing it.
 func ConvertToValidValue(s string) interface{} {
 	// try int64
 	i64, err := strconv.ParseInt(s, 10, 64)
-	if err == nil {
+	if err == nil && strconv.FormatInt(i64, 10) == s {
 		return i64
 	}
 
 	f64, err := strconv.ParseFloat(s, 64)
-	if err == nil {
+	if err == nil && strconv.FormatFloat(f64, 'g', -1, 64) == s {
 		return f64
 	}
 
-- 
2.43.0


From 3b4117f2a866a57307cafc021d4b74ae4c3e45f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 08/52] fix: MSET accepted a key without a value and calls
 without arguments

The argument check joined its two conditions with && instead of ||.
---
 redis/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/string.go b/redis/string.go
index 150b931..e171016 100644
--- a/redis/string.go
+++ b/redis/string.go
@@ -20,7 +20,7 @@ func set(c *Command) (*protocol.Response, error) {
 
 // mSet .
 func mSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 2 && len(c.Values)%2 != 0 {
+	if len(c.Values) < 2 || len(c.Values)%2 != 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-- 
2.43.0


From a3b08d10cd0e4f1ebd3bcff2a4fe7d558f07487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 09/52] fix: HSET and HMSET silently dropped a field without a
 value

---
 redis/hash_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/hash_table.go b/redis/hash_table.go
index 8a43012..3ee1807 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -207,7 +207,7 @@ func hMGet(c *Command) (*protocol.Response, error) {
 
 // hMSet .
 func hMSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 3 {
+	if len(c.Values) < 3 || len(c.Values)%2 == 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
@@ -233,7 +233,7 @@ func hMSet(c *Command) (*protocol.Response, error) {
 
 // hSet .
 func hSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 3 {
+	if len(c.Values) < 3 || len(c.Values)%2 == 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-- 
2.43.0


From 68f85ba8fd4030d6b4c5fe12e2ec86579cb8efae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 10/52] fix: counters wrapped around on overflow instead of
 refusing

---
 datastruct/hash_table.go |  4 ++++
 datastruct/string.go     | 14 ++++++++++++++
 redis/string.go          |  4 +++-
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 291ba73..9352da1 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -76,6 +76,10 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 			return ErrNotInteger, true
 		}
 
+		if addOverflows(i64, newValue.(int64)) {
+			return ErrNotInteger, true
+		}
+
 		return i64 + newValue.(int64), false
 	})
 
diff --git a/datastruct/string.go b/datastruct/string.go
index b2bc8e7..e2d588a 100644
--- a/datastruct/string.go
+++ b/datastruct/string.go
@@ -1,6 +1,7 @@
 package datastruct
 
 import (
+	"math"
 	"strconv"
 )
 
@@ -37,6 +38,15 @@ func Append(key, value string) (ln int, err error) {
 	return
 }
 
+// addOverflows return true if the sum of a and b is out of the range of int64
+func addOverflows(a, b int64) bool {
+	if b > 0 {
+		return a > math.MaxInt64-b
+	}
+
+	return a < math.MinInt64-b
+}
+
 func IncrBy(key string, incrBy int64) (value int64, err error) {
 	v, ok := defaultCache.keys.Get(key)
 	if !ok {
@@ -53,6 +63,10 @@ func IncrBy(key string, incrBy int64) (value int64, err error) {
 	if err1 != nil {
 		return 0, ErrNotInteger
 	}
+	if addOverflows(i64, incrBy) {
+		return 0, ErrNotInteger
+	}
+
 	value = i64 + incrBy
 	info.Value = strconv.FormatInt(value, 10)
 
diff --git a/redis/string.go b/redis/string.go
index e171016..07846ff 100644
--- a/redis/string.go
+++ b/redis/string.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 
 	"github.com/yusank/godis/datastruct"
@@ -105,7 +106,8 @@ func decrBy(c *Command) (*protocol.Response, error) {
 	}
 
 	decrement, err := strconv.ParseInt(c.Values[1], 10, 64)
-	if err != nil {
+	if err != nil || decrement == math.MinInt64 {
+		// the smallest integer has no positive counterpart
 		return nil, datastruct.ErrNotInteger
 	}
 
-- 
2.43.0


From 19311ef14d5f9e29256e20a2fcbbba61c20a8912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 11/52] fix: HINCRBYFLOAT accepted NaN and infinite increments
 and sums

---
 datastruct/hash_table.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 9352da1..5ccaa72 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -1,6 +1,7 @@
 package datastruct
 
 import (
+	"math"
 	"strconv"
 
 	smap "github.com/yusank/godis/lib/shard_map"
@@ -106,7 +107,12 @@ func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 			return ErrNotFloat, true
 		}
 
-		return i64 + newValue.(float64), false
+		sum := i64 + newValue.(float64)
+		if math.IsInf(sum, 0) || math.IsNaN(sum) {
+			return ErrNotFloat, true
+		}
+
+		return sum, false
 	})
 
 	if abort {
@@ -274,6 +280,10 @@ func HIncrBy(key, field string, i64 int64) (int64, error) {
 }
 
 func HIncrByFloat(key, field string, f64 float64) (float64, error) {
+	if math.IsInf(f64, 0) || math.IsNaN(f64) {
+		return 0, ErrNotFloat
+	}
+
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newStoredHashTable(key)
-- 
2.43.0


From d6b8735decf6fe4ad87cf5ce1e4d21c097ea870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 12/52] fix: MGET naming a key of another type left the client
 without a reply

---
 datastruct/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/string.go b/datastruct/string.go
index e2d588a..17d784a 100644
--- a/datastruct/string.go
+++ b/datastruct/string.go
@@ -99,7 +99,8 @@ func MGet(keys ...string) []interface{} {
 		}
 
 		if err != nil {
-			result = append(result, err)
+			// not a string, same as missing
+			result = append(result, nil)
 			continue
 		}
 
-- 
2.43.0


From a4f00aa0e42b7886bf582b75437ac6e67920b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 13/52] fix: a list emptied by LREM kept its dummy node as an
 element

---
 datastruct/list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datastruct/list.go b/datastruct/list.go
index 054d941..0857d80 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -222,6 +222,8 @@ func (l *List) LRemCountFromHead(value string, n int) (cnt int) {
 		// if remove first element from, dumbHead.next.prev will be point to dumbHead
 		// // In other words, l.head.tail will be not nil
 		l.head.prev = nil
+	} else {
+		l.tail = nil
 	}
 	l.length -= cnt
 	return
@@ -274,6 +276,8 @@ func (l *List) LRemCountFromTail(value string, n int) (cnt int) {
 		// if remove first element from tail, dumbTail.prev.next will be point to dumbTail
 		// In other words, l.tail.next will be not nil
 		l.tail.next = nil
+	} else {
+		l.head = nil
 	}
 
 	l.length -= cnt
-- 
2.43.0


From 329e9e07262407abfdb28d8e4726d03e5530c1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 14/52] fix: LREM with the smallest integer as count removed
 nothing

---
 datastruct/list.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datastruct/list.go b/datastruct/list.go
index 0857d80..162cd34 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -553,6 +553,11 @@ func LRem(key string, count int, value string) (n int, err error) {
 		return list.LRemCountFromHead(value, count), nil
 	}
 
+	if count < -list.length {
+		// negating the smallest integer would overflow
+		count = -list.length
+	}
+
 	if count < 0 {
 		return list.LRemCountFromTail(value, -count), nil
 	}
-- 
2.43.0


From 0fff51d7983914dcd50da4adee79bcd2ac1c6a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 15/52] fix: LINDEX used the index as the key

---
 redis/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/list.go b/redis/list.go
index 84d3326..5a6d262 100644
--- a/redis/list.go
+++ b/redis/list.go
@@ -166,7 +166,7 @@ func lIndex(c *Command) (*protocol.Response, error) {
 		return nil, ErrValueOutOfRange
 	}
 
-	val, err := datastruct.LIndex(c.Values[1], index)
+	val, err := datastruct.LIndex(c.Values[0], index)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithNilBulk(), nil
 	}
-- 
2.43.0


From 2349d18fb916f234c6dbb5b205aea09a624440ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 16/52] fix: KEYS with a malformed pattern crashed the server

---
 datastruct/keys.go | 8 ++++++--
 redis/keys.go      | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/datastruct/keys.go b/datastruct/keys.go
index 5985a41..4a6a367 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -59,8 +59,12 @@ func Type(key string) (kt KeyType, found bool) {
 	return v.(*KeyInfo).Type, true
 }
 
-func Keys(pattern string) (keys []string) {
-	g := glob.MustCompile(pattern)
+func Keys(pattern string) (keys []string, err error) {
+	g, err := glob.Compile(pattern)
+	if err != nil {
+		return nil, err
+	}
+
 	defaultCache.keys.Range(func(key string, _ interface{}) bool {
 		if g.Match(key) {
 			keys = append(keys, key)
diff --git a/redis/keys.go b/redis/keys.go
index b8f4b0f..a9af654 100644
--- a/redis/keys.go
+++ b/redis/keys.go
@@ -14,7 +14,11 @@ func keys(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	values := datastruct.Keys(c.Values[0])
+	values, err := datastruct.Keys(c.Values[0])
+	if err != nil {
+		return nil, err
+	}
+
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
 }
 
-- 
2.43.0


From 18911993d5318e391abbf285232f0b51764826a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 17/52] fix: KEYS matched wrong keys and could stall the server
 for some patterns

The glob library matches "ab" with "ab*ab" and takes time exponential in the
number of stars, so patterns are now compiled to a regexp.
---
 datastruct/keys.go |   5 +-
 util/glob.go       | 120 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 122 insertions(+), 3 deletions(-)
 create mode 100644 util/glob.go

diff --git a/datastruct/keys.go b/datastruct/keys.go
index 4a6a367..7785543 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -3,9 +3,8 @@ package datastruct
 // keys file put functions for key operation
 
 import (
-	"github.com/yusank/glob"
-
 	smap "github.com/yusank/godis/lib/shard_map"
+	"github.com/yusank/godis/util"
 )
 
 var defaultCache = newMemoryCache()
@@ -60,7 +59,7 @@ func Type(key string) (kt KeyType, found bool) {
 }
 
 func Keys(pattern string) (keys []string, err error) {
-	g, err := glob.Compile(pattern)
+	g, err := util.CompileGlob(pattern)
 	if err != nil {
 		return nil, err
 	}
diff --git a/util/glob.go b/util/glob.go
new file mode 100644
index 0000000..3ab002b
--- /dev/null
+++ b/util/glob.go
@@ -0,0 +1,120 @@
+package util
+
+import (
+	"errors"
+	"fmt"
+	"regexp"
+	"strings"
+)
+
+// ErrBadPattern is returned for a glob pattern that is not well formed
+var ErrBadPattern = errors.New("ERR malformed pattern")
+
+// Glob is a compiled pattern. Matching takes time linear in the size of the text for every pattern.
+type Glob struct {
+	re *regexp.Regexp
+}
+
+// CompileGlob compiles a pattern made of these terms, any other byte stands for itself:
+//  *       any sequence of bytes
+//  ?       any single byte
+//  [a-c]   one of the bytes, [!a-c] none of them
+//  {a,b}   one of the patterns
+//  \c      the byte c
+func CompileGlob(pattern string) (*Glob, error) {
+	var (
+		sb    strings.Builder
+		depth int
+		star  bool
+	)
+
+	for i := 0; i < len(pattern); i++ {
+		c := pattern[i]
+		if c == '*' && star {
+			continue
+		}
+
+		star = c == '*'
+		switch {
+		case c == '*':
+			sb.WriteString(".*")
+		case c == '?':
+			sb.WriteString(".")
+		case c == '[':
+			size, err := writeClass(&sb, pattern[i:])
+			if err != nil {
+				return nil, err
+			}
+			i += size - 1
+		case c == '{':
+			depth++
+			sb.WriteString("(?:")
+		case c == '}' && depth > 0:
+			depth--
+			sb.WriteString(")")
+		case c == ',' && depth > 0:
+			sb.WriteString("|")
+		case c == '\\':
+			i++
+			if i == len(pattern) {
+				return nil, ErrBadPattern
+			}
+			writeByte(&sb, pattern[i])
+		default:
+			writeByte(&sb, c)
+		}
+	}
+
+	re, err := regexp.Compile(`(?s)\A(?:` + sb.String() + `)\z`)
+	if err != nil {
+		return nil, ErrBadPattern
+	}
+
+	return &Glob{re: re}, nil
+}
+
+// Match reports whether the whole text matches the pattern
+func (g *Glob) Match(text string) bool {
+	return g.re.MatchString(bytesAsRunes(text))
+}
+
+// writeClass writes the class that the pattern starts with and returns how many bytes it takes in the pattern
+func writeClass(sb *strings.Builder, pattern string) (int, error) {
+	i := 1
+	sb.WriteByte('[')
+	if i < len(pattern) && pattern[i] == '!' {
+		sb.WriteByte('^')
+		i++
+	}
+
+	for first := i; i < len(pattern); i++ {
+		switch c := pattern[i]; {
+		case c == ']' && i > first:
+			sb.WriteByte(']')
+			return i + 1, nil
+		case c == '-' && i > first && i+1 < len(pattern) && pattern[i+1] != ']':
+			sb.WriteByte('-')
+		case c == '\\' && i+1 < len(pattern):
+			i++
+			writeByte(sb, pattern[i])
+		default:
+			writeByte(sb, c)
+		}
+	}
+
+	return 0, ErrBadPattern
+}
+
+func writeByte(sb *strings.Builder, c byte) {
+	fmt.Fprintf(sb, `\x{%x}`, c)
+}
+
+// bytesAsRunes returns a text with one rune for each byte of s
+func bytesAsRunes(s string) string {
+	rs := make([]rune, len(s))
+	for i := 0; i < len(s); i++ {
+		rs[i] = rune(s[i])
+	}
+
+	return string(rs)
+}
-- 
2.43.0


From 80df37d3a5a652775b718486137fdb2398326da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 18/52] fix: ZREM and ZPOPMAX left most members in the sorted
 set order

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 7edcaef..1b929c4 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -261,7 +261,7 @@ func (zsl *zSkipList) delete(score float64, value string, node **zSkipListNode)
 	x := zsl.head
 
 	for i := zsl.level - 1; i >= 0; i-- {
-		if x.levels[i].forward != nil &&
+		for x.levels[i].forward != nil &&
 			(x.levels[i].forward.score < score ||
 				(x.levels[i].forward.score == score &&
 					x.levels[i].forward.value < value)) {
-- 
2.43.0


From efc607180bbca91ceae2afee422d9e3c1dcc3996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 19/52] fix: members popped from a sorted set kept their score
 and ZPOPMAX invented one

---
 datastruct/sorted_set.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 1b929c4..b80ebe1 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -790,6 +790,7 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 		}
 
 		zs.zsl.delete(node.score, node.value, nil)
+		zs.m.Delete(node.value)
 		result = append(result,
 			node.value,
 			strconv.FormatFloat(node.score, 'g', -1, 64))
@@ -805,13 +806,14 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 	}
 
 	var result []string
-	for i := 0; i < cnt; i++ {
+	for i := 0; i < cnt && zs.zsl.length > 0; i++ {
 		node := zs.zsl.findElementByRank(uint(zs.zsl.length))
 		if node == nil {
 			return result, nil
 		}
 
 		zs.zsl.delete(node.score, node.value, nil)
+		zs.m.Delete(node.value)
 		result = append(result,
 			node.value,
 			strconv.FormatFloat(node.score, 'g', -1, 64))
-- 
2.43.0


From 26feb8d86bc3402b31d84f67195ace4e67ea5663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 20/52] fix: score ranges were wrong for bounds between scores,
 ties and empty intervals

---
 datastruct/sorted_set.go | 80 ++++++++--------------------------------
 1 file changed, 15 insertions(+), 65 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index b80ebe1..bb6be84 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -308,90 +308,49 @@ LevelLoop:
 
 // minOpen == true => (min,  for example (1,true,2,false) => zscore xxx (1 2
 func (zsl *zSkipList) count(min float64, minOpen bool, max float64, maxOpen bool) int {
-	// -inf +inf
-	if math.IsInf(min, -1) && math.IsInf(max, 1) {
-		return zsl.length
-	}
-
 	minRank := zsl.minScoreRank(min, minOpen)
 	maxRank := zsl.maxScoreRank(max, maxOpen)
-	fmt.Println(minRank, maxRank)
-
-	// -inf:max
-	if minRank <= 0 {
-		return maxRank
-	}
 
-	if maxRank < 0 {
-		return zsl.length - minRank + 1
+	// no element between min and max
+	if minRank > maxRank {
+		return 0
 	}
 
 	return maxRank - minRank + 1
 }
 
-// return -1 if score is inf
+// return the rank of the first element not below the min score, length+1 if there is none
 func (zsl *zSkipList) minScoreRank(score float64, openInterval bool) int {
-	if math.IsInf(score, 0) {
-		return -1
-	}
-
 	var (
 		rank uint
 		x    = zsl.head
-		cur  = zsl.head
 	)
-loop:
+
 	for i := zsl.level - 1; i >= 0; i-- {
 		for x.levels[i].forward != nil &&
-			(x.levels[i].forward.score <= score) {
+			(x.levels[i].forward.score < score ||
+				(openInterval && x.levels[i].forward.score == score)) {
 			rank += x.levels[i].span
-			cur = x
 			x = x.levels[i].forward
-
-			// got the position
-			if x.score > score || (openInterval && x.score == score) {
-				// score not exit in the list, it just between two elements
-				if cur.score < score && x.score > score {
-					rank += 1
-				}
-
-				if x.score == score && openInterval {
-					rank += 1
-				}
-
-				break loop
-			}
 		}
 	}
 
-	return int(rank)
+	return int(rank) + 1
 }
 
-// return -1 if score is inf
+// return the rank of the last element not above the max score, 0 if there is none
 func (zsl *zSkipList) maxScoreRank(score float64, openInterval bool) int {
-	if math.IsInf(score, 0) {
-		return -1
-	}
-
 	var (
 		rank uint
 		x    = zsl.head
 	)
-loop:
+
 	for i := zsl.level - 1; i >= 0; i-- {
 		for x.levels[i].forward != nil &&
-			(x.levels[i].forward.score <= score) {
+			(x.levels[i].forward.score < score ||
+				(!openInterval && x.levels[i].forward.score == score)) {
 			rank += x.levels[i].span
 			x = x.levels[i].forward
-
-			// got the position
-			if x.score > score || (openInterval && x.score == score) {
-				if x.score == score && openInterval {
-					rank -= 1
-				}
-
-				break loop
-			}
 		}
 	}
 
@@ -474,21 +433,12 @@ func (zsl *zSkipList) zRevRange(start, stop int, withScores bool) []string {
 }
 
 func (zsl *zSkipList) zRangeByScore(min float64, minOpen bool, max float64, maxOpen bool, withScores bool) []string {
-	// -inf +inf
-	if math.IsInf(min, -1) && math.IsInf(max, 1) {
-		return zsl.zRange(0, zsl.length, withScores)
-	}
-
 	minRank := zsl.minScoreRank(min, minOpen)
 	maxRank := zsl.maxScoreRank(max, maxOpen)
-	fmt.Println(minRank, maxRank)
-	// -inf:max
-	if minRank <= 0 {
-		return zsl.zRange(0, maxRank-1, withScores)
-	}
 
-	if maxRank < 0 {
-		return zsl.zRange(minRank-1, zsl.length, withScores)
+	// no element between min and max
+	if minRank > maxRank {
+		return nil
 	}
 
 	return zsl.zRange(minRank-1, maxRank-1, withScores)
-- 
2.43.0


From cb956b6eb108e8094806b71306e09c9a030d7dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 21/52] fix: ZREVRANGE counted positions from the wrong end

---
 datastruct/sorted_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index bb6be84..2fa9024 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -414,7 +414,8 @@ func (zsl *zSkipList) zRevRange(start, stop int, withScores bool) []string {
 		stop = zsl.length - 1
 	}
 
-	node := zsl.findElementByRank(uint(stop) + 1)
+	// positions count from the element with the highest score
+	node := zsl.findElementByRank(uint(zsl.length - start))
 	var (
 		rangeLen = stop - start + 1
 		result   []string
-- 
2.43.0


From df2ff758e6cb0039a01d1bae9a2db11ce3edb689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 22/52] fix: ZRANK disagreed with the positions of ZRANGE by
 one

---
 datastruct/sorted_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 2fa9024..1c9fe1d 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -594,7 +594,8 @@ func ZRank(key, value string) (uint, error) {
 	}
 
 	score := *(de.value.(*float64))
-	return zs.zsl.rank(score, value), nil
+	// position starts from 0
+	return zs.zsl.rank(score, value) - 1, nil
 }
 
 func ZRem(key string, values ...string) (int, error) {
-- 
2.43.0


From 012e64973f7bc924643aa4fe6516ba9631f74694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 23/52] fix: ZINCR by zero replied 0 instead of the score

---
 datastruct/sorted_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 1c9fe1d..34d5ac2 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -663,7 +663,8 @@ func ZIncr(key string, score float64, value string) (float64, error) {
 
 	node := zs.zAdd(score, value, ZAddInIncr)
 	if node == nil {
-		return 0, ErrNil
+		// increment does not change the score
+		return ZScore(key, value)
 	}
 
 	return node.score, nil
-- 
2.43.0


From a27a679802304e882a06d0efc3fe1c550c416f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 24/52] fix: sorted sets accepted scores and bounds that are
 not a number

---
 datastruct/sorted_set.go | 38 ++++++++++++++++++++++++++++++++++++--
 redis/sorted_set.go      |  5 +++--
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 34d5ac2..a3e3a8b 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -544,14 +544,44 @@ type ZSetMember struct {
 	Value string
 }
 
+// incrMakesNaN return true if adding members with the incr flag ends with a score that is not a number
+func (zs *zSet) incrMakesNaN(members []*ZSetMember, flag int) bool {
+	scores := make(map[string]float64)
+	for _, m := range members {
+		score, exists := scores[m.Value]
+		if de := zs.loadDictEntry(m.Value); !exists && de != nil {
+			score, exists = *(de.getValue().(*float64)), true
+		}
+
+		if (exists && flag&ZAddInNx != 0) || (!exists && flag&ZAddInXx != 0) {
+			continue
+		}
+
+		scores[m.Value] = score + m.Score
+		if math.IsNaN(score + m.Score) {
+			return true
+		}
+	}
+
+	return false
+}
+
 func ZAdd(key string, members []*ZSetMember, flag int) (int, error) {
 	zs, err := loadAndCheckZSet(key, false)
 	if err != nil && err != ErrNil {
 		return 0, err
 	}
 
-	if zs == nil {
+	stored := zs != nil
+	if !stored {
 		zs = newZSet()
+	}
+
+	if flag&ZAddInIncr != 0 && zs.incrMakesNaN(members, flag) {
+		return 0, ErrNotFloat
+	}
+
+	if !stored {
 		defaultCache.keys.Set(key, &KeyInfo{
 			Type:  KeyTypeSortedSet,
 			Value: zs,
@@ -661,6 +691,10 @@ func ZIncr(key string, score float64, value string) (float64, error) {
 		})
 	}
 
+	if zs.incrMakesNaN([]*ZSetMember{{Score: score, Value: value}}, ZAddInIncr) {
+		return 0, ErrNotFloat
+	}
+
 	node := zs.zAdd(score, value, ZAddInIncr)
 	if node == nil {
 		// increment does not change the score
@@ -792,7 +826,7 @@ func handleFloatScoreStr(str string) (float64, bool, error) {
 		}
 
 		f, err := strconv.ParseFloat(tmp, 64)
-		if err != nil {
+		if err != nil || math.IsNaN(f) {
 			return 0, false, ErrNotFloat
 		}
 
diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 46ca1d5..1ef05d5 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 	"strings"
 
@@ -36,7 +37,7 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		// add more
 		default:
 			score, err := strconv.ParseFloat(c.Values[i], 64)
-			if err != nil {
+			if err != nil || math.IsNaN(score) {
 				return nil, ErrValueOutOfRange
 			}
 
@@ -156,7 +157,7 @@ func zIncr(c *Command) (*protocol.Response, error) {
 	}
 
 	score, err := strconv.ParseFloat(c.Values[1], 64)
-	if err != nil {
+	if err != nil || math.IsNaN(score) {
 		return nil, ErrValueOutOfRange
 	}
 
-- 
2.43.0


From b2922327368ff0245776253b711c81f1bbbe2858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 25/52] fix: ZRANGEBYSCORE ignored WITHSCORES

---
 redis/sorted_set.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 1ef05d5..fb5b9b4 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -212,7 +212,14 @@ func zRangeByScore(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	values, err := datastruct.ZRange(c.Values[0], c.Values[1], c.Values[2], datastruct.ZRangeInByScore)
+	flag := datastruct.ZRangeInByScore
+	for _, s := range c.Values[3:] {
+		if strings.ToLower(s) == "withscores" {
+			flag |= datastruct.ZRangeInWithScores
+		}
+	}
+
+	values, err := datastruct.ZRange(c.Values[0], c.Values[1], c.Values[2], flag)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithNilBulk(), nil
 	}
-- 
2.43.0


From 8ec721f5ff2b9ab2a36c88862cf889daf0a655a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 26/52] fix: ZADD dropped a score without a member and accepted
 no member at all

---
 redis/sorted_set.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index fb5b9b4..f33023f 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -23,7 +23,7 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		flag    int
 	)
 
-	for i := 1; i < len(c.Values)-1; {
+	for i := 1; i < len(c.Values); {
 		switch strings.ToLower(c.Values[i]) {
 		case "xx":
 			flag |= datastruct.ZAddInXx
@@ -36,6 +36,11 @@ func zAdd(c *Command) (*protocol.Response, error) {
 			i++
 		// add more
 		default:
+			if i+1 == len(c.Values) {
+				// score without member
+				return nil, ErrCommandArgsNotEnough
+			}
+
 			score, err := strconv.ParseFloat(c.Values[i], 64)
 			if err != nil || math.IsNaN(score) {
 				return nil, ErrValueOutOfRange
@@ -49,6 +54,10 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		}
 	}
 
+	if len(members) == 0 {
+		return nil, ErrCommandArgsNotEnough
+	}
+
 	cnt, err := datastruct.ZAdd(key, members, flag)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4f3453d69fafdcb8a7177c84a3afdc007d977bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 27/52] fix: SPOP left the set size unchanged and popped
 nothing without a count

---
 datastruct/set.go | 1 +
 redis/set.go      | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index fd71b59..5969041 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -46,6 +46,7 @@ func (s *set) sPop(cnt int) []string {
 
 		result = append(result, key)
 		cnt--
+		s.length--
 		return true, true
 	})
 
diff --git a/redis/set.go b/redis/set.go
index c30ea54..a8dddce 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -228,7 +228,7 @@ func SPop(c *Command) (*protocol.Response, error) {
 
 	var (
 		key = c.Values[0]
-		cnt int
+		cnt = 1
 		err error
 	)
 
-- 
2.43.0


From 695419269f78b2a98a09e7a4226cf9993bc7d23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 28/52] fix: SMOVE kept the source size and lost the member if
 the target is no set

---
 datastruct/set.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 5969041..506dc43 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -186,13 +186,21 @@ func SMove(source, target, value string) (int, error) {
 		return 0, err
 	}
 
-	exists := sset.m.DeleteIfExists(value)
+	if _, err = loadAndCheckSet(target, false); err != nil && err != ErrNil {
+		return 0, err
+	}
+
+	exists := sset.sRem(value) == 1
 	if !exists {
 		// not exist
 		return 0, ErrNil
 	}
 
-	return SAdd(target, value)
+	if _, err = SAdd(target, value); err != nil {
+		return 0, err
+	}
+
+	return 1, nil
 }
 
 func SDiff(keys ...string) ([]string, error) {
-- 
2.43.0


From 767be887cf93670e62b1286a28e43d34265327f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 29/52] fix: set algebra replied nothing for a missing or a
 single key

---
 datastruct/set.go | 22 ++++++++++++++++------
 redis/set.go      | 12 ------------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 506dc43..1aee283 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -110,6 +110,16 @@ func loadAndCheckSet(key string, check bool) (*set, error) {
 	return s, nil
 }
 
+// loadSetOrEmpty return an empty set if there is none under given key
+func loadSetOrEmpty(key string) (*set, error) {
+	s, err := loadAndCheckSet(key, false)
+	if err == ErrNil {
+		return newSet(), nil
+	}
+
+	return s, err
+}
+
 func SAdd(key string, values ...string) (int, error) {
 	s, err := loadAndCheckSet(key, false)
 	if err == ErrNil {
@@ -207,7 +217,7 @@ func SDiff(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return nil, err
 		}
@@ -231,7 +241,7 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return 0, err
 		}
@@ -261,7 +271,7 @@ func SInter(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return nil, err
 		}
@@ -285,7 +295,7 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return 0, err
 		}
@@ -315,7 +325,7 @@ func SUnion(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return nil, err
 		}
@@ -339,7 +349,7 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return 0, err
 		}
diff --git a/redis/set.go b/redis/set.go
index a8dddce..f9b38cb 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -44,10 +44,6 @@ func sDiff(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	diffs, err := datastruct.SDiff(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -84,10 +80,6 @@ func sInter(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	inter, err := datastruct.SInter(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -124,10 +116,6 @@ func sUnion(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	unions, err := datastruct.SUnion(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
-- 
2.43.0


From a8e212c6301e1ad25725ba8138eee0a49c58567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 30/52] fix: SDIFFSTORE, SINTERSTORE and SUNIONSTORE of one key
 tied both keys together

---
 datastruct/set.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 1aee283..44d968c 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -247,7 +247,8 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 		}
 
 		if i == 0 {
-			result = s
+			// never share the elements with the source
+			result = sUnion(s)
 			continue
 		}
 
@@ -301,7 +302,8 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 		}
 
 		if i == 0 {
-			result = s
+			// never share the elements with the source
+			result = sUnion(s)
 			continue
 		}
 
@@ -355,7 +357,8 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 		}
 
 		if i == 0 {
-			result = s
+			// never share the elements with the source
+			result = sUnion(s)
 			continue
 		}
 
-- 
2.43.0


From f2574a57c08ab948590fe6d983d691d55df05857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 31/52] fix: SMEMBERS replied an error for a missing key

---
 redis/set.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redis/set.go b/redis/set.go
index f9b38cb..1deb5ae 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -167,6 +167,10 @@ func sMembers(c *Command) (*protocol.Response, error) {
 	}
 
 	vals, err := datastruct.SMembers(c.Values[0])
+	if err == datastruct.ErrNil {
+		return protocol.NewResponseWithEmptyArray(), nil
+	}
+
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 51aa1524f2dde477c91d576161f8d31d1d76ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 32/52] fix: DEL and EXISTS ignored all keys but the first

---
 redis/keys.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/redis/keys.go b/redis/keys.go
index a9af654..29dfed0 100644
--- a/redis/keys.go
+++ b/redis/keys.go
@@ -27,13 +27,14 @@ func exists(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	found := datastruct.Exists(c.Values[0])
-	rsp := protocol.NewResponseWithInteger(0)
-	if found {
-		rsp = protocol.NewResponseWithInteger(1)
+	var cnt int64
+	for _, key := range c.Values {
+		if datastruct.Exists(key) {
+			cnt++
+		}
 	}
 
-	return rsp, nil
+	return protocol.NewResponseWithInteger(cnt), nil
 }
 
 // del .
@@ -42,7 +43,11 @@ func del(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	cnt := datastruct.Del(c.Values[0])
+	var cnt int
+	for _, key := range c.Values {
+		cnt += datastruct.Del(key)
+	}
+
 	return protocol.NewResponseWithInteger(int64(cnt)), nil
 }
 
-- 
2.43.0


From 9391e1db1d40b6c105a03ffd95029476a62f8800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 33/52] fix: HDEL ignored all fields but the first

---
 datastruct/hash_table.go | 9 +++++++--
 redis/hash_table.go      | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 5ccaa72..2bcce57 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -220,13 +220,18 @@ func newStoredHashTable(key string) *hashTable {
 	return h
 }
 
-func HDel(key, field string) (int, error) {
+func HDel(key string, fields ...string) (int, error) {
 	h, err := loadAndCheckHashTable(key, true)
 	if err != nil {
 		return 0, err
 	}
 
-	return h.del(field), nil
+	var cnt int
+	for _, field := range fields {
+		cnt += h.del(field)
+	}
+
+	return cnt, nil
 }
 
 func HExists(key, field string) (int, error) {
diff --git a/redis/hash_table.go b/redis/hash_table.go
index 3ee1807..b2a31fe 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -16,7 +16,7 @@ func hDel(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	cnt, err := datastruct.HDel(c.Values[0], c.Values[1])
+	cnt, err := datastruct.HDel(c.Values[0], c.Values[1:]...)
 	if err != nil && err != datastruct.ErrNil {
 		return nil, err
 	}
-- 
2.43.0


From 8e55f1485cbfe25627b56ee56835e2af6c622f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 34/52] fix: TYPE replied internal names for sets, sorted sets
 and hashes

---
 datastruct/consts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datastruct/consts.go b/datastruct/consts.go
index 194e231..02ee5e4 100644
--- a/datastruct/consts.go
+++ b/datastruct/consts.go
@@ -9,9 +9,9 @@ type KeyType string
 const (
 	KeyTypeString    KeyType = "string"
 	KeyTypeList      KeyType = "list"
-	KeyTypeSet       KeyType = "setIfNotExists"
-	KeyTypeSortedSet KeyType = "sortedSet"
-	KeyTypeHashTable KeyType = "hashTable"
+	KeyTypeSet       KeyType = "set"
+	KeyTypeSortedSet KeyType = "zset"
+	KeyTypeHashTable KeyType = "hash"
 )
 
 var (
-- 
2.43.0


From 15f0ac4a6734eea450abb1101ac5940547b7b58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 35/52] fix: keys of emptied lists, sets, hashes and sorted
 sets kept existing

---
 datastruct/hash_table.go | 1 +
 datastruct/keys.go       | 7 +++++++
 datastruct/list.go       | 3 +++
 datastruct/set.go        | 6 ++++++
 datastruct/sorted_set.go | 4 ++++
 5 files changed, 21 insertions(+)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 2bcce57..c98dcae 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -230,6 +230,7 @@ func HDel(key string, fields ...string) (int, error) {
 	for _, field := range fields {
 		cnt += h.del(field)
 	}
+	removeIfEmpty(key, h.length)
 
 	return cnt, nil
 }
diff --git a/datastruct/keys.go b/datastruct/keys.go
index 7785543..729bffe 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -41,6 +41,13 @@ func loadKeyInfo(key string, tp KeyType) (info *KeyInfo, err error) {
 	return info, nil
 }
 
+// removeIfEmpty delete key which has no element left
+func removeIfEmpty(key string, length int) {
+	if length == 0 {
+		defaultCache.keys.Delete(key)
+	}
+}
+
 /*
  * Common Command
  */
diff --git a/datastruct/list.go b/datastruct/list.go
index 162cd34..ea60fe9 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -467,6 +467,7 @@ func LPop(key string, count int) (values []string, err error) {
 		return nil, err
 	}
 
+	defer func() { removeIfEmpty(key, list.length) }()
 	for count > 0 && list.length > 0 {
 		value, ok := list.LPop()
 		if !ok {
@@ -509,6 +510,7 @@ func RPop(key string, count int) (values []string, err error) {
 		return nil, err
 	}
 
+	defer func() { removeIfEmpty(key, list.length) }()
 	for count > 0 && list.length > 0 {
 		value, ok := list.RPop()
 		if !ok {
@@ -553,6 +555,7 @@ func LRem(key string, count int, value string) (n int, err error) {
 		return list.LRemCountFromHead(value, count), nil
 	}
 
+	defer func() { removeIfEmpty(key, list.length) }()
 	if count < -list.length {
 		// negating the smallest integer would overflow
 		count = -list.length
diff --git a/datastruct/set.go b/datastruct/set.go
index 44d968c..3d64a62 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -162,6 +162,7 @@ func SRem(key string, values ...string) (int, error) {
 	for _, value := range values {
 		cnt += s.sRem(value)
 	}
+	removeIfEmpty(key, s.length)
 
 	return cnt, nil
 }
@@ -209,6 +210,7 @@ func SMove(source, target, value string) (int, error) {
 	if _, err = SAdd(target, value); err != nil {
 		return 0, err
 	}
+	removeIfEmpty(source, sset.length)
 
 	return 1, nil
 }
@@ -264,6 +266,7 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 		Value: result,
 	})
 
+	removeIfEmpty(storeKey, result.length)
 	return result.length, nil
 }
 
@@ -319,6 +322,7 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 		Value: result,
 	})
 
+	removeIfEmpty(storeKey, result.length)
 	return result.length, nil
 }
 
@@ -374,6 +378,7 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 		Value: result,
 	})
 
+	removeIfEmpty(storeKey, result.length)
 	return result.length, nil
 }
 
@@ -383,6 +388,7 @@ func SPop(key string, cnt int) ([]string, error) {
 		return nil, err
 	}
 
+	defer func() { removeIfEmpty(key, s.length) }()
 	return s.sPop(cnt), nil
 }
 
diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index a3e3a8b..e634102 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -594,6 +594,7 @@ func ZAdd(key string, members []*ZSetMember, flag int) (int, error) {
 			cnt++
 		}
 	}
+	removeIfEmpty(key, zs.zsl.length)
 
 	return cnt, nil
 }
@@ -645,6 +646,7 @@ func ZRem(key string, values ...string) (int, error) {
 		zs.zsl.delete(score, value, nil)
 		cnt++
 	}
+	removeIfEmpty(key, zs.zsl.length)
 
 	return cnt, nil
 }
@@ -769,6 +771,7 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 		return nil, err
 	}
 
+	defer func() { removeIfEmpty(key, zs.zsl.length) }()
 	var result []string
 	for i := 0; i < cnt; i++ {
 		node := zs.zsl.findElementByRank(1)
@@ -792,6 +795,7 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 		return nil, err
 	}
 
+	defer func() { removeIfEmpty(key, zs.zsl.length) }()
 	var result []string
 	for i := 0; i < cnt && zs.zsl.length > 0; i++ {
 		node := zs.zsl.findElementByRank(uint(zs.zsl.length))
-- 
2.43.0


From ce89c01389db3205fbb3fe0e91b97861dd5df8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 36/52] fix: decoding took time quadratic in the number of
 arguments

---
 protocol/decode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 20cfcf0..2ddc1c0 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -19,6 +19,8 @@ import (
 type Receive struct {
 	Elements []string
 	OrgStr   string
+
+	org []byte // collects OrgStr
 }
 
 func (r Receive) String() string {
@@ -42,11 +44,11 @@ func (r *Receive) append(ele, org string) {
 	}
 
 	r.Elements = append(r.Elements, ele)
-	r.OrgStr += org
+	r.org = append(r.org, org...)
 }
 
 func (r *Receive) addOrg(s string) {
-	r.OrgStr += s
+	r.org = append(r.org, s...)
 }
 
 type AsyncReceive struct {
@@ -115,6 +117,7 @@ func DecodeFromReader(r Reader) (rec *Receive, err error) {
 		}
 	}
 
+	rec.OrgStr, rec.org = string(rec.org), nil
 	return
 }
 
-- 
2.43.0


From 59e76e3a6bd59057ae2b91867e956d14fe312e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 37/52] fix: decoder took a short read for the whole string

---
 protocol/decode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 2ddc1c0..e469abd 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -167,8 +167,9 @@ func (r *Receive) readBulkStrings(rr Reader, ln int) error {
 		return fmt.Errorf("invalid length")
 	}
 
+	// one read may return less than asked for
 	val := make([]byte, ln+2)
-	_, err := rr.Read(val)
+	_, err := io.ReadFull(rr, val)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 17b2425cf143a110c03f6dd0eadc69bd01bb8ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 38/52] fix: malformed lengths, line ends and nesting crashed
 the decoder or passed as requests

---
 protocol/decode.go | 63 +++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index e469abd..33f4bfe 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -1,11 +1,13 @@
 package protocol
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
 	"log"
 	"net"
+	"strconv"
 	"strings"
 )
 
@@ -13,6 +15,9 @@ import (
  * put all  decode functions
  */
 
+// maxBulkLength is the most bytes one string may have
+const maxBulkLength = 512 << 20
+
 // Receive 代表客户端请求来的数据
 // A client sends the Redis server a RESP Array consisting of just Bulk Strings.
 // 所以不考虑太多特殊情况
@@ -122,7 +127,7 @@ func DecodeFromReader(r Reader) (rec *Receive, err error) {
 }
 
 func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err error) {
-	if len(line) < 3 {
+	if len(line) < 3 || string(line[len(line)-CRLFLen:]) != CRLF {
 		return 0, 0, fmt.Errorf("unsupported protocol")
 	}
 
@@ -132,7 +137,10 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 	switch desc {
 	// bulk string
 	case DescriptionBulkStrings, descriptionArrays:
-		length = readBulkOrArrayLength(line)
+		length, err = readBulkOrArrayLength(line)
+		if err != nil {
+			return 0, 0, err
+		}
 	case DescriptionSimpleStrings, DescriptionErrors, DescriptionIntegers:
 		r.append(string(line[1:len(line)-CRLFLen]), "")
 		//str = string(line[1 : len(line)-CRLFLen])
@@ -147,58 +155,61 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 	return
 }
 
-func readBulkOrArrayLength(line []byte) int {
-	if line[0] == '-' {
-		return -1
-	}
-
-	var (
-		ln int
-	)
-	for i := 1; line[i] != '\r'; i++ {
-		ln = (ln * 10) + int(line[i]-'0')
+// line must end with CRLF
+func readBulkOrArrayLength(line []byte) (int, error) {
+	ln, err := strconv.ParseUint(string(line[1:len(line)-CRLFLen]), 10, 31)
+	if err != nil {
+		return 0, fmt.Errorf("invalid length")
 	}
 
-	return ln
+	return int(ln), nil
 }
 
 func (r *Receive) readBulkStrings(rr Reader, ln int) error {
-	if ln < 0 {
+	if ln > maxBulkLength {
 		return fmt.Errorf("invalid length")
 	}
 
-	// one read may return less than asked for
-	val := make([]byte, ln+2)
-	_, err := io.ReadFull(rr, val)
+	// one read may return less than asked for, and the peer may promise more than it sends
+	val := new(bytes.Buffer)
+	_, err := io.CopyN(val, rr, int64(ln+CRLFLen))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return err
 	}
 
 	// trim last \r\n
-	r.append(string(val[:ln]), string(val))
+	str := val.String()
+	if str[ln:] != CRLF {
+		return fmt.Errorf("unsupported protocol")
+	}
+	r.append(str[:ln], str)
 
 	return nil
 }
 
 func (r *Receive) readArray(rr Reader, ln int) error {
-	for i := 0; i < ln; i++ {
+	for ; ln > 0; ln-- {
 		line, err := rr.ReadBytes('\n')
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		if err != nil {
 			return err
 		}
 
-		if line[0] == descriptionArrays {
-			subErr := r.readArray(rr, readBulkOrArrayLength(line))
-			if subErr != nil {
-				return subErr
-			}
-		}
-
 		length, desc, err := r.decodeSingleLine(line)
 		if err != nil {
 			return err
 		}
 
+		if desc == descriptionArrays {
+			// elements of the sub array come next
+			ln += length
+		}
+
 		if desc == DescriptionBulkStrings {
 			err = r.readBulkStrings(rr, length)
 			if err != nil {
-- 
2.43.0


From c389246d9fb94ad3f950b88d8fd8f6f2801be604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 39/52] fix: stopping dropped accepted commands and crashed on
 later ones

---
 event/event_pool.go | 27 ++++++++++++++++++++++++---
 event/worker.go     | 28 +++++++---------------------
 2 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/event/event_pool.go b/event/event_pool.go
index 489aab0..2abfb22 100644
--- a/event/event_pool.go
+++ b/event/event_pool.go
@@ -1,13 +1,22 @@
 package event
 
 import (
+	"errors"
 	"sync"
+
+	"github.com/yusank/godis/protocol"
 )
 
+// ErrStopped is the reply to a command which comes after the stop
+var ErrStopped = errors.New("ERR server is shutting down")
+
 type EventPool struct {
 	eventChan chan *Event
 	workers   []*worker
 	wg        *sync.WaitGroup
+
+	mu      sync.RWMutex // guards stopped and the close of eventChan
+	stopped bool
 }
 
 func NewEventPool() *EventPool {
@@ -21,14 +30,26 @@ func NewEventPool() *EventPool {
 }
 
 func (ep *EventPool) AddEvent(e *Event) {
+	ep.mu.RLock()
+	defer ep.mu.RUnlock()
+
+	if ep.stopped {
+		e.Rsp = protocol.NewResponseWithError(ErrStopped)
+		close(e.done)
+		return
+	}
+
 	ep.eventChan <- e
 }
 
+// Stop refuses new events and returns after all accepted ones are executed
 func (ep *EventPool) Stop() {
-	close(ep.eventChan)
-	for _, w := range ep.workers {
-		w.stop()
+	ep.mu.Lock()
+	if !ep.stopped {
+		ep.stopped = true
+		close(ep.eventChan)
 	}
+	ep.mu.Unlock()
 
 	ep.wg.Wait()
 }
diff --git a/event/worker.go b/event/worker.go
index 6e3bf51..bb88893 100644
--- a/event/worker.go
+++ b/event/worker.go
@@ -6,37 +6,23 @@ import (
 )
 
 type worker struct {
-	ep   *EventPool
-	done chan bool
+	ep *EventPool
 }
 
 func newWorker(ep *EventPool) *worker {
 	return &worker{
-		ep:   ep,
-		done: make(chan bool, 1),
+		ep: ep,
 	}
 }
 
 func (w *worker) run(wg *sync.WaitGroup) {
 	defer wg.Done()
 
-	for {
-		select {
-		case <-w.done:
-			log.Println("worker done")
-			return
-		case e := <-w.ep.eventChan:
-			if e == nil {
-				return
-			}
-
-			e.Rsp = <-e.Cmd.ExecuteAsync()
-			close(e.done)
-		}
+	// until the channel is closed and no event left
+	for e := range w.ep.eventChan {
+		e.Rsp = <-e.Cmd.ExecuteAsync()
+		close(e.done)
 	}
-}
 
-func (w *worker) stop() {
-	w.done <- true
-	close(w.done)
+	log.Println("worker done")
 }
-- 
2.43.0


From 5bea13d9943a4f0e64b77af91c7a6623f743fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 40/52] fix: a command that timed out replied an error but was
 executed later

---
 event/handler.go | 11 +++--------
 redis/command.go | 12 +++++++-----
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/event/handler.go b/event/handler.go
index 0ae9d66..8d00a71 100644
--- a/event/handler.go
+++ b/event/handler.go
@@ -35,14 +35,9 @@ func HandleRequest(rec *protocol.Receive) []byte {
 	e := NewEvent(cmd)
 	AddEvent(e)
 
-	// wait for result or context timeout
-	var rsp *protocol.Response
-	select {
-	case <-ctx.Done():
-		rsp = protocol.NewResponseWithError(ctx.Err())
-	case <-e.Done():
-		rsp = e.Rsp
-	}
+	// wait for result, a command which is not executed within the timeout is refused
+	<-e.Done()
+	rsp := e.Rsp
 
 	if debug.DEBUG {
 		log.Println("rsp:", debug.Escape(string(rsp.Encode())))
diff --git a/redis/command.go b/redis/command.go
index b2fe090..68f0712 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -25,6 +25,7 @@ func NewCommandFromReceive(ctx context.Context, rec *protocol.Receive) *Command
 	}
 
 	c := &Command{
+		Ctx:     ctx,
 		Command: strings.ToLower(rec.Elements[0]),
 		Values:  rec.Elements[1:],
 	}
@@ -50,6 +51,12 @@ func (c *Command) ExecuteAsync() chan *protocol.Response {
 		//		log.Println(c.Command, c.Values)
 		//	}
 		//}()
+		// too late, the client gets an error so nothing may be executed
+		if c.Ctx != nil && c.Ctx.Err() != nil {
+			c.setRsp(nil, c.Ctx.Err(), rspChan)
+			return
+		}
+
 		f, ok := implementedCommands[c.Command]
 		if !ok {
 			c.setRsp(nil, ErrUnknownCommand, rspChan)
@@ -64,11 +71,6 @@ func (c *Command) ExecuteAsync() chan *protocol.Response {
 }
 
 func (c *Command) setRsp(result *protocol.Response, err error, ch chan *protocol.Response) {
-	// if ctx has error won't put
-	if c.Ctx != nil && c.Ctx.Err() != nil {
-		return
-	}
-
 	if err != nil {
 		ch <- protocol.NewResponseWithError(err)
 		return
-- 
2.43.0


From a4bacf4332dea97c7da6d519a6fdf4011c6bbf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 41/52] fix: requests were lost, reordered or misread unless
 each came in one piece

Every read from the socket was decoded as one request by its own task. Now one
task per connection decodes the byte stream and replies in order.
---
 server/v2/server.go  |  35 ++++++++------
 server/v2/session.go | 106 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 126 insertions(+), 15 deletions(-)
 create mode 100644 server/v2/session.go

diff --git a/server/v2/server.go b/server/v2/server.go
index 69b9fec..9e98ffb 100644
--- a/server/v2/server.go
+++ b/server/v2/server.go
@@ -1,7 +1,6 @@
 package v2
 
 import (
-	"bytes"
 	"context"
 	"log"
 	"time"
@@ -10,7 +9,6 @@ import (
 	"github.com/panjf2000/gnet/pkg/pool/goroutine"
 
 	"github.com/yusank/godis/event"
-	"github.com/yusank/godis/protocol"
 )
 
 type Server struct {
@@ -45,21 +43,28 @@ func (s *Server) React(frame []byte, c gnet.Conn) (out []byte, action gnet.Actio
 	var data = make([]byte, len(frame))
 	copy(data, frame)
 
-	_ = s.pool.Submit(func() {
-		buf := bytes.NewBuffer(data)
-		rec, err := protocol.DecodeFromReader(buf)
-		if err != nil {
-			log.Println(err)
-			return
-		}
+	if ss, ok := c.Context().(*session); ok {
+		ss.write(data)
+	}
 
-		reply := event.HandleRequest(rec)
-		if len(reply) == 0 {
-			return
-		}
+	return
+}
+
+func (s *Server) OnOpened(c gnet.Conn) (out []byte, action gnet.Action) {
+	ss := newSession(c)
+	if err := s.pool.Submit(ss.serve); err != nil {
+		log.Println(err)
+		return nil, gnet.Close
+	}
 
-		_ = c.AsyncWrite(reply)
-	})
+	c.SetContext(ss)
+	return
+}
+
+func (s *Server) OnClosed(c gnet.Conn, _ error) (action gnet.Action) {
+	if ss, ok := c.Context().(*session); ok {
+		ss.close()
+	}
 
 	return
 }
diff --git a/server/v2/session.go b/server/v2/session.go
new file mode 100644
index 0000000..6e68e4d
--- /dev/null
+++ b/server/v2/session.go
@@ -0,0 +1,106 @@
+package v2
+
+import (
+	"bufio"
+	"bytes"
+	"errors"
+	"io"
+	"log"
+	"sync"
+
+	"github.com/panjf2000/gnet"
+
+	"github.com/yusank/godis/event"
+	"github.com/yusank/godis/protocol"
+)
+
+// errProtocol is the last reply to a client which sends no valid request
+var errProtocol = errors.New("ERR Protocol error")
+
+// replies are put together up to this size before they are sent
+const maxBatchSize = 64 << 10
+
+// session handles the requests of one connection in the order they come.
+// The event loop writes the bytes it receives and serve reads requests out of them.
+type session struct {
+	conn gnet.Conn
+
+	mu     sync.Mutex
+	cond   *sync.Cond
+	in     bytes.Buffer
+	closed bool
+
+	out []byte // replies not sent yet, for serve only
+}
+
+func newSession(c gnet.Conn) *session {
+	s := &session{conn: c}
+	s.cond = sync.NewCond(&s.mu)
+	return s
+}
+
+// write append received bytes
+func (s *session) write(data []byte) {
+	s.mu.Lock()
+	_, _ = s.in.Write(data)
+	s.mu.Unlock()
+	s.cond.Signal()
+}
+
+// close let serve return after the bytes received so far
+func (s *session) close() {
+	s.mu.Lock()
+	s.closed = true
+	s.mu.Unlock()
+	s.cond.Signal()
+}
+
+// Read received bytes, wait for them if there is none.
+func (s *session) Read(p []byte) (int, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	for s.in.Len() == 0 && !s.closed {
+		// client may wait for these before it sends more
+		s.flush()
+		s.cond.Wait()
+	}
+
+	return s.in.Read(p)
+}
+
+func (s *session) flush() {
+	if len(s.out) == 0 {
+		return
+	}
+
+	_ = s.conn.AsyncWrite(s.out)
+	s.out = nil
+}
+
+// serve handle requests one by one until connection closed
+func (s *session) serve() {
+	defer func() {
+		s.flush()
+		_ = s.conn.Close()
+	}()
+
+	r := bufio.NewReader(s)
+	for {
+		rec, err := protocol.DecodeFromReader(r)
+		if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
+			return
+		}
+
+		if err != nil {
+			log.Println(err)
+			s.out = append(s.out, protocol.NewResponseWithError(errProtocol).Encode()...)
+			return
+		}
+
+		s.out = append(s.out, event.HandleRequest(rec)...)
+		if len(s.out) >= maxBatchSize {
+			s.flush()
+		}
+	}
+}
-- 
2.43.0


From c3c90d62fbf2dad7358343e5484e683689442da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 42/52] fix: debug sample data was inserted by racing
 goroutines

---
 cmd/server/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index 218e606..7e857fb 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -110,7 +110,8 @@ func insertPreData() {
 			Values:  datum[1:],
 		}
 
-		c.ExecuteAsync()
+		// commands are executed one at a time
+		<-c.ExecuteAsync()
 	}
 
 	log.Println("data prepared")
-- 
2.43.0


From 970933cc08c7a4c570bdff2bc40726b081a2180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 43/52] fix: v1 server could crash when a client leaves

---
 server/v1/server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/v1/server.go b/server/v1/server.go
index 4c64bc4..88d678d 100644
--- a/server/v1/server.go
+++ b/server/v1/server.go
@@ -101,7 +101,12 @@ loop:
 		case <-ar.ErrorChan:
 			//log.Println("handle err:", err)
 			break loop
-		case rec := <-ar.ReceiveChan:
+		case rec, ok := <-ar.ReceiveChan:
+			if !ok {
+				// closed together with the error channel
+				break loop
+			}
+
 			reply := event.HandleRequest(rec)
 			if len(reply) == 0 {
 				continue
-- 
2.43.0


From 6952ed0ce75bd3e1ed575086707c03ef0ef748a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 44/52] fix: a stop signal during start-up was ignored and the
 server never exited

---
 server/v2/server.go | 51 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/server/v2/server.go b/server/v2/server.go
index 9e98ffb..dfe37d0 100644
--- a/server/v2/server.go
+++ b/server/v2/server.go
@@ -3,18 +3,28 @@ package v2
 import (
 	"context"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/panjf2000/gnet"
+	gerrors "github.com/panjf2000/gnet/pkg/errors"
 	"github.com/panjf2000/gnet/pkg/pool/goroutine"
 
 	"github.com/yusank/godis/event"
 )
 
+// startTime is the time gnet needs to start at most after it is initialized
+const startTime = time.Millisecond * 100
+
 type Server struct {
 	*gnet.EventServer
 	pool *goroutine.Pool
 	addr string
+
+	mu      sync.Mutex    // guards the fields below and addr
+	done    chan struct{} // closed when Start returns
+	inited  time.Time
+	stopped bool
 }
 
 func NewServer(p *goroutine.Pool) *Server {
@@ -25,7 +35,16 @@ func NewServer(p *goroutine.Pool) *Server {
 }
 
 func (s *Server) Start(addr string) error {
+	s.mu.Lock()
+	if s.stopped {
+		s.mu.Unlock()
+		return nil
+	}
 	s.addr = addr
+	s.done = make(chan struct{})
+	s.mu.Unlock()
+	defer close(s.done)
+
 	log.Println("listen: ", addr)
 	return gnet.Serve(s, addr, gnet.WithMulticore(true), gnet.WithReusePort(true))
 }
@@ -34,11 +53,41 @@ func (s *Server) Stop() {
 	log.Println("graceful shutting down...")
 	ctx, cancel := context.WithTimeout(context.Background(), time.Second*5)
 	defer cancel()
-	if err := gnet.Stop(ctx, s.addr); err != nil {
+
+	s.mu.Lock()
+	s.stopped = true
+	addr, done, inited := s.addr, s.done, s.inited
+	s.mu.Unlock()
+	if done == nil {
+		return
+	}
+
+	// gnet misses a stop that comes while it starts
+	time.Sleep(startTime - time.Since(inited))
+	err := gnet.Stop(ctx, addr)
+	for err == gerrors.ErrServerInShutdown {
+		select {
+		case <-done:
+			return
+		case <-ctx.Done():
+			err = ctx.Err()
+		case <-time.After(time.Millisecond * 10):
+			err = gnet.Stop(ctx, addr)
+		}
+	}
+
+	if err != nil {
 		log.Println("stop with err:", err)
 	}
 }
 
+func (s *Server) OnInitComplete(_ gnet.Server) (action gnet.Action) {
+	s.mu.Lock()
+	s.inited = time.Now()
+	s.mu.Unlock()
+	return
+}
+
 func (s *Server) React(frame []byte, c gnet.Conn) (out []byte, action gnet.Action) {
 	var data = make([]byte, len(frame))
 	copy(data, frame)
-- 
2.43.0


From 852136320c83f918e86624b607523fd4c358e8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 45/52] fix: a client leaving with unread replies corrupted the
 replies of others

gnet 1.6.3 puts the output buffer of a connection that closes with unsent
replies into its pool twice, so that later connections share one, and drops a
connection with more than 1024 unsent replies. Connections are served on the
net package now, with one reader and one writer task of the pool each.
---
 server/v2/server.go  | 156 +++++++++++++++++++++++++------------------
 server/v2/session.go | 126 ++++++++++++++++++----------------
 2 files changed, 161 insertions(+), 121 deletions(-)

diff --git a/server/v2/server.go b/server/v2/server.go
index dfe37d0..89b22b9 100644
--- a/server/v2/server.go
+++ b/server/v2/server.go
@@ -1,123 +1,149 @@
 package v2
 
 import (
-	"context"
 	"log"
+	"net"
+	"strings"
 	"sync"
 	"time"
 
-	"github.com/panjf2000/gnet"
-	gerrors "github.com/panjf2000/gnet/pkg/errors"
 	"github.com/panjf2000/gnet/pkg/pool/goroutine"
 
 	"github.com/yusank/godis/event"
 )
 
-// startTime is the time gnet needs to start at most after it is initialized
-const startTime = time.Millisecond * 100
+const (
+	// acceptRetryTime is the pause after a failed accept, e.g. too many open files
+	acceptRetryTime = time.Millisecond * 10
+	// flushTime is the time clients have at a stop to receive replies
+	flushTime = time.Second
+)
 
 type Server struct {
-	*gnet.EventServer
 	pool *goroutine.Pool
-	addr string
+	wg   sync.WaitGroup // sessions
 
-	mu      sync.Mutex    // guards the fields below and addr
-	done    chan struct{} // closed when Start returns
-	inited  time.Time
-	stopped bool
+	mu       sync.Mutex
+	listener net.Listener
+	conns    map[net.Conn]struct{}
+	stopped  bool
 }
 
 func NewServer(p *goroutine.Pool) *Server {
 	return &Server{
-		EventServer: nil,
-		pool:        p,
+		pool:  p,
+		conns: make(map[net.Conn]struct{}),
 	}
 }
 
+// Start serve until Stop
 func (s *Server) Start(addr string) error {
+	log.Println("listen: ", addr)
+
+	network, address := "tcp", addr
+	if i := strings.Index(addr, "://"); i >= 0 {
+		network, address = addr[:i], addr[i+len("://"):]
+	}
+
+	l, err := net.Listen(network, address)
+	if err != nil {
+		return err
+	}
+
 	s.mu.Lock()
+	s.listener = l
 	if s.stopped {
-		s.mu.Unlock()
-		return nil
+		_ = l.Close()
 	}
-	s.addr = addr
-	s.done = make(chan struct{})
 	s.mu.Unlock()
-	defer close(s.done)
 
-	log.Println("listen: ", addr)
-	return gnet.Serve(s, addr, gnet.WithMulticore(true), gnet.WithReusePort(true))
+	s.acceptLoop(l)
+	s.wg.Wait()
+	return nil
 }
 
+// Stop accept no more connections, let sessions end after the command they are at and send its reply.
 func (s *Server) Stop() {
 	log.Println("graceful shutting down...")
-	ctx, cancel := context.WithTimeout(context.Background(), time.Second*5)
-	defer cancel()
 
 	s.mu.Lock()
 	s.stopped = true
-	addr, done, inited := s.addr, s.done, s.inited
+	if s.listener != nil {
+		_ = s.listener.Close()
+	}
 	s.mu.Unlock()
-	if done == nil {
-		return
+
+	event.Stop()
+
+	s.mu.Lock()
+	for conn := range s.conns {
+		_ = conn.SetReadDeadline(time.Now())
+		_ = conn.SetWriteDeadline(time.Now().Add(flushTime))
 	}
+	s.mu.Unlock()
+
+	s.wg.Wait()
+}
 
-	// gnet misses a stop that comes while it starts
-	time.Sleep(startTime - time.Since(inited))
-	err := gnet.Stop(ctx, addr)
-	for err == gerrors.ErrServerInShutdown {
-		select {
-		case <-done:
+func (s *Server) acceptLoop(l net.Listener) {
+	for {
+		conn, err := l.Accept()
+		if err == nil {
+			s.open(conn)
+			continue
+		}
+
+		if s.isStopped() {
 			return
-		case <-ctx.Done():
-			err = ctx.Err()
-		case <-time.After(time.Millisecond * 10):
-			err = gnet.Stop(ctx, addr)
 		}
-	}
 
-	if err != nil {
-		log.Println("stop with err:", err)
+		log.Println("accept err:", err)
+		time.Sleep(acceptRetryTime)
 	}
 }
 
-func (s *Server) OnInitComplete(_ gnet.Server) (action gnet.Action) {
+func (s *Server) isStopped() bool {
 	s.mu.Lock()
-	s.inited = time.Now()
-	s.mu.Unlock()
-	return
+	defer s.mu.Unlock()
+
+	return s.stopped
 }
 
-func (s *Server) React(frame []byte, c gnet.Conn) (out []byte, action gnet.Action) {
-	var data = make([]byte, len(frame))
-	copy(data, frame)
+// open start a session for conn
+func (s *Server) open(conn net.Conn) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 
-	if ss, ok := c.Context().(*session); ok {
-		ss.write(data)
+	if s.stopped {
+		_ = conn.Close()
+		return
 	}
 
-	return
-}
-
-func (s *Server) OnOpened(c gnet.Conn) (out []byte, action gnet.Action) {
-	ss := newSession(c)
-	if err := s.pool.Submit(ss.serve); err != nil {
+	ss := newSession(conn)
+	if err := s.pool.Submit(ss.writeLoop); err != nil {
 		log.Println(err)
-		return nil, gnet.Close
+		_ = conn.Close()
+		return
 	}
 
-	c.SetContext(ss)
-	return
-}
-
-func (s *Server) OnClosed(c gnet.Conn, _ error) (action gnet.Action) {
-	if ss, ok := c.Context().(*session); ok {
-		ss.close()
+	s.conns[conn] = struct{}{}
+	s.wg.Add(1)
+	if err := s.pool.Submit(func() {
+		defer s.closed(conn)
+		ss.serve()
+	}); err != nil {
+		log.Println(err)
+		ss.end()
+		_ = conn.Close()
+		delete(s.conns, conn)
+		s.wg.Done()
 	}
-
-	return
 }
 
-func (s *Server) OnShutdown(srv gnet.Server) {
-	event.Stop()
+// closed forget conn
+func (s *Server) closed(conn net.Conn) {
+	s.mu.Lock()
+	delete(s.conns, conn)
+	s.mu.Unlock()
+	s.wg.Done()
 }
diff --git a/server/v2/session.go b/server/v2/session.go
index 6e68e4d..6be51bd 100644
--- a/server/v2/session.go
+++ b/server/v2/session.go
@@ -2,13 +2,12 @@ package v2
 
 import (
 	"bufio"
-	"bytes"
 	"errors"
 	"io"
 	"log"
+	"net"
 	"sync"
-
-	"github.com/panjf2000/gnet"
+	"time"
 
 	"github.com/yusank/godis/event"
 	"github.com/yusank/godis/protocol"
@@ -17,90 +16,105 @@ import (
 // errProtocol is the last reply to a client which sends no valid request
 var errProtocol = errors.New("ERR Protocol error")
 
-// replies are put together up to this size before they are sent
-const maxBatchSize = 64 << 10
+// drainTime is how long input is thrown away after errProtocol, closing before would reset the connection
+const drainTime = time.Second
 
-// session handles the requests of one connection in the order they come.
-// The event loop writes the bytes it receives and serve reads requests out of them.
+// session handles the requests of one connection in the order they come
 type session struct {
-	conn gnet.Conn
-
-	mu     sync.Mutex
-	cond   *sync.Cond
-	in     bytes.Buffer
-	closed bool
+	conn net.Conn
 
-	out []byte // replies not sent yet, for serve only
+	mu      sync.Mutex
+	cond    *sync.Cond
+	out     []byte        // replies to send
+	ended   bool          // no more replies come
+	written chan struct{} // closed when the writer has returned
 }
 
-func newSession(c gnet.Conn) *session {
-	s := &session{conn: c}
+func newSession(conn net.Conn) *session {
+	s := &session{conn: conn, written: make(chan struct{})}
 	s.cond = sync.NewCond(&s.mu)
 	return s
 }
 
-// write append received bytes
-func (s *session) write(data []byte) {
+// serve handle requests one by one until the client leaves, writeLoop has to run meanwhile.
+func (s *session) serve() {
+	defer s.conn.Close()
+
+	err := s.handleRequests()
+	if err != nil {
+		log.Println(err)
+		s.send(protocol.NewResponseWithError(errProtocol).Encode())
+	}
+
+	s.end()
+	if err != nil {
+		_ = s.conn.SetReadDeadline(time.Now().Add(drainTime))
+		_, _ = io.Copy(io.Discard, s.conn)
+	}
+	<-s.written
+}
+
+// handleRequests return nil if the connection has come to its end
+func (s *session) handleRequests() error {
+	r := bufio.NewReader(s.conn)
+	for {
+		rec, err := protocol.DecodeFromReader(r)
+		var netErr net.Error
+		if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || errors.As(err, &netErr) {
+			return nil
+		}
+
+		if err != nil {
+			return err
+		}
+
+		s.send(event.HandleRequest(rec))
+	}
+}
+
+// send let the writer send a reply, the client may not read it yet.
+func (s *session) send(reply []byte) {
 	s.mu.Lock()
-	_, _ = s.in.Write(data)
+	s.out = append(s.out, reply...)
 	s.mu.Unlock()
 	s.cond.Signal()
 }
 
-// close let serve return after the bytes received so far
-func (s *session) close() {
+// end let the writer return after the replies so far
+func (s *session) end() {
 	s.mu.Lock()
-	s.closed = true
+	s.ended = true
 	s.mu.Unlock()
 	s.cond.Signal()
 }
 
-// Read received bytes, wait for them if there is none.
-func (s *session) Read(p []byte) (int, error) {
+// next wait for replies to send, empty if no more come.
+func (s *session) next() []byte {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	for s.in.Len() == 0 && !s.closed {
-		// client may wait for these before it sends more
-		s.flush()
+	for len(s.out) == 0 && !s.ended {
 		s.cond.Wait()
 	}
 
-	return s.in.Read(p)
-}
-
-func (s *session) flush() {
-	if len(s.out) == 0 {
-		return
-	}
-
-	_ = s.conn.AsyncWrite(s.out)
+	out := s.out
 	s.out = nil
+	return out
 }
 
-// serve handle requests one by one until connection closed
-func (s *session) serve() {
-	defer func() {
-		s.flush()
-		_ = s.conn.Close()
-	}()
-
-	r := bufio.NewReader(s)
-	for {
-		rec, err := protocol.DecodeFromReader(r)
-		if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
-			return
-		}
+// writeLoop send replies until serve has ended
+func (s *session) writeLoop() {
+	defer close(s.written)
 
-		if err != nil {
-			log.Println(err)
-			s.out = append(s.out, protocol.NewResponseWithError(errProtocol).Encode()...)
+	for out := s.next(); len(out) > 0; out = s.next() {
+		if _, err := s.conn.Write(out); err != nil {
+			// client left
+			_ = s.conn.Close()
 			return
 		}
+	}
 
-		s.out = append(s.out, event.HandleRequest(rec)...)
-		if len(s.out) >= maxBatchSize {
-			s.flush()
-		}
+	if c, ok := s.conn.(interface{ CloseWrite() error }); ok {
+		_ = c.CloseWrite()
 	}
 }
-- 
2.43.0


From c970ae0a0b93055f67828943f114ad8b7e6a3345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 46/52] fix: LREM from the head left the key of an emptied list
 behind

---
 datastruct/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/list.go b/datastruct/list.go
index ea60fe9..8a461ad 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -551,11 +551,11 @@ func LRem(key string, count int, value string) (n int, err error) {
 		return 0, err
 	}
 
+	defer func() { removeIfEmpty(key, list.length) }()
 	if count > 0 {
 		return list.LRemCountFromHead(value, count), nil
 	}
 
-	defer func() { removeIfEmpty(key, list.length) }()
 	if count < -list.length {
 		// negating the smallest integer would overflow
 		count = -list.length
-- 
2.43.0


From 7c31aa825d934d9e0e3c6eee02846ef7465f22b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 47/52] fix: ZPOPMIN and ZPOPMAX answered an empty array for a
 key of another type

---
 redis/sorted_set.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index f33023f..0cd5ec7 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -290,12 +290,12 @@ func zPopMin(c *Command) (*protocol.Response, error) {
 	}
 
 	values, err := datastruct.ZPopMin(key, cnt)
-	if err == datastruct.ErrNil || len(values) == 0 {
-		return protocol.NewResponseWithEmptyArray(), nil
+	if err != nil && err != datastruct.ErrNil {
+		return nil, err
 	}
 
-	if err != nil {
-		return nil, err
+	if len(values) == 0 {
+		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
@@ -321,12 +321,12 @@ func zPopMix(c *Command) (*protocol.Response, error) {
 	}
 
 	values, err := datastruct.ZPopMax(key, cnt)
-	if err == datastruct.ErrNil || len(values) == 0 {
-		return protocol.NewResponseWithEmptyArray(), nil
+	if err != nil && err != datastruct.ErrNil {
+		return nil, err
 	}
 
-	if err != nil {
-		return nil, err
+	if len(values) == 0 {
+		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
-- 
2.43.0


From da68c29122fd6ff1320f79bac569992d5da339a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 48/52] fix: the generator registered commented-out handlers
 and missed or misnamed others

---
 cmd/gen_redis_cmd/main.go | 68 +++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index 9251e3b..d6ac1bd 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -1,7 +1,9 @@
 package main
 
 import (
-	"bufio"
+	"go/ast"
+	"go/parser"
+	"go/token"
 	"log"
 	"os"
 	"regexp"
@@ -46,42 +48,46 @@ func readAndParseFile(fp string) ([]KV, error) {
 		return nil, nil
 	}
 
-	f, err := os.Open(fp)
+	src, err := os.ReadFile(fp)
+	if err != nil {
+		return nil, err
+	}
+
+	var fset = token.NewFileSet()
+	f, err := parser.ParseFile(fset, fp, src, parser.ParseComments)
 	if err != nil {
 		return nil, err
 	}
-	defer noOp(f.Close)
 
-	var (
-		scanner  = bufio.NewScanner(f)
-		lastLine string // for read func comment
-	)
-
-	for scanner.Scan() {
-		fName := regexCmdFuncStr(scanner.Text())
-		if fName != "" {
-			kv := KV{
-				CmdName:  strings.ToLower(fName),
-				FuncName: fName,
-			}
-
-			if lastLine != "" {
-				kv.CmdName = strings.ToLower(
-					strings.TrimSpace(
-						strings.TrimPrefix(
-							strings.TrimSuffix(lastLine, "."),
-							"//"),
-					),
-				)
-			}
-
-			kvs = append(kvs, kv)
+	for _, decl := range f.Decls {
+		fn, ok := decl.(*ast.FuncDecl)
+		if !ok || fn.Body == nil {
+			continue
 		}
-		lastLine = strings.TrimSpace(scanner.Text())
 
-		if err != nil {
-			return nil, err
+		fName := regexCmdFuncStr(string(src[fset.Position(fn.Pos()).Offset:fset.Position(fn.Body.Pos()).Offset]))
+		if fName == "" {
+			continue
 		}
+
+		kv := KV{
+			CmdName:  strings.ToLower(fName),
+			FuncName: fName,
+		}
+
+		// the comment line right above is the name
+		if fn.Doc != nil {
+			lastLine := fn.Doc.List[len(fn.Doc.List)-1].Text
+			kv.CmdName = strings.ToLower(
+				strings.TrimSpace(
+					strings.TrimPrefix(
+						strings.TrimSuffix(lastLine, "."),
+						"//"),
+				),
+			)
+		}
+
+		kvs = append(kvs, kv)
 	}
 
 	return kvs, nil
@@ -124,7 +130,7 @@ func init() {
 var fNameRegex *regexp.Regexp
 
 func init() {
-	r, err := regexp.Compile(`func\s+([A-Za-z]+)\(c \*Command\)\s+\(\*protocol.Response,\s+error\)`)
+	r, err := regexp.Compile(`^func\s+(\w+)\(c \*Command\)\s+\(\*protocol.Response,\s+error\)`)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From fbc974d377a24ee378d614fc02a09b04c47beeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 49/52] fix: the generator wrote to a wrong path when a
 directory name contains .go

---
 cmd/gen_redis_cmd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index d6ac1bd..7992b3b 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -94,7 +94,7 @@ func readAndParseFile(fp string) ([]KV, error) {
 }
 
 func writeFile(name string, kvs []KV) error {
-	name = strings.Replace(name, ".go", generatedFileSuffix, 1)
+	name = strings.TrimSuffix(name, ".go") + generatedFileSuffix
 	f, err := os.Create(name)
 	if err != nil {
 		return err
-- 
2.43.0


From a887cc1136f74f578f9cc92397cbaddc414f78b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:14 +0000
Subject: [PATCH 50/52] fix: command names spelled with the Kelvin sign or a
 dotted capital I reached commands

---
 redis/command.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redis/command.go b/redis/command.go
index 68f0712..fd77da4 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -30,6 +30,11 @@ func NewCommandFromReceive(ctx context.Context, rec *protocol.Receive) *Command
 		Values:  rec.Elements[1:],
 	}
 
+	if len(c.Command) != len(rec.Elements[0]) {
+		// some letters beyond ASCII have an ASCII one as their lower case, the Kelvin sign for example
+		c.Command = rec.Elements[0]
+	}
+
 	return c
 }
 
-- 
2.43.0


From 0659be919dd9556db8c1ab65f941f0353dc86681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 51/52] fix: the inline PING was recorded twice in the request
 log

---
 protocol/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 33f4bfe..642ff46 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -146,7 +146,7 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 		//str = string(line[1 : len(line)-CRLFLen])
 	default:
 		if string(line) == "PING\r\n" {
-			r.append("PING", "PING\r\n")
+			r.append("PING", "")
 			return 0, DescriptionSimpleStrings, nil
 		}
 		return 0, 0, fmt.Errorf("unsupport protocol: %s", string(line))
-- 
2.43.0


From cc5ff3786388ecd4d7a34ed48e11ed25e997f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:20 +0000
Subject: [PATCH 52/52] fix: SDIFF and SUNION copied the whole result for every
 key named

---
 datastruct/set.go | 51 +++++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 3d64a62..2669064 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -53,17 +53,24 @@ func (s *set) sPop(cnt int) []string {
 	return result
 }
 
-func sDiff(s1, s2 *set) *set {
-	var result = newSet()
-	s1.m.Range(func(key string, _ interface{}) bool {
-		if !s2.m.Has(key) {
-			result.sAdd(key)
+// sub remove the elements of other, which is not s itself, from s.
+func (s *set) sub(other *set) {
+	if other.length < s.length {
+		other.m.Range(func(key string, _ interface{}) bool {
+			s.sRem(key)
+			return true
+		})
+		return
+	}
+
+	s.m.RangeAndDelete(func(key string, _ interface{}) (del, rng bool) {
+		del = other.m.Has(key)
+		if del {
+			s.length--
 		}
 
-		return true
+		return del, true
 	})
-
-	return result
 }
 
 func sInter(s1, s2 *set) *set {
@@ -79,14 +86,18 @@ func sInter(s1, s2 *set) *set {
 	return result
 }
 
+// add the elements of other to s.
+func (s *set) add(other *set) {
+	other.m.Range(func(key string, _ interface{}) bool {
+		s.sAdd(key)
+		return true
+	})
+}
+
 func sUnion(sets ...*set) *set {
 	var result = newSet()
 	for _, s := range sets {
-		s.m.Range(func(key string, _ interface{}) bool {
-			result.sAdd(key)
-			return true
-		})
-
+		result.add(s)
 	}
 
 	return result
@@ -225,11 +236,12 @@ func SDiff(keys ...string) ([]string, error) {
 		}
 
 		if i == 0 {
-			result = s
+			// never take elements from the source
+			result = sUnion(s)
 			continue
 		}
 
-		result = sDiff(result, s)
+		result.sub(s)
 	}
 
 	if result == nil || result.length == 0 {
@@ -254,7 +266,7 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 			continue
 		}
 
-		result = sDiff(result, s)
+		result.sub(s)
 	}
 
 	if result == nil {
@@ -337,11 +349,12 @@ func SUnion(keys ...string) ([]string, error) {
 		}
 
 		if i == 0 {
-			result = s
+			// never add elements to the source
+			result = sUnion(s)
 			continue
 		}
 
-		result = sUnion(result, s)
+		result.add(s)
 	}
 
 	if result == nil || result.length == 0 {
@@ -366,7 +379,7 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 			continue
 		}
 
-		result = sUnion(result, s)
+		result.add(s)
 	}
 
 	if result == nil {
-- 
2.43.0

