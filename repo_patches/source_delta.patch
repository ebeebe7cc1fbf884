From 23549cb579e397bd351c04cc4c433ef41371fb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:17 +0000
Subject: [PATCH 01/90] fix: keep the bytes of values that only look numeric

Set("007"), "1e3", "1.50" or "inf" were read back as "7", "1000", "1.5" and
"+Inf". Store a number only when it prints back as the bytes given; the float
increments parse the remaining decimal strings themselves.
---
 cache/cachehash.go   |  4 +++-
 cache/cachestring.go | 13 +++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index b79a1ea..d41ab98 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -225,8 +225,10 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 	case string:
 		if val == ""{
 			f = increment
+		}else if f, err = strconv.ParseFloat(val, 64); err != nil{
+			f, err = 0, ErrHashValueIsNotFloat
 		}else{
-			err = ErrHashValueIsNotFloat
+			f += increment
 		}
 	case int:
 		f = float64(val) + increment
diff --git a/cache/cachestring.go b/cache/cachestring.go
index ce49c68..a79c87c 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -14,10 +14,11 @@ func (c *Cache) Set(key, value string) (string, error) {
 }
 
 func tryInt64(value string) interface{} {
-	if n, err := strconv.Atoi(value); err == nil {
+	// only when the number prints back as the same bytes: "007", "1e3" and "inf" stay strings
+	if n, err := strconv.Atoi(value); err == nil && strconv.Itoa(n) == value {
 		// try convert string value to int
 		return n
-	} else if f, err := strconv.ParseFloat(value, 64); err == nil {
+	} else if f, err := strconv.ParseFloat(value, 64); err == nil && strconv.FormatFloat(f, 'f', -1, 64) == value {
 		// try float
 		return f
 	}
@@ -289,6 +290,14 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 		f := float64(val) + increment
 		c.dataDict.Store(key, f)
 		return f, nil
+	case string:
+		f, err := strconv.ParseFloat(val, 64)
+		if err != nil {
+			return 0, ErrWrongType
+		}
+		f += increment
+		c.dataDict.Store(key, f)
+		return f, nil
 	default:
 		return 0, ErrWrongType
 	}
-- 
2.43.0


From 718ceb1815029ed919d527d90e37afd38d23e4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:38 +0000
Subject: [PATCH 02/90] fix: overwriting a key drops its expiry, and an expired
 key counts as absent

Set, GetSet and MSet left the old expiry in place, so the new value vanished
with it. SetNX, MSetNX, the increments and Exists saw keys whose expiry had
passed.
---
 cache/cachedb.go     | 2 +-
 cache/cachestring.go | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index b675204..fbacfaa 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -23,7 +23,7 @@ func (c *Cache) Flush() {
 
 func (c *Cache) Exists(keys ...string) (n int){
 	for _, key := range keys{
-		if _, ok := c.dataDict.Load(key); ok{
+		if _, ok := c.get(key); ok{
 			n++
 		}
 	}
diff --git a/cache/cachestring.go b/cache/cachestring.go
index a79c87c..9b4f0a4 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -10,6 +10,7 @@ func (c *Cache) Set(key, value string) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
+	c.expires(key, 0)
 	return OK, nil
 }
 
@@ -31,6 +32,7 @@ func (c *Cache) SetNX(key, value string) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	c.expired(key)
 	if _, loaded := c.dataDict.LoadOrStore(key, tryInt64(value)); loaded {
 		return 0, nil
 	} else {
@@ -105,6 +107,7 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 	old, ok := c.get(key)
 
 	c.dataDict.Store(key, tryInt64(value))
+	c.expires(key, 0)
 
 	if !ok{
 		return "", ErrKeyNil
@@ -240,6 +243,7 @@ func (c *Cache) IncrBy(key string, increment int64) (int, error) {
 }
 
 func (c *Cache) incrBy(key string, increment int64) (int, error) {
+	c.expired(key)
 	actual, ok := c.dataDict.LoadOrStore(key, increment)
 	if !ok {
 		return int(increment), nil
@@ -276,6 +280,7 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	c.expired(key)
 	actual, ok := c.dataDict.LoadOrStore(key, increment)
 	if !ok {
 		return increment, nil
@@ -324,6 +329,7 @@ func (c *Cache) MSet(kv map[string]string) (ok string) {
 
 	for k, v := range kv {
 		c.dataDict.Store(k, tryInt64(v))
+		c.expires(k, 0)
 	}
 
 	return OK
@@ -336,6 +342,7 @@ func (c *Cache) MSetNX(kv map[string]string) int {
 	n := 0
 
 	for k, v := range kv {
+		c.expired(k)
 		if _, loaded := c.dataDict.LoadOrStore(k, tryInt64(v)); !loaded {
 			n++
 		}
-- 
2.43.0


From 6cb892a8535c9f158009124029663a83fd7ae250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:41 +0000
Subject: [PATCH 03/90] fix: a very long expiry must not overflow into a short
 or absent one

---
 cache/cachestring.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 9b4f0a4..62f5270 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -1,6 +1,7 @@
 package cache
 
 import (
+	"math"
 	"strconv"
 	"time"
 )
@@ -46,6 +47,9 @@ func (c *Cache) SetEX(key, value string, expires int64) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
+	if expires > int64(math.MaxInt64/time.Second) {
+		expires = int64(math.MaxInt64 / time.Second)
+	}
 	c.expires(key, time.Second*time.Duration(expires))
 
 	return OK, nil
@@ -56,6 +60,9 @@ func (c *Cache) PSetEX(key, value string, expiresMs int64) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
+	if expiresMs > int64(math.MaxInt64/time.Millisecond) {
+		expiresMs = int64(math.MaxInt64 / time.Millisecond)
+	}
 	c.expires(key, time.Millisecond*time.Duration(expiresMs))
 
 	return OK, nil
-- 
2.43.0


From 97453d519e1945b6f2a9c132a6bc7cecf78c29c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:02 +0000
Subject: [PATCH 04/90] fix: integer and float increments work on each other's
 results

Incr left an int64 behind, which IncrByFloat refused, and IncrByFloat left a
float64 behind, which Incr refused even when it was integral.
---
 cache/cachestring.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 62f5270..debd2e5 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -28,6 +28,11 @@ func tryInt64(value string) interface{} {
 	return value
 }
 
+// the value of a float result, an integral one is an int again
+func floatValue(f float64) interface{} {
+	return tryInt64(strconv.FormatFloat(f, 'f', -1, 64))
+}
+
 // SET if Not eXists
 func (c *Cache) SetNX(key, value string) (int, error) {
 	c.lock.Lock()
@@ -251,7 +256,7 @@ func (c *Cache) IncrBy(key string, increment int64) (int, error) {
 
 func (c *Cache) incrBy(key string, increment int64) (int, error) {
 	c.expired(key)
-	actual, ok := c.dataDict.LoadOrStore(key, increment)
+	actual, ok := c.dataDict.LoadOrStore(key, int(increment))
 	if !ok {
 		return int(increment), nil
 	}
@@ -288,7 +293,7 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	defer c.lock.Unlock()
 
 	c.expired(key)
-	actual, ok := c.dataDict.LoadOrStore(key, increment)
+	actual, ok := c.dataDict.LoadOrStore(key, floatValue(increment))
 	if !ok {
 		return increment, nil
 	}
@@ -296,11 +301,11 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	switch val := actual.(type) {
 	case float64:
 		val += increment
-		c.dataDict.Store(key, val)
+		c.dataDict.Store(key, floatValue(val))
 		return val, nil
 	case int:
 		f := float64(val) + increment
-		c.dataDict.Store(key, f)
+		c.dataDict.Store(key, floatValue(f))
 		return f, nil
 	case string:
 		f, err := strconv.ParseFloat(val, 64)
@@ -308,7 +313,7 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 			return 0, ErrWrongType
 		}
 		f += increment
-		c.dataDict.Store(key, f)
+		c.dataDict.Store(key, floatValue(f))
 		return f, nil
 	default:
 		return 0, ErrWrongType
-- 
2.43.0


From 8d2e2222e6fd672cee307e3a60110e821f857627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:04 +0000
Subject: [PATCH 05/90] fix: refuse an increment that does not fit 64 bits
 instead of wrapping around

---
 cache/cache.go       |  1 +
 cache/cachestring.go | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index cf717fb..d8db33d 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -29,6 +29,7 @@ func (c *Cache) Cron() {
 
 var ErrKeyNil = errors.New("redis nil")
 var ErrWrongType = errors.New("wrong type,operation against a key holding the wrong kind of value")
+var ErrOverflow = errors.New("increment or decrement would overflow")
 var ErrOffsetOutOfRange = errors.New("offset is out of range")
 
 var OK = "OK"
diff --git a/cache/cachestring.go b/cache/cachestring.go
index debd2e5..b19b96b 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -28,6 +28,11 @@ func tryInt64(value string) interface{} {
 	return value
 }
 
+// if a + b does not fit an int
+func addOverflows(a, b int) bool {
+	return (b > 0 && a > math.MaxInt64-b) || (b < 0 && a < math.MinInt64-b)
+}
+
 // the value of a float result, an integral one is an int again
 func floatValue(f float64) interface{} {
 	return tryInt64(strconv.FormatFloat(f, 'f', -1, 64))
@@ -261,6 +266,10 @@ func (c *Cache) incrBy(key string, increment int64) (int, error) {
 		return int(increment), nil
 	}
 
+	if t, ok := actual.(int); ok && addOverflows(t, int(increment)) {
+		return 0, ErrOverflow
+	}
+
 	var n int
 	var val interface{}
 	switch t := actual.(type) {
@@ -331,6 +340,10 @@ func (c *Cache) DecrBy(key string, decrement int64) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	if decrement == math.MinInt64 {
+		return 0, ErrOverflow
+	}
+
 	return c.incrBy(key, -decrement)
 
 }
-- 
2.43.0


From f7ae71e3bcb8b6fbc35f2b25df44419e6146e80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:33 +0000
Subject: [PATCH 06/90] fix: refuse a float increment whose result is not a
 finite number

Adding to "+Inf" or "NaN", or beyond the largest float, stored an infinity.
---
 cache/cachestring.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index b19b96b..9691c9a 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -33,6 +33,10 @@ func addOverflows(a, b int) bool {
 	return (b > 0 && a > math.MaxInt64-b) || (b < 0 && a < math.MinInt64-b)
 }
 
+func notFinite(f float64) bool {
+	return math.IsNaN(f) || math.IsInf(f, 0)
+}
+
 // the value of a float result, an integral one is an int again
 func floatValue(f float64) interface{} {
 	return tryInt64(strconv.FormatFloat(f, 'f', -1, 64))
@@ -301,32 +305,38 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	if notFinite(increment) {
+		return 0, ErrOverflow
+	}
+
 	c.expired(key)
 	actual, ok := c.dataDict.LoadOrStore(key, floatValue(increment))
 	if !ok {
 		return increment, nil
 	}
 
+	var f float64
 	switch val := actual.(type) {
 	case float64:
-		val += increment
-		c.dataDict.Store(key, floatValue(val))
-		return val, nil
+		f = val + increment
 	case int:
-		f := float64(val) + increment
-		c.dataDict.Store(key, floatValue(f))
-		return f, nil
+		f = float64(val) + increment
 	case string:
-		f, err := strconv.ParseFloat(val, 64)
+		n, err := strconv.ParseFloat(val, 64)
 		if err != nil {
 			return 0, ErrWrongType
 		}
-		f += increment
-		c.dataDict.Store(key, floatValue(f))
-		return f, nil
+		f = n + increment
 	default:
 		return 0, ErrWrongType
 	}
+
+	if notFinite(f) {
+		return 0, ErrOverflow
+	}
+
+	c.dataDict.Store(key, floatValue(f))
+	return f, nil
 }
 
 func (c *Cache) Decr(key string) (int, error) {
-- 
2.43.0


From 4ade4228c0d3b5659c8638874f86c2027aa4dcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:36 +0000
Subject: [PATCH 07/90] fix: GetRange with a far negative start must not count
 up from it

GetRange(key, -1<<62, -1) looped for 2^62 steps under the read lock.
---
 cache/cachestring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 9691c9a..7c3622d 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -233,6 +233,9 @@ func (c *Cache) GetRange(key string, start, end int) (string, error) {
 	if start < 0 {
 		start = len(oldStr) + start
 	}
+	if start < 0 {
+		start = 0
+	}
 	if end < 0 {
 		end = len(oldStr) + end
 	}
-- 
2.43.0


From 4d81ed0212a8f12ec544d9318f5864d31f62ca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:00 +0000
Subject: [PATCH 08/90] fix: refuse a SetRange that would exceed the redis
 string limit

A huge offset panicked or exhausted the memory.
---
 cache/cachestring.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 7c3622d..5470652 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -42,6 +42,9 @@ func floatValue(f float64) interface{} {
 	return tryInt64(strconv.FormatFloat(f, 'f', -1, 64))
 }
 
+// redis limit for the length of a string value
+const maxStringLen = 512 * 1024 * 1024
+
 // SET if Not eXists
 func (c *Cache) SetNX(key, value string) (int, error) {
 	c.lock.Lock()
@@ -177,7 +180,7 @@ func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
-	if pos < 0 {
+	if pos < 0 || pos > maxStringLen-len(replace) {
 		return 0, ErrOffsetOutOfRange
 	}
 
-- 
2.43.0


From 176593aed8f9afd04ba29d87fdbabe0cbffb68e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:03 +0000
Subject: [PATCH 09/90] fix: GetSet on a hash must not replace it while
 reporting the wrong type

---
 cache/cachestring.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 5470652..61f8345 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -129,6 +129,11 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 	defer c.lock.Unlock()
 
 	old, ok := c.get(key)
+	if ok {
+		if _, err := fmtString(old); err != nil {
+			return "", err
+		}
+	}
 
 	c.dataDict.Store(key, tryInt64(value))
 	c.expires(key, 0)
-- 
2.43.0


From 906c167c024e2e6274cf7daccda725c4e6c04e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:06 +0000
Subject: [PATCH 10/90] fix: MSet, MSetNX, MGet, Exists and Type take the cache
 lock

They ran unlocked: MSet and MGet were not atomic, MGet could delete a key
another goroutine had just rewritten, and all of them raced with Flush.
---
 cache/cachedb.go     |  6 ++++++
 cache/cachestring.go | 12 ++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index fbacfaa..6a303a7 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -22,6 +22,9 @@ func (c *Cache) Flush() {
 }
 
 func (c *Cache) Exists(keys ...string) (n int){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	for _, key := range keys{
 		if _, ok := c.get(key); ok{
 			n++
@@ -32,6 +35,9 @@ func (c *Cache) Exists(keys ...string) (n int){
 }
 
 func (c *Cache)Type(key string) string {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	v, ok := c.get(key)
 	if !ok{
 		return "none"
diff --git a/cache/cachestring.go b/cache/cachestring.go
index 61f8345..085353b 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -370,8 +370,8 @@ func (c *Cache) DecrBy(key string, decrement int64) (int, error) {
 }
 
 func (c *Cache) MSet(kv map[string]string) (ok string) {
-	//c.lock.Lock()
-	//defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	for k, v := range kv {
 		c.dataDict.Store(k, tryInt64(v))
@@ -382,8 +382,8 @@ func (c *Cache) MSet(kv map[string]string) (ok string) {
 }
 
 func (c *Cache) MSetNX(kv map[string]string) int {
-	//c.lock.Lock()
-	//defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	n := 0
 
@@ -398,8 +398,8 @@ func (c *Cache) MSetNX(kv map[string]string) int {
 }
 
 func (c *Cache) MGet(keys ...string) []interface{} {
-	//c.lock.RLock()
-	//defer c.lock.RUnlock()
+	c.lock.RLock()
+	defer c.lock.RUnlock()
 
 	var values = make([]interface{}, len(keys))
 	for id, k := range keys {
-- 
2.43.0


From 4aad682bdb283b1b29adc3dedf6c144f94dbad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:09 +0000
Subject: [PATCH 11/90] fix: MSetNX sets nothing when one of the keys exists

---
 cache/cachestring.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 085353b..78513c8 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -387,8 +387,13 @@ func (c *Cache) MSetNX(kv map[string]string) int {
 
 	n := 0
 
+	for k := range kv {
+		if _, ok := c.get(k); ok {
+			return 0
+		}
+	}
+
 	for k, v := range kv {
-		c.expired(k)
 		if _, loaded := c.dataDict.LoadOrStore(k, tryInt64(v)); !loaded {
 			n++
 		}
-- 
2.43.0


From a7019b5c04b4d7ad3236f3c1463112b17ca0bca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:46 +0000
Subject: [PATCH 12/90] fix: the hash commands take the cache lock

They ran unlocked: concurrent writers lost fields, increments and whole
hashes, and raced on the length counter.
---
 cache/cachehash.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index d41ab98..6fda09e 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -51,6 +51,9 @@ func (c *Cache) getHashEntry(key string) (*hashEntry, error) {
 }
 
 func (c *Cache) HSet(key string, field string, value string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -66,6 +69,9 @@ func (c *Cache) HSet(key string, field string, value string) (n int, err error)
 
 //HGET
 func (c *Cache) HSetNX(key string, field string, value string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -86,6 +92,9 @@ func (c *Cache) HSetNX(key string, field string, value string) (n int, err error
 
 //HEXISTS
 func (c *Cache) HExists(key string, field string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -106,6 +115,9 @@ func (c *Cache) HExists(key string, field string) (n int, err error) {
 
 //HDEL
 func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -131,6 +143,9 @@ func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
 
 //HLEN
 func (c *Cache) HLen(key string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -145,6 +160,9 @@ func (c *Cache) HLen(key string) (n int, err error) {
 
 //HSTRLEN
 func (c *Cache) HStrLen(key, field string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil || he == nil {
 		return n, err
@@ -158,6 +176,9 @@ func (c *Cache) HStrLen(key, field string) (n int, err error) {
 }
 
 func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return n, err
@@ -205,6 +226,9 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 var ErrHashValueIsNotFloat = errors.New("hash value is not a float")
 //HINCRBY
 func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return f, err
@@ -252,6 +276,9 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 }
 //HMSET
 func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return n, err
@@ -271,6 +298,9 @@ func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
 
 //HMGET
 func (c *Cache)HMGet(key string, fields ...string) ([]interface{}, error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -295,6 +325,9 @@ func (c *Cache)HMGet(key string, fields ...string) ([]interface{}, error) {
 
 //HKEYS
 func(c *Cache) HKeys(key string)(fields []string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -312,6 +345,9 @@ func(c *Cache) HKeys(key string)(fields []string,err error){
 
 //HVALS
 func(c *Cache) HVals(key string)(values []string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -329,6 +365,9 @@ func(c *Cache) HVals(key string)(values []string,err error){
 
 //HGETALL
 func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -348,6 +387,9 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 }
 //HSCAN
 func (c *Cache) HGet(key string, field string) (value string, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return value, err
-- 
2.43.0


From c9ee688b2b0362864479ac5c8e6daa81c18eacb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 13/90] fix: HExists must not change the length of the hash

---
 cache/cachehash.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 6fda09e..c92ab18 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -108,8 +108,6 @@ func (c *Cache) HExists(key string, field string) (n int, err error) {
 		n = 1
 	}
 
-	he.length -= n
-
 	return n, err
 }
 
-- 
2.43.0


From 532c5b8eff5ef45d81a2f84ec0d0898f80f59ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:52 +0000
Subject: [PATCH 14/90] fix: HIncrBy and HIncrByFloat store the sum, not the
 increment

---
 cache/cachehash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index c92ab18..1e2fad5 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -215,7 +215,7 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 	}
 
 	if err == nil{
-		he.set(field, strconv.Itoa(increment))
+		he.set(field, strconv.Itoa(n))
 	}
 
 	return n, err
@@ -267,7 +267,7 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 	}
 
 	if err == nil{
-		he.set(field, strconv.FormatFloat(increment, 'f', -1, 64))
+		he.set(field, strconv.FormatFloat(f, 'f', -1, 64))
 	}
 
 	return f, err
-- 
2.43.0


From aa8c96c7c4468dd49da952477f20046635cabd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:55 +0000
Subject: [PATCH 15/90] fix: HIncrByFloat refused fields that hold a decimal
 number

---
 cache/cachehash.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 1e2fad5..d49c25f 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -252,6 +252,8 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 		}else{
 			f += increment
 		}
+	case float64:
+		f = val + increment
 	case int:
 		f = float64(val) + increment
 	case int32:
-- 
2.43.0


From 19d569444a11131d1f89fdd418191134391ab701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:59 +0000
Subject: [PATCH 16/90] fix: refuse hash increments that overflow or are not
 finite

---
 cache/cachehash.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index d49c25f..19b085f 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -201,7 +201,11 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 			err = ErrHashValueIsNotFloat
 		}
 	case int:
-		n = val + increment
+		if addOverflows(val, increment) {
+			err = ErrOverflow
+		} else {
+			n = val + increment
+		}
 	case int32:
 		n = int(val) + increment
 	case int64:
@@ -232,6 +236,10 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 		return f, err
 	}
 
+	if notFinite(increment) {
+		return f, ErrOverflow
+	}
+
 	if he == nil{
 		he = newHash()
 		c.dataDict.Store(key, he)
@@ -268,6 +276,10 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 		err = ErrHashValueIsNotFloat
 	}
 
+	if err == nil && notFinite(f) {
+		f, err = 0, ErrOverflow
+	}
+
 	if err == nil{
 		he.set(field, strconv.FormatFloat(f, 'f', -1, 64))
 	}
-- 
2.43.0


From 9cd9f6ab0dcbd4c7140d6e4fcfa60cf983d24b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:03 +0000
Subject: [PATCH 17/90] fix: HSetNX stores numbers like HSet, so that HIncrBy
 accepts them

---
 cache/cachehash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 19b085f..ddeaa60 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -82,7 +82,7 @@ func (c *Cache) HSetNX(key string, field string, value string) (n int, err error
 		c.dataDict.Store(key, he)
 	}
 
-	if _, ok := he.LoadOrStore(field, value); !ok {
+	if _, ok := he.LoadOrStore(field, tryInt64(value)); !ok {
 		he.length++
 		n = 1
 	}
-- 
2.43.0


From bc8d6fefd648c76f4d85444c2fcf14e69a9711d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:06 +0000
Subject: [PATCH 18/90] fix: a hash without fields does not exist

---
 cache/cachehash.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index ddeaa60..e90d762 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -136,6 +136,11 @@ func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
 		he.length -= n
 	}
 
+	if he.length == 0 {
+		c.dataDict.Delete(key)
+		c.expiresDict.Delete(key)
+	}
+
 	return n, nil
 }
 
@@ -296,6 +301,10 @@ func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
 		return n, err
 	}
 
+	if len(fv) == 0 {
+		return n, err
+	}
+
 	if he == nil{
 		he = newHash()
 		c.dataDict.Store(key, he)
-- 
2.43.0


From c1bad90f8116e010050f86440696b5a704fe8d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:09 +0000
Subject: [PATCH 19/90] fix: HKeys, HVals and HGetAll crashed on a missing key

---
 cache/cachehash.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index e90d762..1a95209 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -354,6 +354,10 @@ func(c *Cache) HKeys(key string)(fields []string,err error){
 		return nil, err
 	}
 
+	if he == nil{
+		return nil, nil
+	}
+
 	 he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
 			fields = append(fields, field)
@@ -374,6 +378,10 @@ func(c *Cache) HVals(key string)(values []string,err error){
 		return nil, err
 	}
 
+	if he == nil{
+		return nil, nil
+	}
+
 	he.Range(func(key, value interface{}) bool {
 		if field, ok := value.(string); ok{
 			values = append(values, field)
@@ -394,6 +402,10 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 		return nil, err
 	}
 
+	if he == nil{
+		return nil, nil
+	}
+
 	he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
 			if v, err := fmtString(value); err != nil{
-- 
2.43.0


From cb096757104c7f85bc5e251695bfcc56d35938c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:12 +0000
Subject: [PATCH 20/90] fix: HVals left out numbers and HGetAll left out
 everything

---
 cache/cachehash.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 1a95209..b45a4ed 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -383,8 +383,8 @@ func(c *Cache) HVals(key string)(values []string,err error){
 	}
 
 	he.Range(func(key, value interface{}) bool {
-		if field, ok := value.(string); ok{
-			values = append(values, field)
+		if v, err := fmtString(value); err == nil{
+			values = append(values, v)
 		}
 		return true
 	})
@@ -406,9 +406,10 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 		return nil, nil
 	}
 
+	kv = make(map[string]string)
 	he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
-			if v, err := fmtString(value); err != nil{
+			if v, err := fmtString(value); err == nil{
 				kv[field] = v
 			}
 		}
-- 
2.43.0


From d5074f46ead9176974afa2e9859f9d0ea07457f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 21/90] fix: Type reported hashes as strings

---
 cache/cachedb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index 6a303a7..26b8550 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -44,7 +44,7 @@ func (c *Cache)Type(key string) string {
 	}
 
 	switch v.(type) {
-	case hashEntry:
+	case *hashEntry:
 		return "hash"
 	default:
 		return "string"
-- 
2.43.0


From e9d97506770f565bd216f0ce9cde01ffbffe46a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:42 +0000
Subject: [PATCH 22/90] fix: the sweeper deleted every key

It walked the values instead of the expiry times, and a value that is not a
time counted as long expired.
---
 cache/cachecron.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache/cachecron.go b/cache/cachecron.go
index e9aaa43..e330032 100644
--- a/cache/cachecron.go
+++ b/cache/cachecron.go
@@ -6,10 +6,11 @@ import "time"
 func (c *Cache) cronExpire(duration time.Duration) {
 	for range time.NewTicker(duration).C{
 		c.lock.Lock()
-		c.dataDict.Range(func(key interface{}, value interface{}) bool {
+		c.expiresDict.Range(func(key interface{}, value interface{}) bool {
 			expire, ok := value.(time.Time)
 			if !ok{
 				c.expiresDict.Delete(key)
+				return true
 			}
 
 			if expire.Before(time.Now()){
-- 
2.43.0


From 26dfb17d8a5c2d73bb81360a5d3e16403f964229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:45 +0000
Subject: [PATCH 23/90] fix: a new client's cache had no storage

new(cache.Cache) has nil maps, so the first replicated SET or Get crashed.
---
 xxcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xxcache.go b/xxcache.go
index cd29f87..0c3a0c8 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -31,7 +31,7 @@ const redisRdbFile = "temp.rdb"
 func New(option Option) (client Client, err error) {
 	client.option = option
 
-	client.cache = new(cache.Cache)
+	client.cache = cache.New()
 	prepareOption(&option)
 
 	repl := redis.Replication{
-- 
2.43.0


From 71e6f9a662be6a542dddec6f1a94b210a947fc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:47 +0000
Subject: [PATCH 24/90] fix: Get asks redis for a key that is not in the local
 cache

As the README says; it only ever looked at the local cache.
---
 command.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index b33bdcd..7260412 100644
--- a/command.go
+++ b/command.go
@@ -1,6 +1,7 @@
 package xxcache
 
 import (
+	"github.com/liujiangwei/xxcache/cache"
 	"time"
 )
 
@@ -75,7 +76,13 @@ type HashCommand interface {
 }
 
 func (client Client) Get(key string) (string, error) {
-	return client.cache.Get(key)
+	val, err := client.cache.Get(key)
+	if err == cache.ErrKeyNil {
+		// not in the local cache, ask redis
+		return client.redis.Get(key)
+	}
+
+	return val, err
 }
 
 func (client Client) Set(key string, value string) (string, error) {
-- 
2.43.0


From e3a267e7c5c8c0f21cfcdf8030885df1af5f291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:50 +0000
Subject: [PATCH 25/90] fix: two commands that cannot be applied in a row
 blocked replication

The goroutine that drains repl.Err (capacity 1) sent to it itself.
---
 xxcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xxcache.go b/xxcache.go
index 0c3a0c8..956be64 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -69,7 +69,7 @@ func (client *Client) handleReplication(repl redis.Replication) {
 			}
 
 			if err := cache.HandleMessage(client.cache, message.Message); err != nil {
-				repl.Err <- err
+				logrus.Warnln("repl error", err)
 			}
 		case err := <-repl.Err:
 			if err != nil {
-- 
2.43.0


From 1ba037e3d722b566a2c7ca7fd482e4e938c0f50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:53 +0000
Subject: [PATCH 26/90] fix: stop serving local copies once the replication
 link is lost

The handler spun on the closed channel, and Get answered from a copy that was
never updated again.
---
 xxcache.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xxcache.go b/xxcache.go
index 956be64..ca061e7 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -63,7 +63,14 @@ func New(option Option) (client Client, err error) {
 func (client *Client) handleReplication(repl redis.Replication) {
 	for {
 		select {
-		case message := <-repl.Messages:
+		case message, ok := <-repl.Messages:
+			if !ok {
+				// the link to the master is lost, local copies are no longer kept up to date
+				repl.Messages = nil
+				client.cache.Flush()
+				continue
+			}
+
 			if message.Database != client.option.database {
 				continue
 			}
-- 
2.43.0


From fee5f14e2b8999a13713fa4eb1753690c6344298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:56 +0000
Subject: [PATCH 27/90] fix: a replicated command the cache cannot replay must
 not leave stale values

DEL, APPEND, INCR, SET with options and the like were ignored, so the old
value was served for ever; RPUSH and a short SET crashed the process. Drop the
keys such a command names, so that reads fall back to redis.
---
 cache/message.go | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/cache/message.go b/cache/message.go
index d915d1f..8989fa0 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -16,27 +16,21 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 		return errors.New("empty message")
 	}
 
-	switch strings.ToLower(messages[0].String()) {
-	case "set":
+	name := strings.ToLower(messages[0].String())
+	if name == "set" && len(messages) == 3 {
 		_, err = cache.Set(messages[1].String(), messages[2].String())
-	case "rpush":
-		if len(messages) < 2 {
-			return errors.New("rpush command args error")
-		}
+		return err
+	}
 
-		var values []string
-		for i := 2; i < len(messages); i++ {
-			values = append(values, messages[i].String())
-		}
-		_, err = cache.RPush(messages[1].String(), values...)
-	case "hmset":
-		if len(messages) < 2 {
-			return errors.New("hmset command args error")
-		}
+	if name == "flushall" || name == "flushdb" {
+		cache.Flush()
+		return nil
+	}
 
-	default:
-		return errors.New("unknown handled command," + message.Serialize())
+	// this command can not be replayed here, drop every key it may have changed
+	for _, message := range messages[1:] {
+		cache.Del(message.String())
 	}
 
-	return err
+	return errors.New("unknown handled command," + message.Serialize())
 }
-- 
2.43.0


From d87dba84727b91fe8b81cf5cd4fc736d1064e723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:59 +0000
Subject: [PATCH 28/90] fix: follow SELECT in the replication stream

Commands for every database were applied as if they were for database 0.
---
 redis/replication.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 57142f0..840a34a 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -87,8 +87,15 @@ func (repl *Replication) WaitForMessage() {
 			continue
 		}
 
+		if args, ok := message.(ArrayMessage); ok && len(args) == 2 && strings.ToLower(args[0].String()) == "select" {
+			if index, err := strconv.Atoi(args[1].String()); err == nil {
+				repl.database = index
+			}
+			continue
+		}
+
 		repl.Messages <- ReplicationMessage{
-			Database: 0,
+			Database: repl.database,
 			Message:  message,
 			Offset:   0,
 		}
-- 
2.43.0


From 8132365a4b92c2c50b2785e11b2c3619d52c9054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:32 +0000
Subject: [PATCH 29/90] fix: FLUSHALL, SWAPDB, MOVE and COPY in another
 database change this one too

---
 cache/message.go |  2 +-
 xxcache.go       | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/cache/message.go b/cache/message.go
index 8989fa0..8130940 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -22,7 +22,7 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 		return err
 	}
 
-	if name == "flushall" || name == "flushdb" {
+	if name == "flushall" || name == "flushdb" || name == "swapdb" {
 		cache.Flush()
 		return nil
 	}
diff --git a/xxcache.go b/xxcache.go
index ca061e7..27d8982 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -4,6 +4,7 @@ import (
 	"github.com/liujiangwei/xxcache/cache"
 	"github.com/liujiangwei/xxcache/redis"
 	"github.com/sirupsen/logrus"
+	"strings"
 )
 
 type XXCache interface {
@@ -71,7 +72,7 @@ func (client *Client) handleReplication(repl redis.Replication) {
 				continue
 			}
 
-			if message.Database != client.option.database {
+			if message.Database != client.option.database && !crossesDatabases(message.Message) {
 				continue
 			}
 
@@ -86,6 +87,21 @@ func (client *Client) handleReplication(repl redis.Replication) {
 	}
 }
 
+// if the command can change other databases than the selected one
+func crossesDatabases(message redis.Message) bool {
+	args, ok := message.(redis.ArrayMessage)
+	if !ok || len(args) == 0 {
+		return false
+	}
+
+	switch strings.ToLower(args[0].String()) {
+	case "flushall", "swapdb", "move", "copy":
+		return true
+	default:
+		return false
+	}
+}
+
 func prepareOption(option *Option) {
 	if option.RedisMasterAddr == "" {
 		option.RedisMasterAddr = redisMasterAddr
-- 
2.43.0


From 1a7df74cd0a9514a9c0a6ad112e27c8c90efd6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:36 +0000
Subject: [PATCH 30/90] fix: acknowledge the offset reached in the stream

Every acknowledgement repeated the offset of the snapshot.
---
 redis/replication.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 840a34a..dd6b332 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -82,6 +82,10 @@ func (repl *Replication) WaitForMessage() {
 			return
 		}
 
+		repl.Lock()
+		repl.Offset += len(message.Serialize())
+		repl.Unlock()
+
 		if strings.HasPrefix(strings.ToLower(message.String()), "ping") {
 			repl.lastPing = time.Now()
 			continue
@@ -103,11 +107,15 @@ func (repl *Replication) WaitForMessage() {
 }
 
 func (repl *Replication) ack() error {
+	repl.Lock()
+	offset := strconv.Itoa(repl.Offset)
+	repl.Unlock()
+
 	cmd := StringCommand{
-		BaseCommand: NewBaseCommand("ReplConf", "ack", strconv.Itoa(repl.Offset)),
+		BaseCommand: NewBaseCommand("ReplConf", "ack", offset),
 	}
 
-	logrus.Debugln("ack", strconv.Itoa(repl.Offset))
+	logrus.Debugln("ack", offset)
 	if err := repl.conn.Send(cmd.Serialize()); err != nil {
 		err = errors.New("failed send ack to master," + err.Error())
 		return err
-- 
2.43.0


From 4bf89d4fa699da09442162d97366fbe5e23dcfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:39 +0000
Subject: [PATCH 31/90] fix: skip the keep-alive newlines a master sends before
 the rdb file

---
 redis/replication.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/redis/replication.go b/redis/replication.go
index dd6b332..2b1a925 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -155,6 +155,18 @@ func (repl *Replication) sync() (err error) {
 		return errors.New("sync error," + err.Error())
 	}
 
+	// the master sends empty lines to keep the link alive while it prepares the rdb file
+	for {
+		b, err := repl.conn.Reader.Peek(1)
+		if err != nil {
+			return errors.New("sync error," + err.Error())
+		}
+		if b[0] != '\n' {
+			break
+		}
+		_, _ = repl.conn.Reader.Discard(1)
+	}
+
 	var fp *os.File
 	if fp, err = os.OpenFile(repl.RdbFile, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, os.ModePerm); err != nil {
 		return errors.New("failed to open rdb file," + err.Error())
-- 
2.43.0


From d72189ae9a82c84f6d37e0edcb3e6ddf09d3d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 32/90] fix: a refused SYNC is an error

The text of the error reply was saved as the rdb file.
---
 redis/replication.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redis/replication.go b/redis/replication.go
index 2b1a925..b713fc3 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -174,6 +174,8 @@ func (repl *Replication) sync() (err error) {
 
 	if protocol, length, err := repl.conn.ReadWithWriter(fp); err != nil {
 		return errors.New("failed to save rdb file," + err.Error())
+	} else if protocol != ProtocolBulkString || length < 0 {
+		return errors.New("the master did not send a rdb file")
 	} else {
 		logrus.Infoln("redis rdb file", protocol, length, repl.RdbFile)
 	}
-- 
2.43.0


From fdca4442b3eb9ff2a8b37a95b17b0434dc5b08d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:13 +0000
Subject: [PATCH 33/90] fix: report a failed write of the rdb file

The error of the last flush was dropped, so a full disk looked like success.
---
 redis/conn.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index f74639b..3889c61 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -102,8 +102,8 @@ func (c Conn) discardEof() error {
 }
 
 // save message content to io reader
-func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
-	protocol, err := c.readProtocol()
+func (c Conn) ReadWithWriter(writer io.Writer) (protocol Protocol, n int, err error) {
+	protocol, err = c.readProtocol()
 	if err != nil {
 		return protocol, 0, err
 	}
@@ -111,7 +111,9 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 	buf := bufio.NewWriter(writer)
 
 	defer func() {
-		_ = buf.Flush()
+		if e := buf.Flush(); err == nil {
+			err = e
+		}
 	}()
 
 	switch protocol {
-- 
2.43.0


From c0d213d584dde78333eb374a4ddb5c70daadb6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 34/90] fix: read the whole bulk string

A single Read returned what had arrived so far, which cut values short and
left the rest to be parsed as the next message. A negative length panicked.
---
 redis/conn.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 3889c61..342a893 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"net"
 	"strconv"
+	"strings"
 	"time"
 )
 
@@ -199,8 +200,13 @@ func (c Conn) readMessage() (Message, error) {
 		}
 
 		// read data
-		var data = make([]byte, length)
-		if _, err := c.Reader.Read(data); err != nil {
+		if length < 0 {
+			return nil, errors.New("bad bulk string length " + strconv.Itoa(length))
+		}
+
+		// the buffer grows with the data that arrives, not with the announced length
+		var data strings.Builder
+		if _, err := io.CopyN(&data, c.Reader, int64(length)); err != nil {
 			return nil, err
 		}
 
@@ -208,7 +214,7 @@ func (c Conn) readMessage() (Message, error) {
 			return nil, err
 		}
 
-		msg := NewBulkStringMessage(string(data))
+		msg := NewBulkStringMessage(data.String())
 
 		return msg, nil
 	case ProtocolSimpleString:
-- 
2.43.0


From f4427f1b1f44d0cbd0f8d4f9cf0dd48ceda4662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:19 +0000
Subject: [PATCH 35/90] fix: read protocol lines of any length, and only
 complete ones

ReadLine returns long lines in pieces, and what there is when the connection
closes in the middle of a line: a cut ":1234" was received as 12.
---
 redis/conn.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 342a893..d2ff099 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -2,6 +2,7 @@ package redis
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
@@ -96,8 +97,18 @@ func (c Conn) readBulkString(length int) string {
 	return ""
 }
 
+// one line without its line end, however long it is
+func (c Conn) readLine() ([]byte, error) {
+	line, err := c.Reader.ReadBytes('\n')
+	if err != nil {
+		return nil, err
+	}
+
+	return bytes.TrimSuffix(line[:len(line)-1], []byte("\r")), nil
+}
+
 func (c Conn) discardEof() error {
-	_, _, err := c.Reader.ReadLine()
+	_, err := c.readLine()
 
 	return err
 }
@@ -119,7 +130,7 @@ func (c Conn) ReadWithWriter(writer io.Writer) (protocol Protocol, n int, err er
 
 	switch protocol {
 	case ProtocolBulkString:
-		bs, _, err := c.Reader.ReadLine()
+		bs, err := c.readLine()
 		if err != nil {
 			return ProtocolBulkString, 0, err
 		}
@@ -142,7 +153,7 @@ func (c Conn) ReadWithWriter(writer io.Writer) (protocol Protocol, n int, err er
 
 		return ProtocolBulkString, length, nil
 	case ProtocolSimpleString:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolSimpleString, 0, err
 		}
@@ -150,21 +161,21 @@ func (c Conn) ReadWithWriter(writer io.Writer) (protocol Protocol, n int, err er
 
 		return ProtocolSimpleString, n, err
 	case ProtocolError:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolError, 0, err
 		}
 		n, err := buf.Write(line)
 		return ProtocolError, n, err
 	case ProtocolInt:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolInt, 0, err
 		}
 		n, err := buf.Write(line)
 		return ProtocolInt, n, err
 	case ProtocolArray:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolArray, 0, err
 		}
@@ -185,7 +196,7 @@ func (c Conn) readMessage() (Message, error) {
 	switch protocol {
 	case ProtocolBulkString:
 		// $1
-		bs, _, err := c.Reader.ReadLine()
+		bs, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
@@ -218,21 +229,21 @@ func (c Conn) readMessage() (Message, error) {
 
 		return msg, nil
 	case ProtocolSimpleString:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
 
 		return SimpleStringMessage(string(line)), nil
 	case ProtocolError:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
 		return ErrorMessage(string(line)), nil
 
 	case ProtocolInt:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
@@ -242,7 +253,7 @@ func (c Conn) readMessage() (Message, error) {
 			return IntMessage(number), nil
 		}
 	case ProtocolArray:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 1bb998658464652cedcb70dbbdf880bd5b60cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:22 +0000
Subject: [PATCH 36/90] fix: a null array is nil, and a negative array length
 an error

---
 redis/conn.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/redis/conn.go b/redis/conn.go
index d2ff099..34bfe68 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -262,6 +262,14 @@ func (c Conn) readMessage() (Message, error) {
 			return nil, err
 		}
 
+		if number < -1 {
+			return nil, errors.New("bad array length " + strconv.Itoa(number))
+		}
+
+		if number == -1 {
+			return NilMessage{}, nil
+		}
+
 		var messages ArrayMessage
 		for i := 0; i < number; i++ {
 			if message, err := c.readMessage(); err != nil {
-- 
2.43.0


From 462b8dcf7d57624d26c10f83b6b12b565dd30084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:47 +0000
Subject: [PATCH 37/90] fix: a bulk string that is not followed by its line end
 is an error

Whatever followed was silently thrown away up to the next newline.
---
 redis/conn.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 34bfe68..c5779e2 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -108,9 +108,16 @@ func (c Conn) readLine() ([]byte, error) {
 }
 
 func (c Conn) discardEof() error {
-	_, err := c.readLine()
+	var end = make([]byte, len(MessageEOF))
+	if _, err := io.ReadFull(c.Reader, end); err != nil {
+		return err
+	}
+
+	if string(end) != MessageEOF {
+		return errors.New("bulk string does not end where it should")
+	}
 
-	return err
+	return nil
 }
 
 // save message content to io reader
-- 
2.43.0


From ffaf54469136ebd53559c795af37eb1bcfc9a8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:51 +0000
Subject: [PATCH 38/90] fix: a failed dial left the pool locked for ever

---
 redis/pool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redis/pool.go b/redis/pool.go
index 13943ca..274ee53 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -43,6 +43,7 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 		if pool.size < pool.capacity {
 			conn, err := pool.create()
 			if err != nil {
+				pool.l.Unlock()
 				return nil, err
 			}
 			pool.size++
-- 
2.43.0


From e52d4cd4e3735c1978a648d3a55fe9eb8fb53fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:54 +0000
Subject: [PATCH 39/90] fix: close a connection whose handshake failed

---
 redis/pool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redis/pool.go b/redis/pool.go
index 274ee53..64a9057 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -67,6 +67,7 @@ func (pool Pool) create() (conn *Conn, err error) {
 
 	for _, handler := range pool.connOpenHandler {
 		if err := handler(conn); err != nil {
+			_ = conn.Close()
 			return conn, err
 		}
 	}
-- 
2.43.0


From 5ace72c49c5bc3695b039aaecda335fff47ee59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:57 +0000
Subject: [PATCH 40/90] fix: do not copy the pool on every call

Put, create and Close had value receivers, so they read the size and copied the
lock while other goroutines were changing them.
---
 redis/pool.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redis/pool.go b/redis/pool.go
index 64a9057..5cbf3f1 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -60,7 +60,7 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	}
 }
 
-func (pool Pool) create() (conn *Conn, err error) {
+func (pool *Pool) create() (conn *Conn, err error) {
 	if conn, err = Connect(pool.addr); err != nil {
 		return conn, err
 	}
@@ -75,14 +75,14 @@ func (pool Pool) create() (conn *Conn, err error) {
 	return conn, err
 }
 
-func (pool Pool) Put(conn *Conn) {
+func (pool *Pool) Put(conn *Conn) {
 	if conn != nil {
 		pool.connC <- conn
 	}
 }
 
 //Close close all conn opened in the pool
-func (pool Pool) Close() error {
+func (pool *Pool) Close() error {
 	for conn := range pool.connC {
 		for _, handler := range pool.connCloseHandler {
 			if err := handler(conn); err != nil {
-- 
2.43.0


From 5d36ab5ebe08a7f981b5a1f65276d217818777fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:00 +0000
Subject: [PATCH 41/90] fix: closing the pool never returned

---
 redis/pool.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/redis/pool.go b/redis/pool.go
index 5cbf3f1..1f2ecc3 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -83,7 +83,19 @@ func (pool *Pool) Put(conn *Conn) {
 
 //Close close all conn opened in the pool
 func (pool *Pool) Close() error {
-	for conn := range pool.connC {
+	for {
+		var conn *Conn
+		select {
+		case conn = <-pool.connC:
+		default:
+			// no idle conn left
+			return nil
+		}
+
+		pool.l.Lock()
+		pool.size--
+		pool.l.Unlock()
+
 		for _, handler := range pool.connCloseHandler {
 			if err := handler(conn); err != nil {
 				return err
@@ -94,8 +106,6 @@ func (pool *Pool) Close() error {
 			return err
 		}
 	}
-
-	return nil
 }
 
 func (pool *Pool) ExecCommand(ctx context.Context, command Command) {
-- 
2.43.0


From f34ddefb84c020e952d002ac5b085e8b311f4228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:24 +0000
Subject: [PATCH 42/90] fix: do not reuse a connection after it failed

A connection the server had closed stayed in the pool and failed for ever, and
one that had received a broken reply handed the rest of it to later commands.
---
 redis/conn.go | 16 +++++++++++++---
 redis/pool.go | 23 ++++++++++++++++++++---
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index c5779e2..569ee6e 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -20,6 +20,7 @@ type Conn struct {
 	Timeout      time.Duration
 	ReadTimeout  time.Duration
 	WriteTimeout time.Duration
+	broken       bool // an error left the stream in an unknown state
 }
 
 func (c *Conn) WithTimeout(duration time.Duration) {
@@ -35,17 +36,26 @@ func (c *Conn) WithWriteTimeout(duration time.Duration) {
 }
 
 func (c *Conn) Recv() (Message, error) {
-	return c.readMessage()
+	message, err := c.readMessage()
+	if err != nil {
+		c.broken = true
+	}
+
+	return message, err
 }
 
 func (c *Conn) Send(message Message) error {
 	_, err := c.Writer.Write([]byte(message.Serialize()))
 
+	if err == nil {
+		err = c.Writer.Flush()
+	}
+
 	if err != nil {
-		return err
+		c.broken = true
 	}
 
-	return c.Writer.Flush()
+	return err
 }
 
 func (c *Conn) SendAndWaitReply(message Message) (Message, error) {
diff --git a/redis/pool.go b/redis/pool.go
index 1f2ecc3..8752219 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -36,7 +36,7 @@ func (pool *Pool) Init(capacity int, addr string) {
 func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	select {
 	case c := <-pool.connC:
-		return c, nil
+		return pool.renew(c)
 	default:
 		// no conn available, try create new conn
 		pool.l.Lock()
@@ -56,10 +56,27 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	case <-ctx.Done():
 		return nil, errors.New("no connection available")
 	case c := <-pool.connC:
-		return c, nil
+		return pool.renew(c)
 	}
 }
 
+// a connection that failed is replaced before it is used again
+func (pool *Pool) renew(conn *Conn) (*Conn, error) {
+	if !conn.broken {
+		return conn, nil
+	}
+
+	// closed first, the old and the new one together may exceed the capacity
+	_ = conn.Close()
+	fresh, err := pool.create()
+	if err != nil {
+		pool.Put(conn)
+		return nil, err
+	}
+
+	return fresh, nil
+}
+
 func (pool *Pool) create() (conn *Conn, err error) {
 	if conn, err = Connect(pool.addr); err != nil {
 		return conn, err
@@ -102,7 +119,7 @@ func (pool *Pool) Close() error {
 			}
 		}
 
-		if err := conn.Close(); err != nil {
+		if err := conn.Close(); err != nil && !conn.broken {
 			return err
 		}
 	}
-- 
2.43.0


From f46708cd2cdbb9846ec1ec4bd302325bde70f89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 43/90] fix: the read and write timeouts had no effect

A server that stopped answering blocked its callers for ever.
---
 redis/conn.go  | 8 ++++++++
 redis/redis.go | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/redis/conn.go b/redis/conn.go
index 569ee6e..896d8d4 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -36,6 +36,10 @@ func (c *Conn) WithWriteTimeout(duration time.Duration) {
 }
 
 func (c *Conn) Recv() (Message, error) {
+	if c.ReadTimeout > 0 {
+		_ = c.conn.SetReadDeadline(time.Now().Add(c.ReadTimeout))
+	}
+
 	message, err := c.readMessage()
 	if err != nil {
 		c.broken = true
@@ -45,6 +49,10 @@ func (c *Conn) Recv() (Message, error) {
 }
 
 func (c *Conn) Send(message Message) error {
+	if c.WriteTimeout > 0 {
+		_ = c.conn.SetWriteDeadline(time.Now().Add(c.WriteTimeout))
+	}
+
 	_, err := c.Writer.Write([]byte(message.Serialize()))
 
 	if err == nil {
diff --git a/redis/redis.go b/redis/redis.go
index 4d99e21..fa6e31d 100644
--- a/redis/redis.go
+++ b/redis/redis.go
@@ -34,6 +34,13 @@ func NewClient(option Option) *Redis {
 
 	redis.connPool.Init(option.PoolSize, option.Addr)
 
+	redis.connPool.AddConnOpenHandler(func(conn *Conn) error {
+		conn.WithReadTimeout(option.ReadTimeout)
+		conn.WithWriteTimeout(option.WriteTimeout)
+
+		return nil
+	})
+
 	if option.Password != "" {
 		redis.connPool.AddConnOpenHandler(func(conn *Conn) error {
 			cmd := StringCommand{
-- 
2.43.0


From d08623ecb853d8941c851d1b6a44da13559127b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 44/90] fix: a status command returns the status

Set and the like returned an empty string, and an empty error text when the
reply was not a status.
---
 redis/command.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redis/command.go b/redis/command.go
index 7346c68..2eb3de2 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -108,11 +108,15 @@ func (cmd *OKCommand) Parse(message Message) {
 	m, ok := message.(SimpleStringMessage)
 	if !ok {
 		cmd.Err = errors.New("failed parse redis data")
+		return
 	}
 
 	if m.String() != "OK" {
 		cmd.Err = errors.New(m.String())
+		return
 	}
+
+	cmd.Val = m.String()
 }
 
 func (cmd *OKCommand) Result() (string, error) {
-- 
2.43.0


From 8ed2af1553a97211facb1977231d7a745e26c035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:15 +0000
Subject: [PATCH 45/90] fix: a float reply was dropped unless it was not a
 float

---
 redis/command.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redis/command.go b/redis/command.go
index 2eb3de2..364f637 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -54,8 +54,10 @@ type FloatCommand struct {
 }
 
 func (cmd *FloatCommand) Parse(message Message) {
-	if val, err := strconv.ParseFloat(message.String(), 64); err != nil {
+	if val, err := strconv.ParseFloat(message.String(), 64); err == nil {
 		cmd.Val = val
+	} else {
+		cmd.Err = err
 	}
 }
 
-- 
2.43.0


From f0de05fe13f8e1f48bed938b8071b0a37fdca548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:18 +0000
Subject: [PATCH 46/90] fix: a reply of the wrong kind is an error, not a zero

---
 redis/command.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redis/command.go b/redis/command.go
index 364f637..4dec832 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -73,6 +73,8 @@ type IntCommand struct {
 func (i *IntCommand) Parse(message Message) {
 	if message, ok := message.(IntMessage); ok {
 		i.Val = int(message)
+	} else {
+		i.Err = errors.New("failed parse redis data")
 	}
 }
 
@@ -141,5 +143,7 @@ func (i *InterfaceArrayCommand) Parse(message Message) {
 				i.Val = append(i.Val, m.String())
 			}
 		}
+	} else {
+		i.Err = errors.New("failed parse redis data")
 	}
 }
-- 
2.43.0


From e57044c1bf6ead1da5abb6a1879202e3df293e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 47/90] fix: SetEX, PSetEX and IncrBy sent other commands,
 SetNX never succeeded

SetEX and PSetEX sent SETNX with the arguments in the wrong order, IncrBy sent
INCR, and the integer SETNX answers with was reported as an error.
---
 redis/redis.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/redis/redis.go b/redis/redis.go
index fa6e31d..b216568 100644
--- a/redis/redis.go
+++ b/redis/redis.go
@@ -98,7 +98,8 @@ func (redis *Redis) Select(index int) (string, error) {
 }
 
 func (redis *Redis) SetNX(key, value string) (string, error) {
-	rc := OKCommand{
+	// the reply is an integer
+	rc := StringCommand{
 		BaseCommand: NewBaseCommand("SetNX", key, value),
 	}
 	redis.process(&rc)
@@ -107,7 +108,7 @@ func (redis *Redis) SetNX(key, value string) (string, error) {
 
 func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
 	rc := OKCommand{
-		BaseCommand: NewBaseCommand("SetNX", key, value, strconv.FormatUint(expires, 10)),
+		BaseCommand: NewBaseCommand("SetEX", key, strconv.FormatUint(expires, 10), value),
 	}
 	redis.process(&rc)
 	return rc.Result()
@@ -115,7 +116,7 @@ func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
 
 func (redis *Redis) PSetEX(key, value string, expiresMs uint64) (string, error) {
 	rc := OKCommand{
-		BaseCommand: NewBaseCommand("SetNX", key, value, strconv.FormatUint(expiresMs, 10)),
+		BaseCommand: NewBaseCommand("PSetEX", key, strconv.FormatUint(expiresMs, 10), value),
 	}
 	redis.process(&rc)
 	return rc.Result()
@@ -182,7 +183,7 @@ func (redis *Redis) Incr(key string) (int, error) {
 
 func (redis *Redis) IncrBy(key string, increment int) (int, error) {
 	rc := IntCommand{
-		BaseCommand: NewBaseCommand("Incr", key, strconv.Itoa(increment)),
+		BaseCommand: NewBaseCommand("IncrBy", key, strconv.Itoa(increment)),
 	}
 	redis.process(&rc)
 
-- 
2.43.0


From 0dd2a15836fcccee5e5c13dedc41377380f26b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:20 +0000
Subject: [PATCH 48/90] fix: lzf lost short and incompressible strings

An empty string panicked, a string that does not shrink came back from
Compress as it was and was then run through the decompressor, and a stream
shorter than announced came back padded with zero bytes as if it were fine.
---
 redis/lzf/lzf.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/redis/lzf/lzf.go b/redis/lzf/lzf.go
index 731b30d..5d10727 100644
--- a/redis/lzf/lzf.go
+++ b/redis/lzf/lzf.go
@@ -5,13 +5,18 @@ package lzf
 */
 import "C"
 import (
+	"math"
 	"unsafe"
 )
 
 func Compress(str string) string {
-	encoded := make([]byte, len(str))
+	// the result is shorter than the input, or the input itself
+	if len(str) < 2 || len(str) > math.MaxUint32 {
+		return str
+	}
+	encoded := make([]byte, len(str)-1)
 	input := []byte(str)
-	length := C.lzf_compress(unsafe.Pointer(&input[0]), C.uint(len(str)), unsafe.Pointer(&encoded[0]), C.uint(len(str)))
+	length := C.lzf_compress(unsafe.Pointer(&input[0]), C.uint(len(input)), unsafe.Pointer(&encoded[0]), C.uint(len(encoded)))
 	if length == 0 {
 		return str
 	}
@@ -19,11 +24,15 @@ func Compress(str string) string {
 	return string(encoded[0:length])
 }
 
+// DeCompress undoes Compress. Data that does not decompress to length bytes is returned as it is.
 func DeCompress(str string, length int) string {
+	if len(str) == 0 || len(str) == length || length <= 0 || length > math.MaxUint32 {
+		return str
+	}
 	input := []byte(str)
 	var decoded = make([]byte, length)
 	dl := C.lzf_decompress(unsafe.Pointer(&input[0]), C.uint(len(input)), unsafe.Pointer(&decoded[0]), C.uint(length))
-	if dl == 0 {
+	if int(dl) != length {
 		return str
 	}
 	return string(decoded)
-- 
2.43.0


From c968fafb74fb3daac44a5dc03f4ce8da2c8f493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 49/90] fix: 32 and 64 bit lengths were read as zero

The bytes were read and then not decoded, and a read error was lost.
---
 redis/rdb/rdb.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 8ef7a55..bf1caa1 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -66,21 +66,15 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 		case BitLen32:
 			logrus.Infoln("BitLen32")
 			buf = make([]byte, 4)
-			if n, err := io.ReadFull(reader, buf); err == nil && n == 4 {
-				var lengthUint32 uint32
-				err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, lengthUint32)
-				length = uint64(lengthUint32)
-			} else if n != 4 {
-				err = errors.New("failed to read 4 byte for BitLen32")
+			if _, err = io.ReadFull(reader, buf); err == nil {
+				length = uint64(binary.BigEndian.Uint32(buf))
 			}
 		case BitLen64:
 			logrus.Infoln("BitLen64")
 
 			buf = make([]byte, 8)
-			if n, err := io.ReadFull(reader, buf); err == nil && n == 8 {
-				err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, length)
-			} else if n != 8 {
-				err = errors.New("failed to read 8 byte for BitLen64")
+			if _, err = io.ReadFull(reader, buf); err == nil {
+				length = binary.BigEndian.Uint64(buf)
 			}
 		default:
 			err = errors.New(fmt.Sprintf("Unknown length encoding %d in rdbLoadLen(), %d, %d", buf[0], BitLen32, BitLen64))
-- 
2.43.0


From d8464e4c991e4659bbea81e5812adf15ca2f4046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:26 +0000
Subject: [PATCH 50/90] fix: a truncated snapshot ended the process

A cut in a 14 bit length panicked and one in a 32 bit integer called
log.Fatal; both have an error to return.
---
 redis/rdb/rdb.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index bf1caa1..e0389ef 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -9,7 +9,6 @@ import (
 	"github.com/liujiangwei/xxcache/redis/lzf"
 	"github.com/sirupsen/logrus"
 	"io"
-	"log"
 	"strconv"
 	"unsafe"
 )
@@ -57,8 +56,6 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 			//l := (buf[0] & 0x3F << 8) | buf[1]
 			num := binary.BigEndian.Uint16([]byte{buf[0] & 0x3F, buf[1]})
 			length = uint64(num)
-		} else {
-			panic("failed to load BitLen14")
 		}
 	default:
 		// compare first byte
@@ -119,7 +116,7 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 			// 4 byte
 			var buf = make([]byte, 4)
 			if n, err := io.ReadFull(reader, buf); err != nil {
-				log.Fatal(err)
+				return str, err
 			} else if n != 4 {
 				return str, errors.New("failed to read 4 bytes for EncInt32")
 			}
-- 
2.43.0


From 82489e786ac2ab2f4138f6d9b2f210fb90220f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:28 +0000
Subject: [PATCH 51/90] fix: negative 16 and 32 bit integer strings lost their
 sign

---
 redis/rdb/rdb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index e0389ef..c829374 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -110,7 +110,7 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 				return str, errors.New("failed to read 2 bytes for EncInt16")
 			}
 
-			num := binary.LittleEndian.Uint16(buf)
+			num := int16(binary.LittleEndian.Uint16(buf))
 			str = fmt.Sprintf("%d", num)
 		case EncInt32:
 			// 4 byte
@@ -120,7 +120,7 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 			} else if n != 4 {
 				return str, errors.New("failed to read 4 bytes for EncInt32")
 			}
-			num := binary.LittleEndian.Uint32(buf)
+			num := int32(binary.LittleEndian.Uint32(buf))
 			//buf[0] | (buf[1] << 8) | (buf[2] << 16 | buf[3] << 24)
 			str = fmt.Sprintf("%d", num)
 		case EncLzf:
-- 
2.43.0


From 03f728834fa3c17d930121f6d8f23f0eda32783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:31 +0000
Subject: [PATCH 52/90] fix: snapshot strings could be cut short, and a corrupt
 length took all memory

A plain string was filled by a single Read, which returns what is buffered,
and a compressed one that does not decompress was accepted as it was.
Lengths were allocated before any of the data had been seen.
---
 redis/rdb/rdb.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index c829374..73d6d01 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -9,6 +9,7 @@ import (
 	"github.com/liujiangwei/xxcache/redis/lzf"
 	"github.com/sirupsen/logrus"
 	"io"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -137,14 +138,18 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 				return str, err
 			}
 
-			var c = make([]byte, n)
-			if n, err := io.ReadFull(reader, c); err != nil {
+			c, err := loadBytes(reader, n)
+			if err != nil {
 				return str, err
-			} else if n != len(c) {
-				return str, errors.New(fmt.Sprintf("failed to read [%d] bytes for LoadString EncLzf", len(c)))
 			}
-
+			// a byte of lzf data expands to less than 264 bytes
+			if length/264 > n {
+				return str, errors.New("EncLzf length does not match its data")
+			}
 			str = lzf.DeCompress(string(c), int(length))
+			if uint64(len(str)) != length {
+				return "", errors.New("EncLzf data is corrupt")
+			}
 		default:
 			err = errors.New("failed decode string")
 		}
@@ -153,13 +158,23 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 		return str, err
 	}
 
-	buf := make([]byte, length)
-	if _, err := reader.Read(buf); err != nil {
-		return str, err
-	}
-	str = string(buf)
+	buf, err := loadBytes(reader, length)
+	return string(buf), err
+}
 
-	return str, err
+// loadBytes reads exactly length bytes. What it allocates grows with what has been read, a corrupt length
+// allocates nothing.
+func loadBytes(reader *bufio.Reader, length uint64) ([]byte, error) {
+	if length > math.MaxInt64 {
+		return nil, errors.New("string length is too large")
+	}
+	buf := &bytes.Buffer{}
+	if _, err := io.CopyN(buf, reader, int64(length)); err == io.EOF {
+		return nil, io.ErrUnexpectedEOF
+	} else if err != nil {
+		return nil, err
+	}
+	return buf.Bytes(), nil
 }
 
 //R_Zero = 0.0;
-- 
2.43.0


From fb572f68053b18e5a1e25fd9e3181b3717b891c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:34 +0000
Subject: [PATCH 53/90] fix: infinite scores were loaded as 1 and -1

---
 redis/rdb/rdb.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 73d6d01..11ea5c9 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -181,11 +181,11 @@ func loadBytes(reader *bufio.Reader, length uint64) ([]byte, error) {
 //R_PosInf = 1.0/R_Zero;
 //RNegInf = -1.0/R_Zero;
 //RNan = R_Zero/R_Zero;
-// todo
-const RZero = float64(1.0)
-const RPosInf = 1.0 / RZero
-const RNegInf = -1.0 / RZero
-const RNan = RZero / RZero
+var (
+	RPosInf = math.Inf(1)
+	RNegInf = math.Inf(-1)
+	RNan    = math.NaN()
+)
 
 func LoadDouble(reader *bufio.Reader) (f float64, err error) {
 	var length byte
-- 
2.43.0


From 302fbfccd982152fe74637abcb35a5e45029a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:38 +0000
Subject: [PATCH 54/90] fix: binary scores were read and not decoded

---
 redis/rdb/rdb.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 11ea5c9..14e902d 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -221,8 +221,7 @@ func LoadBinaryDouble(reader *bufio.Reader) (f float64, err error) {
 		return f, errors.New(fmt.Sprintf("failed to load [%d] bytes for LoadBinaryDouble", int(length)))
 	}
 
-	err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, f)
-	return f, err
+	return math.Float64frombits(binary.LittleEndian.Uint64(buf)), nil
 }
 
 const (
-- 
2.43.0


From bc255f58d7cff3ab33e4de50dabed69293cb4deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:40 +0000
Subject: [PATCH 55/90] fix: negative intset members lost their sign

---
 redis/intset/intset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/intset/intset.go b/redis/intset/intset.go
index cbcbc88..16c3846 100644
--- a/redis/intset/intset.go
+++ b/redis/intset/intset.go
@@ -24,7 +24,7 @@ func Load(encoded string) (set []int64) {
 			start := 8 + 2*i
 			end := 8 + 2*(i+1)
 
-			num := binary.LittleEndian.Uint16([]byte(encoded[start:end]))
+			num := int16(binary.LittleEndian.Uint16([]byte(encoded[start:end])))
 			set = append(set, int64(num))
 		}
 	case EncInt32:
@@ -32,7 +32,7 @@ func Load(encoded string) (set []int64) {
 			start := 8 + 4*i
 			end := 8 + 4*(i+1)
 
-			num := binary.LittleEndian.Uint32([]byte(encoded[start:end]))
+			num := int32(binary.LittleEndian.Uint32([]byte(encoded[start:end])))
 			set = append(set, int64(num))
 		}
 	case EncInt64:
-- 
2.43.0


From afb7d38104533bd6d726d545f5fd9d11601605ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:08 +0000
Subject: [PATCH 56/90] fix: ziplist integers came out as raw bytes

---
 redis/ziplist/ziplist.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/redis/ziplist/ziplist.go b/redis/ziplist/ziplist.go
index efe70e9..e7066aa 100644
--- a/redis/ziplist/ziplist.go
+++ b/redis/ziplist/ziplist.go
@@ -113,7 +113,7 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		case ZipInt32b:
 			length = 4
 		case ZipInt64b:
-			length = 5
+			length = 8
 		default:
 			if encoding >= ZipIntImmMin && encoding <= ZipIntImmMax {
 				val := (encoding & ZipIntImmMask) - 1
@@ -126,11 +126,25 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 
 	if length > 0 {
 		str = iterator.val[iterator.pos+1 : iterator.pos+int(length)+1]
+		if encoding >= ZipStrMask {
+			str = integer(str)
+		}
 	}
 
 	return length, size, str
 }
 
+// integer returns the decimal text of a little endian signed integer
+func integer(buf string) string {
+	var num int64
+	for i := len(buf) - 1; i >= 0; i-- {
+		num = num<<8 | int64(buf[i])
+	}
+	shift := uint(64 - 8*len(buf))
+
+	return strconv.FormatInt(num<<shift>>shift, 10)
+}
+
 const ZipIntImmMin = 0xf1
 const ZipIntImmMax = 0xfd
 const ZipIntImmMask = 0x0f
-- 
2.43.0


From 8850a72f1b08d55d519d63777ebdad69ba1d7f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:11 +0000
Subject: [PATCH 57/90] fix: ziplist strings of 64 bytes and more were garbled

Their length was computed in 8 bits and their data taken one byte after the
start of the header, whatever the header's length.
---
 redis/ziplist/ziplist.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/redis/ziplist/ziplist.go b/redis/ziplist/ziplist.go
index e7066aa..e80e792 100644
--- a/redis/ziplist/ziplist.go
+++ b/redis/ziplist/ziplist.go
@@ -93,11 +93,11 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		case ZipStr14b:
 			size = 2
 			//(len) = (((ptr)[0] & 0x3f) << 8) | (ptr)[1];
-			length = uint32((iterator.val[iterator.pos]&0x3f)<<8 | iterator.val[iterator.pos+1])
+			length = uint32(iterator.val[iterator.pos]&0x3f)<<8 | uint32(iterator.val[iterator.pos+1])
 		case ZipStr32b:
 			size = 5
 			pos := iterator.pos
-			length = uint32(iterator.val[pos+1]<<24 | iterator.val[pos+2]<<16 | iterator.val[pos+3]<<8 | iterator.val[pos+4])
+			length = binary.BigEndian.Uint32([]byte(iterator.val[pos+1 : pos+5]))
 		default:
 			panic("failed to decode zip list item")
 		}
@@ -125,7 +125,8 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 	}
 
 	if length > 0 {
-		str = iterator.val[iterator.pos+1 : iterator.pos+int(length)+1]
+		pos := iterator.pos + int(size)
+		str = iterator.val[pos : pos+int(length)]
 		if encoding >= ZipStrMask {
 			str = integer(str)
 		}
-- 
2.43.0


From 70473ee0452748b7eddb1fe1feff0c5bd451d5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:13 +0000
Subject: [PATCH 58/90] fix: a zipmap with more than one field was misread

---
 redis/zipmap/zipmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/zipmap/zipmap.go b/redis/zipmap/zipmap.go
index fcee6f9..8a01185 100644
--- a/redis/zipmap/zipmap.go
+++ b/redis/zipmap/zipmap.go
@@ -103,7 +103,7 @@ func (zm *zipMap) BlobLen() int {
 }
 
 func (zm *zipMap) Lookup(key string) (n int, ok bool) {
-	for i := 1; i < len(zm.value) && zm.value[i] != End; i++ {
+	for i := 1; i < len(zm.value) && zm.value[i] != End; {
 		// key length
 		kl := int(zm.value[i])
 		i++
@@ -159,7 +159,7 @@ func Len(key string, value string) int {
 
 func Load(encoded string) (hash map[string]string) {
 	hash = make(map[string]string, encoded[0])
-	for i := 1; i < len(encoded)-1; i++ {
+	for i := 1; encoded[i] != End; {
 		kl := uint32(encoded[i])
 		i++
 		if kl >= BigLen {
-- 
2.43.0


From 3fab508b0faab857f24e280f82e5e64bb672d461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 59/90] fix: the zipmap writer left out the free length

so neither Load nor Lookup could read what it wrote.
---
 redis/zipmap/zipmap.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redis/zipmap/zipmap.go b/redis/zipmap/zipmap.go
index 8a01185..ee52523 100644
--- a/redis/zipmap/zipmap.go
+++ b/redis/zipmap/zipmap.go
@@ -66,6 +66,8 @@ func (zm *zipMap) Set(key string, value string) error {
 		} else {
 			buf.WriteByte(uint8(len(value)))
 		}
+		// value free length
+		buf.WriteByte(0)
 		//value
 		if n, err := buf.WriteString(value); err != nil {
 			return err
-- 
2.43.0


From 63a196e5b05adef75df6f70bf884f56373b89f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:48 +0000
Subject: [PATCH 60/90] fix: setting a field of a zipmap again kept the old
 value

---
 redis/zipmap/zipmap.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/redis/zipmap/zipmap.go b/redis/zipmap/zipmap.go
index ee52523..7bb3f74 100644
--- a/redis/zipmap/zipmap.go
+++ b/redis/zipmap/zipmap.go
@@ -37,6 +37,11 @@ func (zm *zipMap) Iterate() (iterator iterator) {
 }
 
 func (zm *zipMap) Set(key string, value string) error {
+	// the old pair is dropped and the new one added at the end
+	if n, ok := zm.Lookup(key); ok {
+		zm.remove(n, len(key))
+	}
+
 	// 需要的长度
 	if _, ok := zm.Lookup(key); !ok {
 		buf := &bytes.Buffer{}
@@ -88,6 +93,29 @@ func (zm *zipMap) Set(key string, value string) error {
 	return nil
 }
 
+// remove drops the pair whose key starts at n
+func (zm *zipMap) remove(n int, kl int) {
+	start := n - 1
+	if kl >= BigLen {
+		start -= 4
+	}
+
+	i := n + kl
+	vl := int(zm.value[i])
+	i++
+	if vl >= BigLen {
+		vl = int(binary.LittleEndian.Uint32(zm.value[i : i+4]))
+		i += 4
+	}
+	// value and value free
+	end := i + 1 + int(zm.value[i]) + vl
+
+	zm.value = append(zm.value[:start], zm.value[end:]...)
+	if zm.value[0] < BigLen {
+		zm.value[0]--
+	}
+}
+
 func (zm *zipMap) Del(key string) {
 
 }
-- 
2.43.0


From e85fa889d306543b8d539b3d18e3a9d9c6128062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:35 +0000
Subject: [PATCH 61/90] fix: a file that is not a snapshot was loaded as one

---
 redis/replication.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index b713fc3..9598df4 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -209,9 +209,12 @@ func (repl *Replication) Load() (err error) {
 
 	buf := bufio.NewReader(file)
 	var version = make([]byte, 9)
-	if _, err = buf.Read(version); err != nil {
+	if _, err = io.ReadFull(buf, version); err != nil {
 		return err
 	}
+	if _, err := strconv.Atoi(string(version[5:])); err != nil || string(version[:5]) != "REDIS" {
+		return errors.New("not a rdb file")
+	}
 	// start to load rdb file
 	var opCode uint
 	var expiresTime uint64
-- 
2.43.0


From 0ebeecaa5d7992245207d9898d24075f2f56a30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 62/90] fix: expiry times in seconds overflowed 32 bits

---
 redis/replication.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 9598df4..419129f 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -231,7 +231,7 @@ func (repl *Replication) Load() (err error) {
 			if _, err = io.ReadFull(buf, expireS); err != nil {
 				return err
 			}
-			expiresTime = uint64(binary.LittleEndian.Uint32(expireS) * 1000)
+			expiresTime = uint64(binary.LittleEndian.Uint32(expireS)) * 1000
 		case rdb.OpCodeExpireTimeMs:
 			var milliTime = make([]byte, 8)
 			if _, err = io.ReadFull(buf, milliTime); err != nil {
-- 
2.43.0


From abfe744b684816b4a86e0b3967748ced9b029a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:41 +0000
Subject: [PATCH 63/90] fix: lists were loaded in reverse order

---
 redis/replication.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 419129f..5ff7a08 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -347,7 +347,7 @@ func (repl *Replication) Load() (err error) {
 				}
 
 				var value string
-				var args = []string{"lPush", key}
+				var args = []string{"rPush", key}
 				for ; length > 0; length-- {
 					if value, err = rdb.LoadString(buf); err != nil {
 						logrus.Warnln("failed to load TypeList value", err)
-- 
2.43.0


From 09f05c46e8689830909564e1aa4e851284643e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:44 +0000
Subject: [PATCH 64/90] fix: hashes were loaded with zAdd

---
 redis/replication.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 5ff7a08..7287005 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -430,7 +430,7 @@ func (repl *Replication) Load() (err error) {
 					return err
 				}
 
-				var args = []string{"zAdd", key}
+				var args = []string{"hmSet", key}
 				var field, value string
 				for ; length > 0; length-- {
 					if field, err = rdb.LoadString(buf); err != nil {
-- 
2.43.0


From d8f536a41aa8d9e7ff2812d1b6dca545d993874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:47 +0000
Subject: [PATCH 65/90] fix: members and scores of sorted sets were swapped

zAdd takes the score first.
---
 redis/replication.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 7287005..eac6b7b 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -401,7 +401,6 @@ func (repl *Replication) Load() (err error) {
 						logrus.Warnln("failed to load TypeZSet, TypeZSet2 value", err)
 						return err
 					}
-					args = append(args, value)
 					if opCode == rdb.TypeZSet2 {
 						if score, err = rdb.LoadBinaryDouble(buf); err != nil {
 							logrus.Warnln("failed to load TypeZSet, TypeZSet2 value TypeZSet2", err)
@@ -414,7 +413,7 @@ func (repl *Replication) Load() (err error) {
 						}
 					}
 
-					args = append(args, strconv.FormatFloat(score, 'f', -1, 64))
+					args = append(args, strconv.FormatFloat(score, 'f', -1, 64), value)
 				}
 
 				cmd := NewBaseCommand(args...)
@@ -512,7 +511,7 @@ func (repl *Replication) Load() (err error) {
 					var args = []string{"zAdd", key}
 					list := ziplist.Load(str)
 					for i := 0; i < len(list)/2; i++ {
-						args = append(args, list[2*i], list[2*i+1])
+						args = append(args, list[2*i+1], list[2*i])
 					}
 					cmd := NewBaseCommand(args...)
 					repl.Messages <- ReplicationMessage{
-- 
2.43.0


From 9e51f12d7bd329c828e5605ac1aa1fb1e8f927d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 66/90] fix: a time to expire at was sent as a time to live

---
 redis/replication.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index eac6b7b..99c4e4a 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -558,7 +558,7 @@ func (repl *Replication) Load() (err error) {
 			}
 
 			if expiresTime > 0 {
-				args := []string{"pExpire", key, strconv.Itoa(int(expiresTime))}
+				args := []string{"pExpireAt", key, strconv.Itoa(int(expiresTime))}
 				cmd := NewBaseCommand(args...)
 				repl.Messages <- ReplicationMessage{
 					Database: repl.database,
-- 
2.43.0


From a628a3d2587f7932c54f1c38af4fc531f10d7b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:53 +0000
Subject: [PATCH 67/90] fix: a snapshot with an empty key was refused

The empty string is a key like any other.
---
 redis/replication.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 99c4e4a..fc42da2 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -319,9 +319,6 @@ func (repl *Replication) Load() (err error) {
 			if key, err = rdb.LoadString(buf); err != nil {
 				logrus.Warnln("failed to load key", err)
 				return err
-			} else if key == "" {
-				logrus.Warnln("failed to load key, key is empty", err)
-				return errors.New("empty key")
 			}
 
 			// opCode is object type
-- 
2.43.0


From 8f81251c30508fadd2009275ce587490e81482ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:56 +0000
Subject: [PATCH 68/90] fix: loading stopped silently at an unsupported type

The error was set and then dropped by the return after the loop, types that
are not known were skipped without their data, and a stream's length was
counted down one by one.
---
 redis/replication.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index fc42da2..6203f4b 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -538,20 +538,14 @@ func (repl *Replication) Load() (err error) {
 					}
 				}
 			case rdb.TypeStreamListPacks:
-				var length uint64
-				if length, _, err = rdb.LoadLen(buf); err != nil {
-					return err
-				}
-
-				for ; length > 0; length-- {
-					//if value, Err = rdb.LoadString(buf); Err != nil {
-					//	return Err
-					//}
-					//logrus.Infoln("TypeListQuickList", key, value)
-				}
 				err = errors.New("TypeStreamListPacks unsupported now")
 			case rdb.TypeModule, rdb.TypeModule2:
 				err = errors.New("TypeModule TypeModule2 unsupported now")
+			default:
+				err = fmt.Errorf("type %d unsupported now", opCode)
+			}
+			if err != nil {
+				return err
 			}
 
 			if expiresTime > 0 {
-- 
2.43.0


From c631cbd8fb1ca9e792920c02036e470bfb9dbe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:59 +0000
Subject: [PATCH 69/90] fix: a corrupt snapshot ended the process

---
 redis/replication.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/redis/replication.go b/redis/replication.go
index 6203f4b..09fa013 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -207,6 +207,13 @@ func (repl *Replication) Load() (err error) {
 		return errors.New("failed to open rdb file," + err.Error())
 	}
 
+	// the decoders index into the data, corrupt data is out of range
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("rdb file is corrupt, %v", r)
+		}
+	}()
+
 	buf := bufio.NewReader(file)
 	var version = make([]byte, 9)
 	if _, err = io.ReadFull(buf, version); err != nil {
-- 
2.43.0


From 47d0db66e44910223a8b39b50daaf003ecd76195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:02 +0000
Subject: [PATCH 70/90] fix: corrupt compact encodings lost data silently

A member without its score was left out and an intset of unknown width was
empty.
---
 redis/intset/intset.go | 2 ++
 redis/replication.go   | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/redis/intset/intset.go b/redis/intset/intset.go
index 16c3846..ba267b4 100644
--- a/redis/intset/intset.go
+++ b/redis/intset/intset.go
@@ -43,6 +43,8 @@ func Load(encoded string) (set []int64) {
 			num := binary.LittleEndian.Uint64([]byte(encoded[start:end]))
 			set = append(set, int64(num))
 		}
+	default:
+		panic("failed to decode int set")
 	}
 
 	return set
diff --git a/redis/replication.go b/redis/replication.go
index 09fa013..6d972bf 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -514,6 +514,9 @@ func (repl *Replication) Load() (err error) {
 				case rdb.TypeZSetZipList:
 					var args = []string{"zAdd", key}
 					list := ziplist.Load(str)
+					if len(list)%2 != 0 {
+						return errors.New("TypeZSetZipList has a member without score")
+					}
 					for i := 0; i < len(list)/2; i++ {
 						args = append(args, list[2*i+1], list[2*i])
 					}
@@ -526,6 +529,9 @@ func (repl *Replication) Load() (err error) {
 				case rdb.TypeHashZipList:
 					var args = []string{"hmSet", key}
 					list := ziplist.Load(str)
+					if len(list)%2 != 0 {
+						return errors.New("TypeHashZipList has a field without value")
+					}
 					args = append(args, list...)
 					cmd := NewBaseCommand(args...)
 					repl.Messages <- ReplicationMessage{
-- 
2.43.0


From 95ded29e8d5e1acdeb59a318581940ecaddbd920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:09 +0000
Subject: [PATCH 71/90] fix: of two reads of an expired key, one could return
 it

One reader loaded the value, the other removed the value and its expiry, and
the first then found no expiry.
---
 cache/cachestring.go |  8 ++++----
 cache/cacheutil.go   | 12 ++++--------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 78513c8..f6cb89f 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -149,8 +149,8 @@ func (c *Cache) StrLen(key string) (int, error) {
 	c.lock.RLock()
 	defer c.lock.RUnlock()
 
-	val, ok := c.dataDict.Load(key)
-	if !ok || c.expired(key) {
+	val, ok := c.get(key)
+	if !ok {
 		return 0, nil
 	}
 
@@ -229,8 +229,8 @@ func (c *Cache) GetRange(key string, start, end int) (string, error) {
 	c.lock.RLock()
 	defer c.lock.RUnlock()
 
-	old, ok := c.dataDict.Load(key)
-	if !ok || c.expired(key) {
+	old, ok := c.get(key)
+	if !ok {
 		return "", nil
 	}
 	oldStr, err := fmtString(old)
diff --git a/cache/cacheutil.go b/cache/cacheutil.go
index 78285c0..fdd3a05 100644
--- a/cache/cacheutil.go
+++ b/cache/cacheutil.go
@@ -34,15 +34,11 @@ func (c *Cache) expires(key string, duration time.Duration) {
 }
 
 func (c *Cache) get(key string) (value interface{},ok bool){
-	val, ok := c.dataDict.Load(key)
-	if !ok{
-		return val, ok
-	}
-
+	// expiry first: of two readers of an expired key, one may remove it and its expiry while the other
+	// holds the value
 	if c.expired(key) {
-		val = nil
-		ok = false
+		return nil, false
 	}
 
-	return val, ok
+	return c.dataDict.Load(key)
 }
\ No newline at end of file
-- 
2.43.0


From e67cd94860830fb30e3c3b8f066932fd821c8864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:07 +0000
Subject: [PATCH 72/90] verif: delay hook in the cache's maps, built only with
 the verif tag

---
 cache/database_verif.go | 42 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)
 create mode 100644 cache/database_verif.go

diff --git a/cache/database_verif.go b/cache/database_verif.go
new file mode 100644
index 0000000..61b4941
--- /dev/null
+++ b/cache/database_verif.go
@@ -0,0 +1,42 @@
+//go:build verif
+// +build verif
+
+package cache
+
+// VerifDelay, when set, is called before every access to the maps. It lets a monitor widen the windows
+// between the accesses of one command. Only built with the verif tag.
+var VerifDelay func(op string)
+
+func verifDelay(op string) {
+	if f := VerifDelay; f != nil {
+		f(op)
+	}
+}
+
+func (db *SyncMapDatabase) Delete(key interface{}) {
+	verifDelay("delete")
+	db.Map.Delete(key)
+}
+
+func (db *SyncMapDatabase) Store(key interface{}, value interface{}) {
+	verifDelay("store")
+	db.Map.Store(key, value)
+}
+
+func (db *SyncMapDatabase) Load(key interface{}) (value interface{}, ok bool) {
+	verifDelay("load")
+	return db.Map.Load(key)
+}
+
+func (db *SyncMapDatabase) LoadOrStore(key interface{}, value interface{}) (actual interface{}, loaded bool) {
+	verifDelay("loadorstore")
+	return db.Map.LoadOrStore(key, value)
+}
+
+func (db *SyncMapDatabase) Range(f func(key interface{}, value interface{}) bool) {
+	verifDelay("range")
+	db.Map.Range(func(key, value interface{}) bool {
+		verifDelay("rangeitem")
+		return f(key, value)
+	})
+}
-- 
2.43.0


From 4ad0f5b8f159868c14f6e6916c795b2bac396cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:10 +0000
Subject: [PATCH 73/90] fix: a deeply nested reply overflowed the stack

which ends the process and can not be recovered from.
---
 redis/conn.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 896d8d4..1639ce8 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -40,7 +40,7 @@ func (c *Conn) Recv() (Message, error) {
 		_ = c.conn.SetReadDeadline(time.Now().Add(c.ReadTimeout))
 	}
 
-	message, err := c.readMessage()
+	message, err := c.readMessage(0)
 	if err != nil {
 		c.broken = true
 	}
@@ -212,7 +212,14 @@ func (c Conn) ReadWithWriter(writer io.Writer) (protocol Protocol, n int, err er
 	}
 }
 
-func (c Conn) readMessage() (Message, error) {
+// a reply is not nested deeper than this
+const maxNesting = 1000
+
+func (c Conn) readMessage(depth int) (Message, error) {
+	if depth > maxNesting {
+		return nil, errors.New("reply is nested too deep")
+	}
+
 	protocol, err := c.readProtocol()
 	if err != nil {
 		return nil, err
@@ -297,7 +304,7 @@ func (c Conn) readMessage() (Message, error) {
 
 		var messages ArrayMessage
 		for i := 0; i < number; i++ {
-			if message, err := c.readMessage(); err != nil {
+			if message, err := c.readMessage(depth + 1); err != nil {
 				return nil, err
 			} else {
 				messages = append(messages, message)
-- 
2.43.0


From cecb42390f789371851c04804baa97f5fc0e809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 74/90] fix: an intset with a wrong count lost members silently

---
 redis/intset/intset.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redis/intset/intset.go b/redis/intset/intset.go
index ba267b4..76dddd5 100644
--- a/redis/intset/intset.go
+++ b/redis/intset/intset.go
@@ -18,6 +18,10 @@ func Load(encoded string) (set []int64) {
 	encoding := binary.LittleEndian.Uint32([]byte(encoded[0:4]))
 	length := binary.LittleEndian.Uint32([]byte(encoded[4:8]))
 
+	if len(encoded)-8 != int(length)*int(encoding) {
+		panic("int set does not have the length of its members")
+	}
+
 	switch encoding {
 	case EncInt16:
 		for i := 0; i < int(length); i++ {
-- 
2.43.0


From 22769e4dc24def52c7132a564767e91f26d72b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:15 +0000
Subject: [PATCH 75/90] fix: a ziplist with a wrong count or an early end lost
 items silently

---
 redis/ziplist/ziplist.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/redis/ziplist/ziplist.go b/redis/ziplist/ziplist.go
index e80e792..4cfd24c 100644
--- a/redis/ziplist/ziplist.go
+++ b/redis/ziplist/ziplist.go
@@ -2,6 +2,7 @@ package ziplist
 
 import (
 	"encoding/binary"
+	"math"
 	"strconv"
 )
 
@@ -166,5 +167,10 @@ func Load(encoded string) (list []string) {
 		list = append(list, str)
 	}
 
+	// above its limit the count is not stored
+	if n := int(iter.Length()); n != len(list) && n != math.MaxUint16 || iter.pos != len(encoded)-1 {
+		panic("zip list does not have the length of its items")
+	}
+
 	return list
 }
-- 
2.43.0


From 6eecd8748839b5a2bb346561f1d9655fd2f3b432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:18 +0000
Subject: [PATCH 76/90] fix: a zipmap with a wrong count or an early end lost
 pairs silently

---
 redis/zipmap/zipmap.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/redis/zipmap/zipmap.go b/redis/zipmap/zipmap.go
index 7bb3f74..8912b06 100644
--- a/redis/zipmap/zipmap.go
+++ b/redis/zipmap/zipmap.go
@@ -189,7 +189,8 @@ func Len(key string, value string) int {
 
 func Load(encoded string) (hash map[string]string) {
 	hash = make(map[string]string, encoded[0])
-	for i := 1; encoded[i] != End; {
+	i := 1
+	for encoded[i] != End {
 		kl := uint32(encoded[i])
 		i++
 		if kl >= BigLen {
@@ -225,5 +226,10 @@ func Load(encoded string) (hash map[string]string) {
 		hash[key] = value
 	}
 
+	// above its limit the count is not stored
+	if n := int(encoded[0]); n != len(hash) && n < BigLen || i != len(encoded)-1 {
+		panic("zip map does not have the length of its pairs")
+	}
+
 	return hash
 }
-- 
2.43.0


From 07cdacd03138105d1cd7b998f650c2990a6f744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 77/90] fix: a replicated SET with an argument that is no
 string was applied

---
 cache/message.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cache/message.go b/cache/message.go
index 8130940..599f000 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -16,6 +16,13 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 		return errors.New("empty message")
 	}
 
+	// a command is made of bulk strings
+	for _, message := range messages {
+		if _, null := message.(redis.NilMessage); null || message.Protocol() != redis.ProtocolBulkString {
+			return errors.New("malformed command," + messages.Serialize())
+		}
+	}
+
 	name := strings.ToLower(messages[0].String())
 	if name == "set" && len(messages) == 3 {
 		_, err = cache.Set(messages[1].String(), messages[2].String())
-- 
2.43.0


From 8c08b703f8eaae7f4cdb724ae15020aa4108ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:21 +0000
Subject: [PATCH 78/90] fix: a new pool connection goes to the caller that
 opened it

It was put among the idle ones first, where another caller could take it,
and its opener then waited although the pool was not full.
---
 redis/pool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redis/pool.go b/redis/pool.go
index 8752219..c99f4c1 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -47,7 +47,8 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 				return nil, err
 			}
 			pool.size++
-			pool.connC <- conn
+			pool.l.Unlock()
+			return conn, nil
 		}
 		pool.l.Unlock()
 	}
-- 
2.43.0


From 5b84d24a67a348cbf6f03abf9cb4c62d81e8d304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:51 +0000
Subject: [PATCH 79/90] fix: the failure mark of a connection is written by its
 reader and its writer

The replication link is read by one goroutine and acknowledged on by another,
both set the mark when the link is lost.
---
 redis/conn.go | 19 ++++++++++++++++---
 redis/pool.go |  4 ++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 1639ce8..1d627f4 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -10,6 +10,7 @@ import (
 	"net"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 )
 
@@ -20,7 +21,7 @@ type Conn struct {
 	Timeout      time.Duration
 	ReadTimeout  time.Duration
 	WriteTimeout time.Duration
-	broken       bool // an error left the stream in an unknown state
+	broken       *int32 // not 0 if an error left the stream in an unknown state, set by its reader and its writer
 }
 
 func (c *Conn) WithTimeout(duration time.Duration) {
@@ -42,7 +43,7 @@ func (c *Conn) Recv() (Message, error) {
 
 	message, err := c.readMessage(0)
 	if err != nil {
-		c.broken = true
+		c.fail()
 	}
 
 	return message, err
@@ -60,7 +61,7 @@ func (c *Conn) Send(message Message) error {
 	}
 
 	if err != nil {
-		c.broken = true
+		c.fail()
 	}
 
 	return err
@@ -93,6 +94,17 @@ func (c *Conn) Close() error {
 	return c.conn.Close()
 }
 
+func (c *Conn) fail() {
+	if c.broken != nil {
+		atomic.StoreInt32(c.broken, 1)
+	}
+}
+
+// if the stream is in an unknown state
+func (c *Conn) isBroken() bool {
+	return c.broken != nil && atomic.LoadInt32(c.broken) != 0
+}
+
 // Protocol length
 func (c Conn) readProtocol() (Protocol, error) {
 	var p byte
@@ -322,6 +334,7 @@ func NewConn(conn net.Conn) *Conn {
 		conn:   conn,
 		Reader: bufio.NewReader(conn),
 		Writer: bufio.NewWriter(conn),
+		broken: new(int32),
 	}
 }
 
diff --git a/redis/pool.go b/redis/pool.go
index c99f4c1..a12b86f 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -63,7 +63,7 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 
 // a connection that failed is replaced before it is used again
 func (pool *Pool) renew(conn *Conn) (*Conn, error) {
-	if !conn.broken {
+	if !conn.isBroken() {
 		return conn, nil
 	}
 
@@ -120,7 +120,7 @@ func (pool *Pool) Close() error {
 			}
 		}
 
-		if err := conn.Close(); err != nil && !conn.broken {
+		if err := conn.Close(); err != nil && !conn.isBroken() {
 			return err
 		}
 	}
-- 
2.43.0


From ca357170d4d1106928bda1dded95fd685a2a3dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:26 +0000
Subject: [PATCH 80/90] fix: a replicated script can change keys it does not
 name

Their local copies stayed. Like after a flush, nothing local is kept then.
---
 cache/message.go | 6 ++++++
 xxcache.go       | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cache/message.go b/cache/message.go
index 599f000..af445d1 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -34,6 +34,12 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 		return nil
 	}
 
+	// a script can change keys it does not name
+	if name == "eval" || name == "evalsha" || name == "fcall" {
+		cache.Flush()
+		return errors.New("unknown handled command," + message.Serialize())
+	}
+
 	// this command can not be replayed here, drop every key it may have changed
 	for _, message := range messages[1:] {
 		cache.Del(message.String())
diff --git a/xxcache.go b/xxcache.go
index 27d8982..bf8017c 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -95,7 +95,7 @@ func crossesDatabases(message redis.Message) bool {
 	}
 
 	switch strings.ToLower(args[0].String()) {
-	case "flushall", "swapdb", "move", "copy":
+	case "flushall", "swapdb", "move", "copy", "eval", "evalsha", "fcall":
 		return true
 	default:
 		return false
-- 
2.43.0


From fb26e11d0a87ae9cadc3b359bf8703c5da87b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:48 +0000
Subject: [PATCH 81/90] fix: the snapshot file stayed open after it was stored
 and after it was loaded

---
 redis/replication.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redis/replication.go b/redis/replication.go
index 6d972bf..86543c6 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -171,6 +171,7 @@ func (repl *Replication) sync() (err error) {
 	if fp, err = os.OpenFile(repl.RdbFile, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, os.ModePerm); err != nil {
 		return errors.New("failed to open rdb file," + err.Error())
 	}
+	defer fp.Close()
 
 	if protocol, length, err := repl.conn.ReadWithWriter(fp); err != nil {
 		return errors.New("failed to save rdb file," + err.Error())
@@ -206,6 +207,7 @@ func (repl *Replication) Load() (err error) {
 	if file, err = os.OpenFile(repl.RdbFile, os.O_RDONLY, os.ModePerm); err != nil {
 		return errors.New("failed to open rdb file," + err.Error())
 	}
+	defer file.Close()
 
 	// the decoders index into the data, corrupt data is out of range
 	defer func() {
-- 
2.43.0


From ae33c84e770614a449294c19799ca66a6145666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:48 +0000
Subject: [PATCH 82/90] fix: a failed attempt to connect left its link open and
 a goroutine running

---
 redis/replication.go | 6 ++++++
 xxcache.go           | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 86543c6..364f5df 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -38,7 +38,11 @@ type Replication struct {
 
 const DefaultReplicationMessages = 10000
 
+// Stop ends the link to the master
 func (repl *Replication) Stop() {
+	if repl.conn != nil {
+		_ = repl.conn.Close()
+	}
 }
 
 func (repl *Replication) SyncWithRedis() error {
@@ -62,11 +66,13 @@ func (repl *Replication) SyncWithRedis() error {
 
 	if err := repl.ping(); err != nil {
 		logrus.Warn("replication error", err)
+		repl.Stop()
 		return err
 	}
 
 	if err := repl.sync(); err != nil {
 		logrus.Warnln("replication error", err)
+		repl.Stop()
 		return err
 	}
 
diff --git a/xxcache.go b/xxcache.go
index bf8017c..b10f09a 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -49,6 +49,9 @@ func New(option Option) (client Client, err error) {
 	go client.handleReplication(repl)
 
 	if err = repl.Load(); err != nil {
+		// nothing else uses the link or the channels yet
+		repl.Stop()
+		close(repl.Err)
 		return client, err
 	}
 
@@ -79,7 +82,10 @@ func (client *Client) handleReplication(repl redis.Replication) {
 			if err := cache.HandleMessage(client.cache, message.Message); err != nil {
 				logrus.Warnln("repl error", err)
 			}
-		case err := <-repl.Err:
+		case err, ok := <-repl.Err:
+			if !ok {
+				return
+			}
 			if err != nil {
 				logrus.Warnln("repl error", err)
 			}
-- 
2.43.0


From c350a17b214f58f05f3a2f87f050ae66cc1768a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:48 +0000
Subject: [PATCH 83/90] fix: a replication link that is given up stayed open,
 and was acknowledged on

---
 redis/replication.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redis/replication.go b/redis/replication.go
index 364f5df..74969ea 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -83,6 +83,7 @@ func (repl *Replication) WaitForMessage() {
 	for {
 		message, err := repl.conn.Recv()
 		if err != nil {
+			repl.Stop()
 			repl.Err <- err
 			close(repl.Messages)
 			return
-- 
2.43.0


From 543ef849309e2f570d72d444f727d5dae5fa5592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:53 +0000
Subject: [PATCH 84/90] fix: callers of the pool do not wait for another one's
 connection to open

---
 redis/pool.go | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/redis/pool.go b/redis/pool.go
index a12b86f..e632d12 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -3,19 +3,17 @@ package redis
 import (
 	"context"
 	"errors"
-	"sync"
 )
 
 const defaultPoolCapacity = 20
 
 type Pool struct {
-	capacity         int // max connection nums
-	size             int // current size
+	capacity         int           // max connection nums
+	slots            chan struct{} // one for each connection that is open or being opened
 	connC            chan *Conn
 	addr             string
 	connOpenHandler  []func(conn *Conn) error
 	connCloseHandler []func(conn *Conn) error
-	l                sync.Mutex
 }
 
 func (pool *Pool) AddConnOpenHandler(handler func(conn *Conn) error) {
@@ -31,6 +29,7 @@ func (pool *Pool) Init(capacity int, addr string) {
 	}
 
 	pool.connC = make(chan *Conn, pool.capacity)
+	pool.slots = make(chan struct{}, pool.capacity)
 }
 
 func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
@@ -38,19 +37,13 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	case c := <-pool.connC:
 		return pool.renew(c)
 	default:
-		// no conn available, try create new conn
-		pool.l.Lock()
-		if pool.size < pool.capacity {
-			conn, err := pool.create()
-			if err != nil {
-				pool.l.Unlock()
-				return nil, err
-			}
-			pool.size++
-			pool.l.Unlock()
-			return conn, nil
-		}
-		pool.l.Unlock()
+	}
+
+	// no conn available, try create new conn
+	select {
+	case pool.slots <- struct{}{}:
+		return pool.open()
+	default:
 	}
 
 	select {
@@ -58,9 +51,23 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 		return nil, errors.New("no connection available")
 	case c := <-pool.connC:
 		return pool.renew(c)
+	case pool.slots <- struct{}{}:
+		// another conn could not be opened
+		return pool.open()
 	}
 }
 
+// a new connection for a slot that has been taken, other callers do not wait for it
+func (pool *Pool) open() (*Conn, error) {
+	conn, err := pool.create()
+	if err != nil {
+		<-pool.slots
+		return nil, err
+	}
+
+	return conn, nil
+}
+
 // a connection that failed is replaced before it is used again
 func (pool *Pool) renew(conn *Conn) (*Conn, error) {
 	if !conn.isBroken() {
@@ -110,9 +117,7 @@ func (pool *Pool) Close() error {
 			return nil
 		}
 
-		pool.l.Lock()
-		pool.size--
-		pool.l.Unlock()
+		<-pool.slots
 
 		for _, handler := range pool.connCloseHandler {
 			if err := handler(conn); err != nil {
-- 
2.43.0


From 6e509e6e39f350f112467308198b0e609a7e63f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:51 +0000
Subject: [PATCH 85/90] fix: a command with many arguments stopped replication
 for minutes

---
 redis/protocol.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/redis/protocol.go b/redis/protocol.go
index 179b140..0a91c91 100644
--- a/redis/protocol.go
+++ b/redis/protocol.go
@@ -68,13 +68,15 @@ func (message ArrayMessage) String() string {
 }
 
 func (message ArrayMessage) Serialize() string {
-	str := string(ProtocolArray) + strconv.Itoa(len(message)) + MessageEOF
+	// a command may have a million arguments
+	var str strings.Builder
+	str.WriteString(string(ProtocolArray) + strconv.Itoa(len(message)) + MessageEOF)
 
 	for _, m := range message {
-		str += m.Serialize()
+		str.WriteString(m.Serialize())
 	}
 
-	return str
+	return str.String()
 }
 
 func (message ArrayMessage) Protocol() Protocol {
-- 
2.43.0


From 09bbcdf2eda122598a19a6737a864e7ecde90c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:59 +0000
Subject: [PATCH 86/90] fix: a compressed string announced as long as its
 compressed form was loaded as it is

---
 redis/lzf/lzf.go | 17 ++++++++++++++---
 redis/rdb/rdb.go |  4 ++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/redis/lzf/lzf.go b/redis/lzf/lzf.go
index 5d10727..30ffe0d 100644
--- a/redis/lzf/lzf.go
+++ b/redis/lzf/lzf.go
@@ -26,14 +26,25 @@ func Compress(str string) string {
 
 // DeCompress undoes Compress. Data that does not decompress to length bytes is returned as it is.
 func DeCompress(str string, length int) string {
-	if len(str) == 0 || len(str) == length || length <= 0 || length > math.MaxUint32 {
+	if len(str) == length {
 		return str
 	}
+	if decoded, ok := Decode(str, length); ok {
+		return decoded
+	}
+	return str
+}
+
+// Decode decompresses data that is known to be compressed, it is not ok if that does not give length bytes.
+func Decode(str string, length int) (string, bool) {
+	if len(str) == 0 || length <= 0 || length > math.MaxUint32 {
+		return "", false
+	}
 	input := []byte(str)
 	var decoded = make([]byte, length)
 	dl := C.lzf_decompress(unsafe.Pointer(&input[0]), C.uint(len(input)), unsafe.Pointer(&decoded[0]), C.uint(length))
 	if int(dl) != length {
-		return str
+		return "", false
 	}
-	return string(decoded)
+	return string(decoded), true
 }
diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 14e902d..74ddb0a 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -146,8 +146,8 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 			if length/264 > n {
 				return str, errors.New("EncLzf length does not match its data")
 			}
-			str = lzf.DeCompress(string(c), int(length))
-			if uint64(len(str)) != length {
+			var ok bool
+			if str, ok = lzf.Decode(string(c), int(length)); !ok {
 				return "", errors.New("EncLzf data is corrupt")
 			}
 		default:
-- 
2.43.0


From 2d3db4465733e1d984ad61ec7a95abd713b1ee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:45 +0000
Subject: [PATCH 87/90] fix: a string encoding in the place of a length was
 taken for a length

---
 redis/rdb/rdb.go     | 14 ++++++++++++--
 redis/replication.go | 26 +++++++++++++-------------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 74ddb0a..0eec4d1 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -82,6 +82,16 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 	return length, encoded, err
 }
 
+// LoadCount reads a length where there can not be an encoded string
+func LoadCount(reader *bufio.Reader) (uint64, error) {
+	length, encoded, err := LoadLen(reader)
+	if err == nil && encoded {
+		err = errors.New("a string encoding in the place of a length")
+	}
+
+	return length, err
+}
+
 const EncInt8 = 0
 const EncInt16 = 1
 const EncInt32 = 2
@@ -127,13 +137,13 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 		case EncLzf:
 			var n uint64
 			// 解压前长度
-			n, _, err = LoadLen(reader)
+			n, err = LoadCount(reader)
 			if err != nil {
 				return
 			}
 
 			// 解压后长度
-			length, _, err := LoadLen(reader)
+			length, err := LoadCount(reader)
 			if err != nil {
 				return str, err
 			}
diff --git a/redis/replication.go b/redis/replication.go
index 74969ea..6ef2fd6 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -262,7 +262,7 @@ func (repl *Replication) Load() (err error) {
 			logrus.Warnln("lfu", lfu)
 		case rdb.OpCodeIdle:
 			var lru uint64
-			if lru, _, err = rdb.LoadLen(buf); err != nil {
+			if lru, err = rdb.LoadCount(buf); err != nil {
 				return err
 			}
 			logrus.Println("OpCodeIdle", lru)
@@ -270,7 +270,7 @@ func (repl *Replication) Load() (err error) {
 			logrus.Infoln("rdb done!!!")
 			return nil
 		case rdb.OpCodeSelectDB:
-			if index, _, err := rdb.LoadLen(buf); err != nil {
+			if index, err := rdb.LoadCount(buf); err != nil {
 				return errors.New("OpCodeSelectDB error, " + err.Error())
 			} else {
 				repl.database = int(index)
@@ -278,10 +278,10 @@ func (repl *Replication) Load() (err error) {
 			}
 		case rdb.OpCodeResizeDB:
 			var dbSize, expiresSize uint64
-			if dbSize, _, err = rdb.LoadLen(buf); err != nil {
+			if dbSize, err = rdb.LoadCount(buf); err != nil {
 				return err
 			}
-			if expiresSize, _, err = rdb.LoadLen(buf); err != nil {
+			if expiresSize, err = rdb.LoadCount(buf); err != nil {
 				return err
 			}
 			logrus.Debugln("OpCodeResizeDB ignored", dbSize, expiresSize)
@@ -309,20 +309,20 @@ func (repl *Replication) Load() (err error) {
 			continue
 		case rdb.OpCodeModuleAux:
 			var moduleId, whenOpCode, when, eof uint64
-			if moduleId, _, err = rdb.LoadLen(buf); err != nil {
+			if moduleId, err = rdb.LoadCount(buf); err != nil {
 				return err
 			}
-			if whenOpCode, _, err = rdb.LoadLen(buf); err != nil {
+			if whenOpCode, err = rdb.LoadCount(buf); err != nil {
 				return err
 			} else if int(whenOpCode) != rdb.ModuleOpCodeUint {
 				return errors.New("ModuleOpCodeUint error")
 			}
 
-			if when, _, err = rdb.LoadLen(buf); err != nil {
+			if when, err = rdb.LoadCount(buf); err != nil {
 				return err
 			}
 
-			if eof, _, err = rdb.LoadLen(buf); err != nil {
+			if eof, err = rdb.LoadCount(buf); err != nil {
 				return err
 			} else if int(eof) != rdb.ModuleOpCodeEof {
 				return errors.New("ModuleOpCodeEof error")
@@ -354,7 +354,7 @@ func (repl *Replication) Load() (err error) {
 				}
 			case rdb.TypeList:
 				var length uint64
-				if length, _, err = rdb.LoadLen(buf); err != nil {
+				if length, err = rdb.LoadCount(buf); err != nil {
 					logrus.Warnln("failed to load TypeList length", err)
 					return err
 				}
@@ -379,7 +379,7 @@ func (repl *Replication) Load() (err error) {
 
 			case rdb.TypeSet:
 				var length uint64
-				if length, _, err = rdb.LoadLen(buf); err != nil {
+				if length, err = rdb.LoadCount(buf); err != nil {
 					logrus.Warnln("failed to load TypeSet length", err)
 					return err
 				}
@@ -400,7 +400,7 @@ func (repl *Replication) Load() (err error) {
 				}
 			case rdb.TypeZSet, rdb.TypeZSet2:
 				var length uint64
-				if length, _, err = rdb.LoadLen(buf); err != nil {
+				if length, err = rdb.LoadCount(buf); err != nil {
 					logrus.Warnln("failed to load TypeZSet, TypeZSet2 length", err)
 					return err
 				}
@@ -437,7 +437,7 @@ func (repl *Replication) Load() (err error) {
 				}
 			case rdb.TypeHash:
 				var length uint64
-				if length, _, err = rdb.LoadLen(buf); err != nil {
+				if length, err = rdb.LoadCount(buf); err != nil {
 					logrus.Warnln("failed to load TypeHash length", err)
 					return err
 				}
@@ -466,7 +466,7 @@ func (repl *Replication) Load() (err error) {
 				}
 			case rdb.TypeListQuickList:
 				var length uint64
-				if length, _, err = rdb.LoadLen(buf); err != nil {
+				if length, err = rdb.LoadCount(buf); err != nil {
 					logrus.Warnln("failed to load TypeListQuickList length", err)
 					return err
 				}
-- 
2.43.0


From 83fffb570fd30455b3d5e156e6babdc7394064a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:21 +0000
Subject: [PATCH 88/90] fix: the stream after a snapshot was taken to be in the
 snapshot's last database

---
 redis/replication.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/redis/replication.go b/redis/replication.go
index 6ef2fd6..f211596 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -234,6 +234,8 @@ func (repl *Replication) Load() (err error) {
 	// start to load rdb file
 	var opCode uint
 	var expiresTime uint64
+	// the database selected in the stream that follows
+	var streamDatabase int
 	for err == nil {
 		// load op code first
 		if opCode, err = rdb.LoadOpCode(buf); err != nil {
@@ -268,6 +270,7 @@ func (repl *Replication) Load() (err error) {
 			logrus.Println("OpCodeIdle", lru)
 		case rdb.OpCodeEof:
 			logrus.Infoln("rdb done!!!")
+			repl.database = streamDatabase
 			return nil
 		case rdb.OpCodeSelectDB:
 			if index, err := rdb.LoadCount(buf); err != nil {
@@ -303,6 +306,12 @@ func (repl *Replication) Load() (err error) {
 				} else {
 					repl.SetReplicationOffset(offset)
 				}
+			case "repl-stream-db":
+				if index, err := strconv.Atoi(value); err != nil {
+					return err
+				} else {
+					streamDatabase = index
+				}
 			default:
 				logrus.Warnln("unused op code aux", key, value)
 			}
-- 
2.43.0


From bc5e6abe756a5f9e58431d1188d56e924d91ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:21 +0000
Subject: [PATCH 89/90] fix: the timeout for connecting had no effect

---
 redis/conn.go  | 7 ++++++-
 redis/pool.go  | 4 +++-
 redis/redis.go | 1 +
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 1d627f4..d036be0 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -339,7 +339,12 @@ func NewConn(conn net.Conn) *Conn {
 }
 
 func Connect(address string) (*Conn, error) {
-	conn, err := net.Dial("tcp", address)
+	return ConnectTimeout(address, 0)
+}
+
+// ConnectTimeout gives up after the timeout, if it is not 0
+func ConnectTimeout(address string, timeout time.Duration) (*Conn, error) {
+	conn, err := net.DialTimeout("tcp", address, timeout)
 
 	if err != nil {
 		return nil, err
diff --git a/redis/pool.go b/redis/pool.go
index e632d12..e6fb4fd 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -3,6 +3,7 @@ package redis
 import (
 	"context"
 	"errors"
+	"time"
 )
 
 const defaultPoolCapacity = 20
@@ -12,6 +13,7 @@ type Pool struct {
 	slots            chan struct{} // one for each connection that is open or being opened
 	connC            chan *Conn
 	addr             string
+	timeout          time.Duration // to open a connection, if not 0
 	connOpenHandler  []func(conn *Conn) error
 	connCloseHandler []func(conn *Conn) error
 }
@@ -86,7 +88,7 @@ func (pool *Pool) renew(conn *Conn) (*Conn, error) {
 }
 
 func (pool *Pool) create() (conn *Conn, err error) {
-	if conn, err = Connect(pool.addr); err != nil {
+	if conn, err = ConnectTimeout(pool.addr, pool.timeout); err != nil {
 		return conn, err
 	}
 
diff --git a/redis/redis.go b/redis/redis.go
index b216568..79b9e31 100644
--- a/redis/redis.go
+++ b/redis/redis.go
@@ -33,6 +33,7 @@ func NewClient(option Option) *Redis {
 	redis := new(Redis)
 
 	redis.connPool.Init(option.PoolSize, option.Addr)
+	redis.connPool.timeout = option.Timeout
 
 	redis.connPool.AddConnOpenHandler(func(conn *Conn) error {
 		conn.WithReadTimeout(option.ReadTimeout)
-- 
2.43.0


From 40110df41eb7e011705c5e24a32cbdccaf96d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:34 +0000
Subject: [PATCH 90/90] fix: a client that lost its link went on acknowledging
 for ever

---
 redis/replication.go | 11 +++++++++--
 xxcache.go           |  8 ++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index f211596..86aae60 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -51,7 +51,8 @@ func (repl *Replication) SyncWithRedis() error {
 	}
 
 	repl.Messages = make(chan ReplicationMessage, DefaultReplicationMessages)
-	repl.Err = make(chan error, 1)
+	// the last error of each side of the link, nobody may be left to take it
+	repl.Err = make(chan error, 2)
 
 	if repl.MasterAddr == "" {
 		return errors.New("redis master addr is required")
@@ -132,9 +133,15 @@ func (repl *Replication) ack() error {
 }
 
 func (repl *Replication) Ack() {
-	for range time.NewTicker(time.Second).C {
+	ticker := time.NewTicker(time.Second)
+	defer ticker.Stop()
+
+	for range ticker.C {
 		if err := repl.ack(); err != nil {
+			// the link is lost
+			repl.Stop()
 			repl.Err <- err
+			return
 		}
 	}
 }
diff --git a/xxcache.go b/xxcache.go
index b10f09a..c6b2dca 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -70,9 +70,13 @@ func (client *Client) handleReplication(repl redis.Replication) {
 		case message, ok := <-repl.Messages:
 			if !ok {
 				// the link to the master is lost, local copies are no longer kept up to date
-				repl.Messages = nil
 				client.cache.Flush()
-				continue
+				select {
+				case err := <-repl.Err:
+					logrus.Warnln("repl error", err)
+				default:
+				}
+				return
 			}
 
 			if message.Database != client.option.database && !crossesDatabases(message.Message) {
-- 
2.43.0

