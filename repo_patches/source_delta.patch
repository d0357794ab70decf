From b83f42c0e096b699d484d8aaad160e1863733c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 01/33] fix: memory cache unlock/timeout must handle every due
 message of the given queue only

---
 internal/queue/cache/memory_cache.go | 38 ++++++++++++++++------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index f9d0135..cfb80d8 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -220,27 +220,29 @@ func (cache *MemoryCache) UnlockMessages(ctx context.Context, queue string, lock
 	nowMs := dtime.NowMs()
 
 	unlockedMessages := make([]string, 0)
-	for queue := range data {
-		list := data[queue]
 
-		if list == nil {
-			continue
-		}
-
-		for e := list.Front(); e != nil; e = e.Next() {
-			value := e.Value.(*MemoryMessageEntry)
+	locked := data[queue]
+	if locked == nil {
+		return unlockedMessages, nil
+	}
 
-			if nowMs >= int64(value.lockUntil) {
-				list.Remove(e)
+	var next *list.Element
+	for e := locked.Front(); e != nil; e = next {
+		// The next element must be read before the current one is removed from the list
+		next = e.Next()
 
-				if score.IsUndefined(value.score) {
-					value.score = defaultScore
-				}
+		value := e.Value.(*MemoryMessageEntry)
 
-				cache.queues[queue], _ = insertEntry(value, cache.queues[queue])
+		if nowMs >= int64(value.lockUntil) {
+			locked.Remove(e)
 
-				unlockedMessages = append(unlockedMessages, value.id)
+			if score.IsUndefined(value.score) {
+				value.score = defaultScore
 			}
+
+			cache.queues[queue], _ = insertEntry(value, cache.queues[queue])
+
+			unlockedMessages = append(unlockedMessages, value.id)
 		}
 	}
 
@@ -307,7 +309,11 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 	count := int64(0)
 
 	result := make([]string, 0)
-	for e := cache.processingQueues[queue].Front(); e != nil; e = e.Next() {
+	var next *list.Element
+	for e := cache.processingQueues[queue].Front(); e != nil; e = next {
+		// The next element must be read before the current one is removed from the list
+		next = e.Next()
+
 		value := e.Value.(*MemoryMessageEntry)
 
 		if value.score <= float64(timeoutTime) {
-- 
2.43.0


From b50eac0d756c6cfaa6417929f4aabd4ab639d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 02/33] fix: memory cache pull must skip filtered messages
 without counting them and use millisecond deadlines

---
 internal/queue/cache/memory_cache.go | 34 ++++++++++++++--------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index cfb80d8..6bc2059 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -265,23 +265,30 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 
 	result := make([]string, 0, utils.MinInt64(n, total))
 
-	filteredOut := make([]*MemoryMessageEntry, 0)
-	for i := int64(0); i < n && i < total && cache.queues[queue].Len() != 0; i++ {
-		element := cache.queues[queue].Front()
+	deadline := float64(dtime.NowMs() + ackDeadlineMs)
 
-		entry := element.Value.(*MemoryMessageEntry)
-
-		cache.queues[queue], _ = removeEntry(entry, cache.queues[queue])
+	// The list is ordered by score. Messages outside the score window are skipped, they stay in the queue
+	// and do not count toward the amount of requested messages.
+	var next *list.Element
+	for element := cache.queues[queue].Front(); element != nil && int64(len(result)) < n; element = next {
+		// The next element must be read before the current one is removed from the list
+		next = element.Next()
 
-		if minScore != nil && entry.score < *minScore || maxScore != nil && entry.score > *maxScore {
-			filteredOut = append(filteredOut, entry)
+		entry := element.Value.(*MemoryMessageEntry)
 
+		if minScore != nil && entry.score < *minScore {
 			continue
 		}
 
+		if maxScore != nil && entry.score > *maxScore {
+			break
+		}
+
+		cache.queues[queue].Remove(element)
+
 		processingEntry := &MemoryMessageEntry{
 			id:    entry.id,
-			score: float64(dtime.Now().Unix() + ackDeadlineMs),
+			score: deadline,
 		}
 
 		cache.processingQueues[queue], _ = insertEntry(processingEntry, cache.processingQueues[queue])
@@ -289,10 +296,6 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 		result = append(result, entry.id)
 	}
 
-	for _, entry := range filteredOut {
-		cache.queues[queue], _ = insertEntry(entry, cache.queues[queue])
-	}
-
 	return result, nil
 }
 
@@ -304,9 +307,7 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 		return nil, nil
 	}
 
-	timeoutTime := dtime.Now().Unix()
-
-	count := int64(0)
+	timeoutTime := dtime.NowMs()
 
 	result := make([]string, 0)
 	var next *list.Element
@@ -321,7 +322,6 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 
 			result = append(result, value.id)
 
-			count++
 			cache.processingQueues[queue], _ = removeEntry(value, cache.processingQueues[queue])
 			cache.queues[queue], _ = insertEntry(value, cache.queues[queue])
 		}
-- 
2.43.0


From 7e91c75bcc9bd70c7a286dd96147eeb53f9a8c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 03/33] fix: saturate lock and ack deadlines instead of
 overflowing

---
 internal/queue/cache/cache.go        | 18 ++++++++++++++++++
 internal/queue/cache/memory_cache.go |  4 ++--
 internal/queue/cache/redis_cache.go  |  4 ++--
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/internal/queue/cache/cache.go b/internal/queue/cache/cache.go
index e28a3f7..0780d12 100644
--- a/internal/queue/cache/cache.go
+++ b/internal/queue/cache/cache.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/takenet/deckard/internal/queue/message"
 	"github.com/takenet/deckard/internal/queue/pool"
+	"github.com/takenet/deckard/internal/queue/score"
 )
 
 type Type string
@@ -72,3 +73,20 @@ func CreateCache(ctx context.Context, cacheType Type) (Cache, error) {
 
 	return nil, errors.New("invalid cache type")
 }
+
+// deadlineFrom returns the millisecond timestamp reached deltaMs after nowMs.
+// The result is kept inside the valid score range, so it never overflows nor becomes negative.
+func deadlineFrom(nowMs int64, deltaMs int64) int64 {
+	max := int64(score.Max)
+
+	if deltaMs > max-nowMs {
+		return max
+	}
+
+	deadline := nowMs + deltaMs
+	if deadline < 0 {
+		return 0
+	}
+
+	return deadline
+}
diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 6bc2059..88be5ea 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -189,7 +189,7 @@ func (cache *MemoryCache) LockMessage(_ context.Context, message *message.Messag
 	cache.processingQueues[message.Queue], result = removeEntry(entry, cache.processingQueues[message.Queue])
 
 	if result {
-		entry.lockUntil = float64(dtime.NowMs() + message.LockMs)
+		entry.lockUntil = float64(deadlineFrom(dtime.NowMs(), message.LockMs))
 
 		switch lockType {
 		case LOCK_ACK:
@@ -265,7 +265,7 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 
 	result := make([]string, 0, utils.MinInt64(n, total))
 
-	deadline := float64(dtime.NowMs() + ackDeadlineMs)
+	deadline := float64(deadlineFrom(dtime.NowMs(), ackDeadlineMs))
 
 	// The list is ordered by score. Messages outside the score window are skipped, they stay in the queue
 	// and do not count toward the amount of requested messages.
diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index ab6e66a..e2b396d 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -622,7 +622,7 @@ func (cache *RedisCache) LockMessage(ctx context.Context, message *message.Messa
 		return false, errors.New("invalid lock time")
 	}
 
-	lockScore := dtime.NowMs() + message.LockMs
+	lockScore := deadlineFrom(dtime.NowMs(), message.LockMs)
 
 	execStart := dtime.Now()
 	defer func() {
@@ -687,7 +687,7 @@ func (cache *RedisCache) PullMessages(ctx context.Context, queue string, n int64
 		ackDeadlineMs = DefaultTimeoutMs
 	}
 
-	newScore := dtime.TimeToMs(&now) + ackDeadlineMs
+	newScore := deadlineFrom(dtime.TimeToMs(&now), ackDeadlineMs)
 
 	args := []any{
 		n, newScore,
-- 
2.43.0


From 0faf0da2dae12ffefa21aa66b737dfd1b1443625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 04/33] fix: redis removal must count each queue entry once

---
 internal/queue/cache/redis_cache_scripts.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/queue/cache/redis_cache_scripts.go b/internal/queue/cache/redis_cache_scripts.go
index 6ddf55a..272b7c3 100644
--- a/internal/queue/cache/redis_cache_scripts.go
+++ b/internal/queue/cache/redis_cache_scripts.go
@@ -2,14 +2,20 @@ package cache
 
 // Removes all elements from different sorted sets
 //
-// KEYS[1-n] -> sorted sets to remove elements
+// KEYS[1-4] -> pool sorted sets to remove elements
+//
+// KEYS[5-6] -> lock score sorted sets, their elements are already counted by their lock pool
 //
 // ARGV[1/n] -> elements to remove from all sorted sets
 const removeElementScript = `
 local total = 0
 
-for _, pool in ipairs(KEYS) do
-	total = total + redis.call('ZREM', pool, unpack(ARGV))
+for i, pool in ipairs(KEYS) do
+	local removed = redis.call('ZREM', pool, unpack(ARGV))
+
+	if i <= 4 then
+		total = total + removed
+	end
 end
 
 return total
-- 
2.43.0


From b4f39f5d164c33322b3797094dcb766a7fcf002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 05/33] fix: redis flush and listing must only match keys of
 the configured prefix

---
 internal/queue/cache/redis_cache.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index e2b396d..8bc92e3 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -67,6 +67,8 @@ var PROCESSING_POOL_REGEX = regexp.MustCompile("(.+)" + PROCESSING_POOL_SUFFIX +
 var LOCK_ACK_POOL_REGEX = regexp.MustCompile("(.+)" + LOCK_ACK_SUFFIX + "$")
 var LOCK_NACK_POOL_REGEX = regexp.MustCompile("(.+)" + LOCK_NACK_SUFFIX + "$")
 
+var globEscaper = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`, `]`, `\]`)
+
 func NewRedisCache(ctx context.Context) (*RedisCache, error) {
 	clusterMode := config.RedisClusterMode.GetBool()
 
@@ -281,7 +283,7 @@ func (cache *RedisCache) Flush(ctx context.Context) {
 		metrics.CacheLatency.Record(ctx, dtime.ElapsedTime(now), metric.WithAttributes(attribute.String("op", "flush")))
 	}()
 
-	pattern := cache.fullPrefix() + ":*"
+	pattern := escapeGlob(cache.fullPrefix()) + ":*"
 
 	// Delete only this Deckard instance namespace. Never call FLUSHDB, since users may share
 	// the same Redis with other applications (or another Deckard with a different prefix).
@@ -366,16 +368,16 @@ func (cache *RedisCache) ListQueues(ctx context.Context, pattern string, poolTyp
 
 	switch poolType {
 	case pool.PRIMARY_POOL:
-		searchPattern = cache.activePool(pattern)
+		searchPattern = cache.poolPattern(pattern, "")
 
 	case pool.PROCESSING_POOL:
-		searchPattern = cache.processingPool(pattern)
+		searchPattern = cache.poolPattern(pattern, PROCESSING_POOL_SUFFIX)
 
 	case pool.LOCK_ACK_POOL:
-		searchPattern = cache.lockPool(pattern, LOCK_ACK)
+		searchPattern = cache.poolPattern(pattern, LOCK_ACK_SUFFIX)
 
 	case pool.LOCK_NACK_POOL:
-		searchPattern = cache.lockPool(pattern, LOCK_NACK)
+		searchPattern = cache.poolPattern(pattern, LOCK_NACK_SUFFIX)
 	}
 
 	// Use SCAN instead of KEYS to avoid blocking Redis.
@@ -925,6 +927,16 @@ func (cache *RedisCache) lockPoolScore(queue string, lockType LockType) string {
 	return cache.poolPrefix() + "{" + queue + "}" + ":" + string(lockType) + SCORE_SUFFIX
 }
 
+// poolPattern returns the glob-style pattern which matches the keys of the queues matching the provided pattern.
+func (cache *RedisCache) poolPattern(queuePattern string, suffix string) string {
+	return escapeGlob(cache.poolPrefix()) + "{" + queuePattern + "}" + suffix
+}
+
+// escapeGlob escapes every Redis glob-style special character, so the value only matches itself.
+func escapeGlob(value string) string {
+	return globEscaper.Replace(value)
+}
+
 func resolveConfiguredPrefix() string {
 	prefix := strings.TrimSpace(config.CachePrefix.Get())
 	if prefix == "" {
-- 
2.43.0


From cc99e5c7fa9ee5e6b508a51c0111afe48d982b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 06/33] fix: redis primary pool listing must not drop queues
 named like a pool suffix

---
 internal/queue/cache/redis_cache.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index 8bc92e3..f1efc60 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -421,6 +421,11 @@ func (cache *RedisCache) ListQueues(ctx context.Context, pattern string, poolTyp
 		}
 	}
 
+	if pool.PRIMARY_POOL == poolType {
+		// Raw keys are filtered, since queue names may end with any pool suffix
+		data = filterQueueSuffix(data)
+	}
+
 	var regex *regexp.Regexp
 	switch poolType {
 	case pool.PROCESSING_POOL:
@@ -437,10 +442,6 @@ func (cache *RedisCache) ListQueues(ctx context.Context, pattern string, poolTyp
 		data[i] = cache.parseQueueKey(queue, regex)
 	}
 
-	if pool.PRIMARY_POOL == poolType {
-		return filterQueueSuffix(uniqStrings(data)), nil
-	}
-
 	return uniqStrings(data), nil
 }
 
-- 
2.43.0


From 08357cb910ac873f79a4ef1cbb0dac301a037289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 07/33] fix: memory storage count must release its lock on
 filter errors

---
 internal/queue/storage/memory_storage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index d2b021e..7c9de9b 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -142,6 +142,8 @@ func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _
 	count := int64(0)
 
 	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	for _, value := range storage.docs {
 		matches, err := messageMatchesFilter(value, findOpts)
 
@@ -153,7 +155,6 @@ func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _
 			count++
 		}
 	}
-	storage.lock.RUnlock()
 
 	return count, nil
 }
-- 
2.43.0


From d238a04421bf351c12b0efab6a058a0d7a579d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 08/33] fix: memory storage insert, ack and nack must be atomic
 and validate before storing

---
 internal/queue/storage/memory_storage.go | 38 +++++++++++-------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 7c9de9b..0a47502 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -86,6 +86,7 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 	inserted := int64(0)
 	modified := int64(0)
 
+	// Every message is validated before storing any of them
 	for i := range messages {
 		if messages[i].Queue == "" {
 			return 0, 0, fmt.Errorf("message has a invalid queue")
@@ -94,22 +95,24 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 		if messages[i].ID == "" {
 			return 0, 0, fmt.Errorf("message has a invalid ID")
 		}
+	}
+
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
 
+	for i := range messages {
 		key := getKey(messages[i])
 
-		storage.lock.RLock()
-		_, present := storage.docs[key]
-		storage.lock.RUnlock()
+		stored, present := storage.docs[key]
 
-		storage.lock.Lock()
 		if present {
 			modified++
 
-			storage.docs[key].Description = messages[i].Description
-			storage.docs[key].ExpiryDate = messages[i].ExpiryDate
-			storage.docs[key].Metadata = messages[i].Metadata
-			storage.docs[key].Payload = messages[i].Payload
-			storage.docs[key].StringPayload = messages[i].StringPayload
+			stored.Description = messages[i].Description
+			stored.ExpiryDate = messages[i].ExpiryDate
+			stored.Metadata = messages[i].Metadata
+			stored.Payload = messages[i].Payload
+			stored.StringPayload = messages[i].StringPayload
 		} else {
 			inserted++
 
@@ -119,8 +122,6 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 			messages[i].LastUsage = &now
 			storage.docs[key] = messages[i]
 		}
-
-		storage.lock.Unlock()
 	}
 
 	return inserted, modified, nil
@@ -318,15 +319,15 @@ func (storage *MemoryStorage) Remove(_ context.Context, queue string, ids ...str
 }
 
 func (storage *MemoryStorage) Ack(_ context.Context, msg *message.Message) (modifiedCount int64, err error) {
-	storage.lock.RLock()
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	value, contains := storage.docs[getKey(msg)]
-	storage.lock.RUnlock()
 
 	if !contains {
 		return 0, nil
 	}
 
-	storage.lock.Lock()
 	value.TotalScoreSubtract += msg.LastScoreSubtract
 	value.UsageCount += 1
 	value.LastUsage = msg.LastUsage
@@ -341,21 +342,19 @@ func (storage *MemoryStorage) Ack(_ context.Context, msg *message.Message) (modi
 	*value.Diagnostics.ConsecutiveAcks = *value.Diagnostics.ConsecutiveAcks + 1
 	*value.Diagnostics.ConsecutiveNacks = 0
 
-	storage.lock.Unlock()
-
 	return 1, nil
 }
 
 func (storage *MemoryStorage) Nack(_ context.Context, msg *message.Message) (modifiedCount int64, err error) {
-	storage.lock.RLock()
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	value, contains := storage.docs[getKey(msg)]
-	storage.lock.RUnlock()
 
 	if !contains {
 		return 0, nil
 	}
 
-	storage.lock.Lock()
 	value.Score = msg.Score
 	value.LockMs = msg.LockMs
 
@@ -364,7 +363,6 @@ func (storage *MemoryStorage) Nack(_ context.Context, msg *message.Message) (mod
 	*value.Diagnostics.Nacks = *value.Diagnostics.Nacks + 1
 	*value.Diagnostics.ConsecutiveNacks = *value.Diagnostics.ConsecutiveNacks + 1
 	*value.Diagnostics.ConsecutiveAcks = 0
-	storage.lock.Unlock()
 
 	return 1, nil
 }
-- 
2.43.0


From bb6fad3722aeeb1e5c699285b953b051550b6abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 09/33] fix: memory storage must not share or access its data
 unlocked

---
 internal/queue/storage/memory_storage.go | 66 ++++++++++++++++++++----
 1 file changed, 56 insertions(+), 10 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 0a47502..b9b4fa4 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -39,13 +39,15 @@ func NewMemoryStorage(ctx context.Context) *MemoryStorage {
 }
 
 func (storage *MemoryStorage) ListQueueConfigurations(ctx context.Context) ([]*configuration.QueueConfiguration, error) {
-	configurations := make([]*configuration.QueueConfiguration, len(storage.configurations))
+	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
+	configurations := make([]*configuration.QueueConfiguration, 0, len(storage.configurations))
 
-	configurationIndex := 0
 	for i := range storage.configurations {
-		configurations[configurationIndex] = storage.configurations[i]
+		config := *storage.configurations[i]
 
-		configurationIndex += 1
+		configurations = append(configurations, &config)
 	}
 
 	return configurations, nil
@@ -56,17 +58,32 @@ func (storage *MemoryStorage) EditQueueConfiguration(_ context.Context, configur
 		return nil
 	}
 
-	if configuration.MaxElements < 0 {
-		configuration.MaxElements = 0
+	config := *configuration
+
+	if config.MaxElements < 0 {
+		config.MaxElements = 0
 	}
 
-	storage.configurations[configuration.Queue] = configuration
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
+	storage.configurations[config.Queue] = &config
 
 	return nil
 }
 
 func (storage *MemoryStorage) GetQueueConfiguration(_ context.Context, queue string) (*configuration.QueueConfiguration, error) {
-	return storage.configurations[queue], nil
+	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
+	stored, ok := storage.configurations[queue]
+	if !ok {
+		return nil, nil
+	}
+
+	config := *stored
+
+	return &config, nil
 }
 
 func (storage *MemoryStorage) Flush(_ context.Context) (deletedCount int64, err error) {
@@ -120,7 +137,10 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 			messages[i].InternalId = storage.internalCounter
 			now := dtime.Now()
 			messages[i].LastUsage = &now
-			storage.docs[key] = messages[i]
+
+			// Stores a copy, since the message is still used by the caller after being stored
+			doc := *messages[i]
+			storage.docs[key] = &doc
 		}
 	}
 
@@ -248,7 +268,12 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 		}
 
 		if matches {
-			messages = append(messages, *storage.docs[k])
+			doc := *storage.docs[k]
+
+			// Diagnostics are updated in place, so they must not be shared with the caller
+			doc.Diagnostics = copyDiagnostics(doc.Diagnostics)
+
+			messages = append(messages, doc)
 		}
 	}
 
@@ -435,3 +460,24 @@ func setDiagnosticsStruct(value *message.Message) {
 		value.Diagnostics.Nacks = utils.Int64Ptr(0)
 	}
 }
+
+func copyDiagnostics(value *message.MessageDiagnostics) *message.MessageDiagnostics {
+	if value == nil {
+		return nil
+	}
+
+	return &message.MessageDiagnostics{
+		Acks:             copyInt64Ptr(value.Acks),
+		Nacks:            copyInt64Ptr(value.Nacks),
+		ConsecutiveAcks:  copyInt64Ptr(value.ConsecutiveAcks),
+		ConsecutiveNacks: copyInt64Ptr(value.ConsecutiveNacks),
+	}
+}
+
+func copyInt64Ptr(value *int64) *int64 {
+	if value == nil {
+		return nil
+	}
+
+	return utils.Int64Ptr(*value)
+}
-- 
2.43.0


From c4c995402ac30f1f9384d4f54d7f09606df588cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 10/33] fix: memory storage keys of different messages must not
 collide

---
 internal/queue/storage/memory_storage.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index b9b4fa4..505724f 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -155,8 +155,10 @@ func (storage *MemoryStorage) GetStringInternalId(_ context.Context, message *me
 	return strconv.FormatInt(message.InternalId.(int64), 10)
 }
 
+// getKey returns the document key of a message. The queue length is part of the key since
+// both queue and id may contain the separator.
 func getKey(message *message.Message) string {
-	return message.Queue + ":" + message.ID
+	return strconv.Itoa(len(message.Queue)) + ":" + message.Queue + ":" + message.ID
 }
 
 func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _ *CountOptions) (int64, error) {
-- 
2.43.0


From b30fbdd24d3b2d4deb4499a1aa4200bb8325f545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 11/33] fix: memory storage removal must count repeated ids
 once

---
 internal/queue/storage/memory_storage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 505724f..a8abcae 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -337,6 +337,8 @@ func (storage *MemoryStorage) Remove(_ context.Context, queue string, ids ...str
 				delete(storage.docs, key)
 
 				count++
+
+				break
 			}
 		}
 	}
-- 
2.43.0


From 445eb3b3a557540ff4d2c42b117d5111c8645bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 12/33] fix: memory storage must support sorting by last usage

---
 internal/queue/storage/memory_storage.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index a8abcae..ff4620d 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -299,6 +299,14 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 					}
 
 					return messages[i].Score < messages[j].Score
+				case "last_usage":
+					if messages[i].LastUsage != nil && messages[j].LastUsage != nil && !messages[i].LastUsage.Equal(*messages[j].LastUsage) {
+						if value == -1 {
+							return messages[i].LastUsage.After(*messages[j].LastUsage)
+						}
+
+						return messages[i].LastUsage.Before(*messages[j].LastUsage)
+					}
 				case "_id":
 					if value == -1 {
 						return messages[i].InternalId.(int64) > messages[j].InternalId.(int64)
-- 
2.43.0


From ed19e8f53a5c64c0a302da12483d3185c66f10d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 13/33] fix: memory storage must not hide expired messages
 before their removal

---
 internal/queue/storage/memory_storage.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index ff4620d..0888153 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -259,10 +259,6 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 	defer storage.lock.RUnlock()
 
 	for k := range storage.docs {
-		if (opt == nil || opt.InternalFilter == nil || opt.InternalFilter.ExpiryDate == nil) && isExpired(storage.docs[k]) {
-			continue
-		}
-
 		matches, err := messageMatchesFilter(storage.docs[k], opt)
 
 		if err != nil {
@@ -327,10 +323,6 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 	return messages, nil
 }
 
-func isExpired(message *message.Message) bool {
-	return !message.Timeless && (message.ExpiryDate.Before(dtime.Now()) || message.ExpiryDate.Equal(dtime.Now()))
-}
-
 func (storage *MemoryStorage) Remove(_ context.Context, queue string, ids ...string) (deleted int64, err error) {
 	count := int64(0)
 
-- 
2.43.0


From 4decfbfb709b64b88d8e14d69551ef110448727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 14/33] fix: memory storage must order messages with the same
 expiry by insertion

---
 internal/queue/storage/memory_storage.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 0888153..58054fc 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -7,7 +7,6 @@ import (
 	"sort"
 	"strconv"
 	"sync"
-	"time"
 
 	"github.com/takenet/deckard/internal/dtime"
 	"github.com/takenet/deckard/internal/queue/configuration"
@@ -282,7 +281,7 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 
 				switch key {
 				case "expiry_date":
-					if (messages[i].ExpiryDate != time.Time{} || messages[j].ExpiryDate != time.Time{}) {
+					if !messages[i].ExpiryDate.Equal(messages[j].ExpiryDate) {
 						if value == -1 {
 							return messages[i].ExpiryDate.After(messages[j].ExpiryDate)
 						}
-- 
2.43.0


From b739363d3d5c0256bb3a5b6cdb62363d1e74ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 15/33] fix: keep every requested ack, nack, add and pull score
 inside the valid range

---
 internal/queue/queue.go             |  4 +++-
 internal/queue/score/score.go       | 16 +++++++++-----
 internal/service/deckard_service.go | 33 +++++++++++++++++------------
 3 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 9e54731..46be8cf 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -205,7 +205,9 @@ func (pool *Queue) Nack(ctx context.Context, msg *message.Message, timestamp tim
 		return result, nil
 	}
 
-	msg.Score = score.Min
+	if score.IsUndefined(msg.Score) {
+		msg.Score = score.Min
+	}
 
 	result, err := pool.cache.MakeAvailable(ctx, msg)
 
diff --git a/internal/queue/score/score.go b/internal/queue/score/score.go
index 18f1242..2294773 100644
--- a/internal/queue/score/score.go
+++ b/internal/queue/score/score.go
@@ -1,6 +1,7 @@
 package score
 
 import (
+	"math"
 	"time"
 
 	"github.com/takenet/deckard/internal/dtime"
@@ -18,7 +19,7 @@ var Undefined float64 = -1
 // If the score is less than Min, it returns Min.
 // Otherwise, it returns the score.
 func GetPullMaxScore(score float64) *float64 {
-	if score == 0 {
+	if score == 0 || math.IsNaN(score) {
 		return nil
 	}
 
@@ -39,7 +40,7 @@ func GetPullMaxScore(score float64) *float64 {
 // If the score is greater than Max, it returns Max.
 // Otherwise, it returns the score.
 func GetPullMinScore(score float64) *float64 {
-	if score == 0 {
+	if score == 0 || math.IsNaN(score) {
 		return nil
 	}
 
@@ -68,15 +69,20 @@ func GetAddScore(addRequestScore float64) float64 {
 		return GetScoreByDefaultAlgorithm()
 	}
 
-	if addRequestScore < Min {
+	return Cap(addRequestScore)
+}
+
+// Cap limits a score to the valid range, from Min to Max. A score that is not a number results in Min.
+func Cap(score float64) float64 {
+	if math.IsNaN(score) || score < Min {
 		return Min
 	}
 
-	if addRequestScore > Max {
+	if score > Max {
 		return Max
 	}
 
-	return addRequestScore
+	return score
 }
 
 // GetScoreByDefaultAlgorithm returns the score using the default algorithm.
diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 2b150dd..2d90a4d 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -561,20 +561,16 @@ func (d *Deckard) Ack(ctx context.Context, request *deckard.AckRequest) (*deckar
 		attribute.Float64(trace.Score, request.Score),
 	)
 
+	lockMs := getLockMs(request)
+
 	// Should set the new score only when not locking the message or if score is provided
 	// On unlock process the score is computed by the default algorithm if the score is not set
 	newScore := score.Undefined
 	if request.Score != 0 {
-		newScore = request.Score
-
-	} else if request.LockMs == 0 {
-		newScore = score.GetScoreByDefaultAlgorithm() - request.ScoreSubtract
+		newScore = score.Cap(request.Score)
 
-		if newScore < score.Min {
-			newScore = score.Min
-		} else if newScore > score.Max {
-			newScore = score.Max
-		}
+	} else if lockMs == 0 {
+		newScore = score.Cap(score.GetScoreByDefaultAlgorithm() - request.ScoreSubtract)
 	}
 
 	now := dtime.Now()
@@ -585,7 +581,7 @@ func (d *Deckard) Ack(ctx context.Context, request *deckard.AckRequest) (*deckar
 		LastUsage:         &now,
 		Score:             newScore,
 		Breakpoint:        request.Breakpoint,
-		LockMs:            request.LockMs,
+		LockMs:            lockMs,
 	}
 
 	result, err := d.queue.Ack(ctx, &message, request.Reason)
@@ -610,13 +606,15 @@ func (d *Deckard) Nack(ctx context.Context, request *deckard.AckRequest) (*decka
 		attribute.StringSlice(trace.Queue, []string{request.Queue}),
 	)
 
+	lockMs := getLockMs(request)
+
 	// Should set the new score only when not locking the message or if score is provided
 	// On unlock process the minimum score will be used if the score is not set
 	newScore := score.Undefined
 	if request.Score != 0 {
-		newScore = request.Score
+		newScore = score.Cap(request.Score)
 
-	} else if request.LockMs == 0 {
+	} else if lockMs == 0 {
 		newScore = score.Min
 	}
 
@@ -625,7 +623,7 @@ func (d *Deckard) Nack(ctx context.Context, request *deckard.AckRequest) (*decka
 		Queue:             request.Queue,
 		LastScoreSubtract: request.ScoreSubtract,
 		Breakpoint:        request.Breakpoint,
-		LockMs:            request.LockMs,
+		LockMs:            lockMs,
 		Score:             newScore,
 	}
 
@@ -644,6 +642,15 @@ func (d *Deckard) Nack(ctx context.Context, request *deckard.AckRequest) (*decka
 	return response, nil
 }
 
+// getLockMs returns the requested lock time. Negative values mean the message should not be locked.
+func getLockMs(request *deckard.AckRequest) int64 {
+	if request.LockMs < 0 {
+		return 0
+	}
+
+	return request.LockMs
+}
+
 func (d *Deckard) removeMessageFromAckNack(ctx context.Context, request *deckard.AckRequest) (*deckard.AckResponse, error) {
 	removeResp, err := d.Remove(ctx, &deckard.RemoveRequest{
 		Ids:   []string{request.Id},
-- 
2.43.0


From 55f8afb8546d82786a77ab81bc4cf975e9185e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 16/33] fix: a lock without score must not overwrite the stored
 score

---
 internal/queue/storage/memory_storage.go | 14 +++++++--
 internal/queue/storage/mongo_storage.go  | 39 ++++++++++++++++--------
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 58054fc..11f0123 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -11,6 +11,7 @@ import (
 	"github.com/takenet/deckard/internal/dtime"
 	"github.com/takenet/deckard/internal/queue/configuration"
 	"github.com/takenet/deckard/internal/queue/message"
+	"github.com/takenet/deckard/internal/queue/score"
 	"github.com/takenet/deckard/internal/queue/utils"
 )
 
@@ -360,7 +361,12 @@ func (storage *MemoryStorage) Ack(_ context.Context, msg *message.Message) (modi
 	value.UsageCount += 1
 	value.LastUsage = msg.LastUsage
 	value.LastScoreSubtract = msg.LastScoreSubtract
-	value.Score = msg.Score
+
+	// An undefined score is computed by the cache when the message is unlocked
+	if !score.IsUndefined(msg.Score) {
+		value.Score = msg.Score
+	}
+
 	value.LockMs = msg.LockMs
 	value.Breakpoint = msg.Breakpoint
 
@@ -383,7 +389,11 @@ func (storage *MemoryStorage) Nack(_ context.Context, msg *message.Message) (mod
 		return 0, nil
 	}
 
-	value.Score = msg.Score
+	// An undefined score is computed by the cache when the message is unlocked
+	if !score.IsUndefined(msg.Score) {
+		value.Score = msg.Score
+	}
+
 	value.LockMs = msg.LockMs
 
 	setDiagnosticsStruct(value)
diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index 6c06a87..c69fb12 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -16,6 +16,7 @@ import (
 	"github.com/takenet/deckard/internal/project"
 	"github.com/takenet/deckard/internal/queue/configuration"
 	"github.com/takenet/deckard/internal/queue/message"
+	"github.com/takenet/deckard/internal/queue/score"
 	"go.mongodb.org/mongo-driver/v2/bson"
 	"go.mongodb.org/mongo-driver/v2/mongo"
 	"go.mongodb.org/mongo-driver/v2/mongo/options"
@@ -531,15 +532,21 @@ func (storage *MongoStorage) Ack(ctx context.Context, message *message.Message)
 		"queue": message.Queue,
 	}
 
+	setFields := bson.M{
+		"last_usage":                    message.LastUsage,
+		"last_score_subtract":           message.LastScoreSubtract,
+		"breakpoint":                    message.Breakpoint,
+		"lock_ms":                       message.LockMs,
+		"diagnostics.consecutive_nacks": 0,
+	}
+
+	// An undefined score is computed by the cache when the message is unlocked
+	if !score.IsUndefined(message.Score) {
+		setFields["score"] = message.Score
+	}
+
 	update := bson.M{
-		"$set": bson.M{
-			"last_usage":                    message.LastUsage,
-			"last_score_subtract":           message.LastScoreSubtract,
-			"breakpoint":                    message.Breakpoint,
-			"score":                         message.Score,
-			"lock_ms":                       message.LockMs,
-			"diagnostics.consecutive_nacks": 0,
-		},
+		"$set": setFields,
 		"$inc": bson.M{
 			"usage_count":                  1,
 			"total_score_subtract":         message.LastScoreSubtract,
@@ -571,12 +578,18 @@ func (storage *MongoStorage) Nack(ctx context.Context, message *message.Message)
 		"queue": message.Queue,
 	}
 
+	setFields := bson.M{
+		"lock_ms":                      message.LockMs,
+		"diagnostics.consecutive_acks": 0,
+	}
+
+	// An undefined score is computed by the cache when the message is unlocked
+	if !score.IsUndefined(message.Score) {
+		setFields["score"] = message.Score
+	}
+
 	update := bson.M{
-		"$set": bson.M{
-			"score":                        message.Score,
-			"lock_ms":                      message.LockMs,
-			"diagnostics.consecutive_acks": 0,
-		},
+		"$set": setFields,
 		"$inc": bson.M{
 			"diagnostics.nacks":             1,
 			"diagnostics.consecutive_nacks": 1,
-- 
2.43.0


From 47088a688eaf24afeb03b9d373e294859216fb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 17/33] fix: mongo storage must count every matched message as
 updated and accept empty inserts

---
 internal/queue/storage/mongo_storage.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index c69fb12..274e400 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -451,6 +451,10 @@ func attemptChunkDeletion(ctx context.Context, i int, ids []string, queue string
 }
 
 func (storage *MongoStorage) Insert(ctx context.Context, messages ...*message.Message) (insertedCount int64, modifiedCount int64, err error) {
+	if len(messages) == 0 {
+		return 0, 0, nil
+	}
+
 	updates := make([]mongo.WriteModel, 0, len(messages))
 
 	now := dtime.Now()
@@ -517,7 +521,8 @@ func (storage *MongoStorage) Insert(ctx context.Context, messages ...*message.Me
 		return 0, 0, fmt.Errorf("error writing to mongodb storage: %w", err)
 	}
 
-	return res.InsertedCount + res.UpsertedCount, res.ModifiedCount, nil
+	// Every existing message is an update, even if none of its fields changed
+	return res.InsertedCount + res.UpsertedCount, res.MatchedCount, nil
 }
 
 // Ack updates the messages on mongostorage with updated status, score and diagnostic information.
-- 
2.43.0


From a88abffe842ff5272369b21582fb25eb1415621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 18/33] fix: mongo storage must clear the contents omitted when
 a message is added again

---
 internal/queue/storage/mongo_storage.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index 274e400..3d5d47f 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -475,22 +475,33 @@ func (storage *MongoStorage) Insert(ctx context.Context, messages ...*message.Me
 
 		setFields := bson.M{}
 
+		// Contents not present anymore must be cleared from the existing message
+		unsetFields := bson.M{}
+
 		setFields["expiry_date"] = q.ExpiryDate
 
 		if q.Description != "" {
 			setFields["description"] = q.Description
+		} else {
+			unsetFields["description"] = ""
 		}
 
 		if q.Metadata != nil {
 			setFields["metadata"] = q.Metadata
+		} else {
+			unsetFields["metadata"] = ""
 		}
 
 		if q.Payload != nil {
 			setFields["payload"] = q.Payload
+		} else {
+			unsetFields["payload"] = ""
 		}
 
 		if q.StringPayload != "" {
 			setFields["string_payload"] = q.StringPayload
+		} else {
+			unsetFields["string_payload"] = ""
 		}
 
 		setFields["queue_prefix"] = q.QueuePrefix
@@ -499,16 +510,22 @@ func (storage *MongoStorage) Insert(ctx context.Context, messages ...*message.Me
 			setFields["queue_suffix"] = q.QueueSuffix
 		}
 
+		update := bson.M{
+			"$set":         setFields,
+			"$setOnInsert": setOnInsert,
+		}
+
+		if len(unsetFields) > 0 {
+			update["$unset"] = unsetFields
+		}
+
 		updates = append(updates, &mongo.UpdateOneModel{
 			Upsert: &upsert,
 			Filter: bson.M{
 				"id":    q.ID,
 				"queue": q.Queue,
 			},
-			Update: bson.M{
-				"$set":         setFields,
-				"$setOnInsert": setOnInsert,
-			},
+			Update: update,
 		})
 	}
 
-- 
2.43.0


From 4e1bfb86914c2691cbde615d2c0d4303457fa889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 19/33] fix: a huge message TTL must not overflow

---
 internal/service/deckard_service.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 2d90a4d..f0f72bd 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -6,6 +6,7 @@ import (
 	"crypto/x509"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net"
 	"strings"
 	"time"
@@ -322,7 +323,7 @@ func (d *Deckard) Add(ctx context.Context, request *deckard.AddRequest) (*deckar
 		t := dtime.Now()
 
 		if m.TtlMinutes != 0 {
-			t = t.Add(time.Minute * time.Duration(m.TtlMinutes))
+			t = t.Add(getTtl(m.TtlMinutes))
 		}
 
 		if m.Timeless {
@@ -383,6 +384,19 @@ func (d *Deckard) Add(ctx context.Context, request *deckard.AddRequest) (*deckar
 	}, nil
 }
 
+// getTtl converts the TTL to a duration, limiting it to the longest representable one instead of overflowing
+func getTtl(ttlMinutes int64) time.Duration {
+	limit := int64(math.MaxInt64 / time.Minute)
+
+	if ttlMinutes > limit {
+		ttlMinutes = limit
+	} else if ttlMinutes < -limit {
+		ttlMinutes = -limit
+	}
+
+	return time.Minute * time.Duration(ttlMinutes)
+}
+
 func (d *Deckard) Pull(ctx context.Context, request *deckard.PullRequest) (*deckard.PullResponse, error) {
 	amount := int64(request.Amount)
 
-- 
2.43.0


From 3a0e577f8c5e3291cd8be65153ff11e62edc0f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 20/33] fix: missing storage metric must count only messages
 missing after the retry

---
 internal/queue/queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 46be8cf..0e6e88c 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -350,7 +350,7 @@ func (pool *Queue) Pull(ctx context.Context, queue string, n int64, minScore *fl
 	}
 
 	if len(retryNotFound) > 0 {
-		metrics.QueueNotFoundInStorage.Add(ctx, int64(len(notFound)), metric.WithAttributes(attribute.String("queue", message.GetQueuePrefix(queue))))
+		metrics.QueueNotFoundInStorage.Add(ctx, int64(len(retryNotFound)), metric.WithAttributes(attribute.String("queue", message.GetQueuePrefix(queue))))
 
 		for _, id := range retryNotFound {
 			pool.auditor.Store(ctx, audit.Entry{
-- 
2.43.0


From 778ab710949ce0f2591a74ded70f902c5c358ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 21/33] fix: queue names refused by the cache must not reach
 the storage

---
 internal/queue/cache/cache.go       |  6 ++++++
 internal/queue/cache/redis_cache.go |  6 ++++++
 internal/queue/queue.go             | 28 ++++++++++++++++++++++++++++
 3 files changed, 40 insertions(+)

diff --git a/internal/queue/cache/cache.go b/internal/queue/cache/cache.go
index 0780d12..bac8a89 100644
--- a/internal/queue/cache/cache.go
+++ b/internal/queue/cache/cache.go
@@ -62,6 +62,12 @@ type Cache interface {
 	Close(ctx context.Context) error
 }
 
+// QueueNameValidator is implemented by caches which do not accept every queue name.
+// It allows refusing an invalid queue name before anything else is changed.
+type QueueNameValidator interface {
+	ValidateQueueName(queue string) error
+}
+
 func CreateCache(ctx context.Context, cacheType Type) (Cache, error) {
 	switch cacheType {
 	case REDIS:
diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index f1efc60..3d0005f 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -43,6 +43,7 @@ type RedisCache struct {
 }
 
 var _ Cache = &RedisCache{}
+var _ QueueNameValidator = &RedisCache{}
 
 const (
 	pullElement          = "pull"
@@ -896,6 +897,11 @@ func (cache *RedisCache) generalCacheKey(key string) string {
 	return fmt.Sprint(cache.fullPrefix(), ":{", key, "}")
 }
 
+// ValidateQueueName returns an error if the queue name can not be used with Redis
+func (cache *RedisCache) ValidateQueueName(queue string) error {
+	return cache.validateQueueName(queue)
+}
+
 func (cache *RedisCache) validateQueueName(queue string) error {
 	// Braces are reserved even in standalone mode so existing queues remain
 	// migratable to Redis Cluster without ambiguous hash-tag parsing.
diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 0e6e88c..9105a48 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -104,6 +104,12 @@ func (pool *Queue) AddMessagesToStorage(ctx context.Context, messages ...*messag
 		}
 
 		queues[queueName] = true
+
+		if err := pool.validateQueueName(queueName); err != nil {
+			logger.S(ctx).Error("Error inserting storage data: ", err)
+
+			return 0, 0, err
+		}
 	}
 
 	insertions, updates, err := pool.storage.Insert(ctx, messages...)
@@ -115,6 +121,16 @@ func (pool *Queue) AddMessagesToStorage(ctx context.Context, messages ...*messag
 	return insertions, updates, err
 }
 
+// validateQueueName refuses queue names not accepted by the cache before the storage is changed.
+func (pool *Queue) validateQueueName(queue string) error {
+	validator, ok := pool.cache.(cache.QueueNameValidator)
+	if !ok {
+		return nil
+	}
+
+	return validator.ValidateQueueName(queue)
+}
+
 func (pool *Queue) AddMessagesToCache(ctx context.Context, messages ...*message.Message) (int64, error) {
 	return pool.AddMessagesToCacheWithAuditReason(ctx, "", messages...)
 }
@@ -171,6 +187,10 @@ func (pool *Queue) Nack(ctx context.Context, msg *message.Message, timestamp tim
 		return false, fmt.Errorf("message has a invalid ID")
 	}
 
+	if err := pool.validateQueueName(msg.Queue); err != nil {
+		return false, err
+	}
+
 	_, err := pool.storage.Nack(ctx, msg)
 
 	if err != nil {
@@ -242,6 +262,10 @@ func (pool *Queue) Ack(ctx context.Context, msg *message.Message, reason string)
 		return false, fmt.Errorf("message has a invalid ID")
 	}
 
+	if err := pool.validateQueueName(msg.Queue); err != nil {
+		return false, err
+	}
+
 	_, err := pool.storage.Ack(ctx, msg)
 
 	if err != nil {
@@ -406,6 +430,10 @@ func (pool *Queue) getFromStorage(ctx context.Context, ids []string, queue strin
 }
 
 func (pool *Queue) Remove(ctx context.Context, queue string, reason string, ids ...string) (cacheRemoved int64, storageRemoved int64, err error) {
+	if err := pool.validateQueueName(queue); err != nil {
+		return 0, 0, err
+	}
+
 	storageCount, err := pool.storage.Remove(ctx, queue, ids...)
 
 	if err != nil {
-- 
2.43.0


From 107e15aa7ca4a5cf343290f6edb98ffe17d82af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 22/33] fix: recovery must not stay running forever nor
 unbounded after a failed step

---
 internal/queue/queue_housekeeper.go | 50 ++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/internal/queue/queue_housekeeper.go b/internal/queue/queue_housekeeper.go
index ca83a1c..e075fa9 100644
--- a/internal/queue/queue_housekeeper.go
+++ b/internal/queue/queue_housekeeper.go
@@ -173,6 +173,15 @@ func RecoveryMessagesPool(ctx context.Context, pool *Queue) (metrify bool) {
 		return true
 	}
 
+	if breakpoint == "" && recoveryBreakpoint == "" {
+		// The recovery was interrupted while starting, so it must be started again by the next execution
+		logger.S(ctx).Warn("Full cache recovery was interrupted while starting.")
+
+		_ = tryToStartRecovery(ctx, pool)
+
+		return true
+	}
+
 	sort := orderedmap.NewOrderedMap[string, int]()
 	sort.Set("_id", 1)
 
@@ -219,14 +228,16 @@ func RecoveryMessagesPool(ctx context.Context, pool *Queue) (metrify bool) {
 			return true
 		}
 
-		_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, pool.storage.GetStringInternalId(ctx, &messages[len(messages)-1]))
+		err = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, pool.storage.GetStringInternalId(ctx, &messages[len(messages)-1]))
+
+		if err != nil {
+			logger.S(ctx).Error("Error to set storage breakpoint: ", err)
+			return true
+		}
 	}
 
-	if len(messages) < 4000 {
+	if len(messages) < 4000 && finishRecovery(ctx, pool) {
 		logger.S(ctx).Info("Full recovery finished.")
-
-		_ = pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
-		_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
 	}
 
 	logger.S(ctx).Debugf("%d messages updated in %s with %s breakpoint.", len(messages), time.Since(t), breakpoint)
@@ -234,6 +245,25 @@ func RecoveryMessagesPool(ctx context.Context, pool *Queue) (metrify bool) {
 	return true
 }
 
+// finishRecovery marks the recovery as finished.
+// The recovery is only marked as finished after it is not running anymore, otherwise a failure between
+// both updates would leave it as running forever, since a finished recovery is never executed again.
+func finishRecovery(ctx context.Context, pool *Queue) bool {
+	if err := pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false"); err != nil {
+		logger.S(ctx).Error("Error to set full recovery status: ", err)
+
+		return false
+	}
+
+	if err := pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED); err != nil {
+		logger.S(ctx).Error("Error to set full recovery as finished: ", err)
+
+		return false
+	}
+
+	return true
+}
+
 func tryToStartRecovery(ctx context.Context, pool *Queue) bool {
 	logger.S(ctx).Info("Starting full cache recovery.")
 
@@ -265,8 +295,7 @@ func tryToStartRecovery(ctx context.Context, pool *Queue) bool {
 	if len(messages) == 0 {
 		logger.S(ctx).Info("Storage is empty. Finishing recovery.")
 
-		_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
-		_ = pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
+		finishRecovery(ctx, pool)
 
 		return false
 	}
@@ -275,7 +304,12 @@ func tryToStartRecovery(ctx context.Context, pool *Queue) bool {
 
 	logger.S(ctx).Info("Storage last element key breakpoint: ", recoveryBreakpointKey)
 
-	_ = pool.cache.Set(ctx, cache.RECOVERY_BREAKPOINT_KEY, recoveryBreakpointKey)
+	err = pool.cache.Set(ctx, cache.RECOVERY_BREAKPOINT_KEY, recoveryBreakpointKey)
+
+	if err != nil {
+		logger.S(ctx).Error("Error to set recovery breakpoint: ", err)
+		return false
+	}
 
 	return true
 }
-- 
2.43.0


From ad117b656202e13a499659f9b0f51cb4bf626c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 23/33] fix: a queue configuration read must not overwrite a
 concurrent edit in the local cache

---
 internal/queue/queue_configuration_service.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/queue/queue_configuration_service.go b/internal/queue/queue_configuration_service.go
index fe02e30..d524588 100644
--- a/internal/queue/queue_configuration_service.go
+++ b/internal/queue/queue_configuration_service.go
@@ -2,6 +2,7 @@ package queue
 
 import (
 	"context"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -17,6 +18,9 @@ type QueueConfigurationService interface {
 type DefaultQueueConfigurationService struct {
 	storage    storage.Storage
 	localCache *cache.Cache
+
+	// Prevents a concurrent edition from being overwritten on the local cache by a previously read configuration
+	lock sync.Mutex
 }
 
 func NewQueueConfigurationService(_ context.Context, storage storage.Storage) *DefaultQueueConfigurationService {
@@ -39,6 +43,9 @@ func (queueService *DefaultQueueConfigurationService) EditQueueConfiguration(ctx
 		return nil
 	}
 
+	queueService.lock.Lock()
+	defer queueService.lock.Unlock()
+
 	config, found := queueService.localCache.Get(cfg.Queue)
 
 	if !found {
@@ -64,6 +71,9 @@ func (queueService *DefaultQueueConfigurationService) GetQueueConfiguration(ctx
 		return cacheConfig.(*configuration.QueueConfiguration), nil
 	}
 
+	queueService.lock.Lock()
+	defer queueService.lock.Unlock()
+
 	var err error
 	var config *configuration.QueueConfiguration
 
-- 
2.43.0


From 235b19ca4ba6beba77e2d5c3f3351641f7d8e145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 24/33] fix: flush must discard locally cached queue
 configurations

---
 internal/queue/queue.go                       | 4 ++++
 internal/queue/queue_configuration_service.go | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 9105a48..bc346e2 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -472,6 +472,10 @@ func (pool *Queue) Flush(ctx context.Context) (bool, error) {
 		return false, err
 	}
 
+	if service, ok := pool.QueueConfigurationService.(interface{ Flush() }); ok {
+		service.Flush()
+	}
+
 	return true, err
 }
 
diff --git a/internal/queue/queue_configuration_service.go b/internal/queue/queue_configuration_service.go
index d524588..2eab0f8 100644
--- a/internal/queue/queue_configuration_service.go
+++ b/internal/queue/queue_configuration_service.go
@@ -93,3 +93,11 @@ func (queueService *DefaultQueueConfigurationService) GetQueueConfiguration(ctx
 
 	return config, nil
 }
+
+// Flush discards every locally cached configuration.
+func (queueService *DefaultQueueConfigurationService) Flush() {
+	queueService.lock.Lock()
+	defer queueService.lock.Unlock()
+
+	queueService.localCache.Flush()
+}
-- 
2.43.0


From a422817db59061b0b1565e8039a7c207a97f3f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 25/33] fix: audit must send every recorded event at shutdown
 and never panic after it

---
 internal/audit/audit.go | 57 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/internal/audit/audit.go b/internal/audit/audit.go
index 1263d61..9cbe46f 100644
--- a/internal/audit/audit.go
+++ b/internal/audit/audit.go
@@ -54,6 +54,14 @@ type AuditorImpl struct {
 	waitGroup     *sync.WaitGroup
 	enabled       bool
 	senderStarted bool
+
+	// storeLock guards stopped. It is held while an entry is being written to the entries channel,
+	// so the channel is never closed during a write.
+	storeLock sync.RWMutex
+	stopped   bool
+
+	// shutdownLock is held by the sender while it sends the remaining entries
+	shutdownLock sync.Mutex
 }
 
 // NewAuditor returns a new auditor with a elastic search.
@@ -132,13 +140,39 @@ func (a *AuditorImpl) StartSender(ctx context.Context) {
 		case <-ctx.Done():
 			zap.S().Info("Sending remaining audit data.")
 
-			close(a.entries)
+			a.sendRemaining(ctx, entriesToSend)
+
+			return
+		}
+	}
+}
+
+// sendRemaining stops buffering new entries and sends every buffered one.
+// Entries stored after it are sent directly.
+func (a *AuditorImpl) sendRemaining(ctx context.Context, entriesToSend []Entry) {
+	a.shutdownLock.Lock()
+	defer a.shutdownLock.Unlock()
+
+	go func() {
+		a.storeLock.Lock()
+		defer a.storeLock.Unlock()
+
+		a.stopped = true
+
+		close(a.entries)
+	}()
 
+	for entry := range a.entries {
+		entriesToSend = append(entriesToSend, entry)
+
+		if len(entriesToSend) == maxEntriesSize {
 			a.send(ctx, entriesToSend...)
 
-			return
+			entriesToSend = make([]Entry, 0, maxEntriesSize)
 		}
 	}
+
+	a.send(ctx, entriesToSend...)
 }
 
 func (a *AuditorImpl) send(ctx context.Context, entries ...Entry) {
@@ -206,5 +240,24 @@ func (a *AuditorImpl) Store(ctx context.Context, entry Entry) {
 		metrics.AuditorAddToStoreLatency.Record(ctx, dtime.ElapsedTime(entry.Timestamp))
 	}()
 
+	if !a.buffer(entry) {
+		a.shutdownLock.Lock()
+		defer a.shutdownLock.Unlock()
+
+		a.send(ctx, entry)
+	}
+}
+
+// buffer writes the entry to be sent by the sender. It returns false if the sender has already stopped.
+func (a *AuditorImpl) buffer(entry Entry) bool {
+	a.storeLock.RLock()
+	defer a.storeLock.RUnlock()
+
+	if a.stopped {
+		return false
+	}
+
 	a.entries <- entry
+
+	return true
 }
-- 
2.43.0


From cc976b9a9bfc768892075d544bc7bd36498e1c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 26/33] fix: audit must not discard entries with a non finite
 score subtract

---
 internal/audit/audit.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/audit/audit.go b/internal/audit/audit.go
index 9cbe46f..f1c148b 100644
--- a/internal/audit/audit.go
+++ b/internal/audit/audit.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"strings"
 	"sync"
 	"time"
@@ -228,6 +229,11 @@ func (a *AuditorImpl) Store(ctx context.Context, entry Entry) {
 
 	entry.Timestamp = dtime.Now()
 
+	if math.IsNaN(entry.LastScoreSubtract) || math.IsInf(entry.LastScoreSubtract, 0) {
+		// Not representable in JSON, the whole entry would be discarded
+		entry.LastScoreSubtract = 0
+	}
+
 	queuePrefix, queueSuffix := message.GetQueueParts(entry.Queue)
 
 	entry.QueuePrefix = queuePrefix
-- 
2.43.0


From a4b7915edb530cad7796a3224cff472d9961fcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 27/33] fix: trace shutdown must flush the initialized tracer
 provider

---
 internal/trace/trace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/trace/trace.go b/internal/trace/trace.go
index 67487d1..ea67678 100644
--- a/internal/trace/trace.go
+++ b/internal/trace/trace.go
@@ -32,7 +32,7 @@ func Init() error {
 		return err
 	}
 
-	tracerProvider := sdktrace.NewTracerProvider(
+	tracerProvider = sdktrace.NewTracerProvider(
 		sdktrace.WithBatcher(exporter),
 		sdktrace.WithResource(newResource()),
 	)
-- 
2.43.0


From f301d70d0f3952a910349e96f51742d1bcc88d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 28/33] fix: background tasks must not start after the shutdown
 has started

---
 internal/cmd/deckard/main.go  |  7 ++++++-
 internal/shutdown/shutdown.go | 21 +++++++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/cmd/deckard/main.go b/internal/cmd/deckard/main.go
index dde6b5c..104e197 100644
--- a/internal/cmd/deckard/main.go
+++ b/internal/cmd/deckard/main.go
@@ -203,7 +203,12 @@ func scheduleTask(taskName string, lock *sync.Mutex, taskWaitGroup *sync.WaitGro
 	for {
 		select {
 		case <-time.After(duration):
-			taskWaitGroup.Add(1)
+			if !shutdown.AddTask(taskWaitGroup) {
+				logger.S(ctx).Debug("Stopping ", taskName, " scheduler.")
+
+				return
+			}
+
 			if lock != nil {
 				lock.Lock()
 			}
diff --git a/internal/shutdown/shutdown.go b/internal/shutdown/shutdown.go
index e968499..145c95c 100644
--- a/internal/shutdown/shutdown.go
+++ b/internal/shutdown/shutdown.go
@@ -27,6 +27,9 @@ var CriticalWaitGroup *sync.WaitGroup
 // Shutdown will wait for this wait group to be done after canceling the context.
 var WaitGroup *sync.WaitGroup
 
+// Prevents a task from being added to a wait group after the shutdown has started
+var taskLock sync.Mutex
+
 func init() {
 	CancelChan = make(chan os.Signal, 1)
 	CriticalWaitGroup = &sync.WaitGroup{}
@@ -91,9 +94,27 @@ func Reset() {
 }
 
 func Start() {
+	taskLock.Lock()
+	defer taskLock.Unlock()
+
 	close(Started)
 }
 
+// AddTask adds a task to the wait group, unless the shutdown has already started.
+// It returns false if the task must not be executed.
+func AddTask(waitGroup *sync.WaitGroup) bool {
+	taskLock.Lock()
+	defer taskLock.Unlock()
+
+	if Ongoing() {
+		return false
+	}
+
+	waitGroup.Add(1)
+
+	return true
+}
+
 func Finish() {
 	close(Finished)
 }
-- 
2.43.0


From c2bfa637ace62e43693873603e4d95d400b191ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 29/33] fix: metrics of queues with an empty prefix must count
 only their own messages

---
 internal/queue/queue_housekeeper.go      | 17 ++++++++++-------
 internal/queue/storage/memory_storage.go |  2 +-
 internal/queue/storage/mongo_storage.go  |  2 +-
 internal/queue/storage/storage.go        |  1 +
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/internal/queue/queue_housekeeper.go b/internal/queue/queue_housekeeper.go
index e075fa9..bb60d6b 100644
--- a/internal/queue/queue_housekeeper.go
+++ b/internal/queue/queue_housekeeper.go
@@ -470,6 +470,11 @@ func (pool *Queue) removeExceedingMessagesFromQueue(ctx context.Context, queueCo
 	return nil
 }
 
+// prefixFilter matches the messages of every queue with the given prefix, which may be empty.
+func prefixFilter(prefix string) *storage.InternalFilter {
+	return &storage.InternalFilter{QueuePrefix: prefix, EmptyQueuePrefix: prefix == ""}
+}
+
 func ComputeMetrics(ctx context.Context, pool *Queue) {
 	queues, err := pool.storage.ListQueuePrefixes(ctx)
 
@@ -492,12 +497,10 @@ func ComputeMetrics(ctx context.Context, pool *Queue) {
 		}
 
 		message, err := pool.storage.Find(ctx, &storage.FindOptions{
-			Projection: &map[string]int{"last_usage": 1, "_id": 0},
-			Sort:       sort,
-			Limit:      1,
-			InternalFilter: &storage.InternalFilter{
-				QueuePrefix: queue,
-			},
+			Projection:     &map[string]int{"last_usage": 1, "_id": 0},
+			Sort:           sort,
+			Limit:          1,
+			InternalFilter: prefixFilter(queue),
 		})
 
 		if err != nil {
@@ -511,7 +514,7 @@ func ComputeMetrics(ctx context.Context, pool *Queue) {
 		}
 
 		total, err := pool.Count(ctx, &storage.FindOptions{
-			InternalFilter: &storage.InternalFilter{QueuePrefix: queue},
+			InternalFilter: prefixFilter(queue),
 		})
 
 		if err != nil {
diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 11f0123..12deaae 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -201,7 +201,7 @@ func matchesInternalFilter(message *message.Message, filter *InternalFilter) (bo
 		return false, nil
 	}
 
-	if filter.QueuePrefix != "" && message.QueuePrefix != filter.QueuePrefix {
+	if (filter.QueuePrefix != "" || filter.EmptyQueuePrefix) && message.QueuePrefix != filter.QueuePrefix {
 		return false, nil
 	}
 
diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index 3d5d47f..cdbfd98 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -680,7 +680,7 @@ func getMongoMessage(opt *FindOptions) (bson.M, error) {
 		mongoFilter["queue"] = opt.InternalFilter.Queue
 	}
 
-	if opt.InternalFilter.QueuePrefix != "" {
+	if opt.InternalFilter.QueuePrefix != "" || opt.InternalFilter.EmptyQueuePrefix {
 		mongoFilter["queue_prefix"] = opt.InternalFilter.QueuePrefix
 	}
 
diff --git a/internal/queue/storage/storage.go b/internal/queue/storage/storage.go
index b4a111b..a9cd4eb 100644
--- a/internal/queue/storage/storage.go
+++ b/internal/queue/storage/storage.go
@@ -53,6 +53,7 @@ type InternalFilter struct {
 	Ids                     *[]string
 	Queue                   string
 	QueuePrefix             string
+	EmptyQueuePrefix        bool // only messages of queues without prefix, QueuePrefix must be empty
 
 	// Used to manage TTL cleaner. It will always search for elements with expire date bigger than the value provided in this attribute.
 	ExpiryDate *time.Time
-- 
2.43.0


From 6ac2c6eb65cf7c29b5ce3e719b0f3ecfe75c8c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 30/33] fix: handle termination signals received while the
 server is still starting its tasks

---
 internal/cmd/deckard/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/cmd/deckard/main.go b/internal/cmd/deckard/main.go
index 104e197..bf92b68 100644
--- a/internal/cmd/deckard/main.go
+++ b/internal/cmd/deckard/main.go
@@ -92,6 +92,9 @@ func main() {
 
 	queue := queue.NewQueue(auditor, dataStorage, configurationService, dataCache)
 
+	// Handle sigterm before any request or task can be in progress
+	signal.Notify(shutdown.CancelChan, os.Interrupt, syscall.SIGTERM, syscall.SIGQUIT, syscall.SIGINT)
+
 	if config.GrpcEnabled.GetBool() {
 		server = startGrpcServer(queue, configurationService)
 	}
@@ -100,9 +103,6 @@ func main() {
 		startHouseKeeperJobs(queue)
 	}
 
-	// Handle sigterm and await termChan signal
-	signal.Notify(shutdown.CancelChan, os.Interrupt, syscall.SIGTERM, syscall.SIGQUIT, syscall.SIGINT)
-
 	// Blocks here until interrupted
 	<-shutdown.CancelChan
 
-- 
2.43.0


From 838fa3f23ce84752495d6f6a16449766e8b65d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:47 +0000
Subject: [PATCH 31/33] fix: a finished recovery set as running again keeps TTL
 and max elements stopped

---
 internal/queue/queue_housekeeper.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/queue/queue_housekeeper.go b/internal/queue/queue_housekeeper.go
index bb60d6b..3cc46b3 100644
--- a/internal/queue/queue_housekeeper.go
+++ b/internal/queue/queue_housekeeper.go
@@ -151,15 +151,22 @@ func RecoveryMessagesPool(ctx context.Context, pool *Queue) (metrify bool) {
 		return true
 	}
 
-	if breakpoint == cache.RECOVERY_FINISHED {
-		return false
-	}
-
 	isRecovering, err := isRecovering(ctx, pool)
 	if err != nil {
 		return true
 	}
 
+	if breakpoint == cache.RECOVERY_FINISHED {
+		// Another execution may have set the recovery as running after it was finished
+		if isRecovering {
+			if err := pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false"); err != nil {
+				logger.S(ctx).Error("Error to set full recovery status: ", err)
+			}
+		}
+
+		return false
+	}
+
 	if breakpoint == "" && !isRecovering {
 		if !tryToStartRecovery(ctx, pool) {
 			return true
-- 
2.43.0


From fc50df0cda6ad35b2589b8279f8b2b018c5e6757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:47 +0000
Subject: [PATCH 32/33] fix: honour the configured histogram buckets

The instruments are created by the package initialisation, before the
application configures itself, so DECKARD_METRICS_HISTOGRAM_BUCKETS was ignored.
---
 internal/metrics/metrics.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/metrics/metrics.go b/internal/metrics/metrics.go
index ce719df..87032a6 100644
--- a/internal/metrics/metrics.go
+++ b/internal/metrics/metrics.go
@@ -73,6 +73,9 @@ func panicInstrumentationError(err error) {
 }
 
 func init() {
+	// Histogram buckets are read below, before the application configures itself
+	config.Configure()
+
 	registry = NewWrappedRegistry(prometheusclient.NewRegistry(), createDefaultMetrics()...)
 
 	var err error
-- 
2.43.0


From cd0f5d8694bf3bcbe754f2f856fb7d9472437a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:49 +0000
Subject: [PATCH 33/33] fix: export service_name once in the default metric
 labels

A service.name resource attribute gave every series a repeated label, which made
the whole metrics page unreadable; OTEL_SERVICE_NAME takes precedence over it.
---
 internal/metrics/metrics.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/metrics/metrics.go b/internal/metrics/metrics.go
index 87032a6..38f2151 100644
--- a/internal/metrics/metrics.go
+++ b/internal/metrics/metrics.go
@@ -148,6 +148,8 @@ func createDefaultMetrics() []*dto.LabelPair {
 		otelAttributes = otelAttributes + "service.version=" + project.Version
 	}
 
+	serviceName := project.Name
+
 	attributes := strings.Split(otelAttributes, ",")
 	for _, attribute := range attributes {
 		parts := strings.Split(attribute, "=")
@@ -156,20 +158,27 @@ func createDefaultMetrics() []*dto.LabelPair {
 			continue
 		}
 
+		// Labels must be unique and service name is always added below
+		if parts[0] == "service.name" {
+			serviceName = parts[1]
+
+			continue
+		}
+
 		result = append(result, &dto.LabelPair{
 			Name:  strPtr(strings.Replace(parts[0], ".", "_", -1)),
 			Value: strPtr(parts[1]),
 		})
 	}
 
-	otelServiceName := os.Getenv("OTEL_SERVICE_NAME")
-	if otelServiceName == "" {
-		otelServiceName = project.Name
+	// OTEL_SERVICE_NAME takes precedence over service.name resource attribute
+	if otelServiceName := os.Getenv("OTEL_SERVICE_NAME"); otelServiceName != "" {
+		serviceName = otelServiceName
 	}
 
 	result = append(result, &dto.LabelPair{
 		Name:  strPtr("service_name"),
-		Value: strPtr(otelServiceName),
+		Value: strPtr(serviceName),
 	})
 
 	return result
-- 
2.43.0

