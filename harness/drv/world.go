package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/metrics"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/service"
)

var bg = context.Background()

// RecAuditor records what the queue reports to its auditor.
type RecAuditor struct {
	mu sync.Mutex
	es []audit.Entry
}

func (a *RecAuditor) Store(_ context.Context, e audit.Entry) {
	a.mu.Lock()
	a.es = append(a.es, e)
	a.mu.Unlock()
}
func (a *RecAuditor) Take() []audit.Entry {
	a.mu.Lock()
	defer a.mu.Unlock()
	r := a.es
	a.es = nil
	return r
}

// World is one deployment: a cache backend, a storage backend and a server instance on top of them.
type World struct {
	cacheKind, storKind string
	fr                  *FakeRedis
	fm                  *FakeMongo
	st                  storage.Storage
	ca                  cache.Cache
	aud                 *RecAuditor
	q                   *queue.Queue
	cfg                 *queue.DefaultQueueConfigurationService
	svc                 *service.Deckard

	gate atomic.Pointer[Gate]
	keep bool // the cache server is shared: do not reset it

	redisCache *cache.RedisCache
	mongoSt    *storage.MongoStorage

	clockMu sync.Mutex
	clock   time.Time
}

// combo is "memory/memory", "redis/mongo", "cluster/memory", ...
func NewWorld(combo string) (*World, error) {
	p := strings.SplitN(combo, "/", 2)
	w := &World{cacheKind: p[0], storKind: p[1]}
	config.Configure(true)
	var err error
	switch w.cacheKind {
	case "redis", "cluster":
		shards := 0
		if w.cacheKind == "cluster" {
			shards = 3
		}
		if w.fr, err = NewFakeRedis(shards); err != nil {
			return nil, err
		}
		if err = w.dialRedis(); err != nil {
			return nil, err
		}
	}
	if w.storKind == "mongo" {
		if w.fm, err = NewFakeMongo(); err != nil {
			return nil, err
		}
		config.StorageUri.Set(w.fm.URI())
		s, err := storage.NewMongoStorage(bg)
		if err != nil {
			return nil, fmt.Errorf("mongo: %w", err)
		}
		w.mongoSt = s
	}
	w.SetClock(time.UnixMilli(1700000000000))
	dtime.SetNowProvider(func() time.Time { w.clockMu.Lock(); defer w.clockMu.Unlock(); return w.clock })
	ensureMetrics()
	w.Fresh()
	return w, nil
}

func (w *World) dialRedis() error {
	config.CacheUri.Set(w.fr.URI())
	config.RedisClusterMode.Set(w.cacheKind == "cluster")
	config.CacheConnectionRetryEnabled.Set(false)
	c, err := cache.NewRedisCache(bg)
	if err != nil {
		return fmt.Errorf("redis: %w", err)
	}
	w.redisCache = c
	return nil
}

func ensureMetrics() { _ = metrics.MetricsMap }

func (w *World) SetClock(t time.Time) { w.clockMu.Lock(); w.clock = t; w.clockMu.Unlock() }

// Fresh starts an empty deployment.
func (w *World) Fresh() {
	if w.fr != nil {
		if !w.keep {
			w.fr.SetHooks(nil, nil)
			w.fr.Reset()
		}
		w.ca = w.redisCache
	} else {
		w.ca = cache.NewMemoryCache()
	}
	if w.fm != nil {
		w.fm.SetHooks(nil, nil)
		w.fm.Reset()
		w.st = w.mongoSt
	} else {
		w.st = storage.NewMemoryStorage(bg)
	}
	w.aud = &RecAuditor{}
	m := metrics.NewQueueMetricsMap()
	metrics.MetricsMap.OldestElement, metrics.MetricsMap.TotalElements = m.OldestElement, m.TotalElements
	w.Restart()
}

// gated wraps the in-memory engines, so that a gate sees their calls.
func (w *World) gated() (storage.Storage, cache.Cache) {
	st, ca := w.st, w.ca
	if w.fm == nil {
		st = gSt{st, w}
	}
	if w.fr == nil {
		ca = gCa{ca, w}
	}
	return st, ca
}

// Restart starts a new server instance on the same backends.
func (w *World) Restart() {
	st, ca := w.gated()
	w.cfg = queue.NewQueueConfigurationService(bg, st)
	w.q = queue.NewQueue(w.aud, st, w.cfg, ca)
	w.svc = service.NewDeckardInstance(w.q, w.cfg, w.cacheKind == "memory" && w.storKind == "memory")
}

// LoseCache drops everything the cache holds, as a cache server restart would.
func (w *World) LoseCache() {
	if w.fr != nil {
		w.fr.Reset()
	} else {
		w.ca = cache.NewMemoryCache()
		w.Restart()
	}
}

func (w *World) Unsupported() string {
	if w.fr != nil {
		if s, ok := w.fr.Unsupported.Load().(string); ok {
			return "redis: " + s
		}
	}
	if w.fm != nil {
		if s, ok := w.fm.Unsupported.Load().(string); ok {
			return s
		}
	}
	return ""
}
