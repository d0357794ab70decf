package verifdemo

import (
	"testing"

	"github.com/redis/go-redis/v9"
	"context"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/storage"
)

type quietLog struct{}

func (quietLog) Printf(context.Context, string, ...interface{}) {}

func redisCache(t *testing.T, shards int) (*FakeRedis, cache.Cache) {
	redis.SetLogger(quietLog{})
	config.Configure(true)
	fr, err := NewFakeRedis(shards)
	if err != nil {
		t.Fatal(err)
	}
	config.CacheUri.Set(fr.URI())
	config.RedisClusterMode.Set(shards > 0)
	c, err := cache.NewRedisCache(ctx)
	if err != nil {
		t.Fatal(err)
	}
	return fr, c
}

func mongoStorage(t *testing.T) (*FakeMongo, storage.Storage) {
	config.Configure(true)
	fm, err := NewFakeMongo()
	if err != nil {
		t.Fatal(err)
	}
	config.StorageUri.Set(fm.URI())
	s, err := storage.NewMongoStorage(ctx)
	if err != nil {
		t.Fatal(err)
	}
	return fm, s
}
