package verifdemo

import (
	"context"
	"sync"
	"testing"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/service"
	"go.uber.org/zap"
)

var ctx = context.Background()

type recorder struct {
	mu sync.Mutex
	es []audit.Entry
}

func (a *recorder) Store(_ context.Context, e audit.Entry) {
	a.mu.Lock()
	a.es = append(a.es, e)
	a.mu.Unlock()
}

// world is a server over in-memory backends, or over the given ones, with a settable clock.
type world struct {
	t   *testing.T
	mu  sync.Mutex
	now time.Time
	st  storage.Storage
	ca  cache.Cache
	aud *recorder
	cfg *queue.DefaultQueueConfigurationService
	q   *queue.Queue
	svc *service.Deckard
}

func newWorld(t *testing.T, st storage.Storage, ca cache.Cache) *world {
	zap.ReplaceGlobals(zap.NewNop())
	config.Configure(true)
	mem := st == nil && ca == nil
	if st == nil {
		st = storage.NewMemoryStorage(ctx)
	}
	if ca == nil {
		ca = cache.NewMemoryCache()
	}
	w := &world{t: t, now: time.UnixMilli(1700000000000), st: st, ca: ca, aud: &recorder{}}
	dtime.SetNowProvider(func() time.Time { w.mu.Lock(); defer w.mu.Unlock(); return w.now })
	w.cfg = queue.NewQueueConfigurationService(ctx, st)
	w.q = queue.NewQueue(w.aud, st, w.cfg, ca)
	w.svc = service.NewDeckardInstance(w.q, w.cfg, mem)
	return w
}

func (w *world) adv(d time.Duration) { w.mu.Lock(); w.now = w.now.Add(d); w.mu.Unlock() }

func (w *world) add(queue, id string, score float64) {
	w.t.Helper()
	w.addm(&deckard.AddMessage{Queue: queue, Id: id, Score: score, TtlMinutes: 30})
}

func (w *world) addm(ms ...*deckard.AddMessage) *deckard.AddResponse {
	w.t.Helper()
	r, err := w.svc.Add(ctx, &deckard.AddRequest{Messages: ms})
	if err != nil {
		w.t.Fatalf("add: %v", err)
	}
	return r
}

func (w *world) pullr(r *deckard.PullRequest) []string {
	w.t.Helper()
	p, err := w.svc.Pull(ctx, r)
	if err != nil {
		w.t.Fatalf("pull: %v", err)
	}
	ids := []string{}
	for _, m := range p.Messages {
		ids = append(ids, m.Id)
	}
	return ids
}

func (w *world) pull(queue string, n int32) []string {
	w.t.Helper()
	return w.pullr(&deckard.PullRequest{Queue: queue, Amount: n})
}

func (w *world) ack(r *deckard.AckRequest) bool {
	w.t.Helper()
	p, err := w.svc.Ack(ctx, r)
	if err != nil {
		w.t.Fatalf("ack: %v", err)
	}
	return p.Success
}

func (w *world) nack(r *deckard.AckRequest) bool {
	w.t.Helper()
	p, err := w.svc.Nack(ctx, r)
	if err != nil {
		w.t.Fatalf("nack: %v", err)
	}
	return p.Success
}

func (w *world) want(what string, got []string, want ...string) {
	w.t.Helper()
	if len(got) != len(want) {
		w.t.Fatalf("%s: got %v, want %v", what, got, want)
	}
	for i := range got {
		if got[i] != want[i] {
			w.t.Fatalf("%s: got %v, want %v", what, got, want)
		}
	}
}
