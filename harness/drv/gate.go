package main

import (
	"context"
	"errors"
	"sync"
	"sync/atomic"
	"time"

	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/pool"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/service"
	"github.com/takenet/deckard/internal/verifsync"
)

// Gate sees every backend call: commands on the wire for Redis and MongoDB, method calls for the in-memory engines.
// Before may hold the call back or refuse it, After may replace its answer by a failure (the call took effect).
type Gate interface {
	Before(side, name string) string
	After(side, name string) string
}

func (w *World) SetGate(g Gate) {
	w.gate.Store(&g)
	if g == nil {
		w.gate.Store((*Gate)(nil))
	}
	if w.fr != nil {
		if g == nil {
			w.fr.SetHooks(nil, nil)
		} else {
			w.fr.SetHooks(func(c []string) string { return g.Before("cache", c[0]) }, func(c []string) string { return g.After("cache", c[0]) })
		}
	}
	if w.fm != nil {
		if g == nil {
			w.fm.SetHooks(nil, nil)
		} else {
			w.fm.SetHooks(func(c string, _ mdoc) string { return g.Before("storage", c) }, func(c string, _ mdoc) string { return g.After("storage", c) })
		}
	}
}

func (w *World) call(side, name string, f func() error) error {
	p := w.gate.Load()
	if p == nil {
		return f()
	}
	g := *p
	if e := g.Before(side, name); e != "" {
		return errors.New(e)
	}
	err := f()
	if e := g.After(side, name); e != "" {
		return errors.New(e)
	}
	return err
}

// Gated in-memory engines.
type gSt struct {
	storage.Storage
	w *World
}
type gCa struct {
	cache.Cache
	w *World
}

func (g gSt) Insert(ctx context.Context, ms ...*message.Message) (a int64, b int64, err error) {
	err = g.w.call("storage", "Insert", func() (e error) { a, b, e = g.Storage.Insert(ctx, ms...); return })
	if err != nil {
		return 0, 0, err
	}
	return
}
func (g gSt) Find(ctx context.Context, o *storage.FindOptions) (r []message.Message, err error) {
	err = g.w.call("storage", "Find", func() (e error) { r, e = g.Storage.Find(ctx, o); return })
	if err != nil {
		return nil, err
	}
	return
}
func (g gSt) Remove(ctx context.Context, q string, ids ...string) (n int64, err error) {
	err = g.w.call("storage", "Remove", func() (e error) { n, e = g.Storage.Remove(ctx, q, ids...); return })
	if err != nil {
		return 0, err
	}
	return
}
func (g gSt) Ack(ctx context.Context, m *message.Message) (n int64, err error) {
	err = g.w.call("storage", "Ack", func() (e error) { n, e = g.Storage.Ack(ctx, m); return })
	if err != nil {
		return 0, err
	}
	return
}
func (g gSt) Nack(ctx context.Context, m *message.Message) (n int64, err error) {
	err = g.w.call("storage", "Nack", func() (e error) { n, e = g.Storage.Nack(ctx, m); return })
	if err != nil {
		return 0, err
	}
	return
}
func (g gSt) ListQueueNames(ctx context.Context) (r []string, err error) {
	err = g.w.call("storage", "ListQueueNames", func() (e error) { r, e = g.Storage.ListQueueNames(ctx); return })
	if err != nil {
		return nil, err
	}
	return
}
func (g gSt) ListQueuePrefixes(ctx context.Context) (r []string, err error) {
	err = g.w.call("storage", "ListQueuePrefixes", func() (e error) { r, e = g.Storage.ListQueuePrefixes(ctx); return })
	if err != nil {
		return nil, err
	}
	return
}
func (g gSt) Count(ctx context.Context, f *storage.FindOptions, c *storage.CountOptions) (n int64, err error) {
	err = g.w.call("storage", "Count", func() (e error) { n, e = g.Storage.Count(ctx, f, c); return })
	if err != nil {
		return 0, err
	}
	return
}
func (g gSt) EditQueueConfiguration(ctx context.Context, c *configuration.QueueConfiguration) error {
	return g.w.call("storage", "EditQueueConfiguration", func() error { return g.Storage.EditQueueConfiguration(ctx, c) })
}
func (g gSt) GetQueueConfiguration(ctx context.Context, q string) (c *configuration.QueueConfiguration, err error) {
	err = g.w.call("storage", "GetQueueConfiguration", func() (e error) { c, e = g.Storage.GetQueueConfiguration(ctx, q); return })
	if err != nil {
		return nil, err
	}
	return
}
func (g gSt) ListQueueConfigurations(ctx context.Context) (c []*configuration.QueueConfiguration, err error) {
	err = g.w.call("storage", "ListQueueConfigurations", func() (e error) { c, e = g.Storage.ListQueueConfigurations(ctx); return })
	if err != nil {
		return nil, err
	}
	return
}
func (g gSt) Flush(ctx context.Context) (n int64, err error) {
	err = g.w.call("storage", "Flush", func() (e error) { n, e = g.Storage.Flush(ctx); return })
	if err != nil {
		return 0, err
	}
	return
}

func (g gCa) MakeAvailable(ctx context.Context, m *message.Message) (b bool, err error) {
	err = g.w.call("cache", "MakeAvailable", func() (e error) { b, e = g.Cache.MakeAvailable(ctx, m); return })
	if err != nil {
		return false, err
	}
	return
}
func (g gCa) IsProcessing(ctx context.Context, q string, id string) (b bool, err error) {
	err = g.w.call("cache", "IsProcessing", func() (e error) { b, e = g.Cache.IsProcessing(ctx, q, id); return })
	if err != nil {
		return false, err
	}
	return
}
func (g gCa) PullMessages(ctx context.Context, q string, n int64, a *float64, b *float64, d int64) (ids []string, err error) {
	err = g.w.call("cache", "PullMessages", func() (e error) { ids, e = g.Cache.PullMessages(ctx, q, n, a, b, d); return })
	if err != nil {
		return nil, err
	}
	return
}
func (g gCa) TimeoutMessages(ctx context.Context, q string) (ids []string, err error) {
	err = g.w.call("cache", "TimeoutMessages", func() (e error) { ids, e = g.Cache.TimeoutMessages(ctx, q); return })
	if err != nil {
		return nil, err
	}
	return
}
func (g gCa) LockMessage(ctx context.Context, m *message.Message, t cache.LockType) (b bool, err error) {
	err = g.w.call("cache", "LockMessage", func() (e error) { b, e = g.Cache.LockMessage(ctx, m, t); return })
	if err != nil {
		return false, err
	}
	return
}
func (g gCa) UnlockMessages(ctx context.Context, q string, t cache.LockType) (ids []string, err error) {
	err = g.w.call("cache", "UnlockMessages", func() (e error) { ids, e = g.Cache.UnlockMessages(ctx, q, t); return })
	if err != nil {
		return nil, err
	}
	return
}
func (g gCa) ListQueues(ctx context.Context, p string, t pool.PoolType) (qs []string, err error) {
	err = g.w.call("cache", "ListQueues", func() (e error) { qs, e = g.Cache.ListQueues(ctx, p, t); return })
	if err != nil {
		return nil, err
	}
	return
}
func (g gCa) Insert(ctx context.Context, q string, ms ...*message.Message) (ids []string, err error) {
	err = g.w.call("cache", "Insert", func() (e error) { ids, e = g.Cache.Insert(ctx, q, ms...); return })
	if err != nil {
		return nil, err
	}
	return
}
func (g gCa) Remove(ctx context.Context, q string, ids ...string) (n int64, err error) {
	err = g.w.call("cache", "Remove", func() (e error) { n, e = g.Cache.Remove(ctx, q, ids...); return })
	if err != nil {
		return 0, err
	}
	return
}
func (g gCa) Flush(ctx context.Context) {
	_ = g.w.call("cache", "Flush", func() error { g.Cache.Flush(ctx); return nil })
}
func (g gCa) Get(ctx context.Context, k string) (v string, err error) {
	err = g.w.call("cache", "Get", func() (e error) { v, e = g.Cache.Get(ctx, k); return })
	if err != nil {
		return "", err
	}
	return
}
func (g gCa) Set(ctx context.Context, k string, v string) error {
	return g.w.call("cache", "Set", func() error { return g.Cache.Set(ctx, k, v) })
}

// ------------------------------------------------------------------- failures

// Fault makes the nth backend call fail: not executed (fail), executed but answered with an error (late), or, from that
// call on, nothing works any more (crash: not executed; crashlate: the nth call still takes effect).
type Fault struct {
	mu   sync.Mutex
	n    int
	nth  int
	mode string
	hit  bool
	late bool // the answer has been replaced
	what string
}

const injected = "ERR injected failure"

func (f *Fault) Before(side, name string) string {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.n++
	switch {
	case f.n == f.nth:
		f.hit, f.what = true, side+":"+name
		if f.mode == "fail" || f.mode == "crash" {
			return injected
		}
	case f.n > f.nth && (f.mode == "crash" || f.mode == "crashlate"):
		return injected
	}
	return ""
}

func (f *Fault) After(side, name string) string {
	f.mu.Lock()
	defer f.mu.Unlock()
	// a fan-out may have made further calls meanwhile
	if f.hit && !f.late && side+":"+name == f.what && (f.mode == "late" || f.mode == "crashlate") {
		f.late = true
		return injected
	}
	return ""
}

// ----------------------------------------------------------------- interleaving

type waiter struct {
	p       int
	ch      chan struct{}
	blocked bool // for a mutex
}

// Sched runs several operations concurrently, one backend call at a time, in an order given by choose.
type Sched struct {
	mu      sync.Mutex
	cur     int
	waiting []*waiter
	event   chan struct{}

	// mutexes: the first one a backend call takes needs no decision of its own, further ones do;
	// with shared set (one server) those taken outside of backend calls too
	shared bool
	inside map[int]bool
	fresh  map[int]bool
}

func (s *Sched) wait(p int, blocked bool) {
	s.mu.Lock()
	w := &waiter{p, make(chan struct{}), blocked}
	s.waiting = append(s.waiting, w)
	s.mu.Unlock()
	select {
	case s.event <- struct{}{}:
	default:
	}
	<-w.ch
}

func (s *Sched) Before(side, name string) string {
	s.mu.Lock()
	p := s.cur
	s.mu.Unlock()
	s.wait(p, false)
	s.mu.Lock()
	s.inside[p], s.fresh[p] = true, true
	s.mu.Unlock()
	return ""
}
func (s *Sched) After(side, name string) string {
	s.mu.Lock()
	s.inside[s.cur] = false
	s.mu.Unlock()
	return ""
}

// Lock acquires a mutex of the server's code, which is a scheduling decision.
func (s *Sched) Lock(try func() bool) {
	s.mu.Lock()
	p := s.cur
	pause := (s.inside[p] || s.shared) && !s.fresh[p]
	s.fresh[p] = false
	s.mu.Unlock()
	if pause {
		s.wait(p, false)
	}
	for !try() {
		s.wait(p, true)
	}
}

// Unlocked lets those waiting for a mutex try again.
func (s *Sched) Unlocked() {
	s.mu.Lock()
	for _, w := range s.waiting {
		w.blocked = false
	}
	s.mu.Unlock()
}

func (s *Sched) blocked(p int) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, w := range s.waiting {
		if w.p == p && !w.blocked {
			return false
		}
	}
	return true
}

func (s *Sched) has(p int) int {
	n := 0
	for _, w := range s.waiting {
		if w.p == p {
			n++
		}
	}
	return n
}

// instance is one more server on the same backends.
func (w *World) instance() (*queue.Queue, *service.Deckard) {
	st, ca := w.gated()
	cfg := queue.NewQueueConfigurationService(bg, st)
	q := queue.NewQueue(w.aud, st, cfg, ca)
	return q, service.NewDeckardInstance(q, cfg, w.cacheKind == "memory" && w.storKind == "memory")
}

// free runs the operations on one server, all at once and undisturbed.
func (x *Runner) free(ops []*Op) []R {
	rs := make([]R, len(ops))
	var ready atomic.Int32
	var wg sync.WaitGroup
	for i := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			y := *x
			for ready.Add(1); ready.Load() < int32(len(ops)); {
			}
			rs[i] = y.do(ops[i])
		}()
	}
	wg.Wait()
	return rs
}

// par runs the operations; choose picks among the processes that can go on. Returns the answers and the order taken.
func (x *Runner) par(ops []*Op, shared bool, choose func(enabled []int) int) ([]R, []int) {
	s := &Sched{event: make(chan struct{}, 64), shared: shared, inside: map[int]bool{}, fresh: map[int]bool{}}
	rs := make([]R, len(ops))
	done := make([]bool, len(ops))
	fin := make(chan int, len(ops))
	x.w.SetGate(s)
	defer x.w.SetGate(nil)
	verifsync.SetHook(&verifsync.Hook{Lock: s.Lock, Unlock: s.Unlocked})
	defer verifsync.SetHook(nil)
	settle := func(p int) { // until process p waits again or has finished
		for {
			s.mu.Lock()
			n := s.has(p)
			s.mu.Unlock()
			if done[p] {
				return
			}
			to := 30 * time.Second
			if n > 0 {
				if x.w.cacheKind != "cluster" {
					return
				}
				to = 300 * time.Microsecond // several calls at once
			}
			select {
			case i := <-fin:
				done[i] = true
			case <-s.event:
			case <-time.After(to):
				if n > 0 {
					return
				}
				stuck("a process neither waits nor finishes")
			}
		}
	}
	for i := range ops {
		s.mu.Lock()
		s.cur = i
		s.mu.Unlock()
		go func(i int) {
			y := *x
			if !shared {
				y.q, y.svc = x.w.instance()
			}
			rs[i] = y.do(ops[i])
			fin <- i
		}(i)
		settle(i)
	}
	order := []int{}
	for {
		en, left := []int{}, false
		for i := range ops {
			left = left || !done[i]
			if !done[i] && !s.blocked(i) {
				en = append(en, i)
			}
		}
		if !left {
			return rs, order
		}
		if len(en) == 0 {
			stuck("every process waits for a mutex")
		}
		p := en[0]
		if len(en) > 1 {
			p = choose(en)
			order = append(order, p)
		}
		s.mu.Lock()
		s.cur = p
		for i, w := range s.waiting {
			if w.p == p {
				s.waiting = append(s.waiting[:i], s.waiting[i+1:]...)
				close(w.ch)
				break
			}
		}
		s.mu.Unlock()
		settle(p)
	}
}
