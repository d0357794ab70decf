package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/pool"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/service"
	"go.opentelemetry.io/otel/verifrec"
	"google.golang.org/grpc/status"
)

// One operation of a behaviour, in the specification's symbols.
type Op struct {
	Op     string     `json:"op"`
	Msgs   []OpMsg    `json:"msgs,omitempty"`
	Q      string     `json:"q"`
	Id     string     `json:"id"`
	Ids    []string   `json:"ids"`
	N      int64      `json:"n"`
	Min    int64      `json:"min"`
	Max    int64      `json:"max"`
	Filt   int64      `json:"filt"`
	Dl     int64      `json:"dl"`
	Score  int64      `json:"score"`
	Sub    int64      `json:"sub"`
	Lock   int64      `json:"lock"`
	Bp     int        `json:"bp"`
	Rm     bool       `json:"rm"`
	Reason string     `json:"reason"`
	D      int64      `json:"d"`
	Same   bool       `json:"same"`
	Free   bool       `json:"free"`
	Nil    bool       `json:"nil"`
	On     bool       `json:"on"`
	Grid   []int64    `json:"grid"`
	Keys   [][]string `json:"keys"`
	E      *Op        `json:"e"`
	Ps     []*Op      `json:"ps"`
	Mode   string     `json:"mode"`
	Sched  []int      `json:"sched"`
	Nth    int        `json:"nth"`
}
type OpMsg struct {
	Q     string `json:"q"`
	Id    string `json:"id"`
	Score int64  `json:"score"`
	Ttl   int64  `json:"ttl"`
	Tl    bool   `json:"tl"`
	C     [4]int `json:"c"`
}

type Trace struct {
	Id   string            `json:"id"`
	Conc Conc              `json:"conc"`
	Ops  []json.RawMessage `json:"ops"`
	Keys [][]string        `json:"keys"` // (queue, id) pairs whose processing state is probed
	Snap int               `json:"snap"` // 0: snapshot after every operation, 1: none
	Hdr  json.RawMessage   `json:"hdr"`  // passed through to the checker
	Max  int               `json:"max"`  // schedules to explore
	Seed int64             `json:"seed"`
	// several deployments on one Redis: their key prefixes, and whose operation each one is
	Tenants []string `json:"tenants"`
	Who     []int    `json:"who"`
	Foreign []string `json:"foreign"` // keys of other applications
}

type R = map[string]any

type Runner struct {
	w   *World
	c   *Conc
	now int64

	// another instance than the deployment's own
	q   *queue.Queue
	svc *service.Deckard

	// exploration of concurrent and failing operations
	choose func(enabled []int) int
	nth    int
	hit    bool
	ctr    map[string]int64
}

func (x *Runner) sv() *service.Deckard {
	if x.svc != nil {
		return x.svc
	}
	return x.w.svc
}
func (x *Runner) qu() *queue.Queue {
	if x.q != nil {
		return x.q
	}
	return x.w.q
}

func (x *Runner) setNow(t int64) { x.now = t; x.w.SetClock(x.c.at(t)) }

func errStr(err error) string {
	if err == nil {
		return ""
	}
	if s, ok := status.FromError(err); ok {
		return s.Code().String()
	}
	return "err"
}

func (x *Runner) addReq(ms []OpMsg) *deckard.AddRequest {
	r := &deckard.AddRequest{}
	for _, m := range ms {
		c := x.c
		ttl := m.Ttl
		if ttl >= HUGE {
			ttl = 1 << 62
		}
		r.Messages = append(r.Messages, &deckard.AddMessage{
			Id: c.idn(m.Id), Queue: c.qn(m.Q), Score: c.score(m.Score), TtlMinutes: ttl, Timeless: m.Tl,
			Description: cstr("desc", m.C[0], c.Cv), Payload: c.payload(m.C[1]), StringPayload: cstr("sp", m.C[2], c.Cv), Metadata: c.meta(m.C[3]),
		})
	}
	return r
}

func (x *Runner) symMsg(m *deckard.Message, lookup bool) R {
	c := x.c
	d := m.Diagnostics
	diag := []int64{0, 0, 0, 0}
	if d != nil {
		diag = []int64{d.Acks, d.Nacks, d.ConsecutiveAcks, d.ConsecutiveNacks}
	}
	desc := int64(0)
	if lookup {
		desc = c.symDesc(m.Description)
	}
	return R{"id": c.ids(m.Id), "q": c.qs(m.Queue), "score": c.symScore(m.Score), "bp": c.symBp(m.Breakpoint),
		"c": []int64{desc, c.symPay(m.Payload), c.symSp(m.StringPayload), c.symMeta(m.Metadata)}, "diag": diag}
}

func (x *Runner) pullReq(o *Op) *deckard.PullRequest {
	c := x.c
	n := o.N
	if n > 2147483647 {
		n = 2147483647
	}
	return &deckard.PullRequest{Queue: c.qn(o.Q), Amount: int32(n), MinScore: c.score(o.Min), MaxScore: c.score(o.Max),
		ScoreFilter: c.dur(o.Filt), AckDeadlineMs: c.dur(o.Dl)}
}

func (x *Runner) ackReq(o *Op) *deckard.AckRequest {
	c := x.c
	return &deckard.AckRequest{Id: c.idn(o.Id), Queue: c.qn(o.Q), Reason: o.Reason, ScoreSubtract: c.sub(o.Sub), Breakpoint: c.bp(o.Bp),
		LockMs: c.dur(o.Lock), RemoveMessage: o.Rm, Score: c.score(o.Score)}
}

// do executes one operation against the real server and returns its observable result.
func (x *Runner) do(o *Op) (r R) {
	w, c := x.w, x.c
	defer func() {
		if p := recover(); p != nil {
			r = R{"err": "panic", "msg": fmt.Sprint(p)}
		}
	}()
	switch o.Op {
	case "add":
		res, err := x.sv().Add(bg, x.addReq(o.Msgs))
		r = R{"err": errStr(err), "created": int64(0), "updated": int64(0)}
		if res != nil {
			r["created"], r["updated"] = res.CreatedCount, res.UpdatedCount
		}
	case "pull":
		res, err := x.sv().Pull(bg, x.pullReq(o))
		ms := []R{}
		if res != nil {
			for _, m := range res.Messages {
				ms = append(ms, x.symMsg(m, false))
			}
		}
		r = R{"err": errStr(err), "msgs": ms}
	case "ack", "nack":
		var res *deckard.AckResponse
		var err error
		if o.Op == "ack" {
			res, err = x.sv().Ack(bg, x.ackReq(o))
		} else {
			res, err = x.sv().Nack(bg, x.ackReq(o))
		}
		r = R{"err": errStr(err), "ok": false, "cr": int64(-1), "sr": int64(-1)}
		if res != nil {
			r["ok"] = res.Success
			if res.RemovalResponse != nil {
				r["cr"], r["sr"] = res.RemovalResponse.CacheRemoved, res.RemovalResponse.StorageRemoved
			}
		}
	case "remove":
		ids := []string{}
		for _, i := range o.Ids {
			ids = append(ids, c.idn(i))
		}
		res, err := x.sv().Remove(bg, &deckard.RemoveRequest{Queue: c.qn(o.Q), Ids: ids})
		r = R{"err": errStr(err), "cr": int64(0), "sr": int64(0)}
		if res != nil {
			r["cr"], r["sr"] = res.CacheRemoved, res.StorageRemoved
		}
	case "count":
		res, err := x.sv().Count(bg, &deckard.CountRequest{Queue: c.qn(o.Q)})
		r = R{"err": errStr(err), "count": int64(-1)}
		if res != nil {
			r["count"] = res.Count
		}
	case "get":
		res, err := x.sv().GetById(bg, &deckard.GetByIdRequest{Id: c.idn(o.Id), Queue: c.qn(o.Q)})
		r = R{"err": errStr(err), "found": false, "m": []R{}}
		if res != nil {
			r["found"] = res.Found
			if res.Message != nil {
				r["m"] = []R{x.symMsg(res.Message, true)}
			}
		}
	case "editq":
		req := &deckard.EditQueueRequest{Queue: c.qn(o.Q)}
		if !o.Nil {
			req.Configuration = &deckard.QueueConfiguration{MaxElements: o.N}
		}
		res, err := x.sv().EditQueue(bg, req)
		r = R{"err": errStr(err), "ok": false, "q": ""}
		if res != nil {
			r["ok"], r["q"] = res.Success, c.qs(res.Queue)
		}
	case "getq":
		res, err := x.sv().GetQueue(bg, &deckard.GetQueueRequest{Queue: c.qn(o.Q)})
		r = R{"err": errStr(err), "max": int64(UNK), "q": ""}
		if res != nil {
			r["q"] = c.qs(res.Queue)
			if res.Configuration != nil {
				r["max"] = res.Configuration.MaxElements
			}
		}
	case "flush":
		res, err := x.sv().Flush(bg, &deckard.FlushRequest{})
		r = R{"err": errStr(err), "ok": res != nil && res.Success}
	case "timeout":
		r = R{"err": errStr(queue.ProcessTimeoutMessages(bg, x.qu()))}
	case "unlock":
		queue.ProcessLockPool(bg, x.qu())
		r = R{"err": ""}
	case "ttl":
		t := c.at(x.now)
		m, err := queue.RemoveTTLMessages(bg, x.qu(), &t)
		r = R{"err": errStr(err), "m": m}
	case "max":
		m, err := queue.RemoveExceedingMessages(bg, x.qu())
		r = R{"err": errStr(err), "m": m}
	case "recover":
		r = R{"err": "", "m": queue.RecoveryMessagesPool(bg, x.qu())}
	case "metrics":
		queue.ComputeMetrics(bg, x.qu())
		g := []any{}
		for k, v := range verifrec.Gauge("deckard_total_messages") {
			g = append(g, []any{strings.TrimPrefix(k, "queue="), v})
		}
		sortAny(g)
		old := []any{}
		for k, v := range verifrec.Gauge("deckard_oldest_message") {
			u := int64(UNK) // instant of the last use the reported age stands for; -1: age 0
			switch {
			case v == 0:
				u = -1
			case v > 86400000*200 || v < -86400000*200: // measured with the wall clock
				u = roundDiv(time.Now().UnixMilli()-v-c.T0, c.Scale)
			default:
				u = x.now - roundDiv(v, c.Scale)
			}
			old = append(old, []any{strings.TrimPrefix(k, "queue="), u})
		}
		sortAny(old)
		r = R{"err": "", "tot": g, "old": old}
	case "adv":
		x.setNow(x.now + o.D)
		r = R{"err": ""}
	case "losecache":
		w.LoseCache()
		r = R{"err": ""}
	case "cacheflush": // the engine's own flush
		w.ca.Flush(bg)
		r = R{"err": ""}
	case "restart":
		w.Restart()
		r = R{"err": ""}
	case "storedrop": // messages vanish from storage behind the server's back
		ids := []string{}
		for _, i := range o.Ids {
			ids = append(ids, c.idn(i))
		}
		n, err := w.st.Remove(bg, c.qn(o.Q), ids...)
		r = R{"err": errStr(err), "n": n}
	case "cachedrop":
		ids := []string{}
		for _, i := range o.Ids {
			ids = append(ids, c.idn(i))
		}
		n, err := w.ca.Remove(bg, c.qn(o.Q), ids...)
		r = R{"err": errStr(err), "n": n}
	case "lag": // the storage replica stops following / catches up
		if w.fm != nil {
			if o.On {
				w.fm.Freeze()
			} else {
				w.fm.Thaw()
			}
		}
		r = R{"err": ""}
	case "lists":
		r = R{"err": "", "names": []string{}, "prefixes": []string{}, "pools": []any{}}
		ns, err := w.st.ListQueueNames(bg)
		if err != nil {
			r["err"] = "err"
		}
		r["names"] = x.symQs(ns)
		ps, err := w.st.ListQueuePrefixes(bg)
		if err != nil {
			r["err"] = "err"
		}
		sort.Strings(ps)
		if ps == nil {
			ps = []string{}
		}
		r["prefixes"] = ps
		pools := []any{}
		for _, p := range []pool.PoolType{pool.PRIMARY_POOL, pool.PROCESSING_POOL, pool.LOCK_ACK_POOL, pool.LOCK_NACK_POOL} {
			l, err := w.ca.ListQueues(bg, "*", p)
			if err != nil {
				r["err"] = "err"
			}
			pools = append(pools, x.symQs(l))
		}
		r["pools"] = pools
	case "wdrain": // reads out the whole available pool, exact score by exact score
		r = x.drain(o)
	case "recmark": // another instance has begun a recovery
		r = R{"err": errStr(w.ca.Set(bg, cache.RECOVERY_RUNNING, "true"))}
	default:
		r = R{"err": "unknown op " + o.Op}
	}
	return r
}

func roundDiv(a, b int64) int64 {
	if a < 0 {
		return -((-a + b/2) / b)
	}
	return (a + b/2) / b
}

func sortAny(g []any) {
	sort.Slice(g, func(i, j int) bool {
		a, _ := json.Marshal(g[i])
		b, _ := json.Marshal(g[j])
		return string(a) < string(b)
	})
}

func (x *Runner) symQs(ns []string) []string {
	out := []string{}
	for _, n := range ns {
		out = append(out, x.c.qs(n))
	}
	sort.Strings(out)
	return out
}

func (x *Runner) drain(o *Op) R {
	var wins []any
	all := []string{}
	errs := ""
	pull := func(min, max int64) []string {
		ids := []string{}
		for {
			res, err := x.sv().Pull(bg, x.pullReq(&Op{Q: o.Q, N: 1000, Min: min, Max: max, Dl: o.Dl}))
			if err != nil {
				errs = "err"
				return ids
			}
			if len(res.Messages) == 0 {
				return ids
			}
			for _, m := range res.Messages {
				ids = append(ids, x.c.ids(m.Id))
			}
			if len(res.Messages) < 1000 && len(o.Grid) > 0 || len(ids) > 20000 {
				return ids
			}
		}
	}
	wins = []any{}
	for _, g := range o.Grid {
		var ids []string
		if g == 0 {
			ids = pull(0, -3) // only scores up to 0
		} else {
			ids = pull(g, g)
		}
		if len(ids) > 0 {
			sort.Strings(ids)
			wins = append(wins, R{"v": g, "ids": ids})
			all = append(all, ids...)
		}
	}
	rest := pull(0, 0)
	sort.Strings(rest)
	return R{"err": errs, "wins": wins, "rest": rest}
}

func (x *Runner) snapshot() ([]R, string) {
	far := x.c.at(0).AddDate(400, 0, 0)
	ms, err := x.w.st.Find(bg, &storage.FindOptions{InternalFilter: &storage.InternalFilter{ExpiryDate: &far}, Retry: true})
	if err != nil {
		return []R{}, "err"
	}
	sort.Slice(ms, func(i, j int) bool { return lessID(&ms[i], &ms[j]) })
	out := make([]R, 0, len(ms))
	for i := range ms {
		m := &ms[i]
		d := m.Diagnostics
		diag := []int64{0, 0, 0, 0}
		if d != nil {
			diag = []int64{i64(d.Acks), i64(d.Nacks), i64(d.ConsecutiveAcks), i64(d.ConsecutiveNacks)}
		}
		tl, exp := x.c.expiry(m)
		out = append(out, R{"q": x.c.qs(m.Queue), "id": x.c.ids(m.ID), "score": x.c.symScore(m.Score), "bp": x.c.symBp(m.Breakpoint),
			"c":    []int64{x.c.symDesc(m.Description), x.c.symPay(m.Payload), x.c.symSp(m.StringPayload), x.c.symMeta(m.Metadata)},
			"diag": diag, "tl": tl, "exp": exp, "pre": m.QueuePrefix, "suf": m.QueueSuffix})
	}
	return out, ""
}

func lessID(a, b *message.Message) bool {
	x, ok1 := a.InternalId.(int64)
	y, ok2 := b.InternalId.(int64)
	if ok1 && ok2 {
		return x < y
	}
	return fmt.Sprint(a.InternalId) < fmt.Sprint(b.InternalId)
}

func (x *Runner) audits() []any {
	out := []any{}
	for _, e := range x.w.aud.Take() {
		out = append(out, x.symAudit(e))
	}
	return out
}

func (x *Runner) symAudit(e audit.Entry) R {
	return R{"id": x.c.ids(e.ID), "q": x.c.qs(e.Queue), "sig": string(e.Signal), "reason": e.Reason,
		"bp": x.c.symBp(e.Breakpoint), "lock": x.c.symDur(e.LockMs), "sub": x.c.symSub(e.LastScoreSubtract)}
}

var counterShort = map[string]string{}

func (x *Runner) counters(prev map[string]int64) ([]any, map[string]int64) {
	cur := verifrec.Counters()
	out := []any{}
	for k, v := range cur {
		if strings.Contains(k, "latency") {
			continue
		}
		if d := v - prev[k]; d != 0 {
			p := strings.SplitN(k, "|", 2)
			out = append(out, []any{p[0], p[1], d})
		}
	}
	sortAny(out)
	return out, cur
}

func decodeOp(raw json.RawMessage) (*Op, map[string]any) {
	var o Op
	if err := json.Unmarshal(raw, &o); err != nil {
		panic(fmt.Sprintf("bad op %s: %v", raw, err))
	}
	var m map[string]any
	_ = json.Unmarshal(raw, &m)
	return &o, m
}

// runTrace replays one behaviour and returns the recorded trace.
func (x *Runner) runTrace(t *Trace) R {
	x.w.Fresh()
	t.Conc.init()
	x.c = &t.Conc
	x.setNow(0)
	verifrec.Reset()
	evs := []any{}
	x.ctr = map[string]int64{}
	for _, raw := range t.Ops {
		o, ev := decodeOp(raw)
		x.event(t, o, ev)
		evs = append(evs, ev)
	}
	return x.record(t, t.Id, evs)
}

func (x *Runner) record(t *Trace, id string, evs []any) R {
	out := R{"id": id, "ev": evs, "combo": x.w.cacheKind + "/" + x.w.storKind}
	if t.Hdr != nil {
		out["hdr"] = t.Hdr
	}
	return out
}

// event executes one operation and adds what was observed to ev.
func (x *Runner) event(t *Trace, o *Op, ev map[string]any) {
	progress.Add(1)
	ev["now"] = x.now
	slotted := x.w.cacheKind == "cluster"
	if slotted {
		x.w.fr.TakeSlots()
	}
	switch o.Op {
	case "par":
		choose := x.choose
		if choose == nil {
			choose = follow(o.Sched)
		}
		if o.Free {
			ev["rs"], ev["sched"] = x.free(o.Ps), []int{}
		} else {
			rs, order := x.par(o.Ps, o.Same, choose)
			ev["rs"], ev["sched"] = rs, order
		}
		ev["r"] = R{"err": ""}
	case "flt":
		nth := o.Nth
		if nth == 0 {
			nth = x.nth
		}
		f := &Fault{nth: nth, mode: o.Mode}
		x.w.SetGate(f)
		r := x.do(o.E)
		x.w.SetGate(nil)
		x.hit = f.hit
		ev["nth"], ev["call"], ev["r"] = nth, f.what, r
		if strings.HasPrefix(o.Mode, "crash") {
			ev["mode"] = "crash"
			x.w.Restart()
		}
	default:
		ev["r"] = x.do(o)
	}
	if slotted {
		ev["slots"] = x.w.fr.TakeSlots()
	}
	if s := x.w.Unsupported(); s != "" {
		fmt.Fprintln(os.Stderr, "UNSUPPORTED", s)
		os.Exit(3)
	}
	ev["aud"] = x.audits()
	if t.Snap == 0 {
		var cs []any
		cs, x.ctr = x.counters(x.ctr)
		ev["ctr"] = cs
		s, e := x.snapshot()
		ev["snap"], ev["snaperr"] = s, e
		pr := []any{}
		for _, k := range t.Keys {
			b, err := x.w.ca.IsProcessing(bg, x.c.qn(k[0]), x.c.idn(k[1]))
			if err != nil {
				b = false
			}
			if b {
				pr = append(pr, k)
			}
		}
		ev["proc"] = pr
	}
}

func follow(sched []int) func([]int) int {
	i := 0
	return func(en []int) int {
		if i < len(sched) {
			c := sched[i]
			i++
			for _, e := range en {
				if e == c {
					return c
				}
			}
		}
		return en[0]
	}
}

// explore runs a behaviour once, or, if it has a concurrent or failing operation left open, once for every order of the
// backend calls (up to a maximum, then random ones) or every call that can fail.
func (x *Runner) explore(t *Trace, emit func(R) error) error {
	kind := ""
	for _, raw := range t.Ops {
		o, _ := decodeOp(raw)
		if o.Op == "par" && o.Free {
			kind = "free"
		} else if o.Op == "par" && o.Sched == nil {
			kind = "par"
		}
		if o.Op == "flt" && o.Nth == 0 {
			kind = "flt"
		}
	}
	id := t.Id
	defer func() { t.Id = id; x.choose = nil; x.nth = 0 }()
	switch kind {
	case "free":
		for k := 0; k < t.Max; k++ {
			t.Id = fmt.Sprintf("%s~%d", id, k)
			if err := emit(x.runTrace(t)); err != nil {
				return err
			}
		}
		return nil
	case "flt":
		for x.nth = 1; x.nth < 60; x.nth++ {
			t.Id = fmt.Sprintf("%s~%d", id, x.nth)
			x.hit = false
			r := x.runTrace(t)
			if !x.hit {
				return nil
			}
			if err := emit(r); err != nil {
				return err
			}
		}
		return nil
	case "par":
		rng := rand.New(rand.NewSource(t.Seed + 1))
		prefix := []int{}
		k := 0
		for ; k < t.Max || k == 0; k++ { // depth first over all choices
			t.Id = fmt.Sprintf("%s~%d", id, k)
			var taken, width []int
			ens := [][]int{}
			x.choose = func(en []int) int {
				i := len(taken)
				c := 0
				if i < len(prefix) {
					c = prefix[i]
				}
				if c >= len(en) {
					c = len(en) - 1
				}
				taken, width = append(taken, c), append(width, len(en))
				ens = append(ens, en)
				return en[c]
			}
			if err := emit(x.runTrace(t)); err != nil {
				return err
			}
			i := len(taken) - 1
			for i >= 0 && taken[i]+1 >= width[i] {
				i--
			}
			if i < 0 {
				return nil
			}
			prefix = append(append([]int{}, taken[:i]...), taken[i]+1)
		}
		for r := 0; r < t.Max; r++ { // the rest is sampled
			t.Id = fmt.Sprintf("%s~r%d", id, r)
			x.choose = func(en []int) int { return en[rng.Intn(len(en))] }
			if err := emit(x.runTrace(t)); err != nil {
				return err
			}
		}
		return nil
	}
	return emit(x.runTrace(t))
}

func mainSeq(combo, in, out string) error {
	w, err := NewWorld(combo)
	if err != nil {
		return err
	}
	fi, err := os.Open(in)
	if err != nil {
		return err
	}
	defer fi.Close()
	fo, err := os.Create(out)
	if err != nil {
		return err
	}
	bw := bufio.NewWriterSize(fo, 1<<20)
	enc := json.NewEncoder(bw)
	enc.SetEscapeHTML(false)
	dec := json.NewDecoder(bufio.NewReaderSize(fi, 1<<20))
	x := &Runner{w: w}
	go watchdog()
	emit := func(r R) error {
		if err := enc.Encode(r); err != nil {
			return err
		}
		return bw.Flush()
	}
	for dec.More() {
		var t Trace
		if err := dec.Decode(&t); err != nil {
			return err
		}
		if err := os.WriteFile(out+".at", []byte(t.Id), 0o644); err != nil { // what was running when the process dies
			return err
		}
		if t.Tenants != nil {
			if err := x.runTenants(&t, emit); err != nil {
				return err
			}
			continue
		}
		if err := x.explore(&t, emit); err != nil {
			return err
		}
	}
	if err := bw.Flush(); err != nil {
		return err
	}
	return fo.Close()
}

// progress counts what has been executed.
var progress atomic.Int64

// stuck ends the process: an operation does not come to an end.
func stuck(what string) {
	buf := make([]byte, 1<<20)
	fmt.Fprintln(os.Stderr, "STUCK", what+"\n"+string(buf[:runtime.Stack(buf, true)]))
	os.Exit(4)
}

func watchdog() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(time.Second)
		if p := progress.Load(); p != last {
			last, since = p, time.Now()
		} else if time.Since(since) > 60*time.Second {
			stuck("no operation ended for a minute")
		}
	}
}
