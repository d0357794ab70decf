package main

// Many messages: operations on numbers of messages of a group, answered with numbers.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/pool"
)

type bulkOp struct {
	Op    string `json:"op"`
	Q     string `json:"q"`
	G     string `json:"g"`
	N     int64  `json:"n"`
	Sc    int64  `json:"sc"`
	TTL   int64  `json:"ttl"`
	Dl    int64  `json:"dl"`
	Lock  int64  `json:"lock"`
	D     int64  `json:"d"`
	Extra int64  `json:"extra"`
}

type bulkTrace struct {
	Id    string            `json:"id"`
	Lab   []string          `json:"lab"`
	Ops   []json.RawMessage `json:"ops"`
	Names map[string]string `json:"names"`
	T0    int64             `json:"t0"`
	Scale int64             `json:"scale"`
}

type bulkRun struct {
	w     *World
	t     *bulkTrace
	now   int64
	next  map[string]int
	alive map[string][]string // ids by q/g, in order of insertion
	fly   map[string][]string // pulled ids by q/g
	after func()
	label map[string]string // batch of q/id
	back  map[string]string
}

func (x *bulkRun) batch(q, id string) string {
	if l, ok := x.label[q+"/"+id]; ok {
		return l
	}
	return "?" + id
}

func (x *bulkRun) part(q, id, step string) {
	if l, ok := x.label[q+"/"+id]; ok {
		x.label[q+"/"+id] = l + "." + step
	}
}

// runs of equal batches, in order
func (x *bulkRun) runs(q string, ids []string) []any {
	out, last, n := []any{}, "", 0
	for i, id := range ids {
		b := x.batch(q, id)
		if i > 0 && b != last {
			out, n = append(out, R{"g": last, "n": n}), 0
		}
		last, n = b, n+1
	}
	if n > 0 {
		out = append(out, R{"g": last, "n": n})
	}
	return out
}

func (x *bulkRun) qs(n string) string {
	if s, ok := x.back[n]; ok {
		return s
	}
	if m := x.t.Names["c"]; m != "" && strings.HasPrefix(n, m) {
		return "c"
	}
	return "?" + n
}

// the queue of a message: c stands for a queue per message
func (x *bulkRun) qn(q, id string) string {
	if q == "c" {
		return x.t.Names["c"] + id[strings.LastIndexByte(id, '-')+1:]
	}
	return x.t.Names[q]
}

// distinct queues and whether one is named twice
func distinct(ns []string) (int, bool) {
	seen := map[string]bool{}
	for _, n := range ns {
		seen[n] = true
	}
	return len(seen), len(seen) != len(ns)
}

func grp(id string) string {
	i := strings.LastIndexByte(id, '-')
	if i < 0 {
		return "?" + id
	}
	return id[:i]
}

func without(xs []string, gone map[string]bool) []string {
	out := xs[:0:0]
	for _, s := range xs {
		if !gone[s] {
			out = append(out, s)
		}
	}
	return out
}

func (x *bulkRun) do(o *bulkOp, step string) (r R) {
	defer func() {
		if p := recover(); p != nil {
			fmt.Fprintln(os.Stderr, "panic:", p)
			r = R{"err": "panic"}
		}
	}()
	w, k, qn := x.w, o.Q+"/"+o.G, x.t.Names[o.Q]
	switch o.Op {
	case "add":
		req := &deckard.AddRequest{}
		ids := []string{}
		for i := int64(0); i < o.N; i++ {
			x.next[k]++
			id := o.G + "-" + strconv.Itoa(x.next[k])
			ids = append(ids, id)
			req.Messages = append(req.Messages, &deckard.AddMessage{Id: id, Queue: x.qn(o.Q, id), Score: float64(o.Sc) * 1.5, TtlMinutes: o.TTL * x.t.Scale / 60000})
		}
		res, err := w.svc.Add(bg, req)
		r = R{"err": errStr(err), "created": int64(-1), "updated": int64(-1)}
		if res != nil {
			r["created"], r["updated"] = res.CreatedCount, res.UpdatedCount
		}
		x.alive[k] = append(x.alive[k], ids...)
		for _, id := range ids {
			x.label[o.Q+"/"+id] = o.G + "." + step
		}
	case "pull":
		got, seen, dup, e := []string{}, map[string]bool{}, 0, ""
		from := []string{qn}
		if o.Q == "c" {
			from = from[:0]
			for i := 1; i <= x.next["c/c1"]; i++ {
				from = append(from, x.qn("c", "-"+strconv.Itoa(i)))
			}
		}
		for _, qn := range from {
			res, err := w.svc.Pull(bg, &deckard.PullRequest{Queue: qn, Amount: int32(o.N), AckDeadlineMs: o.Dl * x.t.Scale})
			if err != nil {
				e = errStr(err)
			}
			if res == nil {
				continue
			}
			for _, m := range res.Messages {
				if seen[m.Id] || x.label[o.Q+"/"+m.Id] == "" || m.Queue != qn || qn != x.qn(o.Q, m.Id) {
					dup++
				}
				seen[m.Id] = true
				got = append(got, m.Id)
				x.fly[o.Q+"/"+grp(m.Id)] = append(x.fly[o.Q+"/"+grp(m.Id)], m.Id)
			}
		}
		r = R{"err": e, "got": x.runs(o.Q, got), "dup": dup}
		for _, id := range got {
			x.part(o.Q, id, step)
		}
	case "ack", "nack":
		ids := x.fly[k]
		if int64(len(ids)) > o.N {
			ids = ids[:o.N]
		}
		o.N = int64(len(ids))
		x.fly[k] = append([]string{}, x.fly[k][len(ids):]...)
		ok, e := int64(0), ""
		for _, id := range ids {
			req := &deckard.AckRequest{Id: id, Queue: x.qn(o.Q, id), Reason: "r", Score: float64(o.Sc) * 1.5, LockMs: o.Lock * x.t.Scale}
			var res *deckard.AckResponse
			var err error
			if o.Op == "ack" {
				res, err = w.svc.Ack(bg, req)
			} else {
				res, err = w.svc.Nack(bg, req)
			}
			if err != nil {
				e = errStr(err)
			} else if res.Success {
				ok++
			}
		}
		r = R{"err": e, "ok": ok, "ids": x.runs(o.Q, ids)}
		x.after = func() {
			for _, id := range ids {
				x.part(o.Q, id, step)
			}
		}
	case "remove":
		ids := x.alive[k]
		if int64(len(ids)) > o.N {
			ids = ids[:o.N]
		}
		o.N = int64(len(ids))
		req := append([]string{}, ids...)
		for i := int64(0); i < o.Extra; i++ { // unknown ones in between
			at := (int(i) * 37) % (len(req) + 1)
			req = append(req[:at], append([]string{"unknown-" + strconv.Itoa(int(i))}, req[at:]...)...)
		}
		res, err := w.svc.Remove(bg, &deckard.RemoveRequest{Queue: qn, Ids: req})
		r = R{"err": errStr(err), "cr": int64(0), "sr": int64(0), "ids": x.runs(o.Q, ids)}
		x.after = func() { x.drop(o.Q, ids) }
		if res != nil {
			r["cr"], r["sr"] = res.CacheRemoved, res.StorageRemoved
		}
	case "count":
		res, err := w.svc.Count(bg, &deckard.CountRequest{Queue: qn}) // all queues for the unnamed one
		r = R{"err": errStr(err), "count": int64(-1)}
		if res != nil {
			r["count"] = res.Count
		}
	case "editq":
		_, err := w.svc.EditQueue(bg, &deckard.EditQueueRequest{Queue: qn, Configuration: &deckard.QueueConfiguration{MaxElements: o.N}})
		r = R{"err": errStr(err)}
	case "timeout":
		r = R{"err": errStr(queue.ProcessTimeoutMessages(bg, w.q))}
	case "unlock":
		queue.ProcessLockPool(bg, w.q)
		r = R{"err": ""}
	case "ttl":
		t := x.at()
		_, err := queue.RemoveTTLMessages(bg, w.q, &t)
		r = R{"err": errStr(err)}
	case "max":
		_, err := queue.RemoveExceedingMessages(bg, w.q)
		r = R{"err": errStr(err)}
	case "recover":
		r = R{"err": "", "m": queue.RecoveryMessagesPool(bg, w.q)}
	case "lists":
		ns, err := w.st.ListQueueNames(bg)
		n, dup := distinct(ns)
		ps, err2 := w.st.ListQueuePrefixes(bg)
		_, d2 := distinct(ps)
		pools := []any{}
		for _, p := range []pool.PoolType{pool.PRIMARY_POOL, pool.PROCESSING_POOL, pool.LOCK_ACK_POOL, pool.LOCK_NACK_POOL} {
			l, e := w.ca.ListQueues(bg, "*", p)
			k, d := distinct(l)
			if e != nil {
				err = e
			}
			dup = dup || d
			pools = append(pools, k)
		}
		if err == nil {
			err = err2
		}
		r = R{"err": errStr(err), "n": n, "dup": dup || d2, "pools": pools}
	case "cacheflush":
		w.ca.Flush(bg)
		x.fly = map[string][]string{}
		r = R{"err": ""}
	case "lose":
		w.LoseCache()
		x.fly = map[string][]string{}
		r = R{"err": ""}
	case "adv":
		x.now += o.D
		w.SetClock(x.at())
		r = R{"err": ""}
	default:
		r = R{"err": "unknown op " + o.Op}
	}
	return r
}

func (x *bulkRun) at() time.Time { return time.UnixMilli(x.t.T0 + x.now*x.t.Scale) }

func (x *bulkRun) drop(q string, ids []string) {
	gone := map[string]bool{}
	ks := map[string]bool{}
	for _, id := range ids {
		gone[id] = true
		ks[q+"/"+grp(id)] = true
	}
	for k := range ks {
		x.alive[k], x.fly[k] = without(x.alive[k], gone), without(x.fly[k], gone)
	}
}

func (x *bulkRun) step(o bulkOp, step string) R {
	x.after = func() {}
	r := x.do(&o, step)
	type key struct{ g, sig, reason string }
	n, seen, dup := map[key]int{}, map[string]bool{}, 0
	returned := map[string]bool{}
	removed := map[string][]string{}
	for _, e := range x.w.aud.Take() {
		q := x.qs(e.Queue)
		n[key{x.batch(q, e.ID), string(e.Signal), e.Reason}]++
		u := string(e.Signal) + "/" + q + "/" + e.ID
		if seen[u] {
			dup++
			continue
		}
		seen[u] = true
		switch {
		case o.Op == "timeout" || o.Op == "unlock" || o.Op == "recover":
			returned[q+"/"+e.ID] = true
			x.part(q, e.ID, step)
		case o.Op == "ttl" || o.Op == "max":
			removed[q] = append(removed[q], e.ID)
		}
	}
	x.after()
	if o.Op == "timeout" && len(returned) > 0 {
		for k, ids := range x.fly {
			out := []string{}
			for _, id := range ids {
				if !returned[k[:strings.IndexByte(k, '/')]+"/"+id] {
					out = append(out, id)
				}
			}
			x.fly[k] = out
		}
	}
	for q, ids := range removed {
		x.drop(q, ids)
	}
	aud := []any{}
	for k, c := range n {
		aud = append(aud, R{"g": k.g, "sig": k.sig, "reason": k.reason, "n": c})
	}
	sortAny(aud)
	op := o.Op
	if r["err"] == "panic" {
		op = "panic"
	}
	return R{"op": op, "q": o.Q, "g": o.G, "n": o.N, "sc": o.Sc, "ttl": o.TTL, "dl": o.Dl, "lock": o.Lock, "d": o.D, "k": step, "lab": []string{}, "r": r, "aud": aud, "adup": dup}
}

func mainBulk(combo, in, out string) error {
	w, err := NewWorld(combo)
	if err != nil {
		return err
	}
	if w.fr != nil {
		w.fr.Page = 200
	}
	fi, err := os.Open(in)
	if err != nil {
		return err
	}
	defer fi.Close()
	fo, err := os.Create(out)
	if err != nil {
		return err
	}
	defer fo.Close()
	bo := bufio.NewWriter(fo)
	defer bo.Flush()
	dec := json.NewDecoder(bufio.NewReader(fi))
	for dec.More() {
		var t bulkTrace
		if err := dec.Decode(&t); err != nil {
			return err
		}
		x := &bulkRun{w: w, t: &t, next: map[string]int{}, alive: map[string][]string{}, fly: map[string][]string{}, label: map[string]string{}, back: map[string]string{}}
		for s, n := range t.Names {
			x.back[n] = s
		}
		w.Fresh()
		w.SetClock(x.at())
		queue.RecoveryMessagesPool(bg, w.q) // nothing to recover in a new deployment
		w.aud.Take()
		ev := []R{}
		for _, raw := range t.Ops {
			var o bulkOp
			if err := json.Unmarshal(raw, &o); err != nil {
				return err
			}
			if o.Op == "drain" {
				for i := 0; i < 60; i++ {
					e := x.step(bulkOp{Op: "pull", Q: o.Q, N: 1000, Dl: o.Dl}, strconv.Itoa(len(ev)))
					ev = append(ev, e)
					if g, ok := e["r"].(R)["got"].([]any); !ok || len(g) == 0 {
						break
					}
				}
				continue
			}
			ev = append(ev, x.step(o, strconv.Itoa(len(ev))))
		}
		if s := w.Unsupported(); s != "" {
			fmt.Fprintln(os.Stderr, "UNSUPPORTED", s)
			os.Exit(3)
		}
		b, err := json.Marshal(R{"id": t.Id, "combo": combo, "lab": t.Lab, "ev": ev})
		if err != nil {
			return err
		}
		_, _ = bo.Write(append(b, '\n'))
	}
	return nil
}
