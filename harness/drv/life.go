package main

// Runs the real server binary against the in-process stand-ins of its backends, with scripted
// stimuli (held and failing backend calls, requests, signals), and records what can be observed from
// outside: the commands of each housekeeper task, responses, audit bulks, trace flush and exit.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

type LifeStep struct {
	Op string `json:"op"`
	P  string `json:"p"` // command pattern "task:kind", "task" or a task name
	N  int    `json:"n"`
	K  string `json:"k"`
}

type LifeScen struct {
	ID    int               `json:"id"`
	Combo string            `json:"combo"` // "mongo" or "memory" backends
	Env   map[string]string `json:"env"`
	Setup map[string]int    `json:"setup"`
	Steps []LifeStep        `json:"steps"`
}

type lifeHold struct {
	pat     string
	fail    int
	failing bool
	held    chan struct{} // closed when the command has arrived
	rel     chan struct{}
	arrived bool
	gone    bool
}

type Life struct {
	w      *World
	bin    string
	mu     sync.Mutex
	ev     []R
	holds  []*lifeHold
	runs   map[string]int
	cond   *sync.Cond
	t0     time.Time
	es     *http.Server
	esAddr string
	trAddr string
	reqs   sync.WaitGroup
	port   int
	dead   chan struct{}
	closed bool
}

func (l *Life) log(e R) {
	l.mu.Lock()
	l.logLocked(e)
	l.mu.Unlock()
}

func (l *Life) logLocked(e R) {
	if l.closed {
		return
	}
	e["ms"] = time.Since(l.t0).Milliseconds()
	l.ev = append(l.ev, e)
	l.cond.Broadcast()
}

// at is called for every classified backend command before it is executed.
func (l *Life) at(t, kind, q string, first bool) string {
	l.mu.Lock()
	var h *lifeHold
	for _, x := range l.holds {
		if !x.gone && (x.pat == t || x.pat == t+":"+kind) {
			h = x
			break
		}
	}
	e := R{"k": "cmd", "t": t, "kind": kind, "q": q, "first": first, "held": false, "fail": false}
	if first {
		l.runs[t]++
	}
	if h != nil && h.fail > 0 {
		h.fail--
		if h.fail == 0 {
			h.gone = true
		}
		e["fail"] = true
		l.logLocked(e)
		l.mu.Unlock()
		return "ERR injected failure"
	}
	if h != nil && !h.arrived {
		h.arrived, h.gone = true, true
		e["held"] = true
		l.logLocked(e)
		close(h.held)
		l.mu.Unlock()
		<-h.rel
		l.log(R{"k": "rel", "t": t})
		return ""
	}
	l.logLocked(e)
	l.mu.Unlock()
	return ""
}

func qname(s string) string {
	i := strings.Index(s, "queue:")
	if i < 0 {
		return ""
	}
	s = strings.TrimPrefix(s[i+6:], "{")
	for j, c := range s {
		if c == ':' || c == '}' {
			return s[:j]
		}
	}
	return s
}

func (l *Life) redisCmd(a []string) string {
	name := strings.ToUpper(a[0])
	has := func(sub string) bool {
		for _, x := range a[1:] {
			if strings.Contains(x, sub) {
				return true
			}
		}
		return false
	}
	q := ""
	for _, x := range a[1:] {
		if q = qname(x); q != "" {
			break
		}
	}
	key := ""
	if len(a) > 1 {
		key = strings.Trim(a[1][strings.LastIndex(a[1], ":")+1:], "{}")
	}
	switch {
	case name == "GET" && key == cache.RECOVERY_STORAGE_BREAKPOINT_KEY:
		return l.at("recovery", "get", "", true)
	case name == "GET" && key == cache.RECOVERY_BREAKPOINT_KEY:
		return l.at("recovery", "getbp", "", false)
	case name == "SET" && key == cache.RECOVERY_RUNNING:
		return l.at("recovery", "run", "", false)
	case name == "SET" && (key == cache.RECOVERY_STORAGE_BREAKPOINT_KEY || key == cache.RECOVERY_BREAKPOINT_KEY):
		return l.at("recovery", "set", "", false)
	case name == "SCAN" && has("lock_ack"):
		return l.at("unlock", "scan", "", a[1] == "0")
	case name == "SCAN" && has("lock_nack"):
		return l.at("unlock", "scan2", "", false)
	case name == "SCAN" && (has(":tmp") || has("tmp")):
		return l.at("timeout", "scan", "", a[1] == "0")
	case strings.HasPrefix(name, "EVAL") || strings.HasPrefix(name, "Z"):
		switch {
		case strings.HasPrefix(q, "qu"):
			return l.at("unlock", "script", q, false)
		case strings.HasPrefix(q, "qo"):
			return l.at("timeout", "script", q, false)
		case strings.HasPrefix(q, "qv"):
			return l.at("recovery", "script", q, false)
		case strings.HasPrefix(q, "qr"):
			return l.at("req", "cache", q, false)
		}
	}
	return ""
}

func (l *Life) mongoCmd(name string, d mdoc) string {
	coll, _ := d[name].(string)
	f, _ := d["filter"].(mdoc)
	if f == nil {
		f, _ = d["query"].(mdoc)
	}
	if name == "aggregate" {
		if p, ok := d["pipeline"].([]any); ok && len(p) > 0 {
			if m, ok := p[0].(mdoc); ok {
				f, _ = m["$match"].(mdoc)
			}
		}
	}
	if name == "delete" {
		if p, ok := d["deletes"].([]any); ok && len(p) > 0 {
			if m, ok := p[0].(mdoc); ok {
				f, _ = m["q"].(mdoc)
			}
		}
	}
	if name == "update" {
		if p, ok := d["updates"].([]any); ok && len(p) > 0 {
			if m, ok := p[0].(mdoc); ok {
				f, _ = m["q"].(mdoc)
			}
		}
	}
	q, _ := f["queue"].(string)
	_, hasExp := f["expiry_date"]
	_, hasPre := f["queue_prefix"]
	srt, _ := d["sort"].(mdoc)
	_, idSort := srt["_id"]
	switch {
	case strings.HasSuffix(coll, "configuration"):
		if name == "find" && f["_id"] == nil {
			return l.at("max", "find", "", true)
		}
	case name == "distinct":
		return l.at("metrics", "distinct", "", true)
	case name == "find" && hasExp && q == "":
		return l.at("ttl", "find", "", true)
	case name == "find" && idSort:
		if n, _ := num(srt["_id"]); n < 0 {
			return l.at("recovery", "last", "", false)
		}
		return l.at("recovery", "page", "", false)
	case strings.HasPrefix(q, "qt") && name == "delete":
		return l.at("ttl", "delete", q, false)
	case strings.HasPrefix(q, "qm") && (name == "delete" || name == "aggregate" || name == "find"):
		return l.at("max", map[string]string{"delete": "delete", "aggregate": "count", "find": "ids"}[name], q, false)
	case strings.HasPrefix(q, "qr"):
		return l.at("req", "storage", q, false)
	case hasPre && q == "" && (name == "find" || name == "aggregate"):
		return l.at("metrics", map[string]string{"aggregate": "count", "find": "oldest"}[name], fmt.Sprint(f["queue_prefix"]), false)
	}
	return ""
}

// ---------------------------------------------------------------- audit and trace endpoints

func (l *Life) serveES(rw http.ResponseWriter, rq *http.Request) {
	rw.Header().Set("X-Elastic-Product", "Elasticsearch")
	rw.Header().Set("Content-Type", "application/json")
	b, _ := io.ReadAll(rq.Body)
	if strings.Contains(rq.URL.Path, "_bulk") {
		ids := []any{}
		sc := bufio.NewScanner(bytes.NewReader(b))
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		bad := 0
		for i := 0; sc.Scan(); i++ {
			if i%2 == 0 {
				if !strings.Contains(sc.Text(), "\"index\"") {
					bad++
				}
				continue
			}
			var e map[string]any
			if json.Unmarshal(sc.Bytes(), &e) != nil {
				bad++
				continue
			}
			ids = append(ids, R{"id": e["id"], "queue": e["queue"], "pre": e["queue_prefix"], "suf": e["queue_suffix"], "sig": e["signal"], "reason": e["reason"]})
		}
		l.mu.Lock()
		var h *lifeHold
		fail := false
		for _, x := range l.holds {
			if x.pat == "audit" && !x.gone {
				h = x
				if x.fail > 0 {
					x.fail--
					x.gone = x.fail == 0
					fail, h = true, nil
				} else {
					x.arrived, x.gone = true, true
					close(x.held)
				}
				break
			}
		}
		l.logLocked(R{"k": "bulk", "es": ids, "n": len(ids), "bad": bad, "held": h != nil, "fail": fail})
		l.mu.Unlock()
		if h != nil {
			<-h.rel
			l.log(R{"k": "rel", "t": "audit"})
		}
		if fail {
			rw.WriteHeader(400)
		}
	}
	_, _ = rw.Write([]byte(`{"errors":false,"items":[]}`))
}

func (l *Life) serveTrace(ln net.Listener) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		go func() {
			defer c.Close()
			b := make([]byte, 64)
			if n, _ := c.Read(b); n == 0 {
				return
			}
			l.mu.Lock()
			var h *lifeHold
			for _, x := range l.holds {
				if x.pat == "trace" && !x.gone {
					h = x
					x.arrived, x.gone = true, true
					close(x.held)
					break
				}
			}
			l.logLocked(R{"k": "trace", "held": h != nil})
			l.mu.Unlock()
			if h != nil {
				<-h.rel
				l.log(R{"k": "rel", "t": "trace"})
			}
			_, _ = c.Write([]byte("ok\n"))
		}()
	}
}

// ---------------------------------------------------------------- setup

func (l *Life) setup(s *LifeScen) error {
	w := l.w
	w.Fresh()
	dtime.SetNowProvider(time.Now)
	mk := func(st storage.Storage, ca cache.Cache) *queue.Queue {
		return queue.NewQueue(w.aud, st, queue.NewQueueConfigurationService(bg, st), ca)
	}
	memSt, memCa := storage.NewMemoryStorage(bg), cache.NewMemoryCache()
	add := func(q *queue.Queue, name string, n int, exp time.Time) error {
		for i := 0; i < n; i++ {
			m := &message.Message{ID: fmt.Sprintf("%s-%d", name, i), Queue: name, ExpiryDate: exp, Score: float64(i + 1)}
			now := time.Now()
			m.LastUsage = &now
			if _, _, err := q.AddMessagesToStorage(bg, m); err != nil {
				return err
			}
			if _, err := q.AddMessagesToCache(bg, m); err != nil {
				return err
			}
		}
		return nil
	}
	far := time.Now().Add(time.Hour)
	for i := 0; i < s.Setup["qu"]; i++ {
		name := fmt.Sprintf("qu%d", i)
		q := mk(memSt, w.redisCache)
		if err := add(q, name, 1, far); err != nil {
			return err
		}
		ms, err := q.Pull(bg, name, 1, nil, nil, 0)
		if err != nil || ms == nil || len(*ms) != 1 {
			return fmt.Errorf("setup pull %v", err)
		}
		m := (*ms)[0]
		m.LockMs = 3600000
		if i%2 == 0 {
			_, err = q.Nack(bg, &m, time.Now(), "x")
		} else {
			_, err = q.Ack(bg, &m, "x")
		}
		if err != nil {
			return err
		}
	}
	for i := 0; i < s.Setup["qo"]; i++ {
		name := fmt.Sprintf("qo%d", i)
		q := mk(memSt, w.redisCache)
		if err := add(q, name, 1, far); err != nil {
			return err
		}
		if _, err := q.Pull(bg, name, 1, nil, nil, 3600000); err != nil {
			return err
		}
	}
	for i := 0; i < s.Setup["qt"]; i++ {
		if err := add(mk(w.st, w.redisCache), fmt.Sprintf("qt%d", i), 1, time.Now().Add(-time.Hour)); err != nil {
			return err
		}
	}
	for i := 0; i < s.Setup["qm"]; i++ {
		name := fmt.Sprintf("qm%d", i)
		if err := add(mk(w.st, w.redisCache), name, 3, far); err != nil {
			return err
		}
		if err := w.st.EditQueueConfiguration(bg, &configuration.QueueConfiguration{Queue: name, MaxElements: 1}); err != nil {
			return err
		}
	}
	if n := s.Setup["qv"]; n > 0 {
		if err := add(mk(w.st, memCa), "qv0", n, far); err != nil {
			return err
		}
	}
	if s.Setup["rec"] == 0 {
		if err := w.redisCache.Set(bg, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED); err != nil {
			return err
		}
	}
	return nil
}

// ---------------------------------------------------------------- run

var lifeBase int

// Ports are kept for this driver as long as it runs (by the name of a socket): several drivers may run at a time.
var heldPorts = map[int]net.Listener{}

func freePort() int {
	for i := 0; i < 2000; i++ {
		p := 12000 + (lifeBase+i)%18000
		if heldPorts[p] == nil {
			h, err := net.Listen("unix", "@deckard-verif-"+strconv.Itoa(p))
			if err != nil {
				continue
			}
			heldPorts[p] = h
		}
		ln, err := net.Listen("tcp", ":"+strconv.Itoa(p))
		if err == nil {
			ln.Close()
			lifeBase = p - 12000 + 1
			return p
		}
	}
	return 0
}

func (l *Life) dial() (*grpc.ClientConn, deckard.DeckardClient) {
	c, err := grpc.NewClient(fmt.Sprintf("passthrough:///127.0.0.1:%d", l.port), grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	return c, deckard.NewDeckardClient(c)
}

func (l *Life) waitRuns(t string, n int, d time.Duration) bool {
	end := time.Now().Add(d)
	go func() { time.Sleep(d + 10*time.Millisecond); l.cond.Broadcast() }()
	l.mu.Lock()
	defer l.mu.Unlock()
	for l.runs[t] < n {
		if time.Now().After(end) {
			return false
		}
		select {
		case <-l.dead:
			return false
		default:
		}
		l.cond.Wait()
	}
	return true
}

const lifeWait = 20 * time.Second

func (l *Life) hold(p string) *lifeHold {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, h := range l.holds {
		if h.pat == p && !h.failing {
			return h
		}
	}
	return nil
}

func (l *Life) request(i int, st LifeStep) {
	conn, cl := l.dial()
	defer conn.Close()
	ctx, cancel := context.WithTimeout(bg, 60*time.Second)
	defer cancel()
	q := "qr" + st.P
	ids := []string{}
	var err error
	n := max(st.N, 1)
	l.log(R{"k": "reqb", "i": i, "op": st.K, "n": n})
	ok := true
	switch st.K {
	case "add":
		req := &deckard.AddRequest{}
		for j := 0; j < n; j++ {
			id := fmt.Sprintf("%d-%d", i, j)
			ids = append(ids, id)
			req.Messages = append(req.Messages, &deckard.AddMessage{Id: id, Queue: q, Timeless: true})
		}
		var r *deckard.AddResponse
		r, err = cl.Add(ctx, req)
		ok = err == nil && r.CreatedCount == int64(n)
	case "pull":
		var r *deckard.PullResponse
		r, err = cl.Pull(ctx, &deckard.PullRequest{Queue: q, Amount: int32(n)})
		if err == nil {
			for _, m := range r.Messages {
				ids = append(ids, m.Id)
			}
		}
	case "remove":
		_, err = cl.Remove(ctx, &deckard.RemoveRequest{Queue: q, Ids: strings.Split(st.P2(), ",")})
	case "count":
		_, err = cl.Count(ctx, &deckard.CountRequest{Queue: q})
	}
	msg := ""
	if err != nil {
		msg = err.Error()
		if len(msg) > 120 {
			msg = msg[:120]
		}
	}
	l.log(R{"k": "reqe", "i": i, "ok": ok && err == nil, "ids": ids, "q": q, "op": st.K, "err": msg})
}

func (LifeStep) P2() string { return "nothing" }

// probe opens a new connection and calls the server once.
func (l *Life) probe() bool {
	conn, cl := l.dial()
	defer conn.Close()
	ctx, cancel := context.WithTimeout(bg, 5*time.Second)
	defer cancel()
	_, err := cl.GetQueue(ctx, &deckard.GetQueueRequest{Queue: "qx"})
	return err == nil
}

func (l *Life) run(s *LifeScen) (R, error) {
	l.mu.Lock()
	l.ev, l.holds, l.runs, l.closed = []R{}, nil, map[string]int{}, false
	l.mu.Unlock()
	if err := l.setup(s); err != nil {
		return nil, fmt.Errorf("setup: %w", err)
	}
	l.w.fr.SetHooks(l.redisCmd, nil)
	l.w.fm.SetHooks(l.mongoCmd, nil)
	defer l.w.fr.SetHooks(nil, nil)
	defer l.w.fm.SetHooks(nil, nil)

	var cmd *exec.Cmd
	var errb bytes.Buffer
	l.dead = make(chan struct{})
	var started bool
	nreq := 0
	code := -1
	fail := ""
	launch := func() error {
		l.port = freePort()
		env := []string{"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent",
			"DECKARD_GRPC_PORT=" + strconv.Itoa(l.port), "DECKARD_METRICS_ENABLED=false",
			"VERIF_TRACE_ADDR=" + l.trAddr, "OTEL_EXPORTER_OTLP_ENDPOINT=http://127.0.0.1:1"}
		kv := map[string]string{"DECKARD_AUDIT_ENABLED": "true", "DECKARD_ELASTIC_ADDRESS": l.esAddr}
		if s.Combo != "memory" {
			kv["DECKARD_CACHE_TYPE"], kv["DECKARD_CACHE_URI"] = "REDIS", l.w.fr.URI()+"/0?read_timeout=120s"
			kv["DECKARD_STORAGE_TYPE"], kv["DECKARD_STORAGE_URI"] = "MONGODB", l.w.fm.URI()
		}
		for k, v := range s.Env {
			kv[k] = v
		}
		for k, v := range kv {
			env = append(env, k+"="+v)
		}
		cmd = exec.Command(l.bin)
		cmd.Env = env
		cmd.Stderr, cmd.Stdout = &errb, &errb
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		l.mu.Lock()
		l.t0 = time.Now()
		l.mu.Unlock()
		l.log(R{"k": "spawn"})
		if err := cmd.Start(); err != nil {
			return err
		}
		started = true
		go func(c *exec.Cmd, d chan struct{}) {
			_ = c.Wait()
			l.mu.Lock()
			code = c.ProcessState.ExitCode()
			l.logLocked(R{"k": "exit", "code": code})
			l.mu.Unlock()
			close(d)
			l.cond.Broadcast()
		}(cmd, l.dead)
		return nil
	}
	defer func() {
		l.mu.Lock()
		l.closed = true
		for _, h := range l.holds {
			select {
			case <-h.rel:
			default:
				close(h.rel)
			}
		}
		l.mu.Unlock()
		if started {
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-l.dead
		}
		l.reqs.Wait()
	}()
	isDead := func() bool {
		select {
		case <-l.dead:
			return true
		default:
			return false
		}
	}
steps:
	for _, st := range s.Steps {
		switch st.Op {
		case "hold", "fail":
			h := &lifeHold{pat: st.P, held: make(chan struct{}), rel: make(chan struct{})}
			if st.Op == "fail" {
				h.fail, h.failing = max(st.N, 1), true
			}
			l.mu.Lock()
			l.holds = append(l.holds, h)
			l.mu.Unlock()
		case "start":
			if err := launch(); err != nil {
				return nil, err
			}
		case "ready":
			end := time.Now().Add(lifeWait)
			for !l.probe() {
				if isDead() || time.Now().After(end) {
					fail = "not ready: " + tail(errb.String(), 600)
					break steps
				}
				time.Sleep(5 * time.Millisecond)
			}
			l.log(R{"k": "ready"})
		case "accepting": // no later than it can accept connections
			for end := time.Now().Add(lifeWait); ; {
				c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", l.port), time.Second)
				if err == nil {
					c.Close()
					break
				}
				if isDead() || time.Now().After(end) {
					fail = "not accepting: " + tail(errb.String(), 600)
					break steps
				}
			}
			l.log(R{"k": "ready"})
		case "await":
			h := l.hold(st.P)
			select {
			case <-h.held:
			case <-l.dead:
				break steps
			case <-time.After(lifeWait):
				l.log(R{"k": "missing", "p": st.P})
				break steps
			}
		case "rel":
			h := l.hold(st.P)
			l.mu.Lock()
			h.gone = true
			select {
			case <-h.rel:
			default:
				close(h.rel)
			}
			l.mu.Unlock()
		case "sleep":
			select {
			case <-time.After(time.Duration(st.N) * time.Millisecond):
			case <-l.dead:
			}
		case "req":
			nreq++
			l.reqs.Add(1)
			go func(i int) { defer l.reqs.Done(); l.request(i, st) }(nreq)
		case "reqs": // sequentially
			nreq++
			l.request(nreq, st)
		case "sig":
			sg := syscall.SIGTERM
			switch st.K {
			case "int":
				sg = syscall.SIGINT
			case "quit":
				sg = syscall.SIGQUIT
			}
			l.log(R{"k": "sig"})
			_ = cmd.Process.Signal(sg)
		case "refused": // wait until new requests are refused
			end := time.Now().Add(lifeWait)
			for l.probe() {
				if time.Now().After(end) {
					l.log(R{"k": "accepts"})
					break steps
				}
				time.Sleep(2 * time.Millisecond)
			}
			l.log(R{"k": "refuse"})
		case "probe":
			l.log(R{"k": map[bool]string{true: "accept", false: "refuse"}[l.probe()]})
		case "runs":
			l.mu.Lock()
			n := l.runs[st.P] + st.N
			l.mu.Unlock()
			if !l.waitRuns(st.P, n, lifeWait+time.Duration(st.N)*time.Second) {
				l.log(R{"k": "stalled", "t": st.P})
				break steps
			}
			l.log(R{"k": "mark", "t": st.P})
		case "exit":
			select {
			case <-l.dead:
			case <-time.After(lifeWait):
				l.log(R{"k": "noexit"})
				break steps
			}
		case "reqwait":
			l.reqs.Wait()
		case "redisdown":
			l.w.fr.SetHooks(func(a []string) string { return "ERR down" }, nil)
		}
		if isDead() && st.Op != "exit" && st.Op != "rel" && st.Op != "sleep" && st.Op != "reqwait" {
			break steps
		}
	}
	if isDead() {
		l.reqs.Wait()
	}
	l.mu.Lock()
	l.closed = true
	ev := append([]R{}, l.ev...)
	l.mu.Unlock()
	fin := R{"bp": "", "run": "", "qv": 0, "qr": 0}
	l.w.fr.SetHooks(nil, nil)
	l.w.fm.SetHooks(nil, nil)
	if v, err := l.w.redisCache.Get(bg, cache.RECOVERY_STORAGE_BREAKPOINT_KEY); err == nil {
		fin["bp"] = v
	}
	if v, err := l.w.redisCache.Get(bg, cache.RECOVERY_RUNNING); err == nil {
		fin["run"] = v
	}
	out := R{"id": s.ID, "ev": ev, "fin": fin, "fail": fail, "err": ""}
	if code > 0 {
		out["err"] = tail(errb.String(), 400)
	}
	return out, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func mainLife(bin, in, out string, base int) error {
	lifeBase = base
	w, err := NewWorld("redis/mongo")
	if err != nil {
		return err
	}
	l := &Life{w: w, bin: bin}
	l.cond = sync.NewCond(&l.mu)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	l.esAddr = "http://" + ln.Addr().String()
	go func() { _ = http.Serve(ln, http.HandlerFunc(l.serveES)) }()
	tl, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	l.trAddr = tl.Addr().String()
	go l.serveTrace(tl)
	fi, err := os.Open(in)
	if err != nil {
		return err
	}
	defer fi.Close()
	fo, err := os.Create(out)
	if err != nil {
		return err
	}
	defer fo.Close()
	bw := bufio.NewWriter(fo)
	enc := json.NewEncoder(bw)
	sc := bufio.NewScanner(fi)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var s LifeScen
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			return err
		}
		r, err := l.run(&s)
		if err != nil {
			return err
		}
		if err := enc.Encode(r); err != nil {
			return err
		}
	}
	return bw.Flush()
}
