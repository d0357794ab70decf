package main

// Drives the audit buffer inside a bubble of virtual time: plans of recorded bursts, idle periods,
// a slow or failing audit store and the cancellation, with everything that reaches the store.

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net/http"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/dtime"
)

type AudStep struct {
	Op string `json:"op"` // store, idle, cancel, hold, rel, fail
	C  string `json:"c"`
	N  int    `json:"n"`
	W  bool   `json:"w"` // wait until nothing moves afterwards
	Y  int    `json:"y"` // or let others run that often
}

type AudScen struct {
	ID      int       `json:"id"`
	Clients []string  `json:"clients"`
	Steps   []AudStep `json:"steps"`
}

type Aud struct {
	mu   sync.Mutex
	ev   []R
	t0   time.Time
	hold chan struct{}
	fail int
	want map[string]audit.Entry
}

func (a *Aud) log(e R) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.add(e)
}

func (a *Aud) add(e R) {
	e["ms"] = time.Since(a.t0).Milliseconds()
	a.ev = append(a.ev, e)
}

// entryOf is the i-th event of client c: all kinds of queues, reasons and numbers.
func entryOf(c string, i int) audit.Entry {
	qs := []string{"q" + c, "q" + c + "::x", "q" + c + "::x::y", "q" + c + "::", "é" + c + "::\"\\\n<>&"}
	sg := []audit.Signal{audit.INSERT_CACHE, audit.ACK, audit.NACK, audit.TIMEOUT, audit.UNLOCK, audit.REMOVE, audit.MISSING_STORAGE}
	subs := []float64{0, 1.5, -3, math.MaxFloat64, math.Inf(1), math.NaN(), 5e-324}
	e := audit.Entry{ID: c + "-" + strconv.Itoa(i), Queue: qs[i%len(qs)], Signal: sg[(i/3)%len(sg)], LockMs: int64(i % 4 * 1000), LastScoreSubtract: subs[i%11%len(subs)]}
	if i%3 == 0 {
		e.Reason = "reason \"" + strconv.Itoa(i) + "\" ünïcode"
	}
	if i%5 == 0 {
		e.Breakpoint = "bp" + strconv.Itoa(i)
	}
	return e
}

func same(m map[string]any, c string, i int) bool {
	e := entryOf(c, i)
	pre, suf, _ := strings.Cut(e.Queue, "::")
	str := func(k, v string) bool { x, _ := m[k].(string); return x == v }
	lock, _ := m["lock_ms"].(float64)
	sub, ok := m["last_score_subtract"].(float64)
	if math.IsNaN(e.LastScoreSubtract) || math.IsInf(e.LastScoreSubtract, 0) {
		ok, sub = true, e.LastScoreSubtract
	} else {
		ok = ok && sub == e.LastScoreSubtract
	}
	_, terr := time.Parse(time.RFC3339Nano, fmt.Sprint(m["timestamp"]))
	return str("queue", e.Queue) && str("queue_prefix", pre) && str("queue_suffix", suf) && str("signal", string(e.Signal)) && str("reason", e.Reason) &&
		str("breakpoint", e.Breakpoint) && lock == float64(e.LockMs) && ok && terr == nil
}

func (a *Aud) RoundTrip(rq *http.Request) (*http.Response, error) {
	body := `{"errors":false,"items":[]}`
	code := 200
	if rq.Body != nil && strings.Contains(rq.URL.Path, "_bulk") {
		b, _ := io.ReadAll(rq.Body)
		bad, n := 0, 0
		runs := [][]any{}
		if len(b) == 0 || b[len(b)-1] != '\n' {
			bad++
		}
		lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		for i := 0; i+1 < len(lines) || i < len(lines) && i%2 == 0; i += 2 {
			var act map[string]map[string]any
			if json.Unmarshal([]byte(lines[i]), &act) != nil || act["index"] == nil || act["index"]["_index"] != "deckard" || i+1 >= len(lines) {
				bad++
				continue
			}
			var m map[string]any
			if json.Unmarshal([]byte(lines[i+1]), &m) != nil {
				bad++
				continue
			}
			c, num, _ := strings.Cut(fmt.Sprint(m["id"]), "-")
			k, err := strconv.Atoi(num)
			if err != nil || !same(m, c, k) {
				bad++
			}
			n++
			if l := len(runs); l > 0 && runs[l-1][0] == c && runs[l-1][2] == k-1 {
				runs[l-1][2] = k
			} else {
				runs = append(runs, []any{c, k, k})
			}
		}
		a.mu.Lock()
		h := a.hold
		if a.fail > 0 {
			a.fail--
			code = 400
		}
		a.add(R{"k": "bulk", "n": n, "bad": bad, "runs": runs})
		a.mu.Unlock()
		if h != nil {
			<-h
		}
		a.log(R{"k": "bulkend"})
	}
	return &http.Response{StatusCode: code, Header: http.Header{"X-Elastic-Product": {"Elasticsearch"}, "Content-Type": {"application/json"}},
		Body: io.NopCloser(strings.NewReader(body)), Request: rq, ProtoMajor: 1, ProtoMinor: 1}, nil
}

func (a *Aud) run(s *AudScen) {
	a.t0 = time.Now()
	dtime.SetNowProvider(time.Now)
	http.DefaultTransport = a
	wg := &sync.WaitGroup{}
	aud, err := audit.NewAuditor(wg)
	if err != nil {
		panic(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	guard := func() {
		if x := recover(); x != nil {
			a.log(R{"k": "panic", "msg": fmt.Sprint(x)})
		}
	}
	go func() { defer guard(); aud.StartSender(ctx) }()
	synctest.Wait()
	cmds := map[string]chan int{}
	var cl sync.WaitGroup
	for _, c := range s.Clients {
		cmds[c] = make(chan int, len(s.Steps))
		cl.Add(1)
		go func() {
			defer cl.Done()
			defer guard()
			i := 0
			for n := range cmds[c] {
				a.log(R{"k": "b", "c": c, "n": n})
				for j := 0; j < n; j++ {
					i++
					aud.Store(ctx, entryOf(c, i))
				}
				a.log(R{"k": "e", "c": c, "n": n})
			}
		}()
	}
	release := func() {
		a.mu.Lock()
		if a.hold != nil {
			close(a.hold)
			a.hold = nil
		}
		a.mu.Unlock()
	}
	cancelled := false
	fin := make(chan struct{})
	stop := func() {
		if !cancelled {
			cancelled = true
			a.log(R{"k": "cancel"})
			cancel()
			go func() { wg.Wait(); a.log(R{"k": "done"}); close(fin) }()
		}
	}
	for _, st := range s.Steps {
		switch st.Op {
		case "store":
			cmds[st.C] <- st.N
		case "idle":
			time.Sleep(5*time.Minute + time.Second)
		case "sleep":
			time.Sleep(time.Duration(st.N) * time.Millisecond)
		case "hold":
			a.mu.Lock()
			if a.hold == nil {
				a.hold = make(chan struct{})
			}
			a.mu.Unlock()
		case "fail":
			a.mu.Lock()
			a.fail = st.N
			a.mu.Unlock()
		case "rel":
			release()
		case "cancel":
			stop()
		}
		a.mu.Lock()
		held := a.hold != nil
		a.mu.Unlock()
		if st.W && !(cancelled && held) { // blocked on a lock is not quiet for the bubble
			synctest.Wait()
			a.log(R{"k": "quiet"})
		} else {
			for i := 0; i < st.Y; i++ {
				runtime.Gosched()
			}
		}
	}
	for _, c := range s.Clients {
		close(cmds[c])
	}
	release()
	stop()
	cl.Wait()
	<-fin
	synctest.Wait()
	a.log(R{"k": "end"})
}

// mainAudit does not return: virtual time is only available to tests.
func mainAudit(in, out string) error {
	testing.Init()
	os.Args = os.Args[:1]
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "audit", F: func(t *testing.T) {
		if err := auditScens(t, in, out); err != nil {
			t.Fatal(err)
		}
	}}}, nil, nil)
	return nil
}

func auditScens(t *testing.T, in, out string) error {
	os.Unsetenv("DECKARD_AUDIT_ENABLED")
	config.Configure(true)
	config.AuditEnabled.Set(true)
	config.ElasticAddress.Set("http://audit.invalid:9200")
	fi, err := os.Open(in)
	if err != nil {
		return err
	}
	defer fi.Close()
	fo, err := os.Create(out)
	if err != nil {
		return err
	}
	defer fo.Close()
	enc := json.NewEncoder(fo)
	sc := bufio.NewScanner(fi)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var s AudScen
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			return err
		}
		a := &Aud{}
		dog := time.AfterFunc(30*time.Second, func() { fmt.Fprintln(os.Stderr, "STUCK"); os.Exit(3) })
		synctest.Test(t, func(*testing.T) { a.run(&s) })
		dog.Stop()
		if err := enc.Encode(R{"id": s.ID, "c": s.Clients, "ev": a.ev}); err != nil {
			return err
		}
	}
	return nil
}
