package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/takenet/deckard"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	grpchealth "google.golang.org/grpc/health/grpc_health_v1"
)

// Starts of the server process with backends that answer only after some attempts (Boot.tla).

type bootV struct {
	St      string `json:"st"`
	Stu     string `json:"stu"`
	Ca      string `json:"ca"`
	Cau     string `json:"cau"`
	Cluster bool   `json:"cluster"`
	Sen     bool   `json:"sen"`
	San     int    `json:"san"`
	Cen     bool   `json:"cen"`
	Can     int    `json:"can"`
	Grpc    bool   `json:"grpc"`
	Tls     string `json:"tls"`
	Sdel    int    `json:"sdel"`
	Cdel    int    `json:"cdel"`
	Names   bool   `json:"names"`
	Pfx     string `json:"pfx"`
}
type bootScen struct {
	Id     string   `json:"id"`
	V      bootV    `json:"v"`
	Script [][2]any `json:"script"`
}

type booter struct {
	bin     string
	p       *pki
	fr, frc *FakeRedis
	fm      *FakeMongo
	mu      sync.Mutex
	ev      []R
	last    time.Time
	answers map[string][]bool
	used    atomic.Int32    // commands other than PING
	where   map[string]bool // collections written to
}

func newBooter(bin string, p *pki) (*booter, error) {
	b := &booter{bin: bin, p: p}
	var err error
	if b.fr, err = NewFakeRedis(0); err != nil {
		return nil, err
	}
	if b.frc, err = NewFakeRedis(3); err != nil {
		return nil, err
	}
	if b.fm, err = NewFakeMongo(); err != nil {
		return nil, err
	}
	b.fr.Ping, b.frc.Ping = func() bool { return b.ping("redis") }, func() bool { return b.ping("redis") }
	b.fm.Ping = func() bool { return b.ping("mongo") }
	use := func([]string) string { b.used.Add(1); return "" }
	b.fr.SetHooks(use, nil)
	b.frc.SetHooks(use, nil)
	b.fm.SetHooks(func(cmd string, d mdoc) string {
		b.used.Add(1)
		switch cmd {
		case "insert", "update", "find", "delete", "aggregate", "count", "distinct":
			b.mu.Lock()
			b.where[fmt.Sprint(d["$db"], ".", d[cmd])] = true
			b.mu.Unlock()
		}
		return ""
	}, nil)
	return b, nil
}

// ping answers the next attempt to connect; attempts beyond the script are answered.
func (b *booter) ping(who string) bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	now := time.Now()
	ok := true
	if a := b.answers[who]; len(a) > 0 {
		ok, b.answers[who] = a[0], a[1:]
	}
	b.ev = append(b.ev, R{"k": "ping", "b": who, "ok": ok, "gap": now.Sub(b.last).Milliseconds()})
	b.last = now
	return ok
}

func (b *booter) docs() int {
	n := 0
	for _, c := range b.fm.Clone() {
		n += len(c.docs)
	}
	return n
}

func (b *booter) run(s *bootScen) (R, error) {
	v := s.V
	b.fr.Reset()
	b.frc.Reset()
	b.fm.Reset()
	b.mu.Lock()
	b.where = map[string]bool{}
	b.ev, b.answers, b.last = nil, map[string][]bool{}, time.Now()
	for _, a := range s.Script {
		w := a[0].(string)
		b.answers[w] = append(b.answers[w], a[1].(bool))
	}
	b.mu.Unlock()
	b.used.Store(0)
	lifeMu.Lock()
	port := freePort()
	lifeMu.Unlock()
	env := []string{"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent", "DECKARD_METRICS_ENABLED=false", "OTEL_EXPORTER_OTLP_ENDPOINT=http://127.0.0.1:1"}
	set := func(k string, x any) { env = append(env, envName(k)+"="+fmt.Sprint(x)) }
	set("grpc.port", port)
	set("grpc.enabled", v.Grpc)
	set("storage.type", v.St)
	set("cache.type", v.Ca)
	set("redis.cluster.mode", v.Cluster)
	set("storage.connection.retry.enabled", v.Sen)
	set("storage.connection.retry.attempts", v.San)
	set("storage.connection.retry.delay", fmt.Sprintf("%dms", v.Sdel))
	set("cache.connection.retry.enabled", v.Cen)
	set("cache.connection.retry.attempts", v.Can)
	set("cache.connection.retry.delay", fmt.Sprintf("%dms", v.Cdel))
	if v.Names {
		set("mongo.database", "db2")
		set("mongo.collection", "messages2")
		set("mongo.queue_configuration_collection", "settings2")
	}
	if v.Pfx != "" {
		set("cache.prefix", v.Pfx)
	}
	fr := b.fr
	if v.Cluster {
		fr = b.frc
	}
	switch v.Stu {
	case "ok":
		set("storage.uri", b.fm.URI())
	case "bad":
		set("storage.uri", "mongo//nowhere")
	}
	switch v.Cau {
	case "ok":
		set("cache.uri", fr.URI())
	case "bad":
		set("cache.uri", "http://127.0.0.1:1/x")
	}
	switch v.Tls {
	case "ok":
		set("tls.server.cert_file_paths", b.p.paths([]string{"s1"}, "crt"))
		set("tls.server.key_file_paths", b.p.paths([]string{"s1"}, "key"))
	case "broken":
		set("tls.server.cert_file_paths", b.p.paths([]string{"s1"}, "crt"))
		set("tls.server.key_file_paths", b.p.paths([]string{"s2"}, "key"))
	}
	cmd := exec.Command(b.bin)
	cmd.Env = env
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	dead := make(chan struct{})
	code := -1
	go func() { _ = cmd.Wait(); code = cmd.ProcessState.ExitCode(); close(dead) }()
	defer func() {
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-dead
	}()
	cr := insecure.NewCredentials()
	x := &connRun{p: b.p}
	if v.Tls == "ok" {
		cr = x.creds(connClient{Tls: true, Sni: "s1", Cert: "none"})
	}
	cc, err := grpc.NewClient(fmt.Sprintf("passthrough:///127.0.0.1:%d", port), grpc.WithTransportCredentials(cr))
	if err != nil {
		return nil, err
	}
	defer cc.Close()
	end := R{"k": "end", "up": false, "asked": false, "mongo": false, "redis": false, "code": -1, "cols": []string{}, "pfx": ""}
	t0 := time.Now()
	exited := false
	for time.Since(t0) < 25*time.Second && !exited && end["up"] == false {
		select {
		case <-dead:
			exited = true
			continue
		case <-time.After(15 * time.Millisecond):
		}
		if !v.Grpc { // tells by its housekeeping, or by running on
			if b.used.Load() > 0 && time.Since(t0) > 500*time.Millisecond || v.St == "MEMORY" && v.Ca == "MEMORY" && time.Since(t0) > 1500*time.Millisecond {
				end["up"] = true
			}
			continue
		}
		ctx, cancel := context.WithTimeout(bg, 2*time.Second)
		h, err := grpchealth.NewHealthClient(cc).Check(ctx, &grpchealth.HealthCheckRequest{})
		cancel()
		if err == nil && h.Status == grpchealth.HealthCheckResponse_SERVING {
			end["up"] = true
		} else {
			cc.ResetConnectBackoff()
		}
	}
	if end["up"] == true && v.Grpc {
		ctx, cancel := context.WithTimeout(bg, 10*time.Second)
		_, err := deckard.NewDeckardClient(cc).Add(ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "1", Queue: "q", Timeless: true, Score: 1}}})
		if err == nil {
			_, err = deckard.NewDeckardClient(cc).EditQueue(ctx, &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: 5}})
		}
		cancel()
		if err == nil {
			end["asked"] = true
			end["mongo"] = b.docs() > 0
			end["redis"] = len(b.fr.Keys()) > 0 || len(b.frc.Keys()) > 0
			for _, k := range append(b.fr.Keys(), b.frc.Keys()...) {
				end["pfx"], _, _ = strings.Cut(k, ":queue:")
			}
			b.fm.Restore(nil) // looks twice for the message it cannot find
			ctx, cancel := context.WithTimeout(bg, 10*time.Second)
			_, _ = deckard.NewDeckardClient(cc).Pull(ctx, &deckard.PullRequest{Queue: "q", Amount: 1})
			cancel()
			b.mu.Lock()
			end["cols"] = sortedKeys(b.where)
			b.mu.Unlock()
			if other := b.fr; v.Cluster && len(other.Keys()) > 0 {
				end["redis"] = false
			}
		}
	}
	if exited {
		end["code"] = code
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	evs := append([]R{}, b.ev...)
	return R{"id": s.Id, "combo": "-", "v": v, "ev": append(evs, end)}, nil
}

var lifeMu sync.Mutex

func mainBoot(bin, in, out string, base int) error {
	lifeBase = base
	raw, err := os.ReadFile(in)
	if err != nil {
		return err
	}
	lines := strings.Split(strings.TrimSpace(string(raw)), "\n")
	p := newPKI()
	defer os.RemoveAll(p.dir)
	res := make([][]byte, len(lines))
	var next atomic.Int32
	var wg sync.WaitGroup
	var bad atomic.Value
	for w := 0; w < 8; w++ {
		b, err := newBooter(bin, p)
		if err != nil {
			return err
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := int(next.Add(1)) - 1; i < len(lines); i = int(next.Add(1)) - 1 {
				var s bootScen
				if err := json.Unmarshal([]byte(lines[i]), &s); err != nil {
					bad.Store(err)
					return
				}
				r, err := b.run(&s)
				if err != nil {
					bad.Store(err)
					return
				}
				res[i], _ = json.Marshal(r)
			}
		}()
	}
	wg.Wait()
	if err, ok := bad.Load().(error); ok {
		return err
	}
	fo, err := os.Create(out)
	if err != nil {
		return err
	}
	for _, l := range res {
		if _, err := fo.Write(append(l, '\n')); err != nil {
			return err
		}
	}
	return fo.Close()
}

func sortedKeys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
