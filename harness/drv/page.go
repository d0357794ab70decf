package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/prometheus/common/expfmt"
	"github.com/prometheus/common/model"
	"github.com/takenet/deckard"
	proj "github.com/takenet/deckard/internal/project"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	grpchealth "google.golang.org/grpc/health/grpc_health_v1"
)

// The metrics page of a server process (Page.tla).

type pageV struct {
	Enabled bool       `json:"enabled"`
	Path    string     `json:"path"`
	Om      bool       `json:"om"`
	Attrs   [][]string `json:"attrs"` // parts of the name, then the value; one element: taken as it is
	Name    string     `json:"name"`
	Buckets []string   `json:"buckets"`
	Set     bool       `json:"set"`
	Busy    bool       `json:"busy"`
}
type pageScen struct {
	Id  string `json:"id"`
	V   pageV  `json:"v"`
	Ops []R    `json:"ops"`
}

func pageRun(bin string, s *pageScen) (R, error) {
	v := s.V
	lifeMu.Lock()
	port, mport := freePort(), freePort()
	lifeMu.Unlock()
	if v.Busy {
		l, err := net.Listen("tcp", fmt.Sprint(":", mport))
		if err != nil {
			return nil, err
		}
		defer l.Close()
	}
	env := []string{"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent"}
	set := func(k string, x any) { env = append(env, envName(k)+"="+fmt.Sprint(x)) }
	set("grpc.port", port)
	set("metrics.port", mport)
	set("metrics.enabled", v.Enabled)
	set("metrics.openmetrics.enabled", v.Om)
	set("housekeeper.task.metrics.delay", "30ms")
	path := "/metrics"
	if v.Path != "" {
		set("metrics.path", v.Path)
		path = v.Path
	}
	if v.Set {
		set("metrics.histogram.buckets", strings.Join(v.Buckets, ","))
	}
	if len(v.Attrs) > 0 {
		items := []string{}
		for _, a := range v.Attrs {
			if n := len(a); n == 1 {
				items = append(items, a[0])
			} else {
				items = append(items, strings.Join(a[:n-1], ".")+"="+a[n-1])
			}
		}
		env = append(env, "OTEL_RESOURCE_ATTRIBUTES="+strings.Join(items, ","))
	}
	if v.Name != "" {
		env = append(env, "OTEL_SERVICE_NAME="+v.Name)
	}
	cmd := exec.Command(bin)
	cmd.Env = env
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	dead := make(chan struct{})
	go func() { _ = cmd.Wait(); close(dead) }()
	defer func() {
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-dead
	}()
	cc, err := grpc.NewClient(fmt.Sprintf("passthrough:///127.0.0.1:%d", port), grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		return nil, err
	}
	defer cc.Close()
	up := false
	for t0 := time.Now(); !up && time.Since(t0) < 20*time.Second; time.Sleep(15 * time.Millisecond) {
		ctx, cancel := context.WithTimeout(bg, 2*time.Second)
		h, err := grpchealth.NewHealthClient(cc).Check(ctx, &grpchealth.HealthCheckRequest{})
		cancel()
		if up = err == nil && h.Status == grpchealth.HealthCheckResponse_SERVING; !up {
			cc.ResetConnectBackoff()
		}
	}
	url := fmt.Sprintf("http://127.0.0.1:%d", mport)
	client := &http.Client{Timeout: 3 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	if v.Enabled && !v.Busy { // the page comes up beside the rest
		for t0 := time.Now(); time.Since(t0) < 5*time.Second; time.Sleep(15 * time.Millisecond) {
			if r, err := client.Get(url + "/nothing"); err == nil {
				r.Body.Close()
				break
			}
		}
	}
	ev := []R{{"k": "start", "up": up}}
	d := deckard.NewDeckardClient(cc)
	ctx, cancel := context.WithTimeout(bg, 30*time.Second)
	defer cancel()
	for _, o := range s.Ops {
		e := R{}
		for k, x := range o {
			e[k] = x
		}
		str := func(k string) string { x, _ := o[k].(string); return x }
		num := func(k string) int { x, _ := o[k].(float64); return int(x) }
		if !up {
			break
		}
		switch str("k") {
		case "add":
			m := []*deckard.AddMessage{}
			for i := 0; i < num("n"); i++ {
				m = append(m, &deckard.AddMessage{Id: fmt.Sprint("m", len(ev), "-", i), Queue: str("q"), Timeless: true})
			}
			_, err = d.Add(ctx, &deckard.AddRequest{Messages: m})
		case "pull", "ack", "nack":
			var g *deckard.PullResponse
			if g, err = d.Pull(ctx, &deckard.PullRequest{Queue: str("q"), Amount: 1}); err == nil && len(g.Messages) > 0 {
				a := &deckard.AckRequest{Id: g.Messages[0].Id, Queue: str("q"), Reason: str("reason")}
				if str("k") == "ack" {
					_, err = d.Ack(ctx, a)
				} else if str("k") == "nack" {
					_, err = d.Nack(ctx, a)
				}
			}
		case "settle": // the metrics task has run
			time.Sleep(400 * time.Millisecond)
		case "page":
			e["r"] = scrape(client, url, path, str("want"))
		}
		if err != nil {
			e["failed"], err = err.Error(), nil
		}
		ev = append(ev, e)
	}
	return R{"id": s.Id, "combo": "-", "v": v, "ver": proj.Version, "ev": ev}, nil
}

func scrape(client *http.Client, url, path, want string) R {
	r := R{"served": false, "code": 0, "type": "", "parsed": false, "labels": [][][]string{}, "target": [][]string{}, "rpc": false, "buckets": [][]string{}, "vals": []R{}}
	if want == "other" {
		path += "x"
	}
	req, _ := http.NewRequest("GET", url+path, nil)
	if want == "om" {
		req.Header.Set("Accept", "application/openmetrics-text; version=1.0.0")
	}
	resp, err := client.Do(req)
	if err != nil {
		return r
	}
	defer resp.Body.Close()
	body, _ := io.ReadAll(resp.Body)
	r["served"], r["code"] = true, resp.StatusCode
	r["type"], _, _ = strings.Cut(resp.Header.Get("Content-Type"), ";")
	if resp.StatusCode != 200 || want == "om" {
		return r
	}
	p := expfmt.NewTextParser(model.UTF8Validation)
	fams, err := p.TextToMetricFamilies(strings.NewReader(string(body)))
	if err != nil {
		return r
	}
	r["parsed"] = true
	own := map[string]bool{"otel_scope_name": true, "queue": true, "reason": true, "op": true, "task": true, "lock_type": true}
	seen := map[string][][]string{}
	bk := map[string][]string{}
	vals := []R{}
	for n, f := range fams {
		if strings.Contains(n, "rpc_server_duration") {
			r["rpc"] = true
		}
		for _, m := range f.Metric {
			ls := [][]string{}
			at := map[string]string{}
			for _, l := range m.Label {
				at[l.GetName()] = l.GetValue()
				if !own[l.GetName()] {
					ls = append(ls, []string{l.GetName(), l.GetValue()})
				}
			}
			sort.Slice(ls, func(i, j int) bool { return fmt.Sprint(ls[i]) < fmt.Sprint(ls[j]) })
			if n == "target_info" {
				r["target"] = ls
				continue
			}
			seen[fmt.Sprint(ls)] = ls
			if h := m.Histogram; h != nil {
				b := []string{}
				for _, x := range h.Bucket {
					b = append(b, strconv.FormatFloat(x.GetUpperBound(), 'g', -1, 64))
				}
				bk[fmt.Sprint(b)] = b
				if n == "deckard_housekeeper_task_latency" {
					continue
				}
			}
			x := 0.0
			switch {
			case m.Counter != nil:
				x = m.Counter.GetValue()
			case m.Gauge != nil:
				x = m.Gauge.GetValue()
			default:
				continue
			}
			vals = append(vals, R{"name": n, "queue": at["queue"], "reason": at["reason"], "n": int(x)})
		}
	}
	ll, bb := [][][]string{}, [][]string{}
	for _, x := range seen {
		ll = append(ll, x)
	}
	for _, x := range bk {
		bb = append(bb, x)
	}
	sort.Slice(vals, func(i, j int) bool { return fmt.Sprint(vals[i]) < fmt.Sprint(vals[j]) })
	r["labels"], r["buckets"], r["vals"] = ll, bb, vals
	return r
}

func mainPage(bin, in, out string, base int) error {
	lifeBase = base
	return eachLine(in, out, 8, func(raw []byte) (R, error) {
		var s pageScen
		if err := json.Unmarshal(raw, &s); err != nil {
			return nil, err
		}
		return pageRun(bin, &s)
	})
}

// eachLine answers every line of a file with a line of another, with several workers.
func eachLine(in, out string, workers int, f func([]byte) (R, error)) error {
	raw, err := os.ReadFile(in)
	if err != nil {
		return err
	}
	lines := strings.Split(strings.TrimSpace(string(raw)), "\n")
	res := make([][]byte, len(lines))
	var next atomic.Int32
	var wg sync.WaitGroup
	var bad atomic.Value
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := int(next.Add(1)) - 1; i < len(lines); i = int(next.Add(1)) - 1 {
				r, err := f([]byte(lines[i]))
				if err != nil {
					bad.Store(err)
					return
				}
				res[i], _ = json.Marshal(r)
			}
		}()
	}
	wg.Wait()
	if err, ok := bad.Load().(error); ok {
		return err
	}
	fo, err := os.Create(out)
	if err != nil {
		return err
	}
	for _, l := range res {
		if _, err := fo.Write(append(l, '\n')); err != nil {
			return err
		}
	}
	return fo.Close()
}
