package main

import (
	"bufio"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/service"
	"google.golang.org/grpc"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/credentials/insecure"
	grpchealth "google.golang.org/grpc/health/grpc_health_v1"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// Servers with every kind of transport settings and the clients that talk to them (Conn.tla).

type connCfg struct {
	Cert  []string `json:"cert"`
	Key   []string `json:"key"`
	Ca    []string `json:"ca"`
	Auth  string   `json:"auth"`
	Recv  int      `json:"recv"`
	Send  int      `json:"send"`
	Idle  int      `json:"idle"`
	Age   int      `json:"age"`
	Grace int      `json:"grace"`
	Ka    int      `json:"ka"`
	Kt    int      `json:"kt"`
}
type connClient struct {
	Tls  bool   `json:"tls"`
	Sni  string `json:"sni"`
	Cert string `json:"cert"`
}
type connOp struct {
	Op   string     `json:"op"`
	V    connCfg    `json:"v"`
	C    connClient `json:"c"`
	K    int        `json:"k"`
	Kind string     `json:"kind"`
	Name string     `json:"name"`
	Busy bool       `json:"busy"`
}

type pki struct {
	dir   string
	roots *x509.CertPool // of the servers
	certs map[string]*tls.Certificate
}

func newPKI() *pki {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	dir, err := os.MkdirTemp("", "verif-tls")
	must(err)
	p := &pki{dir: dir, roots: x509.NewCertPool(), certs: map[string]*tls.Certificate{}}
	serial := int64(0)
	type ent struct {
		c *x509.Certificate
		k *ecdsa.PrivateKey
		d []byte
	}
	mk := func(cn string, ca bool, by *ent, use []x509.ExtKeyUsage, from, to time.Duration, dns ...string) *ent {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		must(err)
		serial++
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(from), NotAfter: time.Now().Add(to),
			IsCA: ca, BasicConstraintsValid: true, ExtKeyUsage: use, DNSNames: dns, KeyUsage: x509.KeyUsageDigitalSignature}
		if ca {
			t.KeyUsage |= x509.KeyUsageCertSign
		}
		if by == nil {
			by = &ent{c: t, k: k}
		}
		d, err := x509.CreateCertificate(rand.Reader, t, by.c, &k.PublicKey, by.k)
		must(err)
		c, err := x509.ParseCertificate(d)
		must(err)
		return &ent{c, k, d}
	}
	write := func(name string, e *ent, key bool) {
		must(os.WriteFile(filepath.Join(dir, name+".crt"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: e.d}), 0o600))
		if key {
			b, err := x509.MarshalECPrivateKey(e.k)
			must(err)
			must(os.WriteFile(filepath.Join(dir, name+".key"), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b}), 0o600))
		}
	}
	leaf := func(name string, e *ent) {
		p.certs[name] = &tls.Certificate{Certificate: [][]byte{e.d}, PrivateKey: e.k}
	}
	h, cu, su := time.Hour, []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}, []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
	root := mk("servers", true, nil, nil, -h, h)
	p.roots.AddCert(root.c)
	for _, s := range []string{"s1", "s2"} {
		write(s, mk(s, false, root, su, -h, h, s+".test"), true)
	}
	ca1, ca2 := mk("ca1", true, nil, nil, -h, h), mk("ca2", true, nil, nil, -h, h)
	write("ca1", ca1, false)
	write("ca2", ca2, false)
	leaf("c1", mk("c1", false, ca1, cu, -h, h))
	leaf("c2", mk("c2", false, ca2, cu, -h, h))
	leaf("self", mk("self", false, nil, cu, -h, h))
	leaf("old", mk("old", false, ca1, cu, -2*h, -h))
	leaf("srv", mk("srv", false, ca1, su, -h, h))
	for _, x := range []string{"crt", "key"} {
		must(os.WriteFile(filepath.Join(dir, "junk."+x), []byte("no certificate\n"), 0o600))
	}
	return p
}

func (p *pki) paths(names []string, ext string) string {
	out := []string{}
	for _, n := range names {
		out = append(out, filepath.Join(p.dir, n+"."+ext))
	}
	return strings.Join(out, ",")
}

type connRun struct {
	p    *pki
	addr string
	srv  *grpc.Server
	st   storage.Storage
	svc  *service.Deckard
	q    *queue.Queue
	n    int

	shown atomic.Value
}

var serving sync.Mutex // settings are global

func (x *connRun) serve(o *connOp) R {
	serving.Lock()
	defer serving.Unlock()
	x.stop()
	for i := 0; ; i++ {
		r, err := x.try(o)
		if err == nil || o.Busy || i > 5 || !strings.Contains(err.Error(), "address already in use") {
			return r
		}
	}
}

func (x *connRun) try(o *connOp) (R, error) {
	v := o.V
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		return R{"err": err.Error()}, nil
	}
	port := l.Addr().(*net.TCPAddr).Port
	if !o.Busy {
		l.Close()
	} else {
		defer l.Close()
	}
	env := map[string]string{"grpc.port": fmt.Sprint(port), "tls.server.cert_file_paths": x.p.paths(v.Cert, "crt"), "tls.server.key_file_paths": x.p.paths(v.Key, "key"),
		"tls.client.cert_file_paths": x.p.paths(v.Ca, "crt"), "tls.client.auth_type": v.Auth}
	num := func(k string, n int, unit string) {
		if n != 0 {
			env[k] = fmt.Sprint(n) + unit
		}
	}
	num("grpc.server.max_recv_msg_size", v.Recv, "")
	num("grpc.server.max_send_msg_size", v.Send, "")
	num("grpc.server.max_connection_idle", v.Idle, "ms")
	num("grpc.server.max_connection_age", v.Age, "ms")
	num("grpc.server.max_connection_age_grace", v.Grace, "ms")
	num("grpc.server.keepalive_time", v.Ka, "ms")
	num("grpc.server.keepalive_timeout", v.Kt, "ms")
	for k, s := range env {
		if s != "" {
			os.Setenv(envName(k), s)
			defer os.Unsetenv(envName(k))
		}
	}
	config.Configure(true)
	x.st = storage.NewMemoryStorage(bg)
	cfg := queue.NewQueueConfigurationService(bg, x.st)
	x.q = queue.NewQueue(&RecAuditor{}, x.st, cfg, cache.NewMemoryCache())
	x.svc = service.NewDeckardInstance(x.q, cfg, true)
	srv, err := x.svc.ServeGRPCServer(bg)
	if err != nil {
		return R{"err": "", "ok": false}, err
	}
	x.srv, x.addr = srv, fmt.Sprintf("127.0.0.1:%d", port)
	return R{"err": "", "ok": srv != nil}, nil
}

func (x *connRun) stop() {
	if x.srv != nil {
		x.srv.Stop()
		x.srv = nil
	}
}

func (x *connRun) creds(c connClient) credentials.TransportCredentials {
	if !c.Tls {
		return insecure.NewCredentials()
	}
	// verifies as usual, and records the certificate the server shows first
	verify := func(cs tls.ConnectionState) error {
		leaf := cs.PeerCertificates[0]
		x.shown.Store(leaf.Subject.CommonName)
		_, err := leaf.Verify(x509.VerifyOptions{Roots: x.p.roots, DNSName: c.Sni + ".test", KeyUsages: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}})
		return err
	}
	return credentials.NewTLS(&tls.Config{InsecureSkipVerify: true, VerifyConnection: verify, ServerName: c.Sni + ".test", GetClientCertificate: func(*tls.CertificateRequestInfo) (*tls.Certificate, error) {
		if k := x.p.certs[c.Cert]; k != nil {
			return k, nil
		}
		return &tls.Certificate{}, nil
	}})
}

func (x *connRun) dial(c connClient, dials *atomic.Int32) *grpc.ClientConn {
	cc, err := grpc.NewClient("passthrough:///"+x.addr, grpc.WithTransportCredentials(x.creds(c)), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(1<<30)),
		grpc.WithContextDialer(func(ctx context.Context, a string) (net.Conn, error) {
			if dials != nil {
				dials.Add(1)
			}
			return (&net.Dialer{}).DialContext(ctx, "tcp", a)
		}))
	if err != nil {
		panic(err)
	}
	return cc
}

func (x *connRun) message(payload string) *deckard.AddRequest {
	x.n++
	return &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: fmt.Sprintf("m%04d", x.n), Queue: "q", Timeless: true, StringPayload: payload}}}
}

// sized finds a payload with which size() is k.
func sized(k int, size func(payload string) int) string {
	l := k
	for i := 0; i < 50; i++ {
		d := size(strings.Repeat("p", l)) - k
		if d == 0 {
			return strings.Repeat("p", l)
		}
		l -= d
	}
	panic("no payload of that size")
}

func (x *connRun) plain() connClient { return connClient{} }

func (x *connRun) do(o *connOp) (r R) {
	defer func() {
		if e := recover(); e != nil {
			r = R{"err": fmt.Sprint("panic: ", e)}
		}
		r["count"] = int64(0)
		if x.srv != nil {
			r["count"], _ = x.st.Count(bg, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: "q"}}, &storage.CountOptions{})
		}
	}()
	ctx, cancel := context.WithTimeout(bg, 20*time.Second)
	defer cancel()
	if o.Op != "serve" && x.srv == nil {
		return R{"err": "", "ok": false}
	}
	answer := func(err error) R { return R{"err": "", "ok": err == nil, "code": status.Code(err).String()} }
	switch o.Op {
	case "serve":
		return x.serve(o)
	case "call":
		cc := x.dial(o.C, nil)
		defer cc.Close()
		x.shown.Store("")
		_, err := deckard.NewDeckardClient(cc).Add(ctx, x.message("x"))
		r := answer(err)
		r["shown"] = x.shown.Load()
		return r
	case "send":
		cc := x.dial(o.C, nil)
		defer cc.Close()
		var req *deckard.AddRequest
		x.n++
		n := x.n
		sized(o.K, func(p string) int { x.n = n; req = x.message(p); return proto.Size(req) })
		_, err := deckard.NewDeckardClient(cc).Add(ctx, req)
		return answer(err)
	case "fetch":
		cc := x.dial(o.C, nil)
		defer cc.Close()
		get := &deckard.GetByIdRequest{Id: "big", Queue: "big"}
		sized(o.K, func(p string) int {
			_, err := x.svc.Add(ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "big", Queue: "big", Timeless: true, StringPayload: p, Score: 1}}})
			if err != nil {
				panic(err)
			}
			g, err := x.svc.GetById(ctx, get)
			if err != nil {
				panic(err)
			}
			return proto.Size(g)
		})
		g, err := deckard.NewDeckardClient(cc).GetById(ctx, get)
		if err == nil && proto.Size(g) != o.K {
			return R{"err": "another size"}
		}
		return answer(err)
	case "health":
		cc := x.dial(o.C, nil)
		defer cc.Close()
		h, err := grpchealth.NewHealthClient(cc).Check(ctx, &grpchealth.HealthCheckRequest{Service: o.Name})
		if err != nil {
			return R{"err": "", "code": status.Code(err).String()}
		}
		return R{"err": "", "code": h.Status.String()}
	case "watch":
		return R{"err": "", "closed": x.watch(o)}
	}
	return R{"err": "unknown op"}
}

// watch tells whether the server ends the connection of a client within some seconds.
func (x *connRun) watch(o *connOp) bool {
	const last = 3500 * time.Millisecond
	end := time.Now().Add(last)
	if o.Kind == "mute" {
		c, err := net.Dial("tcp", x.addr)
		if err != nil {
			panic(err)
		}
		defer c.Close()
		_, _ = c.Write([]byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00"))
		_ = c.SetReadDeadline(end)
		b := make([]byte, 4096)
		for {
			if _, err := c.Read(b); err != nil {
				ne, ok := err.(net.Error)
				return !(ok && ne.Timeout())
			}
		}
	}
	var dials atomic.Int32
	cc := x.dial(o.C, &dials)
	defer cc.Close()
	h := grpchealth.NewHealthClient(cc)
	if _, err := h.Check(bg, &grpchealth.HealthCheckRequest{}); err != nil {
		panic(err)
	}
	if o.Kind == "hold" {
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		defer time.AfterFunc(last, cancel).Stop()
		w, err := h.Watch(ctx, &grpchealth.HealthCheckRequest{})
		for err == nil {
			_, err = w.Recv()
		}
		return ctx.Err() == nil
	}
	for time.Now().Before(end) {
		if o.Kind == "busy" {
			_, _ = h.Check(bg, &grpchealth.HealthCheckRequest{})
		} else if cc.GetState() != connectivity.Ready {
			return true
		}
		if dials.Load() > 1 {
			return true
		}
		time.Sleep(20 * time.Millisecond)
	}
	return false
}

func mainConn(in, out string) error {
	b, err := os.ReadFile(in)
	if err != nil {
		return err
	}
	lines := strings.Split(strings.TrimSpace(string(b)), "\n")
	fo, err := os.Create(out)
	if err != nil {
		return err
	}
	p := newPKI()
	defer os.RemoveAll(p.dir)
	res := make([][]byte, len(lines))
	var wg sync.WaitGroup
	var next atomic.Int32
	var bad atomic.Value
	for w := 0; w < 16; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := int(next.Add(1)) - 1; i < len(lines); i = int(next.Add(1)) - 1 {
				var t struct {
					Id  string            `json:"id"`
					Ops []json.RawMessage `json:"ops"`
				}
				if err := json.Unmarshal([]byte(lines[i]), &t); err != nil {
					bad.Store(err)
					return
				}
				x := &connRun{p: p}
				evs := []any{}
				for _, raw := range t.Ops {
					var o connOp
					var ev map[string]any
					if err := json.Unmarshal(raw, &o); err != nil {
						bad.Store(err)
						return
					}
					_ = json.Unmarshal(raw, &ev)
					ev["r"] = x.do(&o)
					evs = append(evs, ev)
				}
				serving.Lock()
				x.stop()
				serving.Unlock()
				res[i], _ = json.Marshal(R{"id": t.Id, "combo": "-", "ev": evs})
			}
		}()
	}
	wg.Wait()
	if err, ok := bad.Load().(error); ok {
		return err
	}
	bw := bufio.NewWriterSize(fo, 1<<20)
	for _, l := range res {
		_, _ = bw.Write(append(l, '\n'))
	}
	if err := bw.Flush(); err != nil {
		return err
	}
	return fo.Close()
}
