package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue/message"
)

// Histories of the parts that need no deployment: settings, the controllable clock, time conversions, queue names.

var settings = map[string]config.ConfigKey{
	"audit.enabled": config.AuditEnabled, "elastic.address": config.ElasticAddress, "elastic.password": config.ElasticPassword, "elastic.user": config.ElasticUser,
	"cache.type": config.CacheType, "cache.uri": config.CacheUri, "cache.connection.retry.enabled": config.CacheConnectionRetryEnabled,
	"cache.connection.retry.attempts": config.CacheConnectionRetryAttempts, "cache.connection.retry.delay": config.CacheConnectionRetryDelay,
	"cache.prefix": config.CachePrefix, "redis.cluster.mode": config.RedisClusterMode,
	"housekeeper.enabled": config.HousekeeperEnabled, "housekeeper.task.timeout.delay": config.HousekeeperTaskTimeoutDelay,
	"housekeeper.task.unlock.delay": config.HousekeeperTaskUnlockDelay, "housekeeper.task.update.delay": config.HousekeeperTaskUpdateDelay,
	"housekeeper.task.ttl.delay": config.HousekeeperTaskTTLDelay, "housekeeper.task.max_elements.delay": config.HousekeeperTaskMaxElementsDelay,
	"housekeeper.task.metrics.delay": config.HousekeeperTaskMetricsDelay,
	"debug":                          config.DebugEnabled, "log_type": config.LogType,
	"metrics.enabled": config.MetricsEnabled, "metrics.port": config.MetricsPort, "metrics.path": config.MetricsPath,
	"metrics.histogram.buckets": config.MetricsHistogramBuckets, "metrics.openmetrics.enabled": config.MetricsOpenMetricsEnabled,
	"grpc.enabled": config.GrpcEnabled, "grpc.port": config.GrpcPort, "grpc.server.keepalive_time": config.GrpcServerKeepaliveTime,
	"grpc.server.keepalive_timeout": config.GrpcServerKeepaliveTimeout, "grpc.server.max_connection_idle": config.GrpcServerMaxConnectionIdle,
	"grpc.server.max_connection_age": config.GrpcServerMaxConnectionAge, "grpc.server.max_connection_age_grace": config.GrpcServerMaxConnectionAgeGrace,
	"grpc.server.max_recv_msg_size": config.GrpcServerMaxRecvMsgSize, "grpc.server.max_send_msg_size": config.GrpcServerMaxSendMsgSize,
	"tls.server.cert_file_paths": config.TlsServerCertFilePaths, "tls.server.key_file_paths": config.TlsServerKeyFilePaths,
	"tls.client.cert_file_paths": config.TlsClientCertFilePaths, "tls.client.auth_type": config.TlsClientAuthType,
	"storage.type": config.StorageType, "storage.uri": config.StorageUri, "storage.connection.retry.enabled": config.StorageConnectionRetryEnabled,
	"storage.connection.retry.attempts": config.StorageConnectionRetryAttempts, "storage.connection.retry.delay": config.StorageConnectionRetryDelay,
	"mongo.database": config.MongoDatabase, "mongo.collection": config.MongoCollection, "mongo.queue_configuration_collection": config.MongoQueueConfigurationCollection,
}

type pureOp struct {
	Op   string     `json:"op"`
	Name string     `json:"name"` // environment variable (by setting name) / setting
	Raw  string     `json:"raw"`
	Typ  string     `json:"typ"`
	T    [3]int64   `json:"t"` // day, millisecond of the day, nanosecond of the millisecond
	Ts   [][3]int64 `json:"ts"`
	Toks []string   `json:"toks"`
	N    int        `json:"n"`
}

const dayMs = int64(86400000)

func tri(t [3]int64) time.Time {
	return time.Unix(t[0]*86400+t[1]/1000, (t[1]%1000)*1000000+t[2])
}
func untri(t time.Time) []int64 {
	s, ns := t.Unix(), int64(t.Nanosecond())
	d := s / 86400
	r := s % 86400
	if r < 0 {
		d, r = d-1, r+86400
	}
	return []int64{d, r*1000 + ns/1000000, ns % 1000000}
}
func splitMs(ms int64) []int64 {
	d, r := ms/dayMs, ms%dayMs
	if r < 0 {
		d, r = d-1, r+dayMs
	}
	return []int64{d, r}
}

func envName(k string) string { return "DECKARD_" + strings.ToUpper(strings.ReplaceAll(k, ".", "_")) }

func typed(typ, raw string) any {
	switch typ {
	case "int":
		n, err := strconv.Atoi(raw)
		if err == nil {
			return n
		}
	case "bool":
		b, err := strconv.ParseBool(raw)
		if err == nil {
			return b
		}
	case "gdur":
		d, err := time.ParseDuration(raw)
		if err == nil {
			return d
		}
	}
	return raw
}

type pureRun struct {
	env   map[string]bool
	reset []func()
}

func (p *pureRun) do(o *pureOp) (r R) {
	defer func() {
		if e := recover(); e != nil {
			r = R{"err": "panic: " + fmt.Sprint(e)}
		}
	}()
	r = R{"err": ""}
	switch o.Op {
	case "env":
		p.env[envName(o.Name)] = true
		if o.Raw == "" {
			os.Unsetenv(envName(o.Name))
		} else {
			os.Setenv(envName(o.Name), o.Raw)
		}
	case "configure":
		config.Configure()
	case "reset":
		config.Configure(true)
	case "set":
		settings[o.Name].Set(typed(o.Typ, o.Raw))
	case "get":
		k := settings[o.Name]
		switch o.Typ {
		case "int":
			r["v"] = strconv.Itoa(k.GetInt())
		case "bool":
			r["v"] = strconv.FormatBool(k.GetBool())
		case "dur":
			r["v"] = strconv.FormatInt(int64(k.GetDuration()/time.Millisecond), 10)
		default:
			r["v"] = k.Get()
		}
	case "conv":
		t := tri(o.T)
		ms := dtime.TimeToMs(&t)
		back := dtime.MsToTime(ms)
		prec := dtime.MsPrecision(&t)
		r["ms"], r["back"], r["prec"] = splitMs(ms), untri(back), untri(prec)
		r["again"] = splitMs(dtime.TimeToMs(&back))
	case "clockvals":
		vs := []time.Time{}
		for _, t := range o.Ts {
			vs = append(vs, tri(t))
		}
		p.reset = append(p.reset, dtime.SetNowProviderValues(vs...))
	case "clockfn":
		t := tri(o.T)
		p.reset = append(p.reset, dtime.SetNowProvider(func() time.Time { return t }))
	case "now":
		a := time.Now()
		t := dtime.Now()
		b := time.Now()
		r["t"], r["real"] = untri(t), !t.Before(a) && !t.After(b)
	case "nowms":
		a := time.Now().UnixMilli()
		ms := dtime.NowMs()
		b := time.Now().UnixMilli()
		r["ms"], r["real"] = splitMs(ms), ms >= a && ms <= b
	case "clockreset":
		// the reset function handed out n calls ago
		if len(p.reset) > 0 {
			i := len(p.reset) - 1 - o.N
			if i < 0 {
				i = 0
			}
			p.reset[i]()
		}
	case "split":
		q := strings.Join(o.Toks, "")
		a, b := message.GetQueueParts(q)
		m := message.Message{Queue: q}
		c, d := m.GetQueueParts()
		r["parts"], r["mparts"], r["prefix"] = []string{a, b}, []string{c, d}, message.GetQueuePrefix(q)
	default:
		r["err"] = "unknown op"
	}
	return r
}

func mainPure(in, out string) error {
	fi, err := os.Open(in)
	if err != nil {
		return err
	}
	defer fi.Close()
	fo, err := os.Create(out)
	if err != nil {
		return err
	}
	bw := bufio.NewWriterSize(fo, 1<<20)
	enc := json.NewEncoder(bw)
	enc.SetEscapeHTML(false)
	dec := json.NewDecoder(bufio.NewReaderSize(fi, 1<<20))
	for dec.More() {
		var t struct {
			Id  string            `json:"id"`
			Ops []json.RawMessage `json:"ops"`
		}
		if err := dec.Decode(&t); err != nil {
			return err
		}
		p := &pureRun{env: map[string]bool{}}
		config.Configure(true)
		evs := []any{}
		for _, raw := range t.Ops {
			var o pureOp
			var ev map[string]any
			if err := json.Unmarshal(raw, &o); err != nil {
				return err
			}
			_ = json.Unmarshal(raw, &ev)
			ev["r"] = p.do(&o)
			evs = append(evs, ev)
		}
		for e := range p.env {
			os.Unsetenv(e)
		}
		if len(p.reset) > 0 {
			p.reset[0]()
		}
		if err := enc.Encode(R{"id": t.Id, "combo": "-", "ev": evs}); err != nil {
			return err
		}
	}
	if err := bw.Flush(); err != nil {
		return err
	}
	return fo.Close()
}
