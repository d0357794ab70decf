// Package verifrec records what the code under test reports through the stubbed OpenTelemetry API.
package verifrec

import (
	"net"
	"os"
	"sync"
)

var mu sync.Mutex
var counters = map[string]int64{}
var shutdowns int
var gauges = map[string]func() map[string]int64{}
var OnTracerShutdown func()

// What a metrics exporter needs: the kind of each instrument, and of histograms the boundaries and observations.
type Hist struct {
	Count  uint64
	Sum    float64
	Bounds map[float64]uint64 // cumulative
}

var kinds = map[string]string{}
var bounds = map[string][]float64{}
var hists = map[string]map[string]*Hist{}

// Boundaries is asked for the boundaries of a histogram when it is created.
var Boundaries func() []float64

func Create(name, kind string) {
	var b []float64
	if kind == "histogram" && Boundaries != nil {
		b = Boundaries()
	}
	mu.Lock()
	defer mu.Unlock()
	kinds[name], bounds[name] = kind, b
}

func Observe(name, attrs string, x float64) {
	mu.Lock()
	defer mu.Unlock()
	if hists[name] == nil {
		hists[name] = map[string]*Hist{}
	}
	h := hists[name][attrs]
	if h == nil {
		h = &Hist{Bounds: map[float64]uint64{}}
		for _, b := range bounds[name] {
			h.Bounds[b] = 0
		}
		hists[name][attrs] = h
	}
	h.Count++
	h.Sum += x
	for b := range h.Bounds {
		if x <= b {
			h.Bounds[b]++
		}
	}
}

func Kinds() map[string]string {
	mu.Lock()
	defer mu.Unlock()
	r := map[string]string{}
	for k, v := range kinds {
		r[k] = v
	}
	return r
}

func Hists(name string) map[string]Hist {
	mu.Lock()
	defer mu.Unlock()
	r := map[string]Hist{}
	for a, h := range hists[name] {
		c := Hist{h.Count, h.Sum, map[float64]uint64{}}
		for b, n := range h.Bounds {
			c.Bounds[b] = n
		}
		r[a] = c
	}
	return r
}

func Add(name, attrs string, n int64) {
	mu.Lock()
	counters[name+"|"+attrs] += n
	mu.Unlock()
}

// Counters returns a copy of all counter values keyed by "name|attributes".
func Counters() map[string]int64 {
	mu.Lock()
	defer mu.Unlock()
	r := make(map[string]int64, len(counters))
	for k, v := range counters {
		r[k] = v
	}
	return r
}
func Reset() {
	mu.Lock()
	counters = map[string]int64{}
	mu.Unlock()
}
func RegisterGauge(name string, f func() map[string]int64) {
	mu.Lock()
	gauges[name] = f
	mu.Unlock()
}

// Gauge evaluates an observable gauge and returns its observations keyed by attributes.
func Gauge(name string) map[string]int64 {
	mu.Lock()
	f := gauges[name]
	mu.Unlock()
	if f == nil {
		return nil
	}
	return f()
}
func TracerShutdown() {
	mu.Lock()
	shutdowns++
	f := OnTracerShutdown
	mu.Unlock()
	if f != nil {
		f()
	}
	// the flush of a server process is reported to its observer, which may keep it waiting
	if a := os.Getenv("VERIF_TRACE_ADDR"); a != "" {
		if c, err := net.Dial("tcp", a); err == nil {
			_, _ = c.Write([]byte("shutdown\n"))
			_, _ = c.Read(make([]byte, 8))
			_ = c.Close()
		}
	}
}
func TracerShutdowns() int { mu.Lock(); defer mu.Unlock(); return shutdowns }
