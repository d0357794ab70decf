// Package prometheus is a stand-in for the OpenTelemetry exporter: what was recorded becomes a collector of the given registerer.
package prometheus

import (
	"os"
	"strings"

	prom "github.com/prometheus/client_golang/prometheus"
	"go.opentelemetry.io/otel/sdk/metric"
	"go.opentelemetry.io/otel/verifrec"
)

type Exporter struct{ metric.Reader }
type Option interface{}
type reg struct{ r prom.Registerer }

func New(opts ...Option) (*Exporter, error) {
	var r prom.Registerer = prom.DefaultRegisterer
	for _, o := range opts {
		switch x := o.(type) {
		case reg:
			r = x.r
		case metric.AggregationSelector:
			verifrec.Boundaries = func() []float64 {
				if h, ok := x(metric.InstrumentKindHistogram).(metric.AggregationExplicitBucketHistogram); ok {
					return h.Boundaries
				}
				return []float64{0, 5, 10, 25, 50, 75, 100, 250, 500, 750, 1000, 2500, 5000, 7500, 10000}
			}
		}
	}
	if err := r.Register(coll{}); err != nil {
		return nil, err
	}
	return &Exporter{}, nil
}
func WithRegisterer(r prom.Registerer) Option                     { return reg{r} }
func WithoutUnits() Option                                        { return nil }
func WithoutScopeInfo() Option                                    { return nil }
func WithoutTargetInfo() Option                                   { return nil }
func WithNamespace(string) Option                                 { return nil }
func WithAggregationSelector(a metric.AggregationSelector) Option { return a }

type coll struct{}

func (coll) Describe(chan<- *prom.Desc) {}

func labels(attrs string) (k, v []string) {
	k, v = []string{"otel_scope_name"}, []string{"deckard"}
	for _, p := range strings.Split(attrs, ",") {
		if a, b, ok := strings.Cut(p, "="); ok {
			k, v = append(k, strings.ReplaceAll(a, ".", "_")), append(v, b)
		}
	}
	return k, v
}

func (coll) Collect(ch chan<- prom.Metric) {
	name := os.Getenv("OTEL_SERVICE_NAME")
	if name == "" {
		name = "unknown_service:deckard"
	}
	ch <- prom.MustNewConstMetric(prom.NewDesc("target_info", "Target metadata", []string{"service_name"}, nil), prom.GaugeValue, 1, name)
	kinds := verifrec.Kinds()
	for key, n := range verifrec.Counters() {
		if i := strings.Index(key, "|"); kinds[key[:i]] == "counter" {
			k, v := labels(key[i+1:])
			ch <- prom.MustNewConstMetric(prom.NewDesc(strings.ReplaceAll(key[:i], ".", "_")+"_total", "", k, nil), prom.CounterValue, float64(n), v...)
		}
	}
	for m, kind := range kinds {
		switch kind {
		case "gauge":
			for a, n := range verifrec.Gauge(m) {
				k, v := labels(a)
				ch <- prom.MustNewConstMetric(prom.NewDesc(m, "", k, nil), prom.GaugeValue, float64(n), v...)
			}
		case "histogram":
			for a, h := range verifrec.Hists(m) {
				k, v := labels(a)
				ch <- prom.MustNewConstHistogram(prom.NewDesc(strings.ReplaceAll(m, ".", "_"), "", k, nil), h.Count, h.Sum, h.Bounds, v...)
			}
		}
	}
}
