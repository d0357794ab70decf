// Package metric is a recording stand-in for go.opentelemetry.io/otel/metric.
package metric

import (
	"context"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/verifrec"
)

type MeterOption interface{}
type InstrumentOption interface{}

type Int64CounterOption interface{}
type Int64UpDownCounterOption interface{}
type Int64HistogramOption interface{}
type Int64GaugeOption interface{}
type Float64CounterOption interface{}
type Float64HistogramOption interface{}
type Float64GaugeOption interface{}
type Int64ObservableGaugeOption interface{}
type Int64ObservableCounterOption interface{}
type Float64ObservableGaugeOption interface{}
type Int64ObservableOption interface{}

type AddOption interface{ attrs() string }
type RecordOption = AddOption
type ObserveOption = AddOption
type MeasurementOption = AddOption

type attrOpt struct{ set attribute.Set }

func (a attrOpt) attrs() string { return a.set.Encoded() }

func WithAttributes(kv ...attribute.KeyValue) MeasurementOption {
	return attrOpt{attribute.NewSet(kv...)}
}
func WithAttributeSet(s attribute.Set) MeasurementOption { return attrOpt{s} }

type descOpt string

func WithDescription(s string) InstrumentOption                  { return descOpt(s) }
func WithUnit(s string) InstrumentOption                         { return descOpt(s) }
func WithExplicitBucketBoundaries(b ...float64) InstrumentOption { return b }

type Int64Observer interface {
	Observe(value int64, options ...ObserveOption)
}
type Int64Callback func(context.Context, Int64Observer) error

func WithInt64Callback(c Int64Callback) InstrumentOption { return c }

func enc(o []AddOption) string {
	s := ""
	for i, x := range o {
		if i > 0 {
			s += ","
		}
		s += x.attrs()
	}
	return s
}

type Int64Counter interface {
	Add(ctx context.Context, incr int64, options ...AddOption)
	Enabled(context.Context) bool
}
type Int64UpDownCounter interface {
	Add(ctx context.Context, incr int64, options ...AddOption)
}
type Int64Histogram interface {
	Record(ctx context.Context, incr int64, options ...RecordOption)
}
type Int64Gauge interface {
	Record(ctx context.Context, incr int64, options ...RecordOption)
}
type Float64Counter interface {
	Add(ctx context.Context, incr float64, options ...AddOption)
}
type Float64Histogram interface {
	Record(ctx context.Context, incr float64, options ...RecordOption)
}
type Observable interface{}
type Int64ObservableGauge interface{}
type Int64ObservableCounter interface{}
type Float64ObservableGauge interface{}
type Registration interface{ Unregister() error }

type inst struct{ name string }

func (i inst) Add(_ context.Context, n int64, o ...AddOption) { verifrec.Add(i.name, enc(o), n) }
func (i inst) Enabled(context.Context) bool                   { return true }

type hist struct{ name string }

func (i hist) Record(_ context.Context, n int64, o ...RecordOption) {
	verifrec.Add(i.name+"#count", enc(o), 1)
	verifrec.Observe(i.name, enc(o), float64(n))
}

type finst struct{ name string }

func (i finst) Add(_ context.Context, n float64, o ...AddOption) {
	verifrec.Add(i.name, enc(o), int64(n))
}
func (i finst) Record(_ context.Context, n float64, o ...AddOption) {
	verifrec.Observe(i.name, enc(o), n)
	verifrec.Add(i.name+"#count", enc(o), 1)
}

type obs struct{ m map[string]int64 }

func (o obs) Observe(v int64, opts ...ObserveOption) { o.m[enc(opts)] = v }

type Meter interface {
	Int64Counter(name string, options ...Int64CounterOption) (Int64Counter, error)
	Int64UpDownCounter(name string, options ...Int64UpDownCounterOption) (Int64UpDownCounter, error)
	Int64Histogram(name string, options ...Int64HistogramOption) (Int64Histogram, error)
	Int64Gauge(name string, options ...Int64GaugeOption) (Int64Gauge, error)
	Float64Counter(name string, options ...Float64CounterOption) (Float64Counter, error)
	Float64Histogram(name string, options ...Float64HistogramOption) (Float64Histogram, error)
	Int64ObservableGauge(name string, options ...Int64ObservableGaugeOption) (Int64ObservableGauge, error)
	Int64ObservableCounter(name string, options ...Int64ObservableCounterOption) (Int64ObservableCounter, error)
}
type MeterProvider interface {
	Meter(name string, opts ...MeterOption) Meter
}
type provider struct{}
type meter struct{}

func NewProvider() MeterProvider                              { return provider{} }
func (provider) Meter(name string, opts ...MeterOption) Meter { return meter{} }
func (meter) Int64Counter(n string, _ ...Int64CounterOption) (Int64Counter, error) {
	verifrec.Create(n, "counter")
	return inst{n}, nil
}
func (meter) Int64UpDownCounter(n string, _ ...Int64UpDownCounterOption) (Int64UpDownCounter, error) {
	return inst{n}, nil
}
func (meter) Int64Histogram(n string, _ ...Int64HistogramOption) (Int64Histogram, error) {
	verifrec.Create(n, "histogram")
	return hist{n}, nil
}
func (meter) Int64Gauge(n string, _ ...Int64GaugeOption) (Int64Gauge, error) { return hist{n}, nil }
func (meter) Float64Counter(n string, _ ...Float64CounterOption) (Float64Counter, error) {
	return finst{n}, nil
}
func (meter) Float64Histogram(n string, _ ...Float64HistogramOption) (Float64Histogram, error) {
	verifrec.Create(n, "histogram")
	return finst{n}, nil
}
func observable(n string, opts []any) {
	for _, o := range opts {
		if cb, ok := o.(Int64Callback); ok {
			verifrec.Create(n, "gauge")
			verifrec.RegisterGauge(n, func() map[string]int64 {
				m := map[string]int64{}
				_ = cb(context.Background(), obs{m})
				return m
			})
		}
	}
}
func (meter) Int64ObservableGauge(n string, o ...Int64ObservableGaugeOption) (Int64ObservableGauge, error) {
	a := make([]any, len(o))
	for i := range o {
		a[i] = o[i]
	}
	observable(n, a)
	return n, nil
}
func (meter) Int64ObservableCounter(n string, o ...Int64ObservableCounterOption) (Int64ObservableCounter, error) {
	a := make([]any, len(o))
	for i := range o {
		a[i] = o[i]
	}
	observable(n, a)
	return n, nil
}
