package metric

import (
	"context"

	api "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"
)

type InstrumentKind uint8

const (
	InstrumentKindUndefined InstrumentKind = iota
	InstrumentKindCounter
	InstrumentKindUpDownCounter
	InstrumentKindHistogram
	InstrumentKindObservableCounter
	InstrumentKindObservableUpDownCounter
	InstrumentKindObservableGauge
	InstrumentKindGauge
)

type Aggregation interface{}
type AggregationDefault struct{}
type AggregationSum struct{}
type AggregationLastValue struct{}
type AggregationExplicitBucketHistogram struct {
	Boundaries []float64
	NoMinMax   bool
}
type AggregationSelector func(InstrumentKind) Aggregation

func DefaultAggregationSelector(InstrumentKind) Aggregation { return AggregationDefault{} }

type Reader interface{}
type Option interface{}

func WithReader(r Reader) Option               { return r }
func WithResource(r *resource.Resource) Option { return r }
func WithView(v ...any) Option                 { return v }

type MeterProvider struct{ p api.MeterProvider }

func NewMeterProvider(opts ...Option) *MeterProvider { return &MeterProvider{api.NewProvider()} }
func (m *MeterProvider) Meter(n string, o ...api.MeterOption) api.Meter {
	return m.p.Meter(n, o...)
}
func (m *MeterProvider) Shutdown(context.Context) error   { return nil }
func (m *MeterProvider) ForceFlush(context.Context) error { return nil }
