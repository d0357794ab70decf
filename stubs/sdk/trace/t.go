package trace

import (
	"context"

	"go.opentelemetry.io/otel/sdk/resource"
	"go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/verifrec"
)

type SpanExporter interface {
	Shutdown(ctx context.Context) error
}
type TracerProviderOption interface{}
type BatchSpanProcessorOption interface{}
type TracerProvider struct{ trace.NoopProvider }

func NewTracerProvider(opts ...TracerProviderOption) *TracerProvider                 { return &TracerProvider{} }
func (*TracerProvider) Shutdown(context.Context) error                               { verifrec.TracerShutdown(); return nil }
func (*TracerProvider) ForceFlush(context.Context) error                             { return nil }
func WithBatcher(e SpanExporter, _ ...BatchSpanProcessorOption) TracerProviderOption { return e }
func WithSyncer(e SpanExporter) TracerProviderOption                                 { return e }
func WithResource(r *resource.Resource) TracerProviderOption                         { return r }
