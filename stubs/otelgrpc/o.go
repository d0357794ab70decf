// Package otelgrpc stands in for the gRPC instrumentation: it measures the duration of calls only.
package otelgrpc

import (
	"context"

	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	"google.golang.org/grpc/stats"
)

type Option interface{}
type h struct{ d metric.Int64Histogram }
type method struct{}

func (h) TagRPC(ctx context.Context, i *stats.RPCTagInfo) context.Context {
	return context.WithValue(ctx, method{}, i.FullMethodName)
}
func (x h) HandleRPC(ctx context.Context, s stats.RPCStats) {
	if e, ok := s.(*stats.End); ok && x.d != nil {
		m, _ := ctx.Value(method{}).(string)
		x.d.Record(ctx, e.EndTime.Sub(e.BeginTime).Milliseconds(), metric.WithAttributes(attribute.String("rpc.method", m)))
	}
}
func (h) TagConn(ctx context.Context, _ *stats.ConnTagInfo) context.Context { return ctx }
func (h) HandleConn(context.Context, stats.ConnStats)                       {}
func NewServerHandler(_ ...Option) stats.Handler {
	d, _ := otel.GetMeterProvider().Meter("otelgrpc").Int64Histogram("rpc.server.duration")
	return h{d}
}
func NewClientHandler(_ ...Option) stats.Handler { return h{} }
