package trace

import (
	"context"
	"encoding/hex"
	"time"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
)

type TraceID [16]byte
type SpanID [8]byte
type TraceFlags byte

const FlagsSampled = TraceFlags(1)

func (t TraceID) String() string    { return hex.EncodeToString(t[:]) }
func (t TraceID) IsValid() bool     { return t != TraceID{} }
func (t SpanID) String() string     { return hex.EncodeToString(t[:]) }
func (t SpanID) IsValid() bool      { return t != SpanID{} }
func (t TraceFlags) String() string { return hex.EncodeToString([]byte{byte(t)}) }

type SpanContextConfig struct {
	TraceID    TraceID
	SpanID     SpanID
	TraceFlags TraceFlags
	Remote     bool
}
type SpanContext struct{ c SpanContextConfig }

func NewSpanContext(c SpanContextConfig) SpanContext { return SpanContext{c} }
func (s SpanContext) HasTraceID() bool               { return s.c.TraceID.IsValid() }
func (s SpanContext) HasSpanID() bool                { return s.c.SpanID.IsValid() }
func (s SpanContext) IsValid() bool                  { return s.HasTraceID() && s.HasSpanID() }
func (s SpanContext) TraceID() TraceID               { return s.c.TraceID }
func (s SpanContext) SpanID() SpanID                 { return s.c.SpanID }
func (s SpanContext) TraceFlags() TraceFlags         { return s.c.TraceFlags }

type SpanEndOption interface{}
type EventOption interface{}
type SpanStartOption interface{}
type TracerOption interface{}

func WithAttributes(kv ...attribute.KeyValue) SpanStartOption { return kv }
func WithTimestamp(t time.Time) SpanStartOption               { return t }

type Span interface {
	End(options ...SpanEndOption)
	AddEvent(name string, options ...EventOption)
	IsRecording() bool
	RecordError(err error, options ...EventOption)
	SpanContext() SpanContext
	SetStatus(code codes.Code, description string)
	SetName(name string)
	SetAttributes(kv ...attribute.KeyValue)
	TracerProvider() TracerProvider
}
type Tracer interface {
	Start(ctx context.Context, spanName string, opts ...SpanStartOption) (context.Context, Span)
}
type TracerProvider interface {
	Tracer(name string, options ...TracerOption) Tracer
}
type span struct{ sc SpanContext }

func (span) End(...SpanEndOption)                {}
func (span) AddEvent(string, ...EventOption)     {}
func (span) IsRecording() bool                   { return false }
func (span) RecordError(error, ...EventOption)   {}
func (s span) SpanContext() SpanContext          { return s.sc }
func (span) SetStatus(codes.Code, string)        {}
func (span) SetName(string)                      {}
func (span) SetAttributes(...attribute.KeyValue) {}
func (span) TracerProvider() TracerProvider      { return NoopProvider{} }

type NoopProvider struct{}
type noopTracer struct{}

func (NoopProvider) Tracer(string, ...TracerOption) Tracer { return noopTracer{} }
func (noopTracer) Start(ctx context.Context, _ string, _ ...SpanStartOption) (context.Context, Span) {
	return ctx, SpanFromContext(ctx)
}

type key struct{}

func ContextWithSpan(ctx context.Context, s Span) context.Context {
	return context.WithValue(ctx, key{}, s)
}
func ContextWithSpanContext(ctx context.Context, sc SpanContext) context.Context {
	return ContextWithSpan(ctx, span{sc})
}
func SpanFromContext(ctx context.Context) Span {
	if ctx != nil {
		if s, ok := ctx.Value(key{}).(Span); ok {
			return s
		}
	}
	return span{}
}
func SpanContextFromContext(ctx context.Context) SpanContext {
	return SpanFromContext(ctx).SpanContext()
}
