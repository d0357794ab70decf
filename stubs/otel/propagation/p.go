package propagation

import "context"

type TextMapCarrier interface {
	Get(string) string
	Set(string, string)
	Keys() []string
}
type TextMapPropagator interface {
	Inject(ctx context.Context, c TextMapCarrier)
	Extract(ctx context.Context, c TextMapCarrier) context.Context
	Fields() []string
}
type TraceContext struct{}
type Baggage struct{}
type noop struct{}

func (noop) Inject(context.Context, TextMapCarrier)                                {}
func (noop) Extract(ctx context.Context, _ TextMapCarrier) context.Context         { return ctx }
func (noop) Fields() []string                                                      { return nil }
func (TraceContext) Inject(context.Context, TextMapCarrier)                        {}
func (TraceContext) Extract(ctx context.Context, _ TextMapCarrier) context.Context { return ctx }
func (TraceContext) Fields() []string                                              { return nil }
func (Baggage) Inject(context.Context, TextMapCarrier)                             {}
func (Baggage) Extract(ctx context.Context, _ TextMapCarrier) context.Context      { return ctx }
func (Baggage) Fields() []string                                                   { return nil }
func NewCompositeTextMapPropagator(p ...TextMapPropagator) TextMapPropagator       { return noop{} }
