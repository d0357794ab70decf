package otlptracegrpc

import (
	"context"

	"go.opentelemetry.io/otel/exporters/otlp/otlptrace"
)

type Option interface{}
type c struct{}

func (c) Start(context.Context) error        { return nil }
func NewClient(_ ...Option) otlptrace.Client { return c{} }
func WithInsecure() Option                   { return nil }
func WithEndpoint(string) Option             { return nil }
