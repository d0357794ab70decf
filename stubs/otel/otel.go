package otel

import (
	"sync"

	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/trace"
)

var mu sync.Mutex
var mp metric.MeterProvider = metric.NewProvider()
var tp trace.TracerProvider = trace.NoopProvider{}
var prop propagation.TextMapPropagator

func GetMeterProvider() metric.MeterProvider   { mu.Lock(); defer mu.Unlock(); return mp }
func SetMeterProvider(p metric.MeterProvider)  { mu.Lock(); mp = p; mu.Unlock() }
func GetTracerProvider() trace.TracerProvider  { mu.Lock(); defer mu.Unlock(); return tp }
func SetTracerProvider(p trace.TracerProvider) { mu.Lock(); tp = p; mu.Unlock() }
func GetTextMapPropagator() propagation.TextMapPropagator {
	mu.Lock()
	defer mu.Unlock()
	return prop
}
func SetTextMapPropagator(p propagation.TextMapPropagator)    { mu.Lock(); prop = p; mu.Unlock() }
func Meter(name string, _ ...metric.MeterOption) metric.Meter { return GetMeterProvider().Meter(name) }
func Tracer(name string, _ ...trace.TracerOption) trace.Tracer {
	return GetTracerProvider().Tracer(name)
}
func SetErrorHandler(any) {}
