module go.opentelemetry.io/otel

go 1.23

require (
	go.opentelemetry.io/otel/metric v0.0.0
	go.opentelemetry.io/otel/trace v0.0.0
)
