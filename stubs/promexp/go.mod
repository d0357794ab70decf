module go.opentelemetry.io/otel/exporters/prometheus

go 1.23

require (
	github.com/prometheus/client_golang v1.23.2
	go.opentelemetry.io/otel v0.0.0
	go.opentelemetry.io/otel/sdk/metric v0.0.0
)
