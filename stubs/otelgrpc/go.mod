module go.opentelemetry.io/contrib/instrumentation/google.golang.org/grpc/otelgrpc

go 1.23

require (
	go.opentelemetry.io/otel v0.0.0
	go.opentelemetry.io/otel/metric v0.0.0
	google.golang.org/grpc v1.82.0
)
