module go.opentelemetry.io/otel/trace

go 1.23

require go.opentelemetry.io/otel v0.0.0
