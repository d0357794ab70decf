module go.opentelemetry.io/otel/exporters/otlp/otlptrace/otlptracegrpc

go 1.23

require go.opentelemetry.io/otel/exporters/otlp/otlptrace v0.0.0
