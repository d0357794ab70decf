module go.opentelemetry.io/otel/exporters/otlp/otlptrace

go 1.23
