package resource

import "go.opentelemetry.io/otel/attribute"

type Resource struct{ kv []attribute.KeyValue }

func Environment() *Resource { return &Resource{} }
func Default() *Resource     { return &Resource{} }
func Empty() *Resource       { return &Resource{} }
func NewWithAttributes(_ string, kv ...attribute.KeyValue) *Resource {
	return &Resource{kv}
}
func NewSchemaless(kv ...attribute.KeyValue) *Resource { return &Resource{kv} }
func Merge(a, b *Resource) (*Resource, error)          { return a, nil }
