// Package attribute is an API-compatible stand-in for go.opentelemetry.io/otel/attribute (not available offline).
package attribute

import (
	"fmt"
	"sort"
	"strings"
)

type Key string
type Type int

const (
	INVALID Type = iota
	BOOL
	INT64
	FLOAT64
	STRING
	BOOLSLICE
	INT64SLICE
	FLOAT64SLICE
	STRINGSLICE
)

type Value struct {
	t Type
	v any
}

func (v Value) Type() Type              { return v.t }
func (v Value) AsInterface() any        { return v.v }
func (v Value) AsString() string        { s, _ := v.v.(string); return s }
func (v Value) AsInt64() int64          { s, _ := v.v.(int64); return s }
func (v Value) AsBool() bool            { s, _ := v.v.(bool); return s }
func (v Value) AsFloat64() float64      { s, _ := v.v.(float64); return s }
func (v Value) AsStringSlice() []string { s, _ := v.v.([]string); return s }
func (v Value) Emit() string            { return fmt.Sprint(v.v) }

type KeyValue struct {
	Key   Key
	Value Value
}

func (kv KeyValue) Valid() bool { return kv.Key != "" }

func (k Key) String(v string) KeyValue          { return String(string(k), v) }
func (k Key) Int64(v int64) KeyValue            { return Int64(string(k), v) }
func (k Key) Int(v int) KeyValue                { return Int(string(k), v) }
func (k Key) Bool(v bool) KeyValue              { return Bool(string(k), v) }
func (k Key) Float64(v float64) KeyValue        { return Float64(string(k), v) }
func (k Key) StringSlice(v []string) KeyValue   { return StringSlice(string(k), v) }
func String(k string, v string) KeyValue        { return KeyValue{Key(k), Value{STRING, v}} }
func Int64(k string, v int64) KeyValue          { return KeyValue{Key(k), Value{INT64, v}} }
func Int(k string, v int) KeyValue              { return KeyValue{Key(k), Value{INT64, int64(v)}} }
func Bool(k string, v bool) KeyValue            { return KeyValue{Key(k), Value{BOOL, v}} }
func Float64(k string, v float64) KeyValue      { return KeyValue{Key(k), Value{FLOAT64, v}} }
func StringSlice(k string, v []string) KeyValue { return KeyValue{Key(k), Value{STRINGSLICE, v}} }
func IntSlice(k string, v []int) KeyValue       { return KeyValue{Key(k), Value{INT64SLICE, v}} }
func Int64Slice(k string, v []int64) KeyValue   { return KeyValue{Key(k), Value{INT64SLICE, v}} }
func Float64Slice(k string, v []float64) KeyValue {
	return KeyValue{Key(k), Value{FLOAT64SLICE, v}}
}
func BoolSlice(k string, v []bool) KeyValue      { return KeyValue{Key(k), Value{BOOLSLICE, v}} }
func Stringer(k string, v fmt.Stringer) KeyValue { return String(k, v.String()) }
func StringValue(v string) Value                 { return Value{STRING, v} }
func Int64Value(v int64) Value                   { return Value{INT64, v} }

type Set struct{ kvs []KeyValue }

func NewSet(kvs ...KeyValue) Set {
	m := map[Key]KeyValue{}
	for _, kv := range kvs {
		m[kv.Key] = kv
	}
	s := Set{}
	for _, kv := range m {
		s.kvs = append(s.kvs, kv)
	}
	sort.Slice(s.kvs, func(i, j int) bool { return s.kvs[i].Key < s.kvs[j].Key })
	return s
}
func EmptySet() *Set               { return &Set{} }
func (s *Set) Len() int            { return len(s.kvs) }
func (s *Set) ToSlice() []KeyValue { return append([]KeyValue(nil), s.kvs...) }
func (s *Set) Value(k Key) (Value, bool) {
	for _, kv := range s.kvs {
		if kv.Key == k {
			return kv.Value, true
		}
	}
	return Value{}, false
}
func (s *Set) Encoded() string {
	var p []string
	for _, kv := range s.kvs {
		p = append(p, string(kv.Key)+"="+kv.Value.Emit())
	}
	return strings.Join(p, ",")
}
