// Package attribute declares attributes.
package attribute

import "fmt"

// Key of an attribute.
type Key string

// Value of an attribute.
type Value struct{ v interface{} }

// KeyValue is an attribute.
type KeyValue struct {
	Key   Key
	Value Value
}

func (k Key) String(v string) KeyValue   { return KeyValue{k, Value{v}} }
func (k Key) Bool(v bool) KeyValue       { return KeyValue{k, Value{v}} }
func (k Key) Int(v int) KeyValue         { return KeyValue{k, Value{v}} }
func (k Key) Int64(v int64) KeyValue     { return KeyValue{k, Value{v}} }
func (k Key) Float64(v float64) KeyValue { return KeyValue{k, Value{v}} }

func Bool(k string, v bool) KeyValue             { return KeyValue{Key(k), Value{v}} }
func Int(k string, v int) KeyValue               { return KeyValue{Key(k), Value{v}} }
func Int64(k string, v int64) KeyValue           { return KeyValue{Key(k), Value{v}} }
func Float64(k string, v float64) KeyValue       { return KeyValue{Key(k), Value{v}} }
func String(k, v string) KeyValue                { return KeyValue{Key(k), Value{v}} }
func StringSlice(k string, v []string) KeyValue  { return KeyValue{Key(k), Value{v}} }
func Stringer(k string, v fmt.Stringer) KeyValue { return KeyValue{Key(k), Value{v}} }
