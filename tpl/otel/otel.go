// Package otel declares the part of the OpenTelemetry API that decorators may
// use; the module itself is not available offline.
package otel

import "go.opentelemetry.io/otel/trace"

// Tracer creates a named tracer.
func Tracer(name string, opts ...trace.TracerOption) trace.Tracer { return nil }

// GetTracerProvider returns the registered global trace provider.
func GetTracerProvider() trace.TracerProvider { return nil }
