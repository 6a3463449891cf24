// Package trace declares tracers and spans.
package trace

import (
	"context"
	"time"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
)

type TracerOption interface{ tracer() }
type SpanStartOption interface{ start() }
type SpanEndOption interface{ end() }
type EventOption interface{ event() }
type SpanStartEventOption interface {
	SpanStartOption
	EventOption
}
type SpanOption interface {
	SpanStartOption
	SpanEndOption
}
type SpanEventOption interface {
	SpanOption
	EventOption
}

type SpanContext struct{ id string }

type SpanKind int

const (
	SpanKindUnspecified SpanKind = 0
	SpanKindInternal    SpanKind = 1
	SpanKindServer      SpanKind = 2
	SpanKindClient      SpanKind = 3
	SpanKindProducer    SpanKind = 4
	SpanKindConsumer    SpanKind = 5
)

type TracerProvider interface {
	Tracer(name string, options ...TracerOption) Tracer
}

type Tracer interface {
	Start(ctx context.Context, spanName string, opts ...SpanStartOption) (context.Context, Span)
}

type Span interface {
	End(options ...SpanEndOption)
	AddEvent(name string, options ...EventOption)
	IsRecording() bool
	RecordError(err error, options ...EventOption)
	SpanContext() SpanContext
	SetStatus(code codes.Code, description string)
	SetName(name string)
	SetAttributes(kv ...attribute.KeyValue)
	TracerProvider() TracerProvider
}

func WithAttributes(attributes ...attribute.KeyValue) SpanStartEventOption { return nil }
func WithSpanKind(kind SpanKind) SpanStartOption                           { return nil }
func WithTimestamp(t time.Time) SpanEventOption                            { return nil }
func WithStackTrace(b bool) SpanEventOption                                { return nil }
func WithNewRoot() SpanStartOption                                         { return nil }
func SpanFromContext(ctx context.Context) Span                             { return nil }
func ContextWithSpan(parent context.Context, span Span) context.Context    { return nil }
