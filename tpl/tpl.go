// Package tpl pulls in the packages that the bundled templates use.
package tpl

import (
	_ "context"
	_ "encoding/json"
	_ "errors"
	_ "fmt"
	_ "strings"
	_ "sync"
	_ "sync/atomic"
	_ "time"

	_ "github.com/opentracing/opentracing-go"
	_ "github.com/opentracing/opentracing-go/ext"
	_ "github.com/opentracing/opentracing-go/log"
	_ "github.com/prometheus/client_golang/prometheus/promauto"
	_ "github.com/sirupsen/logrus"
	_ "github.com/twitchtv/twirp"
	_ "go.elastic.co/apm/v2"
	_ "go.opencensus.io/trace"
	_ "go.opentelemetry.io/otel"
	_ "go.opentelemetry.io/otel/attribute"
	_ "go.opentelemetry.io/otel/codes"
	_ "go.opentelemetry.io/otel/trace"
	_ "google.golang.org/grpc/codes"
	_ "google.golang.org/grpc/status"
)
