// Package codes declares status codes.
package codes

// Code is a status code.
type Code uint32

const (
	Unset Code = 0
	Error Code = 1
	Ok    Code = 2
)
