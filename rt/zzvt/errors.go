package zzvt

import (
	"context"
	"fmt"
	"io"
	"io/fs"
	"net"
)

// Errors are errors that code may be tempted to treat like no error.
var Errors = []error{
	io.ErrUnexpectedEOF,
	context.Canceled,
	net.ErrClosed,
	fs.ErrPermission,
	fmt.Errorf("wrapped: %w", io.EOF),
	fmt.Errorf("wrapped: %w", fs.ErrNotExist),
}

// Error is own or any of others, or of Errors when there are none.
func Error(name string, own error, others ...error) error {
	if len(others) == 0 {
		others = Errors
	}
	if k := Choose(name, len(others)+1); k > 0 {
		return others[k-1]
	}
	return own
}
