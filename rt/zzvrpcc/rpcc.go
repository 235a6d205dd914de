// Package zzvrpcc has the API of github.com/mafredri/cdp/rpcc that antcdp
// uses, on the browser of zzvbrowser.
package zzvrpcc

import (
	"context"

	real "github.com/mafredri/cdp/rpcc"
	"github.com/yields/ant/internal/zzvbrowser"
)

type (
	Conn       = zzvbrowser.Conn
	Stream     = real.Stream
	DialOption = real.DialOption
)

var (
	ErrConnClosing   = zzvbrowser.ErrClosed
	ErrStreamClosing = real.ErrStreamClosing
)

// DialContext connects to a target.
func DialContext(ctx context.Context, url string, _ ...DialOption) (*Conn, error) {
	if ctx == nil {
		panic("nil Context")
	}
	return zzvbrowser.B.Dial(ctx, url)
}

// Dial connects to a target.
func Dial(url string, _ ...DialOption) (*Conn, error) {
	return zzvbrowser.B.Dial(context.Background(), url)
}

func WithWriteBufferSize(n int) DialOption { return real.WithWriteBufferSize(n) }
func WithCompression() DialOption          { return real.WithCompression() }
