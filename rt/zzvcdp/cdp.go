// Package zzvcdp has the API of github.com/mafredri/cdp that antcdp uses, on
// the browser of zzvbrowser.
package zzvcdp

import (
	real "github.com/mafredri/cdp"
	"github.com/yields/ant/internal/zzvbrowser"
)

type (
	Client  = real.Client
	Page    = real.Page
	Network = real.Network
	DOM     = real.DOM
	Storage = real.Storage
)

// NewClient returns a client of conn.
func NewClient(conn *zzvbrowser.Conn) *Client { return zzvbrowser.NewClient(conn) }

// ErrorCause returns the cause of err.
func ErrorCause(err error) error { return real.ErrorCause(err) }
