// Package zzvdevtool has the API of github.com/mafredri/cdp/devtool that
// antcdp uses, on the browser of zzvbrowser.
package zzvdevtool

import (
	"context"

	real "github.com/mafredri/cdp/devtool"
	"github.com/yields/ant/internal/zzvbrowser"
)

type (
	Target         = real.Target
	Type           = real.Type
	DevToolsOption = real.DevToolsOption
)

const Page = real.Page

// DevTools is a browser.
type DevTools struct{ url string }

// New returns the browser at url.
func New(url string, _ ...DevToolsOption) *DevTools { return &DevTools{url: url} }

// Create creates a target.
func (d *DevTools) Create(ctx context.Context) (*Target, error) { return zzvbrowser.B.Create(ctx) }

// CreateURL creates a target.
func (d *DevTools) CreateURL(ctx context.Context, _ string) (*Target, error) {
	return zzvbrowser.B.Create(ctx)
}

// Close closes a target.
func (d *DevTools) Close(ctx context.Context, t *Target) error { return ctx.Err() }
