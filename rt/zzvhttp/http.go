// Package zzvhttp is the executor's model of net/http clients.
package zzvhttp

import (
	"errors"
	"net/http"
	"net/url"
)

// ClientDo replaces (*http.Client).Do: one round trip over the client's
// transport, errors wrapped like net/http does. Redirects, cookies and the
// overall timeout are not modelled; the harness transports never ask for them.
func ClientDo(c *http.Client, req *http.Request) (*http.Response, error) {
	if c.Transport == nil {
		return nil, errors.New("zzvhttp: no transport")
	}
	resp, err := c.Transport.RoundTrip(req)
	if err != nil {
		return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: err}
	}
	if resp.Body == nil {
		resp.Body = http.NoBody
	}
	return resp, nil
}
