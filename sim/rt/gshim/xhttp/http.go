// Package http is the simulated counterpart of net/http, for the generators.
package http

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/fredbi/go-typeset/zsim/gshim/gworld"
)

type (
	Response      = http.Response
	Request       = http.Request
	Header        = http.Header
	Transport     = http.Transport
	RoundTripper  = http.RoundTripper
	Cookie        = http.Cookie
	CookieJar     = http.CookieJar
	ProtocolError = http.ProtocolError
	MaxBytesError = http.MaxBytesError
)

const (
	MethodConnect                       = http.MethodConnect
	MethodDelete                        = http.MethodDelete
	MethodGet                           = http.MethodGet
	MethodHead                          = http.MethodHead
	MethodOptions                       = http.MethodOptions
	MethodPatch                         = http.MethodPatch
	MethodPost                          = http.MethodPost
	MethodPut                           = http.MethodPut
	MethodTrace                         = http.MethodTrace
	StatusAccepted                      = http.StatusAccepted
	StatusAlreadyReported               = http.StatusAlreadyReported
	StatusBadGateway                    = http.StatusBadGateway
	StatusBadRequest                    = http.StatusBadRequest
	StatusConflict                      = http.StatusConflict
	StatusContinue                      = http.StatusContinue
	StatusCreated                       = http.StatusCreated
	StatusEarlyHints                    = http.StatusEarlyHints
	StatusExpectationFailed             = http.StatusExpectationFailed
	StatusFailedDependency              = http.StatusFailedDependency
	StatusForbidden                     = http.StatusForbidden
	StatusFound                         = http.StatusFound
	StatusGatewayTimeout                = http.StatusGatewayTimeout
	StatusGone                          = http.StatusGone
	StatusHTTPVersionNotSupported       = http.StatusHTTPVersionNotSupported
	StatusIMUsed                        = http.StatusIMUsed
	StatusInsufficientStorage           = http.StatusInsufficientStorage
	StatusInternalServerError           = http.StatusInternalServerError
	StatusLengthRequired                = http.StatusLengthRequired
	StatusLocked                        = http.StatusLocked
	StatusLoopDetected                  = http.StatusLoopDetected
	StatusMethodNotAllowed              = http.StatusMethodNotAllowed
	StatusMisdirectedRequest            = http.StatusMisdirectedRequest
	StatusMovedPermanently              = http.StatusMovedPermanently
	StatusMultiStatus                   = http.StatusMultiStatus
	StatusMultipleChoices               = http.StatusMultipleChoices
	StatusNetworkAuthenticationRequired = http.StatusNetworkAuthenticationRequired
	StatusNoContent                     = http.StatusNoContent
	StatusNonAuthoritativeInfo          = http.StatusNonAuthoritativeInfo
	StatusNotAcceptable                 = http.StatusNotAcceptable
	StatusNotExtended                   = http.StatusNotExtended
	StatusNotFound                      = http.StatusNotFound
	StatusNotImplemented                = http.StatusNotImplemented
	StatusNotModified                   = http.StatusNotModified
	StatusOK                            = http.StatusOK
	StatusPartialContent                = http.StatusPartialContent
	StatusPaymentRequired               = http.StatusPaymentRequired
	StatusPermanentRedirect             = http.StatusPermanentRedirect
	StatusPreconditionFailed            = http.StatusPreconditionFailed
	StatusPreconditionRequired          = http.StatusPreconditionRequired
	StatusProcessing                    = http.StatusProcessing
	StatusProxyAuthRequired             = http.StatusProxyAuthRequired
	StatusRequestEntityTooLarge         = http.StatusRequestEntityTooLarge
	StatusRequestHeaderFieldsTooLarge   = http.StatusRequestHeaderFieldsTooLarge
	StatusRequestTimeout                = http.StatusRequestTimeout
	StatusRequestURITooLong             = http.StatusRequestURITooLong
	StatusRequestedRangeNotSatisfiable  = http.StatusRequestedRangeNotSatisfiable
	StatusResetContent                  = http.StatusResetContent
	StatusSeeOther                      = http.StatusSeeOther
	StatusServiceUnavailable            = http.StatusServiceUnavailable
	StatusSwitchingProtocols            = http.StatusSwitchingProtocols
	StatusTeapot                        = http.StatusTeapot
	StatusTemporaryRedirect             = http.StatusTemporaryRedirect
	StatusTooEarly                      = http.StatusTooEarly
	StatusTooManyRequests               = http.StatusTooManyRequests
	StatusUnauthorized                  = http.StatusUnauthorized
	StatusUnavailableForLegalReasons    = http.StatusUnavailableForLegalReasons
	StatusUnprocessableEntity           = http.StatusUnprocessableEntity
	StatusUnsupportedMediaType          = http.StatusUnsupportedMediaType
	StatusUpgradeRequired               = http.StatusUpgradeRequired
	StatusUseProxy                      = http.StatusUseProxy
	StatusVariantAlsoNegotiates         = http.StatusVariantAlsoNegotiates
	TimeFormat                          = http.TimeFormat
	DefaultMaxHeaderBytes               = http.DefaultMaxHeaderBytes
)

var (
	DefaultClient                      = &Client{}
	DefaultTransport      RoundTripper = simulated{}
	ErrBodyReadAfterClose              = http.ErrBodyReadAfterClose
	NoBody                             = http.NoBody
	ErrUseLastResponse                 = http.ErrUseLastResponse
	ErrNoLocation                      = http.ErrNoLocation
	ErrHandlerTimeout                  = http.ErrHandlerTimeout
	ErrContentLength                   = http.ErrContentLength
)

// Client talks to the simulated network.
type Client struct {
	Transport     RoundTripper
	CheckRedirect func(req *Request, via []*Request) error
	Jar           CookieJar
	Timeout       time.Duration
}

func StatusText(code int) string { return http.StatusText(code) }

func NewRequest(method, u string, body io.Reader) (*Request, error) {
	return http.NewRequest(method, u, body)
}

func NewRequestWithContext(ctx context.Context, method, u string, body io.Reader) (*Request, error) {
	return http.NewRequestWithContext(ctx, method, u, body)
}

func Get(u string) (*Response, error)  { return DefaultClient.Get(u) }
func Head(u string) (*Response, error) { return DefaultClient.Head(u) }
func Post(u, contentType string, body io.Reader) (*Response, error) {
	return DefaultClient.Post(u, contentType, body)
}

// Get a page.
func (c *Client) Get(u string) (*Response, error) { return c.request(MethodGet, u, nil) }

// Head of a page.
func (c *Client) Head(u string) (*Response, error) { return c.request(MethodHead, u, nil) }

// Post to a page.
func (c *Client) Post(u, contentType string, body io.Reader) (*Response, error) {
	return c.request(MethodPost, u, body)
}

func (c *Client) request(method, u string, body io.Reader) (*Response, error) {
	req, err := http.NewRequest(method, u, body)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

// CloseIdleConnections does nothing.
func (c *Client) CloseIdleConnections() {}

type simulated struct{}

// Do a request.
func (c *Client) Do(req *Request) (*Response, error) {
	var rt RoundTripper = simulated{}
	if c.Transport != nil {
		if _, std := c.Transport.(*http.Transport); !std {
			rt = c.Transport
		}
	}
	resp, err := rt.RoundTrip(req)
	if err != nil {
		return nil, &url.Error{Op: strings.ToUpper(req.Method[:1]) + strings.ToLower(req.Method[1:]), URL: req.URL.String(), Err: err}
	}
	return resp, nil
}

// RoundTrip over the simulated network.
func (simulated) RoundTrip(req *Request) (*Response, error) {
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	r, err := gworld.Request(req.Method, req.URL.String(), req.Context().Err)
	if err != nil {
		return nil, err
	}
	header := Header{"Content-Type": {"text/plain; charset=utf-8"}}
	if r.Size >= 0 {
		header.Set("Content-Length", fmt.Sprint(r.Size))
	}
	return &Response{
		Status:        fmt.Sprintf("%d %s", r.Status, http.StatusText(r.Status)),
		StatusCode:    r.Status,
		Proto:         "HTTP/1.1",
		ProtoMajor:    1,
		ProtoMinor:    1,
		Header:        header,
		Body:          r.Body,
		ContentLength: r.Size,
		Request:       req,
	}, nil
}

// PostForm to a page.
func (c *Client) PostForm(u string, data url.Values) (*Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(data.Encode()))
}

func PostForm(u string, data url.Values) (*Response, error) { return DefaultClient.PostForm(u, data) }
func ProxyFromEnvironment(*Request) (*url.URL, error)       { return nil, nil }
func MaxBytesReader(_ http.ResponseWriter, r io.ReadCloser, n int64) io.ReadCloser {
	return http.MaxBytesReader(nil, r, n)
}
func CanonicalHeaderKey(s string) string    { return http.CanonicalHeaderKey(s) }
func DetectContentType(b []byte) string     { return http.DetectContentType(b) }
func ParseTime(s string) (time.Time, error) { return http.ParseTime(s) }
