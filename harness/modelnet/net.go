// Package modelnet replaces the network: what is asked for is recorded and answered as the
// harness says.
package modelnet

import (
	"errors"
	"io"
	"net/http"
	"strings"
	"sync"

	"github.com/adrg/xdg"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// Answer is what the server does with a request.
type Answer struct {
	Fail   bool // no connection
	Never  bool // no answer
	Status int
	Body   string
	Cut    bool // the connection is lost after Body
	ETag   string
	Match  bool // 304 if the request names the ETag
	Wait   bool // other goroutines run before the answer comes
}

// Request is a request that was made.
type Request struct{ URL, Match string }

var (
	mu       sync.Mutex
	requests []Request
	answers  []Answer
	hung     = make(chan struct{})
)

// Serve answers the requests in order, the last answer being given again and again.
func Serve(a ...Answer) {
	answers = a
	if !sym.Symbolic() {
		http.DefaultTransport = transport{}
		http.DefaultClient.Transport = transport{}
	}
}

// Requests lists the requests made so far.
func Requests() []Request {
	if !sym.Symbolic() {
		mu.Lock()
		defer mu.Unlock()
	}
	return append([]Request(nil), requests...)
}

type transport struct{}

func (transport) RoundTrip(r *http.Request) (*http.Response, error) { return answer(r) }

type body struct {
	io.Reader
	cut bool
}

func (b *body) Read(p []byte) (int, error) {
	n, err := b.Reader.Read(p)
	if err == io.EOF && b.cut {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func (b *body) Close() error { return nil }

//zz:replace (*net/http.Client).Do
func do(c *http.Client, r *http.Request) (*http.Response, error) { return answer(r) }

func answer(r *http.Request) (*http.Response, error) {
	if !sym.Symbolic() {
		mu.Lock()
	}
	i := len(requests)
	requests = append(requests, Request{r.URL.String(), r.Header.Get("If-None-Match")})
	if i >= len(answers) {
		i = len(answers) - 1
	}
	a := Answer{Fail: true}
	if i >= 0 {
		a = answers[i]
	}
	if !sym.Symbolic() {
		mu.Unlock()
	}
	if a.Never {
		select {
		case <-r.Context().Done():
			return nil, r.Context().Err()
		case <-hung:
		}
	}
	if a.Wait {
		sym.Yield()
	}
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	if a.Fail {
		return nil, errors.New("no connection")
	}
	if a.Match && a.ETag != "" && r.Header.Get("If-None-Match") == a.ETag {
		a.Status, a.Body = http.StatusNotModified, ""
	}
	h := http.Header{}
	if a.ETag != "" {
		h.Set("ETag", a.ETag)
	}
	return &http.Response{StatusCode: a.Status, Header: h, Body: &body{strings.NewReader(a.Body), a.Cut}, Request: r}, nil
}

// Setup puts the cache below the harness's directory.
func Setup() {
	model.SetEnv("XDG_CACHE_HOME", model.P("cache"))
	model.UnsetEnv("CI")
	model.UnsetEnv("BAB_NO_UPDATE_CHECK")
	if !sym.Symbolic() {
		xdg.Reload()
	}
}

// Cache is where the cache file lies.
func Cache() string { return model.P("cache/bab/update-check.json") }

//zz:replace github.com/adrg/xdg.CacheFile
func cacheFile(rel string) (string, error) {
	base := model.EnvValue("XDG_CACHE_HOME")
	if base == "" {
		base = "/w/cache"
	}
	p := base + "/" + rel
	d := p[:strings.LastIndex(p, "/")]
	if err := model.MkdirAll(d, 0o700); err != nil {
		return "", err
	}
	return p, nil
}
