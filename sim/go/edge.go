package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// The edge platform: points of presence that run the edge build of the monitor,
// one instance per request, with a config store, a cache shared by the requests
// of a point of presence, and a backend to fetch from.
type Edge struct {
	w      *World
	node   *Node
	pops   []*pop
	rng    *Rng
	calls  map[uint64]*edgeCall
	next   uint64
	local  bool
	client *http.Client
}

type pop struct {
	cache   map[string]*cached
	pending map[string]*pendingFetch
}

type cached struct {
	body    []byte
	expires time.Time
}

type pendingFetch struct {
	done chan struct{}
	err  error
}

// edgeCall is one request served at the edge.
type edgeCall struct {
	pop      *pop
	requests int
	hits     int
	bodies   []io.Closer
	path     string
}

const edgeBackend = "logstore"

// platformLimit is how many backend requests the platform lets one request make.
const platformLimit = 32

func (e *Edge) call() *edgeCall { return e.calls[runtime.VerifTag()] }

func (w *World) startEdge() {
	n := w.newNode("monitor", monHost, -1, 1)
	w.monitor = n
	e := &Edge{w: w, node: n, rng: w.rng.Fork("edge"), calls: map[uint64]*edgeCall{}}
	w.edge = e
	for i := 0; i < max(1, w.plan.Cfg.Pops); i++ {
		e.pops = append(e.pops, &pop{cache: map[string]*cached{}, pending: map[string]*pendingFetch{}})
	}
	e.local = w.plan.Cfg.Backend == "local"
	os.Setenv("FASTLY_SERVICE_VERSION", "7")
	os.Unsetenv("FASTLY_HOSTNAME")
	if e.local {
		os.Setenv("FASTLY_HOSTNAME", "localhost")
	}
	e.client = &http.Client{Timeout: 60 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
		Transport: &http.Transport{DisableKeepAlives: true, DialContext: (&net.Dialer{Timeout: time.Second}).DialContext, ResponseHeaderTimeout: 15 * time.Second}}
	edgeInstall(e)
	addrs := []string{monAddr}
	if w.plan.Cfg.OtherSize > 0 {
		w.other = NewOther(w, w.plan.Cfg.OtherSize)
		addrs = append(addrs, otherAddr)
	}
	for _, a := range addrs {
		l := w.net.Listen(a, n.id)
		goInfra(func() {
			runtime.VerifSetNode(n.id)
			(&http.Server{Handler: e, ErrorLog: log.New(io.Discard, "", 0)}).Serve(l)
		})
	}
}

func (e *Edge) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	c := &edgeCall{pop: e.pops[e.rng.Intn(len(e.pops))], path: r.URL.Path}
	e.next++
	tag := e.next
	e.calls[tag] = c
	w := e.w
	out := &edgeAnswer{header: map[string][]string{}}
	done := make(chan struct{})
	var trap any
	go func() { // an instance of its own
		runtime.VerifSetTag(tag)
		defer close(done)
		defer func() { trap = recover() }()
		edgeServe(context.Background(), out, r)
	}()
	<-done
	delete(e.calls, tag)
	for _, b := range c.bodies {
		b.Close()
	}
	w.count("edge-requests")
	asInfra(func() { e.judge(c) })
	rw.Header().Set("X-Edge-Requests", strconv.Itoa(c.requests))
	rw.Header().Set("X-Edge-Hits", strconv.Itoa(c.hits))
	if trap != nil {
		w.count("edge-traps")
		asInfra(func() { w.event("edge instance trapped: %v", trap) })
		rw.WriteHeader(500)
		return
	}
	for k, v := range out.header {
		rw.Header()[http.CanonicalHeaderKey(k)] = v
	}
	if out.code == 0 {
		out.code = 200
	}
	rw.WriteHeader(out.code)
	rw.Write(out.body.Bytes())
}

func (e *Edge) judge(c *edgeCall) {
	limit := platformLimit
	if strings.HasSuffix(c.path, "/get-entries") {
		limit = 10
	}
	e.w.count(fmt.Sprintf("edge-backend-requests:%02d", c.requests))
	if c.requests > limit {
		e.w.o.violation("C18", "edge:over-budget", "a request for %s made %d requests to the backend, the limit is %d", c.path, c.requests, limit)
	}
}

type edgeAnswer struct {
	header map[string][]string
	code   int
	body   bytes.Buffer
}

func (a *edgeAnswer) WriteHeader(code int) {
	if a.code == 0 {
		a.code = code
	}
}
func (a *edgeAnswer) Write(p []byte) (int, error) {
	a.WriteHeader(200)
	return a.body.Write(p)
}
func (a *edgeAnswer) Close() error              { a.WriteHeader(200); return nil }
func (a *edgeAnswer) SetManualFramingMode(bool) {}
func (a *edgeAnswer) Append(r io.ReadCloser) error {
	b, err := io.ReadAll(r)
	a.Write(b)
	return err
}

// ---- what the platform offers the code

func (e *Edge) lookup(store, key string) (string, bool) {
	if store == "hostmap" && (key == monAddr || key == monHost) {
		return edgeBackend, true
	}
	if store == "hostmap" && e.w.other != nil && (key == otherAddr || key == otherHost) {
		return otherBackend, true
	}
	return "", false
}

var errEdge = errors.New("simulated error of the platform")

// send fetches from the backend.
func (e *Edge) send(method string, u *url.URL, header map[string][]string, backend string) (*http.Response, error) {
	c := e.call()
	if c == nil {
		return nil, errEdge
	}
	if backend != edgeBackend && (backend != otherBackend || e.w.other == nil) {
		return nil, errors.New("backend not found")
	}
	c.requests++
	if c.requests > platformLimit {
		return nil, errors.New("limit exceeded")
	}
	if backend == otherBackend {
		return e.w.other.respond(u), nil
	}
	req, err := http.NewRequest(method, "http://"+s3Addr+"/"+s3Bucket+u.RequestURI(), nil)
	if err != nil {
		return nil, err
	}
	for k, v := range header {
		req.Header[http.CanonicalHeaderKey(k)] = v
	}
	resp, err := e.client.Do(req)
	if err == nil {
		c.bodies = append(c.bodies, resp.Body)
	}
	return resp, err
}

func (e *Edge) platformFault(what string) {
	asInfra(func() {
		e.w.fault("edge-" + what)
		e.w.monFaults++
	})
}

// asked says whether these are the properties of a monitor's answers.
func (e *Edge) asked(props string) bool {
	for _, p := range strings.Fields(props) {
		if p == "C06" || p == "C07" || p == "C14" || p == "C17" {
			return true
		}
	}
	return false
}

func (e *Edge) chance(of int) bool { return of > 0 && !e.w.healed && e.rng.Chance(1, of) }

// getOrSet is the cache, with request collapsing.
func (e *Edge) getOrSet(key string, fetch func() (io.Reader, time.Duration, error)) (io.ReadCloser, error) {
	w := e.w
	c := e.call()
	if c == nil {
		return nil, errEdge
	}
	cfg := &w.plan.Cfg
	p := c.pop
	time.Sleep(time.Duration(e.rng.Intn(2000)) * time.Microsecond)
	if e.chance(cfg.CacheErr) {
		e.platformFault("cache-error")
		return nil, errEdge
	}
	for {
		if f := p.pending[key]; f != nil {
			w.count("edge-collapsed")
			<-f.done
			if f.err != nil && e.rng.Chance(1, 2) {
				return nil, f.err // concurrent readers of a failed insertion see an error
			}
			if f.err != nil {
				continue
			}
		}
		if o := p.cache[key]; o != nil {
			if !time.Now().Before(o.expires) {
				delete(p.cache, key)
				w.count("edge-expired")
			} else if e.chance(cfg.Evict) {
				delete(p.cache, key)
				w.fault("edge-evict")
			} else {
				c.hits++
				w.count("edge-hits")
				return e.reader(o.body), nil
			}
		}
		if p.pending[key] == nil {
			break
		}
	}
	f := &pendingFetch{done: make(chan struct{}), err: errEdge}
	p.pending[key] = f
	defer func() {
		delete(p.pending, key)
		close(f.done)
	}()
	var body []byte
	r, ttl, err := fetch()
	if err == nil {
		body, err = io.ReadAll(r)
	}
	if err == nil && e.chance(cfg.CacheErr) {
		e.platformFault("cache-insert-error")
		err = errEdge
	}
	if f.err = err; err != nil {
		w.monFaults++ // for those who wait
		return nil, err
	}
	w.count("edge-fetched")
	if ttl > 0 {
		p.cache[key] = &cached{body, time.Now().Add(ttl)}
	}
	return e.reader(body), nil
}

func (e *Edge) reader(b []byte) io.ReadCloser {
	if e.chance(e.w.plan.Cfg.CacheErr) {
		e.platformFault("cache-read-error")
		return io.NopCloser(io.MultiReader(bytes.NewReader(b[:e.rng.Intn(len(b)+1)]), failingReader{}))
	}
	return io.NopCloser(bytes.NewReader(b))
}

type failingReader struct{}

func (failingReader) Read([]byte) (int, error) { return 0, errEdge }

// ---- freshness

// cacheControl is what the store says about an object of a class.
func cacheControl(backend, class string) string {
	switch backend {
	case "doc": // as the design document has it
		switch class {
		case "sth":
			return "public, max-age=60"
		case "hashes":
			return "public, max-age=86000"
		}
		return "public, max-age=31536000, immutable"
	case "short":
		switch class {
		case "sth":
			return "max-age=1"
		case "hashes":
			return "max-age=3, public"
		}
		return "max-age=20"
	case "zero":
		return "no-cache, max-age=0"
	case "bad":
		if class == "sth" {
			return "max-age=10"
		}
		return "max-age=soon"
	case "other":
		if class == "sth" || class == "hashes" {
			return "s-maxage=1,max-age=7 , must-revalidate"
		}
		return "public"
	}
	return ""
}

// staleFor is how long the edge may serve an old tree head or index.
func (w *World) staleFor() time.Duration {
	if w.edge.local {
		return 0
	}
	switch w.plan.Cfg.Backend {
	case "doc":
		return 86000 * time.Second
	case "short":
		return 3 * time.Second
	case "zero":
		return 0
	case "other":
		return 7 * time.Second
	}
	return 12 * time.Hour
}

// agedSize is a size every point of presence must know about by now.
func (w *World) agedSize() uint64 {
	o := w.o
	slack := w.staleFor() + 6*w.opTime() + 2*time.Second
	for i := len(o.pub); i > 0; i-- {
		if time.Since(o.pubAt[o.pub[i-1]]) > slack {
			return o.pub[i-1]
		}
	}
	return 0
}

// known says whether a request about a tree of size n must succeed.
func (w *World) known(n uint64, must bool) bool {
	return must && (w.edge == nil || n <= w.agedSize())
}
