package main

import (
	"context"
	"crypto/md5"
	"encoding/hex"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"time"
)

// S3 is the simulated object store: atomic, strongly consistent objects behind
// the S3 HTTP protocol (path style), which also serves public reads to monitors.
type S3 struct {
	w       *World
	addr    string
	bucket  string
	objs    map[string][]byte
	Latency time.Duration
	Jitter  time.Duration
	rng     *Rng
	down    bool
	active  int
}

type connKey struct{}

func NewS3(w *World, addr, bucket string, seed uint64) *S3 {
	s := &S3{w: w, addr: addr, bucket: bucket, objs: map[string][]byte{}, rng: NewRng(seed)}
	l := w.net.Listen(addr, 0)
	srv := &http.Server{Handler: s, ErrorLog: log.New(io.Discard, "", 0),
		ConnContext: func(ctx context.Context, c net.Conn) context.Context { return context.WithValue(ctx, connKey{}, c) }}
	go srv.Serve(l)
	return s
}

// classOf maps an object key to the name faults and statistics use.
func classOf(key string) string {
	switch {
	case key == "ct/v1/get-sth":
		return "sth"
	case key == "checkpoint":
		return "checkpoint"
	case key == "ct/v1/get-roots":
		return "roots"
	case strings.HasPrefix(key, "tile/data/"):
		return "data"
	case strings.HasPrefix(key, "tile/"):
		return "tile"
	case strings.HasPrefix(key, "int/hashes/"):
		return "hashes"
	case strings.HasPrefix(key, "int/dedupe/"):
		return "dedupe"
	case strings.HasPrefix(key, "issuer/"):
		return "issuer"
	}
	return "other"
}

func (s *S3) Keys() []string {
	ks := make([]string, 0, len(s.objs))
	for k := range s.objs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Put installs an object and tells the observers.
func (s *S3) Put(node uint32, key string, data []byte) {
	old, had := s.objs[key]
	s.objs[key] = data
	s.w.onStoreWrite(node, key, old, had, data)
}

func (s *S3) delay() time.Duration {
	d := s.Latency
	if s.Jitter > 0 {
		d += time.Duration(s.rng.Intn(int(s.Jitter)))
	}
	return d
}

func abortConn(r *http.Request) {
	if c, ok := r.Context().Value(connKey{}).(*Conn); ok {
		c.Reset()
	}
	panic(http.ErrAbortHandler)
}

func s3Error(w http.ResponseWriter, r *http.Request, status int, code string) {
	body := fmt.Sprintf("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Error><Code>%s</Code><Message>simulated</Message><RequestId>1</RequestId></Error>", code)
	w.Header().Set("Content-Type", "application/xml")
	w.Header().Set("Content-Length", strconv.Itoa(len(body)))
	w.WriteHeader(status)
	if r.Method != "HEAD" {
		io.WriteString(w, body)
	}
}

func errCode(status int) string {
	switch status {
	case 403:
		return "AccessDenied"
	case 429:
		return "SlowDown"
	case 503:
		return "ServiceUnavailable"
	case 400:
		return "InvalidRequest"
	}
	return "InternalError"
}

func (s *S3) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.active++
	defer func() { s.active-- }()
	conn, _ := r.Context().Value(connKey{}).(*Conn)
	node := uint32(0)
	if conn != nil {
		node = conn.peer.node
	}
	if !strings.HasPrefix(r.URL.Path, "/"+s.bucket+"/") {
		s3Error(w, r, 404, "NoSuchBucket")
		return
	}
	key := strings.TrimPrefix(r.URL.Path, "/"+s.bucket+"/")
	body, err := io.ReadAll(r.Body)
	if err != nil {
		return // the client went away while sending: nothing is stored
	}
	op := strings.ToLower(r.Method)
	if s.w.nodeDead(node) && op != "put" {
		return
	}
	f := s.w.matchOp(op, classOf(key), key, node)
	sleep := func(d time.Duration) bool { // false: the client is gone
		if d <= 0 {
			return r.Context().Err() == nil
		}
		for d > 0 { // in slices: the end of all faults ends a stall
			k := min(d, time.Second)
			d -= k
			t := time.NewTimer(k)
			select {
			case <-t.C:
			case <-r.Context().Done():
				t.Stop()
				return false
			}
			if s.w.healed {
				break
			}
		}
		return true
	}
	apply := func() {
		if op == "put" {
			s.Put(node, key, body)
		}
	}
	gone := func() {
		// The client vanished while its write was in progress: the store may or
		// may not have taken it, but not later than this.
		if op == "put" && s.w.rng.Chance(1, 2) {
			s.w.count("s3:put-applied-after-client-left")
			s.w.teardown = true
			apply()
			s.w.teardown = false
		}
	}
	if !sleep(s.delay()) {
		gone()
		return
	}
	act := ""
	if f != nil {
		act = f.Act
	}
	if s.down && act == "" {
		act, f = "err", &Fault{Act: "err", Status: 503}
		s.w.noteFault(s.w.roleOf(node), classOf(key), f)
	}
	switch act {
	case "err":
		s3Error(w, r, f.Status, errCode(f.Status))
		return
	case "err-after":
		apply()
		s3Error(w, r, f.Status, errCode(f.Status))
		return
	case "reset":
		abortConn(r)
	case "reset-after":
		apply()
		abortConn(r)
	case "stall":
		if !sleep(time.Duration(f.Dur) * time.Millisecond) {
			gone()
			return
		}
	case "stall-after":
		apply()
		if !sleep(time.Duration(f.Dur) * time.Millisecond) {
			return
		}
		op2 := op
		op = "done"
		defer func() { op = op2 }()
	case "crash":
		s.w.crash(node, "fault")
		gone()
		return
	case "crash-after":
		apply()
		s.w.crash(node, "fault")
		return
	case "crash-all":
		apply()
		s.w.crashAll("fault")
		return
	case "pause":
		apply()
		s.w.pause(node, time.Duration(f.Dur)*time.Millisecond)
		op = "done"
	case "sigint":
		s.w.sigint(node)
	case "dropsession":
		s.w.consul.InvalidateOf(node)
	case "step":
		s.w.stepClock(node, time.Duration(f.Dur)*time.Millisecond)
	}
	switch r.Method {
	case "PUT":
		if op == "put" {
			apply()
		}
		sum := md5.Sum(body)
		w.Header().Set("ETag", `"`+hex.EncodeToString(sum[:])+`"`)
		w.Header().Set("Content-Length", "0")
		w.WriteHeader(200)
	case "GET", "HEAD":
		data, ok := s.objs[key]
		if !ok {
			s3Error(w, r, 404, "NoSuchKey")
			return
		}
		sum := md5.Sum(data)
		w.Header().Set("ETag", `"`+hex.EncodeToString(sum[:])+`"`)
		w.Header().Set("Content-Type", "application/octet-stream")
		if s.w.edge != nil {
			if cc := cacheControl(s.w.plan.Cfg.Backend, classOf(key)); cc != "" {
				w.Header().Set("Cache-Control", cc)
			}
		}
		w.Header().Set("Content-Length", strconv.Itoa(len(data)))
		w.Header().Set("Last-Modified", time.Now().UTC().Format(http.TimeFormat))
		w.WriteHeader(200)
		if r.Method == "HEAD" {
			return
		}
		if act == "trunc" {
			w.Write(data[:len(data)/2])
			if fl, ok := w.(http.Flusher); ok {
				fl.Flush()
			}
			abortConn(r)
		}
		w.Write(data)
	default:
		s3Error(w, r, 405, "MethodNotAllowed")
	}
}
