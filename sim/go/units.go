//go:build !verifmin

package main

import (
	"context"
	"errors"
	"io"
	"net/http"
	"reflect"
	"time"
	"unsafe"

	"github.com/fastly/compute-sdk-go/cache/simple"
	"github.com/fastly/compute-sdk-go/configstore"
	"github.com/fastly/compute-sdk-go/fsthttp"
	"itko.dev/internal/ctmonitor"
	"itko.dev/internal/ctsubmit"
)

// What the simulator uses of the code other than the three MainMain functions.
// Should a change in /repo rename one of them, the driver builds with the tag
// verifmin and goes without the profiles that need them.

type submitStore interface {
	Get(ctx context.Context, key string) ([]byte, error)
	Set(ctx context.Context, key string, data []byte) error
	Exists(ctx context.Context, key string) (bool, error)
}

type monitorStore interface {
	Get(ctx context.Context, key string) (data []byte, notfounderr bool, err error)
}

func newSubmitStore(root string) submitStore {
	s := ctsubmit.NewFsStorage(root)
	return &s
}

func newMonitorStore(root string) monitorStore {
	s := &ctmonitor.FsStorage{}
	v := reflect.ValueOf(s).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.String {
			*(*string)(unsafe.Pointer(f.UnsafeAddr())) = root
			return s
		}
	}
	return nil
}

// ---- the edge platform's SDK, whose host calls mkoverlay.py redirects

type edgeWriter struct{ *edgeAnswer }

func (w edgeWriter) Header() fsthttp.Header { return w.header }

func edgeServe(ctx context.Context, out *edgeAnswer, r *http.Request) {
	req := &fsthttp.Request{Method: r.Method, URL: r.URL, Proto: r.Proto, ProtoMajor: r.ProtoMajor, ProtoMinor: r.ProtoMinor,
		Header: fsthttp.NewHeader(), Body: r.Body, Host: r.Host, RemoteAddr: r.RemoteAddr}
	for k, v := range r.Header {
		for _, x := range v {
			req.Header.Add(k, x)
		}
	}
	ctmonitor.FastlyServe(ctx, edgeWriter{out}, req)
}

func edgeInstall(e *Edge) {
	configstore.VerifGet = func(store, key string) ([]byte, error) {
		v, ok := e.lookup(store, key)
		if !ok {
			return nil, configstore.ErrKeyNotFound
		}
		return []byte(v), nil
	}
	configstore.VerifOpen = func(store string) error {
		if e.chance(e.w.plan.Cfg.CacheErr) {
			e.platformFault("config-error")
			return errors.New("simulated error of the config store")
		}
		return nil
	}
	simple.VerifGetOrSet = func(key []byte, set func() (simple.CacheEntry, error)) (io.ReadCloser, error) {
		return e.getOrSet(string(key), func() (io.Reader, time.Duration, error) {
			c, err := set()
			return c.Body, c.TTL, err
		})
	}
	fsthttp.VerifSend = func(ctx context.Context, req *fsthttp.Request, backend string) (*fsthttp.Response, error) {
		resp, err := e.send(req.Method, req.URL, req.Header, backend)
		if err != nil {
			return nil, err
		}
		out := &fsthttp.Response{Request: req, Backend: backend, StatusCode: resp.StatusCode, Header: fsthttp.NewHeader(), Body: resp.Body}
		for k, v := range resp.Header {
			for _, x := range v {
				out.Header.Add(k, x)
			}
		}
		return out, nil
	}
}
