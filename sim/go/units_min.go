//go:build verifmin

package main

import (
	"context"
	"net/http"
)

type submitStore interface {
	Get(ctx context.Context, key string) ([]byte, error)
	Set(ctx context.Context, key string, data []byte) error
	Exists(ctx context.Context, key string) (bool, error)
}

type monitorStore interface {
	Get(ctx context.Context, key string) (data []byte, notfounderr bool, err error)
}

func newSubmitStore(root string) submitStore   { return nil }
func newMonitorStore(root string) monitorStore { return nil }

func edgeInstall(e *Edge)                                             {}
func edgeServe(ctx context.Context, out *edgeAnswer, r *http.Request) { out.WriteHeader(404) }
