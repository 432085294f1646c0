//go:build !verifmin && !verifnoindex

package main

import (
	"context"

	"itko.dev/internal/ctmonitor"
	"itko.dev/internal/ctsubmit"
)

const haveIndex = true

func newIndexStore(root, endpoint string, mask int) indexStore {
	return ctsubmit.NewVerifIndex(root, "us-east-1", s3Bucket, endpoint, "user", "password", mask)
}

func newIndexLookup(root, url string, mask int) func(context.Context, []byte) (int64, bool, error) {
	return ctmonitor.VerifLookup(root, url, mask)
}
