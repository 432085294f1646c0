//go:build verifmin || verifnoindex

package main

import "context"

const haveIndex = false

func newIndexStore(root, endpoint string, mask int) indexStore { return nil }
func newIndexLookup(root, url string, mask int) func(context.Context, []byte) (int64, bool, error) {
	return nil
}
