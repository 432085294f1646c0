//go:build !verifmin && !verifnoindex

package ctmonitor

import "context"

// VerifLookup gives the simulator the monitor's lookup in the index of leaf hashes.
func VerifLookup(dir, url string, mask int) func(ctx context.Context, hash []byte) (int64, bool, error) {
	var s Storage = &UrlStorage{urlPrefix: url}
	if dir != "" {
		s = &FsStorage{root: dir}
	}
	f := newFetch(s, mask, 1024)
	return f.getIndexForHash
}
