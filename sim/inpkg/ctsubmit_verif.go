//go:build !verifmin && !verifnoindex

package ctsubmit

import (
	"context"
)

// VerifIndex gives the simulator the two indexes as stage two and stage zero use them.
type VerifIndex struct {
	b    Bucket
	mask int
}

func NewVerifIndex(root, region, bucket, endpoint, user, password string, mask int) *VerifIndex {
	if root != "" {
		s := NewFsStorage(root)
		return &VerifIndex{Bucket{S: &s}, mask}
	}
	s := NewS3Storage(region, bucket, endpoint, user, password)
	return &VerifIndex{Bucket{S: &s}, mask}
}

func (v *VerifIndex) PutHashes(ctx context.Context, h [][16]byte, index []uint64) error {
	u := make([]RecordHashUpload, 0, len(h))
	for i := range h {
		u = append(u, RecordHashUpload{hash: h[i], leafIndex: index[i]})
	}
	return v.b.PutRecordHashes(ctx, u, v.mask)
}

func (v *VerifIndex) PutDedupe(ctx context.Context, h [][16]byte, index []uint64, ts []int64) error {
	u := make([]DedupeUpload, 0, len(h))
	for i := range h {
		u = append(u, DedupeUpload{hash: h[i], leafIndex: index[i], timestamp: ts[i]})
	}
	return v.b.PutDedupeEntries(ctx, u, v.mask)
}

func (v *VerifIndex) GetDedupe(ctx context.Context, h [16]byte) (uint64, int64, error) {
	d, err := v.b.GetDedupeEntry(ctx, h, v.mask)
	return d.leafIndex, d.timestamp, err
}
