From 12e7817f94588bf645adc1b5ace1cb58deb8e131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:02 +0000
Subject: [PATCH 01/15] fix: get-entries refuses a start beyond the tree
 instead of panicking or looping

---
 internal/ctmonitor/logic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index b2eccfc..47c95e4 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -292,6 +292,9 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 	if err != nil {
 		return nil, 521, err
 	}
+	if start >= int64(sth.TreeSize) {
+		return nil, 400, fmt.Errorf("start is beyond the current sth")
+	}
 	if end >= int64(sth.TreeSize) {
 		end = int64(sth.TreeSize) - 1
 	}
-- 
2.43.0


From f15a73175325b508fc932ad094a8678bfccf9be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:39 +0000
Subject: [PATCH 02/15] fix: monitor reads tiles at the width the tree head
 gives them

---
 internal/ctmonitor/fetch.go | 16 +++++++++++-----
 internal/ctmonitor/logic.go | 29 +++++++++++------------------
 2 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/internal/ctmonitor/fetch.go b/internal/ctmonitor/fetch.go
index 7829100..a0f26c5 100644
--- a/internal/ctmonitor/fetch.go
+++ b/internal/ctmonitor/fetch.go
@@ -44,14 +44,20 @@ func (f *Fetch) getSth(ctx context.Context) (ct.SignedTreeHead, error) {
 	return sth, nil
 }
 
+// tileWidth returns how many hashes (or entries, for a data tile) a tile holds
+// in a tree of the given size. Anything stored beyond that is not part of the
+// tree: it may be left over from a batch that was never committed.
+func tileWidth(tile tlog.Tile, treeSize int64) int {
+	width := treeSize>>(sunlight.TileHeight*max(tile.L, 0)) - tile.N<<sunlight.TileHeight
+	return int(max(0, min(width, sunlight.TileWidth)))
+}
+
 func (f *Fetch) getTile(ctx context.Context, tile tlog.Tile) ([]byte, error) {
-	fallbackWidth := tile.W
-	tile.W = sunlight.TileWidth
 	resp, notfound, err := f.s.Get(ctx, sunlight.Path(tile))
-	// In case the tile is not found, try to fetch the partial tile
+	// In case the partial tile is not found, try to fetch the full tile
 	if notfound {
-		if fallbackWidth != sunlight.TileWidth {
-			tile.W = fallbackWidth
+		if tile.W != sunlight.TileWidth {
+			tile.W = sunlight.TileWidth
 			return f.get(ctx, sunlight.Path(tile))
 		}
 	}
diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index 47c95e4..b1b8ba6 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -74,23 +74,18 @@ func wrapper(wrapped func(ctx context.Context, reqBody io.ReadCloser, query url.
 	}
 }
 
-func hashreader(ctx context.Context, f Fetch, fallbackTreeSize int64) tlog.HashReaderFunc {
-	// Tree size is 1 greater than the index of the last entry
-	finalTile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, fallbackTreeSize-1))
+// hashreader reads hashes of the tree with the given size, which must be that of a published tree head.
+func hashreader(ctx context.Context, f Fetch, treeSize int64) tlog.HashReaderFunc {
 	// TODO: add some sort of cache here, this function is bound to be called a few times for the same tiles
 	return func(indexes []int64) ([]tlog.Hash, error) {
 		hashes := make([]tlog.Hash, 0, len(indexes))
 		for _, index := range indexes {
 			tile := tlog.TileForIndex(sunlight.TileHeight, index)
-			// Special case the final tile to get the correct width
-			if tile.N == finalTile.N {
-				tile.W = finalTile.W
-			}
-			// This function will always first try and get the full width tile,
-			// and then fall back to the width actually specified in the tile.
+			// Fetch the tile as it is in this tree
+			tile.W = tileWidth(tile, treeSize)
 			data, err := f.getTile(ctx, tile)
 			if err != nil {
-				return nil, fmt.Errorf("failed to fetch tile %s: %w (fallback %s)", sunlight.Path(tile), err, sunlight.Path(finalTile))
+				return nil, fmt.Errorf("failed to fetch tile %s: %w", sunlight.Path(tile), err)
 			}
 			hash, err := tlog.HashFromTile(tile, data, index)
 			if err != nil {
@@ -161,7 +156,7 @@ func (f Fetch) get_sth_consistency(ctx context.Context, reqBody io.ReadCloser, q
 	// However, as per the spec, in this case, an empty proof should be returned
 	// TODO: this fails if the size of the first tree is greater than the actual number of records in the tree
 	if first >= 1 {
-		proof, err = tlog.ProveTree(second, first, hashreader(ctx, f, second))
+		proof, err = tlog.ProveTree(second, first, hashreader(ctx, f, int64(sth.TreeSize)))
 		if err != nil {
 			return nil, 523, err
 		}
@@ -229,7 +224,7 @@ func (f Fetch) get_proof_by_hash(ctx context.Context, reqBody io.ReadCloser, que
 	}
 
 	// Get the proof
-	proof, err := tlog.ProveRecord(treeSize, index, hashreader(ctx, f, treeSize))
+	proof, err := tlog.ProveRecord(treeSize, index, hashreader(ctx, f, int64(sth.TreeSize)))
 	if err != nil {
 		log.Println(err)
 		return nil, 511, err
@@ -307,11 +302,8 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 
 	dataTiles := make([]tileWithBytes, 0)
 
-	sthFinalTile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, int64(sth.TreeSize)-1))
-	// Special case the final tile to ensure we always fetch a tile that exists
-	if lastTile.N == sthFinalTile.N {
-		lastTile.W = sthFinalTile.W
-	}
+	// Fetch the last tile as it is in the tree of the sth
+	lastTile.W = tileWidth(lastTile, int64(sth.TreeSize))
 
 	// In this case, the last tile is the same as the first tile so we only need to fetch one tile
 	if firstTile.N == lastTile.N {
@@ -476,6 +468,7 @@ func (f Fetch) get_entry_and_proof(ctx context.Context, reqBody io.ReadCloser, q
 	// Get the entry
 	tile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, leafIndex))
 	tile.L = -1
+	tile.W = tileWidth(tile, int64(sth.TreeSize))
 
 	// TODO: add a cache
 	data, err := f.getTile(ctx, tile)
@@ -530,7 +523,7 @@ func (f Fetch) get_entry_and_proof(ctx context.Context, reqBody io.ReadCloser, q
 	}
 
 	// Get the proof
-	proof, err := tlog.ProveRecord(treeSize, leafIndex, hashreader(ctx, f, treeSize))
+	proof, err := tlog.ProveRecord(treeSize, leafIndex, hashreader(ctx, f, int64(sth.TreeSize)))
 	if err != nil {
 		return nil, 500, err
 	}
-- 
2.43.0


From 345684373293027d0090b1faaae1ecaeb9b866e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:42 +0000
Subject: [PATCH 03/15] fix: get-proof-by-hash checks that the leaf found is
 the one asked for

---
 internal/ctmonitor/logic.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index b1b8ba6..0723cf8 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -1,6 +1,7 @@
 package ctmonitor
 
 import (
+	"bytes"
 	"context"
 	"encoding/base64"
 	"encoding/json"
@@ -223,6 +224,16 @@ func (f Fetch) get_proof_by_hash(ctx context.Context, reqBody io.ReadCloser, que
 		return nil, 400, fmt.Errorf("index out of range")
 	}
 
+	// The index only has a prefix of the hash, and may have records of batches
+	// that were never committed, so check that this is the leaf asked for.
+	leafHashes, err := hashreader(ctx, f, int64(sth.TreeSize))([]int64{tlog.StoredHashIndex(0, index)})
+	if err != nil {
+		return nil, 511, err
+	}
+	if !bytes.Equal(leafHashes[0][:], hash) {
+		return nil, 404, fmt.Errorf("record not found")
+	}
+
 	// Get the proof
 	proof, err := tlog.ProveRecord(treeSize, index, hashreader(ctx, f, int64(sth.TreeSize)))
 	if err != nil {
-- 
2.43.0


From 7eedc5577f082b605ea28c68cb17573d56b994bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:45 +0000
Subject: [PATCH 04/15] fix: get-proof-by-hash does not report a storage error
 as an unknown hash

---
 internal/ctmonitor/fetch.go | 12 ++++++------
 internal/ctmonitor/logic.go |  7 +++++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/internal/ctmonitor/fetch.go b/internal/ctmonitor/fetch.go
index a0f26c5..db8e4b1 100644
--- a/internal/ctmonitor/fetch.go
+++ b/internal/ctmonitor/fetch.go
@@ -75,16 +75,16 @@ const (
 )
 
 // TODO: convert these to use binary search
-func (f *Fetch) getIndexForHash(ctx context.Context, hash []byte) (int64, error) {
+func (f *Fetch) getIndexForHash(ctx context.Context, hash []byte) (index int64, notfound bool, err error) {
 	// check if hash is 32 bytes
 	if len(hash) != RHUHashSize {
-		return 0, errors.New("hash must be 32 bytes")
+		return 0, false, errors.New("hash must be 32 bytes")
 	}
 
 	path := sunlight.KAnonHashPath(hash, f.maskSize)
-	file, err := f.get(ctx, "int/hashes/"+path)
+	file, notfound, err := f.s.Get(ctx, "int/hashes/"+path)
 	if err != nil {
-		return 0, err
+		return 0, notfound, err
 	}
 
 	recordCount := len(file) / RHURecordSize
@@ -98,9 +98,9 @@ func (f *Fetch) getIndexForHash(ctx context.Context, hash []byte) (int64, error)
 			// Convert to uint64
 			leafIndex := binary.LittleEndian.Uint64(fullIndxeBytes)
 
-			return int64(leafIndex), nil
+			return int64(leafIndex), false, nil
 		}
 	}
 
-	return 0, errors.New("record not found")
+	return 0, true, errors.New("record not found")
 }
diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index 0723cf8..2a97aff 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -215,9 +215,12 @@ func (f Fetch) get_proof_by_hash(ctx context.Context, reqBody io.ReadCloser, que
 	}
 
 	// Use the hash to fetch the index
-	index, err := f.getIndexForHash(ctx, hash[:16])
+	index, notfound, err := f.getIndexForHash(ctx, hash[:16])
 	if err != nil {
-		return nil, 404, err
+		if notfound {
+			return nil, 404, err
+		}
+		return nil, 500, err
 	}
 
 	if index < 0 || index >= treeSize {
-- 
2.43.0


From 2949cd8365913114a593214d9e1563430dc2b348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 05/15] fix: file storage replaces files atomically and durably

---
 internal/ctsubmit/storage.go | 52 ++++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/internal/ctsubmit/storage.go b/internal/ctsubmit/storage.go
index a6e2ee7..40a2c0e 100644
--- a/internal/ctsubmit/storage.go
+++ b/internal/ctsubmit/storage.go
@@ -114,7 +114,7 @@ func (f *FsStorage) Set(ctx context.Context, key string, data []byte) error {
 	filePath := f.root + "/" + key
 
 	// Attempt to write the file
-	err := os.WriteFile(filePath, data, 0644)
+	err := f.replaceFile(filePath, data)
 	if err == nil {
 		// No error, file written successfully
 		return nil
@@ -132,13 +132,61 @@ func (f *FsStorage) Set(ctx context.Context, key string, data []byte) error {
 		}
 
 		// Retry writing the file after creating directories
-		return os.WriteFile(filePath, data, 0644)
+		return f.replaceFile(filePath, data)
 	}
 
 	// Return the original error if it's not related to missing directories
 	return err
 }
 
+// replaceFile writes the file in one step, so that a reader or a crash only
+// ever finds the old or the new contents, and returns once the new contents,
+// and the directories that lead to them, are on stable storage.
+func (f *FsStorage) replaceFile(filePath string, data []byte) error {
+	dir, name := filepath.Split(filePath)
+	tmp, err := os.CreateTemp(dir, "."+name+".tmp-*")
+	if err != nil {
+		return err
+	}
+
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Chmod(0644)
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), filePath)
+	}
+	if err != nil {
+		os.Remove(tmp.Name())
+		return err
+	}
+
+	root := filepath.Clean(f.root)
+	for dir := filepath.Dir(filePath); ; dir = filepath.Dir(dir) {
+		if err := syncDir(dir); err != nil {
+			return err
+		}
+		if len(dir) <= len(root) {
+			return nil
+		}
+	}
+}
+
+func syncDir(dir string) error {
+	d, err := os.Open(dir)
+	if err != nil {
+		return err
+	}
+	defer d.Close()
+	return d.Sync()
+}
+
 func (f *FsStorage) Exists(ctx context.Context, key string) (bool, error) {
 	filePath := f.root + "/" + key
 
-- 
2.43.0


From d50c521b29259d910c6f01a5afb18d997b6c1c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:52 +0000
Subject: [PATCH 06/15] fix: submissions the log cannot accept are refused with
 a 4xx status

---
 internal/ctsubmit/logic.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 757712b..c21ba82 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -5,6 +5,7 @@ import (
 	"crypto/sha256"
 	"encoding/base64"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"log"
@@ -81,7 +82,12 @@ func (d *stageZeroData) stageZeroWrapper(w http.ResponseWriter, r *http.Request,
 func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, precertEndpoint bool) (resp []byte, code int, err error) {
 	body, err := io.ReadAll(reqBody)
 	if err != nil {
-		return nil, http.StatusInternalServerError, fmt.Errorf("unable to read request body: %w", err)
+		code := http.StatusBadRequest
+		var tooLarge *http.MaxBytesError
+		if errors.As(err, &tooLarge) {
+			code = http.StatusRequestEntityTooLarge
+		}
+		return nil, code, fmt.Errorf("unable to read request body: %w", err)
 	}
 
 	var req struct {
@@ -112,7 +118,7 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 
 	isPrecert, err := ctfe.IsPrecertificate(chain[0])
 	if err != nil {
-		return nil, http.StatusInternalServerError, fmt.Errorf("invalid leaf certificate: %w", err)
+		return nil, http.StatusBadRequest, fmt.Errorf("invalid leaf certificate: %w", err)
 	}
 
 	if isPrecert != precertEndpoint {
@@ -149,7 +155,7 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 		// This function requires preIssuer to be nil if the issuer is not a preissuer
 		tbsCertficiate, err := x509.BuildPrecertTBS(chain[0].RawTBSCertificate, preIssuer)
 		if err != nil {
-			return nil, http.StatusInternalServerError, fmt.Errorf("unable to build precert TBS: %w", err)
+			return nil, http.StatusBadRequest, fmt.Errorf("unable to build precert TBS: %w", err)
 		}
 
 		entry.Certificate = tbsCertficiate
-- 
2.43.0


From 429f79df576e911d191e043e298a76d88866abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 07/15] fix: a resubmission through another certificate of the
 preissuer gets a SCT for what is logged

---
 internal/ctsubmit/logic.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index c21ba82..faa5c5a 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -164,8 +164,7 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 
 	// Before we send the unsequenced entry to the first stage, we need to check if it's a duplicate
 	// This is done by hashing the certificate fingerprint and checking if it exists in the dedupe map
-	dedupeKey := [16]byte(entry.CertificateFp[:16])
-	dedupeVal, err := d.bucket.GetDedupeEntry(ctx, dedupeKey, d.maskSize)
+	dedupeVal, err := d.bucket.GetDedupeEntry(ctx, dedupeKey(entry.Sequence(0, 0)), d.maskSize)
 
 	var completeEntry sunlight.LogEntry
 
@@ -442,9 +441,8 @@ func (d *stageTwoData) stageTwo(
 			// I think the specific chain the certificate was submitted with also matters.
 			dedupeVals := make([]DedupeUpload, 0, len(pool))
 			for _, e := range pool {
-				hash := [16]byte(e.entry.CertificateFp[:16])
 				dedupeVals = append(dedupeVals, DedupeUpload{
-					hash:      hash,
+					hash:      dedupeKey(e.entry),
 					leafIndex: e.entry.LeafIndex,
 					timestamp: e.entry.Timestamp,
 				})
@@ -465,6 +463,20 @@ func (d *stageTwoData) stageTwo(
 	}
 }
 
+// dedupeKey identifies an entry in the dedupe map
+func dedupeKey(entry sunlight.LogEntry) [16]byte {
+	if entry.IsPrecert && ct.IsPreIssuer(entry.Chain[0]) {
+		// Here the TBS and issuer key hash that are logged don't follow from the
+		// precertificate alone: they depend on which certificate of the preissuer
+		// it was submitted with, and a SCT only covers the one that was logged.
+		h := sha256.New()
+		h.Write(entry.IssuerKeyHash[:])
+		h.Write(entry.Certificate)
+		return [16]byte(h.Sum(nil)[:16])
+	}
+	return [16]byte(entry.CertificateFp[:16])
+}
+
 func (d *stageTwoData) hashReader(overlay map[int64]tlog.Hash) tlog.HashReaderFunc {
 	return func(indexes []int64) ([]tlog.Hash, error) {
 		hashes := make([]tlog.Hash, 0, len(indexes))
-- 
2.43.0


From a01c3ddbbc16b433122fac0c97b1b52287efdbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:43 +0000
Subject: [PATCH 08/15] fix: a submission is answered within the timeout even
 if the store or the sequencer stalls

---
 internal/ctsubmit/logic.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index faa5c5a..61d5e4d 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -162,6 +162,11 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 		entry.IssuerKeyHash = sha256.Sum256(issuer.RawSubjectPublicKeyInfo)
 	}
 
+	// From here on, the answer depends on the storage and the sequencer.
+	// Nominally, this should complete in under 2 seconds.
+	ctx, cancel := context.WithTimeout(ctx, 5*time.Second)
+	defer cancel()
+
 	// Before we send the unsequenced entry to the first stage, we need to check if it's a duplicate
 	// This is done by hashing the certificate fingerprint and checking if it exists in the dedupe map
 	dedupeVal, err := d.bucket.GetDedupeEntry(ctx, dedupeKey(entry.Sequence(0, 0)), d.maskSize)
@@ -171,6 +176,8 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 	if err == nil {
 		// If we recieved a valid cache hit, then the certificate is a duplicate
 		completeEntry = entry.Sequence(dedupeVal.leafIndex, dedupeVal.timestamp)
+	} else if ctx.Err() != nil {
+		return nil, http.StatusServiceUnavailable, fmt.Errorf("timed out checking for a duplicate: %w", err)
 	} else {
 		// Otherwise, we need to send it to the sequencer
 
@@ -178,14 +185,17 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 		// This channel is buffered so it doesn't block if an attempt is made to send
 		// after the timeout fires.
 		returnPath := make(chan sunlight.LogEntry, 1)
-		d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}
+		select {
+		case d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}:
+		case <-ctx.Done():
+			return nil, http.StatusServiceUnavailable, fmt.Errorf("timed out sending to sequencer")
+		}
 
 		// If we recieve something here, that means that the entry has been both sequenced
 		// and uploaded with a newly signed STH, so we can issue a SCT.
 		select {
 		case completeEntry = <-returnPath:
-		// Nominally, this should complete in under 2 seconds.
-		case <-time.After(5 * time.Second):
+		case <-ctx.Done():
 			return nil, http.StatusServiceUnavailable, fmt.Errorf("timed out waiting for sequencer")
 		}
 	}
-- 
2.43.0


From 93956b776ff4db52dedb03d639a58eeca2dc979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:45 +0000
Subject: [PATCH 09/15] fix: setup keeps the tree head of a log that already
 exists

---
 internal/ctsetup/main.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/ctsetup/main.go b/internal/ctsetup/main.go
index b47b771..8ca5889 100644
--- a/internal/ctsetup/main.go
+++ b/internal/ctsetup/main.go
@@ -120,5 +120,15 @@ func uploadEmptySth(ctx context.Context, signingKey string, gc ctsubmit.GlobalCo
 		s := ctsubmit.NewS3Storage(gc.S3Region, gc.S3Bucket, gc.S3EndpointUrl, gc.S3StaticCredentialUserName, gc.S3StaticCredentialPassword)
 		storage = &s
 	}
+
+	// The tree of an existing log must never be reset to the empty one
+	exists, err := storage.Exists(ctx, "ct/v1/get-sth")
+	if err != nil {
+		return err
+	}
+	if exists {
+		log.Println("The log already has a STH, keeping it")
+		return nil
+	}
 	return storage.Set(ctx, "ct/v1/get-sth", jsonBytes)
 }
-- 
2.43.0


From a387da90313bc0518cb75916b407817adc907c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:20 +0000
Subject: [PATCH 10/15] fix: tree head timestamps increase and cover the
 entries when the clock steps back

---
 internal/ctsubmit/config.go |  2 ++
 internal/ctsubmit/logic.go  | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index b2267cb..ab60758 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -96,6 +96,7 @@ type stageTwoData struct {
 	maskSize         int
 	checkpointOrigin string
 	treeSize         uint64
+	lastTimestamp    int64
 
 	signingKey *ecdsa.PrivateKey
 }
@@ -372,6 +373,7 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			maskSize:         gc.MaskSize,
 			checkpointOrigin: gc.Name,
 			treeSize:         sth.TreeSize,
+			lastTimestamp:    int64(sth.Timestamp),
 
 			signingKey: key,
 		}
diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 61d5e4d..48ecb3a 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -421,7 +421,14 @@ func (d *stageTwoData) stageTwo(
 				return fmt.Errorf("failed to calculate new root hash: %w", err)
 			}
 
-			jsonBytes, err := sunlight.SignTreeHead(d.signingKey, updatedTreeSize, uint64(time.Now().UnixMilli()), rootHash)
+			// Whatever the clock does, the timestamp is after the one of the previous
+			// tree head and not before the ones of the entries.
+			timestamp := max(time.Now().UnixMilli(), d.lastTimestamp+1)
+			for _, e := range pool {
+				timestamp = max(timestamp, e.entry.Timestamp)
+			}
+
+			jsonBytes, err := sunlight.SignTreeHead(d.signingKey, updatedTreeSize, uint64(timestamp), rootHash)
 			if err != nil {
 				return fmt.Errorf("failed to generate a new STH: %w", err)
 			}
@@ -432,7 +439,7 @@ func (d *stageTwoData) stageTwo(
 			}
 
 			// we also upload a checkpoint based on the STH
-			checkpointBytes, err := sunlight.SignTreeHeadCheckpoint(d.checkpointOrigin, d.signingKey, int64(updatedTreeSize), time.Now().UnixMilli(), rootHash)
+			checkpointBytes, err := sunlight.SignTreeHeadCheckpoint(d.checkpointOrigin, d.signingKey, int64(updatedTreeSize), timestamp, rootHash)
 			if err != nil {
 				return fmt.Errorf("failed to generate a new checkpoint: %w", err)
 			}
@@ -444,6 +451,7 @@ func (d *stageTwoData) stageTwo(
 
 			// Update the tree size once the checkpoints are uploaded
 			d.treeSize = updatedTreeSize
+			d.lastTimestamp = timestamp
 
 			// ** Upload the dedupe mappings **
 			// TODO: This isn't the best cache key, because it fails to distinguish between
-- 
2.43.0


From 220666019ac86e0b5ba25175e2970c4205d65e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:24 +0000
Subject: [PATCH 11/15] fix: an interrupted log releases its lock only between
 two batches

---
 internal/ctsubmit/config.go | 11 +++++++++++
 internal/ctsubmit/logic.go  |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index ab60758..ff93eb0 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -11,6 +11,7 @@ import (
 	"log"
 	"os"
 	"os/signal"
+	"sync"
 	"time"
 
 	ct "github.com/google/certificate-transparency-go"
@@ -97,6 +98,7 @@ type stageTwoData struct {
 	checkpointOrigin string
 	treeSize         uint64
 	lastTimestamp    int64
+	writing          *sync.Mutex // held while a batch is written
 
 	signingKey *ecdsa.PrivateKey
 }
@@ -104,6 +106,7 @@ type stageTwoData struct {
 func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 	var lock *consul.Lock
 	var gc GlobalConfig
+	writing := new(sync.Mutex)
 
 	{
 		lockpath := kvpath + "/lock"
@@ -148,6 +151,13 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 		go func(interruptChan chan os.Signal, lock *consul.Lock) {
 			<-interruptChan
 			log.Println("Interrupted, releasing lock")
+			// Once the lock is released, another instance may start writing at any
+			// moment, so wait for the batch that is being written and hold off any
+			// further one. If that takes too long, leave the lock to expire.
+			time.AfterFunc(10*time.Second, func() {
+				log.Fatal("Interrupted, but unable to release the lock, exiting now!")
+			})
+			writing.Lock()
 			lock.Unlock()
 		}(interruptChan, lock)
 
@@ -374,6 +384,7 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			checkpointOrigin: gc.Name,
 			treeSize:         sth.TreeSize,
 			lastTimestamp:    int64(sth.Timestamp),
+			writing:          writing,
 
 			signingKey: key,
 		}
diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 48ecb3a..5a6be8e 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -303,6 +303,9 @@ func (d *stageTwoData) stageTwo(
 				return fmt.Errorf("stage two: stageTwoRx channel closed")
 			}
 
+			// This stays locked if anything goes wrong
+			d.writing.Lock()
+
 			// ** Upload the data tiles **
 			newHashes := make(map[int64]tlog.Hash)
 			// The newHashes map is a reference type, so adding elements to
@@ -474,6 +477,7 @@ func (d *stageTwoData) stageTwo(
 			for _, entry := range pool {
 				entry.returnPath <- entry.entry
 			}
+			d.writing.Unlock()
 
 		case <-ctx.Done():
 			return fmt.Errorf("stage two: context finished")
-- 
2.43.0


From 18efa0cc3dfec9ff7fbb26a35e874471d819ce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:06 +0000
Subject: [PATCH 12/15] fix: a submission is answered within the timeout even
 if a file read hangs

---
 internal/ctsubmit/logic.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 5a6be8e..d8bd0a5 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -169,7 +169,19 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 
 	// Before we send the unsequenced entry to the first stage, we need to check if it's a duplicate
 	// This is done by hashing the certificate fingerprint and checking if it exists in the dedupe map
-	dedupeVal, err := d.bucket.GetDedupeEntry(ctx, dedupeKey(entry.Sequence(0, 0)), d.maskSize)
+	// Reading a file can't be interrupted, so don't wait for it beyond the timeout
+	var dedupeVal DedupeUpload
+	lookup := make(chan error, 1)
+	go func() {
+		var err error
+		dedupeVal, err = d.bucket.GetDedupeEntry(ctx, dedupeKey(entry.Sequence(0, 0)), d.maskSize)
+		lookup <- err
+	}()
+	select {
+	case err = <-lookup:
+	case <-ctx.Done():
+		err = ctx.Err()
+	}
 
 	var completeEntry sunlight.LogEntry
 
-- 
2.43.0


From 907a48334d7efd4c40fc0ce58184d9f6338bc57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 13/15] fix: file storage makes a new root directory durable
 too

---
 internal/ctsubmit/storage.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/ctsubmit/storage.go b/internal/ctsubmit/storage.go
index 40a2c0e..f4667e0 100644
--- a/internal/ctsubmit/storage.go
+++ b/internal/ctsubmit/storage.go
@@ -9,6 +9,7 @@ import (
 	"net/http"
 	"os"
 	"path/filepath"
+	"syscall"
 
 	"github.com/aws/aws-sdk-go-v2/aws"
 	awshttp "github.com/aws/aws-sdk-go-v2/aws/transport/http"
@@ -167,12 +168,18 @@ func (f *FsStorage) replaceFile(filePath string, data []byte) error {
 		return err
 	}
 
+	// The root may be as new as the directories below it, but those above it
+	// are not necessarily ours to open, or on a filesystem that can be synced.
 	root := filepath.Clean(f.root)
 	for dir := filepath.Dir(filePath); ; dir = filepath.Dir(dir) {
-		if err := syncDir(dir); err != nil {
+		err := syncDir(dir)
+		if len(dir) < len(root) && (errors.Is(err, os.ErrPermission) || errors.Is(err, syscall.EINVAL)) {
+			err = nil
+		}
+		if err != nil {
 			return err
 		}
-		if len(dir) <= len(root) {
+		if dir == filepath.Dir(dir) {
 			return nil
 		}
 	}
-- 
2.43.0


From 2da63e5d3392e4613bcebb3f629d2fb7f5907c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 14/15] fix: notice within the lock delay that Consul can no
 longer be reached

When packets to Consul were lost (rather than refused), the lock monitor and
the session renewal waited for an answer without any limit. The session
expired, another instance took over, and this one went on writing tiles and
tree heads until the connection broke minutes later.
---
 internal/ctsubmit/config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index ff93eb0..b3d10ed 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -115,13 +115,18 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 		// Start by creating a new Consul client
 		config := consul.DefaultConfig()
 		config.Address = consulAddress
+		// If Consul can't be reached any more, the session expires there and another
+		// instance takes over after the lock delay (15s + 15s by default). Don't wait
+		// for an answer for longer than that, or the loss goes unnoticed until then.
+		config.WaitTime = 5 * time.Second
+		config.Transport.ResponseHeaderTimeout = 10 * time.Second
 		client, err := consul.NewClient(config)
 		if err != nil {
 			return nil, err
 		}
 
 		// Create a new lock struct for the key
-		lock, err = client.LockKey(lockpath)
+		lock, err = client.LockOpts(&consul.LockOptions{Key: lockpath, LockWaitTime: config.WaitTime})
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From cb6bae2fc408753f7fcb5b45c0a4bd077da9cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 15/15] fix: refuse a precertificate whose chain lacks the
 issuer of the final certificate

An accepted root may itself be a precertificate or a precertificate signing
certificate. The handler panicked and the connection was dropped.
---
 internal/ctsubmit/logic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index d8bd0a5..042e9cf 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -143,6 +143,12 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 	} else {
 		entry.PreCertificate = chain[0].Raw
 
+		// An accepted root may itself be a precertificate or a preissuer. Then the chain
+		// doesn't say who is going to issue the certificate.
+		if len(chain) < 2 || (ct.IsPreIssuer(chain[1]) && len(chain) < 3) {
+			return nil, http.StatusBadRequest, fmt.Errorf("chain does not contain the issuer of the final certificate")
+		}
+
 		// Preissuer means that the intermediate that issued the precert is only valid
 		// for issuing precertificates.
 		var preIssuer *x509.Certificate
-- 
2.43.0

