package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"
)

// Other is a second, finished log that the same edge service answers for under
// another host name, from another backend.
type Other struct {
	w      *World
	tree   *RefTree
	ents   []*RefEntry
	hashes map[string][]byte
	sth    []byte
}

const (
	otherBackend = "otherstore"
	otherAddr    = "10.9.1.2:80"
	otherHost    = "10.9.1.2"
)

func NewOther(w *World, size int) *Other {
	x := &Other{w: w, tree: NewRefTree(w.plan.Seed+1, 0), hashes: map[string][]byte{}}
	key := newDetKey(w.plan.Seed, "otherlog")
	lk := newLogKey(&key.k.PublicKey, "otherlog")
	ts := uint64(time.Now().UnixMilli()) - 7200000
	for i := 0; i < size; i++ {
		s := w.pki.Get([]string{"leaf2", "direct", "cross", "leaf"}[i%4], 700000+i)
		wt := s.Var[0].Want
		e := &RefEntry{Ts: ts + uint64(i), Cert: wt.Cert, Chain: chainFps(wt.Chain), Index: uint64(i)}
		e.Raw = encodeTileEntry(e)
		x.ents = append(x.ents, e)
		h := leafHash(e.Leaf())
		x.tree.Append(h)
		s16 := hex.EncodeToString(h[:])[:5]
		p := s16[0:2] + "/" + s16[2:4] + "/" + s16[4:]
		rec := binary.LittleEndian.AppendUint64(append([]byte(nil), h[:16]...), uint64(i))[:21]
		old := x.hashes[p]
		at := 0
		for at < len(old) && bytes.Compare(old[at:at+16], rec[:16]) < 0 {
			at += len(rec)
		}
		x.hashes[p] = append(append(append([]byte(nil), old[:at]...), rec...), old[at:]...)
	}
	root := x.tree.Root(uint64(size))
	d := sha256.Sum256(sthInput(uint64(size), ts+uint64(size), root))
	sig, err := key.Sign(nil, d[:], nil)
	if err != nil {
		panic(err)
	}
	sig = append([]byte{4, 3, byte(len(sig) >> 8), byte(len(sig))}, sig...)
	x.sth, _ = json.Marshal(map[string]any{"tree_size": size, "timestamp": ts + uint64(size), "sha256_root_hash": root[:], "tree_head_signature": sig})
	if _, err := lk.parseSTH(x.sth); err != nil {
		panic(err)
	}
	return x
}

// object is what the second log's store holds under a key.
func (x *Other) object(key string) ([]byte, bool) {
	n := x.tree.Size()
	switch classOf(key) {
	case "sth":
		return x.sth, true
	case "hashes":
		b, ok := x.hashes[strings.TrimPrefix(key, "int/hashes/")]
		return b, ok
	case "issuer":
		raw, err := hex.DecodeString(strings.TrimPrefix(key, "issuer/"))
		if err != nil || len(raw) != 32 {
			return nil, false
		}
		b, ok := x.w.pki.byFp[[32]byte(raw)]
		return b, ok
	case "data", "tile":
		L, N, W, ok := parseTilePath(key)
		if !ok {
			return nil, false
		}
		if L >= 0 {
			if m := n >> (8 * uint(L)); N*256+uint64(W) > m {
				return nil, false
			}
			return x.tree.TileBytes(uint(L), N, W), true
		}
		if N*256+uint64(W) > n || W != 256 && N*256+uint64(W) != n {
			return nil, false
		}
		var b []byte
		for _, e := range x.ents[N*256 : N*256+uint64(W)] {
			b = append(b, e.Raw...)
		}
		return b, true
	}
	return nil, false
}

// respond plays the second backend.
func (x *Other) respond(u *url.URL) *http.Response {
	time.Sleep(2 * time.Millisecond)
	key := strings.TrimPrefix(u.Path, "/")
	b, ok := x.object(key)
	resp := &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}}
	if !ok {
		resp.StatusCode, resp.Status = 404, "404 Not Found"
	} else if cc := cacheControl(x.w.plan.Cfg.Backend, classOf(key)); cc != "" {
		resp.Header.Set("Cache-Control", cc)
	}
	resp.Header.Set("Content-Length", strconv.Itoa(len(b)))
	resp.ContentLength = int64(len(b))
	resp.Body = io.NopCloser(bytes.NewReader(b))
	return resp
}

// queryOther asks the edge about the second log.
func (w *World) queryOther(a, b int) {
	x := w.other
	if x == nil {
		return
	}
	n := x.tree.Size()
	i := uint64(b) % n
	ask := func(path string) (*answer, bool) {
		w.count("other-queries")
		r := w.do("GET", "http://"+otherAddr+"/ct/v1/"+path, nil, 60*time.Second)
		w.event("other log: %s: %s", path, r)
		return r, r.err == nil && r.status == 200
	}
	bad := func(f string, v ...any) {
		w.o.violation("C18", "edge:other-log", "asked about another log, the edge "+fmt.Sprintf(f, v...))
	}
	switch a % 4 {
	case 0:
		r, ok := ask(fmt.Sprintf("get-entries?start=%d&end=%d", i, i+uint64(a)%80))
		var in struct {
			Entries []struct {
				Leaf []byte `json:"leaf_input"`
			} `json:"entries"`
		}
		if !ok {
			return
		}
		if err := json.Unmarshal(r.body, &in); err != nil || i+uint64(len(in.Entries)) > n {
			bad("served %d entries from %d on although there are %d: %v", len(in.Entries), i, n, err)
			return
		}
		for k, e := range in.Entries {
			if !bytes.Equal(e.Leaf, x.ents[i+uint64(k)].Leaf()) {
				bad("served a wrong leaf for entry %d", i+uint64(k))
				return
			}
		}
	case 1:
		m := uint64(a)%n + 1
		if m > i+1 {
			m = i + 1
		}
		r, ok := ask(fmt.Sprintf("get-sth-consistency?first=%d&second=%d", m, i+1))
		var in struct {
			Consistency [][]byte `json:"consistency"`
		}
		if ok && (json.Unmarshal(r.body, &in) != nil || !hashesEqual(in.Consistency, x.tree.Consistency(m, i+1))) {
			bad("served a wrong consistency proof between %d and %d", m, i+1)
		}
	case 2:
		h := leafHash(x.ents[i].Leaf())
		r, ok := ask("get-proof-by-hash?hash=" + url.QueryEscape(base64.StdEncoding.EncodeToString(h[:])) + "&tree_size=" + u64(n))
		var in struct {
			Index uint64   `json:"leaf_index"`
			Path  [][]byte `json:"audit_path"`
		}
		if ok && (json.Unmarshal(r.body, &in) != nil || in.Index != i || !hashesEqual(in.Path, x.tree.Path(i, n))) {
			bad("served a wrong inclusion proof for entry %d", i)
		}
		if ok {
			w.count("other-proofs")
		}
	case 3:
		r, ok := ask(fmt.Sprintf("get-entry-and-proof?leaf_index=%d&tree_size=%d", i, n))
		var in struct {
			Leaf []byte   `json:"leaf_input"`
			Path [][]byte `json:"audit_path"`
		}
		if ok && (json.Unmarshal(r.body, &in) != nil || !bytes.Equal(in.Leaf, x.ents[i].Leaf()) || !hashesEqual(in.Path, x.tree.Path(i, n))) {
			bad("served a wrong entry or proof for entry %d", i)
		}
	}
}
