package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"strings"
)

// Independent executable reference of the log's data structures. Nothing here
// uses the code under test.

type Hash [32]byte

func nodeHash(l, r Hash) Hash {
	var b [65]byte
	b[0] = 1
	copy(b[1:], l[:])
	copy(b[33:], r[:])
	return sha256.Sum256(b[:])
}

func leafHash(leaf []byte) Hash {
	return sha256.Sum256(append([]byte{0}, leaf...))
}

// RefTree is the one true Merkle tree. Leaves below base are known only as
// opaque subtrees of 256^k leaves.
type RefTree struct {
	seed   uint64
	base   uint64
	leaves []Hash
	cache  map[[2]uint64]Hash
}

func NewRefTree(seed, base uint64) *RefTree {
	return &RefTree{seed: seed, base: base, cache: map[[2]uint64]Hash{}}
}

func (t *RefTree) Size() uint64 { return t.base + uint64(len(t.leaves)) }
func (t *RefTree) Leaf(i uint64) Hash {
	return t.sub(0, i)
}
func (t *RefTree) Append(h Hash) { t.leaves = append(t.leaves, h) }

// Truncate drops the leaves from size on.
func (t *RefTree) Truncate(size uint64) {
	t.leaves = t.leaves[:size-t.base]
	for k := range t.cache {
		if (k[1]+1)<<k[0] > size {
			delete(t.cache, k)
		}
	}
}

// sub is the hash of the complete subtree idx at a level.
func (t *RefTree) sub(level uint, idx uint64) Hash {
	opaque := (idx+1)<<level <= t.base
	if level == 0 && !opaque {
		return t.leaves[idx-t.base]
	}
	k := [2]uint64{uint64(level), idx}
	if h, ok := t.cache[k]; ok {
		return h
	}
	var h Hash
	if opaque && level%8 == 0 {
		h = sha256.Sum256([]byte(fmt.Sprintf("opaque %d %d %d", t.seed, level, idx)))
	} else {
		h = nodeHash(t.sub(level-1, 2*idx), t.sub(level-1, 2*idx+1))
	}
	t.cache[k] = h
	return h
}

func (t *RefTree) mth(lo, n uint64) Hash {
	if n == 0 {
		return sha256.Sum256(nil)
	}
	if n&(n-1) == 0 {
		l := uint(0)
		for uint64(1)<<l < n {
			l++
		}
		return t.sub(l, lo>>l)
	}
	k := split(n)
	return nodeHash(t.mth(lo, k), t.mth(lo+k, n-k))
}

func split(n uint64) uint64 { // largest power of two smaller than n
	k := uint64(1)
	for k<<1 < n {
		k <<= 1
	}
	return k
}

func (t *RefTree) Root(n uint64) Hash { return t.mth(0, n) }

// Path is the audit path of leaf m in the tree of the first n leaves.
func (t *RefTree) Path(m, n uint64) []Hash { return t.path(m, 0, n) }

func (t *RefTree) path(m, lo, n uint64) []Hash {
	if n == 1 {
		return nil
	}
	k := split(n)
	if m < k {
		return append(t.path(m, lo, k), t.mth(lo+k, n-k))
	}
	return append(t.path(m-k, lo+k, n-k), t.mth(lo, k))
}

// Consistency is the RFC 6962 proof between sizes m and n.
func (t *RefTree) Consistency(m, n uint64) []Hash {
	if m == 0 || m == n {
		return nil
	}
	return t.subproof(m, 0, n, true)
}

func (t *RefTree) subproof(m, lo, n uint64, b bool) []Hash {
	if m == n {
		if b {
			return nil
		}
		return []Hash{t.mth(lo, n)}
	}
	k := split(n)
	if m <= k {
		return append(t.subproof(m, lo, k, b), t.mth(lo+k, n-k))
	}
	return append(t.subproof(m-k, lo+k, n-k, false), t.mth(lo, k))
}

// TileBytes is the content of hash tile N of level L with width W.
func (t *RefTree) TileBytes(L uint, N uint64, W int) []byte {
	b := make([]byte, 0, 32*W)
	for i := 0; i < W; i++ {
		h := t.sub(8*L, N*256+uint64(i))
		b = append(b, h[:]...)
	}
	return b
}

func tilePath(L int, N uint64, W int) string {
	s := fmt.Sprintf("%03d", N%1000)
	for N >= 1000 {
		N /= 1000
		s = fmt.Sprintf("x%03d/%s", N%1000, s)
	}
	l := "data"
	if L >= 0 {
		l = strconv.Itoa(L)
	}
	if W != 256 {
		s += fmt.Sprintf(".p/%d", W)
	}
	return "tile/" + l + "/" + s
}

// parseTilePath is its inverse; ok is false for anything else.
func parseTilePath(key string) (L int, N uint64, W int, ok bool) {
	p := strings.Split(key, "/")
	if len(p) < 3 || p[0] != "tile" {
		return
	}
	if p[1] == "data" {
		L = -1
	} else if v, err := strconv.Atoi(p[1]); err == nil && v >= 0 && v < 6 {
		L = v
	} else {
		return
	}
	rest := p[2:]
	W = 256
	if len(rest) >= 2 && strings.HasSuffix(rest[len(rest)-2], ".p") {
		w, err := strconv.Atoi(rest[len(rest)-1])
		if err != nil {
			return
		}
		W = w
		rest = rest[:len(rest)-1]
		rest[len(rest)-1] = strings.TrimSuffix(rest[len(rest)-1], ".p")
	}
	for _, s := range rest {
		v, err := strconv.Atoi(strings.TrimPrefix(s, "x"))
		if err != nil {
			return
		}
		N = N*1000 + uint64(v)
	}
	ok = tilePath(L, N, W) == key
	return
}

// RefEntry is a parsed data tile entry.
type RefEntry struct {
	Raw     []byte
	Ts      uint64
	Pre     bool
	IKH     [32]byte
	Cert    []byte
	PreCert []byte
	Chain   [][32]byte
	Index   uint64
}

func (e *RefEntry) Fp() [32]byte {
	if e.Pre {
		return sha256.Sum256(e.PreCert)
	}
	return sha256.Sum256(e.Cert)
}

func take(b *[]byte, n int) ([]byte, bool) {
	if n < 0 || len(*b) < n {
		return nil, false
	}
	r := (*b)[:n]
	*b = (*b)[n:]
	return r, true
}

func takeInt(b *[]byte, n int) (uint64, bool) {
	r, ok := take(b, n)
	v := uint64(0)
	for _, x := range r {
		v = v<<8 | uint64(x)
	}
	return v, ok
}

var errTile = errors.New("malformed data tile entry")

func parseTileEntry(b []byte) (*RefEntry, []byte, error) {
	in := b
	e := &RefEntry{}
	ok := true
	num := func(n int) uint64 {
		v, k := takeInt(&b, n)
		ok = ok && k
		return v
	}
	vec := func(n int) []byte {
		l := num(n)
		v, k := take(&b, int(l))
		ok = ok && k
		return v
	}
	e.Ts = num(8)
	typ := num(2)
	switch typ {
	case 0:
		e.Cert = vec(3)
	case 1:
		e.Pre = true
		h, k := take(&b, 32)
		ok = ok && k
		copy(e.IKH[:], h)
		e.Cert = vec(3)
	default:
		return nil, nil, errTile
	}
	ext := vec(2)
	if e.Pre {
		e.PreCert = vec(3)
	}
	fps := vec(2)
	if !ok || len(fps)%32 != 0 || len(ext) != 8 || ext[0] != 0 || ext[1] != 0 || ext[2] != 5 {
		return nil, nil, errTile
	}
	for _, x := range ext[3:] {
		e.Index = e.Index<<8 | uint64(x)
	}
	for i := 0; i < len(fps); i += 32 {
		e.Chain = append(e.Chain, [32]byte(fps[i:i+32]))
	}
	e.Raw = in[:len(in)-len(b)]
	return e, b, nil
}

func put(b []byte, v uint64, n int) []byte {
	for i := n - 1; i >= 0; i-- {
		b = append(b, byte(v>>(8*uint(i))))
	}
	return b
}

func encodeTileEntry(e *RefEntry) []byte {
	var b []byte
	b = put(b, e.Ts, 8)
	if e.Pre {
		b = put(b, 1, 2)
		b = append(b, e.IKH[:]...)
	} else {
		b = put(b, 0, 2)
	}
	b = put(b, uint64(len(e.Cert)), 3)
	b = append(b, e.Cert...)
	b = append(b, 0, 8, 0, 0, 5)
	b = put(b, e.Index, 5)
	if e.Pre {
		b = put(b, uint64(len(e.PreCert)), 3)
		b = append(b, e.PreCert...)
	}
	b = put(b, uint64(32*len(e.Chain)), 2)
	for _, c := range e.Chain {
		b = append(b, c[:]...)
	}
	return b
}

// merkleLeaf is the RFC 6962 MerkleTreeLeaf, and also what an SCT signs.
func merkleLeaf(pre bool, ikh [32]byte, cert []byte, ts, index uint64) []byte {
	b := []byte{0, 0}
	b = put(b, ts, 8)
	if pre {
		b = put(b, 1, 2)
		b = append(b, ikh[:]...)
	} else {
		b = put(b, 0, 2)
	}
	b = put(b, uint64(len(cert)), 3)
	b = append(b, cert...)
	b = append(b, 0, 8, 0, 0, 5)
	return put(b, index, 5)
}

func (e *RefEntry) Leaf() []byte { return merkleLeaf(e.Pre, e.IKH, e.Cert, e.Ts, e.Index) }

// extraData is the RFC 6962 extra_data of an entry.
func extraData(pre bool, preCert []byte, chain [][]byte) []byte {
	var b []byte
	if pre {
		b = put(b, uint64(len(preCert)), 3)
		b = append(b, preCert...)
	}
	n := 0
	for _, c := range chain {
		n += 3 + len(c)
	}
	b = put(b, uint64(n), 3)
	for _, c := range chain {
		b = put(b, uint64(len(c)), 3)
		b = append(b, c...)
	}
	return b
}

// LogKey is the log's public identity as a client knows it.
type LogKey struct {
	pub  *ecdsa.PublicKey
	id   [32]byte
	name string
	hash uint32
}

func newLogKey(pub *ecdsa.PublicKey, name string) *LogKey {
	der, err := x509.MarshalPKIXPublicKey(pub)
	if err != nil {
		panic(err)
	}
	k := &LogKey{pub: pub, id: sha256.Sum256(der), name: name}
	h := sha256.Sum256(append([]byte(name+"\n\x05"), k.id[:]...))
	k.hash = binary.BigEndian.Uint32(h[:4])
	return k
}

func (k *LogKey) verifyDS(ds, msg []byte) bool {
	if len(ds) < 4 || ds[0] != 4 || ds[1] != 3 || int(ds[2])<<8|int(ds[3]) != len(ds)-4 {
		return false
	}
	h := sha256.Sum256(msg)
	return ecdsa.VerifyASN1(k.pub, h[:], ds[4:])
}

func sthInput(size, ts uint64, root Hash) []byte {
	b := []byte{0, 1}
	b = put(b, ts, 8)
	b = put(b, size, 8)
	return append(b, root[:]...)
}

// Head is a published tree head in either format.
type Head struct {
	Size, Ts uint64
	Root     Hash
}

func (k *LogKey) parseSTH(data []byte) (Head, error) {
	var in struct {
		TreeSize  *uint64 `json:"tree_size"`
		Timestamp *uint64 `json:"timestamp"`
		Root      []byte  `json:"sha256_root_hash"`
		Sig       []byte  `json:"tree_head_signature"`
	}
	if err := json.Unmarshal(data, &in); err != nil {
		return Head{}, fmt.Errorf("not a signed tree head: %v", err)
	}
	if in.TreeSize == nil || in.Timestamp == nil || len(in.Root) != 32 {
		return Head{}, errors.New("signed tree head lacks a field")
	}
	h := Head{*in.TreeSize, *in.Timestamp, Hash(in.Root)}
	if !k.verifyDS(in.Sig, sthInput(h.Size, h.Ts, h.Root)) {
		return h, errors.New("tree head signature does not verify")
	}
	return h, nil
}

func (k *LogKey) parseCheckpoint(data []byte) (Head, error) {
	bad := func(s string) (Head, error) { return Head{}, errors.New("checkpoint: " + s) }
	text, sigs, ok := strings.Cut(string(data), "\n\n")
	if !ok {
		return bad("no signature block")
	}
	lines := strings.Split(text, "\n")
	if len(lines) != 3 {
		return bad("wrong number of lines")
	}
	if lines[0] != k.name {
		return bad("wrong origin")
	}
	n, err := strconv.ParseUint(lines[1], 10, 64)
	if err != nil || strconv.FormatUint(n, 10) != lines[1] {
		return bad("bad size")
	}
	root, err := base64.StdEncoding.DecodeString(lines[2])
	if err != nil || len(root) != 32 {
		return bad("bad root")
	}
	h := Head{Size: n, Root: Hash(root)}
	if !strings.HasSuffix(sigs, "\n") {
		return bad("unterminated signature")
	}
	found := false
	for _, l := range strings.Split(strings.TrimSuffix(sigs, "\n"), "\n") {
		f := strings.Split(l, " ")
		if len(f) != 3 || f[0] != "\u2014" {
			return bad("bad signature line")
		}
		if f[1] != k.name {
			continue
		}
		sig, err := base64.StdEncoding.DecodeString(f[2])
		if err != nil || len(sig) < 12 {
			return bad("bad signature")
		}
		if binary.BigEndian.Uint32(sig) != k.hash {
			continue
		}
		h.Ts = binary.BigEndian.Uint64(sig[4:])
		if !k.verifyDS(sig[12:], sthInput(h.Size, h.Ts, h.Root)) {
			return bad("signature does not verify")
		}
		found = true
	}
	if !found {
		return bad("no signature by the log")
	}
	return h, nil
}

// SCT is an answer to a submission.
type SCT struct {
	Ts, Index uint64
	Sig       []byte
	Raw       []byte
}

func (k *LogKey) parseSCT(body []byte) (*SCT, error) {
	var in struct {
		Version   *int   `json:"sct_version"`
		ID        []byte `json:"id"`
		Timestamp uint64 `json:"timestamp"`
		Ext       string `json:"extensions"`
		Sig       []byte `json:"signature"`
	}
	if err := json.Unmarshal(body, &in); err != nil {
		return nil, err
	}
	if in.Version == nil || *in.Version != 0 {
		return nil, errors.New("wrong SCT version")
	}
	if !bytes.Equal(in.ID, k.id[:]) {
		return nil, errors.New("SCT names another log")
	}
	ext, err := base64.StdEncoding.DecodeString(in.Ext)
	if err != nil || len(ext) != 8 || ext[0] != 0 || ext[1] != 0 || ext[2] != 5 {
		return nil, errors.New("SCT extensions carry no leaf index")
	}
	s := &SCT{Ts: in.Timestamp, Sig: in.Sig, Raw: body}
	for _, x := range ext[3:] {
		s.Index = s.Index<<8 | uint64(x)
	}
	return s, nil
}
