package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
	"time"
)

// Oracle holds the reference model and judges everything observable against it.
type Oracle struct {
	w    *World
	key  *LogKey
	tree *RefTree
	ents []*RefEntry // from tree.base on
	subs map[[32]byte]*Sub

	size     uint64 // largest published size
	sth, cp  Head
	hasSth   bool
	hasCp    bool
	roots    map[uint64]Hash
	pub      []uint64 // sizes published as STH, ascending, unique
	pubAt    map[uint64]time.Time
	pubSet   map[uint64]bool
	sthTimes []time.Time
	sthAt    time.Time
	tails    map[string]bool // issuer fps (hex) of acceptable submissions
	wants    map[*Want]*wantState
	wantList []*wantState
	truncGen int
	overlap  int // entries beyond what submissions explain
	byLeaf   map[Hash][]uint64
	byBody   map[[32]byte][]uint64 // entries by certificate content
	ghosts   []Hash                // leaves written to a data tile, published or not
	ghostSet map[Hash]bool
	acked    uint64 // size whose head the writer knows to be stored
	entWant  []*Want

	viol     []Violation
	seen     map[string]bool
	locked   uint32 // node holding the lock
	lastHold uint32
	noHead   bool // heads are not judged (initialisation)
	ndup     int
	broken   bool // the store no longer follows the reference: stop judging details
	rootsRaw []byte
	sthKept  bool // a setup that finished found or wrote a tree head
}

type wantState struct {
	sub     *Sub
	want    *Want
	allow   int // submissions that may have become an entry
	entries []uint64
	answers []*SCT
	answAt  time.Time
	certain bool // the answered entry is unique
}

func NewOracle(w *World, key *LogKey) *Oracle {
	return &Oracle{w: w, key: key, tree: NewRefTree(w.plan.Seed, 0), subs: map[[32]byte]*Sub{}, roots: map[uint64]Hash{},
		pubSet: map[uint64]bool{}, pubAt: map[uint64]time.Time{}, tails: map[string]bool{}, wants: map[*Want]*wantState{}, seen: map[string]bool{}, byLeaf: map[Hash][]uint64{},
		byBody: map[[32]byte][]uint64{}, ghostSet: map[Hash]bool{}}
}

// violation records a broken property; key identifies what failed without times.
func (o *Oracle) violation(props, key, f string, a ...any) {
	if o.seen[key] {
		return
	}
	o.seen[key] = true
	if o.w.edge != nil && o.w.edge.asked(props) {
		props += " C18"
	}
	msg := fmt.Sprintf(f, a...)
	o.w.event("VIOLATION %s: %s", props, msg)
	o.viol = append(o.viol, Violation{Props: strings.Fields(props), Key: key, Msg: msg, AtMs: int64(o.w.now() / time.Millisecond)})
}

func (o *Oracle) root(n uint64) Hash {
	if h, ok := o.roots[n]; ok {
		return h
	}
	h := o.tree.Root(n)
	o.roots[n] = h
	return h
}

func (o *Oracle) entry(i uint64) *RefEntry {
	if i < o.tree.base || i >= o.tree.Size() {
		return nil
	}
	return o.ents[i-o.tree.base]
}

// ---- leadership

func (o *Oracle) onLockAcquired(node uint32) {
	n := o.w.nodes[node]
	if n == nil {
		return
	}
	n.acquired = time.Now()
	o.locked, o.lastHold = node, node
}

func (o *Oracle) onLockLost(node uint32) {
	if o.locked == node {
		o.locked = 0
	}
	n := o.w.nodes[node]
	if n == nil || n.dead {
		return
	}
	n.lost = time.Now()
	o.mustExit(n, 30*time.Second, "C09", "keeps-running-after-lock-loss", "keeps running after losing the leadership lock")
}

func (o *Oracle) onLockReleased(node uint32) {
	if o.locked == node {
		o.locked = 0
	}
	n := o.w.nodes[node]
	if n == nil || n.dead {
		return
	}
	n.released = time.Now()
	o.mustExit(n, 30*time.Second, "C09", "keeps-running-after-release", "keeps running after releasing the leadership lock")
}

// mustExit requires a process to be gone after d (not counting time it was stalled).
func (o *Oracle) mustExit(n *Node, d time.Duration, prop, key, what string) {
	goInfra(func() {
		until := time.Now().Add(d)
		for {
			s := n.resumes
			time.Sleep(time.Until(until))
			if n.dead || o.w.ending {
				return
			}
			if n.resumes != s && n.resumes.After(until.Add(-d)) {
				until = n.resumes.Add(d)
				continue
			}
			o.violation(prop, key, "%s %s", o.w.name(n.id), what)
			return
		}
	})
}

func (o *Oracle) onActive(n *Node) {
	n.curSize, n.prevSize = o.sth.Size, o.sth.Size
	if n.acquired.IsZero() {
		o.violation("C09", "active-without-lock", "%s serves without having acquired the lock", o.w.name(n.id))
	}
}

func (o *Oracle) onExit(n *Node) {
	if n.role != "submit" || n.code == -1 || n.code == 130 {
		return
	}
	w := o.w
	if w.ending || w.settingUp {
		return
	}
	if w.lastFlt.IsZero() || (w.healed && n.started.After(w.healedAt)) {
		if n.explained == "" || n.explained == "panic" {
			if n.explained != "panic" {
				o.violation("C08", "unexplained-exit:"+exitClass(n.why), "%s ended although nothing was wrong: %s", w.name(n.id), n.why)
			}
		}
	}
}

func exitClass(why string) string {
	for _, s := range []string{"lock lost", "fetch STH", "unmarshal STH", "fetch roots", "edge tiles", "data tile", "Failed to create log"} {
		if strings.Contains(why, s) {
			return s
		}
	}
	return "other"
}

func (o *Oracle) onPanic(n *Node, msg, site string) {
	if n == nil {
		return
	}
	props := "C08"
	switch n.role {
	case "monitor":
		props = "C14"
	case "setup":
		props = "C16"
	case "submit":
		if n.active.IsZero() {
			props = "C08"
		} else {
			props = "C08 C13"
		}
	}
	o.violation(props, "panic:"+n.role+":"+site, "%s panicked: %s at %s", o.w.name(n.id), clip(msg, 200), site)
}

func (o *Oracle) onHandlerPanic(n *Node, msg, site string) {
	if strings.Contains(msg, "net/http: abort Handler") {
		return
	}
	props := "C13 C08"
	if n.role == "monitor" {
		props = "C14"
	}
	o.violation(props, "handler-panic:"+n.role+":"+site, "%s panicked serving a request: %s at %s", o.w.name(n.id), clip(msg, 200), site)
}

// onFault is told of every fault that is about to hit an operation.
func (o *Oracle) onFault(n *Node, op, class, key string, f *Fault, sticky bool) {
	if n == nil || n.role != "submit" || n.active.IsZero() || n.dead || !n.failedAt.IsZero() {
		return
	}
	switch f.Act {
	case "err", "err-after", "reset", "reset-after", "trunc", "enospc":
	default:
		return
	}
	switch op {
	case "put", "head":
		if !sticky {
			// retried by the client library, but not for ever
			if n.tries == nil {
				n.tries = map[string]int{}
			}
			if n.tries[op+key]++; n.tries[op+key] >= 2 {
				n.givingUp = time.Now()
			}
			return
		}
	case "get":
		if class != "hashes" || !sticky && f.Act != "trunc" {
			return
		}
	case "fs-write", "fs-openw", "fs-rename", "fs-fsync":
		if class == "other" || class == "etc" {
			return
		}
	default:
		return
	}
	n.failedAt = time.Now()
	n.failedOp = op + " " + class
	n.failedKey = key
	n.failBase = n.curSize
	if class == "checkpoint" { // the tree head of this batch is out already
		n.failBase = n.prevSize
	}
	o.w.event("%s must stop: %s fails for good (base %d)", o.w.name(n.id), n.failedOp, n.failBase)
	goInfra(func() {
		until := n.failedAt.Add(60 * time.Second)
		for {
			s := n.resumes
			time.Sleep(time.Until(until))
			if n.dead || o.w.ending {
				return
			}
			if n.resumes != s {
				until = n.resumes.Add(60 * time.Second)
				continue
			}
			break
		}
		if o.w.healed && o.w.healedAt.Sub(n.failedAt) < 20*time.Second {
			return
		}
		o.violation("C10", "no-exit-after-failure:"+n.failedOp, "%s still runs a minute after %s failed for good", o.w.name(n.id), n.failedOp)
	})
}

func (o *Oracle) failureStands(n *Node) bool {
	return n != nil && !n.failedAt.IsZero() && !(o.w.healed && o.w.healedAt.Sub(n.failedAt) < 20*time.Second)
}

// checkWriter judges a store write by its writer.
func (o *Oracle) checkWriter(n *Node, key string) {
	if n.acquired.IsZero() {
		o.violation("C09", "write-without-lock", "%s writes %s without ever having held the lock", o.w.name(n.id), classOf(key))
		return
	}
	const grace = 100 * time.Millisecond
	if !n.released.IsZero() && time.Since(n.released) > grace {
		o.violation("C09", "write-after-release", "%s writes %s %v after it released the lock", o.w.name(n.id), classOf(key), time.Since(n.released))
		return
	}
	if h := o.locked; h != 0 && h != n.id && !n.lost.IsZero() {
		if s := o.w.nodes[h]; s != nil && s.acquired.After(n.acquired) && time.Since(s.acquired) > grace {
			o.violation("C09", "write-after-successor", "%s writes %s although %s holds the lock", o.w.name(n.id), classOf(key), o.w.name(h))
		}
	}
}

// ---- the store

func (w *World) onStoreWrite(node uint32, key string, old []byte, had bool, data []byte) {
	asInfra(func() { w.storeWrite(node, key, old, had, data) })
}

func (w *World) storeWrite(node uint32, key string, old []byte, had bool, data []byte) {
	h := sha256.Sum256(data)
	w.event("%s writes %s (%d bytes, %x)", w.name(node), key, len(data), h[:4])
	if w.fsm != nil {
		w.fsm.onVisible(node, key, data)
		return
	}
	if w.o != nil && !w.o.noHead {
		w.o.onWrite(node, key, old, had, data)
	}
}

func (w *World) onStoreDelete(node uint32, key string) {
	asInfra(func() { w.storeDelete(node, key) })
}

func (w *World) storeDelete(node uint32, key string) {
	w.event("%s deletes %s", w.name(node), key)
	if w.fsm != nil {
		w.fsm.onDelete(key)
		return
	}
	o := w.o
	if o == nil || o.noHead || o.broken {
		return
	}
	if o.committedTile(key) || key == "ct/v1/get-sth" || key == "ct/v1/get-roots" || key == "checkpoint" {
		o.violation("C03", "deleted:"+classOf(key), "%s was deleted", key)
	}
}

func (o *Oracle) committedTile(key string) bool {
	L, N, W, ok := parseTilePath(key)
	if !ok {
		return false
	}
	n := o.size
	if L > 0 {
		n >>= 8 * uint(L)
	}
	return N*256+uint64(W) <= n
}

func (o *Oracle) wantTile(key string) ([]byte, bool) {
	L, N, W, ok := parseTilePath(key)
	if !ok || !o.committedTile(key) {
		return nil, false
	}
	if L >= 0 {
		return o.tree.TileBytes(uint(L), N, W), true
	}
	var b []byte
	for i := 0; i < W; i++ {
		e := o.entry(N*256 + uint64(i))
		if e == nil {
			return nil, false
		}
		b = append(b, e.Raw...)
	}
	return b, true
}

func (o *Oracle) onWrite(node uint32, key string, old []byte, had bool, data []byte) {
	n := o.w.nodes[node]
	if n != nil && n.role == "submit" && !o.w.teardown && objectKey(key) {
		o.checkWriter(n, key)
	}
	if o.broken {
		return
	}
	same := had && bytes.Equal(old, data)
	switch {
	case key == "ct/v1/get-sth":
		h, err := o.key.parseSTH(data)
		if err != nil {
			if o.w.plan.Cfg.FS && !jsonComplete(data) {
				o.violation("C15", "torn:sth", "a reader can see an incomplete get-sth object of %d bytes", len(data))
				return
			}
			o.violation("C11", "bad-sth", "invalid signed tree head written: %v", err)
			return
		}
		if !same {
			o.onHead(n, "STH", h)
		}
	case key == "checkpoint":
		h, err := o.key.parseCheckpoint(data)
		if err != nil {
			if o.w.plan.Cfg.FS && !strings.HasSuffix(string(data), "=\n") {
				o.violation("C15", "torn:checkpoint", "a reader can see an incomplete checkpoint object of %d bytes", len(data))
				return
			}
			o.violation("C11", "bad-checkpoint", "invalid checkpoint written: %v", err)
			return
		}
		if !same {
			o.onHead(n, "checkpoint", h)
		}
	case strings.HasPrefix(key, "tile/"):
		if same {
			return
		}
		if classOf(key) == "data" {
			o.noteGhosts(key, data)
		}
		if want, ok := o.wantTile(key); ok && !bytes.Equal(want, data) {
			props := "C03"
			if classOf(key) == "data" {
				props = "C03 C01 C07"
			}
			if o.w.plan.Cfg.FS && len(data) < len(want) {
				props += " C15"
			}
			o.violation(props, "committed-changed:"+classOf(key), "%s, which the published tree of size %d commits to, was replaced by other content", key, o.size)
		}
	case strings.HasPrefix(key, "issuer/"):
		fp := key[len("issuer/"):]
		if len(fp) != 64 {
			return // temporary file
		}
		if _, err := hex.DecodeString(fp); err != nil {
			return
		}
		h := sha256.Sum256(data)
		if hex.EncodeToString(h[:]) != fp {
			if o.w.plan.Cfg.FS {
				o.violation("C15", "torn:issuer", "a reader can see an incomplete %s", key)
			} else {
				o.violation("C03", "bad-issuer", "%s does not hold the certificate it names", key)
			}
			return
		}
		if !o.tails[fp] {
			o.violation("C12", "issuer-of-refused", "%s was stored although no acceptable submission contained it", key)
		}
	case key == "ct/v1/get-roots":
		if o.rootsRaw != nil && !bytes.Equal(o.rootsRaw, data) && n != nil && n.role == "submit" {
			o.violation("C12", "roots-changed", "the accepted roots object was changed by %s", o.w.name(node))
		}
	}
}

// noteGhosts remembers leaves that were written but may never be published.
func (o *Oracle) noteGhosts(key string, data []byte) {
	_, N, _, ok := parseTilePath(key)
	if !ok {
		return
	}
	for i := uint64(0); len(data) > 0; i++ {
		e, rest, err := parseTileEntry(data)
		if err != nil {
			return
		}
		data = rest
		if idx := N*256 + i; idx >= o.size && len(o.ghosts) < 4096 {
			h := leafHash(e.Leaf())
			if !o.ghostSet[h] {
				o.ghostSet[h] = true
				o.ghosts = append(o.ghosts, h)
			}
		}
	}
}

// onPowerLoss re-reads the disk: what was acknowledged must have survived.
func (o *Oracle) onPowerLoss() {
	if o.broken || !o.hasSth {
		return
	}
	w := o.w
	data, ok := w.get("ct/v1/get-sth")
	h, err := o.key.parseSTH(data)
	if !ok && w.settingUp && !o.sthKept && w.plan.Cfg.InitSize == 0 {
		o.hasSth = false // it was not on disk yet
		o.sth = Head{}
		return
	}
	if !ok || err != nil {
		o.violation("C15 C08 C03", "power:sth-lost", "after power loss the signed tree head is unreadable: %v", err)
		o.broken = true
		return
	}
	if h.Size < o.acked || h.Size < o.tree.base {
		o.violation("C15 C01 C02", "power:rollback", "after power loss the tree head went back from size %d, which was acknowledged, to %d", o.acked, h.Size)
		o.broken = true
		return
	}
	if h.Size > o.size || h.Root != o.root(h.Size) {
		o.violation("C15 C02", "power:unknown-head", "after power loss the tree head of size %d was never published", h.Size)
		o.broken = true
		return
	}
	if h.Size < o.size {
		w.event("unacknowledged tree head lost: back to size %d", h.Size)
		o.truncate(h.Size)
	}
	o.sth = h
	if cp, ok := w.get("checkpoint"); ok {
		c, err := o.key.parseCheckpoint(cp)
		if err != nil {
			o.violation("C15 C11", "power:checkpoint", "after power loss the checkpoint is unreadable: %v", err)
		} else {
			o.cp = c
		}
	} else if o.hasCp {
		o.hasCp = false
	}
	o.auditTiles("C15 C03 C01", "power")
}

// truncate forgets entries whose tree head was never acknowledged and is gone.
func (o *Oracle) truncate(size uint64) {
	o.truncGen++
	for i := size; i < o.size; i++ {
		e := o.entry(i)
		h := leafHash(e.Leaf())
		o.byLeaf[h] = o.byLeaf[h][:len(o.byLeaf[h])-1]
		if !o.ghostSet[h] {
			o.ghostSet[h] = true
			o.ghosts = append(o.ghosts, h)
		}
		k := bodyKey(e.Pre, e.IKH, e.Cert)
		o.byBody[k] = o.byBody[k][:len(o.byBody[k])-1]
	}
	for _, st := range o.wants {
		for len(st.entries) > 0 && st.entries[len(st.entries)-1] >= size {
			st.entries = st.entries[:len(st.entries)-1]
		}
	}
	o.tree.Truncate(size)
	o.ents = o.ents[:size-o.tree.base]
	o.size = size
	for n := range o.roots {
		if n > size {
			delete(o.roots, n)
		}
	}
	for len(o.pub) > 0 && o.pub[len(o.pub)-1] > size {
		delete(o.pubSet, o.pub[len(o.pub)-1])
		o.pub = o.pub[:len(o.pub)-1]
	}
}

// ack notes that the current head is known to its writer to be stored.
func (o *Oracle) ack() {
	if o.sth.Size > o.acked {
		o.acked = o.sth.Size
	}
}

func bodyKey(pre bool, ikh [32]byte, cert []byte) [32]byte {
	return sha256.Sum256(merkleLeaf(pre, ikh, cert, 0, 0))
}

func jsonComplete(b []byte) bool {
	return len(b) > 1 && b[0] == '{' && b[len(b)-1] == '}'
}

// onHead judges a newly published tree head.
func (o *Oracle) onHead(n *Node, kind string, h Head) {
	w := o.w
	w.count("heads")
	name := "?"
	if n != nil {
		name = w.name(n.id)
	}
	last, has := o.sth, o.hasSth
	if kind == "checkpoint" {
		last, has = o.cp, o.hasCp
	}
	if n != nil && n.role == "setup" && has && h.Size < last.Size {
		o.violation("C16 C02", "setup-reset", "setup moved the %s of a log with %d entries back to %d", kind, last.Size, h.Size)
		o.broken = true
		return
	}
	if has {
		if h.Size < last.Size {
			o.violation("C02", "rollback:"+kind, "%s by %s goes back from size %d to %d", kind, name, last.Size, h.Size)
			o.broken = true
			return
		}
		if h.Ts == last.Ts+1 {
			w.count("timestamps-pushed")
		}
		if h.Ts <= last.Ts {
			o.violation("C11", "timestamp:"+kind, "%s by %s has timestamp %d, not after the previous %d", kind, name, h.Ts, last.Ts)
		}
	}
	// the attempts of the failing operation itself may have been carried out
	if n != nil && o.failureStands(n) && n.failedKey != map[string]string{"STH": "ct/v1/get-sth", "checkpoint": "checkpoint"}[kind] {
		o.violation("C10", "head-after-failure:"+n.failedOp, "%s publishes a %s of size %d after %s failed for good", name, kind, h.Size, n.failedOp)
	}
	if h.Size > o.size {
		if !o.extend(n, kind, h) {
			return
		}
	} else if h.Size < o.tree.base || h.Root != o.root(h.Size) {
		o.violation("C02", "fork:"+kind, "%s by %s of size %d has a root that differs from the one published before", kind, name, h.Size)
		o.broken = true
		return
	}
	// entries covered must not be younger than the head
	lo := last.Size
	if !has || lo < o.tree.base {
		lo = o.tree.base
	}
	for i := lo; i < h.Size; i++ {
		if e := o.entry(i); e != nil && e.Ts > h.Ts {
			o.violation("C11", "entry-younger:"+kind, "%s of size %d has timestamp %d, but entry %d has %d", kind, h.Size, h.Ts, i, e.Ts)
			break
		}
	}
	if kind == "STH" {
		o.sth, o.hasSth = h, true
		o.sthAt = time.Now()
		o.sthTimes = append(o.sthTimes, o.sthAt)
		if !o.pubSet[h.Size] {
			o.pubSet[h.Size] = true
			o.pub = append(o.pub, h.Size)
			o.pubAt[h.Size] = o.sthAt
		}
		if n != nil {
			n.prevSize, n.curSize = n.curSize, h.Size
			n.wroteHead = true
		}
	} else {
		o.cp, o.hasCp = h, true
	}
}

// extend takes a larger tree into the reference, reading it from the store.
func (o *Oracle) extend(n *Node, kind string, h Head) bool {
	w := o.w
	old := o.size
	name := "?"
	if n != nil {
		name = w.name(n.id)
	}
	bad := func(props, key, f string, a ...any) bool {
		o.violation(props, key, kind+" of size %d by %s: "+f, append([]any{h.Size, name}, a...)...)
		return false
	}
	if h.Size-old > 1<<20 {
		o.broken = true
		return bad("C02 C03", "absurd-size", "jump from %d", old)
	}
	// data tiles
	var fresh []*RefEntry
	for N := old / 256; N*256 < h.Size; N++ {
		W := 256
		if h.Size-N*256 < 256 {
			W = int(h.Size - N*256)
		}
		key := tilePath(-1, N, W)
		data, ok := w.get(key)
		if !ok {
			o.broken = true
			return bad("C03 C01", "missing:data", "data tile %s is not stored", key)
		}
		rest := data
		for i := 0; i < W; i++ {
			e, r, err := parseTileEntry(rest)
			if err != nil {
				o.broken = true
				return bad("C03", "malformed:data", "entry %d of %s: %v", i, key, err)
			}
			rest = r
			idx := N*256 + uint64(i)
			if idx < old {
				if p := o.entry(idx); p != nil && !bytes.Equal(p.Raw, e.Raw) {
					o.broken = true
					return bad("C02 C01 C03 C07", "entry-replaced", "entry %d in %s differs from the one published before", idx, key)
				}
				continue
			}
			if e.Index != idx {
				bad("C03 C04", "wrong-index", "entry at %d says index %d", idx, e.Index)
			}
			fresh = append(fresh, e)
		}
		if len(rest) != 0 {
			bad("C03", "trailing:data", "%s has %d trailing bytes", key, len(rest))
		}
	}
	for _, e := range fresh {
		o.tree.Append(leafHash(e.Leaf()))
		o.ents = append(o.ents, e)
	}
	o.size = h.Size
	root := o.root(h.Size)
	if root != h.Root {
		o.broken = true
		// is at least the tree described by the stored hash tiles an extension?
		props := "C03 C02"
		if r, ok := o.rootFromTiles(h.Size); ok && r == h.Root && o.prefixFromTiles(old, h.Size) {
			props = "C03"
		}
		return bad(props, "root-mismatch", "root is not that of the stored entries, which is %x", root[:6])
	}
	// hash tiles
	for L := uint(0); h.Size>>(8*L) > 0; L++ {
		a, b := old>>(8*L), h.Size>>(8*L)
		if a == b {
			break
		}
		for N := a / 256; N*256 < b; N++ {
			W := 256
			if b-N*256 < 256 {
				W = int(b - N*256)
			}
			key := tilePath(int(L), N, W)
			data, ok := w.get(key)
			if !ok {
				bad("C03 C06", "missing:tile", "hash tile %s is not stored", key)
			} else if !bytes.Equal(data, o.tree.TileBytes(L, N, W)) {
				bad("C03 C06", "wrong:tile", "hash tile %s has wrong content", key)
			}
		}
	}
	// entries and their issuers
	for i, e := range fresh {
		idx := old + uint64(i)
		o.judgeEntry(n, idx, e)
		for _, fp := range e.Chain {
			key := "issuer/" + hex.EncodeToString(fp[:])
			data, ok := w.get(key)
			if !ok {
				bad("C03 C07", "missing:issuer", "issuer %s of entry %d is not stored", key, idx)
			} else if sha256.Sum256(data) != fp {
				bad("C03 C07", "wrong:issuer", "issuer %s of entry %d has wrong content", key, idx)
			}
		}
	}
	w.counts["entries"] += len(fresh)
	return true
}

func (o *Oracle) tileHash(size uint64, L uint, i uint64) (Hash, bool) {
	N := i / 256
	W := 256
	if n := size>>(8*L) - N*256; n < 256 {
		W = int(n)
	}
	d, ok := o.w.get(tilePath(int(L), N, W))
	off := int(i%256) * 32
	if !ok || len(d) < off+32 {
		return Hash{}, false
	}
	return Hash(d[off : off+32]), true
}

func (o *Oracle) rootFromTiles(size uint64) (Hash, bool) {
	var mth func(lo, n uint64) (Hash, bool)
	mth = func(lo, n uint64) (Hash, bool) {
		if n&(n-1) == 0 {
			l := uint(0)
			for uint64(1)<<l < n {
				l++
			}
			if l%8 == 0 {
				return o.tileHash(size, l/8, lo>>l)
			}
		}
		k := split(n)
		a, ok1 := mth(lo, k)
		b, ok2 := mth(lo+k, n-k)
		return nodeHash(a, b), ok1 && ok2
	}
	if size == 0 {
		return sha256.Sum256(nil), true
	}
	return mth(0, size)
}

func (o *Oracle) prefixFromTiles(old, size uint64) bool {
	for i := old / 256 * 256; i < old; i++ {
		h, ok := o.tileHash(size, 0, i)
		if !ok || i >= o.tree.base && h != o.tree.Leaf(i) {
			return false
		}
	}
	return true
}

// judgeEntry checks that a logged entry is exactly an acceptable submission.
func (o *Oracle) judgeEntry(n *Node, idx uint64, e *RefEntry) {
	o.byLeaf[leafHash(e.Leaf())] = append(o.byLeaf[leafHash(e.Leaf())], idx)
	bk := bodyKey(e.Pre, e.IKH, e.Cert)
	o.byBody[bk] = append(o.byBody[bk], idx)
	fp := e.Fp()
	s := o.subs[fp]
	if s == nil {
		o.violation("C04 C12", "entry-unknown", "entry %d is not anything that was ever submitted", idx)
		return
	}
	var near *Want
	for i := range s.Var {
		wt := s.Var[i].Want
		if wt == nil {
			continue
		}
		near = wt
		if wt.Pre != e.Pre || wt.IKH != e.IKH || !bytes.Equal(wt.Cert, e.Cert) || !bytes.Equal(wt.PreCert, e.PreCert) || !sameFps(chainFps(wt.Chain), e.Chain) {
			continue
		}
		if !wt.sent {
			o.violation("C12 C04", "entry-not-sent", "entry %d (%s) was logged with a chain or endpoint it was not submitted with", idx, s.Name)
			return
		}
		st := o.state(wt, s)
		st.entries = append(st.entries, idx)
		if len(st.entries) > st.allow {
			o.overlap++
		}
		if len(st.entries) > st.allow && o.overlap > o.w.lookupFaults {
			o.violation("C05", "duplicate-entry", "entry %d logs %s again although it was already answered (entries %v)", idx, s.Name, st.entries)
		}
		if len(st.entries) > 1 {
			o.w.count("dup-entries")
		}
		return
	}
	if near == nil {
		o.violation("C12", "refused-logged:"+kindOf(s.Name), "entry %d is %s, which must be refused", idx, s.Name)
		return
	}
	what := "content"
	switch {
	case e.Pre != near.Pre:
		what = "entry type"
	case e.Pre && !bytes.Equal(near.PreCert, e.PreCert):
		what = "precertificate"
	case len(s.Var) <= 2 && e.IKH != near.IKH:
		what = "issuer key hash"
	case len(s.Var) <= 2 && !bytes.Equal(near.Cert, e.Cert):
		what = "certificate content"
	case len(s.Var) <= 2:
		what = "chain"
	}
	o.violation("C04 C07", "entry-wrong:"+what, "entry %d for %s has the wrong %s", idx, s.Name, what)
}

func kindOf(name string) string {
	if i := strings.LastIndexByte(name, '-'); i >= 0 {
		return name[:i]
	}
	return name
}

func sameFps(a, b [][32]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (o *Oracle) state(wt *Want, s *Sub) *wantState {
	st := o.wants[wt]
	if st == nil {
		st = &wantState{sub: s, want: wt}
		o.wants[wt] = st
		o.wantList = append(o.wantList, st)
	}
	return st
}

// noteSubmit is told of a submission before it is sent.
func (o *Oracle) noteSubmit(s *Sub, v *Variant, rightEndpoint bool) (resub *SCT) {
	o.subs[s.Fp] = s
	if v.Want == nil || !rightEndpoint {
		return nil
	}
	v.Want.sent = true
	for _, c := range v.Want.Chain {
		h := sha256.Sum256(c)
		o.tails[hex.EncodeToString(h[:])] = true
	}
	st := o.state(v.Want, s)
	if len(st.answers) == 0 {
		st.allow++
		return nil
	}
	return st.answers[0]
}

// judgeSCT checks an answer against the store as it is right now.
func (o *Oracle) judgeSCT(n *Node, s *Sub, v *Variant, body []byte, prior *SCT, priorSize uint64, excused bool) *SCT {
	w := o.w
	sct, err := o.key.parseSCT(body)
	if err != nil {
		o.violation("C04", "bad-sct", "answer for %s is not an SCT of this log: %v", s.Name, err)
		return nil
	}
	wt := v.Want
	leaf := merkleLeaf(wt.Pre, wt.IKH, wt.Cert, sct.Ts, sct.Index)
	sigOK := o.key.verifyDS(sct.Sig, leaf)
	if !sigOK {
		o.violation("C04", "sct-signature:"+kindOf(s.Name), "the SCT for %s (index %d) does not verify over the submitted certificate", s.Name, sct.Index)
	}
	if o.broken {
		return sct
	}
	data, ok := w.get("ct/v1/get-sth")
	h, err := o.key.parseSTH(data)
	if !ok || err != nil || h.Size <= sct.Index {
		o.violation("C01", "sct-before-sth", "SCT for %s promises index %d, but the readable tree head has size %d", s.Name, sct.Index, h.Size)
	} else if e := o.entry(sct.Index); e == nil {
		o.violation("C01", "sct-unknown-entry", "SCT for %s promises index %d, which was never published", s.Name, sct.Index)
	} else if !bytes.Equal(e.Leaf(), leaf) {
		if e.Fp() != s.Fp {
			o.violation("C01 C04", "sct-other-entry", "SCT for %s promises index %d, where another certificate is logged", s.Name, sct.Index)
		} else {
			o.violation("C01 C04", "sct-entry-differs:"+kindOf(s.Name), "SCT for %s (index %d) differs from the logged entry (timestamp %d, logged %d)", s.Name, sct.Index, sct.Ts, e.Ts)
		}
	} else if want, ok2 := o.wantTile(lastTileKey(sct.Index, h.Size)); ok2 {
		if got, ok3 := w.get(lastTileKey(sct.Index, h.Size)); !ok3 || !bytes.Equal(got, want) {
			o.violation("C01 C03", "sct-entry-not-stored", "the data tile of entry %d is not readable when its SCT is returned", sct.Index)
		}
	}
	st := o.state(wt, s)
	if prior != nil && !excused {
		switch {
		case sct.Index == prior.Index && sct.Ts == prior.Ts && (prior.Sig == nil || bytes.Equal(sct.Sig, prior.Sig)):
			w.count("resubmissions-identical")
		case ambiguous(o.byBody[bodyKey(wt.Pre, wt.IKH, wt.Cert)], priorSize, sct.Index):
			w.count("resubmissions-ambiguous")
		default:
			o.violation("C05", "resubmission-differs", "resubmitting %s returned index %d timestamp %d instead of the earlier index %d timestamp %d", s.Name, sct.Index, sct.Ts, prior.Index, prior.Ts)
		}
	}
	st.answers = append(st.answers, sct)
	o.acked = max(o.acked, sct.Index+1)
	if n != nil {
		if o.failureStands(n) && time.Since(n.failedAt) > 0 && sct.Index >= n.failBase {
			o.violation("C10", "sct-after-failure:"+n.failedOp, "%s returned an SCT for entry %d after %s failed for good", w.name(n.id), sct.Index, n.failedOp)
		}
		if gone := !n.lost.IsZero() || !n.released.IsZero(); gone {
			for _, m := range w.machines {
				if s := m.node; s != nil && s != n && !s.active.IsZero() && s.acquired.After(n.acquired) && time.Since(s.active) > time.Second && time.Since(n.resumes) > time.Second {
					o.violation("C09", "answers-after-successor", "%s answered with an SCT although %s took over", w.name(n.id), w.name(s.id))
				}
			}
		}
	}
	return sct
}

// ambiguous: overlapping submissions made several entries of this certificate
// before this one was sent; any of them may answer it.
func ambiguous(es []uint64, size, idx uint64) bool {
	found := false
	for _, e := range es {
		if e == idx && e < size {
			found = true
		}
	}
	return found && len(es) > 1
}

func lastTileKey(idx, size uint64) string {
	N := idx / 256
	W := 256
	if size-N*256 < 256 {
		W = int(size - N*256)
	}
	return tilePath(-1, N, W)
}

// sizes picks published sizes for proof requests.
func (o *Oracle) pubSizes() []uint64 {
	out := append([]uint64(nil), o.pub...)
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// auditStore re-reads everything the latest heads commit to.
func (o *Oracle) auditStore() {
	if o.broken {
		return
	}
	w := o.w
	data, ok := w.get("ct/v1/get-sth")
	h, err := o.key.parseSTH(data)
	if !ok || err != nil {
		o.violation("C11 C03", "audit-sth", "the signed tree head is not readable at the end: %v", err)
		return
	}
	if h.Size != o.sth.Size || h.Root != o.sth.Root {
		o.violation("C02", "audit-sth-differs", "the readable tree head is not the last one published")
	}
	o.auditTiles("C03 C01", "audit")
	cp, ok := w.get("checkpoint")
	if o.hasCp && !ok {
		o.violation("C11", "audit-checkpoint", "the checkpoint is not readable at the end")
		return
	}
	if ok {
		c, err := o.key.parseCheckpoint(cp)
		if err != nil {
			o.violation("C11", "audit-checkpoint-invalid", "the checkpoint is invalid at the end: %v", err)
		} else if c.Size != h.Size || c.Root != h.Root {
			o.violation("C11", "formats-differ", "with the writer idle, the checkpoint has size %d and the signed tree head %d", c.Size, h.Size)
		}
	}
}

// auditTiles re-reads every object the current tree commits to.
func (o *Oracle) auditTiles(props, tag string) {
	w, h := o.w, o.sth
	for i := o.tree.base / 256; i*256 < h.Size; i++ {
		key := lastTileKey(i*256, h.Size)
		want, ok := o.wantTile(key)
		if !ok {
			continue
		}
		if got, ok := w.get(key); !ok || !bytes.Equal(got, want) {
			o.violation(props, tag+"-data", "data tile %s is missing or differs (%s)", key, tag)
		}
	}
	for L := uint(0); h.Size>>(8*L) > 0; L++ {
		n := h.Size >> (8 * L)
		lo := (o.tree.base >> (8 * L)) / 256
		for N := lo; N*256 < n; N++ {
			W := 256
			if n-N*256 < 256 {
				W = int(n - N*256)
			}
			key := tilePath(int(L), N, W)
			if got, ok := w.get(key); !ok || !bytes.Equal(got, o.tree.TileBytes(L, N, W)) {
				o.violation(props, tag+"-tile", "hash tile %s is missing or differs (%s)", key, tag)
			}
		}
	}
	for i, e := range o.ents {
		for _, fp := range e.Chain {
			if d, ok := w.get("issuer/" + hex.EncodeToString(fp[:])); !ok || sha256.Sum256(d) != fp {
				o.violation(props, tag+"-issuer", "an issuer of entry %d is missing or differs (%s)", o.tree.base+uint64(i), tag)
			}
		}
	}
}
