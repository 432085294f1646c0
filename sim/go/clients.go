package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptrace"
	"net/url"
	"strconv"
	"strings"
	"time"
)

// goInfra starts a goroutine of the simulator itself, whoever asks for it.
func goInfra(f func()) { asInfra(func() { go f() }) }

func newClient() *http.Client {
	return &http.Client{Transport: &http.Transport{DisableKeepAlives: true, DialContext: (&net.Dialer{Timeout: 10 * time.Second}).DialContext}}
}

type answer struct {
	status  int
	header  http.Header
	body    []byte
	err     error
	start   time.Time // connection established
	sent    bool
	end     time.Time
	node    *Node // who accepted the connection
	timeout bool
}

func (w *World) do(method, u string, body []byte, timeout time.Duration) *answer {
	ctx, cancel := context.WithTimeout(bg, timeout)
	defer cancel()
	a := &answer{}
	tr := &httptrace.ClientTrace{GotConn: func(i httptrace.GotConnInfo) {
		a.start = time.Now()
		a.sent = true
		if c, ok := i.Conn.(*Conn); ok {
			a.node = w.nodes[c.peer.node]
		}
	}}
	req, err := http.NewRequestWithContext(httptrace.WithClientTrace(ctx, tr), method, u, bytes.NewReader(body))
	if err != nil {
		panic(err)
	}
	if body == nil {
		req.Body = http.NoBody
		req.ContentLength = 0
	} else {
		req.Header.Set("Content-Type", "application/json")
	}
	resp, err := newClient().Do(req)
	if err == nil {
		a.status, a.header = resp.StatusCode, resp.Header
		a.body, err = io.ReadAll(resp.Body)
		resp.Body.Close()
	}
	a.err = err
	a.end = time.Now()
	a.timeout = err != nil && ctx.Err() != nil
	return a
}

// ---- submissions

type submitOpts struct {
	wrongEndpoint bool
	timeout       time.Duration
	disconnect    time.Duration
	machine       int // -1: the leader
}

func (w *World) target(machine int) *Machine {
	if machine < 0 {
		if n := w.leader(); n != nil {
			return w.machines[n.machine]
		}
		machine = int(w.rng.U64() % uint64(len(w.machines)))
	}
	return w.machines[machine%len(w.machines)]
}

func chainJSON(chain [][]byte) []byte {
	b, err := json.Marshal(map[string]any{"chain": chain})
	if err != nil {
		panic(err)
	}
	return b
}

// submit sends one chain and judges the answer. It returns the SCT, if any.
func (w *World) submit(s *Sub, vi int, opt submitOpts) (*SCT, *answer) {
	v := &s.Var[vi%len(s.Var)]
	m := w.target(opt.machine)
	pre := s.Pre
	if opt.wrongEndpoint {
		pre = !pre
	}
	path := "add-chain"
	if pre {
		path = "add-pre-chain"
	}
	good := v.Want != nil && !opt.wrongEndpoint
	prior := w.o.noteSubmit(s, v, !opt.wrongEndpoint)
	priorSize := w.o.size
	flt0 := w.lookupFaults
	if w.outages > 0 {
		w.lookupFaults++
	}
	to := opt.timeout
	if to == 0 {
		to = 40 * time.Second
	}
	if opt.disconnect > 0 {
		to = opt.disconnect
	}
	w.count("submissions")
	a := w.do("POST", "http://"+m.host+":80/ct/v1/"+path, chainJSON(v.Submit), to)
	if w.outages > 0 {
		w.lookupFaults++
	}
	o := w.o
	n := a.node
	w.event("submission of %s to %s: %s", s.Name, m.host, a.String())
	if opt.disconnect > 0 && a.err != nil {
		return nil, a
	}
	w.judgeTime(s.Name, n, a)
	if a.err != nil {
		w.count("answers:error")
		return nil, a
	}
	w.count(fmt.Sprintf("answers:%d", a.status))
	if n != nil && n.acquired.IsZero() {
		o.violation("C09", "answer-without-lock", "%s answered a submission without ever having held the lock", w.name(n.id))
	}
	switch {
	case a.status == 200:
		if v.Want == nil {
			o.violation("C12", "accepted:"+kindOf(s.Name), "%s was accepted with an SCT", s.Name)
			return nil, a
		}
		if opt.wrongEndpoint {
			o.violation("C12", "accepted-wrong-endpoint", "%s was accepted at %s", s.Name, path)
			return nil, a
		}
		sct := o.judgeSCT(n, s, v, a.body, prior, priorSize, w.lookupFaults != flt0)
		return sct, a
	case a.status == 503:
		if !good {
			o.violation("C12", "refusal-status:"+kindOf(s.Name), "%s (not acceptable) was answered %d instead of a 4xx", s.Name, a.status)
		}
		w.judgeRetryAfter(a)
	case a.status >= 400 && a.status < 500:
		if good {
			o.violation("C12", "refused:"+kindOf(s.Name), "acceptable %s was refused with %d: %s", s.Name, a.status, clip(string(a.body), 150))
		}
	default:
		if !good {
			o.violation("C12", "refusal-status:"+kindOf(s.Name), "%s (not acceptable) was answered %d instead of a 4xx", s.Name, a.status)
		} else {
			o.violation("C13", fmt.Sprintf("status:%d", a.status), "%s was answered %d (%s) instead of an SCT or 503", s.Name, a.status, clip(string(a.body), 150))
		}
	}
	return nil, a
}

func (a *answer) String() string {
	if a.err != nil {
		s := a.err.Error()
		if i := strings.LastIndex(s, ": "); i >= 0 {
			s = s[i+2:]
		}
		return "error " + s
	}
	return strconv.Itoa(a.status)
}

func (w *World) judgeRetryAfter(a *answer) {
	ra := a.header.Get("Retry-After")
	if v, err := strconv.Atoi(ra); err != nil || v < 0 {
		w.o.violation("C13", "no-retry-after", "a 503 answer carries no usable Retry-After (%q)", ra)
	}
}

// judgeTime applies the bound on the time an active instance may take.
func (w *World) judgeTime(what string, n *Node, a *answer) {
	if n == nil || n.role != "submit" || !a.sent || n.active.IsZero() {
		return
	}
	from := a.start
	if n.active.After(from) {
		from = n.active
	}
	if n.resumes.After(from.Add(-time.Second)) { // stalled meanwhile
		return
	}
	took := a.end.Sub(from)
	if took <= 10*time.Second {
		return
	}
	if n.dead { // it had at least this long
		if took = n.died.Sub(from); took <= 10*time.Second {
			return
		}
	}
	w.o.violation("C13", "slow-answer", "%s did not answer a submission (%s) within ten seconds (took %v)", w.name(n.id), what, took.Round(time.Second))
}

var malformed = []string{"empty", "notjson", "nochain", "emptychain", "badbase64", "nullcert", "garbage", "oversize", "truncated", "wrongtype", "emptycert", "trailing"}

// submitMalformed sends a request that is no submission at all.
func (w *World) submitMalformed(kind string, pre bool, machine int) {
	s := w.pki.Get("leaf", 777777)
	good := s.Var[0].Submit
	var body []byte
	switch kind {
	case "empty":
		body = []byte{}
	case "notjson":
		body = []byte("chain=AAAA")
	case "nochain":
		body = []byte("{}")
	case "emptychain":
		body = []byte(`{"chain":[]}`)
	case "badbase64":
		body = []byte(`{"chain":["!!!!"]}`)
	case "nullcert":
		body = []byte(`{"chain":[null]}`)
	case "emptycert":
		body = []byte(`{"chain":["",""]}`)
	case "garbage":
		body = chainJSON([][]byte{w.rng.Bytes(300), good[1]})
	case "oversize":
		body = chainJSON([][]byte{bytes.Repeat([]byte{0x30}, 140*1024)})
	case "truncated":
		body = chainJSON(good)
		body = body[:len(body)/2]
	case "wrongtype":
		body = []byte(`{"chain":"AAAA"}`)
	case "trailing":
		c := append([][]byte(nil), good...)
		c[0] = append(append([]byte(nil), c[0]...), 1, 2, 3)
		body = chainJSON(c)
	}
	path := "add-chain"
	if pre {
		path = "add-pre-chain"
	}
	m := w.target(machine)
	w.count("malformed-submissions")
	a := w.do("POST", "http://"+m.host+":80/ct/v1/"+path, body, 40*time.Second)
	w.event("malformed submission (%s): %s", kind, a)
	w.judgeTime(kind, a.node, a)
	if a.err == nil && (a.status < 400 || a.status >= 500) {
		w.o.violation("C12", "malformed-status:"+kind, "a malformed submission (%s) was answered %d instead of a 4xx", kind, a.status)
	}
}

// ---- monitor queries

type monCtx struct {
	w    *World
	flt  int
	size uint64 // published when the request was sent
	a    *answer
	q    string
}

func (w *World) mon(path string, q url.Values) *monCtx {
	u := "http://" + monAddr + "/ct/v1/" + path
	if q != nil {
		u += "?" + q.Encode()
	}
	return w.monRaw("GET", u, path+"?"+q.Encode())
}

func (w *World) monRaw(method, u, name string) *monCtx {
	c := &monCtx{w: w, flt: w.monFaults, size: w.o.sth.Size, q: name}
	w.count("queries")
	w.monActive++
	if w.monDown() {
		w.monFaults++
	}
	gen := w.o.truncGen
	// two minutes, and what fetching the issuers of 1024 entries one by one takes
	c.a = w.do(method, u, nil, 120*time.Second+1024*w.opTime())
	w.monActive--
	if w.o.truncGen != gen && c.a.err == nil {
		c.a.err = errPower // may have read what power loss took away
		return c
	}
	if w.monDown() {
		w.monFaults++
	}
	a := c.a
	if a.err == nil {
		w.count(fmt.Sprintf("query-answers:%d", a.status))
		w.traceQuery(name, a)
		if a.status < 100 || a.status > 599 {
			w.o.violation("C14", "bad-status", "monitor answered %s with status %d", name, a.status)
		}
	} else if a.timeout {
		if c.healthy() {
			w.o.violation("C14", "no-answer", "the monitor did not answer %s within two minutes", name)
		}
	} else {
		ep := name
		if i := strings.IndexByte(ep, '?'); i >= 0 {
			ep = ep[:i]
		}
		w.o.violation("C14", "aborted:"+ep, "the monitor ended the connection without an answer to %s: %v", name, errText(a.err))
	}
	return c
}

var errPower = errors.New("power was lost")

func errText(err error) string {
	var ue *url.Error
	if errors.As(err, &ue) {
		err = ue.Err
	}
	return err.Error()
}

func (w *World) traceQuery(name string, a *answer) {
	h := sha256.Sum256(a.body)
	w.event("query %s: %d (%d bytes, %x)", name, a.status, len(a.body), h[:4])
}

func (c *monCtx) ok() bool      { return c.a.err == nil && c.a.status == 200 }
func (c *monCtx) healthy() bool { return c.w.monFaults == c.flt }

// need demands status 200 if the store was healthy throughout.
func (c *monCtx) need(props, key string) bool {
	if c.ok() {
		return true
	}
	if c.a.err == nil && c.healthy() && !c.w.o.broken {
		c.w.o.violation(props, key, "with a healthy store and tree size %d, the monitor answered %s with %d: %s", c.size, c.q, c.a.status, clip(strings.TrimSpace(string(c.a.body)), 200))
	}
	return false
}

// outOfBudget says whether the edge spent all its requests on this answer.
func (c *monCtx) outOfBudget() bool {
	return c.w.edge != nil && c.a.header.Get("X-Edge-Requests") == "10"
}

func u64(v uint64) string { return strconv.FormatUint(v, 10) }

func hashesEqual(a [][]byte, b []Hash) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i][:]) {
			return false
		}
	}
	return true
}

func (w *World) querySTH() {
	if w.edge != nil { // served by the store itself
		return
	}
	c := w.mon("get-sth", nil)
	if !c.need("C06 C11", "unavailable:get-sth") {
		return
	}
	h, err := w.o.key.parseSTH(c.a.body)
	if err != nil {
		w.o.violation("C06 C11", "served-sth-invalid", "the monitor served an invalid tree head: %v", err)
		return
	}
	if w.o.broken {
		return
	}
	if h.Size > w.o.size || h.Root != w.o.root(h.Size) {
		w.o.violation("C06 C02", "served-sth-unknown", "the monitor served a tree head of size %d that was never published", h.Size)
	} else if h.Size < c.size {
		w.o.violation("C06 C02", "served-sth-stale", "the monitor served a tree head of size %d after one of size %d was published", h.Size, c.size)
	}
}

func (w *World) queryRoots() {
	if w.edge != nil {
		return
	}
	c := w.mon("get-roots", nil)
	if !c.need("C14 C16", "unavailable:get-roots") {
		return
	}
	var in struct {
		Certificates [][]byte `json:"certificates"`
	}
	if err := json.Unmarshal(c.a.body, &in); err != nil {
		w.o.violation("C14 C16", "served-roots-invalid", "the monitor served malformed roots: %v", err)
		return
	}
	want := map[string]bool{}
	for _, r := range w.pki.roots {
		want[string(r.cert.Raw)] = true
	}
	for _, r := range in.Certificates {
		if !want[string(r)] {
			w.o.violation("C14 C16", "served-roots-extra", "the monitor served a root that was not configured")
		}
		delete(want, string(r))
	}
	if len(want) > 0 {
		w.o.violation("C14 C16", "served-roots-missing", "the monitor served only part of the configured roots")
	}
}

// queryConsistency asks for a proof between two sizes.
func (w *World) queryConsistency(m, n uint64, must bool) {
	must = w.known(n, must)
	c := w.mon("get-sth-consistency", url.Values{"first": {u64(m)}, "second": {u64(n)}})
	if must {
		if !c.need("C06", "unavailable:get-sth-consistency") {
			return
		}
	} else if !c.ok() {
		return
	}
	o := w.o
	if o.broken {
		return
	}
	if m > n || n > o.size {
		o.violation("C06", "impossible:get-sth-consistency", "the monitor served a consistency proof from %d to %d", m, n)
		return
	}
	if m != 0 && m < o.tree.base {
		return
	}
	var in struct {
		Consistency [][]byte `json:"consistency"`
	}
	if err := json.Unmarshal(c.a.body, &in); err != nil {
		o.violation("C06", "malformed:get-sth-consistency", "malformed consistency proof: %v", err)
		return
	}
	if !hashesEqual(in.Consistency, o.tree.Consistency(m, n)) {
		o.violation("C06", "wrong:get-sth-consistency", "the consistency proof from %d to %d (tree size %d) is wrong", m, n, o.size)
	}
	w.count("checked:consistency")
}

func (w *World) queryByHash(i, n uint64, must bool) {
	o := w.o
	e := o.entry(i)
	if e == nil {
		return
	}
	h := leafHash(e.Leaf())
	must = w.known(n, must)
	c := w.mon("get-proof-by-hash", url.Values{"hash": {base64.StdEncoding.EncodeToString(h[:])}, "tree_size": {u64(n)}})
	if must {
		if !c.need("C17 C06", "unavailable:get-proof-by-hash") {
			w.judgeAbsence(c, true)
			return
		}
	} else if !c.ok() {
		return
	}
	if o.broken {
		return
	}
	var in struct {
		Index *uint64  `json:"leaf_index"`
		Path  [][]byte `json:"audit_path"`
	}
	if err := json.Unmarshal(c.a.body, &in); err != nil || in.Index == nil {
		o.violation("C06", "malformed:get-proof-by-hash", "malformed inclusion proof: %v", err)
		return
	}
	if i >= n || n > o.size {
		o.violation("C06 C17", "impossible:get-proof-by-hash", "the monitor served an inclusion proof of entry %d in a tree of size %d", i, n)
		return
	}
	if *in.Index != i {
		o.violation("C17 C06", "wrong-index:get-proof-by-hash", "the leaf hash of entry %d was found at index %d", i, *in.Index)
	} else if !hashesEqual(in.Path, o.tree.Path(i, n)) {
		o.violation("C06", "wrong:get-proof-by-hash", "the inclusion proof of entry %d in size %d is wrong", i, n)
	}
	w.count("checked:inclusion")
}

func (w *World) judgeAbsence(c *monCtx, present bool) {
	if present && c.a.err == nil && c.a.status == 404 && !c.healthy() {
		w.o.violation("C17", "error-reported-as-absence", "a store error was answered 404, as if the entry were not in the log")
	}
}

// queryAbsent asks for a hash that is in no tree.
func (w *World) queryAbsent(h Hash, n uint64, what string) {
	c := w.mon("get-proof-by-hash", url.Values{"hash": {base64.StdEncoding.EncodeToString(h[:])}, "tree_size": {u64(n)}})
	w.count("checked:absent-" + what)
	if c.a.err != nil {
		return
	}
	if len(w.o.byLeaf[h]) > 0 {
		return // logged meanwhile
	}
	if c.a.status == 200 {
		w.o.violation("C17 C06", "absent-found:"+what, "lookup of a hash that is not in the log (%s) was answered with a proof: %s", what, clip(string(c.a.body), 120))
	} else if c.healthy() && w.edge == nil && (c.a.status < 400 || c.a.status >= 500) {
		w.o.violation("C17", "absent-status:"+what, "lookup of a hash that is not in the log (%s) was answered %d with a healthy store: %s", what, c.a.status, clip(string(c.a.body), 120))
	}
}

// judgeLeaf compares a served entry with the logged one.
func (w *World) judgeLeaf(ep string, i uint64, leaf, extra []byte) {
	o := w.o
	e := o.entry(i)
	if e == nil {
		return
	}
	if !bytes.Equal(leaf, e.Leaf()) {
		what := "differs from the logged one"
		if is := o.byLeaf[leafHash(leaf)]; len(is) > 0 {
			what = fmt.Sprintf("is that of entry %d", is[0])
		}
		o.violation("C07 C06", "wrong-leaf:"+ep, "%s served a leaf for entry %d that %s", ep, i, what)
		return
	}
	var chain [][]byte
	for _, fp := range e.Chain {
		c := w.pki.byFp[fp]
		if c == nil {
			return
		}
		chain = append(chain, c)
	}
	if !bytes.Equal(extra, extraData(e.Pre, e.PreCert, chain)) {
		o.violation("C07", "wrong-extra:"+ep, "%s served entry %d with a wrong chain or precertificate", ep, i)
	}
	w.count("checked:entries")
}

// queryEntries asks for a range; it returns how many entries came back.
func (w *World) queryEntries(start, end uint64, must bool) int {
	must = w.known(start+1, must)
	c := w.mon("get-entries", url.Values{"start": {u64(start)}, "end": {u64(end)}})
	if must {
		if !c.need("C07", "unavailable:get-entries") {
			return 0
		}
	} else if !c.ok() {
		return 0
	}
	o := w.o
	if o.broken {
		return 0
	}
	var in struct {
		Entries []struct {
			Leaf  []byte `json:"leaf_input"`
			Extra []byte `json:"extra_data"`
		} `json:"entries"`
	}
	if err := json.Unmarshal(c.a.body, &in); err != nil {
		o.violation("C07", "malformed:get-entries", "malformed get-entries answer: %v", err)
		return 0
	}
	if start >= o.size || start > end {
		o.violation("C07 C14", "impossible:get-entries", "get-entries for %d to %d was answered 200 in a tree of size %d", start, end, o.size)
		return 0
	}
	if len(in.Entries) == 0 {
		if must && c.healthy() && !c.outOfBudget() {
			o.violation("C07", "no-entries", "get-entries for %d to %d in a tree of size %d returned nothing", start, end, c.size)
		}
		return 0
	}
	last := start + uint64(len(in.Entries)) - 1
	if last > end || last >= o.size {
		o.violation("C07", "beyond:get-entries", "get-entries for %d to %d in a tree of size %d returned entries up to %d", start, end, o.size, last)
		return 0
	}
	for k, e := range in.Entries {
		w.judgeLeaf("get-entries", start+uint64(k), e.Leaf, e.Extra)
	}
	return len(in.Entries)
}

func (w *World) queryEntryAndProof(i, n uint64, must bool) {
	must = w.known(n, must)
	c := w.mon("get-entry-and-proof", url.Values{"leaf_index": {u64(i)}, "tree_size": {u64(n)}})
	if must {
		if !c.need("C06 C07", "unavailable:get-entry-and-proof") {
			return
		}
	} else if !c.ok() {
		return
	}
	o := w.o
	if o.broken {
		return
	}
	if i >= n || n > o.size {
		o.violation("C06", "impossible:get-entry-and-proof", "the monitor proved entry %d in a tree of size %d", i, n)
		return
	}
	var in struct {
		Leaf  []byte   `json:"leaf_input"`
		Extra []byte   `json:"extra_data"`
		Path  [][]byte `json:"audit_path"`
	}
	if err := json.Unmarshal(c.a.body, &in); err != nil {
		o.violation("C06 C07", "malformed:get-entry-and-proof", "malformed get-entry-and-proof answer: %v", err)
		return
	}
	if i < o.tree.base {
		return
	}
	w.judgeLeaf("get-entry-and-proof", i, in.Leaf, in.Extra)
	if !hashesEqual(in.Path, o.tree.Path(i, n)) {
		o.violation("C06", "wrong:get-entry-and-proof", "the proof of entry %d in size %d is wrong", i, n)
	}
	w.count("checked:entry-and-proof")
}

var junkQueries = []string{
	"get-entries", "get-entries?start=0", "get-entries?end=0", "get-entries?start=-1&end=0", "get-entries?start=5&end=3",
	"get-entries?start=0&end=9223372036854775807", "get-entries?start=9223372036854775807&end=9223372036854775807",
	"get-entries?start=9223372036854775806&end=9223372036854775807", "get-entries?start=4611686018427387904&end=4611686018427387905",
	"get-entries?start=SIZE&end=SIZE", "get-entries?start=SIZE&end=SIZE1", "get-entries?start=SIZE1&end=SIZE9", "get-entries?start=a&end=b",
	"get-entries?start=99999999999999999999&end=0", "get-entries?start=-9223372036854775808&end=-1", "get-entries?start=0x1&end=2",
	"get-entries?start=1000000&end=1000010", "get-entries?start=0&end=0",
	"get-sth-consistency", "get-sth-consistency?first=0", "get-sth-consistency?first=-1&second=3", "get-sth-consistency?first=3&second=1",
	"get-sth-consistency?first=0&second=0", "get-sth-consistency?first=0&second=SIZE", "get-sth-consistency?first=1&second=SIZE9",
	"get-sth-consistency?first=SIZE&second=SIZE", "get-sth-consistency?first=9223372036854775807&second=9223372036854775807",
	"get-sth-consistency?first=1&second=1", "get-sth-consistency?first=0&second=SIZE1",
	"get-proof-by-hash", "get-proof-by-hash?hash=AAAA&tree_size=1", "get-proof-by-hash?hash=!!&tree_size=1",
	"get-proof-by-hash?hash=HASH&tree_size=0", "get-proof-by-hash?hash=HASH&tree_size=-1", "get-proof-by-hash?hash=HASH&tree_size=SIZE9",
	"get-proof-by-hash?hash=HASH", "get-proof-by-hash?tree_size=1", "get-proof-by-hash?hash=HASH&tree_size=9223372036854775807",
	"get-proof-by-hash?hash=HASH&tree_size=-9223372036854775808", "get-proof-by-hash?hash=HASH&tree_size=SIZE",
	"get-entry-and-proof", "get-entry-and-proof?leaf_index=0", "get-entry-and-proof?leaf_index=0&tree_size=0",
	"get-entry-and-proof?leaf_index=-1&tree_size=1", "get-entry-and-proof?leaf_index=5&tree_size=5", "get-entry-and-proof?leaf_index=SIZE&tree_size=SIZE1",
	"get-entry-and-proof?leaf_index=9223372036854775806&tree_size=9223372036854775807", "get-entry-and-proof?leaf_index=0&tree_size=-5",
	"get-entry-and-proof?leaf_index=x&tree_size=y", "nosuch", "", "get-sth?x=%zz", "get-roots?start=0", "../../etc/passwd",
	"POST:get-sth", "PUT:get-entries?start=0&end=1", "DELETE:get-roots", "HEAD:get-sth",
}

// junk sends a request at the edge of, or beyond, what the API allows.
func (w *World) queryJunk(k int) {
	q := junkQueries[k%len(junkQueries)]
	size := w.o.sth.Size
	method := "GET"
	if i := strings.IndexByte(q, ':'); i > 0 {
		method, q = q[:i], q[i+1:]
	}
	h := sha256.Sum256([]byte("junk"))
	hash := url.QueryEscape(base64.StdEncoding.EncodeToString(h[:]))
	q = strings.NewReplacer("SIZE9", u64(size+9), "SIZE1", u64(size+1), "SIZE", u64(size), "HASH", hash).Replace(q)
	c := w.monRaw(method, "http://"+monAddr+"/ct/v1/"+q, q)
	w.count("checked:junk")
	if c.a.err != nil || !strings.HasPrefix(q, "get-entries?start=") || method != "GET" {
		return
	}
	// whatever comes back with status 200 must be right
	if c.a.status == 200 {
		v, _ := url.ParseQuery(q[len("get-entries?"):])
		s, err := strconv.ParseUint(v.Get("start"), 10, 63)
		if err != nil || s >= w.o.size {
			w.o.violation("C07 C14", "junk-answered", "%s was answered 200: %s", q, clip(string(c.a.body), 100))
		}
	}
}
