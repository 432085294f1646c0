package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"itko.dev/internal/ctmonitor"
	"itko.dev/internal/ctsetup"
	"itko.dev/internal/ctsubmit"
)

// A demonstration: a fake lock service and object store in this process, and
// the real programs as child processes (this binary again) that talk to them.

const kv = "demolog"

func fail(f string, a ...any) {
	fmt.Printf("BROKEN: "+f+"\n", a...)
	cleanup()
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fmt.Println("demo error:", err)
		cleanup()
		os.Exit(3)
	}
}

var procs []*Proc
var dir string

func cleanup() {
	for _, p := range procs {
		p.kill()
	}
	if dir != "" {
		os.RemoveAll(dir)
	}
}

// ---- object store

type S3 struct {
	mu   sync.Mutex
	objs map[string][]byte
	// hook may return a status to answer with instead; it may also block.
	hook func(op, key string, n int) int
	n    map[string]int
	srv  *httptest.Server
}

func newS3() *S3 {
	s := &S3{objs: map[string][]byte{}, n: map[string]int{}}
	s.srv = httptest.NewServer(s)
	return s
}

func (s *S3) get(key string) []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.objs[key]
}

func (s *S3) keys() (ks []string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for k := range s.objs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

func (s *S3) setHook(h func(op, key string, n int) int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.hook = h
}

func (s *S3) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	key := strings.TrimPrefix(r.URL.Path, "/bucket/")
	body, err := io.ReadAll(r.Body)
	if err != nil {
		return
	}
	op := r.Method
	s.mu.Lock()
	s.n[op+" "+key]++
	n, h := s.n[op+" "+key], s.hook
	s.mu.Unlock()
	st := 0
	if h != nil {
		st = h(op, key, n)
	}
	if st < 0 || r.Context().Err() != nil { // nothing of a client that is gone is stored
		panic(http.ErrAbortHandler)
	}
	xml := func(st int, code string) {
		b := fmt.Sprintf("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Error><Code>%s</Code><Message>demo</Message></Error>", code)
		w.Header().Set("Content-Type", "application/xml")
		w.Header().Set("Content-Length", strconv.Itoa(len(b)))
		w.WriteHeader(st)
		if op != "HEAD" {
			io.WriteString(w, b)
		}
	}
	if st != 0 {
		xml(st, "InternalError")
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	switch op {
	case "PUT":
		s.objs[key] = body
		w.WriteHeader(200)
	default:
		d, ok := s.objs[key]
		if !ok {
			xml(404, "NoSuchKey")
			return
		}
		w.Header().Set("Content-Length", strconv.Itoa(len(d)))
		w.WriteHeader(200)
		if op != "HEAD" {
			w.Write(d)
		}
	}
}

// ---- lock service

type Consul struct {
	mu    sync.Mutex
	kv    map[string]*ent
	sess  map[string]bool
	index uint64
	ch    chan struct{}
	srv   *httptest.Server
}

type ent struct {
	value   []byte
	flags   uint64
	session string
	modify  uint64
}

func newConsul() *Consul {
	c := &Consul{kv: map[string]*ent{}, sess: map[string]bool{}, index: 1, ch: make(chan struct{})}
	c.srv = httptest.NewServer(c)
	return c
}

func (c *Consul) addr() string { return strings.TrimPrefix(c.srv.URL, "http://") }

func (c *Consul) bump() {
	c.index++
	close(c.ch)
	c.ch = make(chan struct{})
}

// drop ends the sessions that hold a lock, as if their time to live were over.
func (c *Consul) drop() {
	c.mu.Lock()
	defer c.mu.Unlock()
	held := map[string]bool{}
	for _, e := range c.kv {
		held[e.session] = true
	}
	c.dropLocked(func(id string) bool { return held[id] })
}

func (c *Consul) dropLocked(which func(string) bool) {
	for id := range c.sess {
		if which(id) {
			delete(c.sess, id)
			for _, e := range c.kv {
				if e.session == id {
					e.session = ""
					c.bump()
					e.modify = c.index
				}
			}
		}
	}
}

func (c *Consul) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	q := r.URL.Query()
	path := strings.TrimPrefix(r.URL.Path, "/v1/")
	c.mu.Lock()
	defer c.mu.Unlock()
	js := func(v any) {
		w.Header().Set("Content-Type", "application/json")
		w.Header().Set("X-Consul-Index", fmt.Sprint(c.index))
		json.NewEncoder(w).Encode(v)
	}
	id := path[strings.LastIndex(path, "/")+1:]
	switch {
	case path == "session/create":
		id := fmt.Sprintf("00000000-0000-0000-0000-%012d", len(c.sess)+int(c.index)*1000)
		c.sess[id] = true
		js(map[string]string{"ID": id})
	case strings.HasPrefix(path, "session/renew/"):
		if !c.sess[id] {
			http.Error(w, "no session", 404)
			return
		}
		js([]map[string]any{{"ID": id, "TTL": "15s"}})
	case strings.HasPrefix(path, "session/destroy/"):
		c.dropLocked(func(s string) bool { return s == id })
		js(true)
	case strings.HasPrefix(path, "session/info/"):
		js([]int{})
	case r.Method == "PUT":
		key := strings.TrimPrefix(path, "kv/")
		e := c.kv[key]
		if a := q.Get("acquire"); a != "" {
			if !c.sess[a] {
				http.Error(w, "invalid session", 500)
				return
			}
			if e != nil && e.session != "" && e.session != a {
				js(false)
				return
			}
		}
		if rel := q.Get("release"); rel != "" && (e == nil || e.session != rel) {
			js(false)
			return
		}
		if q.Has("cas") {
			n, _ := strconv.ParseUint(q.Get("cas"), 10, 64)
			if (e == nil && n != 0) || (e != nil && e.modify != n) {
				js(false)
				return
			}
		}
		if e == nil {
			e = &ent{}
			c.kv[key] = e
		}
		e.value = body
		e.flags, _ = strconv.ParseUint(q.Get("flags"), 10, 64)
		if a := q.Get("acquire"); a != "" {
			e.session = a
		}
		if q.Has("release") {
			e.session = ""
		}
		c.bump()
		e.modify = c.index
		js(true)
	default:
		key := strings.TrimPrefix(path, "kv/")
		idx, _ := strconv.ParseUint(q.Get("index"), 10, 64)
		end := time.After(30 * time.Second)
		for idx > 0 && c.kv[key] != nil && c.kv[key].modify <= idx {
			ch := c.ch
			c.mu.Unlock()
			stop := false
			select {
			case <-ch:
			case <-end:
				stop = true
			case <-r.Context().Done():
				stop = true
			}
			c.mu.Lock()
			if stop {
				break
			}
		}
		e := c.kv[key]
		if e == nil {
			w.Header().Set("X-Consul-Index", fmt.Sprint(c.index))
			w.WriteHeader(404)
			return
		}
		out := map[string]any{"Key": key, "CreateIndex": 1, "ModifyIndex": e.modify, "LockIndex": 1, "Flags": e.flags,
			"Value": base64.StdEncoding.EncodeToString(e.value)}
		if e.session != "" {
			out["Session"] = e.session
		}
		w.Header().Set("X-Consul-Index", fmt.Sprint(e.modify))
		w.Header().Set("Content-Type", "application/json")
		json.NewEncoder(w).Encode([]any{out})
	}
}

// ---- processes

type Proc struct {
	cmd  *exec.Cmd
	addr string
	dead chan struct{}
	out  *bytes.Buffer
	mu   sync.Mutex
}

func (p *Proc) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.Write(b)
}

func (p *Proc) log() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

func (p *Proc) kill() {
	p.cmd.Process.Kill()
	<-p.dead
}

func (p *Proc) exited() bool {
	select {
	case <-p.dead:
		return true
	default:
		return false
	}
}

func spawn(args ...string) *Proc {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	addr := l.Addr().String()
	l.Close()
	self, err := os.Executable()
	must(err)
	p := &Proc{cmd: exec.Command(self, append(args, addr)...), addr: addr, dead: make(chan struct{}), out: &bytes.Buffer{}}
	p.cmd.Stdout, p.cmd.Stderr = p, p
	must(p.cmd.Start())
	go func() { p.cmd.Wait(); close(p.dead) }()
	procs = append(procs, p)
	return p
}

// role runs the real program this process was started as.
func role() {
	if len(os.Args) < 2 {
		return
	}
	a := os.Args[1:]
	listen := func() net.Listener {
		l, err := net.Listen("tcp", a[len(a)-1])
		must(err)
		return l
	}
	switch a[0] {
	case "submit":
		ctsubmit.MainMain(context.Background(), listen(), kv, a[1], nil)
	case "monitor":
		n, _ := strconv.Atoi(a[3])
		ctmonitor.MainMain(listen(), a[1], a[2], n, nil)
	case "setup":
		var gc ctsubmit.GlobalConfig
		must(json.Unmarshal([]byte(a[2]), &gc))
		ctsetup.MainMain(context.Background(), a[1], kv, a[3], gc.KeyPath, gc)
	}
	os.Exit(0)
}

// ---- a log

type World struct {
	s3     *S3
	consul *Consul
	pki    *PKI
	key    *LogKey
	cfg    ctsubmit.GlobalConfig
	roots  string
}

func newWorld(edit func(c *ctsubmit.GlobalConfig)) *World {
	var err error
	dir, err = os.MkdirTemp("", "demo")
	must(err)
	w := &World{s3: newS3(), consul: newConsul(), pki: NewPKI(7)}
	k := new(ecdsa.PrivateKey)
	k.Curve = elliptic.P256()
	k.D = big.NewInt(123456789)
	k.X, k.Y = k.Curve.ScalarBaseMult(k.D.Bytes())
	w.key = newLogKey(&k.PublicKey, "demo.example")
	der, err := x509.MarshalECPrivateKey(k)
	must(err)
	kp := filepath.Join(dir, "key.pem")
	must(os.WriteFile(kp, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: der}), 0600))
	w.roots = filepath.Join(dir, "roots.pem")
	must(os.WriteFile(w.roots, w.pki.RootsPEM(), 0600))
	w.cfg = ctsubmit.GlobalConfig{Name: "demo.example", KeyPath: kp, LogID: base64.StdEncoding.EncodeToString(w.key.id[:]),
		MaskSize: 5, S3Bucket: "bucket", S3Region: "r", S3EndpointUrl: w.s3.srv.URL,
		S3StaticCredentialUserName: "u", S3StaticCredentialPassword: "p",
		NotAfterStart: w.pki.start.Format(time.RFC3339), NotAfterLimit: w.pki.limit.Format(time.RFC3339), FlushMs: 100}
	if edit != nil {
		edit(&w.cfg)
	}
	return w
}

// setup runs the setup program; it reports whether it completed.
func (w *World) setup() bool {
	b, _ := json.Marshal(w.cfg)
	p := spawn("setup", w.consul.addr(), string(b), w.roots)
	<-p.dead
	return p.cmd.ProcessState.Success()
}

// start starts an instance; it does not wait until it is active.
func (w *World) start() *Proc { return spawn("submit", w.consul.addr()) }

// active waits until an instance serves; false if it exits or takes too long.
func (w *World) active(p *Proc, d time.Duration) bool {
	for end := time.Now().Add(d); time.Now().Before(end) && !p.exited(); time.Sleep(20 * time.Millisecond) {
		if strings.Contains(p.log(), "Starting CT log") {
			return true
		}
	}
	return false
}

// run starts an instance and insists that it becomes active.
func (w *World) run() *Proc {
	p := w.start()
	if !w.active(p, 30*time.Second) {
		fail("the log does not start: %s", p.log())
	}
	return p
}

// stop kills an instance and ends its session.
func (w *World) stop(p *Proc) {
	p.kill()
	w.consul.drop()
}

func (w *World) monitor(mask int) *Proc {
	d, u := "", w.s3.srv.URL+"/bucket/"
	if w.cfg.RootDirectory != "" {
		d, u = w.cfg.RootDirectory, ""
	}
	p := spawn("monitor", d, u, strconv.Itoa(mask))
	for i := 0; i < 500; i++ {
		if c, err := net.Dial("tcp", p.addr); err == nil {
			c.Close()
			return p
		}
		time.Sleep(10 * time.Millisecond)
	}
	must(fmt.Errorf("the monitor does not start: %s", p.log()))
	return nil
}

var client = &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 300}}

func (p *Proc) get(path string) (int, []byte) {
	r, err := client.Get("http://" + p.addr + path)
	if err != nil {
		return 0, []byte(err.Error())
	}
	defer r.Body.Close()
	b, _ := io.ReadAll(r.Body)
	return r.StatusCode, b
}

// post submits variant v of s; status 0 is a transport error.
func (p *Proc) post(s *Sub, v int, endpoint string) (int, []byte) {
	return p.postCtx(context.Background(), s, v, endpoint)
}

func (p *Proc) postCtx(ctx context.Context, s *Sub, v int, endpoint string) (int, []byte) {
	if endpoint == "" {
		endpoint = "add-chain"
		if s.Pre {
			endpoint = "add-pre-chain"
		}
	}
	b, _ := json.Marshal(map[string][][]byte{"chain": s.Var[v].Submit})
	req, _ := http.NewRequestWithContext(ctx, "POST", "http://"+p.addr+"/ct/v1/"+endpoint, bytes.NewReader(b))
	r, err := client.Do(req)
	if err != nil {
		return 0, []byte(err.Error())
	}
	defer r.Body.Close()
	out, _ := io.ReadAll(r.Body)
	return r.StatusCode, out
}

// submit insists on an SCT.
func (w *World) submit(p *Proc, s *Sub, v int) *SCT {
	st, b := p.post(s, v, "")
	if st != 200 {
		fail("submission of %s answered %d %s", s.Name, st, b)
	}
	return w.sct(s, v, b)
}

func (w *World) sct(s *Sub, v int, b []byte) *SCT {
	sct, err := w.key.parseSCT(b)
	if err != nil {
		fail("bad SCT for %s: %v", s.Name, err)
	}
	wt := s.Var[v].Want
	if !w.key.verifyDS(sct.Sig, merkleLeaf(wt.Pre, wt.IKH, wt.Cert, sct.Ts, sct.Index)) {
		fail("the SCT for %s does not verify", s.Name)
	}
	return sct
}

// burst submits n certificates of a kind at once, from index lo, and returns the SCTs.
func (w *World) burst(p *Proc, kind string, lo, n int) map[int]*SCT {
	subs := make([]*Sub, n)
	for i := range subs {
		subs[i] = w.pki.Get(kind, lo+i)
	}
	type res struct {
		st, i int
		b     []byte
	}
	ch := make(chan res)
	for i := range subs {
		go func() {
			st, b := p.post(subs[i], 0, "")
			ch <- res{st, i, b}
		}()
	}
	out := map[int]*SCT{}
	for range subs {
		r := <-ch
		if r.st == 200 {
			out[lo+r.i] = w.sct(subs[r.i], 0, r.b)
		}
	}
	return out
}

// head is the published signed tree head.
func (w *World) head() Head {
	h, err := w.key.parseSTH(w.read("ct/v1/get-sth"))
	if err != nil {
		fail("tree head: %v", err)
	}
	return h
}

func (w *World) read(key string) []byte {
	if w.cfg.RootDirectory != "" {
		b, _ := os.ReadFile(filepath.Join(w.cfg.RootDirectory, key))
		return b
	}
	return w.s3.get(key)
}

// entries reads the whole published log and checks it against its tree head
// and everything it must refer to.
func (w *World) entries() []*RefEntry {
	h := w.head()
	var out []*RefEntry
	tree := NewRefTree(1, 0)
	for n := uint64(0); n*256 < h.Size; n++ {
		wd := int(min(256, h.Size-n*256))
		b := w.read(tilePath(-1, n, wd))
		if b == nil {
			fail("data tile %d.%d of the published tree of %d is missing", n, wd, h.Size)
		}
		for i := 0; i < wd; i++ {
			e, rest, err := parseTileEntry(b)
			if err != nil {
				fail("data tile %d.%d does not parse at entry %d", n, wd, i)
			}
			if e.Index != n*256+uint64(i) {
				fail("data tile %d.%d has entry %d in place of %d", n, wd, e.Index, n*256+uint64(i))
			}
			b = rest
			out = append(out, e)
			tree.Append(leafHash(e.Leaf()))
			for _, fp := range e.Chain {
				if d := w.read(fmt.Sprintf("issuer/%x", fp)); sha256.Sum256(d) != fp {
					fail("issuer %x of published entry %d is not stored", fp[:4], e.Index)
				}
			}
		}
		if len(b) != 0 {
			fail("data tile %d.%d has trailing bytes", n, wd)
		}
	}
	if tree.Root(h.Size) != h.Root {
		fail("the data tiles do not hash to the published root at size %d", h.Size)
	}
	for l := uint(0); h.Size>>(8*l) > 0; l++ {
		c := h.Size >> (8 * l)
		for n := uint64(0); n*256 < c; n++ {
			wd := int(min(256, c-n*256))
			if !bytes.Equal(w.read(tilePath(int(l), n, wd)), tree.TileBytes(l, n, wd)) {
				fail("hash tile %d/%d.%d of the published tree of %d is missing or wrong", l, n, wd, h.Size)
			}
		}
	}
	return out
}

// covered checks that a promised entry is in the published log.
func (w *World) covered(s *Sub, v int, sct *SCT) {
	es := w.entries()
	wt := s.Var[v].Want
	if sct.Index >= uint64(len(es)) {
		fail("the SCT for %s promises index %d, the published tree has %d entries", s.Name, sct.Index, len(es))
	}
	e := es[sct.Index]
	if !bytes.Equal(e.Leaf(), merkleLeaf(wt.Pre, wt.IKH, wt.Cert, sct.Ts, sct.Index)) {
		fail("the entry at index %d is not the one the SCT for %s promises", sct.Index, s.Name)
	}
}

func waitFor(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

func main() {
	role()
	time.AfterFunc(280*time.Second, func() { fail("the demonstration takes too long") })
	demo()
	cleanup()
	fmt.Println("OK")
}
