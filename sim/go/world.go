package main

import (
	"fmt"
	"hash/fnv"
	"net"
	"os"
	"os/signal"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"itko.dev/internal/ctmonitor"
	"itko.dev/internal/ctsubmit"
)

const (
	consulAddr = "10.9.0.1:8500"
	s3Addr     = "10.9.0.2:9000"
	s3Bucket   = "bucket"
	kvPath     = "testlog"
	logName    = "testlog"
	clientHost = "10.9.9.9"
	monHost    = "10.9.1.1"
	monAddr    = "10.9.1.1:80"
)

// World is one simulated deployment.
type World struct {
	plan   *Plan
	rng    *Rng
	net    *Net
	s3     *S3
	consul *Consul
	fs     *SimFS
	pki    *PKI
	o      *Oracle

	start     time.Time
	nodes     map[uint32]*Node
	nextNode  uint32
	machines  []*Machine
	monitor   *Node
	setups    int
	settingUp bool // no setup has to have succeeded yet
	fsm       *fsModel
	other     *Other
	edge      *Edge
	quiet     bool // no faults for now
	logKey    detKey
	faults    []*faultState
	sticky    map[string]*Fault // node|op|key
	counts    map[string]int
	events    []string
	evHash    uint64
	healed    bool
	healedAt  time.Time
	ending    bool
	lastFlt   time.Time // when a fault last had an effect
	pauses    int
	notes     []string

	outages      int // outages in effect
	lookupFaults int // deduplication lookups that were made to fail
	monFaults    int // store operations of the monitor that were made to fail
	monActive    int
	fltUntil     time.Time // no fault has an effect after this
	teardown     bool      // a write is applied on behalf of a client that left
	frozen       bool      // machines stay down
}

type faultState struct {
	Fault
	seen, fired int
}

// Node is one process incarnation.
type Node struct {
	id      uint32
	role    string
	machine int
	host    string
	incarn  int
	started time.Time
	active  time.Time // when it began to serve
	died    time.Time
	dead    bool
	why     string
	code    int
	sig     []chan<- os.Signal
	exited  chan struct{}
	stderr  string
	resumes time.Time // last time it was stalled or resumed
	stalls  int
	// leadership as the lock service sees it
	session   string
	acquired  time.Time
	lost      time.Time
	released  time.Time
	failedAt  time.Time      // first failure that must stop it
	tries     map[string]int // failed attempts at an operation, one after the other
	givingUp  time.Time      // may have taken an operation for failed for good
	failedKey string
	failedOp  string
	failBase  uint64
	prevSize  uint64 // tree size before its last head
	curSize   uint64
	wroteHead bool
	sigintAt  time.Time
	explained string
}

type Machine struct {
	id      int
	host    string
	node    *Node
	incarn  int
	down    bool // do not restart
	skew    int64
	restart time.Duration
}

func (w *World) now() time.Duration { return time.Since(w.start) }

func (w *World) event(f string, a ...any) {
	s := fmt.Sprintf("%10.3f ", float64(w.now())/1e6) + fmt.Sprintf(f, a...)
	h := fnv.New64a()
	h.Write([]byte(s))
	w.evHash = mix64(w.evHash ^ h.Sum64())
	w.events = append(w.events, s)
	line := []byte(s + "\n") // also without -trace: allocations are part of the schedule
	rawWrite(traceFd, line)  // or to no descriptor at all, the same way
}

func (w *World) count(name string) { w.counts[name]++ }

func (w *World) fault(kind string) {
	w.counts["fault:"+kind]++
	w.lastFlt = time.Now()
	w.until(0)
}

// until notes that a fault may have effects for the next d.
func (w *World) until(d time.Duration) {
	if t := time.Now().Add(d); t.After(w.fltUntil) {
		w.fltUntil = t
	}
}

// asInfra runs f as part of the simulator, which is never preempted.
func asInfra(f func()) {
	n := runtime.VerifNode()
	if n != 0 {
		runtime.VerifSetNode(0)
	}
	f()
	if n != 0 {
		runtime.VerifSetNode(n)
	}
}

// get reads an object as any reader of the store would.
func (w *World) get(key string) ([]byte, bool) {
	if w.plan.Cfg.FS {
		return w.fs.Peek(w.fs.dataDir + "/" + key)
	}
	d, ok := w.s3.objs[key]
	return d, ok
}

func stickyKey(node uint32, op, key string) string { return fmt.Sprintf("%d|%s|%s", node, op, key) }

// objectKey tells the keys of published objects from temporary files.
func objectKey(key string) bool {
	switch key {
	case "ct/v1/get-sth", "ct/v1/get-roots", "checkpoint":
		return true
	}
	isHex := func(s string) bool {
		for _, c := range s {
			if !strings.ContainsRune("0123456789abcdef", c) {
				return false
			}
		}
		return s != ""
	}
	if _, _, _, ok := parseTilePath(key); ok {
		return true
	}
	if rest, ok := strings.CutPrefix(key, "issuer/"); ok {
		return len(rest) == 64 && isHex(rest)
	}
	for _, p := range []string{"int/hashes/", "int/dedupe/"} {
		if rest, ok := strings.CutPrefix(key, p); ok {
			return isHex(strings.ReplaceAll(rest, "/", ""))
		}
	}
	return false
}

// powerLoss takes the whole machine room down at once.
func (w *World) powerLoss() {
	asInfra(func() {
		w.fault("power-loss")
		w.event("power loss")
		for _, m := range w.machines {
			if m.node != nil && !m.node.dead {
				m.node.explained = "crash"
				w.kill(m.node, "power loss", -1)
			}
		}
		for _, id := range w.nodeIDs() {
			n := w.nodes[id]
			if n.dead || n.role != "setup" && n.role != "store" {
				continue
			}
			n.explained = "crash"
			w.kill(n, "power loss", -1)
		}
		w.fs.PowerLoss()
		if w.fsm != nil {
			w.fsm.onPowerLoss()
		} else if w.o != nil {
			w.o.onPowerLoss()
		}
	})
}

func (w *World) monDown() bool {
	if w.plan.Cfg.FS {
		return false
	}
	p := pair(monHost, hostOf(s3Addr))
	return w.s3.down || w.net.blocked[p] || w.net.refused[p]
}

func (w *World) newNode(role, host string, machine, incarn int) *Node {
	w.nextNode++
	n := &Node{id: w.nextNode, role: role, host: host, machine: machine, incarn: incarn,
		started: time.Now(), exited: make(chan struct{})}
	w.nodes[n.id] = n
	return n
}

func (w *World) name(node uint32) string {
	n := w.nodes[node]
	if n == nil {
		return "client"
	}
	if n.role == "submit" {
		return fmt.Sprintf("submit%d.%d", n.machine, n.incarn)
	}
	return n.role
}

func (w *World) roleOf(node uint32) string {
	if n := w.nodes[node]; n != nil {
		return n.role
	}
	return "client"
}

func (w *World) hostOfNode(node uint32) string {
	if n := w.nodes[node]; n != nil {
		return n.host
	}
	return clientHost
}

func (w *World) nodeDead(node uint32) bool {
	n := w.nodes[node]
	return n != nil && n.dead
}

// ---- process control

func (w *World) kill(n *Node, why string, code int) {
	if n == nil || n.dead {
		return
	}
	asInfra(func() { w.doKill(n, why, code) })
}

func (w *World) doKill(n *Node, why string, code int) {
	n.dead = true
	n.died = time.Now()
	n.why, n.code = why, code
	w.event("%s stops: %s", w.name(n.id), why)
	runtime.VerifKill(n.id)
	w.net.KillNode(n.id)
	if w.fs != nil {
		w.fs.KillNode(n.id)
	}
	close(n.exited)
	w.o.onExit(n)
}

// crash is a kill -9 decided by the fault plan.
func (w *World) crash(node uint32, why string) {
	n := w.nodes[node]
	if n == nil || n.dead || n.role == "monitor" {
		return
	}
	w.fault("crash")
	n.explained = "crash"
	w.kill(n, "crashed ("+why+")", -1)
}

func (w *World) crashAll(why string) {
	for _, m := range w.machines {
		if m.node != nil {
			w.crash(m.node.id, why)
		}
	}
}

func (w *World) pause(node uint32, d time.Duration) {
	n := w.nodes[node]
	if n == nil || n.dead || runtime.VerifState(node) != 0 {
		return
	}
	w.fault("pause")
	w.event("%s paused for %v", w.name(node), d)
	runtime.VerifStall(node)
	n.resumes = time.Now().Add(d)
	n.stalls++
	w.until(d)
	goInfra(func() {
		time.Sleep(d)
		if !n.dead && runtime.VerifState(node) == 1 {
			w.event("%s resumes", w.name(node))
			n.resumes = time.Now()
			runtime.VerifResume(node)
		}
	})
}

func (w *World) sigint(node uint32) {
	n := w.nodes[node]
	if n == nil || n.dead {
		return
	}
	w.fault("sigint")
	w.event("%s gets SIGINT", w.name(node))
	if n.sigintAt.IsZero() {
		n.sigintAt = time.Now()
	}
	n.explained = "sigint"
	if len(n.sig) == 0 {
		w.kill(n, "killed by SIGINT", 130)
		return
	}
	for _, c := range n.sig {
		select {
		case c <- os.Interrupt:
		default:
		}
	}
}

func (w *World) stepClock(node uint32, d time.Duration) {
	n := w.nodes[node]
	if n == nil {
		return
	}
	w.fault("clock-step")
	w.event("%s clock steps by %v", w.name(node), d)
	sk := runtime.VerifGetSkew(node) + int64(d)
	runtime.VerifSkew(node, sk)
	if n.machine < len(w.machines) && n.role == "submit" {
		w.machines[n.machine].skew = sk
	}
}

func onExit(code int) {
	node := runtime.VerifNode()
	if node == 0 {
		return // the simulator itself
	}
	w := theWorld
	n := w.nodes[node]
	if n.dead {
		runtime.VerifParkForever()
	}
	last := strings.TrimSpace(n.stderr)
	if i := strings.LastIndexByte(last, '\n'); i >= 0 {
		last = last[i+1:]
	}
	asInfra(func() { w.kill(n, fmt.Sprintf("exit(%d): %s", code, clip(last, 300)), code) })
	runtime.VerifParkForever()
}

func onPanic(node uint32, v any) {
	w := theWorld
	n := w.nodes[node]
	if n != nil && n.dead {
		runtime.VerifParkForever()
	}
	var buf [8192]byte
	k := runtime.Stack(buf[:], false)
	msg := fmt.Sprint(v)
	if e, ok := v.(error); ok {
		msg = e.Error()
	}
	asInfra(func() {
		w.o.onPanic(n, msg, panicSite(string(buf[:k])))
		n.explained = "panic"
		w.kill(n, "panic: "+clip(msg, 200), 2)
	})
	runtime.VerifParkForever()
}

// panicSite finds the function of the log's own code a panic came from.
func panicSite(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "itko.dev/") && !strings.HasPrefix(l, "itko.dev/verifsim") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

func onStdio(fd int, p []byte) int {
	node := runtime.VerifNode()
	if node == 0 || theWorld == nil {
		return rawWrite(fd, p)
	}
	w := theWorld
	n := w.nodes[node]
	if n == nil || n.dead {
		return len(p)
	}
	asInfra(func() { w.stdio(n, string(p)) })
	return len(p)
}

func (w *World) stdio(n *Node, s string) {
	if len(n.stderr) > 4096 {
		n.stderr = n.stderr[len(n.stderr)-2048:]
	}
	n.stderr += s
	line := []byte(fmt.Sprintf("[%s] %s", w.name(n.id), s))
	rawWrite(verboseFd, line)
	if strings.Contains(s, "http: panic serving") {
		site := panicSite(s)
		msg := s
		if i := strings.Index(s, "panic serving "); i >= 0 {
			msg = s[i+14:]
			if j := strings.IndexByte(msg, '\n'); j > 0 {
				msg = msg[:j]
			}
			if j := strings.Index(msg, ": "); j > 0 {
				msg = msg[j+2:]
			}
		}
		w.o.onHandlerPanic(n, msg, site)
	}
}

func onNotify(c chan<- os.Signal, sig ...os.Signal) {
	n := theWorld.nodes[runtime.VerifNode()]
	if n == nil || n.dead {
		return
	}
	for _, s := range sig {
		if s == os.Interrupt {
			n.sig = append(n.sig, c)
			return
		}
	}
	if len(sig) == 0 {
		n.sig = append(n.sig, c)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func rawWrite(fd int, p []byte) int {
	n, _, e := syscall.RawSyscall(syscall.SYS_WRITE, uintptr(fd), uintptr(ptr(p)), uintptr(len(p)))
	if e != 0 {
		return len(p)
	}
	return int(n)
}

func rawStderr(s string) { rawWrite(2, []byte(s)) }

// ---- faults

// matchOp consults the fault plan about an operation that is about to happen.
func (w *World) matchOp(op, class, key string, node uint32) *Fault {
	n := w.nodes[node]
	role := "client"
	if n != nil {
		role = n.role
	}
	w.counts["op:"+role+":"+op+":"+class]++
	if w.healed || w.quiet {
		return nil
	}
	f := w.sticky[stickyKey(node, op, key)]
	if f != nil && f.Act == "trunc" && !w.nonEmpty(key) {
		return nil
	}
	if f != nil {
		w.noteFault(role, class, f)
		w.fault(op + ":" + class + ":" + f.Act + "(sticky)")
		w.o.onFault(n, op, class, key, f, true)
		return f
	}
	nowMs := int(w.now() / time.Millisecond)
	for _, f := range w.faults {
		r := f.Role
		if r == "" {
			r = "submit"
		}
		if r != role && r != "any" {
			continue
		}
		if !opMatches(f.On, op, class) || nowMs < f.From {
			continue
		}
		if f.Act == "trunc" && !w.nonEmpty(key) {
			continue // there is nothing to cut short
		}
		if f.Act == "short" && op != "fs-write" && op != "fs-read" {
			continue
		}
		f.seen++
		if f.seen < f.Nth {
			continue
		}
		c := f.Count
		if c == 0 {
			c = 1
		}
		if f.fired >= c {
			continue
		}
		f.fired++
		w.fault(op + ":" + class + ":" + f.Act)
		w.event("fault %s on %s %s by %s", f.Act, op, key, w.name(node))
		if f.Sticky {
			w.sticky[stickyKey(node, op, key)] = &f.Fault
		}
		w.noteFault(role, class, &f.Fault)
		w.o.onFault(n, op, class, key, &f.Fault, f.Sticky)
		return &f.Fault
	}
	return nil
}

// nonEmpty reports whether the store has something to return for key.
func (w *World) nonEmpty(key string) bool {
	b, ok := w.get(key)
	return ok && len(b) > 0
}

func (w *World) noteFault(role, class string, f *Fault) {
	w.until(time.Duration(f.Dur) * time.Millisecond)
	switch {
	case role == "monitor":
		w.monFaults++
	case class == "dedupe":
		w.lookupFaults++
	}
}

func opMatches(pat, op, class string) bool {
	i := strings.IndexByte(pat, ':')
	if i < 0 {
		return pat == op
	}
	o, c := pat[:i], pat[i+1:]
	return (o == "*" || o == op) && (c == "*" || c == class)
}

// heal ends all faults; what follows is judged for recovery.
func (w *World) heal() {
	w.healed = true
	w.healedAt = time.Now()
	w.s3.down = false
	w.consul.heal()
	w.net.HealAll()
	if w.fs != nil {
		w.fs.heal()
	}
	for _, id := range w.nodeIDs() {
		if runtime.VerifState(id) == 1 {
			runtime.VerifResume(id)
		}
	}
	for _, m := range w.machines {
		m.down = false
	}
	w.event("healed")
}

func (w *World) nodeIDs() []uint32 {
	ids := make([]uint32, 0, len(w.nodes))
	for id := range w.nodes {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

// ---- the processes

func (w *World) startMachine(m *Machine) {
	go func() {
		for !w.ending {
			if m.down || w.frozen {
				time.Sleep(100 * time.Millisecond)
				continue
			}
			m.incarn++
			n := w.newNode("submit", m.host, m.id, m.incarn)
			m.node = n
			w.event("%s starts", w.name(n.id))
			w.count("starts")
			runtime.VerifSkew(n.id, m.skew)
			l := w.net.Listen(m.host+":80", n.id)
			sig := make(chan struct{}, 1)
			go w.runSubmit(n, l, sig)
			select {
			case <-sig:
				if !n.dead {
					n.active = time.Now()
					w.event("%s active", w.name(n.id))
					w.o.onActive(n)
				}
				<-n.exited
			case <-n.exited:
			}
			time.Sleep(m.restart)
		}
	}()
}

func (w *World) runSubmit(n *Node, l net.Listener, sig chan struct{}) {
	runtime.VerifSetNode(n.id)
	ctsubmit.MainMain(bg, l, kvPath, consulAddr, sig)
	os.Exit(0)
}

func (w *World) startMonitor(dir string) {
	n := w.newNode("monitor", monHost, -1, 1)
	w.monitor = n
	l := w.net.Listen(monAddr, n.id)
	sig := make(chan struct{}, 1)
	url := ""
	if dir == "" {
		url = "http://" + s3Addr + "/" + s3Bucket + "/"
	}
	go func() {
		runtime.VerifSetNode(n.id)
		ctmonitor.MainMain(l, dir, url, w.plan.Cfg.Mask, sig)
		os.Exit(0)
	}()
	<-sig
}

// leader returns the submit node that serves, if any.
func (w *World) leader() *Node {
	for _, m := range w.machines {
		if n := m.node; n != nil && !n.dead && !n.active.IsZero() {
			return n
		}
	}
	return nil
}

var (
	theWorld  *World
	traceFd   = -1
	verboseFd = -1
)

func install() {
	os.VerifOnExit = onExit
	runtime.VerifOnPanic = onPanic
	runtime.VerifOnFatal = func(node uint32, msg string) { onPanic(node, "fatal error: "+msg) }
	syscall.VerifStdio = onStdio
	signal.VerifNotify = onNotify
}
