package main

import (
	"crypto/sha256"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"
)

const recoveryBound = 120 * time.Second

// plannedSubmissions counts the submissions of the plan.
func (w *World) plannedSubmissions() int {
	total := 0
	if w.plan.Cfg.Align > 0 {
		total = 256
	}
	for i := range w.plan.Steps {
		switch s := &w.plan.Steps[i]; s.Op {
		case "burst", "trickle":
			total += s.B
		case "submit", "resubmit", "malformed":
			total++
		}
	}
	return total
}

func (w *World) ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// runLog is a whole deployment: setup, submission machines, monitor, clients.
func (w *World) runLog() {
	c := &w.plan.Cfg
	o := w.o
	if c.InitSize > 0 {
		w.installLog(c.InitSize)
	}
	if c.Kind == "setup" {
		if !w.setupPhase() {
			return
		}
	} else if c.InitSize == 0 {
		n := w.startSetup()
		select {
		case <-n.exited:
		case <-time.After(5 * time.Minute):
		}
		if !n.dead || n.code != 0 {
			o.violation("C16", "setup-fails", "setup of a new log did not finish: %s", n.why)
			return
		}
	}
	if b, ok := w.get("ct/v1/get-roots"); ok {
		o.rootsRaw = b
	}
	dir := ""
	if c.FS {
		dir = w.fs.dataDir
	}
	if c.Kind == "edge" {
		w.startEdge()
	} else {
		w.startMonitor(dir)
	}
	time.Sleep(time.Second)
	baseline := runtime.VerifAlive(w.monitor.id)
	if c.Kind == "setup" && o.sth.Size == 0 { // an empty log is served, too
		w.querySTH()
		w.queryRoots()
		w.queryAbsent(w.randomHash(1), 0, "random")
		for i := 0; i < 4; i++ {
			w.queryJunk(i)
		}
	}
	w.startMachines()
	go w.watch()

	// workload
	t0 := time.Now()
	steps := append([]Step(nil), w.plan.Steps...)
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].At < steps[j].At })
	pending := 0
	for i := range steps {
		s := &steps[i]
		if s.At > c.RunMs {
			break
		}
		if strings.HasPrefix(s.Op, "pre-") {
			continue
		}
		time.Sleep(time.Until(t0.Add(w.ms(s.At))))
		rng := w.rng.Fork(fmt.Sprint("step", i))
		pending++
		go func() {
			w.step(s, rng)
			pending--
		}()
	}
	time.Sleep(time.Until(t0.Add(w.ms(c.RunMs))))
	w.heal()
	w.recover()
	for i := 0; pending > 0 && i < 300; i++ {
		time.Sleep(time.Second)
	}
	if pending > 0 {
		w.notes = append(w.notes, fmt.Sprintf("%d steps never finished", pending))
	}
	if c.Align > 0 {
		w.align()
		if c.Align > 1 && !o.broken { // on from a tree of full tiles only
			w.crashAll("aligned")
			time.Sleep(time.Second)
			w.recover()
		}
	}
	w.quiesce()
	o.auditStore()
	if w.setups > 0 && !o.broken {
		w.checkSetupConfig()
	}
	end := func() {
		w.ending = true
		w.frozen = true
		for _, m := range w.machines {
			if m.node != nil {
				w.kill(m.node, "end of run", -1)
			}
		}
	}
	if c.Kind == "edge" { // until whatever is cached has expired
		end()
		time.Sleep(w.staleFor() + 10*time.Minute)
	}
	w.auditMonitor()
	end()
	w.idle(baseline)
}

func (w *World) startMachines() {
	if len(w.machines) > 0 {
		return
	}
	c := &w.plan.Cfg
	for i := 0; i < c.Machines; i++ {
		m := &Machine{id: i, host: fmt.Sprintf("10.0.0.%d", i+1), restart: w.ms(c.RestartMs)}
		if i < len(c.SkewMs) {
			m.skew = c.SkewMs[i] * 1e6
		}
		w.machines = append(w.machines, m)
		w.startMachine(m)
	}
}

// idle demands that a monitor without requests holds on to nothing.
func (w *World) idle(baseline int) {
	for i := 0; w.monActive > 0 && i < 300; i++ {
		time.Sleep(time.Second)
	}
	time.Sleep(w.ms(w.plan.Cfg.IdleMs))
	n := w.monitor
	if n.dead {
		w.o.violation("C14", "monitor-exit", "the monitor ended: %s", n.why)
		return
	}
	if k := w.net.OpenConns(n.id, s3Addr); k > 0 {
		w.o.violation("C14", "leaked-connections", "an idle monitor keeps %d connections to the store open", k)
	}
	if k := runtime.VerifAlive(n.id); k > baseline {
		w.o.violation("C14", "leaked-goroutines", "an idle monitor keeps %d goroutines running, %d more than before the first request", k, k-baseline)
	}
}

// watch samples liveness once a second.
func (w *World) watch() {
	// a full batch is 255 entries, each of which takes a few store operations,
	// in the worst case one after the other; three batches may be in the pipeline
	bound := 5*w.ms(w.plan.Cfg.FlushMs) + 6*w.opTime() + 3*time.Second
	total := w.plannedSubmissions()
	if total > 20 {
		bound += time.Duration(3*min(255, total)) * w.opTime()
	}
	noLeader := time.Time{}
	for !w.ending {
		time.Sleep(time.Second)
		if w.ending || w.o.broken {
			return
		}
		now := time.Now()
		n := w.leader()
		if n == nil {
			if noLeader.IsZero() {
				noLeader = now
			}
			from := noLeader
			if w.fltUntil.After(from) {
				from = w.fltUntil
			}
			down := true
			for _, m := range w.machines {
				down = down && m.down
			}
			if !down && len(w.machines) > 0 && now.Sub(from) > recoveryBound {
				w.o.violation("C08 C09", "no-leader", "no instance became active within %v although no fault was in effect", recoveryBound)
				return
			}
			continue
		}
		noLeader = time.Time{}
		if !n.lost.IsZero() || !n.released.IsZero() || !n.sigintAt.IsZero() || !n.failedAt.IsZero() {
			continue
		}
		if !n.givingUp.IsZero() && now.Sub(n.givingUp) < 60*time.Second {
			continue
		}
		from := n.active
		for _, t := range []time.Time{w.fltUntil, w.o.sthAt, n.resumes} {
			if t.After(from) {
				from = t
			}
		}
		if now.Sub(from) > bound {
			w.o.violation("C11 C08", "stale-head", "%s is active and nothing is wrong, but it has published no tree head for %v (flush interval %d ms)", w.name(n.id), now.Sub(from), w.plan.Cfg.FlushMs)
			return
		}
	}
}

// opTime bounds the time of one fault-free store operation.
func (w *World) opTime() time.Duration {
	c := &w.plan.Cfg
	us := c.S3Us + c.S3JitUs + 2*c.NetUs + 14*c.NetJitUs + c.FsUs
	return 4 * time.Duration(us) * time.Microsecond // connection set-up included
}

// recover demands that the log accepts new submissions again.
func (w *World) recover() {
	start := time.Now()
	// a backlog may have to be worked off first, with a few store operations per entry
	bound := recoveryBound + time.Duration(3*w.plannedSubmissions())*w.opTime()
	r := w.rng.Fork("recover")
	w.count("recoveries")
	for k := 0; ; k++ {
		s := w.pki.Get(r.Pick("leaf", "pre", "prepre", "leaf2"), 900000+k)
		sct, _ := w.submit(s, 0, submitOpts{machine: -1, timeout: 20 * time.Second})
		if sct != nil || w.o.broken {
			break
		}
		if time.Since(start) > bound {
			if !w.o.broken {
				props := "C08"
				if w.leader() != nil { // it is not down, it just serves nobody
					props = "C08 C13"
				}
				w.o.violation(props, "no-recovery", "two minutes after the last fault the log still accepts no submission: %s", w.whyDown())
			}
			break
		}
		time.Sleep(2 * time.Second)
	}
	w.counts["recovery-ms"] += int(time.Since(start) / time.Millisecond)
}

func (w *World) whyDown() string {
	s := ""
	for _, m := range w.machines {
		if m.node != nil {
			s += fmt.Sprintf("%s: %s; ", w.name(m.node.id), m.node.why)
		}
	}
	return s
}

// align fills up the last tile.
func (w *World) align() {
	o := w.o
	for try := 0; try < 4 && !o.broken; try++ {
		time.Sleep(3*w.ms(w.plan.Cfg.FlushMs) + w.opTime())
		n := int(-o.sth.Size & 255)
		if n == 0 {
			w.count("aligned")
			return
		}
		open := n
		for i := 0; i < n; i++ {
			s := w.pki.Get("leaf", 800000+1000*try+i)
			goInfra(func() {
				w.submit(s, 0, submitOpts{machine: -1, timeout: 20 * time.Second})
				open--
			})
		}
		for i := 0; i < 60 && open > 0; i++ {
			time.Sleep(time.Second)
		}
	}
}

// quiesce repeats answered submissions and waits until the writer is idle.
func (w *World) quiesce() {
	o := w.o
	r := w.rng.Fork("quiesce")
	var ans []*wantState
	for _, st := range o.wantList {
		if len(st.answers) > 0 {
			ans = append(ans, st)
		}
	}
	n := min(len(ans), w.plan.Cfg.AuditMax)
	for k := 0; k < n && !o.broken && w.leader() != nil; k++ {
		i := k
		if n < len(ans) {
			i = r.Intn(len(ans))
		}
		w.resubmit(ans[i])
	}
	if o.broken || w.leader() == nil {
		return
	}
	// let the last batch come to its end
	for i := 0; i < 20; i++ {
		at := o.sthAt
		time.Sleep(3*w.ms(w.plan.Cfg.FlushMs) + w.opTime())
		if o.sthAt != at || o.broken {
			break
		}
	}
	for i := 0; i < 40 && o.cp.Size != o.sth.Size; i++ {
		time.Sleep(w.opTime() + 50*time.Millisecond)
	}
}

func (w *World) resubmit(st *wantState) {
	for vi := range st.sub.Var {
		if st.sub.Var[vi].Want == st.want {
			w.count("resubmissions")
			w.submit(st.sub, vi, submitOpts{machine: -1})
			return
		}
	}
}

// auditMonitor asks the monitor about everything, with nothing wrong any more.
func (w *World) auditMonitor() {
	o := w.o
	if o.broken || !o.hasSth {
		return
	}
	r := w.rng.Fork("audit")
	mx := w.plan.Cfg.AuditMax
	w.querySTH()
	w.queryRoots()
	size := o.sth.Size
	lo := o.tree.base
	// all entries, as a downloader would
	for at := lo; at < size && !o.broken; {
		k := w.queryEntries(at, size-1+uint64(r.Intn(3)), true)
		for i := 0; k == 0 && i < 8 && w.edge != nil && w.plan.Cfg.Backend != "zero" && !w.edge.local && !o.broken; i++ {
			if k = w.queryEntries(at, size-1, true); k == 0 && i == 7 {
				o.violation("C18", "edge:no-progress", "the edge never serves entry %d", at)
			}
		}
		if k == 0 {
			break
		}
		at += uint64(k)
	}
	pick := func() uint64 { return lo + uint64(r.Intn(int(size-lo))) }
	if size > lo {
		for _, back := range []uint64{1, 2, 256, 257, 300, 513} { // ranges that end around the end
			if size-lo >= back {
				w.queryEntries(size-back, max(size-back, size+uint64(r.Intn(4))-min(size, 2)), true)
				w.queryEntries(size-back, size, true)
			}
		}
		for k := 0; k < mx/4+2; k++ {
			a := pick()
			w.queryEntries(a, min(size-1, a+uint64(r.Intn(600))), true)
		}
		for k := 0; k < mx; k++ {
			i := pick()
			if size-lo <= uint64(mx) {
				if k >= int(size-lo) {
					break
				}
				i = lo + uint64(k)
			}
			w.queryByHash(i, w.sizeAbove(r, i), true)
			if k%2 == 0 {
				w.queryEntryAndProof(i, w.sizeAbove(r, i), true)
			}
		}
	}
	for k := 0; k < mx && len(o.pub) > 0; k++ {
		a, b := o.pub[r.Intn(len(o.pub))], o.pub[r.Intn(len(o.pub))]
		if k < 2 {
			b = size
		}
		if a > b {
			a, b = b, a
		}
		w.queryConsistency(a, b, true)
	}
	gs := 0
	for _, h := range o.ghosts {
		if len(o.byLeaf[h]) == 0 {
			w.queryAbsent(h, size, "lost")
			if gs++; gs >= mx/2+4 {
				break
			}
		}
	}
	for k := 0; k < 6 && size > lo; k++ {
		w.absentLike(pick(), size, k)
	}
	for k := 0; k < 8; k++ {
		w.queryJunk(r.Intn(1 << 20))
	}
	w.querySTH()
}

// absentLike looks for a hash that resembles that of entry i.
func (w *World) absentLike(i, n uint64, k int) {
	e := w.o.entry(i)
	if e == nil {
		return
	}
	h := leafHash(e.Leaf())
	switch k % 3 {
	case 0:
		h[16+k%16] ^= 0x40 // same 16 bytes
		w.queryAbsent(h, n, "same-prefix")
	case 1:
		h[15] ^= 1 // same index file
		w.queryAbsent(h, n, "same-file")
	case 2:
		h[0] ^= 0x80
		w.queryAbsent(h, n, "other-file")
	}
}

// sizeAbove picks a published size that covers entry i.
func (w *World) sizeAbove(r *Rng, i uint64) uint64 {
	p := w.o.pub
	k := sort.Search(len(p), func(k int) bool { return p[k] > i })
	if k >= len(p) {
		return w.o.sth.Size
	}
	if r.Chance(1, 3) {
		return p[k]
	}
	return p[k+r.Intn(len(p)-k)]
}

func (w *World) randomHash(a int) Hash {
	return sha256.Sum256([]byte(fmt.Sprint("nothing", a)))
}

// ---- steps

func (w *World) pickNode(a int) *Node {
	if len(w.machines) == 0 {
		return nil
	}
	if a < 0 {
		if n := w.leader(); n != nil {
			return n
		}
		a = -a
	}
	return w.machines[a%len(w.machines)].node
}

func (w *World) pickHost(a int) string {
	if a < 0 {
		if n := w.leader(); n != nil {
			return n.host
		}
		a = -a
	}
	return w.machines[a%len(w.machines)].host
}

func (w *World) step(s *Step, r *Rng) {
	if w.healed {
		return
	}
	o := w.o
	dur := w.ms(s.Dur)
	w.count("step:" + s.Op)
	size := o.sth.Size
	lo := o.tree.base
	sel := func(a int) uint64 { return lo + uint64(a)%(max(size, lo+1)-lo) }
	pub := func(a int) uint64 {
		if len(o.pub) == 0 {
			return 0
		}
		return o.pub[a%len(o.pub)]
	}
	switch s.Op {
	case "submit":
		sub := w.pki.Get(s.S, s.A)
		opt := submitOpts{machine: -1, wrongEndpoint: s.C&1 != 0}
		if s.C&2 != 0 {
			opt.machine = r.Intn(len(w.machines))
		}
		if s.C&4 != 0 {
			opt.disconnect = dur
		}
		w.submit(sub, s.B, opt)
	case "burst":
		for i := 0; i < s.B; i++ {
			i := i
			wait := w.ms(r.Intn(s.C + 1))
			go func() {
				time.Sleep(wait)
				kind := s.S
				if kind == "mix" {
					kind = goodKinds[(s.A+i)%6]
				}
				w.submit(w.pki.Get(kind, s.A+i), 0, submitOpts{machine: -1})
			}()
		}
		time.Sleep(w.ms(s.C) + 45*time.Second)
	case "trickle":
		for i := 0; i < s.B && !w.healed; i++ {
			i := i
			go func() {
				kind := s.S
				if kind == "mix" {
					kind = goodKinds[(s.A+i)%6]
				}
				w.submit(w.pki.Get(kind, s.A+i), 0, submitOpts{machine: -1})
			}()
			time.Sleep(w.ms(s.C))
		}
		time.Sleep(45 * time.Second)
	case "resubmit":
		var ans []*wantState
		for _, st := range o.wantList {
			if len(st.answers) > 0 {
				ans = append(ans, st)
			}
		}
		if len(ans) > 0 {
			w.resubmit(ans[s.A%len(ans)])
		}
	case "malformed":
		w.submitMalformed(s.S, s.C&1 != 0, -1)
	case "sth":
		w.querySTH()
	case "roots":
		w.queryRoots()
	case "cons":
		a, b := pub(s.A), pub(s.B)
		if a > b {
			a, b = b, a
		}
		if s.C&1 != 0 { // sizes that were never published
			if size > 0 {
				a, b = uint64(s.A)%(size+1), uint64(s.B)%(size+2)
			}
			w.queryConsistency(a, b, false)
		} else if len(o.pub) > 0 {
			w.queryConsistency(a, b, true)
		}
	case "hash":
		if size > lo {
			i := sel(s.A)
			if s.C&1 != 0 {
				w.queryByHash(i, uint64(s.B)%(size+2), false)
			} else {
				w.queryByHash(i, w.sizeAbove(r, i), true)
			}
		}
	case "absent":
		w.queryAbsent(w.randomHash(s.A), size, "random")
	case "lost":
		if len(o.ghosts) > 0 {
			h := o.ghosts[s.A%len(o.ghosts)]
			if len(o.byLeaf[h]) == 0 {
				w.queryAbsent(h, size, "lost")
			}
		}
	case "prefix":
		if size > lo {
			w.absentLike(sel(s.A), size, s.B)
		}
	case "entries":
		if size > lo {
			a := sel(s.A)
			w.queryEntries(a, a+uint64(s.B), true)
		}
	case "eap":
		if size > lo {
			i := sel(s.A)
			if s.C&1 != 0 {
				w.queryEntryAndProof(uint64(s.A)%(size+2), uint64(s.B)%(size+2), false)
			} else {
				w.queryEntryAndProof(i, w.sizeAbove(r, i), true)
			}
		}
	case "other":
		w.queryOther(s.A, s.B)
	case "junk":
		w.queryJunk(s.A)
	case "prune":
		w.prune()
	case "setup":
		n := w.startSetup()
		select {
		case <-n.exited:
		case <-time.After(2 * time.Minute):
		}
	default:
		w.faultStep(s, dur)
	}
}

// prune removes partial tiles that a published full tile makes superfluous, as
// the operator of a log may.
func (w *World) prune() {
	o := w.o
	if o.broken || w.plan.Cfg.Backend == "local" { // which does not know a missing object
		return
	}
	size := o.sth.Size
	var keys []string
	if w.plan.Cfg.FS {
		keys = w.fs.List(w.fs.dataDir)
		if len(o.pub) < 2 {
			return
		}
		size = o.pub[len(o.pub)-2] // the latest may not be durable yet
	} else {
		keys = w.s3.Keys()
	}
	n := 0
	for _, k := range keys {
		L, N, W, ok := parseTilePath(k)
		if !ok || W >= 256 || N*256+256 > size>>(8*uint(max(0, L))) {
			continue
		}
		n++
		if w.plan.Cfg.FS {
			w.fs.Remove(w.fs.dataDir + "/" + k)
		} else {
			delete(w.s3.objs, k)
		}
	}
	w.event("prune: %d partial tiles", n)
	w.counts["pruned-tiles"] += n
}

// faultStep is an event of the environment; it is over after dur.
func (w *World) faultStep(s *Step, dur time.Duration) {
	if len(w.machines) == 0 {
		return
	}
	s3h, ch := hostOf(s3Addr), hostOf(consulAddr)
	outage := func(kind string, begin, end func()) {
		w.fault(kind)
		w.until(dur)
		w.event("%s for %v", kind, dur)
		w.outages++
		begin()
		time.Sleep(dur)
		w.outages--
		if !w.healed {
			w.event("%s ends", kind)
			end()
		}
		w.fault(kind + "-end")
	}
	if s.B > 0 && (s.Op == "cut-consul" || s.Op == "consul-down") {
		w.consul.patience = w.ms(s.B)
	}
	switch s.Op {
	case "crash":
		if n := w.pickNode(s.A); n != nil {
			w.crash(n.id, "step")
		}
	case "crash-all":
		w.crashAll("step")
	case "power":
		w.powerLoss()
	case "pause":
		if n := w.pickNode(s.A); n != nil {
			w.pause(n.id, dur)
		}
	case "sigint":
		if n := w.pickNode(s.A); n != nil {
			w.sigint(n.id)
		}
	case "down":
		m := w.target(-1)
		if s.A >= 0 {
			m = w.machines[s.A%len(w.machines)]
		}
		outage("machine-down", func() {
			m.down = true
			if m.node != nil {
				w.crash(m.node.id, "down")
			}
		}, func() { m.down = false })
	case "cut-s3":
		h := w.pickHost(s.A)
		outage("cut-s3", func() { w.net.Cut(h, s3h) }, func() { w.net.Uncut(h, s3h) })
	case "block-s3":
		h := w.pickHost(s.A)
		outage("block-s3", func() { w.net.Block(h, s3h) }, func() { w.net.Unblock(h, s3h) })
	case "slow-s3":
		h := w.pickHost(s.A)
		outage("slow-s3", func() { w.net.slow[pair(h, s3h)] = w.ms(s.B) }, func() { delete(w.net.slow, pair(h, s3h)) })
	case "s3-down":
		w.monFaults++
		outage("s3-down", func() { w.s3.down = true }, func() { w.s3.down = false; w.monFaults++ })
	case "consul-down":
		outage("consul-down", func() { w.consul.down = true; w.consul.changed() }, func() { w.consul.down = false })
	case "cut-consul":
		h := w.pickHost(s.A)
		outage("cut-consul", func() { w.consul.Cut(h) }, func() { w.consul.Uncut(h) })
	case "block-consul":
		h := w.pickHost(s.A)
		outage("block-consul", func() { w.net.Block(h, ch) }, func() { w.net.Unblock(h, ch) })
	case "reset-consul":
		h := w.pickHost(s.A)
		outage("reset-consul", func() { w.net.Cut(h, ch) }, func() { w.net.Uncut(h, ch) })
	case "drop-session":
		if n := w.pickNode(s.A); n != nil {
			w.consul.InvalidateOf(n.id)
		}
	case "step-clock":
		if n := w.pickNode(s.A); n != nil {
			w.stepClock(n.id, dur)
		}
	case "mon-cut":
		w.monFaults++
		outage("mon-cut", func() { w.net.Cut(monHost, s3h) }, func() { w.net.Uncut(monHost, s3h); w.monFaults++ })
	case "disk-full":
		outage("disk-full", func() { w.fs.full = true }, func() { w.fs.full = false })
	default:
		panic("unknown step " + s.Op)
	}
}
