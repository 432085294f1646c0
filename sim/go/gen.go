package main

import "fmt"

// genPlan draws the i-th plan of a profile. Everything random about a run is
// decided here or by the streams seeded from the plan.
func genPlan(profile string, seed uint64, i int) *Plan {
	g := &gen{r: NewRng(mix64(seed*1000003 + uint64(i)*7919 + 17)).Fork(profile)}
	p := &Plan{Profile: profile, Seed: g.r.U64() >> 1}
	g.p = p
	g.sched()
	g.base()
	f := profiles[profile]
	if f == nil {
		panic("unknown profile " + profile)
	}
	f(g)
	return p
}

type gen struct {
	r *Rng
	p *Plan
}

var profiles = map[string]func(*gen){
	"steady":    (*gen).steady,
	"crash":     (*gen).crash,
	"storeerr":  (*gen).storeerr,
	"stall":     (*gen).stall,
	"failover":  (*gen).failover,
	"monitor":   (*gen).monitor,
	"burst":     (*gen).burst,
	"clock":     (*gen).clock,
	"admission": (*gen).admission,
	"dedupe":    (*gen).dedupe,
	"big":       (*gen).big,
	"fs":        (*gen).fs,
	"mix":       (*gen).mix,
	"setup":     (*gen).setup,
	"fsstore":   (*gen).fsstore,
	"edge":      (*gen).edge,
	"index":     (*gen).index,
}

func (g *gen) sched() {
	r := g.r
	s := &g.p.Sched
	s.Seed = r.U64() >> 1
	s.Mode = uint32(r.PickInt(0, 1, 1, 1, 2, 2))
	if s.Mode == 2 {
		s.Change = uint32(r.PickInt(15, 63, 255))
	}
	if s.Mode != 0 {
		s.Yield = uint32(r.PickInt(0, 3, 15, 63))
		s.Preempt = uint32(r.PickInt(0, 0, 63, 255, 1023))
		s.Point = uint32(r.Fork("point").PickInt(0, 0, 5, 25, 100, 500))
	}
}

func (g *gen) base() {
	r := g.r
	g.p.Cfg = Cfg{Kind: "log", Machines: 1, Mask: r.PickInt(1, 2, 3, 5, 5, 6), FlushMs: r.PickInt(100, 200, 500, 500, 1000, 2000),
		NetUs: r.PickInt(50, 300, 2000), NetJitUs: r.PickInt(0, 100, 2000), S3Us: r.PickInt(500, 3000, 10000, 40000),
		RestartMs: r.Range(200, 3000), RunMs: r.Range(6000, 20000), AuditMax: 24, IdleMs: 200000}
	c := &g.p.Cfg
	c.S3JitUs = c.S3Us * r.PickInt(0, 1, 1, 3)
}

func (g *gen) add(s Step) { g.p.Steps = append(g.p.Steps, s) }

func (g *gen) at() int { return g.r.Range(0, g.p.Cfg.RunMs) }

func (g *gen) kind() string {
	return g.r.Pick("leaf", "leaf", "leaf", "pre", "pre", "leaf2", "direct", "prepre", "cross", "crosspre", "prepre2", "edgestart", "edgelimit", "ca", "selfroot", "preroot3")
}

// submissions adds n of them, drawn from a limited set so that some repeat.
func (g *gen) submissions(n int) {
	r := g.r
	for k := 0; k < n; k++ {
		s := Step{At: g.at(), Op: "submit", S: g.kind(), A: r.Intn(n/3 + 2), B: r.Intn(4)}
		if r.Chance(1, 20) {
			s.C |= 2
		}
		if r.Chance(1, 20) {
			s.C |= 4
			s.Dur = r.Range(1, 3000)
		}
		g.add(s)
		if r.Chance(1, 4) { // together with others
			for j := r.Range(1, 4); j > 0; j-- {
				g.add(Step{At: s.At, Op: "submit", S: g.kind(), A: r.Intn(n/3 + 2), B: r.Intn(4)})
			}
		}
		if r.Chance(1, 8) {
			g.add(Step{At: g.at(), Op: "resubmit", A: r.Intn(1000)})
		}
	}
	if r.Chance(1, 3) {
		g.add(Step{At: g.at(), Op: "submit", S: "big", A: r.Intn(5)})
	}
	for k := r.Intn(4); k > 0; k-- {
		g.bad()
	}
}

func (g *gen) bad() {
	r := g.r
	switch r.Intn(4) {
	case 0:
		g.add(Step{At: g.at(), Op: "malformed", S: r.Pick(malformed...), C: r.Intn(2)})
	case 1:
		g.add(Step{At: g.at(), Op: "submit", S: g.kind(), A: r.Intn(20), B: r.Intn(4), C: 1})
	default:
		g.add(Step{At: g.at(), Op: "submit", S: r.Pick(badKinds...), A: r.Intn(10), B: r.Intn(4), C: r.Intn(2)})
	}
}

// bigBurst makes data tiles of a megabyte and more.
func (g *gen) bigBurst() {
	r := g.r
	g.add(Step{At: r.Range(0, max(0, g.p.Cfg.RunMs-6000)), Op: "burst", S: "big", A: r.Range(10, 90), B: r.Range(30, 110), C: r.PickInt(0, 50, 1000, 4000)})
}

// trickle never lets the log rest for a whole flush interval.
func (g *gen) trickle() {
	r := g.r
	c := &g.p.Cfg
	c.FlushMs = r.PickInt(200, 500, 500, 1000)
	c.S3Us, c.S3JitUs = r.PickInt(500, 3000), r.PickInt(0, 3000)
	every := r.Range(c.FlushMs/5, c.FlushMs*19/20)
	dur := r.Range(14000, 25000)
	c.RunMs = max(c.RunMs, dur+2000)
	g.add(Step{At: r.Range(0, c.RunMs-dur), Op: "trickle", S: r.Pick("leaf", "mix", "pre"), A: r.Range(1000, 9000), B: dur / every, C: every})
}

// history starts from a log whose past entries can be asked for and submitted again.
func (g *gen) history() {
	r := g.r
	c := &g.p.Cfg
	c.InitReal = r.Range(1, 7)
	c.InitBig = r.Chance(1, 4)
	c.InitAgeS = r.PickInt(60, 3600, 25*3600, 49*3600, 10*86400, 200*86400)
	if c.InitSize == 0 {
		c.InitSize = uint64(r.PickInt(r.Range(1, 300), r.Range(250, 2000), 256*r.Range(1, 8), r.Range(1200, 2000), 65536+r.Intn(2000)))
	}
}

func (g *gen) burstStep(lo, hi int) {
	r := g.r
	g.add(Step{At: r.Range(0, max(0, g.p.Cfg.RunMs-6000)), Op: "burst", S: r.Pick("leaf", "leaf", "mix", "pre"), A: r.Range(1000, 9000), B: r.Range(lo, hi), C: r.PickInt(0, 0, 50, 1000, 4000)})
}

func (g *gen) queries(n int) {
	r := g.r
	if r.Chance(1, 4) {
		for k := r.Range(1, 4); k > 0; k-- {
			g.add(Step{At: g.at(), Op: "prune"})
		}
	}
	for k := 0; k < n; k++ {
		s := Step{At: g.at(), A: r.Intn(1 << 20), B: r.Intn(1 << 20)}
		switch r.Intn(12) {
		case 0:
			s.Op = "sth"
		case 1, 2:
			s.Op = "cons"
			s.C = r.Intn(3) / 2
		case 3, 4:
			s.Op = "hash"
			s.C = r.Intn(5) / 4
		case 5:
			s.Op = r.Pick("absent", "lost", "lost", "prefix")
		case 6, 7:
			s.Op = "entries"
			s.B = r.PickInt(0, 1, 5, 40, 255, 256, 300, 1023, 1024, 5000)
		case 8, 9:
			s.Op = "eap"
			s.C = r.Intn(5) / 4
		case 10:
			s.Op = "junk"
		case 11:
			s.Op = r.Pick("roots", "junk")
		}
		g.add(s)
	}
}

var writeOps = []string{"put:data", "put:tile", "put:hashes", "put:issuer", "put:sth", "put:checkpoint", "put:dedupe"}
var writerOps = []string{"put:data", "put:tile", "put:hashes", "put:issuer", "put:sth", "put:checkpoint", "put:dedupe",
	"put:sth", "put:checkpoint", "get:hashes", "get:dedupe", "head:issuer"}
var startOps = []string{"get:sth", "get:roots", "get:tile", "get:data", "kvget:consul", "session-create:consul", "acquire:consul", "renew:consul"}

func (g *gen) fault(f Fault) {
	if f.Nth == 0 {
		f.Nth = g.r.PickInt(1, 1, 1, 2, 3, 5, 8, 20)
	}
	f.From = g.r.PickInt(1100, 1100, 2000, 2000+g.r.Intn(g.p.Cfg.RunMs+1))
	g.p.Faults = append(g.p.Faults, f)
}

func (g *gen) writerOp() string {
	if g.p.Cfg.FS {
		return g.r.Pick("fs-openw", "fs-write", "fs-write", "fs-rename", "fs-fsync", "fs-close", "fs-mkdir", "fs-open", "fs-read") + ":" +
			g.r.Pick("data", "tile", "hashes", "issuer", "sth", "sth", "checkpoint", "dedupe", "*")
	}
	return g.r.Pick(writerOps...)
}

func (g *gen) status() int { return g.r.PickInt(500, 500, 503, 503, 403, 429) }

func (g *gen) crashFault() {
	r := g.r
	if g.p.Cfg.FS {
		g.fault(Fault{On: g.writerOp(), Act: r.Pick("crash", "crash-after", "crash-mid", "power", "power-after", "power-mid")})
		return
	}
	op := g.writerOp()
	if r.Chance(1, 5) {
		op = r.Pick(startOps...)
	}
	g.fault(Fault{On: op, Act: r.Pick("crash", "crash", "crash-after", "crash-after", "crash-all")})
}

func (g *gen) errFault() {
	r := g.r
	if g.p.Cfg.FS {
		f := Fault{On: g.writerOp(), Act: r.Pick("err", "err", "enospc", "short"), Sticky: r.Chance(1, 2)}
		if f.Act == "err" {
			f.Status = r.PickInt(5, 28) // EIO, ENOSPC
		}
		g.fault(f)
		return
	}
	op := g.writerOp()
	if r.Chance(1, 6) {
		op = r.Pick(startOps...)
	}
	f := Fault{On: op, Act: r.Pick("err", "err", "err-after", "reset", "reset-after"), Status: g.status(), Count: r.PickInt(1, 1, 2, 3, 8), Sticky: r.Chance(1, 2)}
	if op[:3] == "get" && r.Chance(1, 4) {
		f.Act = "trunc"
	}
	g.fault(f)
}

func (g *gen) stallFault() {
	r := g.r
	if g.p.Cfg.FS {
		g.fault(Fault{On: g.writerOp(), Act: "stall", Dur: r.PickInt(1000, 4000, 12000, 30000), Count: r.PickInt(1, 3)})
		return
	}
	g.fault(Fault{On: g.writerOp(), Act: r.Pick("stall", "stall", "stall-after"), Dur: r.PickInt(800, 4000, 7000, 15000, 40000, 90000), Count: r.PickInt(1, 1, 2, 5, 50)})
}

func (g *gen) queue(prob, of int, f func()) {
	if g.r.Chance(prob, of) {
		f()
	}
}

func (g *gen) steady() {
	r := g.r
	g.p.Cfg.Machines = r.PickInt(1, 1, 2)
	g.submissions(r.Range(4, 30))
	g.queries(r.Range(5, 40))
	g.queue(1, 4, func() { g.burstStep(20, 400) })
	g.queue(1, 6, g.trickle)
	g.queue(1, 10, g.bigBurst)
	g.queue(1, 8, g.history)
	g.queue(1, 8, g.align)
}

func (g *gen) crash() {
	r := g.r
	c := &g.p.Cfg
	c.Machines = r.PickInt(1, 1, 1, 2)
	c.RunMs = r.Range(8000, 30000)
	g.submissions(r.Range(5, 25))
	g.queries(r.Range(2, 12))
	g.queue(1, 3, func() { g.burstStep(20, 600) })
	for k := r.Range(1, 4); k > 0; k-- {
		g.crashFault()
	}
	for k := r.Intn(3); k > 0; k-- {
		g.add(Step{At: g.at(), Op: r.Pick("crash", "crash", "crash-all"), A: r.PickInt(-1, 0, 1)})
	}
	g.queue(1, 6, g.bigSize)
	g.queue(1, 10, g.bigBurst)
	g.queue(1, 6, g.history)
}

func (g *gen) storeerr() {
	r := g.r
	c := &g.p.Cfg
	c.Machines = r.PickInt(1, 1, 2)
	c.RunMs = r.Range(20000, 100000)
	g.submissions(r.Range(5, 25))
	g.queries(r.Range(2, 8))
	g.queue(1, 3, func() { g.burstStep(20, 400) })
	for k := r.Range(1, 4); k > 0; k-- {
		g.errFault()
	}
	g.queue(1, 4, g.stallFault)
	g.queue(1, 4, func() {
		g.add(Step{At: g.at(), Op: r.Pick("cut-s3", "s3-down", "block-s3", "slow-s3"), A: -1, B: r.Range(50, 2000), Dur: r.Range(500, 20000)})
	})
	g.queue(1, 8, g.bigSize)
}

func (g *gen) stall() {
	r := g.r
	c := &g.p.Cfg
	c.RunMs = r.Range(20000, 60000)
	g.submissions(r.Range(5, 40))
	for k := r.Range(1, 3); k > 0; k-- {
		g.stallFault()
	}
	if r.Chance(1, 2) {
		g.burstStep(150, 900)
	}
	if r.Chance(1, 3) {
		g.add(Step{At: g.at(), Op: r.Pick("block-s3", "slow-s3"), A: -1, B: r.Range(50, 5000), Dur: r.Range(2000, 40000)})
	}
	g.queries(r.Range(0, 5))
	g.queue(1, 4, g.trickle)
}

func (g *gen) failover() {
	r := g.r
	c := &g.p.Cfg
	c.Machines = r.PickInt(2, 2, 3)
	c.RunMs = r.Range(20000, 90000)
	for i := 0; i < c.Machines; i++ {
		c.SkewMs = append(c.SkewMs, int64(r.PickInt(0, 0, -200, 300, -5000, 7000)))
	}
	g.submissions(r.Range(8, 40))
	g.queries(r.Range(2, 10))
	g.queue(1, 4, func() { g.burstStep(20, 300) })
	for k := r.Range(1, 4); k > 0; k-- {
		g.leaderEvent()
	}
	if r.Chance(1, 2) {
		g.fault(Fault{On: r.Pick(append(append([]string(nil), writerOps...), startOps...)...), Act: r.Pick("crash-after", "crash", "sigint", "dropsession")})
	}
	if r.Chance(1, 3) {
		g.fault(Fault{On: r.Pick(writeOps...), Act: "pause", Dur: g.pauseMs()})
	}
	g.queue(1, 4, g.stallFault)
}

// pauseMs is often just long enough to lose the lock; the lock delay covers
// the rest of it.
func (g *gen) pauseMs() int {
	if g.r.Chance(1, 3) {
		return g.r.Range(100, 16000)
	}
	return g.r.Range(16000, 24000)
}

func (g *gen) leaderEvent() {
	r := g.r
	a := r.PickInt(-1, -1, -1, 0, 1, 2)
	switch r.Intn(9) {
	case 0, 1:
		g.add(Step{At: g.at(), Op: "sigint", A: a})
	case 2:
		g.add(Step{At: g.at(), Op: "drop-session", A: a})
	case 3:
		g.add(Step{At: g.at(), Op: r.Pick("cut-consul", "reset-consul", "block-consul", "block-consul"), A: a, B: r.PickInt(0, 2000, 10000, 40000), Dur: r.Range(500, 60000)})
	case 4:
		g.add(Step{At: g.at(), Op: "consul-down", B: r.PickInt(0, 2000, 10000, 40000), Dur: r.Range(500, 30000)})
	case 5:
		g.add(Step{At: g.at(), Op: "pause", A: a, Dur: g.pauseMs()})
	case 6:
		g.add(Step{At: g.at(), Op: "crash", A: a})
	case 7:
		g.add(Step{At: g.at(), Op: "down", A: a, Dur: r.Range(1000, 30000)})
	case 8:
		g.add(Step{At: g.at(), Op: "crash-all"})
	}
}

func (g *gen) monitor() {
	r := g.r
	c := &g.p.Cfg
	c.RunMs = r.Range(10000, 40000)
	g.submissions(r.Range(0, 25))
	g.queue(1, 2, func() { g.burstStep(100, 700) })
	g.queries(r.Range(20, 120))
	for k := r.Range(0, 12); k > 0; k-- {
		g.add(Step{At: g.at(), Op: "junk", A: r.Intn(1 << 20)})
	}
	for k := r.Intn(5); k > 0; k-- {
		f := Fault{Role: "monitor", On: r.Pick("get:sth", "get:tile", "get:data", "get:hashes", "get:hashes", "get:issuer", "get:roots", "get:*"),
			Act: r.Pick("err", "err", "reset", "trunc", "stall"), Status: r.PickInt(500, 503, 403, 429), Count: r.PickInt(1, 2, 5), Dur: r.PickInt(500, 5000, 40000)}
		g.fault(f)
	}
	if r.Chance(1, 4) {
		g.add(Step{At: g.at(), Op: r.Pick("mon-cut", "s3-down"), Dur: r.Range(500, 10000)})
	}
	g.queue(1, 3, g.crashFault)
	g.queue(1, 4, g.bigSize)
	g.queue(1, 4, g.history)
	g.queue(1, 8, g.bigBurst)
	g.queue(1, 6, g.align)
}

func (g *gen) align() { g.p.Cfg.Align = g.r.PickInt(1, 1, 2) }

func (g *gen) burst() {
	r := g.r
	c := &g.p.Cfg
	c.RunMs = r.Range(8000, 25000)
	for k := r.Range(1, 3); k > 0; k-- {
		g.burstStep(200, 1100)
	}
	g.submissions(r.Range(0, 10))
	g.queries(r.Range(0, 20))
	g.queue(1, 3, g.crashFault)
	g.queue(1, 6, g.bigSize)
	g.queue(1, 8, g.bigBurst)
	g.queue(1, 5, g.trickle)
}

func (g *gen) clock() {
	r := g.r
	c := &g.p.Cfg
	c.Machines = r.PickInt(1, 2, 2, 3)
	c.RunMs = r.Range(10000, 60000)
	for i := 0; i < c.Machines; i++ {
		c.SkewMs = append(c.SkewMs, int64(r.PickInt(0, -1, 500, -3000, 20000, -60000, -600000, 7200000)))
	}
	g.submissions(r.Range(5, 25))
	g.queue(1, 4, func() { g.burstStep(20, 300) })
	g.queue(1, 4, g.trickle)
	if r.Chance(1, 5) { // corrected again and again, by about what passes between two tree heads
		c.FlushMs, c.S3Us, c.S3JitUs, c.NetUs = r.PickInt(100, 200), 500, 0, 50
		c.RunMs = r.Range(10000, 100*c.FlushMs+10000)
		every := c.FlushMs * r.Range(50, 150) / 100
		g.add(Step{At: 0, Op: "trickle", S: "leaf", A: r.Range(1000, 9000), B: c.RunMs / every, C: every})
		for at := r.Range(0, 1500); at < c.RunMs; at += r.Range(8*c.FlushMs, 20*c.FlushMs) {
			g.add(Step{At: at, Op: "step-clock", A: -1, Dur: -c.FlushMs + r.Range(-3, 2)})
		}
		c.Machines, c.SkewMs = 1, nil
		return
	}
	if r.Chance(1, 4) { // set back under steady traffic
		g.trickle()
		t := g.p.Steps[len(g.p.Steps)-1]
		g.add(Step{At: t.At + r.Range(500, 4000), Op: "step-clock", A: -1, Dur: -r.PickInt(5000, 30000, 120000)})
	}
	if r.Chance(1, 4) { // wrong for a while
		d := r.PickInt(2000, 90000, 3600000, 86400000)
		at := g.at()
		for i := 0; i < c.Machines; i++ {
			g.add(Step{At: at, Op: "step-clock", A: i, Dur: d})
		}
		at = r.Range(at, c.RunMs)
		for i := 0; i < c.Machines; i++ {
			g.add(Step{At: at, Op: "step-clock", A: i, Dur: -d})
		}
		g.queue(1, 2, func() { g.add(Step{At: r.Range(at, c.RunMs), Op: "crash-all"}) })
	}
	for k := r.Range(1, 4); k > 0; k-- {
		d := r.PickInt(-60000, -5000, -1000, -100, -10, 50, 1000, 60000, 86400000, 200000000)
		if r.Chance(1, 2) {
			g.add(Step{At: g.at(), Op: "step-clock", A: -1, Dur: d})
		} else {
			g.fault(Fault{On: r.Pick(writeOps...), Act: "step", Dur: d})
		}
	}
	for k := r.Intn(3); k > 0; k-- {
		g.add(Step{At: g.at(), Op: r.Pick("crash", "sigint", "down"), A: -1, Dur: r.Range(1000, 20000)})
	}
}

func (g *gen) admission() {
	r := g.r
	g.submissions(r.Range(5, 25))
	for k := r.Range(8, 40); k > 0; k-- {
		g.bad()
	}
	// the same moment
	for k := r.Range(1, 4); k > 0; k-- {
		at := g.at()
		for j := r.Range(2, 10); j > 0; j-- {
			s := Step{At: at, Op: "submit", S: g.kind(), A: r.Intn(8), B: r.Intn(4)}
			if r.Chance(1, 2) {
				s.S = r.Pick(badKinds...)
			}
			g.add(s)
		}
	}
	g.queue(1, 4, g.crashFault)
}

func (g *gen) dedupe() {
	r := g.r
	c := &g.p.Cfg
	c.Machines = r.PickInt(1, 1, 2)
	c.RunMs = r.Range(10000, 40000)
	g.submissions(r.Range(10, 50))
	g.queue(1, 2, func() { g.burstStep(50, 500) })
	for k := r.Range(5, 30); k > 0; k-- {
		g.add(Step{At: g.at(), Op: "resubmit", A: r.Intn(1 << 20)})
	}
	for k := r.Intn(3); k > 0; k-- {
		g.crashFault()
	}
	g.queue(1, 4, g.leaderEvent)
	g.queue(1, 4, g.errFault)
	c.AuditMax = 60
	g.queue(1, 3, g.history)
	g.queue(1, 6, func() {
		g.add(Step{At: g.at(), Op: "step-clock", A: -1, Dur: r.PickInt(-5000, 60000, 86400000, 200000000)})
	})
}

// bigSize starts from a log that already has many entries.
func (g *gen) bigSize() {
	r := g.r
	b := uint64(1) << uint(r.PickInt(8, 8, 9, 12, 16, 16, 17, 24, 24, 32, 39))
	d := uint64(r.PickInt(1, 2, 3, 10, 100, 200, 254, 255))
	if r.Chance(1, 3) { // where the path of a tile gets longer
		b = 256 * uint64(r.PickInt(1000, 1000, 2000, 10000, 1000000, 1005000, 2000000))
		if r.Chance(1, 2) {
			b += 256 * uint64(r.Range(0, 12))
		} else {
			d = uint64(r.Range(1, 8))
		}
	}
	g.p.Cfg.InitBig = r.Chance(1, 4)
	switch r.Intn(4) {
	case 0:
		g.p.Cfg.InitSize = b
	case 1:
		g.p.Cfg.InitSize = b + d
	default:
		g.p.Cfg.InitSize = b - d
	}
	if g.p.Cfg.InitSize == 0 {
		g.p.Cfg.InitSize = 1
	}
}

func (g *gen) big() {
	r := g.r
	g.bigSize()
	g.queue(1, 5, g.history)
	g.p.Cfg.RunMs = r.Range(5000, 15000)
	g.submissions(r.Range(3, 15))
	if r.Chance(2, 3) {
		g.burstStep(50, 600)
	}
	g.queries(r.Range(5, 40))
	g.queue(1, 3, g.crashFault)
	g.queue(1, 3, func() { g.add(Step{At: g.at(), Op: "crash-all"}) })
	g.queue(1, 3, g.align)
}

func (g *gen) fs() {
	r := g.r
	c := &g.p.Cfg
	c.FS = true
	c.FsUs = r.PickInt(0, 100, 2000, 20000)
	c.Machines = r.PickInt(1, 1, 2)
	c.RunMs = r.Range(8000, 30000)
	g.submissions(r.Range(5, 25))
	g.queries(r.Range(2, 25))
	g.queue(1, 3, func() { g.burstStep(20, 400) })
	for k := r.Intn(4); k > 0; k-- {
		switch r.Intn(4) {
		case 0, 1:
			g.crashFault()
		case 2:
			g.errFault()
		case 3:
			g.stallFault()
		}
	}
	for k := r.Intn(3); k > 0; k-- {
		g.add(Step{At: g.at(), Op: r.Pick("crash", "power", "power", "sigint", "disk-full"), A: -1, Dur: r.Range(500, 8000)})
	}
	g.queue(1, 6, g.bigSize)
}

func (g *gen) mix() {
	r := g.r
	c := &g.p.Cfg
	c.Machines = r.PickInt(1, 2, 2, 3)
	c.RunMs = r.Range(10000, 90000)
	for i := 0; i < c.Machines; i++ {
		c.SkewMs = append(c.SkewMs, int64(r.PickInt(0, 0, 0, -1000, 3000)))
	}
	g.submissions(r.Range(5, 40))
	g.queries(r.Range(0, 30))
	g.queue(1, 3, func() { g.burstStep(20, 600) })
	for k := r.Range(1, 5); k > 0; k-- {
		switch r.Intn(6) {
		case 0, 1:
			g.crashFault()
		case 2:
			g.errFault()
		case 3:
			g.stallFault()
		case 4, 5:
			g.leaderEvent()
		}
	}
	g.queue(1, 5, g.bigSize)
	g.queue(1, 5, func() { g.add(Step{At: g.at(), Op: "step-clock", A: -1, Dur: r.PickInt(-2000, 2000)}) })
	g.queue(1, 5, func() { g.add(Step{At: g.at(), Op: "setup"}) })
}

// setup interrupts and repeats the setup of a log, new or existing.
func (g *gen) setup() {
	r := g.r
	c := &g.p.Cfg
	c.Kind = "setup"
	c.FS = r.Chance(1, 2)
	c.Machines = r.PickInt(1, 1, 2)
	c.RunMs = r.Range(3000, 12000)
	c.IdleMs = 100000
	c.AuditMax = 8
	c.S3Us = r.PickInt(500, 3000, 10000)
	if c.FS {
		c.FsUs = r.PickInt(0, 100, 2000)
	}
	c.Trust = r.Chance(1, 2)
	if r.Chance(1, 4) {
		g.bigSize()
	}
	at := 0
	for k := r.Range(1, 5); k > 0; k-- {
		s := Step{At: at, Op: "pre-setup"}
		if r.Chance(2, 3) {
			lim := r.PickInt(300, 2000, 10*c.S3Us, 40*c.S3Us)
			if c.FS {
				lim = r.PickInt(100, 1000, 5000, 20000)
			}
			s.Dur = 1 + r.Intn(lim)
			s.B = r.PickInt(0, 0, 0, 2)
			if c.FS {
				s.B = r.PickInt(0, 1, 1, 2, 3)
			}
			s.C = r.Range(10, 5000)
		}
		g.add(s)
		if r.Chance(4, 5) {
			at += r.PickInt(50, 500, 3000) // mostly one after the other
		}
		switch r.Intn(12) {
		case 0:
			g.add(Step{At: at + r.Intn(50), Op: "pre-power"})
		case 1:
			g.add(Step{At: at, Op: r.Pick("pre-consul-down", "pre-s3-down", "pre-disk-full"), Dur: r.Range(1, 5000)})
		}
	}
	g.queue(1, 3, func() { g.add(Step{At: at, Op: "pre-power-after"}) })
	g.queue(1, 4, func() { g.add(Step{At: r.Intn(at + 1), Op: "pre-machines"}) })
	for k := r.Intn(4); k > 0; k-- {
		g.setupFault()
	}
	g.submissions(r.Range(2, 8))
	g.queries(r.Range(0, 5))
	for k := r.Intn(3); k > 0; k-- {
		g.add(Step{At: g.at(), Op: "setup"})
		g.queue(1, 3, g.setupFault)
		g.queue(1, 3, func() { g.add(Step{At: g.at(), Op: r.Pick("crash", "power", "sigint"), A: -1}) })
	}
}

func (g *gen) setupFault() {
	r := g.r
	f := Fault{Role: "setup", Nth: r.PickInt(1, 1, 1, 2, 3), From: r.PickInt(0, 0, 0, 3000), Count: r.PickInt(1, 1, 2, 4), Sticky: r.Chance(1, 3)}
	if r.Chance(1, 4) {
		f.On, f.Act, f.Status = "kvput:consul", r.Pick("err", "reset", "crash", "crash-after", "err-after", "stall"), 500
		f.Dur = r.Range(100, 20000)
	} else if g.p.Cfg.FS {
		f.On = r.Pick("fs-openw", "fs-write", "fs-rename", "fs-fsync", "fs-close", "fs-mkdir", "fs-stat", "fs-open", "fs-read") + ":" + r.Pick("roots", "sth", "sth", "etc", "*")
		f.Act = r.Pick("err", "enospc", "short", "crash", "crash-after", "crash-mid", "power", "power-after", "power-mid", "stall")
		f.Nth = r.PickInt(1, 1, 2, 3, 5)
		f.Status = r.PickInt(5, 28)
		f.Dur = r.Range(100, 20000)
	} else {
		f.On = r.Pick("put:roots", "put:sth", "put:sth", "head:sth", "head:sth")
		f.Act = r.Pick("err", "err-after", "reset", "reset-after", "crash", "crash-after", "stall")
		f.Status = r.PickInt(500, 503, 403, 429)
		f.Dur = r.Range(100, 20000)
	}
	g.p.Faults = append(g.p.Faults, f)
}

// edge runs the edge build of the monitor next to a log that is being written.
func (g *gen) edge() {
	r := g.r
	c := &g.p.Cfg
	c.Kind = "edge"
	c.Mask = 5 // fixed in the edge build
	c.Backend = r.Pick("", "doc", "short", "short", "short", "zero", "zero", "bad", "other", "other", "local")
	c.Pops = r.PickInt(1, 1, 2, 3)
	c.Evict = r.PickInt(0, 0, 3, 10, 50)
	c.CacheErr = r.PickInt(0, 0, 0, 10, 50)
	c.RunMs = r.Range(8000, 60000)
	g.submissions(r.Range(3, 20))
	if r.Chance(1, 2) {
		for k := r.Range(3, 40); k > 0; k-- {
			g.add(Step{At: g.at(), Op: "submit", S: r.Pick("wide", "wide", "deep", "wide", "deep2"), A: r.Intn(60)})
		}
	}
	g.queue(1, 2, func() { g.burstStep(50, 700) })
	g.queries(r.Range(20, 100))
	if r.Chance(1, 3) {
		for k := r.Range(2, 8); k > 0; k-- {
			g.add(Step{At: g.at(), Op: "prune"})
		}
	}
	if r.Chance(1, 2) {
		c.OtherSize = r.PickInt(r.Range(3, 40), r.Range(100, 500))
		for k := r.Range(4, 40); k > 0; k-- {
			g.add(Step{At: g.at(), Op: "other", A: r.Intn(1 << 20), B: r.Intn(1 << 20)})
		}
	}
	for k := r.Range(0, 4); k > 0; k-- { // many at once
		at := g.at()
		for j := r.Range(2, 12); j > 0; j-- {
			g.add(Step{At: at, Op: r.Pick("entries", "hash", "cons", "eap", "absent"), A: r.Intn(40), B: r.Intn(40)})
		}
	}
	for k := r.Intn(4); k > 0; k-- {
		g.fault(Fault{Role: "monitor", On: r.Pick("get:sth", "get:tile", "get:data", "get:hashes", "get:hashes", "get:issuer", "get:issuer", "get:*"),
			Act: r.Pick("err", "err", "reset", "trunc", "stall"), Status: r.PickInt(500, 503, 403, 429), Count: r.PickInt(1, 2, 5), Dur: r.PickInt(500, 5000, 40000)})
	}
	if r.Chance(1, 4) {
		g.add(Step{At: g.at(), Op: r.Pick("mon-cut", "s3-down"), Dur: r.Range(500, 10000)})
	}
	g.queue(1, 3, g.crashFault)
	g.queue(1, 4, g.bigSize)
	g.queue(1, 6, g.align)
}

var _ = fmt.Sprint
