// Simulator support, compiled into package runtime by an overlay (see
// /verif/sim/mkoverlay.py). Never part of a shipped binary.

package runtime

import (
	"internal/runtime/atomic"
	"unsafe"
)

var _ = atomic.Load
var _ unsafe.Pointer

const verifMaxNodes = 4096

const (
	verifNormal  = 0
	verifStalled = 1
	verifDead    = 2
)

// All of this is only touched by the single running M (GOMAXPROCS=1, no
// sysmon, no GC), hence no locks.
var verifst struct {
	mode      uint32 // 0 FIFO, 1 uniform, 2 priorities
	yieldMask uint32 // yield at a sync point when rnd&mask==0; 0 means never
	rng       uint64
	crng      uint64 // crypto stream
	steps     uint64
	maxSteps  uint64
	hash      uint64
	jumps     uint64
	npicks    uint64 // picks with a real choice
	state     [verifMaxNodes]uint8
	skew      [verifMaxNodes]int64
	alive     [verifMaxNodes]int32
	since     [verifMaxNodes]int64 // when it was stalled or killed
	stalled   [verifMaxNodes]gQueue
	dead      gQueue
	stopAt    int64
	onIdle    bool
	chgMask   uint32
	preemptMask uint32
	ndead     uint64
	preempts  uint64
	pointGap  uint32 // average number of statements between two switches (0: none)
	pointLeft uint32
	points    uint64
	delays    uint64
	tickSteps uint64 // steps at the last CPU tick
	ticks     uint32 // CPU ticks without a scheduling step
	stillAt   uint64 // steps when the clock last moved
	spun      uint32 // node that was found spinning
	spinWhat  [160]byte
	spinLen   int
}

// verifSpinTicks is how many CPU ticks (half seconds) one goroutine may run
// without any scheduling step, verifStillSteps how many scheduling steps may
// pass without the clock moving.
const (
	verifSpinTicks  = 6
	verifStillSteps = 5000000
)

// verifTick runs in the handler of the CPU timer. A simulated process that
// has been computing for seconds without reaching a scheduling point is taken
// off the (simulated) CPU for good; the harness learns of it from VerifSpun.
func verifTick(gp *g, c *sigctxt) {
	if verifst.steps != verifst.tickSteps {
		verifst.tickSteps = verifst.steps
		verifst.ticks = 0
		return
	}
	verifst.ticks++
	if verifst.ticks < verifSpinTicks && !(verifst.ticks >= 1 && gcController.heapLive.Load() > 6<<30) {
		return
	}
	if gp == nil || gp.m == nil || gp.m.curg != gp || gp.simnode == 0 {
		if verifst.ticks > 20*verifSpinTicks {
			print("VERIF-STUCK: the harness is spinning\n")
			exit(97)
		}
		return
	}
	if verifst.spun == 0 {
		verifst.spun = gp.simnode
		if f := findfunc(c.sigpc()); f.valid() {
			verifst.spinLen = copy(verifst.spinWhat[:], funcname(f))
		}
	}
	if verifst.state[gp.simnode] != verifDead {
		VerifKill(gp.simnode)
	}
	gp.preempt = true
	gp.stackguard0 = stackPreempt
	doSigPreempt(gp, c)
}

// VerifSpun returns the node found spinning (0: none) and the function it was in.
func VerifSpun() (uint32, string) {
	return verifst.spun, string(verifst.spinWhat[:verifst.spinLen])
}

func verifmix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func verifrnd() uint64 {
	verifst.rng += 0x9e3779b97f4a7c15
	return verifmix(verifst.rng)
}

// VerifInit seeds every stream and fixes the scheduling policy.
func VerifInit(seed, schedSeed uint64, mode, yieldMask, chgMask, preemptMask uint32, maxSteps uint64) {
	mp := getg().m
	mp.chacha8.Init64([4]uint64{verifmix(seed + 1), verifmix(seed + 2), verifmix(seed + 3), verifmix(seed + 4)})
	mp.cheaprand = verifmix(seed + 5)
	verifst.rng = verifmix(schedSeed + 6)
	verifst.crng = verifmix(seed + 7)
	verifst.mode = mode
	verifst.yieldMask = yieldMask
	verifst.chgMask = chgMask
	verifst.preemptMask = preemptMask
	verifst.maxSteps = maxSteps
	verifst.hash = 0
	verifst.steps = 0
}

func VerifRandBytes(p []byte) {
	for i := 0; i < len(p); i += 8 {
		verifst.crng += 0x9e3779b97f4a7c15
		x := verifmix(verifst.crng)
		for j := i; j < i+8 && j < len(p); j++ {
			p[j] = byte(x)
			x >>= 8
		}
	}
}

func VerifNow() int64           { return faketime }
func VerifNode() uint32         { return getg().simnode }
func VerifTag() uint64           { return getg().simtag }
func VerifSetTag(t uint64)       { getg().simtag = t }
func VerifSetNode(n uint32)     { setVerifNode(n) }
func VerifSkew(n uint32, d int64) { verifst.skew[n] = d }
func VerifGetSkew(n uint32) int64 { return verifst.skew[n] }
func VerifAlive(n uint32) int   { return int(verifst.alive[n]) }
func VerifState(n uint32) int   { return int(verifst.state[n]) }
func VerifStats() (steps, hash, jumps, picks, preempts uint64) {
	return verifst.steps, verifst.hash, verifst.jumps, verifst.npicks, verifst.preempts
}

func setVerifNode(n uint32) {
	gp := getg()
	verifst.alive[gp.simnode]--
	gp.simnode = n
	verifst.alive[n]++
}

// VerifKill makes every goroutine of node n stop for good when it next blocks
// or comes to an operation that others could notice (VerifGate). Between those
// it is let run: it may be inside of something that all the simulated
// processes share, such as the encoder cache of encoding/json. No simulated
// time passes meanwhile. (The caller must not belong to n, or must park at once.)
func VerifKill(n uint32) {
	verifst.state[n] = verifDead
	verifst.since[n] = faketime
	verifst.stalled[n] = gQueue{}
}

func VerifStall(n uint32) {
	if verifst.state[n] == verifNormal {
		verifst.state[n] = verifStalled
		verifst.since[n] = faketime
	}
}

func VerifResume(n uint32) {
	if verifst.state[n] != verifStalled {
		return
	}
	verifst.state[n] = verifNormal
	systemstack(func() {
		pp := getg().m.p.ptr()
		for {
			gp := verifst.stalled[n].pop()
			if gp == nil {
				break
			}
			runqput(pp, gp, false)
		}
	})
}

// VerifParkForever ends the calling goroutine without running its defers.
func VerifParkForever() {
	gopark(nil, nil, waitReasonZero, traceBlockForever, 1)
	throw("unreachable")
}

// VerifOnPanic is told about an uncaught panic (or a fatal error such as a
// concurrent map write) in a goroutine of a simulated node. It must not return.
var VerifOnPanic func(node uint32, v any)

// VerifOnFatal is the same for errors such as a concurrent map write.
var VerifOnFatal func(node uint32, msg string)

func verifPanicked(v any) {
	gp := getg()
	if gp.m.curg != gp || gp.simnode == 0 || VerifOnPanic == nil {
		return
	}
	runningPanicDefers.Add(-1)
	VerifOnPanic(gp.simnode, v)
}

var VerifOnStuck func(why string)

// verifPick chooses which of the runnable goroutines in pp's queue runs next
// and moves it to the head.
func verifPick(pp *p) {
	if verifst.mode != 0 {
		// bring everything runnable into the local queue, on equal terms
		if next := pp.runnext; next != 0 && pp.runqtail-pp.runqhead < uint32(len(pp.runq))-1 {
			pp.runnext = 0
			runqput(pp, next.ptr(), false)
		}
		for sched.runqsize > 0 && pp.runqtail-pp.runqhead < uint32(len(pp.runq))-1 {
			lock(&sched.lock)
			gp := sched.runq.pop()
			if gp != nil {
				sched.runqsize--
			}
			unlock(&sched.lock)
			if gp == nil {
				break
			}
			runqput(pp, gp, false)
		}
	}
	h := pp.runqhead
	n := pp.runqtail - h
	if n < 2 {
		return
	}
	verifst.npicks++
	var k uint32
	switch verifst.mode {
	case 0:
		return
	case 1:
		k = uint32((verifrnd() >> 32) * uint64(n) >> 32)
	default:
		best := uint64(0)
		for i := uint32(0); i < n; i++ {
			gp := pp.runq[(h+i)%uint32(len(pp.runq))].ptr()
			if gp.simprio == 0 || (verifst.chgMask != 0 && uint32(verifrnd()>>20)&verifst.chgMask == 0) {
				gp.simprio = verifrnd() | 1
			}
			if gp.simprio > best {
				best = gp.simprio
				k = i
			}
		}
	}
	if k != 0 {
		// take element k, keep the order of the rest
		l := uint32(len(pp.runq))
		x := pp.runq[(h+k)%l]
		for i := k; i > 0; i-- {
			pp.runq[(h+i)%l] = pp.runq[(h+i-1)%l]
		}
		pp.runq[h%l] = x
	}
}

// verifSchedulable reports whether gp may run now; if not, gp has been put aside.
func verifSchedulable(gp *g) bool {
	if st := verifst.state[gp.simnode]; st == verifNormal {
		gp.simgate = false
	} else if gp.simgate || faketime != verifst.since[gp.simnode] || verifst.spun == gp.simnode {
		if st == verifDead {
			verifst.dead.pushBack(gp)
			verifst.ndead++
		} else {
			verifst.stalled[gp.simnode].pushBack(gp)
		}
		return false
	}
	verifst.steps++
	if verifst.steps-verifst.stillAt > verifStillSteps && gp.simnode != 0 && verifst.spun == 0 {
		verifst.spun = gp.simnode
		verifst.spinLen = copy(verifst.spinWhat[:], "busy loop")
		VerifKill(gp.simnode)
		verifst.dead.pushBack(gp)
		return false
	}
	verifst.hash = verifmix(verifst.hash ^ gp.goid*0x9e3779b97f4a7c15 ^ uint64(faketime))
	if verifst.maxSteps != 0 && verifst.steps > verifst.maxSteps {
		verifst.maxSteps = 0
		print("VERIF-STUCK: scheduling step limit reached\n")
		exit(97)
	}
	return true
}

// verifAdvance jumps the clock to the next timer when nothing can run.
func verifAdvance() {
	when := timeSleepUntil()
	if when == maxWhen {
		print("VERIF-STUCK: deadlock: no runnable goroutine and no timer\n")
		exit(98)
	}
	if when > faketime {
		faketime = when
		verifst.stillAt = verifst.steps
		verifst.jumps++
	}
}

func verifYield() {
	if verifst.yieldMask == 0 {
		return
	}
	gp := getg()
	mp := gp.m
	if mp.curg != gp || gp.simnode == 0 || gp.simlocks > 0 || mp.locks != 0 || mp.mallocing != 0 || mp.preemptoff != "" {
		return
	}
	if uint32(verifrnd()>>24)&verifst.yieldMask == 0 {
		Gosched()
	}
}

// VerifYield is called by the simulated services at their own sync points.
func VerifYield() { verifYield() }

// VerifGate holds back the caller if its node is stalled or dead.
func VerifGate() {
	if gp := getg(); verifst.state[gp.simnode] != verifNormal {
		gp.simgate = true
		Gosched()
	}
}

// VerifLock, VerifLocked and VerifUnlock count the mutexes a goroutine holds;
// one that holds any is not preempted, because some are shared by all the
// simulated processes.
func VerifLock() {
	verifYield()
	getg().simlocks++
}

func VerifLocked() { getg().simlocks++ }
func VerifUnlock() { getg().simlocks-- }

// verifAlloc is the preemption point: called for every allocation.
func verifAlloc() {
	gp := getg()
	mp := gp.m
	if gp.simnode == 0 || mp.curg != gp || gp.simlocks > 0 || mp.locks != 0 || mp.mallocing != 0 || mp.preemptoff != "" {
		return
	}
	if uint32(verifrnd()>>24)&verifst.preemptMask != 0 {
		return
	}
	var pcs [40]uintptr
	n := callers(1, pcs[:])
	for _, pc := range pcs[:n] {
		f := findfunc(pc - 1)
		if !f.valid() {
			return
		}
		s := funcname(f)
		if verifHas(s, "itko.dev/internal/") {
			break
		}
		if verifHas(s, "main.") || verifHas(s, "log.") || verifHas(s, "os.") || verifHas(s, "internal/poll.") || verifHas(s, "sync.") || verifHas(s, "syscall.") || verifHas(s, "reflect.") || verifHas(s, "time.") {
			return
		}
	}
	verifst.preempts++
	Gosched()
}

// VerifPoint stands between any two statements of itko (see instr).
func VerifPoint() {
	if verifst.pointLeft != 0 {
		verifst.pointLeft--
		if verifst.pointLeft == 0 {
			verifPoint()
		}
	}
}

// VerifPoints sets the average number of statements between two switches.
func VerifPoints(gap uint32) {
	verifst.pointGap = gap
	verifst.pointLeft = gap
}

func VerifPointStats() (points, delays uint64) { return verifst.points, verifst.delays }

func verifPoint() {
	x := verifrnd()
	verifst.pointLeft = 1 + uint32(x>>33)%(2*verifst.pointGap)
	gp := getg()
	mp := gp.m
	if gp.simnode == 0 || mp.curg != gp || mp.locks != 0 || mp.mallocing != 0 || mp.preemptoff != "" {
		return
	}
	verifst.points++
	if x&7 == 0 && gp.simlocks == 0 && verifst.state[gp.simnode] == verifNormal {
		// its thread gets no CPU for a moment
		verifst.delays++
		timeSleep(int64(x>>8&0xffff) * (1 << (x >> 24 & 7)))
		return
	}
	Gosched()
}

func verifHas(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }
