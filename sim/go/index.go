package main

import (
	"context"
	"encoding/hex"
	"fmt"
	"runtime"
	"sort"
	"time"
)

// Profile index: the index of leaf hashes and the duplicate index by
// themselves, written by one process and read by it and a monitor, with keys
// chosen to share prefixes of any length (which hashes of certificates only do
// by accident), against a map.

type indexStore interface {
	PutHashes(ctx context.Context, h [][16]byte, index []uint64) error
	PutDedupe(ctx context.Context, h [][16]byte, index []uint64, ts []int64) error
	GetDedupe(ctx context.Context, h [16]byte) (uint64, int64, error)
}

type ixVal struct {
	index uint64
	ts    int64
	acked time.Time // zero: may or may not be stored
}

type ixModel struct {
	w      *World
	node   *Node
	st     indexStore
	mon    *Node
	lookup func(context.Context, []byte) (int64, bool, error)
	vals   [2]map[[16]byte][]*ixVal // hashes, duplicates
	order  [2][][16]byte
	rng    *Rng
	open   int
	inc    int
	busy   bool
	next   uint64
}

func (m *ixModel) start() {
	w := m.w
	if m.node != nil && !m.node.dead {
		return
	}
	m.inc++
	n := w.newNode("store", "10.0.0.1", 0, m.inc)
	m.node = n
	w.event("store %d starts", m.inc)
	root, url := "", "http://"+s3Addr
	if w.plan.Cfg.FS {
		root, url = w.fs.dataDir, ""
	}
	ready := make(chan struct{})
	goInfra(func() {
		runtime.VerifSetNode(n.id)
		m.st = newIndexStore(root, url, w.plan.Cfg.Mask)
		close(ready)
	})
	select {
	case <-ready:
	case <-n.exited:
	}
}

// hash draws a key: new, or sharing a prefix with a known one.
func (m *ixModel) hash(r *Rng, kind int) [16]byte {
	var h [16]byte
	copy(h[:], r.Bytes(16))
	known := m.order[r.Intn(2)]
	if r.Chance(1, 2) {
		known = m.order[kind]
	}
	if len(known) > 0 {
		o := known[r.Intn(len(known))]
		switch r.Intn(6) {
		case 0, 1:
			k := r.Range(1, 15)
			copy(h[:k], o[:k])
		case 2: // next to it
			h = o
			i := r.Range(1, 15)
			h[i] += byte(r.PickInt(1, 255, 128))
		case 3:
			h = o
			h[15] ^= byte(1 << r.Intn(8))
		case 4:
			copy(h[8:], o[8:])
		}
	}
	return h
}

func (m *ixModel) runIndex() {
	w := m.w
	c := &w.plan.Cfg
	w.o.noHead = true
	m.vals = [2]map[[16]byte][]*ixVal{{}, {}}
	m.rng = w.rng.Fork("index")
	m.next = c.InitSize
	m.mon = w.newNode("monitor", monHost, -1, 1)
	root, url := "", "http://"+s3Addr+"/"+s3Bucket+"/"
	if c.FS {
		root, url = w.fs.dataDir, ""
	}
	m.lookup = newIndexLookup(root, url, c.Mask)
	m.start()
	t0 := time.Now()
	steps := append([]Step(nil), w.plan.Steps...)
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].At < steps[j].At })
	for i := range steps {
		s := &steps[i]
		time.Sleep(time.Until(t0.Add(w.ms(s.At))))
		w.count("step:" + s.Op)
		if w.o.broken {
			return
		}
		switch s.Op {
		case "ix-put":
			for k := 0; m.busy && k < 1000; k++ { // one batch at a time
				time.Sleep(100 * time.Millisecond)
			}
			m.start()
			m.put(s)
		case "ix-get":
			m.get(s.A, s.C, false)
		case "power":
			w.powerLoss()
			time.Sleep(time.Second)
		case "crash":
			w.crash(m.node.id, "step")
			time.Sleep(time.Second)
		case "pause":
			w.pause(m.node.id, w.ms(s.Dur))
		case "s3-down":
			w.fault("s3-down")
			w.s3.down = true
			w.until(w.ms(s.Dur))
			goInfra(func() { time.Sleep(w.ms(s.Dur)); w.s3.down = false; w.fault("s3-down-end") })
		case "disk-full":
			w.fault("disk-full")
			w.fs.full = true
			goInfra(func() { time.Sleep(w.ms(s.Dur)); w.fs.full = false; w.fault("disk-full-end") })
		}
	}
	w.heal()
	time.Sleep(100 * time.Second)
	for i := 0; i < 100 && m.open > 0 && !w.o.broken; i++ {
		time.Sleep(time.Second)
	}
	for round := 0; round < 2 && !w.o.broken; round++ {
		m.start()
		m.put(&Step{A: 2, B: 3})
		time.Sleep(20 * time.Second)
		for kind := 0; kind < 2; kind++ {
			n := len(m.order[kind])
			for i, k := 0, 0; i < n && k < 300; i, k = i+1+n/300, k+1 {
				m.get(kind, i<<2, true)
				if k%10 == 9 {
					time.Sleep(5 * time.Second)
				}
			}
			for i := 0; i < 20; i++ {
				m.get(kind, i<<2|3, true)
			}
			time.Sleep(20 * time.Second)
		}
		if c.FS {
			w.powerLoss()
		} else {
			w.crash(m.node.id, "end")
		}
		time.Sleep(time.Second)
	}
}

// put stores a batch: A 0 hashes, 1 duplicates, 2 both; B entries.
func (m *ixModel) put(s *Step) {
	w := m.w
	r := m.rng.Fork(fmt.Sprintf("put %d %d", s.C, len(m.order[0])+len(m.order[1])))
	n, st := m.node, m.st
	var h [2][][16]byte
	var index [2][]uint64
	var ts []int64
	var vals []*ixVal
	for kind := 0; kind < 2; kind++ {
		if s.A != 2 && s.A != kind {
			continue
		}
		for i := 0; i < s.B; i++ {
			x := m.hash(r, kind)
			if old := m.vals[kind][x]; old != nil && (kind == 0 || len(old) > 3) {
				continue // no two leaves have the same hash
			}
			if kind == 1 && len(m.order[1]) > 0 && r.Chance(1, 20) { // logged twice
				x = m.order[1][r.Intn(len(m.order[1]))]
			}
			v := &ixVal{index: m.next, ts: 1700000000000 + int64(r.Intn(1<<40))}
			m.next++
			if m.vals[kind][x] == nil {
				m.order[kind] = append(m.order[kind], x)
			}
			m.vals[kind][x] = append(m.vals[kind][x], v)
			h[kind] = append(h[kind], x)
			index[kind] = append(index[kind], v.index)
			if kind == 1 {
				ts = append(ts, v.ts)
			}
			vals = append(vals, v)
		}
	}
	m.open++
	m.busy = true
	begin := time.Now()
	goInfra(func() {
		defer func() { m.open--; m.busy = false }()
		var err error
		fin := make(chan struct{})
		goInfra(func() {
			runtime.VerifSetNode(n.id)
			if len(h[0]) > 0 {
				err = st.PutHashes(bg, h[0], index[0])
			}
			if err == nil && len(h[1]) > 0 {
				err = st.PutDedupe(bg, h[1], index[1], ts)
			}
			close(fin)
		})
		select {
		case <-fin:
		case <-n.exited:
			select {
			case <-fin:
			default:
				w.count("ix-put-interrupted")
				return
			}
		}
		if n.dead {
			return
		}
		w.event("batch of %d+%d: %s", len(h[0]), len(h[1]), errClass(err))
		w.count("ix-puts")
		if err != nil {
			w.count("ix-put-failed")
			if m.clear(begin) {
				w.o.violation("C05 C17", "index:put-fails", "with nothing wrong, a batch of the indexes fails: %s", errClass(err))
			}
			n.explained = "failed"
			w.kill(n, "a batch failed", 1)
			return
		}
		for _, v := range vals {
			v.acked = time.Now()
		}
	})
	if s.Op == "" {
		for k := 0; m.busy && k < 600; k++ {
			time.Sleep(100 * time.Millisecond)
		}
	}
}

func (m *ixModel) clear(begin time.Time) bool {
	w := m.w
	return !w.fs.full && !w.s3.down && w.lastFlt.Before(begin) && w.fltUntil.Before(begin)
}

// get looks one up; c&3 == 3: one that is not there.
func (m *ixModel) get(kind, c int, must bool) {
	w := m.w
	kind &= 1
	r := m.rng.Fork(fmt.Sprintf("get %d %d", c, len(m.order[kind])))
	var h [16]byte
	if c&3 == 3 || len(m.order[kind]) == 0 {
		h = m.hash(r, kind)
	} else {
		h = m.order[kind][(c>>2)%len(m.order[kind])]
	}
	n, st := m.node, m.st
	if kind == 0 {
		n = m.mon
	}
	if n.dead || st == nil {
		return
	}
	m.open++
	begin := time.Now()
	goInfra(func() {
		defer func() { m.open-- }()
		var index uint64
		var ts int64
		var notfound bool
		var err error
		fin := make(chan struct{})
		goInfra(func() {
			runtime.VerifSetNode(n.id)
			if kind == 0 {
				var i int64
				i, notfound, err = m.lookup(bg, h[:])
				index = uint64(i)
			} else {
				index, ts, err = st.GetDedupe(bg, h)
			}
			close(fin)
		})
		select {
		case <-fin:
		case <-n.exited:
			return
		}
		if n.dead || w.o.broken {
			return
		}
		clear := m.clear(begin)
		what, prop := "leaf hash", "C17"
		if kind == 1 {
			what, prop = "duplicate", "C05"
		}
		known, current := false, false // may be, must be there
		match := false
		for _, v := range m.vals[kind][h] {
			known = true
			if !v.acked.IsZero() && v.acked.Before(begin) {
				current = true
			}
			if err == nil && v.index == index && (kind == 0 || v.ts == ts) {
				match = true
			}
		}
		w.count("ix-gets")
		w.event("look for %s %x: %d %d %v %s", what, h, index, ts, notfound, errClass(err))
		hs := hex.EncodeToString(h[:])
		switch {
		case err == nil && !known:
			w.o.violation(prop, "index:false-hit", "looking for %s %s, which is in no batch, found index %d", what, hs, index)
		case err == nil && !match:
			w.o.violation(prop, "index:wrong", "looking for %s %s found index %d time %d, which was never stored for it", what, hs, index, ts)
		case err != nil && current && clear:
			w.o.violation(prop, "index:lost", "%s %s was stored and is not found: %s", what, hs, errClass(err))
		case kind == 0 && notfound && current:
			w.o.violation(prop, "index:false-absence", "%s %s was stored and is reported as absent", what, hs)
		case kind == 0 && err != nil && !known && clear && !notfound:
			w.o.violation(prop, "index:missing-absence", "%s %s is in no batch, and is not reported as absent: %s", what, hs, errClass(err))
		}
		if current && err == nil {
			w.count("ix-found")
		}
	})
}

func (g *gen) index() {
	r := g.r
	c := &g.p.Cfg
	c.Kind = "index"
	c.Mask = r.PickInt(1, 1, 2, 3, 4, 5, 6, 8)
	c.FS = r.Chance(1, 3)
	c.FsUs = r.PickInt(0, 100, 2000)
	c.InitSize = uint64(r.PickInt(0, 250, 65000, 1<<24-100, 1<<32-200, 1<<39, 1<<40-20000))
	c.RunMs = r.Range(2000, 20000)
	at := 0
	for k := r.Range(3, 25); k > 0; k-- {
		g.add(Step{At: at, Op: "ix-put", A: r.PickInt(0, 1, 2, 2), B: r.PickInt(1, 2, 5, 20, 60, 120), C: k})
		at += r.PickInt(1, 20, 300, 1000)
	}
	c.RunMs = max(c.RunMs, at+2000)
	for k := r.Range(20, 120); k > 0; k-- {
		g.add(Step{At: g.at(), Op: "ix-get", A: r.Intn(2), C: r.Intn(1 << 20)})
	}
	for k := r.Range(0, 4); k > 0; k-- {
		var f Fault
		if c.FS {
			f = Fault{On: r.Pick("fs-openw", "fs-write", "fs-write", "fs-rename", "fs-fsync", "fs-close", "fs-mkdir", "fs-open", "fs-read") + ":" + r.Pick("hashes", "dedupe", "*"),
				Act: r.Pick("err", "err", "enospc", "short", "crash", "crash-after", "crash-mid", "power", "power-after", "power-mid", "stall"), Status: r.PickInt(5, 28)}
		} else {
			f = Fault{On: r.Pick("put:hashes", "put:dedupe", "get:hashes", "get:dedupe", "get:dedupe"),
				Act: r.Pick("err", "err", "err-after", "reset", "reset-after", "stall", "stall-after", "crash", "crash-after"), Status: g.status()}
			if f.On[:3] == "get" {
				f.Act = r.Pick("err", "err", "trunc", "stall", "reset", "crash")
			}
		}
		f.Role = r.Pick("store", "store", "store", "monitor")
		if f.Role == "monitor" {
			if f.On = "get:hashes"; c.FS {
				f.On = r.Pick("fs-open:*", "fs-read:*")
			}
			f.Act = r.Pick("err", "stall")
		}
		f.Nth, f.Count, f.Dur, f.Sticky = r.PickInt(1, 1, 2, 5, 20, 100), r.PickInt(1, 1, 2, 5), r.PickInt(10, 500, 5000), r.Chance(1, 4)
		g.p.Faults = append(g.p.Faults, f)
	}
	for k := r.Intn(4); k > 0; k-- {
		s := Step{At: g.at(), Op: r.Pick("crash", "pause", "s3-down"), Dur: r.PickInt(5, 100, 1000)}
		if c.FS {
			s.Op = r.Pick("power", "power", "crash", "disk-full", "pause")
		}
		g.add(s)
	}
}
