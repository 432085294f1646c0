package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// fsModel is the reference for the filesystem store: per object, the sequence
// of complete contents it has had.
type fsModel struct {
	w    *World
	root string
	keys map[string]*fsObject
	ops  map[string]*fsSet // by content header
	next int
	open int
}

type fsObject struct {
	vers  []*fsSet
	seen  []time.Time // when each became visible
	acked int         // so many of them are known to be durable
}

type fsSet struct {
	key     string
	head    string
	data    []byte
	node    *Node
	done    bool
	version int // 1 + its place among the versions
}

func fsContent(key string, id, size int) (string, []byte) {
	head := fmt.Sprintf("%s|%d|%d|", key, id, size)
	b := make([]byte, 0, len(head)+size)
	b = append(b, head...)
	r := NewRng(mix64(uint64(id)*31 + uint64(size)))
	for len(b) < len(head)+size {
		b = append(b, byte(r.U64()))
	}
	return head, b
}

func fsHead(b []byte) string {
	n := 0
	for i, c := range b {
		if c == '|' {
			if n++; n == 3 {
				return string(b[:i+1])
			}
		}
		if i > 200 {
			break
		}
	}
	return ""
}

// versionOf says which version of key the content b is (0: none).
func (m *fsModel) versionOf(key string, b []byte) int {
	k := m.keys[key]
	if k == nil {
		return 0
	}
	for i := len(k.vers); i > 0; i-- {
		if bytes.Equal(k.vers[i-1].data, b) {
			return i
		}
	}
	return 0
}

// onVisible is called when an object changes for its readers.
func (m *fsModel) onVisible(node uint32, key string, data []byte) {
	if !objectKey(key) || m.w.o.broken {
		return
	}
	s := m.ops[fsHead(data)]
	switch {
	case s == nil || s.key != key || !bytes.Equal(s.data, data):
		m.w.o.violation("C15", "fs:foreign-content", "%s now has %d bytes that nobody stored under this name", key, len(data))
		m.w.o.broken = true
		return
	case s.done:
		m.w.o.violation("C15", "fs:late", "%s changes after the write that does it had returned", key)
	}
	k := m.keys[key]
	if k == nil {
		k = &fsObject{}
		m.keys[key] = k
	}
	k.vers = append(k.vers, s)
	k.seen = append(k.seen, time.Now())
	s.version = len(k.vers)
	m.w.count("fs-versions")
}

// onDelete is called when an object vanishes for its readers.
func (m *fsModel) onDelete(key string) {
	if objectKey(key) {
		m.w.o.violation("C15", "fs:deleted", "%s was deleted", key)
		m.w.o.broken = true
	}
}

// onPowerLoss compares what is left with what was acknowledged.
func (m *fsModel) onPowerLoss() {
	if m.w.o.broken {
		return
	}
	keys := make([]string, 0, len(m.keys))
	for key := range m.keys {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		k := m.keys[key]
		b, ok := m.w.fs.Peek(m.w.fs.dataDir + "/" + key)
		v := 0
		if ok {
			if v = m.versionOf(key, b); v == 0 {
				m.w.o.violation("C15", "fs:torn-by-power-loss", "after power loss %s has %d bytes that are none of its contents", key, len(b))
				m.w.o.broken = true
				return
			}
		}
		if v < k.acked {
			m.w.o.violation("C15", "fs:lost-by-power-loss", "after power loss %s is back at version %d of %d, version %d was acknowledged", key, v, len(k.vers), k.acked)
			m.w.o.broken = true
			return
		}
		if v < len(k.vers) {
			m.w.count("fs-unacknowledged-lost")
		}
		k.vers, k.seen = k.vers[:v], k.seen[:v]
	}
}

// at says which version of key was current at time t (0: none).
func (k *fsObject) at(t time.Time, before bool) int {
	if k == nil {
		return 0
	}
	v := 0
	for i, s := range k.seen {
		if s.Before(t) || !before && !s.After(t) {
			v = i + 1
		}
	}
	return v
}

// ---- the run

type fsProc struct {
	id   int
	node *Node
	sub  submitStore
	mon  monitorStore
}

func (w *World) runFsStore() {
	c := &w.plan.Cfg
	o := w.o
	o.noHead = true
	m := &fsModel{w: w, root: w.fs.dataDir, keys: map[string]*fsObject{}, ops: map[string]*fsSet{}}
	switch c.PreInit {
	case "new":
		w.fs.dataDir = "/simfs/var/lib/store"
		m.root = w.fs.dataDir
	case "slash":
		m.root += "/"
	}
	w.fsm = m
	var procs []*fsProc
	start := func(p *fsProc) {
		if p.node != nil && !p.node.dead {
			return
		}
		inc := 1
		if p.node != nil {
			inc = p.node.incarn + 1
		}
		n := w.newNode("store", fmt.Sprintf("10.0.0.%d", p.id+1), p.id, inc)
		p.node = n
		w.event("%s %d.%d starts", n.role, p.id, inc)
		ready := make(chan struct{})
		goInfra(func() {
			runtime.VerifSetNode(n.id)
			p.sub = newSubmitStore(m.root)
			p.mon = newMonitorStore(m.root)
			close(ready)
		})
		select {
		case <-ready:
		case <-n.exited:
		}
	}
	for i := 0; i < c.Machines; i++ {
		p := &fsProc{id: i}
		procs = append(procs, p)
		start(p)
	}
	t0 := time.Now()
	steps := append([]Step(nil), w.plan.Steps...)
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].At < steps[j].At })
	for i := range steps {
		s := &steps[i]
		if s.At > c.RunMs {
			break
		}
		time.Sleep(time.Until(t0.Add(w.ms(s.At))))
		w.count("step:" + s.Op)
		if o.broken {
			return
		}
		p := procs[s.A%len(procs)]
		switch s.Op {
		case "fs-set", "fs-get", "fs-exists", "fs-mget":
			start(p)
			m.do(p, s)
		case "power":
			w.powerLoss()
		case "crash":
			w.crash(p.node.id, "step")
		case "pause":
			w.pause(p.node.id, w.ms(s.Dur))
		case "disk-full":
			w.fault("disk-full")
			w.fs.full = true
			goInfra(func() { time.Sleep(w.ms(s.Dur)); w.fs.full = false; w.fault("disk-full-end") })
		}
	}
	time.Sleep(time.Until(t0.Add(w.ms(c.RunMs))))
	w.heal()
	time.Sleep(100 * time.Second) // stalls last no longer
	for i := 0; i < 50 && m.open > 0 && !o.broken; i++ {
		time.Sleep(time.Second)
	}
	if m.open > 0 && !o.broken {
		o.violation("C15", "fs:hangs", "%d operations never return", m.open)
	}
	// every object can still be read and replaced, and survives
	var keys []string
	for key := range m.keys {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for round := 0; round < 2; round++ {
		for _, p := range procs {
			start(p)
		}
		for i, key := range keys {
			m.do(procs[i%len(procs)], &Step{Op: "fs-get", S: key})
			m.do(procs[i%len(procs)], &Step{Op: "fs-mget", S: key})
			m.do(procs[i%len(procs)], &Step{Op: "fs-set", S: key, B: 100 * i})
			time.Sleep(time.Second)
			m.do(procs[i%len(procs)], &Step{Op: "fs-get", S: key})
		}
		time.Sleep(5 * time.Second)
		if o.broken {
			return
		}
		w.powerLoss()
	}
}

// do starts one operation in a process and judges its outcome.
func (m *fsModel) do(p *fsProc, s *Step) {
	w := m.w
	n := p.node
	key := s.S
	goInfra(func() {
		if n.dead {
			return
		}
		m.open++
		defer func() { m.open-- }()
		begin := time.Now()
		clear := !w.fs.full && w.lastFlt.Before(begin)
		var set *fsSet
		if s.Op == "fs-set" {
			m.next++
			set = &fsSet{key: key, node: n}
			set.head, set.data = fsContent(key, m.next, s.B)
			m.ops[set.head] = set
		}
		var data []byte
		var err error
		var found, notfound bool
		fin := make(chan struct{})
		goInfra(func() {
			runtime.VerifSetNode(n.id)
			switch s.Op {
			case "fs-set":
				err = p.sub.Set(bg, key, set.data)
			case "fs-get":
				data, err = p.sub.Get(bg, key)
			case "fs-mget":
				if p.mon == nil {
					data, err = p.sub.Get(bg, key)
					break
				}
				data, notfound, err = p.mon.Get(bg, key)
			case "fs-exists":
				found, err = p.sub.Exists(bg, key)
			}
			close(fin)
		})
		select {
		case <-fin:
		case <-n.exited:
			select {
			case <-fin:
			default:
				if set != nil {
					set.done = true
				}
				w.count("fs-interrupted")
				return
			}
		}
		if n.dead || w.o.broken {
			return
		}
		end := time.Now()
		clear = clear && !w.fs.full && w.lastFlt.Before(begin)
		k := m.keys[key]
		lo, hi := k.at(begin, true), k.at(end, false)
		w.event("store %d.%d: %s %s: %v (%d bytes, versions %d-%d)", p.id, n.incarn, s.Op, key, errClass(err), len(data), lo, hi)
		switch s.Op {
		case "fs-set":
			w.count("fs-sets")
			set.done = true
			if err == nil {
				if set.version == 0 {
					w.o.violation("C15", "fs:not-written", "a write of %s was acknowledged, but no reader can have seen it", key)
					return
				}
				if k.acked < set.version {
					k.acked = set.version
				}
				if !bytes.Equal(k.vers[set.version-1].data, set.data) {
					w.o.violation("C15", "fs:not-written", "a write of %s was acknowledged, but is not what was stored", key)
				}
			} else if clear {
				w.o.violation("C15", "fs:set-fails", "with nothing wrong, a write of %s fails: %s", key, errClass(err))
			}
		case "fs-get", "fs-mget":
			w.count("fs-gets")
			if err == nil {
				v := m.versionOf(key, data)
				if v == 0 {
					w.o.violation("C15", "fs:torn-read", "a read of %s returned %d bytes that were never its content", key, len(data))
				} else if v < lo || v > hi {
					w.o.violation("C15", "fs:stale-read", "a read of %s returned version %d, but only %d to %d were current", key, v, lo, hi)
				}
				return
			}
			if clear && lo > 0 {
				w.o.violation("C15", "fs:get-fails", "with nothing wrong, a read of %s fails: %s", key, errClass(err))
			}
			if s.Op == "fs-mget" && notfound && lo > 0 {
				w.o.violation("C15 C17", "fs:false-absence", "a read of %s reported that it does not exist", key)
			}
			if s.Op == "fs-mget" && p.mon != nil && clear && !notfound && hi == 0 {
				w.o.violation("C15 C17", "fs:missing-absence", "a read of %s, which does not exist, did not say so", key)
			}
		case "fs-exists":
			w.count("fs-gets")
			if err != nil {
				if clear {
					w.o.violation("C15", "fs:exists-fails", "with nothing wrong, looking for %s fails: %s", key, errClass(err))
				}
			} else if found && hi == 0 || !found && lo > 0 {
				w.o.violation("C15", "fs:wrong-existence", "looking for %s said %v", key, found)
			}
		}
	})
}

// errClass leaves random file names out.
func errClass(err error) string {
	if err == nil {
		return "ok"
	}
	s := err.Error()
	if i := strings.Index(s, ".tmp-"); i >= 0 {
		j := i + 5
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		s = s[:i+5] + "#" + s[j:]
	}
	return clip(s, 160)
}

// ---- plans

func (g *gen) fsstore() {
	r := g.r
	c := &g.p.Cfg
	c.Kind = "fsstore"
	c.FS = true
	c.FsUs = r.PickInt(0, 100, 2000, 20000)
	c.Machines = r.PickInt(1, 1, 2, 3)
	c.RunMs = r.Range(500, 5000)
	c.PreInit = r.Pick("", "", "new", "slash")
	var keys []string
	for k := r.Range(1, 6); k > 0; k-- {
		x := r.Intn(300)
		keys = append(keys, r.Pick("ct/v1/get-sth", "checkpoint", "ct/v1/get-roots", fmt.Sprintf("tile/data/%03d", x), fmt.Sprintf("tile/data/x001/%03d.p/%d", x, 1+x%255),
			fmt.Sprintf("tile/0/%03d.p/%d", x, 1+x%255), fmt.Sprintf("tile/1/%03d", x), "int/hashes/"+strconv.FormatInt(int64(16+x%200), 16)+"/ab/c", "int/dedupe/"+strconv.FormatInt(int64(16+x%200), 16),
			fmt.Sprintf("issuer/%064x", x)))
	}
	at := 0
	for k := r.Range(10, 80); k > 0; k-- {
		s := Step{At: at, Op: r.Pick("fs-set", "fs-set", "fs-set", "fs-get", "fs-get", "fs-mget", "fs-exists"), S: r.Pick(keys...), A: r.Intn(6)}
		if s.Op == "fs-set" {
			s.B = r.PickInt(0, 1, 10, 200, 5000, 70000, r.Intn(300000))
		}
		g.add(s)
		if r.Chance(1, 2) {
			at += r.PickInt(1, 1, 5, 50, 300)
		}
		if at > c.RunMs {
			at = r.Intn(c.RunMs)
		}
	}
	for k := r.Range(0, 5); k > 0; k-- {
		f := Fault{Role: "store", On: r.Pick("fs-openw", "fs-write", "fs-write", "fs-rename", "fs-fsync", "fs-close", "fs-mkdir", "fs-open", "fs-read", "fs-stat", "fs-unlink", "fs-write") + ":*",
			Act: r.Pick("err", "err", "enospc", "short", "crash", "crash-after", "crash-mid", "power", "power-after", "power-mid", "stall"),
			Nth: r.PickInt(1, 1, 2, 3, 5, 10, 20), Count: r.PickInt(1, 1, 2, 5), Status: r.PickInt(5, 28), Dur: r.PickInt(10, 500, 5000), Sticky: r.Chance(1, 4)}
		g.p.Faults = append(g.p.Faults, f)
	}
	for k := r.Intn(4); k > 0; k-- {
		g.add(Step{At: g.at(), Op: r.Pick("power", "power", "crash", "disk-full", "pause"), A: r.Intn(6), Dur: r.PickInt(5, 100, 1000)})
	}
}
