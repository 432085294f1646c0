package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net"
	"os"
	"runtime"
	"strconv"
	"syscall"
	"time"
	"unsafe"

	"itko.dev/internal/ctsubmit"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim run < plan.json | sim gen PROFILE SEED START COUNT OUTDIR")
		os.Exit(2)
	}
	if os.Getenv("VERIF_SIM_CHILD") == "" {
		reexec()
	}
	switch os.Args[1] {
	case "run":
		if os.Args[2][0] == 't' {
			traceFd = 2
		}
		if os.Args[2][1] == 'v' {
			verboseFd = 2
		}
		raw := readStdin()
		var p Plan
		if err := json.Unmarshal(raw, &p); err != nil {
			fmt.Fprintln(os.Stderr, "bad plan:", err)
			os.Exit(2)
		}
		startCPUTimer()
		finish(runPlan(&p))
	case "gen":
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		start, _ := strconv.Atoi(os.Args[4])
		count, _ := strconv.Atoi(os.Args[5])
		for i := start; i < start+count; i++ {
			b, _ := json.Marshal(genPlan(os.Args[2], seed, i))
			if err := os.WriteFile(fmt.Sprintf("%s/%06d.json", os.Args[6], i), b, 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
		}
	default:
		os.Exit(2)
	}
}

// reexec starts the program over with an environment and arguments of fixed
// size: they take part in where things are in memory, and so in the iteration
// order of maps keyed by pointers.
func reexec() {
	args := []string{"sim"}
	if os.Args[1] == "run" {
		mode := []byte("--")
		for _, a := range os.Args[2:] {
			switch a {
			case "-trace":
				mode[0] = 't'
			case "-v":
				mode[1] = 'v'
			}
		}
		args = append(args, "run", string(mode))
	} else {
		args = append(args, os.Args[1:]...)
	}
	env := []string{"GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1", "TZ=UTC", "VERIF_SIM_CHILD=1"}
	err := syscall.Exec("/proc/self/exe", args, env)
	fmt.Fprintln(os.Stderr, "exec:", err)
	os.Exit(2)
}

var stdinBuf [8 << 20]byte

func readStdin() []byte {
	n := 0
	for {
		k, err := syscall.Read(0, stdinBuf[n:])
		if err == syscall.EINTR {
			continue
		}
		if k <= 0 || err != nil {
			return stdinBuf[:n]
		}
		n += k
	}
}

func finish(r *Result) {
	out, _ := json.Marshal(r)
	rawWrite(1, append(out, '\n'))
	if r.OK {
		os.Exit(0)
	}
	os.Exit(1)
}

// startCPUTimer makes the runtime look every half second of CPU time whether
// a simulated process computes without end.
func startCPUTimer() {
	tv := [4]int64{0, 500000, 0, 500000}
	const itimerVirtual = 1
	syscall.RawSyscall(syscall.SYS_SETITIMER, itimerVirtual, uintptr(unsafe.Pointer(&tv)), 0)
}

// spinWatch ends the run when a simulated process was found spinning.
func (w *World) spinWatch() {
	for {
		time.Sleep(time.Second)
		id, what := runtime.VerifSpun()
		if id == 0 {
			continue
		}
		props := map[string]string{"monitor": "C14", "submit": "C08 C13", "setup": "C16"}[w.roleOf(id)]
		w.event("%s computes without end", w.name(id))
		w.notes = append(w.notes, "spinning in "+what)
		w.o.violation(props, "spin:"+w.roleOf(id), "%s computes without end", w.name(id))
		finish(w.result())
	}
}

const maxSteps = 200_000_000

func runPlan(p *Plan) *Result {
	runtime.VerifInit(p.Seed, p.Sched.Seed, p.Sched.Mode, p.Sched.Yield, p.Sched.Change, p.Sched.Preempt, maxSteps)
	runtime.VerifPoints(p.Sched.Point)
	w := &World{plan: p, rng: NewRng(p.Seed).Fork("world"), start: time.Now(), nodes: map[uint32]*Node{},
		sticky: map[string]*Fault{}, counts: map[string]int{}}
	theWorld = w
	install()
	c := &p.Cfg
	w.net = NewNet(w, mix64(p.Seed+11), time.Duration(c.NetUs)*time.Microsecond, time.Duration(c.NetJitUs)*time.Microsecond)
	net.VerifDial = w.net.Dial
	w.fs = NewSimFS(w, mix64(p.Seed+12))
	w.fs.LatUs = c.FsUs
	w.s3 = NewS3(w, s3Addr, s3Bucket, mix64(p.Seed+13))
	w.s3.Latency = time.Duration(c.S3Us) * time.Microsecond
	w.s3.Jitter = time.Duration(c.S3JitUs) * time.Microsecond
	w.pki = NewPKI(p.Seed)
	w.logKey = newDetKey(p.Seed, "log")
	w.o = NewOracle(w, newLogKey(&w.logKey.k.PublicKey, logName))
	w.consul = NewConsul(w, mix64(p.Seed+14))
	for i := range p.Faults {
		w.faults = append(w.faults, &faultState{Fault: p.Faults[i]})
	}
	w.fs.onTorn = func(node uint32, key string, size int) {
		asInfra(func() {
			w.o.violation("C15", "torn-visible:"+classOf(key), "a reader can see %s with %d bytes while it is being written", key, size)
		})
	}
	w.fs.onOp = w.fsObserve
	der, err := x509.MarshalECPrivateKey(w.logKey.k)
	if err != nil {
		panic(err)
	}
	w.fs.Install("/simfs/etc/key.pem", pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: der}))
	w.fs.Install("/simfs/etc/roots.pem", w.pki.RootsPEM())
	w.fs.Install("/simfs/data/.keep", nil)

	go w.spinWatch()
	switch c.Kind {
	case "log", "setup", "edge":
		w.runLog()
	case "fsstore":
		w.runFsStore()
	case "index":
		(&ixModel{w: w}).runIndex()
	default:
		panic("unknown kind " + c.Kind)
	}
	return w.result()
}

func (w *World) result() *Result {
	steps, hash, _, picks, pre := runtime.VerifStats()
	w.counts["preemptions"] = int(pre)
	points, delays := runtime.VerifPointStats()
	w.counts["switches-between-statements"], w.counts["delays-between-statements"] = int(points), int(delays)
	p := w.plan
	r := &Result{OK: len(w.o.viol) == 0, Profile: p.Profile, Seed: p.Seed, Violations: w.o.viol, SimMs: int64(w.now() / time.Millisecond),
		Steps: steps, Picks: picks, Hash: fmt.Sprintf("%016x", hash), Trace: fmt.Sprintf("%016x", w.evHash), Counts: w.counts, Notes: w.notes}
	if !r.OK {
		r.Events = w.events
		if len(r.Events) > 4000 {
			r.Events = append(append([]string(nil), r.Events[:1000]...), r.Events[len(r.Events)-3000:]...)
		}
	}
	return r
}

// fsObserve learns from the order of file operations what a writer knows to be stored.
func (w *World) fsObserve(node uint32, op, path string) {
	if op == "fs-openw" && w.roleOf(node) == "submit" && w.fs.fclass(path) == "checkpoint" {
		w.o.ack()
	}
}

func (w *World) config() ctsubmit.GlobalConfig {
	c := &w.plan.Cfg
	gc := ctsubmit.GlobalConfig{Name: logName, KeyPath: "/simfs/etc/key.pem", LogID: base64.StdEncoding.EncodeToString(w.o.key.id[:]),
		ListenAddress: ":80", MaskSize: c.Mask, NotAfterStart: w.pki.start.Format(time.RFC3339), NotAfterLimit: w.pki.limit.Format(time.RFC3339), FlushMs: c.FlushMs}
	if c.FS {
		gc.RootDirectory = w.fs.dataDir
	} else {
		gc.S3Bucket, gc.S3Region, gc.S3EndpointUrl = s3Bucket, "us-east-1", "http://"+s3Addr
		gc.S3StaticCredentialUserName, gc.S3StaticCredentialPassword = "user", "password"
	}
	return gc
}

func (w *World) rootsJSON() []byte {
	var res struct {
		Certificates [][]byte `json:"certificates"`
	}
	for _, r := range w.pki.roots {
		res.Certificates = append(res.Certificates, r.cert.Raw)
	}
	b, _ := json.Marshal(res)
	return b
}

func (w *World) put(key string, data []byte) {
	if w.plan.Cfg.FS {
		w.fs.Install(w.fs.dataDir+"/"+key, data)
	} else {
		w.s3.objs[key] = data
	}
}

func (w *World) sign(msg []byte) []byte {
	h := sha256.Sum256(msg)
	sig, err := w.logKey.Sign(nil, h[:], nil)
	if err != nil {
		panic(err)
	}
	return append([]byte{4, 3, byte(len(sig) >> 8), byte(len(sig))}, sig...)
}

// installLog puts a log of the given size in place, as earlier runs of the
// software would have left it. All but the last data tile is opaque.
func (w *World) installLog(size uint64) {
	o := w.o
	c := &w.plan.Cfg
	base := (size - 1) &^ 255
	base -= min(base, 256*uint64(c.InitReal))
	o.tree = NewRefTree(w.plan.Seed, base)
	age := max(60, uint64(c.InitAgeS)) * 1000
	ts := uint64(time.Now().UnixMilli()) - age
	gap := uint64(10)
	if w.rng.Chance(1, 2) && c.InitReal > 0 {
		gap = age / 2 / (size - base)
	}
	hashes, dedupe := map[string][]byte{}, map[string][]byte{}
	var data []byte
	issuers := map[string]bool{}
	path := func(h []byte) string {
		s := hex.EncodeToString(h)[:w.plan.Cfg.Mask]
		out := ""
		for i := 0; i < len(s); i += 2 {
			if i > 0 {
				out += "/"
			}
			out += s[i:min(i+2, len(s))]
		}
		return out
	}
	insert := func(m map[string][]byte, h, rest []byte) {
		p := path(h)
		rec := append(append([]byte(nil), h[:16]...), rest...)
		old := m[p]
		i := 0
		for i < len(old) && bytes.Compare(old[i:i+16], h[:16]) < 0 {
			i += len(rec)
		}
		m[p] = append(append(append([]byte(nil), old[:i]...), rec...), old[i:]...)
	}
	for i := base; i < size; i++ {
		kind := []string{"leaf", "leaf2", "direct", "cross"}[i%4]
		if c.InitBig && size-i <= 100 {
			kind = "big"
		}
		s := w.pki.Get(kind, 500000+int(i-base))
		wt := s.Var[0].Want
		wt.sent = true
		o.subs[s.Fp] = s
		e := &RefEntry{Ts: ts + (i-base)*gap, Cert: wt.Cert, Chain: chainFps(wt.Chain), Index: i}
		e.Raw = encodeTileEntry(e)
		data = append(data, e.Raw...)
		lh := leafHash(e.Leaf())
		o.tree.Append(lh)
		o.ents = append(o.ents, e)
		o.byLeaf[lh] = append(o.byLeaf[lh], i)
		bk := bodyKey(false, e.IKH, e.Cert)
		o.byBody[bk] = append(o.byBody[bk], i)
		st := o.state(wt, s)
		st.entries, st.allow = append(st.entries, i), 1
		idx := make([]byte, 8)
		binary.LittleEndian.PutUint64(idx, i)
		insert(hashes, lh[:], idx[:5])
		t := make([]byte, 8)
		binary.LittleEndian.PutUint64(t, e.Ts)
		insert(dedupe, s.Fp[:], append(append([]byte(nil), idx[:5]...), t...))
		for _, c := range wt.Chain {
			fp := sha256.Sum256(c)
			if o.tails[hex.EncodeToString(fp[:])] = true; !issuers[string(fp[:])] {
				issuers[string(fp[:])] = true
				w.put(fmt.Sprintf("issuer/%x", fp), c)
			}
		}
		// an answer given back then
		st.answers = append(st.answers, &SCT{Index: i, Ts: e.Ts})
		if i%256 == 255 {
			w.put(lastTileKey(i, size), data)
			data = nil
		}
	}
	for p, b := range hashes {
		w.put("int/hashes/"+p, b)
	}
	for p, b := range dedupe {
		w.put("int/dedupe/"+p, b)
	}
	if len(data) > 0 {
		w.put(lastTileKey(size-1, size), data)
	}
	for L := uint(0); size>>(8*L) > 0; L++ {
		n := size >> (8 * L)
		N := (n - 1) / 256
		for full := base >> (8 * L) / 256; full < N; full++ {
			w.put(tilePath(int(L), full, 256), o.tree.TileBytes(L, full, 256))
		}
		for W := 1; N*256+uint64(W) <= n; W++ {
			if L == 0 && N*256+uint64(W) != n {
				continue
			}
			w.put(tilePath(int(L), N, W), o.tree.TileBytes(L, N, W))
		}
	}
	o.size = size
	root := o.root(size)
	hts := ts + (size-base)*gap + 20000
	sig := w.sign(sthInput(size, hts, root))
	sth, _ := json.Marshal(map[string]any{"tree_size": size, "timestamp": hts, "sha256_root_hash": root[:], "tree_head_signature": sig})
	w.put("ct/v1/get-sth", sth)
	blob := binary.BigEndian.AppendUint32(nil, o.key.hash)
	blob = binary.BigEndian.AppendUint64(blob, hts)
	blob = append(blob, sig...)
	cp := fmt.Sprintf("%s\n%d\n%s\n\n\u2014 %s %s\n", logName, size, base64.StdEncoding.EncodeToString(root[:]), logName, base64.StdEncoding.EncodeToString(blob))
	w.put("checkpoint", []byte(cp))
	w.put("ct/v1/get-roots", w.rootsJSON())
	h, err := o.key.parseSTH(sth)
	if err != nil {
		panic(err)
	}
	if _, err := o.key.parseCheckpoint([]byte(cp)); err != nil {
		panic(err)
	}
	o.sth, o.hasSth, o.cp, o.hasCp = h, true, h, true
	o.acked = size
	o.sthAt = time.Now()
	o.pub, o.pubSet[size] = []uint64{size}, true
	conf, _ := json.Marshal(w.config())
	w.consul.Set(kvPath+"/config", conf)
}
