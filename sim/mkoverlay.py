#!/usr/bin/env python3
"""Generate the compiler overlay that turns the Go standard library's edges
(scheduler, clock, randomness, process exit, sockets, files, signals) into
seams the simulator owns, and that adds the harness as package
itko.dev/verifsim.  Nothing in GOROOT or /repo is modified.

usage: mkoverlay.py GOROOT REPO OUTDIR
"""
import json, os, re, shutil, subprocess, sys

goroot, repo, out = sys.argv[1:4]
here = os.path.dirname(os.path.abspath(__file__))
src = os.path.join(goroot, "src")
gen = os.path.join(out, "std")
os.makedirs(gen, exist_ok=True)
replace = {}


class Patch:
    def __init__(self, rel, base=None):
        self.rel = rel
        self.path = rel if base else os.path.join(src, rel)
        self.text = open(self.path).read()

    def sub(self, old, new, count=1):
        n = self.text.count(old)
        if n != count:
            sys.exit(f"mkoverlay: {self.rel}: expected {count} occurrence(s), found {n}, of:\n{old}")
        self.text = self.text.replace(old, new)
        return self

    def done(self):
        dst = os.path.join(gen, self.rel.strip("/").replace("/", "__"))
        if not os.path.exists(dst) or open(dst).read() != self.text:
            with open(dst, "w") as f:
                f.write(self.text)
        replace[self.path] = dst


def add(rel, source):
    replace[os.path.join(src, rel)] = os.path.join(here, "std", source)


# ---------------------------------------------------------------- runtime
add("runtime/verif_sim.go", "runtime_verif.go")
p = Patch("runtime/runtime2.go")
p.sub("type g struct {\n", "type g struct {\n\t// simnode and simprio are at the end; see below\n")
p.sub("	gcAssistBytes int64\n}", "	gcAssistBytes int64\n\n	simnode uint32\n	simprio uint64\n	simlocks int32\n	simgate bool\n	simtag uint64\n}")
p.done()

p = Patch("runtime/proc.go")
p.sub("	procs := ncpu\n	if n, ok := atoi32(gogetenv(\"GOMAXPROCS\")); ok && n > 0 {\n		procs = n\n	}\n", "	procs := int32(1)\n")
p.sub('const haveSysmon = GOARCH != "wasm"', "const haveSysmon = false")
p.sub("	// If there's a runnext, it's the next G to run.\n	next := pp.runnext\n", "	verifPick(pp)\n	// If there's a runnext, it's the next G to run.\n	next := pp.runnext\n")
p.sub("	// Spinning Ms: steal work from other Ps.\n	//\n	// Limit the number",
      "	verifAdvance()\n	goto top\n\n	// Spinning Ms: steal work from other Ps.\n	//\n	// Limit the number")
p.sub("	// This thread is going to run a goroutine and is not spinning anymore,\n	// so if it was marked as spinning we need to reset it now and potentially\n	// start a new spinning M.\n	if mp.spinning {",
      "	if !verifSchedulable(gp) {\n		goto top\n	}\n\n	// This thread is going to run a goroutine and is not spinning anymore,\n	// so if it was marked as spinning we need to reset it now and potentially\n	// start a new spinning M.\n	if mp.spinning {")
p.sub("	newg.parentGoid = callergp.goid\n",
      "	newg.parentGoid = callergp.goid\n	newg.simnode = callergp.simnode\n	newg.simprio = 0\n	newg.simlocks = 0\n	newg.simgate = false\n	newg.simtag = callergp.simtag\n	verifst.alive[newg.simnode]++\n")
p.sub("func gdestroy(gp *g) {\n	mp := getg().m\n	pp := mp.p.ptr()\n",
      "func gdestroy(gp *g) {\n	mp := getg().m\n	pp := mp.p.ptr()\n	verifst.alive[gp.simnode]--\n")
# variables may not be declared between a goto and its label
t = p.text
a = t.index("func findRunnable() (gp *g")
b = t.index("	verifAdvance()\n	goto top\n", a)
e = t.index("\n}\n", b)
body = t[b:e]
p.text = t[:b] + "	verifAdvance()\n	goto top" + t[e:]
p.text = p.text.replace("now, pollUntil, _ := pp.timers.check(0)", "now, _, _ := pp.timers.check(0)", 1)
p.text = p.text.replace("gp, tnow := gcController.findRunnableGCWorker(pp, now)\n		if gp != nil {\n			return gp, false, true\n		}\n		now = tnow\n", "gp, _ := gcController.findRunnableGCWorker(pp, now)\n		if gp != nil {\n			return gp, false, true\n		}\n", 1)
p.done()

p = Patch("runtime/rand.go")
p.sub("	seed := &globalRand.seed\n	if startupRand != nil {", "	seed := &globalRand.seed\n	startupRand = []byte{1}\n	if startupRand != nil {")
p.done()

p = Patch("runtime/time_fake.go")
p.sub("var faketime int64 = 1257894000000000000", "var faketime int64 = 1750000000000000000")
p.sub("	return faketime / 1e9, int32(faketime % 1e9), faketime\n",
      "	t := faketime\n	if gp := getg(); gp.simnode != 0 {\n		t += verifst.skew[gp.simnode]\n	}\n	return t / 1e9, int32(t % 1e9), faketime\n")
a = p.text.index("	if !(fd == 1 || fd == 2) {")
p.text = p.text[:a] + "	return write1(fd, p, n)\n}\n"
p.done()

p = Patch("runtime/panic.go")
p.sub("	preprintpanics(&p)\n\n	fatalpanic(&p)   // should not return\n", "	verifPanicked(e)\n	preprintpanics(&p)\n\n	fatalpanic(&p)   // should not return\n") if "	preprintpanics(&p)\n\n	fatalpanic(&p)   // should not return\n" in p.text else sys.exit("mkoverlay: gopanic anchor")
p.sub("func fatal(s string) {\n", "func fatal(s string) {\n	if gp := getg(); gp.simnode != 0 && gp.m.curg == gp && VerifOnFatal != nil {\n		VerifOnFatal(gp.simnode, s)\n	}\n")
p.done()

p = Patch("runtime/chan.go")
p.sub("func chansend1(c *hchan, elem unsafe.Pointer) {\n", "func chansend1(c *hchan, elem unsafe.Pointer) {\n	verifYield()\n")
p.sub("func chanrecv1(c *hchan, elem unsafe.Pointer) {\n", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n	verifYield()\n")
p.sub("func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n", "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n	verifYield()\n")
p.done()
for f in ["runtime/chan.go"]:
    dst = os.path.join(gen, f.replace("/", "__"))
    s = open(dst).read()
    for fn in ["chansend1", "chanrecv1", "chanrecv2"]:
        # these wrappers are nosplit; the yield needs stack
        s = s.replace("//\n//go:nosplit\nfunc %s(" % fn, "//\nfunc %s(" % fn).replace("\n//go:nosplit\nfunc %s(" % fn, "\nfunc %s(" % fn)
    open(dst, "w").write(s)

p = Patch("runtime/malloc.go")
p.sub("func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n", "func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n	if verifst.preemptMask != 0 {\n		verifAlloc()\n	}\n")
p.done()

p = Patch("runtime/select.go")
p.sub("	if debugSelect {\n		print(\"select: cas0=\", cas0, \"\\n\")\n	}\n", "	verifYield()\n	if debugSelect {\n		print(\"select: cas0=\", cas0, \"\\n\")\n	}\n")
p.done()

p = Patch("runtime/signal_unix.go")
p.sub("	if sig == _SIGPROF {\n		// Some", "	if sig == _SIGVTALRM {\n		verifTick(gp, c)\n		return\n	}\n\n	if sig == _SIGPROF {\n		// Some")
p.done()

# ---------------------------------------------------------------- time
p = Patch("time/sleep.go")
p.sub("	return (*Timer)(newTimer(when(d), 0, goFunc, f, nil))\n",
      "	if n := runtime.VerifNode(); n != 0 {\n		g := f\n		f = func() {\n			runtime.VerifSetNode(n)\n			runtime.VerifGate()\n			g()\n		}\n	}\n	return (*Timer)(newTimer(when(d), 0, goFunc, f, nil))\n")
if '"runtime"' not in p.text:
    p.sub('import (\n', 'import (\n	"runtime"\n')
p.done()

# ---------------------------------------------------------------- locks
p = Patch("sync/mutex.go")
p.sub("	// Fast path: grab unlocked mutex.\n", "	runtime.VerifLock()\n	// Fast path: grab unlocked mutex.\n")
p.sub("	// Fast path: drop lock bit.\n", "	runtime.VerifUnlock()\n	// Fast path: drop lock bit.\n")
p.sub("	if race.Enabled {\n		race.Acquire(unsafe.Pointer(m))\n	}\n	return true\n", "	if race.Enabled {\n		race.Acquire(unsafe.Pointer(m))\n	}\n	runtime.VerifLocked()\n	return true\n")
p.sub('	"internal/race"\n', '	"internal/race"\n	"runtime"\n')
p.done()

p = Patch("sync/rwmutex.go")
p.sub("func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n	runtime.VerifLock()\n")
p.sub("func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n	runtime.VerifUnlock()\n")
p.sub('	"internal/race"\n', '	"internal/race"\n	"runtime"\n')
p.done()

# ---------------------------------------------------------------- randomness
p = Patch("internal/syscall/unix/getrandom.go")
p.sub("	if getrandomUnsupported.Load() {\n		return 0, syscall.ENOSYS\n	}\n",
      "	runtime.VerifRandBytes(p)\n	if len(p) > 0 {\n		return len(p), nil\n	}\n")
p.sub('import (\n', 'import (\n	"runtime"\n')
p.done()

# ---------------------------------------------------------------- exit
p = Patch("os/proc.go")
p.sub("	runtime_beforeExit(code)\n\n	syscall.Exit(code)\n",
      "	if VerifOnExit != nil {\n		VerifOnExit(code)\n	}\n	runtime_beforeExit(code)\n\n	syscall.Exit(code)\n")
p.text += "\n// VerifOnExit intercepts the exit of a simulated node; it does not return for one.\nvar VerifOnExit func(code int)\n"
p.done()

p = Patch("os/executable_procfs.go")
p.sub("	path, err := Readlink(procfn)\n", "	_ = procfn\n	path, err := \"/sim\", error(nil)\n")
p.done()

p = Patch("os/sys_linux.go")
p.sub("func hostname() (name string, err error) {\n", "func hostname() (name string, err error) {\n	return \"sim\", nil\n")
p.done()

p = Patch("os/exec.go")
p.sub("func Getpid() int { return syscall.Getpid() }", "func Getpid() int { return 4242 }")
p.done()

p = Patch("os/file_unix.go")
p.sub("	pollable := kind == kindOpenFile || kind == kindPipe || kind == kindSock || nonBlocking\n",
      "	pollable := (kind == kindOpenFile || kind == kindPipe || kind == kindSock || nonBlocking) && fd < syscall.VerifFdBase\n")
p.done()

# ---------------------------------------------------------------- network
p = Patch("net/dial.go")
p.sub("	if ctx == nil {\n		panic(\"nil context\")\n	}\n	deadline := d.deadline(ctx, time.Now())\n",
      "	if ctx == nil {\n		panic(\"nil context\")\n	}\n	if VerifDial != nil {\n		return VerifDial(ctx, d, network, address)\n	}\n	deadline := d.deadline(ctx, time.Now())\n")
p.text += "\n// VerifDial is the simulated network.\nvar VerifDial func(ctx context.Context, d *Dialer, network, address string) (Conn, error)\n"
p.done()

# ---------------------------------------------------------------- signals
p = Patch("os/signal/signal.go")
p.sub("		panic(\"os/signal: Notify using nil channel\")\n	}\n",
      "		panic(\"os/signal: Notify using nil channel\")\n	}\n	if VerifNotify != nil {\n		VerifNotify(c, sig...)\n		return\n	}\n")
p.text += "\n// VerifNotify takes over signal delivery.\nvar VerifNotify func(c chan<- os.Signal, sig ...os.Signal)\n"
p.done()

# ---------------------------------------------------------------- files
add("syscall/verif_sim.go", "syscall_verif.go")
p = Patch("syscall/syscall_unix.go")
p.sub("	if faketime && (fd == 1 || fd == 2) {\n		n = faketimeWrite(fd, p)\n		if n < 0 {\n			n, err = 0, errnoErr(Errno(-n))\n		}\n	} else {",
      "	if VerifStdio != nil && (fd == 1 || fd == 2) {\n		n = VerifStdio(fd, p)\n	} else {")
p.done()
p = Patch("syscall/zsyscall_linux_amd64.go")
for sig, cond, call in [
    ("func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {", "verifPath(path)", "return VerifFS.Openat(path, flags, mode)"),
    ("func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {", "verifPath(oldpath) || verifPath(newpath)", "return VerifFS.Renameat(oldpath, newpath)"),
    ("func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error) {", "verifPath(oldpath) || verifPath(newpath)", "return VerifFS.Linkat(oldpath, newpath)"),
    ("func Mkdirat(dirfd int, path string, mode uint32) (err error) {", "verifPath(path)", "return VerifFS.Mkdirat(path, mode)"),
    ("func unlinkat(dirfd int, path string, flags int) (err error) {", "verifPath(path)", "return VerifFS.Unlinkat(path, flags)"),
    ("func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {", "verifPath(path)", "return VerifFS.Fstatat(path, stat, flags)"),
    ("func fchmodat(dirfd int, path string, mode uint32) (err error) {", "verifPath(path)", "return VerifFS.Fchmodat(path, mode)"),
    ("func faccessat(dirfd int, path string, mode uint32) (err error) {", "verifPath(path)", "return VerifFS.Faccessat(path, mode)"),
    ("func Close(fd int) (err error) {", "verifFd(fd)", "return VerifFS.Close(fd)"),
    ("func Fsync(fd int) (err error) {", "verifFd(fd)", "return VerifFS.Fsync(fd)"),
    ("func Fdatasync(fd int) (err error) {", "verifFd(fd)", "return VerifFS.Fsync(fd)"),
    ("func Ftruncate(fd int, length int64) (err error) {", "verifFd(fd)", "return VerifFS.Ftruncate(fd, length)"),
    ("func Fchmod(fd int, mode uint32) (err error) {", "verifFd(fd)", "return nil"),
    ("func Flock(fd int, how int) (err error) {", "verifFd(fd)", "return nil"),
    ("func Fstat(fd int, stat *Stat_t) (err error) {", "verifFd(fd)", "return VerifFS.Fstat(fd, stat)"),
    ("func Seek(fd int, offset int64, whence int) (off int64, err error) {", "verifFd(fd)", "return VerifFS.Seek(fd, offset, whence)"),
    ("func read(fd int, p []byte) (n int, err error) {", "verifFd(fd)", "return VerifFS.Read(fd, p)"),
    ("func write(fd int, p []byte) (n int, err error) {", "verifFd(fd)", "return VerifFS.Write(fd, p)"),
    ("func pread(fd int, p []byte, offset int64) (n int, err error) {", "verifFd(fd)", "return VerifFS.Pread(fd, p, offset)"),
    ("func pwrite(fd int, p []byte, offset int64) (n int, err error) {", "verifFd(fd)", "return VerifFS.Pwrite(fd, p, offset)"),
    ("func Getdents(fd int, buf []byte) (n int, err error) {", "verifFd(fd)", "return VerifFS.Getdents(fd, buf)"),
]:
    p.sub(sig + "\n", sig + "\n\tif " + cond + " {\n\t\t" + call + "\n\t}\n")
p.done()

# ---------------------------------------------------------------- edge SDK
# Files of the module cache cannot be overlaid: build against a copy whose host
# calls lead to the simulator, through a go.mod of our own.
mod = open(os.path.join(repo, "go.mod")).read()
m = re.search(r"github.com/fastly/compute-sdk-go\s+(v\S+)", mod)
if not m:
    sys.exit("mkoverlay: /repo no longer uses the edge SDK")
sdk = os.path.join(os.environ.get("GOMODCACHE") or "/root/go/pkg/mod", "github.com/fastly/compute-sdk-go@" + m.group(1))
dst = os.path.join(out, "edgesdk")
patches = {
    "fsthttp/request.go": [("	if req.sent {\n		return nil, fmt.Errorf(\"request already sent\")\n	}\n\n	if req.abi.req == nil",
                            "	if req.sent {\n		return nil, fmt.Errorf(\"request already sent\")\n	}\n	if VerifSend != nil {\n		req.sent = true\n		return VerifSend(ctx, req, backend)\n	}\n\n	if req.abi.req == nil"),
                           ("// NewRequest constructs", "// VerifSend replaces the host call.\nvar VerifSend func(ctx context.Context, req *Request, backend string) (*Response, error)\n\n// NewRequest constructs")],
    "cache/simple/simple.go": [("	tx, err := core.NewTransaction(key, core.LookupOptions{})\n", "	if VerifGetOrSet != nil {\n		return VerifGetOrSet(key, setFn)\n	}\n	tx, err := core.NewTransaction(key, core.LookupOptions{})\n"),
                               ("// GetOrSetEntry retrieves", "// VerifGetOrSet replaces the host call.\nvar VerifGetOrSet func(key []byte, setFn func() (CacheEntry, error)) (io.ReadCloser, error)\n\n// GetOrSetEntry retrieves")],
    "configstore/configstore.go": [("	abiDict *fastly.ConfigStore\n", "	abiDict *fastly.ConfigStore\n	name    string\n"),
                                   ("	d, err := fastly.OpenConfigStore(name)\n", "	if VerifOpen != nil {\n		if err := VerifOpen(name); err != nil {\n			return nil, err\n		}\n		return &Store{name: name}, nil\n	}\n	d, err := fastly.OpenConfigStore(name)\n"),
                                   ("	return &Store{d}, nil\n", "	return &Store{abiDict: d}, nil\n"),
                                   ("	v, err := s.abiDict.Has(key)\n", "	if VerifGet != nil {\n		_, err := VerifGet(s.name, key)\n		return err == nil, nil\n	}\n	v, err := s.abiDict.Has(key)\n"),
                                   ("	v, err := s.abiDict.GetBytes(key)\n", "	if VerifGet != nil {\n		return VerifGet(s.name, key)\n	}\n	v, err := s.abiDict.GetBytes(key)\n"),
                                   ("// Open returns", "// VerifOpen and VerifGet replace the host calls.\nvar (\n	VerifOpen func(name string) error\n	VerifGet  func(name, key string) ([]byte, error)\n)\n\n// Open returns")],
}
for d, subdirs, files in os.walk(sdk):
    rel = os.path.relpath(d, sdk)
    subdirs[:] = [s for s in subdirs if s not in ("_examples", "integration_tests", "testdata")]
    for f in files:
        if (f.endswith(".go") and not f.endswith("_test.go")) or f in ("go.mod", "go.sum"):
            text = open(os.path.join(d, f)).read()
            r = os.path.normpath(os.path.join(rel, f))
            for old, new in patches.pop(r, []):
                if text.count(old) < 1:
                    sys.exit(f"mkoverlay: {r}: anchor not found:\n{old}")
                text = text.replace(old, new, 1)
            t = os.path.join(dst, rel, f)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            if not os.path.exists(t) or open(t).read() != text:
                open(t, "w").write(text)
if patches:
    sys.exit("mkoverlay: edge SDK files not found: %s" % list(patches))
with open(os.path.join(out, "go.mod"), "w") as f:
    f.write(mod + "\nreplace github.com/fastly/compute-sdk-go => " + dst + "\n")
shutil.copyfile(os.path.join(repo, "go.sum"), os.path.join(out, "go.sum"))

# ---------------------------------------------------------------- harness
hdir = os.environ.get("VERIF_HDIR") or os.path.join(here, "go")
for f in sorted(os.listdir(hdir)):
    if f.endswith(".go"):
        replace[os.path.join(repo, "verifsim", f)] = os.path.join(hdir, f)

for pkg in ("ctsubmit", "ctmonitor"):
    replace[os.path.join(repo, "internal", pkg, "verif_units.go")] = os.path.join(here, "inpkg", pkg + "_verif.go")

# ---------------------------------------------------------------- statements
# itko's own packages, with a point between any two statements at which the
# scheduler may switch
if not os.environ.get("VERIF_NOINSTR"):
    instr = os.path.join(out, "instr")
    r = subprocess.run([os.path.join(goroot, "bin", "go"), "build", "-o", instr, os.path.join(here, "instr", "main.go")], cwd=out, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    files = []
    for d, subdirs, names in os.walk(os.path.join(repo, "internal")):
        subdirs.sort()
        files += [os.path.join(d, n) for n in sorted(names) if n.endswith(".go") and not n.endswith("_test.go")]
    if r.returncode == 0:
        r = subprocess.run([instr, os.path.join(out, "stmts")] + files, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode == 0:
        for l in r.stdout.splitlines():
            a, b = l.split("\t")
            replace[a] = b
    else:
        print("mkoverlay: no points between statements:", r.stdout)

with open(os.path.join(out, "overlay.json"), "w") as f:
    json.dump({"Replace": replace}, f, indent=1, sort_keys=True)
