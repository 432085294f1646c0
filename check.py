#!/usr/bin/env python3
"""Driver of the deterministic simulation.

  check.py build                 build the simulator from /repo's working tree
  check.py run PROPERTY          the check of one property (VERIF_SEED, VERIF_TIER)
  check.py replay FILE           run a replay file again and compare
  check.py campaign PROFILE N [SEED]   run N plans of a profile and summarise
"""
import collections, concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
EVID = os.path.join(VERIF, "evidence")
GOROOT = "/opt/veriftools/go1.23.12"
SIM = os.path.join(BUILD, "sim")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
RUN_TIMEOUT = 240

# ---------------------------------------------------------------- properties
# profiles: relative number of runs per profile; count: what one evaluation of
# the property is, as counted by the simulator during a run; fault: a run
# without an injected fault does not count as non-trivial.
P = collections.OrderedDict()
def prop(id, profiles, count, fault=False, runs=480):
    P[id] = dict(profiles=profiles, count=count, fault=fault, runs=runs)

prop("C01", dict(crash=4, storeerr=3, failover=3, fs=3, steady=1, mix=3, burst=1, stall=1), ["answers:200"], True)
prop("C02", dict(crash=4, failover=5, storeerr=3, fs=3, mix=3, clock=1, setup=1), ["heads"], True)
prop("C03", dict(crash=4, storeerr=3, failover=3, fs=3, mix=2, big=2, burst=1), ["heads"], True)
prop("C04", dict(steady=4, dedupe=4, burst=2, admission=2, crash=1, mix=1), ["entries"])
prop("C05", dict(dedupe=6, crash=2, failover=2, storeerr=2, fs=1, mix=1, index=2), ["resubmissions-identical", "ix-found"])
prop("C06", dict(monitor=5, big=4, steady=1, crash=1, mix=1), ["checked:consistency", "checked:inclusion", "checked:entry-and-proof"])
prop("C07", dict(monitor=5, big=4, steady=1, dedupe=1, mix=1), ["checked:entries"])
prop("C08", dict(crash=4, failover=4, storeerr=3, fs=3, stall=1, mix=2, clock=1, big=1), ["recoveries"], True)
prop("C09", dict(failover=7, storeerr=3, mix=2, clock=1, stall=1, crash=1), ["starts"], True)
prop("C10", dict(storeerr=7, fs=4, mix=1, crash=1), ["heads"], True)
prop("C11", dict(clock=5, steady=1, failover=2, crash=2, storeerr=1, burst=1), ["heads"])
prop("C12", dict(admission=7, steady=1, mix=1), ["answers:400", "malformed-submissions"])
prop("C13", dict(stall=5, burst=4, storeerr=2, mix=1, admission=1, fs=1), ["submissions"], True)
prop("C14", dict(monitor=6, big=2, mix=1, stall=1), ["queries"])
prop("C15", dict(fsstore=8, fs=4, setup=1), ["fs-sets", "heads"], True)
prop("C16", dict(setup=10, mix=1), ["setups"], True)
prop("C17", dict(monitor=4, crash=3, storeerr=2, big=2, dedupe=1, mix=1, index=2), ["checked:absent-same-file", "checked:inclusion", "ix-found"])
prop("C18", dict(edge=1), ["edge-queries"])

MISSING = set()
NEED_UNITS = {"fsstore", "edge", "index"}

REAL = ["internal/ctsubmit (all of it, via MainMain)", "internal/ctmonitor (MainMain, UrlStorage, FsStorage)", "internal/ctsetup (MainMain)",
        "internal/sunlight", "internal/rfc6979", "net/http client and server", "aws-sdk-go-v2 S3 client with its retries", "hashicorp/consul/api client and its Lock",
        "certificate-transparency-go chain validation", "golang.org/x/mod/sumdb/tlog", "Go channels, mutexes, timers, select, goroutines"]
STUB = ["goroutine scheduler policy (seeded)", "clock and timers (simulated time)", "randomness (seeded)", "TCP (simulated connections)", "file system below /simfs (simulated, with a durability model)",
        "S3 server (in-memory, linearizable, with faults)", "Consul agent and server (sessions, KV, locks, lock delay, blocking queries)", "process exit, panic, signals, stdout/stderr",
        "edge runtime (Fastly config store, caches and backend fetch; profile edge only)"]

# ---------------------------------------------------------------- build

def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "CGO"))}
    e.update(HOME="/root", PATH=GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", GOTOOLCHAIN="local", GOPROXY="off",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.path.join(BUILD, "gocache"), GOFLAGS="-mod=readonly", CGO_ENABLED="0")
    return e

def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run([sys.executable, os.path.join(VERIF, "sim/mkoverlay.py"), GOROOT, REPO, BUILD], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-4000:]); return False
        for tags, lost in (("faketime", {"index"}), ("faketime,verifnoindex", NEED_UNITS), ("faketime,verifmin", NEED_UNITS)):
            r = subprocess.run(["go", "build", "-overlay", os.path.join(BUILD, "overlay.json"), "-modfile", os.path.join(BUILD, "go.mod"), "-tags", tags, "-o", SIM, "itko.dev/verifsim"],
                               cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                return True
            print(r.stdout[-4000:])
            # an internal function the simulator uses was renamed, perhaps: go
            # without the profiles that need one
            MISSING.update(lost)
    return False

# ---------------------------------------------------------------- runs

def gen(profile, seed, start, count, out):
    os.makedirs(out, exist_ok=True)
    subprocess.run([SIM, "gen", profile, str(seed), str(start), str(count), out], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)

def canon(plan):
    return json.dumps(plan, separators=(",", ":"))

def run_plan(text):
    """-> (rc, result or None, stderr tail)"""
    try:
        r = subprocess.run([SIM, "run"], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=RUN_TIMEOUT)
    except subprocess.TimeoutExpired:
        return -1, None, "timeout"
    res = None
    if r.returncode in (0, 1):
        try:
            res = json.loads(r.stdout)
        except ValueError:
            return -2, None, (r.stderr[-2000:] or b"").decode("utf-8", "replace")
    return r.returncode, res, r.stderr[-2000:].decode("utf-8", "replace")

def find(res, prop, key=None, skip=()):
    for v in (res or {}).get("violations") or []:
        for one in v["props"]:
            for p in one.split():
                if p == prop and (v["key"] == key if key is not None else v["key"] not in skip):
                    return v
    return None

# ---------------------------------------------------------------- minimisation

def minimise(plan, prop, key, deadline, pool):
    best = json.loads(json.dumps(plan))
    tried = 0

    def holds(p):
        if time.time() > deadline:
            return False
        rc, res, _ = run_plan(canon(p))
        return rc == 1 and find(res, prop, key) is not None

    def pick(cands):
        """first candidate, in order, that still fails"""
        nonlocal tried
        cands = list(cands)
        for i in range(0, len(cands), JOBS):
            part = cands[i:i + JOBS]
            tried += len(part)
            for c, ok in zip(part, pool.map(holds, part)):
                if ok:
                    return c
            if time.time() > deadline:
                return None
        return None

    def with_items(items):
        p = dict(best)
        p["steps"] = [s for k, s in items if k == "s"]
        p["faults"] = [f for k, f in items if k == "f"]
        return p

    def items_of(p):
        return [("s", s) for s in p["steps"] or []] + [("f", f) for f in p["faults"] or []]

    items = items_of(best)
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        chunks = [(i, min(i + size, len(items))) for i in range(0, len(items), size)]
        got = pick(with_items(items[:a] + items[b:]) for a, b in chunks)
        if got is not None:
            best = got
            items = items_of(best)
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(items), n * 2)

    def tweak(f):
        p = json.loads(json.dumps(best))
        f(p)
        return p

    for f in (lambda p: p["sched"].update(preempt=0), lambda p: p["sched"].update({"yield": 0}),
              lambda p: p["sched"].update(mode=0), lambda p: p["cfg"].update(net_jit_us=0), lambda p: p["cfg"].update(s3_jit_us=0),
              lambda p: p["cfg"].update(machines=1), lambda p: p["cfg"].update(audit_max=8)):
        if time.time() > deadline:
            break
        p = tweak(f)
        if p != best and holds(p):
            best = p
    for i, s in enumerate(list(best["steps"] or [])):
        if s["op"] == "burst" and s.get("b", 0) > 1 and time.time() < deadline:
            got = pick(tweak(lambda p, i=i, b=b: p["steps"][i].update(b=b)) for b in (1, 2, 5, 20, 60, 200) if b < s["b"])
            if got is not None:
                best = got
    return best, tried

# ---------------------------------------------------------------- known findings

def known():
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m:
                out[(m.group(1), m.group(2).replace("%20", " "))] = m.group(3).strip()
    return out

# ---------------------------------------------------------------- a check

def plan_list(prop_id, seed, tier, scale):
    """the plans of a check: a fixed, interleaved list"""
    d = P[prop_id]
    profs = {k: v for k, v in d["profiles"].items() if k not in MISSING}
    total = int(d["runs"] * scale)
    wsum = sum(profs.values())
    num = int(prop_id[1:])
    base = seed * 1000 + num + (500 if tier == "thorough" else 0)
    work = os.path.join(BUILD, "plans", "%s-%d" % (prop_id, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    lst = []
    for k, v in profs.items():
        n = max(4, total * v // wsum)
        gen(k, base, 0, n, os.path.join(work, k))
        for i, f in enumerate(sorted(glob.glob(os.path.join(work, k, "*.json")))):
            lst.append(((i + 0.5) / n, k, i, open(f).read()))
    shutil.rmtree(work, ignore_errors=True)
    lst.sort()
    return base, lst

def summary(plan, res):
    return dict(profile=plan["profile"], plan_seed=plan["seed"], sched=plan["sched"], cfg={k: v for k, v in plan["cfg"].items() if v},
                steps=len(plan["steps"] or []), faults=plan["faults"], schedule_hash=res["hash"], history_hash=res["trace"], simulated_ms=res["sim_ms"],
                scheduling_decisions=res["picks"], preemptions=res["counts"].get("preemptions", 0))

def check(prop_id):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    d = P[prop_id]
    if not build():
        print("check %s: the simulator does not build from /repo" % prop_id)
        return 3
    tb = time.time()
    budget = float(os.environ.get("VERIF_BUDGET_S", "0")) or (3000.0 if tier == "thorough" else 300.0)
    base, plans = plan_list(prop_id, seed, tier, 40 if tier == "thorough" else 1)
    kn = known()
    skip = {k for (p, k) in kn if p == prop_id}
    seen_known = {}
    counts, faults, hashes, traces, nontrivial = collections.Counter(), collections.Counter(), set(), set(), set()
    profiles, trouble, samples, others = collections.Counter(), [], [], collections.Counter()
    sim_ms = picks = runs = 0
    hit = None
    stop = threading.Event()
    deadline = tb + budget
    with concurrent.futures.ThreadPoolExecutor(JOBS) as pool:
        def one(item):
            if stop.is_set() or time.time() > deadline:
                return item, None
            return item, run_plan(item[3])
        # in order, so that the outcome does not depend on timing
        futs = [pool.submit(one, p) for p in plans]
        for f in futs:
            item, out = f.result()
            if out is None:
                continue
            rc, res, err = out
            if stop.is_set() and hit is not None:
                continue
            runs += 1
            profiles[item[1]] += 1
            if res is None:
                trouble.append("%s #%d: rc %s %s" % (item[1], item[2], rc, err.strip()[-300:]))
                continue
            sim_ms += res["sim_ms"]; picks += res["picks"]
            hashes.add(res["hash"]); traces.add(res["trace"])
            nf = 0
            for k, v in res["counts"].items():
                if k.startswith("fault:"):
                    faults[k[6:]] += v; nf += v
                else:
                    counts[k] += v
            if any(res["counts"].get(k, 0) > 0 for k in d["count"]) and (nf or not d["fault"]):
                nontrivial.add(res["trace"])
                if len(samples) < 3 and (nf or runs > 20):
                    samples.append(summary(json.loads(item[3]), res))
            v = find(res, prop_id, skip=skip)
            for k in skip:
                if find(res, prop_id, key=k):
                    seen_known[k] = seen_known.get(k, 0) + 1
            for x in res.get("violations") or []:
                if v is None:
                    others["%s %s" % (" ".join(x["props"]), x["key"])] += 1
            if v is not None:
                hit = (item, res, v)
                stop.set()
        for f in futs:
            f.cancel()
        tr = time.time()
        rc = 0
        if hit is not None:
            item, res, v = hit
            plan = json.loads(item[3])
            rc2, res2, err2 = run_plan(canon(plan))
            if rc2 != 1 or find(res2, prop_id, v["key"]) is None or res2["hash"] != res["hash"]:
                print("check %s: %s did not reproduce: %s" % (prop_id, v["key"], err2))
                rc = 4
            else:
                small, tried = minimise(plan, prop_id, v["key"], time.time() + 90, pool)
                rc3, res3, _ = run_plan(canon(small))
                v3 = find(res3, prop_id, v["key"])
                if v3 is None:
                    small, res3, v3 = plan, res2, find(res2, prop_id, v["key"])
                path = os.path.join(VERIF, "evidence", "replays", "%s-%s.json" % (prop_id, hashlib.sha1(v3["key"].encode()).hexdigest()[:10]))
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w") as f:
                    json.dump(dict(property=prop_id, key=v3["key"], message=v3["msg"], at_ms=v3["at_ms"], verif_seed=seed, plan_seed_base=base,
                                   profile=item[1], index=item[2], schedule_hash=res3["hash"], history_hash=res3["trace"], minimisation_runs=tried,
                                   original_steps=len(plan["steps"] or []), original_faults=len(plan["faults"] or []),
                                   plan=small, trace=(res3.get("events") or [])[-400:]), f, indent=1)
                print("%s: %s" % (v3["key"], v3["msg"]))
                print("found in profile %s, plan %d of seed %d after %d runs; minimised from %d steps and %d faults to %d and %d; replay: python3 %s replay %s" % (
                    item[1], item[2], base, runs, len(plan["steps"] or []), len(plan["faults"] or []), len(small["steps"] or []), len(small["faults"] or []), os.path.join(VERIF, "check.py"), path))
                print("VIOLATION property=%s replay=%s" % (prop_id, path))
                rc = 1
    wall = time.time() - t0
    hours = max(1e-9, (tr - tb) / 3600)
    ev = dict(property=prop_id, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=1 if rc == 1 else 0,
              assumptions=ASSUME,
              coverage=dict(
                  evaluations=runs, distinct_nontrivial=len(nontrivial),
                  rule="one case is one simulated run, a function of its plan (seed, scheduling policy, workload, faults) and the code; non-trivial: it evaluated the property at least once (%s)%s; distinct: by the hash of its externally visible history" % (
                      " or ".join(d["count"]), " with at least one fault injected" if d["fault"] else ""),
                  samples=samples, plans=len(plans), plan_seed_base=base, runs_by_profile=dict(profiles), runs_per_hour=int(runs / hours), seeds_per_hour=int(runs / hours), build_s=round(tb - t0, 1),
                  simulated_hours=round(sim_ms / 3.6e6, 2), distinct_interleavings=len(hashes), distinct_interleavings_measure="hash of the sequence of all scheduling decisions of a run",
                  distinct_histories=len(traces), scheduling_decisions=picks, preemptions=counts.get("preemptions", 0),
                  property_evaluations={k: counts.get(k, 0) for k in d["count"]},
                  faults_injected=dict(sorted(faults.items())), fault_total=sum(faults.values()),
                  observations={k: v for k, v in sorted(counts.items()) if not k.startswith("op:")},
                  store_and_lock_operations={k[3:]: v for k, v in sorted(counts.items()) if k.startswith("op:")},
                  components_real=REAL, components_stubbed=STUB, harness_trouble=trouble[:20], harness_trouble_runs=len(trouble),
                  violations_of_other_properties=dict(others), known_findings_seen=seen_known))
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, ".%s.tmp" % prop_id)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, prop_id + ".json"))
    for (p, k), what in kn.items():
        if p == prop_id:
            print("KNOWN-FINDING: property=%s %s" % (prop_id, what))
    if rc == 0 and (runs == 0 or len(trouble) * 5 > runs):
        print("check %s: %d of %d runs gave no result: %s" % (prop_id, len(trouble), runs, trouble[:2]))
        rc = 5
    print("%s %s: %d runs (%d of %d plans), %.1f simulated hours, %d distinct histories, %d faults, %d without result, build %.0fs, total %.0fs" % (
        prop_id, "VIOLATED" if rc == 1 else "held" if rc == 0 else "undecided", runs, runs, len(plans), sim_ms / 3.6e6, len(traces), sum(faults.values()), len(trouble), tb - t0, wall))
    return rc

ASSUME = [
    "S3 is atomic and strongly consistent per object; a PUT its client abandoned is applied, if at all, at the latest when the server sees the connection end",
    "Consul is linearizable; a session outlives its TTL by nothing, and the lock delay is observed; the agent is local, so a partition shows as errors of the agent",
    "a process is not stalled for longer than session TTL plus lock delay while a request of it is under way (the design has no fencing)",
    "the file system honours fsync of files and directories, and rename is atomic",
    "the Go runtime schedules at the points the simulator can switch at (channel, select, lock, timer, I/O, allocation)",
]

def replay(path):
    if not build():
        return 3
    rp = json.load(open(path))
    rc, res, err = run_plan(canon(rp["plan"]))
    v = find(res, rp["property"], rp["key"])
    if v is None:
        print("no violation of %s with key %s (rc %s) %s" % (rp["property"], rp["key"], rc, err[-300:] if res is None else ""))
        return 0 if rc in (0, 1) else 5
    same = res["hash"] == rp["schedule_hash"] and res["trace"] == rp["history_hash"]
    for e in (res.get("events") or [])[-60:]:
        print(e[:240])
    print("%s: %s" % (v["key"], v["msg"]))
    print("schedule %s, history %s: %s" % (res["hash"], res["trace"], "identical to the recorded run" if same else "the code or simulator differs from the recorded run"))
    print("VIOLATION property=%s replay=%s" % (rp["property"], path))
    return 1

def campaign(profile, n, seed):
    if not build():
        return 3
    out = os.path.join(BUILD, "plans", "campaign-" + profile)
    shutil.rmtree(out, ignore_errors=True)
    gen(profile, seed, 0, n, out)
    d = collections.defaultdict(list)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as pool:
        files = sorted(glob.glob(out + "/*.json"))
        for f, (rc, res, err) in zip(files, pool.map(lambda f: run_plan(open(f).read()), files)):
            if res is None:
                d[("-", "rc %d" % rc)].append((f, err[-200:]))
            for v in (res or {}).get("violations") or []:
                d[(" ".join(v["props"]), v["key"])].append((f, v["msg"]))
    print(n, "runs of", profile)
    for k, v in sorted(d.items(), key=lambda x: -len(x[1])):
        print(len(v), k, v[0][0], v[0][1][:220])
    return 0

def main():
    a = sys.argv[1:]
    if a[:1] == ["build"]:
        return 0 if build() else 3
    if a[:1] == ["run"] and len(a) == 2 and a[1] in P:
        return check(a[1])
    if a[:1] == ["replay"] and len(a) == 2:
        return replay(a[1])
    if a[:1] == ["campaign"]:
        return campaign(a[1], int(a[2]), int(a[3]) if len(a) > 3 else 1)
    print(__doc__)
    return 2

if __name__ == "__main__":
    sys.exit(main())
