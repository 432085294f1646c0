#!/usr/bin/env python3
"""Small syntactic changes to a scratch copy of /repo, each judged by runs of the
simulator: which are noticed by any property at all, and which survive.

  mutate.py SCRATCH FIRST LAST [SEED]    mutants FIRST..LAST-1 of a shuffled list
Writes SCRATCH/results.txt, one line per mutant.  Used to look for gaps; no check
depends on it."""
import concurrent.futures, glob, json, os, random, re, shutil, subprocess, sys, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, first, last = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
FILES = {
    "internal/ctsubmit/bucket.go": "index crash dedupe fs big failover",
    "internal/ctsubmit/storage.go": "fsstore fs storeerr crash setup",
    "internal/ctsubmit/config.go": "failover crash big setup clock mix",
    "internal/ctsubmit/logic.go": "admission crash storeerr stall failover burst clock big steady dedupe",
    "internal/ctmonitor/fetch.go": "monitor big edge index mix",
    "internal/ctmonitor/logic.go": "monitor big edge mix",
    "internal/ctmonitor/main.go": "monitor",
    "internal/ctmonitor/fastly.go": "edge",
    "internal/ctmonitor/storage.go": "monitor fsstore edge fs",
    "internal/ctsetup/main.go": "setup",
    "internal/sunlight/tile_ol.go": "monitor big crash edge",
    "internal/sunlight/tile_reader_ol.go": "big crash monitor",
    "internal/sunlight/misc.go": "crash monitor",
    "internal/sunlight/digitallysign_ol.go": "steady crash",
    "internal/sunlight/extensions_ol.go": "steady crash",
    "internal/sunlight/checkpoint_ol.go": "steady crash",
}
RUNS = int(os.environ.get("MUT_RUNS", "120"))

def candidates(path, text):
    lines = text.split("\n")
    out = []
    def put(i, new, what):
        if new != lines[i]:
            out.append((path, i, lines[i], new, what))
    for i, l in enumerate(lines):
        t = l.strip()
        if not t or t.startswith("//") or t.startswith("import") or t.startswith("package") or t.startswith("func ") or 'Errorf(' in t or 'log.Print' in t or t.startswith("type "):
            continue
        code = l.split("//")[0] if '"' not in l else l
        for m in re.finditer(r" (==|!=|<=|>=|<|>|&&|\|\||\+|-|<<|>>|%|\*) ", code):
            op = m.group(1)
            for n in {"==": ["!="], "!=": ["=="], "<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"], "<<": [">>"], ">>": ["<<"], "%": ["/"], "*": ["/"]}[op]:
                put(i, l[:m.start()] + " %s " % n + l[m.end():], "%s to %s" % (op, n))
        for m in re.finditer(r"(?<![\w.\"])(\d+)(?![\w\"])", "" if re.match(r"return nil, \d+, ", t) else code):
            v = int(m.group(1))
            put(i, l[:m.start()] + str(v + 1) + l[m.end():], "%d to %d" % (v, v + 1))
            if v:
                put(i, l[:m.start()] + str(v - 1) + l[m.end():], "%d to %d" % (v, v - 1))
        if re.search(r"\b(\w+)\+\+$", t):
            put(i, l.replace("++", "--"), "++ to --")
            put(i, "", "statement removed")
        if re.match(r"^[\w.\[\]]+(\(.*\)| = .*| \+= .*|\+\+)$", t) or re.match(r"^(defer|go) .*\)$", t):
            put(i, "", "statement removed")
        if t == "continue":
            put(i, l.replace("continue", "break"), "continue to break")
        if t == "break":
            put(i, l.replace("break", "continue"), "break to continue")
        if re.match(r"^if .*err != nil.* \{$", t):
            put(i, l.replace("err != nil", "err != nil && false"), "error ignored")
        elif re.match(r"^(} else )?if .* \{$", t):
            mm = re.match(r"^(.*if (?:[^;]*; )?)(.*) \{$", l)
            if mm:
                put(i, "%s(%s) && false {" % (mm.group(1), mm.group(2)), "never")
                put(i, "%s(%s) || true {" % (mm.group(1), mm.group(2)), "always")
        if "true" in code:
            put(i, l.replace("true", "false"), "true to false")
        if re.search(r"\bfalse\b", code):
            put(i, re.sub(r"\bfalse\b", "true", l, 1), "false to true")
    return out

repo, build = os.path.join(S, "repo"), os.path.join(S, "build")
os.makedirs(S, exist_ok=True)
if not os.path.exists(repo):
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
os.environ.update(VERIF_REPO=repo, VERIF_BUILD=build)
sys.path.insert(0, VERIF)
import check
os.environ.update({"GOMAXPROCS": "1", "GOGC": "off", "GODEBUG": "asyncpreemptoff=1", "TZ": "UTC"})
c = []
for f in FILES:
    c += candidates(f, open(os.path.join(repo, f)).read())
random.Random(seed).shuffle(c)
print(len(c), "candidates")
if not check.build():
    sys.exit("no build")
plans = {}
for prof in {p for v in FILES.values() for p in v.split()}:
    d = os.path.join(S, "plans", prof)
    shutil.rmtree(d, ignore_errors=True)
    check.gen(prof, 424242, 0, 150, d)
    plans[prof] = [open(f).read() for f in sorted(glob.glob(d + "/*.json"))]
res = open(os.path.join(S, "results.txt"), "a")
for k in range(first, min(last, len(c))):
    path, i, old, new, what = c[k]
    full = os.path.join(repo, path)
    text = open(full).read()
    lines = text.split("\n")
    lines[i] = new
    open(full, "w").write("\n".join(lines))
    try:
        r = subprocess.run("cd %s && . /opt/vp/env.sh && go vet ./%s" % (repo, os.path.dirname(path)), shell=True, executable="/bin/bash", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad = [x for x in r.stdout.split("\n") if ".go:" in x and "declared and not used" in x or "cannot use" in x or "syntax" in x or "undefined" in x or "invalid op" in x or "imported and not used" in x]
        if r.returncode and bad:
            verdict = "nobuild"
        else:
            check.MISSING.clear()
            with open(os.devnull, "w") as dn:
                so, sys.stdout = sys.stdout, dn
                try: ok = check.build()
                finally: sys.stdout = so
            if not ok or check.MISSING:
                verdict = "nobuild"
            else:
                profs = FILES[path].split()
                todo = [plans[profs[j % len(profs)]][j // len(profs)] for j in range(RUNS)]
                stop, found, n = threading.Event(), [], 0
                def one(p):
                    if stop.is_set(): return None
                    rc, r, err = check.run_plan(p)
                    if rc == 1 and r and r.get("violations"):
                        stop.set(); found.append(r["violations"][0])
                    elif rc not in (0, 1):
                        return "rc%d" % rc
                    return "ok"
                with concurrent.futures.ThreadPoolExecutor(8) as pool:
                    out = list(pool.map(one, todo))
                n = sum(1 for o in out if o)
                verdict = "SURVIVES" if not found else "killed %s %s" % (found[0]["props"], found[0]["key"])
                bad = sum(1 for o in out if o and o.startswith("rc"))
                if bad: verdict += " trouble=%d" % bad
                verdict += " (%d runs)" % n
    finally:
        open(full, "w").write(text)
    line = "%d %s:%d [%s] %s -> %s | %s" % (k, path, i + 1, what, old.strip(), new.strip(), verdict)
    res.write(line + "\n"); res.flush()
