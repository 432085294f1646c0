#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after a change of the list of checks)."""
import json, os
import check as c

NOTES = {
 "C01": "every SCT is checked, when it leaves the instance, against the published tree and the stored entry, and again under every later tree head",
 "C02": "every write of get-sth and checkpoint is checked against a reference Merkle tree of the whole history",
 "C03": "at every tree head write all tiles, entries and issuers it commits to are read back from the store and hashed to the root",
 "C04": "every logged entry is compared with an independent encoding of the submission it came from, every SCT signature is verified over the logged leaf",
 "C05": "resubmissions after answers, restarts, failovers and at the end of each run; SCTs compared bit by bit with the first one",
 "C06": "every proof served is verified against the reference tree; healthy-store requests must be answered 200",
 "C07": "every get-entries and entry-and-proof answer is compared with the reference sequence of entries and their chains",
 "C08": "liveness as progress within two simulated minutes (plus the backlog's own time) once the faults of a run stop; unexplained exits and panics of an instance are violations at any time",
 "C09": "every store write and SCT is checked against the lock's owner at the coordination service",
 "C10": "after a store operation of a batch fails for good, any tree head, later write or SCT depending on it, and no exit within a simulated minute, is a violation",
 "C11": "signatures, timestamps and freshness of every tree head, with skewed and stepping clocks",
 "C12": "generated acceptable and unacceptable submissions with known verdicts; at the end of a run nothing of a refused one may be in the store",
 "C13": "time from request to answer of every submission, with stalled stores and bursts",
 "C14": "every answer must be well-formed HTTP; aborted connections, panics, endless computation, leaked connections or goroutines are violations",
 "C15": "simulated file system with a durability model; every state a reader can see and every state after power loss is checked",
 "C16": "setup crashed or failed at its operations, repeated, and run against existing logs",
 "C17": "lookups of logged, lost, absent and prefix-sharing hashes, on index files at each tree head and through the monitor",
 "C18": "the edge build against stubs of its platform (caches, config store, backend fetch)",
}
SKIP = {
 "C19": "a pure function of key and digest: no schedule, clock, I/O or fault can change its outcome, so simulation decides nothing about it beyond random inputs (its use, identical signatures on resubmission, is decided under C05)",
 "C20": "pure functions of a byte string: no schedule, clock, I/O or fault takes part (what they do with the log's own objects, and with torn or truncated ones, is decided under C03, C07 and C14)",
}
avail = [p for p in c.P if [k for k in c.P[p]["profiles"] if k not in c.MISSING]]
for p in c.P:
    if p not in avail:
        SKIP[p] = "its simulation is not built yet"
m = dict(version=1, setup_cmd="python3 check.py build",
  checks=[dict(property=p, quick_cmd="python3 check.py run " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py run " + p,
    evidence_file="evidence/%s.json" % p,
    technique="deterministic simulation of the whole system with seeded schedules and fault injection",
    level="exploration", level_note=NOTES[p] + ". Seeded sampling of schedules, workloads and faults, not exhaustive; trusts the simulated S3, Consul, network and file system (DESIGN.md, Assumptions).") for p in avail],
  not_applicable=[dict(property=p, reason=r) for p, r in sorted(SKIP.items())],
  notes="No hooks in /repo: the seams are in the Go runtime and standard library, replaced at build time by go build -overlay (sim/mkoverlay.py). Replay: python3 check.py replay FILE.")
json.dump(m, open(os.path.join(c.VERIF, "MANIFEST.json"), "w"), indent=1)
