#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (run from /verif)."""
import json
NA={
"C22":"Evaluating an expression is a pure function of the program text: no concurrency, time, I/O, randomness or second party takes part, so no schedule or fault can change the outcome and a simulator has nothing to decide. (Programs are still executed in every simulated run and checked against a reference evaluation, but their space is not explored for this property.)",
"C23":"The json view is a pure function of the body text. Everything a schedule or fault can do to it (which bytes arrive, cut or segmented) is decided under C04 and C16; which documents the parser understands is an input question without an environment.",
"C24":"Splitting a URL and parsing a duration are pure functions of one short string; no schedule, clock or fault takes part.",
}
COMMON="Exploration: each run executes the real basjoofan binary (all of lib and cmd, rustls, std) rebuilt from /repo under a simulator that owns scheduling, clocks, sockets, DNS, files, signals and randomness; seeds are derived from VERIF_SEED, every run is exactly repeatable, violations are minimised and stored as a replay file. Assurance is statistical: what no explored schedule or fault sequence shows is not excluded. Trusted: the simulated kernel (LD_PRELOAD shim), the reference execution and the history oracles in sim/amsim. "
NOTE={
"C01":"Counts iterations and requests per worker against T and N, usually T up to 8 and N up to about 20, now and then up to 300 workers or more than 65536 iterations, with network faults.",
"C02":"Compares standard output byte by byte with the blocks the reference execution produces, under short and interrupted writes.",
"C03":"Verdicts compared with what the simulated network decided about each exchange; every fault kind at every stage.",
"C04":"Every value a script prints, asserts or records is compared with the bytes the simulated server sent.",
"C05":"Bytes received per connection compared with the reference serialisation under short, blocked, interrupted and failing sends.",
"C06":"Per-worker token chains through requests and responses.",
"C07":"Attempts, their simulated times, the connection used and data on others, checked against the address plan (up to 16 addresses of both families).",
"C08":"Recorded phases compared with simulated time at the socket and resolver calls, with wall-clock jumps.",
"C09":"Recordings decoded by an independent strict Avro decoder and compared entry by entry with the history.",
"C10":"SIGKILL-like stop at a random system call; the surviving files are decoded. File contents survive as written (process kill, not power loss).",
"C11":"ENOSPC, EIO and partial writes, transient or persistent, on recordings, and failures to create one; the run must go on unchanged.",
"C12":"Simulated clock, with workers and timer starting late; iterations started and exit time against the duration.",
"C13":"SIGINT raised at random points, once or repeatedly, also while threads start late.",
"C14":"Statistic lines compared with the aggregate of reported exchanges.",
"C15":"Simulated TLS servers with valid, self-signed, untrusted, wrong-name, expired and not-yet-valid certificates, at the limits of validity, with faults while the trust store is read; clear bytes on the wire. The platform trust store is a scratch CA file.",
"C16":"Hostile and unlucky peers; panics, aborts, hangs and missing later calls are violations.",
"C17":"Simulated time between the calls of each worker while others stall or fail.",
"C18":"Standard input chunked, delayed, interrupted; output compared with the reference session.",
"C19":"Directory trees in random listing order, short and failing reads.",
"C20":"All tests (up to about 50) concurrently, with errors and stalls in some.",
"C21":"Multipart bodies (texts and files of any bytes, odd names) received by the server decoded and compared with the files, under read and send faults.",
"C25":"Descriptors, threads and the sizes of the allocator's live memory followed through the run; memory is measured in a flavour of its own with many iterations, against a margin of 256 KiB over the measured noise.",
"C26":"Order and simulated time of stdout writes against the calls of the worker that made them, also with other workers stalled, and output left behind by a kill at a random system call.",
}
P=[json.loads(l) for l in open("properties.jsonl")]
m={"version":1,"setup_cmd":"./build.sh","checks":[],"not_applicable":[],
"notes":"No hooks in /repo: every seam is a libc call interposed by sim/shim, and schedule points come from the compiler's thread instrumentation (tsan_stub.c). Quick runs thousands of seeds per property; VERIF_TIER=thorough runs fifteen times as many."}
for p in P:
    i=p["id"]
    if i in NA: m["not_applicable"].append({"property":i,"reason":NA[i]}); continue
    m["checks"].append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,
      "evidence_file":f"evidence/{i}.json",
      "technique":"deterministic simulation with fault injection: seeded search over schedules and faults of the real program, checked against a reference execution",
      "level":"exploration","level_note":COMMON+NOTE[i]})
open("MANIFEST.json","w").write(json.dumps(m,indent=1)+"\n")
