#!/usr/bin/env python3
# writes MANIFEST.json (committed); run by hand after changing the list of checks
import json
T="deterministic simulation with fault injection (seeded search over schedules, faults and inputs of the real code)"
N={
"C01":"Seeded search over generated models, widths, capacities, heap layouts, clocks and histories of searches; oracle: exhaustive dynamic programming / enumeration. Not exhaustive; instances are small.",
"C02":"Every announcement replayed decision by decision against an independent walk of the model; callbacks logged. Not exhaustive.",
"C03":"Interruptions injected at drawn points (limit, exceptions from model, callback, limit predicate, console), then resumed; oracle as C01 plus stack canaries. Not exhaustive.",
"C04":"Simulated monotonic and wall clocks with stalls and jumps; the same search without limit is the reference. Not exhaustive.",
"C05":"Every printed line parsed and compared with simulated time and the reference optimum. Not exhaustive.",
"C06":"Relaxed diagrams built from the root and from cutset states, judged against exhaustive values of every state. Not exhaustive.",
"C07":"Restricted diagrams judged as C06. Not exhaustive.",
"C08":"Exact diagrams computed, reset, copied, interrupted and re-rooted, judged against exhaustive values. Not exhaustive.",
"C09":"Real threads under a seeded baton scheduler (switches at model calls, allocations, clock reads, console writes, lock waits, and between basic blocks of the solver) and nested searches; reference: the same search alone. Sequentially consistent: weak-memory effects and switches inside a basic block are not explored.",
"C10":"One search repeated under different heap layouts, fills, clocks, console failures and histories; traces compared. Not exhaustive.",
"C11":"The n-th allocation fails, n drawn over all allocations of the search; in a forked child so that fail-stop is observable. Not exhaustive.",
"C12":"All allocations and model states counted through interrupted and completed searches. Not exhaustive.",
"C13":"Operation sequences with failing allocations against an interval model. Not exhaustive.",
"C14":"Operation sequences with failing allocations against plain containers. Not exhaustive.",
"C15":"All system calls of a display served by an in-memory system that fails them as drawn; both sides of a fork are followed. Not exhaustive.",
"C16":"Seeded histories of operations on several sets, arrays and matrices in dirty memory with failing allocations (in a forked child), against plain containers. No schedule or clock is involved: the simulated environment is the heap.",
}
m={"version":1,"setup_cmd":"python3 check.py build",
 "hooks":{"guard":"CODD_SIM","enable":"-DCODD_SIM (check.py compiles /repo/src/*.cpp with it; initial capacities become drawn)","source_commits":["b1f2398"]},
 "checks":[{"property":p,"quick_cmd":"python3 check.py run "+p,"thorough_cmd":"VERIF_TIER=thorough python3 check.py run "+p,"evidence_file":"evidence/%s.json"%p,"technique":T,"level":"exploration","level_note":N[p]} for p in sorted(N)],
 "not_applicable":[
  {"property":"C17","reason":"pure functions (merge sort over a caller's buffer, union-find over integers) without any environment: no clock, schedule, I/O or allocation policy for a simulator to act on"}],
 "notes":"Replay files are written to replays/; 'python3 check.py replay FILE' runs one again. Open findings: none (known_findings.txt)."}
json.dump(m,open("MANIFEST.json","w"),indent=1)
