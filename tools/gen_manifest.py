#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over %s"
claimed = {
 "C01": ("preemption schedules of callers at single loads, stores and branches", "every interleaving of a run is a seeded choice; each call's outcome is compared with a solo run of its caller in a fresh process"),
 "C02": ("call histories with abandoned, panicking and re-entrant calls", "each call of a history is repeated on equal operand values in a pristine process and the outcomes compared; any dependence on earlier calls, on the recycled result, on aliasing or on addresses is a difference"),
 "C03": ("callers suspended or killed at single instructions", "the surviving callers must finish within a fixed multiple of their solo step count with the solo outcome; a wait on another caller is seen by the futex seam and reported as a deadlock"),
 "C04": ("histories with damaged input, overflow and zero divisors", "outcomes are compared with an arbitrary-precision reference model and the untouched-operand, reset and reuse rules"),
 "C05": ("allocator refusal from a chosen call on", "the same calls are run with and without a refusing allocator and must not differ; an allocation that escapes containment kills the simulated process and is reported"),
 "C06": ("buffer contents, capacities and failure of the k-th allocation", "buffer prefix, appended text and retry are compared with the text of a fresh buffer"),
 "C07": ("storage faults (torn, short, lost, misplaced, duplicated writes, bit flips)", "the bytes actually read back are judged by a reference reader of the decimal grammar"),
 "C08": ("worker crashes inside additions, message loss, duplication and reordering", "totals and partial sums are compared with exact big-integer arithmetic"),
 "C09": ("crash points inside calls and restarts from stored text", "the restarted history and the uninterrupted one must agree in value, scale, sign, text, ordering and errors, now and in later calls"),
 "C10": ("arrival orders of index operations and rebuilds from text", "a BTreeMap keyed by the real comparison is compared after each request with a model ordered by exact numeric value"),
 "C11": ("call forms and ambient conditions of replicas (clock jumps, random source, environment, thread, layout)", "replicas applying one command log must agree in every observable"),
 "C12": ("multi-caller histories of arithmetic with preemption, abandoned calls, panicking hashers, recycled results and changed ambient conditions", "every completed arithmetic call of the recorded history is judged by exact arithmetic on digit strings"),
 "C13": ("multi-caller histories of rounding, conversion, comparison and formatting with preemption, abandoned calls, panicking hashers, recycled results and changed ambient conditions", "every completed call of the recorded history is judged by an exact model"),
 "C14": ("arrival orders of hash-index operations, hasher panics, growth and rebuilds", "a HashMap keyed by decimals is compared after each request with a model keyed by exact numeric value"),
}
na = {}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
assert sorted(props) == sorted(list(claimed) + list(na)), (props)
common = " The library itself is real code, compiled from /repo at check time; only what surrounds it is simulated. Assurance is that of seeded sampling: quiet means no violation in the runs made. Trusted: the compiler's load/store/branch callbacks, the simulator and its reference model."
m = {
 "version": 1,
 "setup_cmd": "bash check.sh build",
 "checks": [{
  "property": p, "quick_cmd": "bash check.sh " + p, "thorough_cmd": "bash check.sh " + p,
  "evidence_file": "evidence/%s.json" % p, "technique": T % a, "level": "exploration",
  "level_note": b[0].upper() + b[1:] + "." + common} for p, (a, b) in claimed.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in na.items()],
 "notes": "No hooks in /repo: the seams are compiler instrumentation (RUSTC_WRAPPER, the library's build only) and interposed libc calls. quick_cmd and thorough_cmd differ by VERIF_TIER.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
