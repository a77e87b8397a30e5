#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED maps a property to (technique, level, note)."""
import json
REF="runtime monitoring: an online oracle (reference model) judges every observation of the real library under random workloads"
N="Every answer observed on the executions of this run was compared with an independent model written from the property; nothing is claimed about executions that did not happen. Trusts the model, the generator's reach (see evidence: observed, maxima) and the operating system."
LIN="runtime monitoring: recorded call histories of concurrent tasks, store handles and processes, with delays injected into interposed system calls, checked offline for linearizability against a sequential model"
CLAIMED={
 "C01":(REF,"exploration",N),
 "C02":(REF,"exploration",N),
 "C03":(REF+"; full digests of every committed layer are re-taken after every later operation","exploration",N),
 "C04":(REF,"exploration",N),
 "C05":(REF,"exploration",N),
 "C06":(REF,"exploration",N),
 "C07":(REF+"; file system observed for leftovers","exploration",N),
 "C08":(REF+"; packs are truncated and damaged at random","exploration",N),
 "C09":(REF+"; stores are read back by reopened, second and other-process instances, and one script is run on several backends with all observations compared","exploration",N),
 "C10":(LIN,"exploration",N),
 "C11":(LIN,"exploration",N),
 "C12":("runtime monitoring: system calls of real operations are recorded, disk images of crash points (process kill and power loss) are rebuilt from the record, reopened and judged against the model; futures are dropped midway","exploration",N),
 "C13":("runtime monitoring under fault injection: the C library's file system calls of the process are interposed and made to fail or to be cut short; results, panics and the state afterwards are judged against the reference model","exploration",N),
 "C14":("runtime monitoring: threads run every operation on one store at once, with delays injected into system calls and between allocations; an online oracle (reference model) judges every answer, then the store at rest and after reopening","exploration",N),
 "C15":("runtime monitoring: shared builders are driven by racing threads with delays injected into system calls; recorded acceptances and refusals are checked against the committed contents","exploration",N),
 "C16":(REF,"exploration",N),
 "C17":("runtime monitoring: the caching backend over instrumented real archives (counting, delaying and failing loads, buffers that report their release); every answer is compared with what was written, the retained memory with the limit","exploration",N),
 "C19":("runtime monitoring: stores, labels and packs written by the released version are opened by the current build; every observation is compared with what was recorded about them, before and after random extensions","exploration","Compared with the committed corpus (corpus/), which the pinned base commit wrote; what the released version can write beyond the corpus is not covered."),
 "C18":(REF,"exploration",N),
 "C21":(REF+"; layers are written part by part through the public file builders, and their iterators driven through random mixes of next, peek, seek and clone","exploration",N),
 "C22":("runtime monitoring: an allocator that counts live bytes, and the process's descriptors, threads, tasks and the store's directory, observed at rest after every window of repeated operations (in a row, concurrent, abandoned, with failing system calls)","exploration","A leak counts when every one of a series of windows holds more than the one before by at least 16 bytes (or a quarter descriptor) per repetition. Not judged: the table entry of each distinct layer in the weak cache, and the buffers of builders that are dropped uncommitted."),
 "C20":("sanitizers: the workloads of the other properties run in builds with AddressSanitizer, ThreadSanitizer and arithmetic overflow checks and under valgrind memcheck; a smaller workload runs under the interpreter Miri","exploration","Only executions that ran are covered. GMP and libc are not instrumented by the compiler sanitizers (memcheck covers them); Miri checks with the tree borrows model because a dependency breaks stacked borrows, and runs without a file system."),
}
EXTRA={}
NA={}
try:
    from manifest_extra import EXTRA, NA
except ImportError:
    pass
CLAIMED.update(EXTRA)
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m={"version":1,"setup_cmd":"bash check.sh --setup",
 "hooks":{"guard":"none","enable":"no hooks: the monitors use the public interface of the crate, wrapper stores that implement its traits, and interposed C library calls in their own process","source_commits":[]},
 "checks":[{"property":p,"quick_cmd":f"bash check.sh {p}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {p}","technique":CLAIMED[p][0],"level":CLAIMED[p][1],"level_note":CLAIMED[p][2]} for p in props if p in CLAIMED],
 "not_applicable":[{"property":p,"reason":NA.get(p,"check not built yet")} for p in props if p not in CLAIMED],
 "notes":"VERIF_TIER=thorough raises the time budget and the sizes. DESIGN.md describes the machinery; known-findings.txt lists repaired and recorded defects."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); print(len(m["checks"]),"checks")
