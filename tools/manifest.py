#!/usr/bin/env python3
"""Writes MANIFEST.json; run by hand after editing."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX = "explicit-state exploration of the real implementation against a reference model"
IN = "exhaustive bounded input enumeration of the real implementation against a reference parser"
C = {}
def c(i, level, tech, note): C[i] = (level, tech, note)
c("C01", "model_checking", EX, "All operation histories over the bounded alphabet; setter-only spaces are closed (histories of any length), others to a depth. Trusts mc/ref.")
c("C02", "model_checking", EX, "As C01, plus every state's bytes are read back by an independent wire parser.")
c("C03", "model_checking", EX, "As C01; last-writer-wins and no-effect-on-other-fields on every transition.")
c("C04", "exploration", IN, "All token sequences to a depth. Trusts mc/ref's parser.")
c("C05", "exploration", IN, "All byte strings over a critical alphabet to a length, statement fuel bounds termination.")
c("C06", "exploration", IN, "All wire-type mismatches x accessors x positions.")
c("C07", "model_checking", EX, "All message histories and truncations within bounds.")
c("C08", "model_checking", EX, "All decode/append/iterate histories within bounds.")
c("C09", "model_checking", EX, "All reuse histories (Decode/Reset over earlier contents) within bounds.")
c("C10", "exploration", "exhaustive exploration of operation sequences with an allocation monitor on every call", "malloc counter of the real runtime, GC off, single threaded worker; depends on the compiler's escape analysis of the installed Go.")
c("C11", "exploration", "stateless model checking: preemption-bounded schedule enumeration under the race detector", "All interleavings up to the stated preemption bound at statement granularity; race detector verdict per schedule.")
c("C12", "exploration", IN, "Aliasing and capacity monitors on every accessor result.")
c("C13", "model_checking", EX, "All self-referential write histories within bounds.")
c("C14", "model_checking", EX, "All foreign encodings of a field x subsequent writes.")
c("C15", "exploration", "exhaustive enumeration of a bounded schema grammar; each generated program compiled and explored against the reference model", "Go compiler trusted; grammar bounds in DESIGN.md.")
c("C16", "exploration", "exhaustive enumeration of code generation requests against an oracle", "Requests over a small universe of files.")
c("C17", "fault_enumeration", "exhaustive enumeration of requests, truncations, corruptions and I/O faults on the real executables", "Linux pipes, /dev/full and closed descriptors as faults.")
c("C18", "exploration", IN, "All bit patterns of 32 bit types in thorough; structured patterns of 64 bit types.")
c("C19", "exploration", IN, "All message trees to a depth and fan-out.")
c("C20", "model_checking", EX, "All field numbers to a bound, pairs across tag lengths.")
c("C21", "exploration", "exhaustive bounded input enumeration with page-protected payloads and a statement-count monitor", "Unreadable pages detect any access to payloads; statement budgets are generous constants per field.")
c("C22", "fault_enumeration", "exhaustive enumeration of write sequences x fault positions on the real StringTree", "Every argument sequence to a depth, every grouping, every fault position.")
c("C23", "model_checking", "stateless exploration of all operation histories of the real implementation over several messages sharing values", "Histories are always run from the start so that sharing is preserved; three interchangeable messages.")
c("C24", "exploration", "exhaustive enumeration of write histories of the real implementation, compared with two other implementations", "Trusts golang/protobuf 1.3.1 and gogo/protobuf 1.2.1 and their checked-in generated code.")
c("C25", "exploration", "exhaustive bounded enumeration of inputs and histories on a GOARCH=386 build of the real implementation", "The jobs of other checks, rerun with 32-bit int; needs a kernel that runs 386 executables.")
c("C26", "exploration", "stateless model checking: every history to a depth with a garbage collection and stack move injected at every call boundary of the library", "Points are call boundaries, where liveness is exact; freed memory is overwritten by the runtime (clobberfree).")
c("C27", "model_checking", EX, "All pass-on histories over seven schema versions and all pairs of generated types, to a depth; the state between programs is the byte string.")
c("C28", "exploration", "stateless model checking: preemption-bounded schedule enumeration under the race detector", "All interleavings up to the stated preemption bound at the generator's statements, with names new to the process in every schedule and with processes that begin with the schedule.")
extra = {}
NA = {}
p = os.path.join(ROOT, "tools", "na.json")
if os.path.exists(p): NA = json.load(open(p))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "verif (no hook is committed in /repo)", "enable": "the checks instrument copies of the sources and build them with go build -overlay; /repo carries no hooks", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]}); continue
    l, t, n = C[i]
    m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": t, "level": l, "level_note": n})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1); open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
