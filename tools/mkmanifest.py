#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
std = ("Every observed result was compared with independent reference arithmetic, in a build with overflow checks and debug "
       "assertions and in a release build, with panics and calls that do not return as violations. Held on the executions counted in "
       "the evidence, a structured sample of the inputs. Trusts the reference arithmetic in harness/src/ref*.rs")
notes = {
 "C12": "Statistics at 7 standard deviations on recorded streams; logarithms of sampled points cannot be seen, so for points uniformity rests on bit influence, collisions and coordinate statistics.",
 "C15": "Results of shuffled, repeated and concurrent calls compared bit for bit and with predicted exponents, and a ThreadSanitizer build without reports. The interleavings are those that occurred.",
 "C16": "Five builds (serde/borsh, checked/release, unoptimised) run the other properties' oracles and a common transcript that is compared case by case. The same in two 32-bit builds (WebAssembly, in node). A small workload runs under Miri for a 32-bit and a big-endian target and must give the native results; a few monitored scalar, integer and codec cases run there too. Other compilers are not run.",
 "C18": "CPU time of the thread (least of several runs, remeasured with care before it counts), peak heap from a counting allocator, a 2 MB stack and bytes drawn, each against ordinary inputs in the same process. Bounds are factors with room for noise: a slowdown below sixteen times is allowed.",
 "C17": "AddressSanitizer, MemorySanitizer, memcheck with leak check, Miri on small workloads (without the pairing in the quick tier) and an allocation balance: no report on the executions counted in the evidence.",
}
tech = {
 "C12": "runtime monitoring of sampling on recorded generator streams (validity, determinism, chi-square, bit influence)",
 "C14": "offline checking of operation histories against an exponent model",
 "C15": "history and concurrency monitoring against an exponent model, plus ThreadSanitizer",
 "C16": "differential runtime monitoring of seven builds (two of 32 bits) and two further targets, with overflow checks and assertions on",
 "C18": "runtime monitoring of cost: CPU time, peak heap, stack and generator draws against ordinary inputs",
 "C17": "AddressSanitizer, MemorySanitizer, Miri, valgrind memcheck and an allocation-balance monitor",
}
checks = []
for i in range(1, 19):
    p = "C%02d" % i
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py run %s --tier quick" % p,
        "thorough_cmd": "python3 check.py run %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": tech.get(p, "runtime monitoring with a reference-model oracle, panic and non-termination monitors"),
        "level": "exploration",
        "level_note": notes.get(p, std + "."),
    })
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through the public interface and the codecs. Seed from VERIF_SEED."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
