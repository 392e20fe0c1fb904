#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the tables below and properties.jsonl."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
props = {}
for l in open("properties.jsonl"):
    p = json.loads(l); props[p["id"]] = p

SIM = "deterministic simulation: seeded scheduler over real threads, locks, clocks and timers"
FAULT = "deterministic simulation with fault injection"
DEVSIM = "deterministic simulation with fault injection: simulated quantum device"
CLAIMS = {
 "C01": (SIM + "; state-vector equivalence oracle", "Seeded search over schedules, timeouts, rule sets and circuits of at most 5 qubits; trusts the harness's own simulator of circuits."),
 "C02": (SIM + "; history check against the costs of all circuits produced", "Seeded search; only circuits handed over before the stop was decided count."),
 "C03": (SIM + "; bounded-liveness check under fair scheduling after the limit", "Seeded search; 'few steps' is measured in circuits taken up per thread once faults stop."),
 "C04": (SIM + "; reference priority queue and reachable-set oracle", "Seeded search; exact in sequential mode, sound approximation in shared-queue mode."),
 "C05": (FAULT + ": worker panics at drawn points", "Seeded search over panic sites and schedules."),
 "C06": (SIM + "; log rows checked against the history", "Seeded search; log storage injects short and interrupted writes."),
 "C07": (FAULT + ": short, interrupted, failing and lost stream calls, truncated and damaged data; canonical-form comparison", "Seeded search over programs, envelope formats, buffering and fault plans; panics inside hugr-core on damaged payloads are a known finding."),
 "C08": (FAULT + ": simulated disk and streams; proposed rewrites compared with the original rewriter", "Seeded search over nine rule sets, circuits and fault plans."),
 "C09": (FAULT + ": simulated disk and streams; state-vector and command-list oracles on the reloaded circuit", "Seeded search over circuits of at most 4 qubits and fault plans."),
 "C10": (FAULT + ": the tools' real main functions as simulated processes with a simulated disk, output streams and signals", "Seeded search over command lines, inputs, schedules, clock jumps and fault plans; the tools' sources are compiled as a library from /repo, with process exit replaced by an unwinding stand-in."),
 "C11": (SIM + "; injected processor deaths; programs compared on a reference interpreter with a simulated quantum device", "Seeded search over generated programs, encoded regions, schedules of the threads processing the circuits, hash seeds and processor deaths; futures that leave the encoded circuits are a known finding."),
 "C12": (SIM + "; injected panics in shared encoders; results compared with those of lone threads", "Seeded search over schedules, circuits, types and panics. Encoder configurations are not Send, so only decoder configurations and type translators are shared between threads; encoder configurations are reused in one thread, also after a panic."),
 "C13": (SIM + "; state-vector and structural oracles on the reassembled circuit", "Seeded search over circuits of at most 5 qubits, chunk sizes, schedules, hash seeds and replacements."),
 "C14": (SIM + "; the same call in forked processes with other hash seeds, addresses, clocks, schedules and histories", "Seeded search over thirteen kinds of calls; the numbering of automaton states and of LLVM values that two dependencies choose by hash order are known findings."),
 "C15": (DEVSIM + " (before and after lowering, on a reference interpreter)", "Seeded search over generated programs (at most 5 live qubits), pass settings, measurement outcomes and evaluation orders; three dependency defects are known findings."),
 "C16": (DEVSIM + " driving the generated machine code", "Seeded search over generated programs, optimisation levels, outcomes, random numbers, qubit numbering, dirty qubits and failed allocations; trusts the harness's interpreter and device model. Accesses outside a heap block are seen through guard pages, others only if they crash or change behaviour."),
 "C17": (DEVSIM + "; reference-count ledger of measurement handles", "Seeded search, programs rich in lazy measurements and handles passed through control flow."),
 "C18": (DEVSIM + "; ledgers of qubits and heap blocks, failed allocations", "Seeded search; heap blocks never freed are not claimed."),
 "C19": (DEVSIM + "; order of operations around each barrier", "Seeded search over barriers on qubits wrapped in arrays, tuples and arrays of options."),
 "C20": (DEVSIM + ": failing GPU library", "Seeded search over programs with GPU calls and one failure per shot at a drawn call."),
 "C21": (DEVSIM + "; history of delivered records compared with the reference", "Seeded search, programs rich in results of every kind, with early stops."),
 "C24": (SIM + "; processes whose first library calls come from several threads at once", "Seeded search over schedules and first calls; sequentially consistent memory only."),
 "C23": (DEVSIM + " (before and after each pass, on a reference interpreter)", "Seeded search over generated programs, passes, their settings and regions, outcomes and evaluation orders; three dependency defects are known findings."),
 "C22": (DEVSIM + "; history of random device calls compared with the reference", "Seeded search; the refusal of a second context is a known finding."),
 "C25": (DEVSIM + " running the resolved program, with drawn hash seeds and evaluation orders; state-vector model of the modifiers", "Seeded search over generated functions and modifier stacks on at most a few qubits; states compared up to a global phase."),
}
NA = {
 "C26": "commutation-based optimisation is a pure function of the circuit; no source of nondeterminism for a simulator to control",
 "C27": "costs, hashes and command iteration are pure functions of the circuit",
 "C28": "pattern matching is a pure function of patterns and circuit",
 "C29": "subcircuit extraction and replacement are pure functions of the circuit",
 "C30": "parameter expression parsing is a pure function of the string",
}
checks = []
for pid, (tech, note) in CLAIMS.items():
    checks.append({"property": pid, "quick_cmd": f"./check.sh {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {pid}",
        "evidence_file": f"evidence/{pid}.json", "technique": tech, "level": "exploration", "level_note": note})
na = [{"property": p, "reason": NA.get(p, "not claimed yet: the scenario for it is still being built")} for p in props if p not in CLAIMS]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "cfg(tket_verif)", "enable": "sim/qis/build.rs sets it for the harness's own build of /repo/qis-compiler/rust/lib.rs (C16-C22)", "source_commits": ["03ee2bc"]},
     "checks": checks, "not_applicable": na,
     "notes": "replay: ./replay.sh ID replays/FILE. See DESIGN.md."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
