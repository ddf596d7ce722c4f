#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
CLAIMED = {
    "C01": (T + "seeded statement-level interleavings of concurrent callers, differential against each caller alone",
            "Seeded search, not proof: holds on every explored interleaving. Assumes the simulated sync.Pool covers the real one's behaviours and that a data race inside one Go statement (other than a read-modify-write of a package variable) needs no finer switch point. Callers of Rust and C run on real threads of which exactly one runs at a time, switched by the seed at allocations, releases, input accesses, error texts and calls; TypeScript callers interleave between calls and inside the text of an error."),
    "C02": (T + "seeded interleavings of pool users with simulated pool hand-out, misses and drops, ownership and content invariants",
            "Seeded search, not proof. Assumes the simulated sync.Pool covers the real one's behaviours."),
    "C03": (T + "seeded interleavings of decoder users with simulated pool hand-out, misses and drops, reference model and weak references",
            "Seeded search, not proof. Assumes the simulated sync.Pool covers the real one's behaviours."),
    "C04": (T + "seeded clusters of real implementations with damaged deliveries; crash, hang, contract and out-of-input checks",
            "Seeded search, not proof. The Rust, C and TypeScript implementations run unmodified in lock-stepped child processes."),
    "C05": (T + "seeded clusters with deliveries cut in transit and logs torn by crashes, and every-byte cuts, against an independent wire model",
            "Seeded search, not proof; whole-message cuts are tried at every byte for drawn messages."),
    "C06": (T + "seeded clusters with misrouted, duplicated and reordered deliveries and drawn wrong reads, against an independent wire model",
            "Seeded search, not proof."),
    "C07": (T + "seeded clusters with hostile lengths and counts, memory accounting of every read",
            "Seeded search, not proof. The multiple and the constant are 64 bytes per input byte, 64 KiB and 2 KiB per read."),
    "C08": (T + "seeded histories of encodes, resets, raw writes, growth, reuse and aborts against a byte-list model",
            "Seeded search, not proof. Payloads beyond 256 MiB are tried only a few times per run."),
    "C09": (T + "seeded C callers: faulty arguments, damaged inputs, interleaved handles and releases in every order, canaries around every library-owned byte, against an independent wire model",
            "Seeded search, not proof. The library runs unmodified in a C child process with guarded allocations."),
    "C11": (T + "seeded histories of decodes, input overwrites, buffer reuse, releases and collections, with a snapshot model of every returned value",
            "Seeded search, not proof. Rust's decoders return owned values, so the borrow checker settles Rust; Go, TypeScript and C are simulated."),
    "C10": (T + "seeded mixed-implementation clusters with message loss, duplication, delay, partition, crash, torn logs and upgrades, against an independent wire model",
            "Seeded search, not proof. NaN payloads are compared only between implementations that can hold them."),
    "C12": (T + "seeded histories of decodes (intact, cut, altered, absent, errors) into reused generated objects, differential against new objects",
            "Seeded search, not proof. Schemas: a fixed one with every supported shape, and drawn ones. Go only: generated Rust decoders always return new objects."),
    "C13": (T + "seeded clusters of generated code in Go v1, Go v2 and Rust with lost, duplicated, cut and altered messages, crashes, torn logs, upgrades and error replies, and seeded interleavings of callers, against an independent schema-driven model",
            "Seeded search, not proof. Generated TypeScript is left out: it imports functions the TypeScript package does not have, so it cannot run."),
    "C14": (T + "seeded histories and statement-level interleavings of all six generators with broken requests, failing helpers, panicking hooks, seeded map order, environment and clock, differential against a new generator alone",
            "Seeded search, not proof. rustfmt is a stand-in (it is not what the property is about); requests are drawn descriptors, as a protocol compiler would send them."),
    "C15": (T + "plugin programs as simulated processes: fragmented, cut and unreadable input, full disks, short writes, closed pipes, missing, crashing, stalling and complaining helpers, differential against the failure-free run",
            "Seeded search, not proof. The operating system and rustfmt are simulated; the programs run in the simulator's own process with their os, exec, time and random calls redirected."),
    "C17": (T + "seeded mixed-implementation clusters in which every delivery has one integer, length or count damaged (bits above its type, too many bytes, padding, flips), against an independent wire model",
            "Seeded search, not proof. Padded encodings that do fit may be refused or read as what they say."),
}
NA = {
    "C16": "Whether emitted source compiles and its names are distinct is a function of the schema alone: no schedule, clock, I/O, fault or second party can change it, so there is nothing for a simulator to control (the drawn schemas of C12 and C13 must compile, or those checks fail).",
}
ALL = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
PENDING = "check under construction"
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo: the checks instrument a copy of the current tree that they make and build themselves.",
}
for i in ALL:
    if i in CLAIMED:
        t, note = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + i,
                            "technique": t, "level": "exploration", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, PENDING)})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
