#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
T = "deterministic simulation with fault injection: seeded search over histories, schedules and faults"
SIM = " Exploration by sampling: quick runs 10^5 to 10^6 seeded histories, thorough runs up to 13 minutes of them. Assumes that the simulator's serial port is as nondeterministic as real ones and that the independent protocol model is right; a violation that needs a rarer coincidence than the batch holds is missed."
notes = {
 "C01": "Every packet the real client and device hand to a simulated port, in random histories with failing ports, is compared byte for byte with an independent encoder.",
 "C02": "Results and all motor registers are compared with a shadow register model after every operation of random histories on a healthy but arbitrarily slow and fragmenting bus.",
 "C03": "Every success and motor status in random histories with damaged bytes must be justified by an intact packet found by an independent scan of what the port delivered.",
 "C04": "Every success must rest on a fresh status packet of the addressed motor and the expected length; no packet serves two results.",
 "C05": "The same byte stream delivered under several seeded schedules must give the same sequence of packets and errors, equal to an independent framer's where the content is known.",
 "C06": "Adversarial bytes, port errors, empty reads, dead ports, tiny buffers: no panic (with overflow checks), no hang, no overrun of the deadline, end of every iteration.",
 "C07": "Simulated time at which calls give up compared with independently computed windows, with replies completing 2 us before or after.",
 "C08": "Results, order and remaining counts of multi reads, with spoiled single replies and abandonment, compared with the register model.",
 "C09": "Registers of all motors after sync and bulk writes compared with the register model; failed calls must leave no byte on the wire.",
 "C10": "Broadcasts: one packet, no read call, no waiting, executed by all simulated motors.",
 "C11": "Instruction streams from an independent encoder and from the real client, read in three forms with random timing, compared with an independent decoder.",
 "C12": "Chaos, then calm: the client must follow the register model again at once, the device after one read buffer of traffic.",
 "C13": "The log of port calls with uniquely numbered injected failures is compared with the result of each call.",
 "C14": "Births and deaths of instrumented values are accounted for after every result of random typed reads with failing or panicking decoders and spoiled replies.",
 "C15": "The real adapter (and serial2 and the standard library below it) runs on simulated system calls that are short, interrupted, late, refused or fail; each call is compared with what the simulated kernel knows, and client, device and register model must work through it.",
 "C16": "The real executable runs as a process on simulated system calls, terminal, line and motors; its exit status, what it prints, what it sends and what the motors did are compared with the register model and with the replies that were really sent.",
 "C17": "Threads race for the same occurrences of the macro under Miri, whose seed decides every context switch and the value of every relaxed load; each occurrence must be handed out once, zeroed, to one thread, without a data race.",
 "C19": "The same seeded runs of every client and device check are executed in separate builds of the crate (default; log with a logger that formats everything; log without a logger; no default features; no overflow checks and debug assertions); the timed traces of port calls, bytes and results must be equal.",
 "C18": "Motors set random error and alert bits; every result must carry exactly those of its reply.",
}
extra = {
 "C17": {
  "technique": "deterministic simulation of threads under Miri: seeded search over context switches and weak memory behaviours",
  "note": " Exploration by sampling: quick runs 96 or more seeds at three preemption rates plus one long single-threaded history, thorough runs 12 minutes of seeds. 33 occurrences of the macro stand for all.",
 },
}
checks = []
for p, n in sorted(notes.items()):
    checks.append({
        "property": p,
        "quick_cmd": f"bin/check.sh {p} quick",
        "thorough_cmd": f"bin/check.sh {p} thorough",
        "technique": extra.get(p, {}).get("technique", T),
        "level": "exploration",
        "level_note": n + extra.get(p, {}).get("note", SIM),
    })
na = [
 {"property": "N01", "reason": "A pure function of its input: no schedule, clock, fault, I/O or second party for a simulation to vary."},
 {"property": "N02", "reason": "Pure functions called directly with a buffer: no schedule, clock, fault, I/O or second party for a simulation to vary. (The codecs' behaviour inside transfers is covered by C02, C09 and C14.)"},
]
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
claimed = {c["property"] for c in checks}
for i in ids:
    if i not in claimed and i not in [x["property"] for x in na]:
        na.append({"property": i, "reason": "Not claimed yet: the simulation for it is being built."})
json.dump({
    "version": 1,
    "setup_cmd": "bin/setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "bin/replay.sh FILE replays a recorded violation. No hooks in /repo: every seam that is needed exists (the SerialPort trait, and the system calls below serial2).",
}, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
