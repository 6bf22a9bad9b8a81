#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after changing it)."""
import json
T = "deterministic simulation with fault injection: "
S = "Seeded search, no proof: a violation outside the explored runs can be missed. Trusts the simulator's own components (reference cursor/codec, simulated link, disk and parsers). One seed is one exactly repeatable run; every 400th run is executed twice and must give the same digest."
checks = {
 "C01": ("random operation histories with hostile operands and checkpoint/restart against a reference cursor", ""),
 "C02": ("the three parsers driven in lockstep over the same histories and damaged messages", ""),
 "C03": ("a twin parser that never sees the refused operations must stay indistinguishable", ""),
 "C04": ("damaged, spliced and retargeted messages decoded under an operation budget, against an independent reference codec", ""),
 "C05": ("simulated log on a disk with torn writes, crashes and restarts; recovery compared with what was durable", ""),
 "C06": ("simulated link with fragmentation, loss, duplication, delay and reordering; exactly-once history and bounded liveness, both peers real or reference", ""),
 "C07": ("writer histories over all targets, writer crash at every write, simulated disk target", ""),
 "C08": ("predicted lengths against bytes written through the simulated target, oversize payloads at every prefix width", ""),
 "C09": ("parser histories ended at arbitrary points against the reference cursor's leftovers; trailing-bytes faults in both decode configurations", ""),
 "C10": ("a failing source injected at every operation of a decode, transient and permanent, with retry", ""),
 "C11": ("damage confined to a length-prefixed payload, then resynchronisation", ""),
 "C12": ("counting allocator under hostile announced lengths", ""),
 "C13": ("relay chains of damaged messages, every hop checked for legality and fixpoint", ""),
 "C14": ("builder and parser histories against a segment model", ""),
 "C15": ("collection histories with panicking and lying element sources against a list model, drop accounting", ""),
 "C16": ("damaged hex text against a reference decoder", ""),
 "C17": ("skip histories against a reading twin; torn key/value logs against a linear scan", ""),
 "C18": ("the same message decoded alone and inside random positions, histories, windows and restarts", ""),
 "C19": ("applications submit numbers through every way into a ranged integer at a gateway that journals, crashes, restarts and sends them over a damaging link; every way out must denote the number put in", ""),
 "C20": ("applications submit doubles and singles through every way into a ranged float at a gateway that journals, crashes, restarts and sends them over a damaging link; stored bits must never change", ""),
 "C21": ("replicas keep sets of wrapped values that arrive over a lossy, duplicating, reordering link and survive crashes with torn journals; sets and comparisons must come out as for the bare contents", ""),
 "C22": ("publishers, a router that knows enumerations only through their metadata, and subscribers over a link that damages tags; metadata and codec must agree on every frame", ""),
 "C23": ("applications submit byte strings and text of any width through every constructor at a gateway that journals, crashes, restarts and sends them over a damaging link", ""),
 "C24": ("receivers that wait for exactly the shortage an error reports, over a link that cuts, stalls and restarts; operators and clerks whose refusals are compared with a reference cursor and with the submission", ""),
 "C25": ("values made, transmitted and shown under every formatting option on consoles and serialisers that break down at any byte and are repaired; texts compared with those of the bare contents", ""),
 "C26": ("a byte-range server over every buffer form; requests damaged, duplicated, lost and reordered by the link, operands over the whole word range; served place and length compared with the model before any byte is read", ""),
}
na = {}
import sys
import subprocess, re
src = open('/verif/sim/src/world/mod.rs').read()
have = set(re.findall(r'"(C\d\d)" => vec!', src))
m = {
 "version": 1,
 "setup_cmd": "bash build.sh",
 "checks": [
  {"property": k, "quick_cmd": f"bash check.sh {k}", "thorough_cmd": f"bash check.sh {k} --tier thorough",
   "evidence_file": f"evidence/{k}.json", "technique": T + v[0], "level": "exploration", "level_note": (v[1] + " " + S).strip()}
  for k, v in checks.items() if k in have],
 "not_applicable": [{"property": k, "reason": v} for k, v in na.items()]
  + [{"property": k, "reason": "check under construction"} for k in checks if k not in have],
 "notes": "No hooks in /repo: Parser, Target, Encode/Decode are traits the simulator implements itself. Replay a violation with: bash replay.sh <file>.",
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
