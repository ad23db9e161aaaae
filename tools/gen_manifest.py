#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED: properties with a working check."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "../properties.jsonl"))]
CLAIMED = open(os.path.join(HERE, "claimed.txt")).read().split()
NA = {
    "C26": "Encoding and decoding are pure functions of their input: no schedule, clock, fault or interleaving decides them, so there is nothing for a simulator to control. Framing under short reads, truncation and disconnects is claimed under C06, C08, C09, C10 and C19.",
    "C27": "A finite table of constants: a pure function with no schedule, clock, I/O or fault in it. The codes that servers actually send are checked where they are sent (C09, C12, C22, C23, C24, C25).",
}
TECH = "deterministic simulation: seeded random schedules, network faults and workloads; "
T = {
 "C01": "exclusion invariant over device calls against recorded lock holds",
 "C02": "linearizability of recorded lock histories against a sequential lock",
 "C03": "bounded progress once obstacles are gone, deadlock and livelock detection",
 "C04": "bounded progress of a probe client after every way of leaving",
 "C05": "lock failures timed on the simulated clock, no effect and no residue",
 "C06": "sent and executed command sequences and response bytes compared",
 "C07": "reference line editor and telnet decoder against executed lines and response bytes",
 "C08": "reference model of a link's input and output buffers",
 "C09": "reference dispatcher for fragmented, truncated and malformed calls",
 "C10": "reference model of a session's messages and responses",
 "C11": "device clear at arbitrary points, stale data detection",
 "C12": "session table model under connection churn",
 "C13": "status events against service requests received per session",
 "C14": "status events against interrupt calls received per link",
 "C15": "well-behaved clients served in bounded time beside hostile ones, panic detection",
 "C16": "accept faults and limits under connection churn",
 "C17": "counting allocator over repeated histories",
 "C18": "status answers against device status and unread responses",
 "C19": "lookup answers over lossy, duplicating datagram network",
 "C20": "device calls matched with requests and replies",
 "C21": "broadcast history against a per-receiver queue model",
 "C22": "aborts at arbitrary points of core operations",
 "C23": "link table model under churn",
 "C24": "linearizability of lock replies of all protocols against a sequential lock",
 "C25": "malformed and misplaced messages with predicted error answers",
 "C28": "negotiated values of concurrent sessions against their configuration and their own requests",
}
NOTE = "Evidence over the sampled executions, not a proof. One seed is one exactly repeatable execution of the real server crates; every violation is minimised and written as a replay file (bin/replay.sh FILE reproduces it). Trusted: the simulated executor, sockets and clock (sim/simrt, sim/vendor), the reference model and the clients in sim/harness. Preemption happens at lock operations, spawns and polls; weak memory orderings are not modelled."
m = {
 "version": 1,
 "setup_cmd": "bin/build.sh",
 "checks": [
  {"property": p, "quick_cmd": f"bin/check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bin/check.sh {p}",
   "evidence_file": f"evidence/{p}.json", "technique": TECH + T[p], "level": "exploration", "level_note": NOTE}
  for p in CLAIMED],
 "not_applicable": [
  {"property": q["id"], "reason": NA.get(q["id"], "Check under construction; not claimed yet.")}
  for q in props if q["id"] not in CLAIMED],
 "notes": "The seams are the crates the servers already depend on: async-std, futures-util, futures-channel, async-channel and spin are replaced by simulated ones with cargo's [patch] in sim/harness, so /repo carries no hooks.",
}
json.dump(m, open(os.path.join(HERE, "../MANIFEST.json"), "w"), indent=1)
