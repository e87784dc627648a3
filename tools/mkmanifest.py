#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RM = "runtime monitoring: "
T = {
 "C01": RM + "position-model oracle over recorded reads of seeded streams and chunkings, buffer-boundary grid",
 "C02": RM + "limit oracle, monitored transport consumption and allocation under hostile streams and zlib bombs",
 "C03": RM + "online model of the switched stream, independent zlib encoder/decoder as peer, damaged streams",
 "C04": RM + "offline exactly-once/order checker over the bytes a recording transport accepted",
 "C05": RM + "fault enumeration at every transport call, sticky-error and prefix monitors",
 "C06": RM + "event-log monitor of hook calls against an executable specification",
 "C07": RM + "round-trip oracle over generated messages and streams",
 "C08": RM + "independent wire parser as injection monitor on hostile fields",
 "C09": RM + "hang, panic and framing monitors under hostile and mutated streams",
 "C10": RM + "hang, panic and framing monitors under hostile and mutated packets",
 "C11": RM + "boundary/routing monitor of relayed messages with an independent wire parser",
 "C12": RM + "differential oracle: independent NMDC encoder and decoder",
 "C13": RM + "round-trip oracle over generated ADC messages and reordered fields",
 "C14": RM + "round-trip oracle over packet streams, independent header parser",
 "C15": RM + "escape oracle, exhaustive short strings and injection monitor",
 "C16": RM + "deep snapshots of decoded values compared after hostile later activity, alias probes",
 "C17": "Go race detector (ThreadSanitizer) under stress with injected delays, plus per-connection delivery oracle",
 "C18": RM + "round-trip and callback monitors over 14 encodings, exhaustive repertoires",
 "C19": RM + "dispatch oracle over mixed streams of known and unknown commands",
 "C20": RM + "differential oracle: independent lock-to-key reference",
 "C21": RM + "differential oracle: independent Tiger and tree hash, faulty readers",
 "C22": RM + "independent base32/hex oracle, exhaustive SIDs, single-character substitutions",
 "C23": RM + "independent SHA-256 keyprint oracle over live TLS connections, PEM files and addresses",
 "C24": RM + "fixed-point and dispatch oracle over structured and hostile addresses",
 "C25": RM + "set-model oracle with aliasing probes",
 "C26": RM + "exact-number oracle over every numeric field, exhaustive limits and short texts",
 "C27": RM + "differential oracle: independent ADC parser and writer",
 "C29": RM + "allocation, CPU, live-heap and goroutine monitors over growing inputs and long histories",
 "C28": RM + "refusal oracle over a catalogue of malformed forms, wire and neighbour monitors",
}
NOTE = {
 "C17": "No data race and no misdelivery in the explored schedules (race detector instruments every access of library and harness; start barriers, yields and sleeps vary the interleavings). Schedules that were not run are not covered.",
 "C29": "No violation in the explored inputs and histories. Bounds (400 bytes allocated per byte, 10 times the CPU time for 4 times the data, 192 KiB retained) separate linear from quadratic or unbounded behaviour, not constant factors. Trusts the Go runtime's allocation counters and the thread CPU clock; a suspected time growth is confirmed by best-of-three runs at larger sizes.",
 "C02": "No violation in the generated streams; the memory monitor compares live heap growth and bytes consumed with the limit plus a fixed allowance. Trusts the Go runtime's heap metrics.",
}
DEF = "No violation in the executions explored for the seed (counts and samples in the evidence file); the oracle is independent of the code under test. Inputs not generated are not covered; the domain of valid values is in DESIGN.md."
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
assert props == sorted(T), (props, sorted(T))
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
 "notes": "One binary (harness/cmd/vmon) holds the monitors of every property; check.sh rebuilds it from /repo's working tree. No hooks are needed in /repo: transports, callbacks and registries give every observation point."}
for p in props:
    m["checks"].append({"property": p, "quick_cmd": "./check.sh " + p,
      "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
      "evidence_file": "evidence/%s.json" % p, "technique": T[p], "level": "exploration",
      "level_note": NOTE.get(p, DEF)})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
