#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("offline checker of the whole cluster's released signatures under generated schedules, faults and restarts", "Sees any two conflicting signatures released in the runs made: targeted fault scripts and random schedules over coordinators, cosigners, crashes and restarts. Trusts the ed25519 verifier and the sign-bytes decoder of the harness."),
"C02": ("online monitor of every share signature a cosigner releases against its watermark, concurrent and restarting", "Every released share signature in the runs is compared with all earlier ones of that cosigner; schedules are sampled."),
"C03": ("system-call trace monitor (strace): writes, fsync, rename order before release; kills at each traced point and restart", "Kill points of the sampled signing sessions are enumerated from the trace; durability is judged by the order of system calls, not by a power cut."),
"C04": ("online verifier of every signature handed out against the exact message of the same call", "Independent verification of every released signature in generated call mixes, including followers and retries."),
"C05": ("fault injection in cosigner answers with online outcome monitor", "Enumerates answer faults (kind x position x cosigner set); outcome judged per call."),
"C06": ("offline checker over all nonce commitments and share signatures observed, with replays, restarts and concurrency", "Detects any two share signatures made with one nonce and any reuse of a commitment in the runs made."),
"C07": ("hostile-peer workload with monitor on what is accepted, released and spoiled", "Every field of an ephemeral part is altered, replayed and misdirected; decrypting attempts by third parties are monitored."),
"C08": ("enumeration of reachable cosigner sets with availability monitor", "All sets of reachable cosigners for small shapes, samples for larger ones."),
"C09": ("repeat-call monitor over coordinators and nodes", "Repeats on same node, after restart, after leadership change and concurrently are compared byte for byte."),
"C10": ("in-process complete clusters with announcement log monitor and polled state watch", "Watermarks of every node are compared with every signature released before; hostile announcements included."),
"C11": ("porcupine linearizability checker over recorded histories of separate node processes under kills and snapshots", "Linearizability decided per key by porcupine; convergence compared after barriers."),
"C12": ("Go race detector over all entry points driven at once, in process and in the built command", "The race detector reports races of the executions observed."),
"C13": ("differential monitor: the same request through follower, leader and direct calls, with independent verification of every answer", "Field-by-field comparison of forwarded and direct calls in generated request mixes, with a recording proxy on the wire."),
"C14": ("scripted hostile chain nodes over real sockets with request/response trace checker", "Every response of every session is matched with its request; malformed frames, cuts and dead nodes are injected."),
"C15": ("generated key sharings with an independent threshold-signature oracle, file round trips and damage through the real command", "All subsets of each generated sharing are tried, sharing parameters around the limits, and damaged share files."),
"C16": ("differential monitor of the decoder against an independent encoder/decoder of sign bytes, with mutated inputs", "Generated votes and proposals, all single-field changes, and mutated or random byte strings."),
"C17": ("offline checker over all signatures of real single-signer processes killed and restarted at random instants", "Every signature released in the sampled kill/restart histories is compared with all earlier ones."),
"C23": ("real cluster processes under load with elect, kill, pause and roll actions; leadership monitor and signature ledger", "Sampled action histories; an election lost to a slow machine is tolerated, a misdirected or never succeeding one is not."),
"C24": ("online occupancy monitor inside a guarded validator under concurrent sessions", "Overlap, message mix-up and result mix-up are seen in the interleavings that occurred, widened by injected delays."),
"C25": ("differential monitor of the address command against an independent bech32 and address derivation", "Generated keys, prefixes and share files."),
"C18": ("saved states compared through an independent parser of the file, damaged and unreadable files through the API and the real commands", "Generated states in any order, a cosigner's own saves, and cut, altered, torn, unreadable files; what unusual well-formed JSON is accepted is not judged."),
"C19": ("acceptance oracle over generated configurations given to the real init and start commands", "Single faults of each kind in each position on generated shapes; combinations of faults are not explored."),
"C20": ("set-model oracle over sequences of real configuration edits, with read-only and full-disk faults", "Random edit sequences; every file of the home compared before and after each."),
"C21": ("whole-home comparison around the real command with obstacles in place and each system call failing in turn", "All system calls of the command on the home fail once each (strace); a kill between two renames is outside the property."),
"C22": ("whole-home comparison around the real command, system-call trace for durability, kill and failure at each system call, live processes", "All system calls of the command on the home fail or kill it once each; positions and heights generated around each other."),
"C26": ("hostile clients on the cosigner port of real processes with monitors on survival, state files, released shares and later blocks", "Fields, streams and call mixes are generated; callers are trusted with the heights they name (they may raise watermarks)."),
"C27": ("real processes signalled at generated instants and states; exit, output, files and successor monitored", "Instants are sampled; prompt means within a bound many times what is needed."),
"C28": ("resource monitor (goroutines, open files, heap) between rounds of identical work in process", "Growth per round is judged over the number of rounds run; slower growth than the bound is not seen."),
"C29": ("search of everything real processes write (system-call trace), send, print and leave in files for the secrets behind the run", "Secrets are known to the monitor (dealt ones are opened with the test keys); encodings searched: raw, reversed, hex, base64, decimal, lists, escapes, nested twice; windows of 12 bytes."),
"C30": ("real clusters with cosigners paused, killed or replaced by dummy ports in mid-request; answer-time monitor on every chain-node session", "Fault sets, kinds and instants are sampled; the bound is 75 s where the code's own waits add up to about 10 s."),
"C31": ("migrations and operations done with the real commands and processes as documented; signing ledger over the validator before, the cluster and the single signer after; comparison of all files around every command", "Orders of operations, positions and thresholds are sampled; key files are placed by the harness as an operator would."),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
LEVEL = {"C03": "fault_enumeration"}
HOOKS = {"guard": "Go build tag verif (signer/verif.go)", "enable": "check.sh builds the monitors with go build -tags verif",
         "source_commits": ["0d451b8bd76ae9966103a4751921dd44801deb63"]}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": "./check.sh "+i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh "+i,
            "evidence_file": "evidence/%s.json" % i, "technique": "runtime monitoring: "+T[i][0],
            "level": LEVEL.get(i, "exploration"), "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "its monitor is not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": HOOKS,
     "notes": "The monitors use horcrux's exported interfaces, its network interfaces, its files and its built command; the hooks only hand out the Raft instance and state machine of a store, and a tree they do not fit is checked without them."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
