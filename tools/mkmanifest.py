#!/usr/bin/env python3
"""Writes MANIFEST.json (and checks it covers properties.jsonl). Run from anywhere."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusts the harness's own reference model and the Go toolchain; explores seeded samples, it does not enumerate."
SEQ = "reference-model monitor over recorded command sequences (virtual clock)"
LIN = "concurrent stress with injected delays; linearizability checking of recorded histories and conservation laws"
checks = {
 "C01": (SEQ, "exploration", "Every value written by any write command is read back through every read command, for a catalogue of number look-alikes and random bytes, and inside long mixed sequences compared command by command with a reference model."),
 "C02": (SEQ, "exploration", "Edits and slices compared with the same operation on a byte slice, over boundary indexes up to the 64-bit limits, with a watchdog on the time of each call."),
 "C03": (SEQ, "exploration", "Counters compared with exact big-number arithmetic at every limit and over look-alike texts; a refused increment must leave bytes and expiry alone."),
 "C04": (SEQ, "exploration", "Lifetimes checked exactly at, before and after deadlines under a virtual clock (testing/synctest) for every command, and within long mixed sequences."),
 "C05": ("monitors over the running sweeper: virtual-clock sweeps, real-time rewrite races, retained-memory accounting", "exploration", "The sweeper runs beside writers; survivors, removals and retained heap are checked."),
 "C06": (LIN, "exploration", "Recorded histories of 3-4 goroutines are checked for linearizability (porcupine) against a model with nondeterministic expiry; stress rounds check conservation laws."),
 "C07": (LIN, "exploration", "Histories of multi-key commands checked for linearizability, token snapshots for torn reads, MSetNX races for single winners."),
 "C08": (SEQ, "exploration", "Hash commands compared with a plain map, over hostile field names and values."),
 "C09": (LIN, "exploration", "Histories of hash commands checked for linearizability; creation, removal and snapshot races under stress."),
 "C10": (SEQ, "exploration", "Every command on every wrong kind, with the whole state compared before and after, and long mixed sequences without a panic."),
 "C11": ("Go race detector under a workload of all commands, sweeper, flush and replication", "exploration", "Happens-before race detection (-race) plus deadlock watchdog over all commands from many goroutines."),
 "C12": ("heap accounting after full collections, over every way to fill against every way to remove, and over churns", "exploration", "The Go heap in use is measured before, full and after; a tenth of the data may remain, and a churn may grow by 4 bytes a step."),
 "R01": ("round-trip and position monitor on a chunked connection against an independent RESP codec", "exploration", "Messages of every kind and nesting, sent and received in random chunks back to back."),
 "R02": ("fault injection on the byte stream: every cut, malformed fields, byte corruption; allocation and hang monitors", "fault_enumeration", "All cut points of the sampled messages are enumerated; corruption is sampled; allocation is measured per call."),
 "R03": ("recording fake server: exact command bytes and decoded replies for every client method", "exploration", "Each method is driven with hostile arguments and scripted replies."),
 "R04": ("race detector and exactly-once ledger on a recording server under concurrent callers", "exploration", "Many goroutines share clients of several pool sizes; the server logs each command and the open connections."),
 "R05": ("connection fault injection with a reply-ownership ledger", "fault_enumeration", "Scripts of dial, handshake, drop, cut and garbage faults; each later reply must be the caller's own."),
 "R06": ("per-connection protocol log monitor with handshake faults", "fault_enumeration", "Every combination of password, database and failing step; the log of each connection is judged."),
 "R07": ("timing monitor with delayed and late replies", "fault_enumeration", "Delays shorter and longer than the timeouts, stalled readers, idle connections."),
 "R08": ("resource monitor (/proc/self/fd, goroutine stacks, heap in use) after calls that ended in every way", "fault_enumeration", "Every listed trouble of a server, several pool sizes; what the process holds is compared before and after, without the garbage collector."),
 "D01": ("round trip and independent-encoder differential", "exploration", "Compression round trips, and streams built by an independent encoder decoded and compared."),
 "D02": ("AddressSanitizer and UndefinedBehaviorSanitizer on the C codec and -asan on its Go wrapper", "exploration", "Exact-size heap buffers around every call, all truncations and corruptions of sampled streams."),
 "D03": ("independent-encoder differential", "exploration", "All element forms and previous-length forms generated by an independent encoder."),
 "D04": ("independent-encoder differential", "exploration", "All three widths with boundary integers."),
 "D05": ("independent-encoder differential and model of the writer", "exploration", "All length forms and slack values; the package's writer compared with a map."),
 "D06": ("independent-encoder differential with position monitor under chunked delivery", "exploration", "All forms of each primitive with small read buffers."),
 "D07": ("independent snapshot writer; emitted commands replayed on a reference interpreter and datasets compared", "exploration", "Random datasets in all supported encodings."),
 "D08": ("truncation and corruption injection with panic, hang and allocation monitors", "fault_enumeration", "Every truncation point of sampled snapshots, sampled corruption, unsupported kinds."),
 "X01": ("fake master with its own dataset; whole-dataset comparison through the client", "exploration", "A loopback master with snapshots, streams in several databases and clients' own commands."),
 "X02": ("reference-model monitor over replicated commands", "exploration", "Commands applied through the replication entry point and compared with a model of the master, absent-or-equal."),
 "X03": ("fault injection on the replication link with liveness watchdog and race detector", "fault_enumeration", "Floods of unappliable commands, pings, acknowledgement failures and link loss."),
 "X04": ("contact ledger at the fake master", "exploration", "Counts and bytes of the master's commands per client call."),
 "X05": ("fault injection on the transfer; byte comparison of the stored file and the stream position", "fault_enumeration", "Chunked transfers of many sizes, refusals, cuts, unwritable targets."),
 "X07": ("resource monitor (connections at the master, /proc/self/fd, goroutine stacks) under connection faults", "fault_enumeration", "Every listed fault of connecting, repeatedly and side by side; what the process holds is compared before and after."),
 "X08": ("differential monitor: every script, call and decoding run side by side is compared with the same alone, under the race detector", "exploration", "Sampled scripts, schedules and faults; objects that are meant to be shared (the log level) are not compared."),
 "X09": ("resource monitor (heap in use, /proc/self/fd, goroutine stacks) over long streams and every way for a local copy to go", "exploration", "Streams of tens of thousands of commands of one kind; growth that goes on four times in a row counts."),
 "X10": ("cost monitor: the time of each operation at two sizes that differ by a factor of 64 is compared", "exploration", "82 operations at two sizes each; a growth of more than 12 times where none is due, or of more than 512 times where 64 is due, several times in a row counts."),
 "X11": ("history monitor: each local read must show its key as of a stream position not older than any read that returned before it started has shown", "exploration", "Sampled streams and schedules; 4-8 readers of 2-7 keys while 85 000 stream positions are applied."),
 "X06": ("offset monitor at the fake master", "exploration", "Every acknowledgement received is compared with the bytes sent."),
}
exec(open(os.path.join(V, "tools/done.py")).read())  # DONE, HOOK
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
assert set(props) == set(checks), set(props) ^ set(checks)
m = dict(version=1, setup_cmd="python3 tools/setup.py",
  hooks=dict(guard="verif", enable="go test -tags verif: run.py builds every harness with it, falling back to a build without it if the hook does not compile", source_commits=HOOK),
  checks=[], not_applicable=[])
for p in props:
    t, l, n = checks[p]
    if p in DONE:
        m["checks"].append(dict(property=p, quick_cmd="python3 run.py " + p, thorough_cmd="VERIF_TIER=thorough python3 run.py " + p,
            technique="runtime monitoring: " + t, level=l, level_note=n + TRUST))
    else:
        m["not_applicable"].append(dict(property=p, reason="its check is not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
