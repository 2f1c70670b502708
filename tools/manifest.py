#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]

INPUTS = "exhaustive enumeration of the environment's choices, executing the real code under a controlled runtime"
SCHED = "stateless model checking of the real code: all schedules and environment choices within a deviation bound"
RACE = "stateless model checking of the real code with a happens-before race detector on every execution"

TRUST = ("Trusted: the source rewriter and controlled runtime (goroutines, channels, sync, time replaced; executions are repeated and must come out identical), "
         "the simulated unit and the reference codec written from the protocol description. ")

T = {
    "C01": (INPUTS, "Encoder, decoder and a request/answer exchange compared with an independent codec on an enumerated set of payloads: all strings over the special bytes up to a length, every byte at every position, every length. Not all 256^255 payloads."),
    "C02": (SCHED, "Every cut of each answer into two and three pieces plus byte by byte, with pauses; schedules of reader and caller up to one preemption (two deviations deeper)."),
    "C03": (INPUTS, "Every single-byte substitution, insertion, deletion and truncation of the sample answers, followed by silence or end of stream. Multi-byte damage is not covered."),
    "C04": (SCHED, "Catalogue of deviating answers at each step of the exchange, all commands and answer commands; schedules with one deviation (thorough: two)."),
    "C05": (SCHED, "All answers up to 4 (thorough: 6) bytes over the control alphabet, all partial writes, and schedules with one deviation."),
    "C06": (SCHED, "All sequences of up to 3 (thorough: 4) pieces of noise, floods, control sequences and pauses, in virtual time."),
    "C07": (SCHED, "One and two (thorough: three) failed exchanges of every kind followed by every sequence of three healthy ones."),
    "C08": (SCHED, "Two callers with two deviations, three callers with one (thorough: one more each), with and without faults."),
    "C09": (INPUTS, "All values of each parameter, all modes x speeds, stored profiles with special bytes at every pair of positions."),
    "C10": (INPUTS, "All byte values at all positions, all adjacent pairs, all sizes and answer types of the eight messages, against independent decoders."),
    "C11": (SCHED, "Two setters with two deviations, three with one (thorough: one more each), with faults; the final state is compared with all serial orders."),
    "C12": (SCHED, "All sequences of two (thorough: three) refresh steps with faults at every exchange, and readers concurrent with refreshes."),
    "C13": (SCHED, "All requests from a table of 32-bit values x levels, ramps, faults (two, thorough three) and schedules with one (thorough: two) deviations, in virtual time."),
    "C14": (SCHED, "All requests from a table of 32-bit values x stored profiles, faults (two, thorough three) and schedules with one (thorough: two) deviations."),
    "C15": (SCHED, "All values up to 300 and larger ones x current temperatures; sequences of three calls with two (thorough: three) faults."),
    "C16": (SCHED, "All pairs (two deviations) and chosen triples (one deviation) of changing calls; results compared with all serial orders."),
    "C17": (SCHED, "All pairs and triples of calls with schedules or faults, each followed by every call once more in a healthy environment; the runtime reports deadlocks and panics."),
    "C18": (SCHED, "All cache types with up to two faulty reads; two and three concurrent flushes with the worker's ticks."),
    "C19": (SCHED, "Hours of virtual time with flushes at offsets around the ticks, schedules with one deviation for the 5 s readings."),
    "C20": (RACE, "Every execution runs under the Go race detector with the controlled runtime's own synchronisation hidden from it, so a report depends only on the code's synchronisation. Pairs of calls with one deviation."),
    "C21": (SCHED, "The real router and generated clients over an in-process transport, all methods, both encodings, against literal encodings written by hand."),
    "C22": (INPUTS, "The real Python client against stand-ins for its two libraries (a protobuf runtime reading the embedded descriptor, and a Twirp transport); all argument values in and around the ranges, all completion orders of overlapping calls."),
    "C23": (INPUTS, "The real binary in every combination of flags, environment and target; real time and loopback network, a finite configuration space enumerated completely."),
}
T_CLAIMED = [i for i in IDS if i not in set(os.environ.get("SKIP", "").split())]

m = dict(
    version=1,
    setup_cmd="./check setup",
    checks=[dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i, evidence_file="evidence/%s.json" % i,
                 technique=T[i][0], level="model_checking", level_note=T[i][1] + " " + TRUST.strip() if i not in ("C22", "C23") else T[i][1]) for i in T_CLAIMED],
    not_applicable=[dict(property=i, reason="no check yet") for i in IDS if i not in T_CLAIMED],
    notes="No hooks in /repo: the checks rewrite a copy of the working tree onto a controlled runtime. See DESIGN.md.",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
