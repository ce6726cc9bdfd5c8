#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; a property without a bin under mc/src/bin is not claimed."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"; EX = "exploration"; FE = "fault_enumeration"
W = "Bounded exhaustive: every execution inside the bounds printed in the evidence is run on the real client inside a closed world (transport, random source and peer under harness control); trusts the independent reference peer in mc/src/reftls.rs."
A = "Bounded exhaustive: every point of the stated operand lattice is evaluated on the real code and compared with an independent oracle; says nothing about operands outside the lattice."
T = {
 "C01": (MC, "explicit-state exploration of the real client against every enumerated conforming server", W),
 "C02": (MC, "explicit-state exploration: depth-first enumeration of all peer message sequences, real client as transition relation, reference automaton as oracle", W),
 "C03": (MC, "explicit-state exploration: every single-byte tampering of every handshake message in both directions, all Finished forgeries", W),
 "C04": (MC, "explicit-state exploration: complete enumeration of every negotiated parameter's value space", W),
 "C05": (EX, "exhaustive enumeration of point encodings over a corner lattice, integer-arithmetic oracle, bound to the handshake by replay", A),
 "C06": (MC, "explicit-state exploration: all request sequences up to a depth against the RFC 5246 stream", A),
 "C07": (MC, "explicit-state exploration: all operation sequences to a depth, every emitted record opened by the reference peer", W),
 "C08": (MC, "explicit-state exploration: all attacker action sequences to a depth on the record stream, exhaustive bit flips", W),
 "C09": (FE, "exhaustive fault enumeration: a transport write failure at every byte x all follow-up operation sequences, keystream-reuse oracle", W),
 "C10": (MC, "explicit-state exploration: all transport schedules (cuts, interruptions, uniform chunks) compared with the ideal transport", W),
 "C11": (MC, "explicit-state exploration: all record compositions x all read-size sequences, with a peer that never answers early", W),
 "C12": (MC, "explicit-state exploration: all server item sequences to a depth x read schedules, with a peer that stalls after the end", W),
 "C13": (MC, "explicit-state exploration: exhaustive byte, length and type mutations and injections in every protocol state, panics and livelocks trapped", W),
 "C14": (MC, "explicit-state exploration: every failing peer behaviour classified, error kind and alert on the wire against a reference table", W),
 "C15": (MC, "explicit-state exploration of the codecs: all byte strings over bounded alphabets and all single mutations against an independent grammar", A),
 "C16": (MC, "explicit-state exploration: all fragmentations of handshake streams, ChangeCipherSpec at every position", W),
 "C17": (MC, "explicit-state exploration: all 65536 record lengths in both protection states", W),
 "C18": (EX, "exhaustive enumeration of lengths and corner keys against an independent RFC 8439 implementation, all single-bit forgeries", A),
 "C19": (EX, "exhaustive enumeration of message and key lengths against an independent SHA-256", A),
 "C20": (EX, "exhaustive enumeration of operand pairs over a corner lattice, integer-arithmetic oracle", A),
 "C21": (EX, "exhaustive enumeration of scalars over a corner lattice x points, affine integer-arithmetic oracle, complete double-and-add trace", A),
 "C22": (MC, "exploration of the random source: every bit of the drawn stream flipped, all corner candidates scripted", W),
 "C23": (MC, "explicit-state exploration over a buffering transport: all operation and failure sequences, peer sees only flushed bytes", W),
 "C24": (FE, "exhaustive fault enumeration: transport end or failure at every byte of either direction", W),
 "C26": (EX, "exhaustive comparison of execution traces (every basic block, load and store address, divisor, slice comparison of the real optimised code) over families of secrets that differ in one bit, one position or one corner value", "Bounded exhaustive over the families printed in the evidence: each member runs on the real code, compiled with LLVM's coverage callbacks, and its trace must equal the family's; observes the code after optimisation but before code generation."),
 "C27": (MC, "explicit-state exploration with every heap block of the real code accounted: all length fields, all operation words repeated over long connections, all ways a connection ends", W),
 "C28": (MC, "explicit-state exploration: all schedules of transport calls (cuts, interruptions, ends, failures) an integer or block can meet, all values of small widths", A),
 "C25": (MC, "explicit-state exploration: all interleavings of two connections at transport-event granularity within bounds", W),
}
checks, na = [], []
for i, (lv, te, note) in sorted(T.items()):
    if os.path.exists(f"{root}/mc/src/bin/{i.lower()}.rs") or i == "C26":
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
                           evidence_file=f"evidence/{i}.json", technique=te, level=lv, level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
         notes="No hooks: every check drives husk through its public API. See DESIGN.md.")
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1); open(f"{root}/MANIFEST.json", "a").write("\n")
