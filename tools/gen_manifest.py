#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "explicit-state model checking of the real code: exhaustive enumeration of operation histories against an executable reference model"
FLT = "exhaustive fault enumeration on the real code: every position of failing storage calls after every short history"
INP = "exhaustive enumeration of bounded input spaces on the real code against an executable reference model"
T = {
 "C01": (SEQ, "All histories up to a depth over four-key alphabets of forced shapes, and all insertion/deletion permutations of larger sets. Keys and values outside the enumerated families are not covered."),
 "C02": (SEQ, "As C01 with reload as an operation at every point; live and reloaded trees run in lockstep."),
 "C03": (SEQ, "Key pairs at each of the 256 divergence depths, triples, edge keys and keys equal to digests of stored nodes, with all short scripts."),
 "C04": (SEQ, "The complete store content is compared with the reference node set after every operation of every enumerated history."),
 "C05": (SEQ, "From every state reached by short histories: all no-ops, undo pairs and commuting pairs."),
 "C06": (FLT, "Every storage call of every operation after every short history fails (before or after taking effect, or all from there on), followed by every next operation; one and two failures."),
 "C07": (FLT, "Every stored node lost or given an invalid marker, in every state of short histories, under every operation."),
 "C08": (SEQ, "All sizes up to a bound and all lists over adversarial alphabets, all interleavings of push, root and prove to a depth, against RFC 6962."),
 "C09": (SEQ, "Every index of every size up to a bound plus invalid indices across 64 bits, with an independent verifier; with and without overflow checks."),
 "C10": (SEQ, "Every sequence of push/reload/rollback to a depth and every (stored, loaded) size pair up to a bound; counts across 64 bits."),
 "C11": (SEQ, "Complete store content and every write compared with the perfect-subtree model."),
 "C12": (FLT, "Every failing call of push, prove and load at every size up to a bound, with every follow-up."),
 "C13": (FLT, "All subsets of lost entries of small trees; all singles and pairs of larger ones; all loads and proofs."),
 "C14": (INP, "Structured leaf counts over the whole 63-bit range on a virtual store, with all structured indices and further pushes; with and without overflow checks. Counts outside the structured families are not covered."),
 "C15": (SEQ, "All lists over fee/data alphabets to a depth, all interleavings of push and root; totals beyond 64 bits in both build modes."),
 "C16": (SEQ, "Complete store content after every push and root query of every enumerated history."),
 "C17": (FLT, "Every failing call of push and root at every size up to a bound, with every follow-up; one and two failures."),
 "C18": (INP, "Every position below 2^28 (quick) or 2^32 (thorough) and structured positions of all 64 rows, against 128-bit arithmetic; with and without overflow checks."),
 "C19": (INP, "Every leaf of every size up to a bound, and structured sizes and leaves to 2^63; with and without overflow checks."),
 "C20": (SEQ, "Every operation sequence to a depth over colliding keys, against a list of pairs."),
 "C21": (SEQ, "In-memory and storage-backed trees in lockstep over every operation sequence to a depth."),
 "C22": (INP, "All contents over alphabets imitating encodings, all roots pairwise distinct; relies on SHA-256 collision resistance beyond the bound."),
 "C23": (INP, "Every proof and every enumerated tampering for every size up to a bound; structured 64-bit counts."),
 "C24": (SEQ, "One exhaustive battery run in the four builds {std, no_std} x {with, without overflow checks}; outcomes compared line by line."),
 "C25": (INP, "Every root and leaf among the first 2^13 (quick) or 2^16 (thorough) leaves and structured roots and leaves of all 64 heights; with and without overflow checks."),
 "C26": ("exhaustive enumeration of interleavings of operations on several trees of the real code, between and inside operations at every storage access, compared with each tree alone", "Every interleaving of two scripts of 3 (quick) or 4 (thorough) operations on every pair of six kinds of tree, on one thread and handed step by step to two; every operation of every kind of tree run inside every operation of another at each of its storage accesses; every order of the storage accesses of two operations on two threads, of two trees and of one tree read by both. The library has no synchronisation of its own; code between two storage accesses is not interrupted."),
 "C27": (SEQ, "Storage accesses counted at every push up to a bound, at structured counts over 63 bits, and for sparse trees of up to tens of thousands of keys and key pairs at all 256 depths; the limits are a few times what the operations need."),
 "C28": ("exhaustive fault enumeration on the real code: every invalid index, lost node, undecodable node and failing call of every operation; kind, Debug and Display of the reported error compared", "Binary trees of up to 150 (quick) or 400 (thorough) leaves and peaks over 63 bits; sparse trees of up to 14 or 40 entries of five families; all 254 invalid markers."),
 "C29": ("exhaustive enumeration of crash points on the real code: every prefix (for pushes and updates every part) of an operation's recorded writes, restart, and on to a fixpoint", "Breadth-first search over interrupted operations to a fixpoint for 2 and 3 keys; every interruption after every history of up to 5 operations; trees of up to 36 entries and 300 leaves (quick)."),
 "C30": (SEQ, "All 8^7 (quick) or 8^8 (thorough) sequences of operations against a list."),
 "C31": (INP, "All byte strings of up to 2 (quick) or 3 (thorough) bytes and every length up to 300; all sparse cases of up to 4 or 5 steps over three keys with right, wrong and malformed expectations; every proof of every size up to 72 or 150 with enumerated tamperings. Base64 texts with missing or surplus padding are not claimed; malformed cases are only required not to pass."),
 "C32": (SEQ, "All operation sequences on two sparse and on two sum trees in one store to a depth of 5 and 7 (quick) or 6 and 8; all sequences over six kinds of store, one holding foreign entries under keys a tree might look at; binary trees of every size up to a bound over stores with stale entries under each and all keys."),
 "C33": (SEQ, "Live and peak memory metered around every operation: every push up to 150,000 (quick) or 2,200,000 leaves, structured counts over 63 bits, sparse trees of up to tens of thousands of keys and key pairs at all 256 depths, contents of every length of a family, and long series of short-lived trees; the limits are about ten times what the operations need."),
}
FLTS = {"C06", "C07", "C12", "C13", "C17", "C28", "C29"}
m = {
 "version": 1,
 "setup_cmd": "./check.sh setup",
 "checks": [
  {"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
   "technique": t, "level": "fault_enumeration" if p in FLTS else "model_checking",
   "level_note": n + " Trusts the sha2 crate (checked against published vectors), rustc, and the reference models in harness/src/refm.rs."}
  for p, (t, n) in T.items()],
 "not_applicable": [],
 "notes": "No hooks are needed: everything is observed through the public interface and the caller-supplied storage. Genuine defects found and repaired are listed in KNOWN_FINDINGS.txt.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
