#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
COMMON = ("The reference encoder, decoder, X25519 and PBKDF2 of harness/src are trusted, as are ring's Ed25519, SHA-256, "
          "HMAC and AEAD; holds for what the generators reach, as counted in the evidence.")
T = {
 "C01": ("stateful property-based testing: all legal orders of the negotiation enumerated, generated sessions with user messages in between", "exploration", ""),
 "C02": ("property-based round trip over generated sizes, contents, configurations and session lengths", "exploration", ""),
 "C03": ("property-based round trip of recursive typed values over all format pairs, generated malformed formats", "exploration", ""),
 "C04": ("model-based generation of attacker histories against a reference state machine and an authentication oracle over the history", "exploration", ""),
 "C05": ("generated and enumerated alterations of encrypted messages against the set of messages the peer wrote", "exploration", ""),
 "C06": ("generated delivery schedules with duplicates against a set model, long windows", "exploration", ""),
 "C07": ("structure-aware fuzzing of every read function and call sequence in every state, panics caught", "exploration", ""),
 "C08": ("stateful property-based testing of histories with a failure against a reference state machine", "exploration", ""),
 "C09": ("bounded-exhaustive words of operations plus generated histories against a reference state machine", "exploration", ""),
 "C10": ("metamorphic: generated history with and without the refused events", "exploration", ""),
 "C11": ("differential: emitted bytes decoded by an independent implementation, which also interoperates in both directions", "exploration", ""),
 "C12": ("differential acceptance against a strict reference decoder over generated field mutations that are re-signed and re-encrypted", "exploration", ""),
 "C13": ("generated sessions: leakage search, key derivation from the private keys, sensitivity to and distinctness of the entropy drawn", "exploration", ""),
 "C14": ("stateful generation of clone trees against a reference model of the handles", "exploration", ""),
 "C15": ("fault injection: every failing byte position and generated piecewise or interrupted sinks", "fault_enumeration", ""),
 "C16": ("generated configurations and sizes; the emitted deflate stream and format header against the configuration", "exploration", ""),
 "C17": ("generated seeds and entropy; announced key and signatures against independent Ed25519", "exploration", ""),
 "C18": ("metamorphic: generated interleavings of sessions, one thread or several, against each session alone; cross delivery", "exploration", ""),
 "C19": ("generated histories under a scanning allocator and in-place drops", "exploration", ""),
 "C21": ("generated sessions and announced lengths under a counting allocator, against bounds on what may be kept", "exploration", ""),
 "C22": ("generated histories; all text produced (Debug, log, output, panics) searched for the secrets in many encodings", "exploration", ""),
 "C23": ("differential: generated sessions run in ten builds with different features against the build with all", "exploration", ""),
 "C24": ("generated single flaws in messages and refused calls in every state, against a table of the documented errors", "exploration", ""),
 "C20": ("bounded-exhaustive words plus generated histories of early messages against a reference state machine", "exploration", ""),
}
main = open(os.path.join(ROOT, "harness/src/main.rs")).read()
checks, na = [], []
for i in ids:
    if f'"{i}" =>' in main:
        tech, level, note = T[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "technique": tech, "level": level, "level_note": (note + " " + COMMON).strip()})
    else:
        na.append({"property": i, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
     "notes": "The harness drives the public API and overrides getrandom in its own binary. Replay: bash check.sh <id> --replay <file>.",
     "hooks": {"guard": "pkstl_verif", "enable": "RUSTFLAGS=\"--cfg pkstl_verif\" (build.sh sets it; only C19 uses what it exposes)",
               "source_commits": ["120ea72"]}}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
