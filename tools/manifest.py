#!/usr/bin/env python3
"""Writes MANIFEST.json (run: python3 tools/manifest.py > MANIFEST.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Every outcome of the real code on the explored calls is one the TLA+ specification (spec/KMS.tla) allows; the specification's own consequences are model-checked "
        "exhaustively over toy primitives. Trusts TLC, the JDK's SHA-2/HMAC/NFKD/GB18030, and the recording harness; canaries (damaged traces) must be refused in every run. "
        "Bounded by the calls explored: inputs outside the generated classes are not covered. ")
EXTRA = {
 "C24": "Derivation refusals are explored with a key type of the specification's own (ToyKey.tla) plugged into the crate's generic code; with secp256k1 they cannot be reached.",
 "C14": "Nonce reuse is judged over all signatures of a session.",
 "C15": "Observes every heap release through the global allocator; in-object buffers that are moved by the caller are not observable.",
 "C17": "Freshness is statistical: a correct generator fails with probability below 1e-9. How much of the system's randomness an entropy carries is decided with getrandom(2) scripted by the harness (its own definition of libc's syscall).",
 "C19": "Schedules are those the operating system produced over dozens of fresh processes, plus several call orders; not an exhaustive schedule enumeration of the real code.",
}
checks = [{"property": p["id"], "quick_cmd": f"bin/check {p['id']}", "thorough_cmd": f"bin/check {p['id']}", "evidence_file": f"evidence/{p['id']}.json",
           "technique": "TLA+ specification model-checked with TLC; behaviours generated from it replayed on the real code; recorded traces validated against it by TLC",
           "level": "model_checking", "level_note": NOTE + EXTRA.get(p["id"], "")} for p in props]
print(json.dumps({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [], "notes": "No hooks in /repo: everything is observed through the public API (and a global allocator in the harness)."}, indent=1))
