#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
SIM = "deterministic simulation with fault injection"
sess = dict(
 C01="seeded delivery, delay and loss schedules over many concurrent sessions of the real handshake code; oracle: independent Noise reference, agreement of both ends",
 C02="seeded adversary schedules (drop, duplicate, reorder, alter, replay, splice across sessions) against the real handshake code; oracle: matching-conversation check over the recorded history",
 C03="seeded impostor responders and relays (reference implementation as adversary) against the real initiator; oracle: identity of the completed peer",
 C04="seeded hostile substitutions of messages and records in multi-session runs; oracle: error values only, other sessions unaffected",
 C05="seeded lossy, reordering, duplicating, corrupting network between real record ciphers; oracle: small counter reference model and payload equality",
 C06="the same network over real ciphers with generated rotation policies; oracle: reference rotation schedule",
 C07="real handshake primitives against an independent Noise peer over a faulty exchange; oracle: byte equality with the reference",
 C22="seeded plans of parties which exchange keys and ciphertexts over an altering network and restart; oracle: independent model of round-1 Kyber, agreement of both ends, no two ciphertexts with one secret",
 C23="seeded plans of parties which sign, send and verify over an altering network and restart; oracle: the history says which (key, message, signature) were made",
 C27="seeded plans of parties which pass points along, combine keys and hand over numbers over an altering network and restart; oracle: the curve libraries used directly, without rac",
 C24="seeded plans of parties which send or store encoded objects of 21 kinds; altered in transit, torn by a restart; oracle: the value that was encoded, refusal of short and surplus bytes, no crash",
)
note = "Samples seeded runs, no exhaustiveness. Trusts the independent reference and the crates sha2/sha3/hkdf/aead/curve25519-dalek it shares with the code."
vs = {}
vsnote = ""
exec(open(os.path.join(root, 'tools/vsim_manifest.py')).read()) if os.path.exists(os.path.join(root, 'tools/vsim_manifest.py')) else None
checks = []
for d, n in ((sess, note), (vs, vsnote)):
    for k, t in d.items():
        checks.append(dict(property=k, quick_cmd="./check.sh " + k, thorough_cmd="./check.sh " + k,
          evidence_file="evidence/%s.json" % k, technique=SIM + ": " + t, level="exploration", level_note=n))
na = []
claimed = {c["property"] for c in checks} | {n["property"] for n in na}
for l in open(os.path.join(root, 'properties.jsonl')):
    i = json.loads(l)["id"]
    if i not in claimed:
        na.append(dict(property=i, reason="The simulator for this part is not built yet."))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
  hooks=dict(guard="none", enable="No hooks in /repo: the simulator interposes the C library's system-call layer under the unmodified binaries.", source_commits=[]),
  notes="See DESIGN.md.")
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
