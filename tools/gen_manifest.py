#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
T = {
 "C01": ("property-based testing: stateful operation histories against an independent SHA-2", "Every length to 1100 and generated longer lengths and histories; an independent reference (constants derived from prime roots)."),
 "C02": ("property-based testing against an independent HMAC/HKDF", "Generated keys around the block size, histories of updates, every output length; trusts the reference."),
 "C03": ("property-based differential testing against an independent AES-GCM", "Every pair of small lengths and generated longer ones, all key sizes; trusts a bit-serial GHASH and table-free AES reference."),
 "C04": ("property-based differential testing against an independent RFC 8439 implementation", "Directed limb extremes for Poly1305; counters that would overflow are excluded (documented panic)."),
 "C05": ("fault-injecting property-based testing (bit flips, truncation, splicing) of sealed messages", "Every bit of every component for small messages, generated modifications beyond."),
 "C06": ("property-based differential testing against a schoolbook bignum", "Directed operands (extreme limbs, constructed divisions) for every width offered; trusts the reference bignum."),
 "C07": ("property-based differential testing against a sign-magnitude bignum", "All pairs of edge values and generated pairs, for the widths offered."),
 "C08": ("property-based differential testing modulo 20 primes", "Tiny fields exhaustively, edge pairs and generated elements elsewhere."),
 "C09": ("stateful property-based testing against an independent group implementation", "Histories on point registers, pairs with chosen relations, directed scalars."),
 "C10": ("property-based testing with constructed forgeries against the reference verification equation", "Signing with scripted nonces; verification over generated, tampered and solved triples."),
 "T01": ("property-based testing of the C interface against an independent ClientHello decoder and model", "All flag combinations, all name lengths, generated lists; randomness is scripted through the getrandom dependency; trusts the decoder."),
 "T02": ("fault-injecting property-based testing with a scripted randomness source", "Fails the source at every draw and feeds chosen streams; what is random is judged by dependence on the stream."),
 "T03": ("property-based differential testing: an independent RFC 8446 server talks to the client", "Generated servers with their own key schedule and AEADs, and servers with one wrong step; up to the certificate stage, where this client is unimplemented."),
 "T04": ("metamorphic property-based testing: one message sequence under many framings and deliveries", "Generated framings, paddings, read and write sizes compared with the plainest delivery; every boundary of small sequences."),
 "T05": ("fault-injecting property-based testing: transport failures at generated and at all single positions", "Every single transport call of chosen exchanges fails once, and generated sets of failures; compared with the uninterrupted run."),
 "T06": ("structure-aware fuzzing of server flights (plaintext and re-protected) with a survival and watchdog oracle", "Mutated and random flights at every layer in child processes built with overflow checks; a bounded number of cases, no proof of absence."),
 "T07": ("fault-injecting property-based testing of record streams (bit flips, replay, reordering, injection)", "Every bit of small flights, generated tampering elsewhere; an independent peer re-protects records."),
 "T08": ("property-based testing: generated deviations of valid server messages against an acceptance model", "Each deviation alone and in pairs over generated configurations, with the set of alerts RFC 8446 allows; trusts the model."),
 "T09": ("property-based testing of alerts and errors against the error model", "All 256 codes and all levels at every stage, and every kind of detected error; alert text over all codes."),
 "T10": ("property-based testing of negotiated application protocols against a model", "All name lengths, generated offers, selections and malformed encodings, consecutive connections."),
 "T11": ("stateful property-based testing: histories on one object compared with new objects", "Generated histories of up to four attempts ending at every stage, with reconfiguration in between."),
 "T12": ("stateful property-based testing of API call histories against a model of the object's life cycle", "Generated sequences of connect, close, query and free over generated transports."),
 "T13": ("structure-aware property-based testing: generated and mutated certificates against a DER model", "Every mutation at every node of generated certificates, and random bytes; trusts the model's notion of complete."),
}
todo = "the check for this property is not built yet"
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": todo})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check uses public interfaces of the sources in /repo only. replay: ./check.sh <id> --replay <file>."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
