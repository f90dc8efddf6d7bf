#!/usr/bin/env python3
# writes MANIFEST.json
import json, sys
PROOF = set("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C25".split())
BASE = "every function under contract is proved for all inputs against its contract on the current source; trusted: the verifier and its models of the standard library, x/crypto and protobuf, uninterpreted primitives; no contract is assumed without proof; the bounded replay adds concrete cases and is not counted as proved"
NOTE = {
 "C01": BASE + ". Assumed: Diffie-Hellman commutes, DH(PUB(x), y) = DH(PUB(y), x)",
 "C06": BASE + ". Histories are covered by lemmas over the contracts (used counters stay used, a repeated message is refused, delivery within the window); the induction over the steps is argued in DESIGN.md",
 "C07": BASE + ". Assumed: CBC decryption inverts CBC encryption for the same key and iv",
 "C11": BASE + ". Assumed: encoding/json restores exported fields whose JSON names are distinct (the names are checked)",
 "C12": BASE + ". Assumed: protobuf unmarshalling restores what was marshalled",
 "C15": BASE + ". Histories are covered by lemmas over the contracts; the induction over the steps is argued in DESIGN.md",
 "C16": BASE + ". Known finding: a redistribution of a key id already held, more than 2000 iterations ahead, does not replace the old state",
 "C19": BASE + ". Field, scalar and point functions are proved against their formulas; that the formulas form the group, that the base-point tables are multiples of B and that XEdDSA is correct given the group law are mathematics that is assumed; the replay compares with an independent big-integer implementation",
 "C25": BASE + ". Partial correctness: that the callback is called eventually rests on the goroutine being scheduled and terminating",
}
NA = {
 "C24": "computational secrecy (what an attacker without the keys can compute) is not a pre/postcondition, an invariant or a lemma over contracts of this code: the verifier treats the primitives as uninterpreted functions. What code can break (deleting used keys, one-way chain steps) is decided under C02, C03, C06, C09 and C15.",
}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for p in ids:
    if p in NA:
        continue
    proof = p in PROOF
    checks.append({
        "property": p,
        "quick_cmd": "./check.sh %s quick" % p,
        "thorough_cmd": "./check.sh %s thorough" % p,
        "technique": "contract-based deductive verification of the Go source (gover: symbolic execution per function against contracts, SMT back ends), with bounded replay on the real code" if proof else "bounded replay on the real code standing in for contracts (labelled bounded)",
        "level": "proof" if proof else "exploration",
        "level_note": NOTE.get(p) or (BASE if proof else "bounded: concrete cases only, nothing proved yet"),
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
  "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()]}, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
