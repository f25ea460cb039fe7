#!/usr/bin/env python3
# writes MANIFEST.json; CLAIMED maps a property to (level, note)
import json
CLAIMED = {
 "C01": ("model_checking", "All keys and messages of any length, over verified contracts of the lower layers (recoding bounds of C18); SHA3 is uninterpreted; signatures whose S is zero are refused and outside the claim."),
 "C02": ("model_checking", "All public keys, messages and signatures, over verified contracts of the lower layers (recoding bounds of C18); SHA3 is uninterpreted."),
 "C03": ("proof", "All signatures, public keys and messages."),
 "C04": ("proof", "All keys and messages of any length, over verified contracts of the lower layers; SHA3 is uninterpreted."),
 "C05": ("proof", "All 32-byte private keys (and some other lengths), over verified contracts of the lower layers; SHA3 is uninterpreted."),
 "C06": ("model_checking", "All entropy contents; read splittings from a list of 11; all failure points."),
 "C07": ("model_checking", "All keys, salts, IVs and message contents for the listed message lengths; AES is an uninterpreted permutation."),
 "C08": ("model_checking", "All keys, entropy and message contents for the listed message lengths, splittings and failure points."),
 "C09": ("model_checking", "All ciphertext contents for the listed lengths, all keys."),
 "C10": ("model_checking", "All private keys and salts, all public key strings of the listed lengths."),
 "C11": ("proof", "All limb values within the documented bounds; exact 64-bit wrap-around semantics."),
 "C12": ("proof", "All field elements and limb representations within the documented bounds."),
 "C13": ("proof", "All limb values within the documented bounds, all 32-byte strings."),
 "C14": ("proof", "All 64-byte integers, all triples of 32-byte integers."),
 "C15": ("proof", "All curve points and projective scalings, with the completeness of the Edwards law as an assumed lemma."),
 "C16": ("proof", "All curve points and all 32-byte strings, with Euler's criterion as an assumed lemma."),
 "C17": ("proof", "All scalars below 2^255, all points, all table entries and digits, over the verified group law; completeness of the Edwards law is an assumed lemma."),
 "C18": ("model_checking", "All pairs of scalars below the group order and all points; the sliding-window recoding is decided for symbolic windows at every part of the scalar, not for all scalars at once."),
 "C19": ("proof", "All pairs of points in the five supported coordinate systems."),
 "C20": ("model_checking", "All inputs within the listed sizes; integers of any value up to 2^520 in absolute value."),
 "C21": ("model_checking", "All texts up to the listed length, all integers below 2^256."),
 "C22": ("model_checking", "Every operation is shown to write only memory it allocates itself, for all inputs of the listed sizes; freedom from races follows and is not explored as interleavings (counterexamples are replayed under the race detector)."),
 "C23": ("model_checking", "All keys, messages, signatures and engine answers for the listed lengths."),
 "C24": ("model_checking", "Inputs of any length; the hash implementations themselves are uninterpreted functions."),
 "C25": ("model_checking", "All public key strings of the listed lengths, all signatures, messages of any length."),
 "C27": ("model_checking", "Conversion, reduction and multiply-add helpers; the curve helpers are C28."),
 "C28": ("model_checking", "Addition, doubling, negation, conversions, decompression and scalar multiplication of MathUtils against the group law; coordinates beyond the limb bounds verified for Encode and non-canonical y are outside the claim."),
 "C29": ("model_checking", "All random helpers of MathUtils; GetRandomFieldElement is constant on the current tree (known finding; a repair would break TestSqrtReturnsCorrectResult, which relies on it)."),
}
NA = {
 "C26": "Constant-time behaviour is a property of pairs of instruction and address traces; the symbolic executor merges paths and models values, so it has no trace semantics to compare, and the compiler's code is outside it.",
}
TECH = "symbolic execution of the real code (go/ssa), assertions decided by SMT solvers (z3, cvc5), counterexamples replayed natively"
import os
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "/verif/run.sh setup", "checks": [], "not_applicable": [],
     "notes": "See DESIGN.md. No hooks: harnesses enter through overlays."}
for p in props:
    if p in CLAIMED:
        lv, note = CLAIMED[p]
        m["checks"].append({"property": p, "quick_cmd": f"/verif/run.sh check {p} quick", "thorough_cmd": f"/verif/run.sh check {p} thorough", "technique": TECH, "level": lv, "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "Not claimed yet: the harnesses for this property are still being built.")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
