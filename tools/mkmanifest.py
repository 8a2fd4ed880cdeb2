#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
"C01": ("generated messages of every attribute set, round trip through the encoder and decoder", "Round trip over generated messages; equality is judged on values read back through public accessors."),
"C02": ("generated messages against an independent reference encoder; all class/method pairs enumerated", "Trusts the reference encoder in harness/src/model.rs, written from the RFCs."),
"C03": ("generated, mutated and enumerated byte strings against an independent reference decoder", "Trusts the reference decoder in harness/src/model.rs, written from the RFCs."),
"C04": ("generated call sequences on decoders, encoders and attribute codecs, arbitrary bytes; crash, overflow and hang detection", "Built with overflow checks and debug assertions; a crash is attributed to its case by a supervising process, a hang by a CPU-time watchdog."),
"C05": ("generated accepted byte strings, byte-for-byte re-encoding", "Known finding: reserved bits that RFCs tell to ignore are not kept (known_findings.txt)."),
"C06": ("generated splits of generated byte strings, metamorphic comparison with decoding at once", "Compares with the same decoder fed at once and with the reference model."),
"C07": ("stateful: generated sequences of messages through one decoder against fresh decoders and the model", "As C06, over histories."),
"C08": ("generated output buffer sizes, comparison with encoding at once and with the announced sizes", "Announced size is compared at every step."),
"C09": ("stateful: generated histories of one encoder against fresh encoders", "Histories include refused, interrupted and busy starts."),
"C10": ("generated messages around the 65535-byte limit and of any size, walking the emitted lengths", "Acceptance is compared with the size computed by the model."),
"C11": ("generated and bit-flipped messages against an independent CRC-32", "Trusts harness/src/hash.rs (self-tested on published vectors)."),
"C12": ("generated and bit-flipped messages, passwords and trailers against an independent HMAC-SHA1", "Trusts harness/src/hash.rs (self-tested on published vectors)."),
"C13": ("generated and bit-flipped messages and credentials against an independent MD5 and HMAC-SHA1", "Trusts harness/src/hash.rs (self-tested on published vectors)."),
"C14": ("generated addresses and transaction IDs against an independent XOR model", "Function, wire and received forms."),
"C15": ("generated values on both sides of every limit; all error codes, channel numbers and methods enumerated", "Limits are those of the documentation and RFCs."),
"C16": ("generated messages with known and unknown attributes against the reference model", "All attribute types enumerated for comprehension."),
"C17": ("generated messages with damaged attributes, at once and in pieces", "Identity is read from the bytes by the model."),
"C18": ("generated messages with probe attributes whose hooks log and act, against a model of the hook protocol", "Probe attribute types are defined by the harness through the public API."),
"C19": ("counting allocator over generated and hostile messages, bounds linear in their size", "Bounds have constant factors with a margin (about 2x) over what is measured."),
"C20": ("generated histories with hooks that read, fail and panic: natively with counting of drops and bytes, and interpreted by Miri (Tree Borrows, leak check)", "Absence of undefined behaviour is judged by Miri on the generated histories only; Tree Borrows is taken for the aliasing rules."),
"C21": ("generated values, buffers and call sequences on every public attribute codec", "Every codec is in the harness's registry."),
"C22": ("enumeration of all methods, types, classes and errors, and generated failing inputs", "Tables are transcribed from the RFCs."),
"C23": ("generated streams read by a reader that follows the hints", "Hints are compared with the bytes that really remain, at every step."),
"C24": ("generated messages, credentials and wrong integrity values, metamorphic comparison of instruction counts by callgrind", "Instructions stand for time, and the comparison is that of this compiler with optimisations. Known to be blind to secret-dependent cache behaviour."),
"C25": ("stateful: generated histories of related operations, run in order, in reverse and on several threads, against the reference model", "Thread interleavings are those of the system's scheduler; Send and Sync are decided by the compiler."),
"C26": ("generated chains of decoding, extending and re-encoding with changing attribute sets, against the reference model", "Messages with reserved bits set (known finding of C05) are left out."),
"C27": ("generated pairs of equal and nearly equal values against comparison of the model's values", "MESSAGE-INTEGRITY and FINGERPRINT, which cannot be built from a value, are compared in other properties only by their value."),
"C28": ("generated message shapes at two sizes, metamorphic comparison of instruction counts by callgrind", "Superlinear growth that is still below 1.4 times (1.75 times for copying and printing) between 15 and 60 KiB is not seen."),
"C29": ("generated compositions of the codecs with bytecodec's combinators, against codecs of their own for each message", "Trusts bytecodec's combinators. Known finding: a stream that ends within the attributes of a message (known_findings.txt)."),
}
NA = []
m = {
 "version": 1,
 "setup_cmd": "./setup",
 "checks": [{"property": k, "quick_cmd": f"./check {k}", "thorough_cmd": f"VERIF_TIER=thorough ./check {k}",
   "evidence_file": f"evidence/{k}.json", "technique": "property-based testing: " + t, "level": "exploration",
   "level_note": n + " Nothing is shown beyond the cases generated; counts are in the evidence file."} for k, (t, n) in T.items()],
 "not_applicable": NA,
 "notes": "No hooks in /repo: everything needed is public. ./check replay FILE runs a recorded case again.",
}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
