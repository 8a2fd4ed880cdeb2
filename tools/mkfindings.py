#!/usr/bin/env python3
"""Writes /verif/known_findings.txt (run by hand, never by a check)."""
NAMES = """MappedAddress AlternateServer XorMappedAddress XorMappedAddress2 XorPeerAddress XorRelayAddress ResponseOrigin
OtherAddress ErrorCode ChannelNumber ResponsePort RequestedTransport RequestedAddressFamily AdditionalAddressFamily
EvenPort ChangeRequest""".split()
FIXED = [
 ("C02", "c9c2f0a", "methods with bits M4..M11 set were put at other bits of the message type than RFC 5389 prescribes (and C01: decoded to another method)"),
 ("C01", "50fc100", "CHANGE-REQUEST flags were decoded from other bits than they are encoded in (also C03)"),
 ("C01", "f18bb35", "RESPONSE-PORT was always encoded with port 0 (also C02)"),
 ("C15", "0dac6c1", "MobilityTicket::new panicked later/accepted more than 65535 bytes instead of failing as documented"),
 ("C04", "c510f8e", "Fingerprint::new panicked with an arithmetic overflow for a message longer than 65535 bytes"),
 ("C06", "c1bb945", "a truncated last attribute was silently dropped and the message accepted when it arrived in pieces"),
 ("C07", "4554735", "after a broken or rejected message the same decoder misread the following messages"),
 ("C23", "6e1730e", "requiring_bytes counted the length of the previous message, so a reader following it over-read"),
 ("C09", "7657181", "after a rejected message (or one refused while busy) the encoder was left with traces of it"),
 ("C15", "277ca1a", "Software::new_static counted bytes instead of the documented characters"),
 ("C19", "2586ea5", "decoding n MESSAGE-INTEGRITY attributes took memory and time of cubic order"),
 ("C18", "00a32af", "the padding kept from decoding was reused for a value whose length a hook had changed, so the message emitted was misaligned (also C10)"),
]
WHAT = {
 "C05": "nonzero reserved bits of {n} are not reproduced when the decoded message is encoded again",
 "C11": "a FINGERPRINT that follows a {n} with nonzero reserved bits is verified over bytes with these bits cleared, not over those received",
 "C12": "a short-term MESSAGE-INTEGRITY that follows a {n} with nonzero reserved bits is verified over bytes with these bits cleared, not over those received",
 "C13": "a long-term MESSAGE-INTEGRITY that follows a {n} with nonzero reserved bits is verified over bytes with these bits cleared, not over those received",
}
with open("/verif/known_findings.txt", "w") as f:
    f.write("# Genuine defects of sile/stun_codec found by these checks; see DESIGN.md.\n")
    for p, w in WHAT.items():
        for n in NAMES:
            f.write(f"known: property={p} reserved-bits:{n} {w.format(n=n)}\n")
    f.write("known: property=C29 end-within-attributes a decoder told the end of the stream within the attributes of a message, with at least as many of their bytes as are missing, does not report it, so that Collect drops that message silently\n")
    for p, c, w in FIXED:
        f.write(f"fixed: property={p} {c} {w}\n")
