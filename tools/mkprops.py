#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                  "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": hook}})

ATTR = ["src/attribute.rs", "src/rfc5389/attributes.rs", "src/rfc5245/attributes.rs", "src/rfc5766/attributes.rs",
        "src/rfc5780/attributes.rs", "src/rfc8016/attributes.rs", "src/rfc8656/attributes.rs"]
p("C01", "Encoding then decoding gives the message back",
  "Every message built through the public API that the encoder accepts is decoded, from the bytes produced, into the same message: same class, method and transaction ID, and the same attributes with equal values in the same order (addresses compared on IP and port). This holds for every predefined attribute set, for attribute sets defined by the user, for single attribute types used as the set, and for raw attributes.",
  ["inputs", "configurations"], "all messages (class, 12-bit method, transaction ID, any list of attributes with any valid values and lengths) over all attribute sets",
  "The tests round-trip one SOFTWARE attribute and four RFC 5769 vectors with method 1; RFC 5245, 5780, 8016 attributes, methods above 0xF and nearly all values are never encoded.",
  ["src/message.rs", "src/macros.rs"] + ATTR,
  [("MessageEncoder / MessageDecoder", "src/message.rs"), ("per-attribute Encoder/Decoder pairs", "src/rfc*/attributes.rs"), ("define_attribute_enums!", "src/macros.rs")],
  ["MessageEncoder::encode_into_bytes", "MessageDecoder::decode_from_bytes", "Message::attributes"])
p("C02", "Encoded bytes are the ones the RFCs prescribe",
  "The bytes produced for a message are exactly those of the STUN wire format: a 20-byte header (two zero bits, method and class bits interleaved as in RFC 5389 figure 3, length of what follows, magic cookie, transaction ID), then each attribute in order as type, unpadded value length, value and zero padding to a multiple of four. Every attribute carries the type code and value layout of the RFC that defines it (RFC 5389, 5245, 5766, 5780, 8016, 8656).",
  ["inputs", "configurations"], "all class/method pairs exhaustively, all attribute types and values",
  "Round-trip tests accept any self-consistent encoding; wire conformance is only compared for five fixed messages, all with method 1.",
  ["src/message.rs", "src/net.rs"] + ATTR,
  [("Type::as_u16", "src/message.rs"), ("LosslessAttributeEncoder, Padding", "src/attribute.rs"), ("attribute encoders", "src/rfc*/attributes.rs")],
  ["MessageEncoder::encode_into_bytes"])
p("C03", "The decoder accepts exactly the well-formed messages, with the right content",
  "For every byte string the decoder's verdict is the one the STUN format dictates: rejected when the first two bits are not zero, the magic cookie is wrong or the header is incomplete; reported as broken when the attribute part does not split exactly into attributes or a known attribute has an invalid value (wrong length, out-of-range number, bad UTF-8, unknown address family, wrong fingerprint); accepted otherwise. An accepted message carries the class, method, transaction ID and attribute values that the bytes spell, with reserved bits and padding bytes ignored.",
  ["inputs", "configurations"], "all byte strings, each attribute set",
  "The tests decode valid vectors and one malformed message; hostile inputs and the accept/reject boundary of each attribute are not sampled.",
  ["src/message.rs", "src/net.rs"] + ATTR,
  [("MessageHeaderDecoder, Type::from_u16", "src/message.rs"), ("LosslessAttributeDecoder", "src/attribute.rs"), ("attribute decoders", "src/rfc*/attributes.rs")],
  ["MessageDecoder::decode", "MessageDecoder::finish_decoding", "Message accessors", "BrokenMessage"])
p("C04", "No input makes the library panic or misbehave",
  "Whatever bytes are fed to a decoder, in whatever pieces and with whatever order of decode, finish and query calls, every call returns a value or an error: nothing panics, overflows or loops without progress, and no call reports more bytes consumed than it was given or than the message announces. The same holds for encoding, inspecting, formatting and verifying credentials of whatever was decoded, and for every constructor that documents an error instead of a panic.",
  ["inputs", "histories"], "all byte strings, all call sequences on decoders and on the messages they yield",
  "Absence of panics quantifies over all inputs and call orders; the tests only follow the documented happy path and one broken message.",
  ["src/message.rs", "src/net.rs", "src/macros.rs"] + ATTR,
  [("error returns instead of unwraps", "src/message.rs, src/attribute.rs"), ("AttributesDecoder error skipping", "src/message.rs")],
  ["MessageDecoder", "every public Decoder", "constructors", "Debug/Display"])
p("C05", "Decoding then encoding reproduces the received bytes",
  "An accepted message that is encoded again yields exactly the bytes it was decoded from, including attributes unknown to the attribute set, repeated attributes, their order, and the content of padding bytes. This holds whichever attribute set it was decoded with.",
  ["inputs", "configurations"], "all accepted byte strings, each attribute set",
  "Tests re-encode four RFC 5769 vectors; unknown attributes, odd padding and mixed sets are not covered.",
  ["src/message.rs", "src/attribute.rs"],
  [("LosslessAttribute keeps unknown attributes and padding", "src/attribute.rs")],
  ["MessageDecoder::decode_from_bytes", "MessageEncoder::encode_into_bytes"])
p("C06", "The result of decoding does not depend on how the bytes arrive",
  "Feeding the bytes of a message to a decoder in any pieces, including empty and one-byte ones, gives the same outcome (same message, same broken-message report, or a rejection) as feeding them at once. Each piece is consumed whole unless the message ends in it; the decoder becomes idle exactly when the last byte of the message has been consumed, and a message cut short is never accepted.",
  ["inputs", "schedules"], "all byte strings and all ways of splitting them, with and without an end-of-stream mark",
  "All tests decode from one complete buffer; the number of splits is exponential.",
  ["src/message.rs", "src/attribute.rs", "src/net.rs"],
  [("incremental Decode implementations", "src/message.rs, src/attribute.rs, src/net.rs")],
  ["MessageDecoder::decode / is_idle / finish_decoding"],
  state=[("MessageDecoder", "partially decoded header and attributes", "src/message.rs")])
p("C07", "A decoder can be reused: messages never influence later ones",
  "Decoding a sequence of messages with one decoder, as separate datagrams or as one stream cut anywhere, gives for each message what a fresh decoder gives, whether the earlier ones were accepted, reported as broken, rejected because of their header, or cut short. Each message, broken or not, consumes exactly its header plus the announced length.",
  ["histories", "inputs"], "all sequences of messages (valid, broken, rejected, truncated) and all splits of the stream",
  "No test decodes a second message with the same decoder after a failure.",
  ["src/message.rs", "src/attribute.rs", "src/macros.rs"],
  [("AttributesDecoder skips the rest of a broken message", "src/message.rs"), ("decoder reset on error", "src/message.rs")],
  ["MessageDecoder::decode / decode_from_bytes"],
  state=[("MessageDecoder.header / attributes", "state that must be clean between messages", "src/message.rs")])
p("C08", "Incremental encoding yields the same bytes and announces exact sizes",
  "Writing a message into output buffers of any sizes produces the same bytes as encoding it at once. At every point the encoder announces exactly the number of bytes still to come, which is the whole encoded length at the start and zero exactly when it is idle.",
  ["inputs", "schedules"], "all messages and all sequences of output buffer sizes",
  "Tests use encode_into_bytes only.",
  ["src/message.rs", "src/attribute.rs", "src/net.rs", "src/macros.rs"],
  [("Encode/SizedEncode implementations", "src/message.rs, src/attribute.rs, src/net.rs")],
  ["MessageEncoder::encode / exact_requiring_bytes / requiring_bytes / is_idle"])
p("C09", "An encoder can be reused, and encoding does not alter the message",
  "What an encoder produces for a message depends on that message only: not on messages it encoded, refused or was interrupted by before, and encoding the same message again gives the same bytes. A message offered while another is being encoded is refused without disturbing the one in progress.",
  ["histories", "inputs"], "all sequences of encodable, oversized and failing messages on one encoder",
  "No test reuses an encoder after a refusal or offers it a message while it is busy.",
  ["src/message.rs", "src/attribute.rs", "src/macros.rs"],
  [("MessageEncoder::start_encoding", "src/message.rs")],
  ["MessageEncoder::start_encoding / encode / encode_into_bytes"])
p("C10", "Length fields never lie: a message that does not fit is refused",
  "The encoder accepts a message exactly when its attribute part, with padding, fits the 16-bit length field, and otherwise returns an error; it never emits a wrapped or truncated length. In the bytes it emits, the header length equals the number of bytes after the header and is a multiple of four, and walking the attributes by their length fields ends exactly at the end.",
  ["inputs"], "all messages, in particular attribute lengths and totals around 65535 and attribute counts up to the maximum",
  "No test encodes anything longer than 120 bytes.",
  ["src/message.rs", "src/attribute.rs"],
  [("length assertions in start_encoding", "src/message.rs, src/attribute.rs")],
  ["MessageEncoder::start_encoding", "encoded bytes"])
p("C11", "FINGERPRINT is computed and enforced as RFC 5389 defines it",
  "The fingerprint computed for a message is the CRC-32 of the bytes that precede the attribute, with the header length counting the fingerprint, XORed with 0x5354554e, so adding it to the message gives bytes that every decoder accepts. A received message with a known fingerprint attribute is accepted only if that value is right for the received bytes: any corruption of the covered bytes or of the value is reported as a broken message.",
  ["inputs"], "all messages, all corruptions of a fingerprinted message",
  "Tests check the CRC of three fixed vectors and never a wrong one.",
  ["src/rfc5389/attributes.rs", "src/message.rs", "src/attribute.rs"],
  [("Fingerprint::new, Fingerprint::after_decode", "src/rfc5389/attributes.rs")],
  ["Fingerprint::new", "MessageDecoder", "BrokenMessage"])
p("C12", "MESSAGE-INTEGRITY with short-term credentials authenticates the message",
  "The integrity value computed for a message and password is the HMAC-SHA1, keyed with the password, of the bytes that precede the attribute with the header length counting the attribute. Checking a received message succeeds exactly when that holds for the received bytes and the given password, whatever attributes follow, and otherwise fails with the Unauthorized error: a wrong password, or a change of any covered bit or of the value, is never accepted.",
  ["inputs"], "all messages, passwords, positions of the attribute, and alterations of message or password",
  "Tests check three fixed vectors with the right password; no wrong password or altered message is tried.",
  ["src/rfc5389/attributes.rs", "src/message.rs", "src/attribute.rs"],
  [("MessageIntegrity::new_short_term_credential, check_short_term_credential, after_decode", "src/rfc5389/attributes.rs")],
  ["MessageIntegrity API", "decoded messages"])
p("C13", "MESSAGE-INTEGRITY with long-term credentials authenticates the message",
  "As for short-term credentials, with the key being the MD5 of \"username:realm:password\": the value computed is the HMAC-SHA1 with that key of the preceding bytes with adjusted length, and checking succeeds exactly when it holds for the received bytes and the given username, realm and password. Any other username, realm or password that gives another key, and any change of a covered bit, fails with the Unauthorized error.",
  ["inputs"], "all messages, usernames, realms, passwords and alterations of them",
  "One fixed vector is checked with the right credentials.",
  ["src/rfc5389/attributes.rs", "src/message.rs", "src/attribute.rs"],
  [("MessageIntegrity::new_long_term_credential, check_long_term_credential, after_decode", "src/rfc5389/attributes.rs")],
  ["MessageIntegrity API", "decoded messages"])
p("C14", "XOR-ed addresses travel obfuscated and come back exact",
  "XOR-MAPPED-ADDRESS (both codes), XOR-PEER-ADDRESS and XOR-RELAYED-ADDRESS put on the wire the port XORed with the top half of the magic cookie and the address XORed with the cookie (IPv4) or the cookie followed by the transaction ID (IPv6), and decoding restores the address given, for every address and transaction ID. The XOR operation is its own inverse, keeps the address family, and plain address attributes are never altered by it.",
  ["inputs"], "all IPv4/IPv6 addresses, ports and transaction IDs; all positions in a message",
  "Two fixed addresses are XORed; XOR-PEER-ADDRESS, XOR-RELAYED-ADDRESS and the alternative code are never encoded.",
  ["src/net.rs", "src/rfc5389/attributes.rs", "src/rfc5766/attributes.rs"],
  [("socket_addr_xor", "src/net.rs"), ("before_encode/after_decode of Xor* attributes", "src/rfc5389/attributes.rs, src/rfc5766/attributes.rs")],
  ["net::socket_addr_xor", "encoded bytes", "decoded attributes"])
p("C15", "Attribute values respect their documented limits on both sides",
  "A constructor with a documented limit (USERNAME below 513 bytes; REALM, NONCE and SOFTWARE below 128 characters; error codes 300 to 599; channel numbers 0x4000 to 0x4FFF; lifetimes up to 2^32-1 seconds; DATA and MOBILITY-TICKET up to 65535 bytes; 12-bit methods) accepts exactly the values within it, keeps them unchanged and otherwise returns an invalid-input error. Decoding applies the same limits: a received value is accepted exactly when it is within them.",
  ["inputs"], "all values of each limited type, on both sides of every limit, from the API and from the wire",
  "Only the two channel-number constants are tested.",
  ["src/rfc5389/attributes.rs", "src/rfc5766/attributes.rs", "src/rfc8016/attributes.rs", "src/rfc8656/attributes.rs", "src/method.rs"],
  [("track_assert! in constructors and decoders", "src/rfc*/attributes.rs, src/method.rs")],
  ["constructors and getters", "MessageDecoder"])
p("C16", "Known and unknown attributes are told apart and all are surfaced in order",
  "Decoding with an attribute set yields the attributes of that set as known and every other one as unknown, with exact type and value bytes, each group in message order with nothing dropped, invented or duplicated. Looking up an attribute by type returns the first one of that type, or nothing if there is none, and a type is comprehension-required exactly when it is below 0x8000.",
  ["inputs", "configurations"], "all accepted messages, each predefined and user-defined attribute set, all attribute types",
  "No test decodes a message with an unknown or a repeated attribute.",
  ["src/message.rs", "src/attribute.rs", "src/macros.rs"],
  [("LosslessAttribute::Known/Unknown", "src/attribute.rs"), ("TryTaggedDecode of define_attribute_enums!", "src/macros.rs"), ("Message::get_attribute", "src/message.rs")],
  ["Message::attributes / unknown_attributes / get_attribute", "AttributeType"])
p("C17", "A broken message is reported with the identity needed to answer it",
  "When the header is valid but the attribute part is not, the decoder yields a broken-message report carrying exactly the class, method and transaction ID of the header, and never a partial message or a plain error. The report converts to an invalid-input error, which maps to error code 400 (Bad Request).",
  ["inputs"], "all malformed attribute parts behind a valid header, each attribute set, arriving whole or in pieces",
  "One malformed message is tested.",
  ["src/message.rs", "src/attribute.rs", "src/rfc5389/attributes.rs"],
  [("MessageDecoder::finish_decoding, BrokenMessage", "src/message.rs"), ("From<Error> for ErrorCode", "src/rfc5389/attributes.rs")],
  ["BrokenMessage", "Error", "ErrorCode"])
p("C18", "Attribute hooks run once, in order, and see exactly what precedes them",
  "When a message is encoded or decoded, the before-encode or after-decode hook of each known attribute runs exactly once, in message order, and is given a message with the right class, method and transaction ID containing exactly the attributes preceding it. Changes a hook makes to its attribute take effect on the bytes or on the decoded message and nowhere else, and a failing hook makes encoding fail or the message be reported as broken.",
  ["inputs", "histories", "fault_sequences"], "all messages of user-defined attributes, with hooks that record, modify or fail at any position, directly or through a user-defined set",
  "No test defines an attribute with hooks.",
  ["src/message.rs", "src/attribute.rs", "src/macros.rs"],
  [("hook loops with set_len", "src/message.rs"), ("hook forwarding", "src/attribute.rs, src/macros.rs")],
  ["Attribute::before_encode / after_decode"])
p("C19", "The cost of a message is bounded by its size",
  "Decoding a message allocates memory at most in proportion to its size times one plus the number of its integrity and fingerprint attributes, and encoding one in proportion to its size, whatever lengths the input announces (apart from one buffer of the length announced for an attribute, below 64 KiB). Nothing is retained once the message and the codec are dropped, even after errors.",
  ["inputs", "fault_sequences"], "all byte strings and messages, in particular announced lengths larger than the input and many repeated attributes",
  "No test measures cost or uses large or repetitive messages.",
  ["src/message.rs", "src/attribute.rs", "src/rfc5389/attributes.rs"],
  [("bounded decoders under Length", "src/message.rs, src/attribute.rs"), ("shared preceding bytes", "src/rfc5389/attributes.rs")],
  ["allocator counters around decode and encode"])
p("C20", "The unsafe code is sound: no undefined behaviour and no leak",
  "No sequence of encoding and decoding, with attributes whose hooks read the message, clone it, fail or panic, reads or writes invalid memory, breaks Rust's aliasing rules, exposes a half-initialised attribute list, or drops an attribute twice or never (an unwinding hook may at most leak).",
  ["inputs", "fault_sequences"], "all messages with built-in and user-defined attributes, including failing and panicking hooks",
  "Undefined behaviour can pass every functional test; the tests run without any sanitizer and without hooks.",
  ["src/message.rs"],
  [("set_len / raw pointer loops in start_encoding and finish_decoding", "src/message.rs")],
  ["Miri", "drop counters", "allocator counters"])
p("C21", "Each public attribute codec works on its own",
  "Every public attribute encoder/decoder pair, the aggregated set codecs and the socket-address and address-family codecs, used directly, give back the value encoded, whatever the sizes of the buffers used on either side, and can be reused for the next value. Their size announcements are exact for encoders, a stream that ends before a value is whole is an error, and never exceed what is needed for decoders (a list without an end of its own may ask for its next element), and a decoder accepts exactly its own attribute type.",
  ["inputs", "schedules", "histories"], "all values of every public codec, all splits, sequences of values on one codec",
  "Only socket addresses and address families are encoded directly, from whole buffers.",
  ["src/net.rs", "src/macros.rs"] + ATTR,
  [("impl_decode!/impl_encode! wrappers", "src/rfc*/attributes.rs"), ("SocketAddrEncoder/Decoder", "src/net.rs"), ("define_attribute_enums!", "src/macros.rs")],
  ["public *Encoder / *Decoder types", "TryTaggedDecode::try_start_decoding"])
p("C22", "Predefined methods, types and error codes are the registered ones",
  "Every predefined method, attribute type and error has the number its RFC assigns, and converting an error to an ERROR-CODE attribute yields that number with its registered reason phrase and survives encoding. Any codec error maps to 400 if it stems from invalid input and to 500 otherwise; methods, classes and address families are displayed by their own names and channel numbers by their number.",
  ["inputs", "configurations"], "all predefined constants, all 4096 methods, all error kinds",
  "The constants are only exercised through the few messages of the tests.",
  ["src/rfc5389/errors.rs", "src/rfc5245/errors.rs", "src/rfc5766/errors.rs", "src/rfc8016/errors.rs", "src/rfc8656/errors.rs",
   "src/rfc5389/methods.rs", "src/rfc5766/methods.rs", "src/method.rs", "src/rfc5389/attributes.rs",
   "src/rfc5766/attributes.rs", "src/rfc8656/attributes.rs"],
  [("CODEPOINT constants and From impls", "src/rfc*/errors.rs, src/rfc*/attributes.rs"), ("From<Error> for ErrorCode", "src/rfc5389/attributes.rs")],
  ["constants", "ErrorCode::from", "Display"])
p("C23", "A reader that follows the decoder's size hints never over-reads",
  "At every point of decoding a stream, the number of bytes the decoder says it still requires is a lower bound: reading no more than that at a time never takes bytes of the following message, and it is zero only when the message is complete. Hence reading messages one after the other from a blocking stream yields each of them and leaves the stream exactly after it.",
  ["inputs", "histories"], "all streams of messages (accepted or broken) and all read sizes up to the hint",
  "No test uses the hints or reads two messages from one stream.",
  ["src/message.rs", "src/attribute.rs", "src/net.rs"],
  [("requiring_bytes implementations", "src/message.rs, src/attribute.rs, src/net.rs")],
  ["MessageDecoder::requiring_bytes", "bytecodec::io::IoDecodeExt::decode_exact"])
p("C24", "Checking credentials takes the same time whatever the difference",
  "Checking a MESSAGE-INTEGRITY value against credentials, short-term or long-term, executes the same number of instructions for all wrong values, so that the time taken does not reveal how many of its leading bytes are right.",
  ["inputs"], "all messages, credentials and wrong integrity values (the library compiled with optimisations)",
  "Timing is not observed by any test.",
  ["src/rfc5389/attributes.rs"], [("comparison in check_short_term_credential and check_long_term_credential", "src/rfc5389/attributes.rs")], ["instructions executed, counted by callgrind"])
p("C25", "Codecs keep no hidden state: results depend on the inputs only",
  "What encoding a message, decoding bytes, checking a credential or XORing an address yields depends on its inputs only: not on what was processed before, in whatever order, by other codec instances, nor on what other threads do meanwhile. All public types can be sent to and shared between threads as long as the attribute types can.",
  ["histories", "schedules", "inputs"], "all histories of operations on separate codec instances, on any number of threads",
  "Tests run each operation once on one thread; caches and shared buffers show only with related inputs one after the other or at the same time.",
  ["src/net.rs", "src/message.rs", "src/attribute.rs", "src/rfc5389/attributes.rs"],
  [("socket_addr_xor", "src/net.rs"), ("MessageIntegrity, Fingerprint", "src/rfc5389/attributes.rs"), ("MessageEncoder/MessageDecoder", "src/message.rs")],
  ["MessageEncoder", "MessageDecoder", "check_*_credential", "socket_addr_xor"])
p("C26", "Received messages can be extended, forwarded and copied from",
  "A decoded message to which attributes are added encodes to the bytes it came from followed by the added attributes, with the length adjusted; integrity and fingerprint values computed over it cover those bytes. This holds over any number of hops, each with its own set of known attributes. An attribute taken from a decoded message into another message, of any transaction ID, keeps its value there and leaves its source unaltered; unknown ones can be carried on as raw attributes.",
  ["inputs", "histories"], "all accepted messages, all sequences of additions and all chains of attribute sets",
  "Tests either decode or build messages; none changes a decoded one.",
  ["src/message.rs", "src/attribute.rs"] + ATTR,
  [("Message::add_attribute", "src/message.rs"), ("LosslessAttribute", "src/attribute.rs"), ("before_encode / after_decode of address attributes", "src/rfc*/attributes.rs")],
  ["Message::add_attribute", "Message::attributes", "MessageEncoder"])
p("C27", "Attributes and identifiers compare, hash and convert by their values",
  "Two attributes (alone or within an aggregated set) are equal exactly if they have the same type and value, equal ones hash equally, and a clone equals and prints as its original. An attribute of an aggregated set converts to its own type, with its value, and to no other. Transaction IDs, methods, attribute types and channel numbers are equal, ordered and hashed as the bytes or numbers they are made of, and a transaction ID prints all its bytes.",
  ["inputs"], "all pairs of attributes of every set, all pairs of identifiers",
  "Tests compare a few equal values; a comparison that is too lax passes them.",
  ["src/transaction_id.rs", "src/method.rs", "src/attribute.rs", "src/macros.rs"] + ATTR,
  [("derived and manual PartialEq, Hash, Ord, Debug", "src"), ("TryAsRef in define_attribute_enums!", "src/macros.rs")],
  ["==", "Hash", "Ord", "Debug", "TryAsRef"])
p("C28", "The work done for a message grows in proportion to its size",
  "Decoding (in whatever pieces), encoding (into whatever buffers), copying, formatting, looking up an attribute, computing and checking integrity and fingerprint execute a number of instructions at most in proportion to the size of the message, for messages of up to 64 KiB with at most one integrity and one fingerprint attribute, whatever other attributes they consist of and whether or not they are well-formed.",
  ["inputs"], "all messages, valid or broken, and all ways to split them",
  "No test uses a large message; one datagram with thousands of small attributes must not occupy a server.",
  ["src/message.rs", "src/attribute.rs", "src/rfc5389/attributes.rs"],
  [("attribute loops", "src/message.rs"), ("AttributesDecoder", "src/message.rs"), ("LosslessAttributeDecoder/Encoder", "src/attribute.rs")],
  ["instructions executed, counted by callgrind"])
p("C29", "The codecs compose with the combinators of bytecodec",
  "MessageDecoder and MessageEncoder can be put into the combinators of bytecodec (collect, collectn, length, max_bytes, slice, peekable, maybe_eos, omit, and_then, chain, map, try_map; repeat, pre_encode, length, max_bytes, optional, last, slice, chain, map_from), nested and over several sets of attributes, with bytes arriving in any pieces: the messages obtained, or the bytes written, are those of each message on its own, framed as the combinator documents. A frame that is shorter or longer than its message, a stream that ends within a message and a limit that is exceeded are errors, never a shortened message.",
  ["inputs", "histories"], "all sequences of messages, all listed combinators, all ways to cut the bytes",
  "The tests call decode_from_bytes and encode_into_bytes only, with whole messages.",
  ["src/message.rs", "src/attribute.rs"],
  [("impl Decode for MessageDecoder", "src/message.rs"), ("impl Encode / SizedEncode for MessageEncoder", "src/message.rs")],
  ["bytecodec::DecodeExt", "bytecodec::EncodeExt"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
