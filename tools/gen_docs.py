#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (edit here, not there)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    a = {"files": ["src/" + f for f in files], "mechanism": [{"name": n, "where": "src/" + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": "src/" + w} for n, m, w in state]
    a["observe_at"] = observe or ["MessageDecoder / MessageEncoder results"]
    a["hook_needed"] = None
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, technique, note))


ATT = ["rfc5389/attributes.rs", "rfc5766/attributes.rs", "rfc5245/attributes.rs", "rfc5780/attributes.rs", "rfc8016/attributes.rs", "rfc8656/attributes.rs"]
SE = "bounded symbolic execution of rustc's LLVM IR of the real code + z3 (QF_BV), counterexamples replayed natively"
NOTE = "Every value of every symbolic byte/flag/split point within the listed message shapes; shapes outside the job list are not covered. Trusts rustc/LLVM IR generation, the engine (cross-checked against native runs), z3."

prop("P01", "The 20-byte header follows RFC 5389 both ways",
     "For every class, 12-bit method, 96-bit transaction id and body length, the encoded header is the one RFC 5389 section 6 defines (interleaved class/method bits, length of everything after the header, magic cookie, transaction id). Every header that satisfies those rules decodes to exactly that class, method and transaction id, and every header whose two top bits are not zero or whose cookie differs is rejected.",
     ["inputs"], "all 4 classes x 4096 methods x 2^96 transaction ids; all 2^160 header byte strings",
     "Tests use two or three captured messages with methods 0x001-0x009; bit positions of methods above 0xF, cookies off by one bit, and lengths above 255 are never sampled.",
     ["message.rs", "method.rs", "transaction_id.rs", "constants.rs"], [("Type::as_u16 / Type::from_u16", "message.rs"), ("MessageHeaderDecoder", "message.rs"), ("MessageEncoder::start_encoding_message", "message.rs")], SE, NOTE)
prop("P02", "Decoding is total: no input panics, hangs or overflows",
     "Whatever bytes are given to the decoder, for every attribute set, decoding returns a message, a broken message or an error; it never panics, overflows, reads out of bounds or fails to terminate. A message whose header is valid and whose announced length is present never fails outright: it gives a message or a broken message.",
     ["inputs"], "every byte string up to the explored length (27 bytes quick, 32 thorough, fully arbitrary), every value of every attribute type at boundary lengths, lengths up to 65535 with arbitrary edge bytes",
     "A panic needs one particular length/value combination (a value shorter than its fixed part, a length field near 65535); the tests decode a handful of valid messages.",
     ["message.rs", "attribute.rs", "net.rs"] + ATT, [("MessageDecoder::decode / finish_decoding", "message.rs"), ("LosslessAttributeDecoder", "attribute.rs"), ("SocketAddrDecoder", "net.rs")], SE, NOTE)
prop("P03", "A broken message reports the received header and its cause",
     "When the header of a well-framed message is valid but an attribute is not, decoding yields a broken message that carries exactly the received class, method and transaction id and an error; converted to an error it is an invalid-input error. This holds for every position and kind of the offending attribute, including a rejected MESSAGE-INTEGRITY/FINGERPRINT length, a wrong FINGERPRINT, an attribute that overruns the message, and a failing after-decode hook.",
     ["inputs"], "all header values x every attribute type with an invalid value or length x positions",
     "One test checks one broken message.",
     ["message.rs", "attribute.rs"], [("MessageDecoder::finish_decoding_with_header", "message.rs"), ("BrokenMessage", "message.rs")], SE, NOTE)
prop("P04", "Attributes are delimited by their TLV; unknown ones are kept verbatim",
     "The body of a decoded message is exactly the sequence of its type-length-value records, each padded to 4 bytes: attributes appear in wire order, none is invented, lost or merged, whatever the padding bytes contain. An attribute whose type is not in the attribute set is kept as a raw attribute with the received type and value and never makes a message invalid.",
     ["inputs"], "every type (16 bit), value lengths 0..65528 around multiples of 4 and 256, arbitrary value and padding bytes, up to 24 attributes",
     "Padding is exercised by three RFC 5769 vectors only; unknown types are never tested with lengths not a multiple of four.",
     ["attribute.rs", "message.rs", "macros.rs"], [("LosslessAttributeDecoder", "attribute.rs"), ("AttributesDecoder", "message.rs")], SE, NOTE)
prop("P05", "Decoding then re-encoding reproduces the received bytes",
     "If a byte string decodes to a message, encoding that message produces the same byte string: known and unknown attributes in their original order, with their original padding bytes and reserved bits.",
     ["inputs"], "every accepted message of the explored shapes, all values, padding and reserved bits",
     "Round-trip tests use fixed vectors; loss shows only for particular padding, order or value bits.",
     ["message.rs", "attribute.rs"] + ATT, [("LosslessAttribute{Decoder,Encoder} keep the padding", "attribute.rs"), ("Message keeps unknown attributes in place", "message.rs")], SE, NOTE + " Reserved bits of nine attribute kinds are not preserved: recorded as known findings.")
prop("P06", "Encoding then decoding gives back the same message",
     "For every message built with the public constructors, encoding succeeds if it fits the 16-bit length, and decoding the result gives a message with the same class, method, transaction id and an equal attribute list in the same order, nothing added, nothing unknown.",
     ["inputs"], "all field values of all 32 attribute types (text lengths 0-5 and at the limits; data 0-300), combinations of up to 11 attributes",
     "The suite round-trips 3 messages.",
     ["message.rs", "attribute.rs"] + ATT, [("attribute encoders and decoders", "rfc5389/attributes.rs"), ("define_attribute_enums!", "macros.rs")], SE, NOTE)
prop("P07", "Every attribute has its RFC codepoint and wire format",
     "Each of the 32 attribute types is encoded under the codepoint its RFC assigns, in the layout the RFC defines (field positions, byte order, zero reserved bits, XOR transformation where specified), and the accessors of a decoded attribute report the values that layout denotes.",
     ["inputs"], "all field values of all 32 attribute types; all wire values, reserved bits included",
     "An encoder/decoder pair that agree with each other but not with the RFC passes every round-trip test; only a few attributes appear in test vectors.",
     ATT + ["net.rs", "convert.rs"], [("*Encoder / *Decoder of each attribute", "rfc5389/attributes.rs"), ("SocketAddrEncoder", "net.rs")], SE, NOTE)
prop("P08", "An attribute value is accepted exactly when its RFC allows it",
     "A received attribute value is accepted if and only if it is valid by its RFC: exact size for fixed-size attributes, address family 1 or 2 with 4 or 16 address bytes, error class 3-5 and number below 100, UTF-8 text within the documented limits, channel numbers 0x4000-0x4FFF, an even number of bytes of unknown-attribute types. Reserved bits never cause rejection.",
     ["inputs"], "all values of all 32 types at boundary lengths (plus the 127/128-character, 512/513-byte limits)",
     "Tests contain no invalid attribute values except one.",
     ATT + ["net.rs"], [("try_finish! decoders, length checks, track_assert", "rfc5389/attributes.rs"), ("U*beDecoder / Utf8Decoder usage", "rfc5766/attributes.rs")], SE, NOTE)
prop("P09", "Addresses survive XOR obfuscation exactly, for IPv4 and IPv6",
     "The XOR transformation maps port and address as RFC 5389 section 15.2 defines (cookie for IPv4, cookie and transaction id for IPv6), is its own inverse, and is applied to exactly the XOR-* attributes. For every address, port and transaction id, an attribute decoded from its encoding reports the original address.",
     ["inputs"], "2^32 and 2^128 addresses x 2^16 ports x 2^96 transaction ids, every XOR attribute, every split of the input",
     "RFC 5769 vectors cover one IPv4 and one IPv6 address.",
     ["net.rs", "rfc5389/attributes.rs", "rfc5766/attributes.rs"], [("socket_addr_xor", "net.rs"), ("before_encode/after_decode of XOR attributes", "rfc5389/attributes.rs")], SE, NOTE)
prop("P10", "FINGERPRINT is accepted exactly when its CRC-32 is right",
     "A message carrying a FINGERPRINT decodes only if the attribute equals CRC-32 of the received bytes before it (length field counting up to and including it) XOR 0x5354554e, and any message with the right value is accepted; a created FINGERPRINT is always that value. Hence every corruption CRC-32 detects within the covered bytes or the value itself makes the message broken.",
     ["inputs"], "all header and attribute bytes of the explored shapes, any 32-bit FINGERPRINT; all 32-bit-window corruptions of the value (and, thorough, of the covered bytes)",
     "The RFC vectors cover four right fingerprints; no test has a wrong one.",
     ["rfc5389/attributes.rs", "message.rs"], [("Fingerprint::new / after_decode", "rfc5389/attributes.rs")], SE + "; the CRC-32 code itself is executed symbolically", NOTE + " Reserved bits in preceding attributes: known findings.")
prop("P11", "MESSAGE-INTEGRITY verifies exactly when the HMAC is right",
     "Checking MESSAGE-INTEGRITY of a received message with a credential succeeds if and only if the attribute equals HMAC-SHA1 over the received bytes before it (length field counting up to and including it) under the short-term key (password) or long-term key (MD5 of username:realm:password); wrong passwords, wrong attributes and changed covered bytes are refused.",
     ["inputs"], "all header/attribute bytes, keys and HMAC values of the explored shapes; password lengths 0-128 incl. the 64-byte block boundary",
     "Tests verify three right HMACs of RFC 5769; no wrong one, no attribute after it, no long key.",
     ["rfc5389/attributes.rs", "message.rs"], [("MessageIntegrity::{new,check}_{short,long}_term_credential, hmac_sha1", "rfc5389/attributes.rs")], SE + "; SHA-1 compression and MD5 transform as uninterpreted functions", NOTE + " 'Exactly when' is relative to uninterpreted SHA-1/MD5 (no collisions are modelled). Reserved bits in preceding attributes: known findings.")
prop("P12", "Messages secured by the library verify after transmission",
     "For every message and credential, adding MESSAGE-INTEGRITY created with the credential and then FINGERPRINT gives a message that encodes, decodes again (the FINGERPRINT accepted) and passes the integrity check with the same credential, with all attributes unchanged.",
     ["inputs"], "all contents of the explored shapes, short- and long-term credentials, with/without FINGERPRINT or attributes in between",
     "Tests do this for fixed messages.",
     ["rfc5389/attributes.rs", "message.rs"], [("MessageIntegrity::new_*", "rfc5389/attributes.rs"), ("Fingerprint::new", "rfc5389/attributes.rs")], SE + "; SHA-1 compression and MD5 transform as uninterpreted functions", NOTE)
prop("P13", "How the input is cut into pieces never changes what is decoded",
     "Feeding a message to the decoder in any sequence of pieces (empty ones included, with or without the end-of-stream mark) consumes every byte, reports completion exactly at the end of the message, asks for no more than the message still needs, and yields the same message or broken message as decoding it at once.",
     ["inputs", "schedules"], "every single cut point, byte-by-byte, need-driven feeding (every pair of cut points for small shapes) of all values of the explored shapes",
     "Tests decode from one complete slice only.",
     ["message.rs", "attribute.rs", "net.rs", "macros.rs"] + ATT[:1], [("MessageDecoder::decode state machine", "message.rs"), ("LosslessAttributeDecoder::decode", "attribute.rs")], SE, NOTE)
prop("P14", "How the output is cut into buffers never changes what is encoded",
     "Encoding into buffers of any sizes produces the same bytes as one-shot encoding; each call fills the buffer or finishes the message and never writes beyond what it reports. At every step the announced remaining size is exactly the number of bytes still to come, and the encoder is idle exactly when it is zero.",
     ["inputs", "schedules"], "every first buffer size, byte-by-byte, empty buffers (every pair of sizes for small shapes), all values of the explored shapes",
     "Tests use encode_into_bytes only.",
     ["message.rs", "attribute.rs", "net.rs", "macros.rs"], [("MessageEncoder::encode", "message.rs"), ("LosslessAttributeEncoder", "attribute.rs"), ("exact_requiring_bytes", "message.rs")], SE, NOTE)
prop("P15", "A decoder is as good as new after every message, good or bad",
     "After a decoder has yielded a message or a broken message, or failed (bad type, wrong cookie, truncated or abandoned input, failing hook), the next message it is given is decoded exactly as a new decoder would decode it; nothing of an earlier input appears in a later message.",
     ["histories", "inputs"], "histories of 2-3 inputs: good, broken, each kind of header error, truncation and abandonment at every byte, all values",
     "Tests use each decoder once.",
     ["message.rs", "attribute.rs"], [("state reset in MessageDecoder::decode / finish_decoding", "message.rs")], SE, NOTE)
prop("P16", "An encoder is as good as new after every message, good or bad",
     "After an encoder has finished a message, or refused one (a failing before-encode hook, a message that is too long), it is idle and encodes the next message exactly as a new encoder would. Starting a second message while one is being encoded is refused as 'full' and leaves the first unaffected.",
     ["histories", "inputs"], "histories of 2-3 messages: success, failing hook at every position, over-long message, interruption at every byte, all values",
     "Tests use each encoder once.",
     ["message.rs", "attribute.rs", "macros.rs"], [("MessageEncoder::start_encoding", "message.rs")], SE, NOTE)
prop("P17", "Constructors accept exactly the documented range and keep the value",
     "Each fallible constructor (USERNAME, REALM, NONCE, SOFTWARE, ERROR-CODE, CHANNEL-NUMBER, LIFETIME, DATA, MOBILITY-TICKET, method) accepts a value exactly when it is within the documented limit and then reports it unchanged; otherwise it refuses with an invalid-input error and constructs nothing. Limits on characters count characters, limits on bytes count bytes.",
     ["inputs"], "all numeric values; text and data at, below and above each limit in 1- to 4-byte characters",
     "No test constructs a value at a limit.",
     ATT + ["method.rs"], [("Username::new, Realm::new, Nonce::new, Software::{new,new_static}, ErrorCode::new", "rfc5389/attributes.rs"), ("ChannelNumber::new, Lifetime::new, Data::new", "rfc5766/attributes.rs"), ("MobilityTicket::new", "rfc8016/attributes.rs")], SE, NOTE)
prop("P18", "A message too long for the wire is refused, never truncated",
     "A message or attribute whose encoding does not fit its 16-bit length field is refused with an error by the encoder, and by the creation of MESSAGE-INTEGRITY and FINGERPRINT over it; everything that fits is encoded with correct length fields. No length is ever silently wrapped or cut.",
     ["inputs"], "body sizes around 65535 by one and several attributes (known and raw), values at lengths 0..65535, MAC creation around the limit",
     "No test has a message above a few hundred bytes.",
     ["message.rs", "attribute.rs", "rfc5389/attributes.rs"], [("length checks in MessageEncoder::start_encoding_message", "message.rs"), ("LosslessAttributeEncoder::start_encoding", "attribute.rs"), ("hmac_sha1, calculate_crc32 length adjustment", "rfc5389/attributes.rs")], SE, NOTE)
prop("P19", "Attribute lists keep order; lookup returns the first of its type",
     "Adding attributes appends; iteration gives known attributes in order and unknown ones in order, separately and completely. Looking an attribute up by type returns the first one of that type if any exists, and nothing otherwise; a type is comprehension-required exactly when it is below 0x8000.",
     ["inputs"], "lists of up to 24 attributes including duplicates and interleaved unknowns; all 2^16 types",
     "Tests look up attributes in messages without duplicates.",
     ["message.rs", "attribute.rs"], [("Message::{get_attribute,attributes,unknown_attributes,add_attribute}", "message.rs"), ("AttributeType::is_comprehension_*", "attribute.rs")], SE, NOTE)
prop("P20", "Error codes, reasons and methods match their registrations",
     "Every defined error converts to the ERROR-CODE attribute with the code and reason phrase its RFC registers and appears so on the wire; library errors convert to 400 for invalid input and 500 otherwise; the predefined methods have the registered numbers. Every class, method, channel number and address family is displayed by its name or number.",
     ["inputs"], "all defined errors, methods; all codes 300-599; all 4096 methods displayed; all error kinds",
     "No test looks at the tables.",
     ["rfc5389/errors.rs", "rfc5766/errors.rs", "rfc5245/errors.rs", "rfc8016/errors.rs", "rfc8656/errors.rs", "rfc5389/attributes.rs", "rfc5389/methods.rs", "rfc5766/methods.rs", "method.rs", "message.rs"], [("From<...> for ErrorCode", "rfc5389/errors.rs"), ("From<Error> for ErrorCode", "rfc5389/attributes.rs"), ("methods constants", "rfc5766/methods.rs")], SE, NOTE + " The tables themselves have finitely many entries, each a separate assertion.")
prop("P21", "Channel numbers always stay within 0x4000-0x4FFF",
     "A channel number can only be created, decoded or incremented to a value from 0x4000 to 0x4FFF; incrementing gives the successor and wraps from the maximum to the minimum.",
     ["inputs"], "all 2^16 numbers, all 2^32 wire values",
     "No test covers the range or the wrap.",
     ["rfc5766/attributes.rs"], [("ChannelNumber::{new,min,max,wrapping_increment}", "rfc5766/attributes.rs"), ("ChannelNumberDecoder", "rfc5766/attributes.rs")], SE, NOTE)
prop("P22", "A user-defined attribute set decodes exactly its listed types",
     "An attribute set defined with the library's macro treats a received attribute as known exactly when its type is that of one of the listed attributes, decodes and encodes it as that attribute with its own rules, and reports everything else as unknown; its coder refuses a second attribute while busy and works again afterwards.",
     ["inputs"], "all 2^16 attribute types x arbitrary values, for the library's own sets, a 32-type set and a set of user-defined types",
     "Tests define sets and decode only types that are in them.",
     ["macros.rs", "attribute.rs"] + ATT, [("define_attribute_enums!", "macros.rs"), ("impl_encode!/impl_decode!", "macros.rs")], SE, NOTE)
prop("P23", "Attribute hooks see the message as it is on the wire up to them",
     "Before encoding and after decoding, every known attribute's hook is called exactly once, in order, with a message of the right class, method and transaction id that contains exactly the attributes (known and unknown) preceding it, as earlier hooks left them. The first failing hook makes encoding fail or the decoded message broken, with the hook's error, and no later hook is called.",
     ["inputs", "histories"], "all arrangements of up to 4 (7 thorough) known/unknown attributes, each failing position, all values",
     "No test uses the hooks with more than one attribute.",
     ["message.rs", "attribute.rs"], [("MessageEncoder::start_encoding_message", "message.rs"), ("MessageDecoder::finish_decoding_with_header", "message.rs")], SE, NOTE)
prop("P24", "No memory error: every attribute is dropped exactly once",
     "Decoding, encoding, cloning, failing hooks, refused messages and abandoning a coder at any point never read or write invalid memory, drop an attribute twice, or leak one.",
     ["inputs", "histories", "fault_sequences"], "all arrangements of hook outcomes, abandonment at every byte, reuse after every failure, all values of the explored shapes",
     "The code moves attributes in and out with unsafe code; a double drop needs a failing hook or an abandoned coder, which no test has.",
     ["message.rs", "attribute.rs"], [("unsafe ptr::read / set_len around hooks", "message.rs")], SE + "; every load/store of the IR is bounds- and lifetime-checked by the engine", NOTE, observe=["drop counts of user attributes", "live heap allocations before/after"])
prop("P25", "A message ends exactly where its header says",
     "Decoding consumes exactly the 20-byte header and the number of bytes it announces, leaving any following bytes untouched, and no proper prefix of a message is ever reported as a complete message: before the end of the stream it is incomplete, at the end of the stream it is an error or a broken message with the received header. A body that is not a whole number of attributes is never accepted.",
     ["inputs", "schedules"], "every truncation point and trailing bytes of the explored shapes, arbitrary byte strings up to 26 bytes",
     "Tests decode exactly complete messages.",
     ["message.rs", "attribute.rs"], [("MessageHeaderDecoder / Length-limited attributes decoder", "message.rs")], SE, NOTE)

prop("P26", "Each attribute's own coder handles exactly its value",
     "The decoder of every attribute type, of raw attributes and of attribute sets, used on its own, takes exactly its own type, consumes a valid value in pieces of any size, never asks for more bytes than the value has, is idle exactly when it has all of them, yields the attribute exactly when the value is valid, and can be used again; a decoder of several types yields nothing when it was not told which. The encoder, used on its own, announces exactly the bytes still to come, produces the value of the RFC in buffers of any size, refuses a second attribute as 'full' while busy, and can be used again.",
     ["inputs", "schedules"], "all 32 attribute types, raw attributes, a 32-type set: all values at boundary lengths, whole / byte by byte / cut anywhere / with empty pieces",
     "The coders are public, but tests reach them only through whole messages in one piece.",
     ATT + ["attribute.rs", "net.rs", "macros.rs"], [("impl_decode!/impl_encode!", "rfc5389/attributes.rs"), ("RawAttributeDecoder/Encoder", "attribute.rs"), ("AddressFamilyDecoder/Encoder", "rfc8656/attributes.rs"), ("SocketAddrDecoder/Encoder", "net.rs")], SE, NOTE, observe=["Decode/Encode methods of each attribute's coder"])
prop("P27", "Messages and attributes behave as values",
     "Two attributes of a type are equal exactly when the values they report are equal; a clone equals, hashes like and reports what its original does (a cloned MESSAGE-INTEGRITY verifies like it); attribute types, methods, channel numbers and transaction ids compare, order and hash by their numbers; a cloned message keeps header and attributes and is independent of its original; encoding is a function of the message: encoding equal messages gives the same bytes, which are those of its attributes in the order they were added.",
     ["inputs"], "all pairs of values of all 30 freely constructible attribute types, text and data of several lengths",
     "Tests compare two or three attributes with themselves.",
     ATT + ["message.rs", "attribute.rs"], [("derived and written PartialEq/Clone of attributes", "rfc5389/attributes.rs"), ("Message (Clone)", "message.rs")], SE, NOTE, observe=["==, clone(), accessors, MessageEncoder"])
prop("P28", "A received message that is added to keeps its received bytes",
     "Adding attributes (MESSAGE-INTEGRITY and FINGERPRINT included) to a decoded message and encoding it gives the received bytes, unknown attributes and padding included, with the length field extended, followed by exactly the added attributes; MESSAGE-INTEGRITY and FINGERPRINT created over it are those of these bytes, and the result decodes and verifies.",
     ["inputs", "histories"], "all values of the explored received shapes (known, unknown, arbitrary padding) x added attributes of all constructible types",
     "No test adds an attribute to a decoded message.",
     ["message.rs", "attribute.rs", "rfc5389/attributes.rs"], [("Message::add_attribute", "message.rs"), ("LosslessAttribute keeps the padding", "attribute.rs"), ("Fingerprint::new, MessageIntegrity::new_*", "rfc5389/attributes.rs")], SE + "; SHA-1 compression as an uninterpreted function", NOTE)

if __name__ == "__main__":
    with open(os.path.join(R, "properties.jsonl"), "w") as o:
        for p, _, _ in P:
            o.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "bash build.sh release",
         "checks": [{"property": p["id"], "quick_cmd": "python3 checks/check.py %s quick" % p["id"], "thorough_cmd": "python3 checks/check.py %s thorough" % p["id"],
                     "technique": t, "level": "model_checking", "level_note": n} for p, t, n in P],
         "not_applicable": [],
         "notes": "No hooks in /repo are needed; all harnesses use the public API. properties.jsonl and this file are generated by tools/gen_docs.py."}
    json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
