#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": state}]
    if obs:
        a["observe_at"] = [obs]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


RSP = ["src/responder.rs", "src/responder/version.rs", "src/responder/capabilities.rs", "src/responder/algorithms.rs",
       "src/responder/id_auth.rs", "src/responder/challenge.rs", "src/responder/error.rs"]
REQ = ["src/requester.rs", "src/requester/version.rs", "src/requester/capabilities.rs", "src/requester/algorithms.rs",
       "src/requester/id_auth.rs", "src/requester/challenge.rs", "src/requester/error.rs"]
MSG = ["src/msgs/mod.rs", "src/msgs/encoding.rs", "src/msgs/version.rs", "src/msgs/capabilities.rs", "src/msgs/algorithms.rs",
       "src/msgs/digest.rs", "src/msgs/certificates.rs", "src/msgs/challenge.rs", "src/msgs/error.rs", "src/msgs/measurements.rs",
       "src/msgs/common.rs"]

p("C01", "No request makes the responder panic",
  "A responder that has not yet failed handles every byte string it is sent, in every state and with an output buffer of every size, without panicking: no out-of-bounds access, arithmetic overflow, failed unwrap or unreachable branch. Each such call returns either a response or an error.",
  ["inputs", "histories"], "all request byte strings, all output buffer sizes, all conversation histories of a responder whose earlier requests succeeded, all provisioned slot contents whose signer yields the negotiated signature size",
  "The tests send a few well-formed conversations; a panic needs one unusual length, count, slot or state out of all byte strings and histories.",
  RSP + MSG, [("request dispatch per state", "src/responder.rs: Responder::handle_msg, AllStates::handle"), ("request decoders", "src/msgs: parse_header, parse_body")],
  obs="return of Responder::handle_msg")
p("C02", "No response makes the requester panic",
  "After a requester has sent the request of its current step, it handles every byte string presented as the response without panicking: no out-of-bounds access, arithmetic overflow, failed unwrap or unreachable branch, including inside certificate-chain and signature decoding. Each such call returns either progress or an error.",
  ["inputs", "histories"], "all response byte strings at every step of every conversation of a requester that has not failed",
  "Only honest responders are tested; a hostile responder chooses every byte of the response.",
  REQ + MSG + ["src/crypto/pki.rs", "src/crypto/ring/pki.rs"],
  [("response dispatch per state", "src/requester.rs: RequesterInit::handle_msg, AllStates::handle_msg"), ("DER conversion of signatures", "src/crypto/pki.rs: bin_to_der"), ("certificate chain decoding", "src/msgs/certificates.rs: CertificateChain::parse")],
  obs="return of RequesterInit::handle_msg")
p("C03", "Messages have the SPDM wire layout and survive a round trip",
  "For every message value the library can encode, the encoding has the version and code of its type followed by its fields in the layout of the SPDM specification (little endian, reserved bytes zero), and decoding that encoding yields an equal value. Every decoded field is the value at its place in the input.",
  ["inputs"], "all values of every message type (GET_VERSION to MEASUREMENTS, ERROR), all algorithm, digest, opaque-data and measurement lists up to their limits",
  "Round-trip tests use one or two hand-written values per message; a swapped, truncated or mis-masked field shows only for other values.",
  MSG, [("encoders", "src/msgs: Msg::write_body implementations"), ("decoders", "src/msgs: parse_body functions"), ("primitive integers", "src/msgs/encoding.rs: Writer::put_u16 etc., Reader::get_u16 etc.")],
  obs="bytes written by Msg::write, value returned by parse_body")
p("C04", "Encoders write exactly the message or report a full buffer",
  "For every message and every buffer, encoding succeeds exactly when the value is encodable and the message fits, returns the exact encoded length and changes no byte after it. Otherwise it reports an error and never writes outside the buffer.",
  ["inputs"], "all message values, all buffer lengths and prior buffer contents",
  "Tests encode into buffers that are large enough; the boundary lengths for each message are never tried.",
  MSG, [("bounded writer", "src/msgs/encoding.rs: Writer"), ("message encoder", "src/msgs/mod.rs: Msg::write, write_header, write_body")],
  obs="result and buffer of Msg::write and of each Writer operation")
p("C05", "Decoders accept exactly the well-formed messages",
  "For every byte string, decoding a message succeeds exactly when the string is long enough, its reserved bytes are zero, its flag and enumeration fields hold defined values, selections the protocol requires to be single have exactly one bit set, and counts and sizes stay within the limits. Everything else is rejected with an error.",
  ["inputs"], "all byte strings offered to every message decoder",
  "Tests feed a handful of malformed messages; accepting one undefined bit or one truncated length needs a specific string.",
  MSG, [("decoders", "src/msgs: parse_header and parse_body functions"), ("reserved and bounds checks", "src/msgs/encoding.rs: Reader")],
  obs="Ok or Err of parse_header/parse_body")
p("C06", "Reads return the addressed bits and advance by exactly what they consume",
  "Every read operation of the message reader succeeds exactly when enough input is left and the cursor alignment allows it, returns the bits or bytes at the cursor, and advances the cursor by exactly their width. It never reads past the end of the input.",
  ["inputs", "histories"], "all inputs, all cursor positions including unaligned bit positions, all sequences of reads",
  "Unit tests cover a few offsets; bit reads crossing byte boundaries have many position and width combinations.",
  ["src/msgs/encoding.rs"], [("bit and byte reads", "src/msgs/encoding.rs: Reader::get_bits, get_byte, get_u16, get_u24, get_u32, get_slice, skip_reserved, skip_ignored")],
  state="byte offset and bit offset of Reader", obs="result and following reads of Reader")
p("C07", "The requester negotiates the highest common protocol version",
  "From every VERSION response the requester selects the highest version that both it (1.0 and 1.1) and the response list, independent of order, duplicates, and update and alpha numbers that make an entry a different version. If there is none it fails.",
  ["inputs"], "all VERSION responses",
  "Tests list the default two versions in one order only.",
  ["src/requester/version.rs", "src/msgs/version.rs"], [("version selection", "src/requester/version.rs: State::find_max_matching_version"), ("entry decoding", "src/msgs/version.rs: VersionEntry, Version::parse_body")],
  obs="version field of the requester's next state")
p("C08", "The responder selects one offered and supported algorithm of each kind",
  "For every request that offers algorithms, the response selects for the base hash, the signature algorithm and each listed algorithm structure exactly one bit, and only one that was offered and, for hash and signature, that this library supports. If a kind has no common algorithm the request fails instead, and the response repeats the number and kinds of the listed structures.",
  ["inputs"], "all NEGOTIATE_ALGORITHMS requests",
  "Tests offer one fixed set; wrong choices show only for particular combinations of offered bits.",
  ["src/responder/algorithms.rs", "src/msgs/algorithms.rs"], [("selection", "src/responder/algorithms.rs: State::choose_algorithms")],
  obs="ALGORITHMS response and the state after it")
p("C09", "The requester accepts only algorithms it offered",
  "The requester accepts an ALGORITHMS response exactly when it is well-formed, each selected algorithm is a single one that the requester offered, also for every listed algorithm structure, and the measurement specification is the offered one. Only then does it record the selection.",
  ["inputs"], "all ALGORITHMS responses to the requester's own offer",
  "A hostile responder chooses the response; tests use the honest one.",
  ["src/requester/algorithms.rs", "src/msgs/algorithms.rs"], [("check of the selection", "src/requester/algorithms.rs: ensure_valid_algorithms_selected, ensure_algorithm_response_is_valid")],
  obs="result and state after the ALGORITHMS response")
p("C10", "The transcript is an exact, bounded record",
  "The transcript holds exactly the concatenation of everything appended to it since it was created or cleared. An append that would exceed its capacity is rejected and leaves it unchanged.",
  ["inputs", "histories"], "all sequences of appends and clears of any lengths",
  "Tests append a few short strings; the capacity boundary and partial appends are not reached.",
  ["src/transcript.rs"], [("append", "src/transcript.rs: Transcript::extend"), ("view", "src/transcript.rs: Transcript::get, len, clear")],
  state="buffer and length of Transcript", obs="Transcript::get")
p("C11", "Both sides record exactly the bytes exchanged",
  "After every successful step the transcript of either side is its former content followed by exactly the request and response bytes of that step, in order and without trailing buffer contents; the CHALLENGE_AUTH signature is left out, and GET_VERSION starts it afresh. So the transcripts of an honest requester and responder agree after every exchange.",
  ["inputs", "histories"], "all conversations, all messages, all buffer sizes",
  "Tests compare transcripts of one conversation; bytes from the rest of a larger buffer or an omitted message need other inputs.",
  RSP + REQ + ["src/transcript.rs"], [("recording by the responder", "src/responder/*.rs: transcript.extend calls"), ("recording by the requester", "src/requester/*.rs: transcript.extend calls")],
  obs="Responder::transcript, RequesterInit::transcript")
p("C12", "The responder follows the protocol order",
  "Apart from GET_VERSION, a request is answered only if it is the one its state expects (capabilities, then algorithms, then digests or certificate, then challenge), is well-formed, and its answer fits the output buffer and the transcript; the responder then moves to the state that follows. Any other request is refused with an error.",
  ["inputs", "histories"], "all sequences of requests, all output buffer sizes",
  "Tests walk the one expected path; out-of-order and malformed requests are unbounded.",
  RSP, [("state dispatch", "src/responder.rs: AllStates::handle, expect"), ("transitions", "src/responder/*.rs: State::handle_msg")],
  state="Responder state", obs="result and state after Responder::handle_msg")
p("C13", "The requester follows the protocol order and skips nothing",
  "The requester accepts in each state only the response to the request it sent and then moves to the next step: version, capabilities, algorithms, digests, certificate, challenge. Identification and authentication are skipped only if one of the sides lacks the certificate or challenge capability, initialization is reported complete only at the end, and any failed response terminates the session.",
  ["inputs", "histories"], "all sequences of response byte strings",
  "Skipping authentication needs a particular hostile response or capability combination which tests do not send.",
  REQ, [("state dispatch", "src/requester.rs: AllStates::write_req, handle_msg, RequesterInit"), ("transitions", "src/requester/*.rs: State::handle_msg")],
  state="requester state", obs="result and state after RequesterInit::handle_msg and next_request")
p("C14", "Authentication succeeds only with a valid proof of identity",
  "The requester completes the challenge only if the response names the requested slot and includes it in its slot mask, carries the hash of the certificate chain received earlier, that chain verifies up to the trusted root, and the signature is valid under the leaf key over the hash of the complete conversation. If any of these fails, authentication fails.",
  ["inputs", "histories"], "all CHALLENGE_AUTH responses and certificate chains, all conversations",
  "A forged response that slips through needs a specific omission; tests only check that the honest response is accepted.",
  ["src/requester/challenge.rs", "src/requester/id_auth.rs", "src/crypto/pki.rs", "src/crypto/ring/pki.rs", "src/crypto/ring/digest.rs", "src/msgs/challenge.rs", "src/msgs/certificates.rs"],
  [("response checks", "src/requester/challenge.rs: State::handle_msg, verify_cert_chain_and_signature"), ("certificate and signature validation", "src/crypto/ring/pki.rs: EndEntityCert")],
  obs="result of RequesterInit::handle_msg in the challenge step")
p("C15", "CHALLENGE_AUTH proves the requested slot over the whole conversation",
  "A challenge for a provisioned slot is answered with that slot's number, the mask of provisioned slots, the hash of that slot's certificate chain and a signature by that slot's key over the hash of the transcript up to the signature; the mutual-authentication bit is set exactly if both sides support it. A challenge for an empty or nonexistent slot is refused.",
  ["inputs", "histories", "configurations"], "all CHALLENGE requests, all slot assignments, all conversations",
  "Tests challenge slot 0 in one conversation.",
  ["src/responder/challenge.rs", "src/msgs/challenge.rs", "src/crypto/signing.rs", "src/crypto/ring/signing.rs", "src/crypto/digest.rs", "src/crypto/ring/digest.rs"],
  [("answer", "src/responder/challenge.rs: State::handle_msg"), ("signature", "src/crypto/ring/signing.rs: RingSigner::sign")],
  obs="CHALLENGE_AUTH response and responder transcript")
p("C16", "GET_VERSION restarts the protocol in every state",
  "In every state that still accepts requests, a well-formed GET_VERSION that fits is answered with versions 1.0 and 1.1, discards everything negotiated before, leaves a transcript of exactly this exchange and continues with capabilities. An explicit reset returns to the initial state with an empty transcript.",
  ["inputs", "histories"], "all states reached by any history, all GET_VERSION requests and buffer sizes",
  "Tests restart from few states; stale state or transcript bytes are history dependent.",
  RSP, [("restart", "src/responder.rs: reset_on_get_version!, Responder::reset"), ("version exchange", "src/responder/version.rs: State::handle_get_version")],
  obs="response, state and transcript after GET_VERSION")
p("C17", "DIGESTS lists exactly the provisioned slots",
  "The responder's DIGESTS response has one mask bit per provisioned slot and, in slot order, the hash of each such slot's serialized certificate chain under the negotiated algorithm. The requester decodes exactly the digests announced by the mask, each of the negotiated size.",
  ["inputs", "configurations"], "all slot assignments, all certificate chains, all DIGESTS responses",
  "Tests provision one slot; masks with gaps and other algorithms are not covered.",
  ["src/responder/id_auth.rs", "src/requester/id_auth.rs", "src/msgs/digest.rs", "src/crypto/digest.rs", "src/crypto/ring/digest.rs"],
  [("mask and digests", "src/responder/id_auth.rs: create_slot_mask, hash_cert_chains"), ("encoding", "src/msgs/digest.rs: Digests")],
  obs="DIGESTS response")
p("C18", "Certificate chains are returned whole and read back unchanged",
  "A certificate request for a slot returns that slot's serialized chain with its exact length, or an empty chain for an empty slot, and is refused for a nonexistent slot. Serialized chains contain length, root hash and the certificates in order, and decoding one yields the same root hash, intermediate certificates and leaf.",
  ["inputs", "configurations"], "all slots, all certificate chains within the limits, all serialized chains",
  "Tests use one chain of fixed depth; other depths, sizes and slot numbers differ.",
  ["src/responder/id_auth.rs", "src/msgs/certificates.rs"], [("answer", "src/responder/id_auth.rs: handle_get_certificate"), ("chain serialization", "src/msgs/certificates.rs: CertificateChain::write, parse, read_cert_size")],
  obs="CERTIFICATE response, CertificateChain::parse result")
p("C19", "Raw signatures become the equivalent DER signatures",
  "For every fixed-width signature, the conversion yields the DER sequence of two integers with the same two values: minimal length, positive, correct lengths. It never overruns its output and reports input it cannot convert.",
  ["inputs"], "all byte strings of every even signature length up to the limit, including leading zero bytes, high bits and zero integers",
  "A wrong padding byte shows for one in 256 or fewer signatures; the tests sample a few.",
  ["src/crypto/pki.rs"], [("conversion", "src/crypto/pki.rs: bin_to_der, get_start_and_length")],
  obs="output of bin_to_der")
p("C20", "A refused request yields the matching ERROR message and ends the session",
  "Whenever the responder refuses a request, its output is exactly the encoded ERROR message with the code assigned to the cause, or nothing if the buffer cannot hold it, and the responder ends in the error state. Whenever a request is not refused, the output is the response and the responder stays usable.",
  ["inputs", "histories"], "all refused requests in all states, all output buffer sizes",
  "Tests provoke few of the error causes and buffer sizes.",
  ["src/responder.rs", "src/responder/error.rs", "src/msgs/error.rs"], [("error reporting", "src/responder.rs: AllStates::handle"), ("cause to code mapping", "src/responder/error.rs: From<&ResponderError> for Error")],
  obs="output slice and state after a failed Responder::handle_msg")
p("C21", "Advertised and recorded capabilities are the real ones",
  "Each side advertises exactly the configured capabilities, and after the exchange each side's state holds exactly the flags and timing exponents that both sides sent. Later decisions use these recorded values.",
  ["inputs", "histories"], "all capability messages",
  "Tests exchange the configured flags only; swapped or truncated records need other flag values.",
  ["src/responder/capabilities.rs", "src/requester/capabilities.rs", "src/msgs/capabilities.rs"],
  [("advertising", "src/responder/capabilities.rs and src/requester/capabilities.rs: config_to_*_msg"), ("recording", "State::handle_msg of both")],
  obs="capability messages and the state after them")
p("C22", "Digests and signatures compare equal exactly when their contents are equal",
  "Digests, signatures, opaque data elements, measurement bit streams, certificate chains and transcripts compare equal exactly if their valid contents, including their length, are equal. Unused trailing storage, for example left over from longer earlier contents, never matters.",
  ["inputs"], "all pairs of digests, signatures, opaque elements, bit streams, chains and transcripts of every length and with arbitrary unused bytes",
  "A comparison that looks at the wrong bytes differs only for particular pairs.",
  ["src/msgs/common.rs", "src/msgs/certificates.rs", "src/msgs/measurements.rs", "src/transcript.rs"],
  [("comparison", "PartialEq for DigestBuf, SignatureBuf, OpaqueElement, BitStream, CertificateChain, Transcript")], obs="result of ==")
p("C23", "Challenge nonces come entirely from the system's random source",
  "Every CHALLENGE and CHALLENGE_AUTH message, and every GET_MEASUREMENTS that asks for a signature, carries a nonce whose 32 bytes are all drawn from the system's random source when the message is made. The nonce sent is the one drawn: none of its bytes is fixed, truncated, derived or taken from elsewhere.",
  ["inputs", "histories"], "all challenge requests and responses of all conversations",
  "A constant or partly constant nonce passes every functional test.",
  ["src/crypto/nonce.rs", "src/requester/challenge.rs", "src/responder/challenge.rs", "src/msgs/challenge.rs"],
  [("drawing", "src/crypto/nonce.rs: Nonce::new"), ("use", "src/requester/challenge.rs: State::write_msg, src/responder/challenge.rs: State::handle_msg")],
  obs="nonce field of CHALLENGE, CHALLENGE_AUTH and GET_MEASUREMENTS")
p("C24", "An honest requester and an honest responder complete every step and agree",
  "When this library's requester talks to this library's responder, whose first slot holds a chain up to 1024 bytes long that leads to the requester's root, with the matching key, every one of the six exchanges succeeds up to the new session. After each exchange both sides hold the same transcript, version 1.1, capabilities, algorithms and certificate chain.",
  ["inputs", "histories", "configurations"], "all occupations of the other slots, all chains the limits allow, all buffers large enough for the messages, all earlier conversations of a responder that is not in its error state, all signatures the key yields",
  "The tests run this conversation with one kind of chain, one slot and ample buffers; another chain depth or size, slot population, buffer, earlier conversation or signature shape is never met.",
  ["src/requester.rs", "src/responder.rs"] + RSP[1:] + REQ[1:], [("requester steps", "src/requester.rs: RequesterInit::next_request, handle_msg"), ("responder steps", "src/responder.rs: Responder::handle_msg"), ("what was negotiated", "requester and responder State types")],
  obs="results, states and transcripts of both sides after each exchange")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
