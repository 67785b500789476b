#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so ids, titles and anchors stay consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
MIN="src/minimal.rs"; RD="src/reader.rs"; ST="src/status.rs"; CO="src/complete.rs"; MS="src/message.rs"
WR="src/complete/writer.rs"; DE="src/complete/serde/deserializer.rs"; SE="src/complete/serde/serializer.rs"
EN="src/encryption.rs"; CH="src/encryption/chacha20_poly1305_aead.rs"; AG="src/agreement.rs"; SD="src/seeds.rs"
FM="src/format.rs"; CF="src/config.rs"; SG="src/signature.rs"; CS="src/constants.rs"

p("C01", "Negotiation completes in every legal message order",
  "Two honest layers that each send one CONNECT and one ACK are both negotiated at the end of every order in which those messages can be created and delivered, including an ACK that arrives before its sender's CONNECT, whether or not either side was given the peer's expected key. Each side reports the peer's identity key and the peer's CONNECT and ACK custom data exactly as supplied, and user messages then flow in both directions.",
  ["schedules", "inputs", "configurations"],
  "all interleavings of creation and delivery of the two CONNECT and two ACK messages and of the first user messages, with any custom data, expected key given or not on each side, in minimal and complete mode",
  "The tests walk three fixed orders with 4-byte custom data; there are dozens of legal handshake orders and thousands once early user messages are included.",
  [MIN, ST, CO, AG], [("negotiation state machine (local/remote threads)", "src/status.rs apply_action"), ("early ACK set aside", "src/minimal.rs read_inner, take_ack_msg_recv_too_early"), ("key agreement with the larger key as salt", "src/agreement.rs compute_shared_secret")],
  [("status", "negotiation progress of both threads", ST), ("ack_msg_recv_too_early", "ACK received before the peer's key is known", MIN)],
  ["MinimalSecureLayer::{create_connect_message,create_ack_message,read,take_ack_msg_recv_too_early,write_message}", "SecureLayer::{write_connect_msg_bin,write_ack_msg_bin,read_bin,write_bin}"])
p("C02", "Binary payloads round-trip byte for byte",
  "Every binary payload that a negotiated layer writes is delivered by its peer as exactly the same bytes, for every size, content, direction, number of messages already exchanged, compression level 0 to 9 and compression threshold; the binary custom data of CONNECT and ACK messages likewise. In minimal mode an empty payload is delivered as an absent one.",
  ["inputs", "configurations", "histories"],
  "all payload sizes and contents (up to several MiB here), all configurations, any message number, both directions, both modes",
  "The tests send only 4-byte payloads, at most a handful per session, with the default configuration, so compression is never reached.",
  [CO, WR, MIN, MS, EN, CH, RD], [("compress/uncompress", "src/complete.rs"), ("message encoding", "src/message.rs MessageRef::to_bytes"), ("encryption", CH), ("payload slicing", "src/reader.rs read, src/minimal.rs read_inner")],
  (), ["SecureLayer::write_bin/read_bin", "MinimalSecureLayer::write_message/read"])
p("C03", "Typed values round-trip in every serialisation format",
  "Every serialisable value sent with the typed API in bincode, CBOR or JSON is delivered equal by the peer, in CONNECT, ACK and user messages and whatever format the receiver itself is configured for, because each message names its own format. Sending a typed value under a format that has no typed encoding (raw binary, plain text), or receiving a typed message whose format is unknown or has no typed encoding, is an error and never a panic or a wrong value.",
  ["inputs", "configurations", "histories"],
  "all values of a recursive data type (integers, strings, bytes, options, sequences, maps, enums), all pairs of sender and receiver formats, format changes mid-session, all four-byte format headers",
  "The tests send one short string per format with both sides configured alike.",
  [SE, DE, FM, CO], [("format header written before the value", "src/complete/serde/serializer.rs serialize"), ("format read from the message", "src/complete/serde/deserializer.rs deserialize"), ("format codes", "src/format.rs TryFrom/AsRef")],
  (), ["SecureLayer::{write,write_connect_msg,write_ack_msg,read}", "MessageFormat::{try_from,as_ref}"])
p("C04", "Only the authentic peer can complete a negotiation",
  "A layer given an expected peer key accepts no CONNECT naming another key, and no layer accepts a CONNECT or ACK unless its signature, over all of its bytes, verifies under the key that CONNECT names. Negotiation succeeds only if the holder of that key signed an ACK answering this layer's own ephemeral key, so forged or altered messages, messages recorded in other sessions and the layer's own messages sent back to it never complete it.",
  ["inputs", "histories"],
  "all adversarial histories built from honest messages of this and other sessions, field-level alterations with and without re-signing under other keys, truncation, extension, replay and reflection, with and without an expected key",
  "One test checks one wrong key and another one all-zero signature; the alteration space (every byte of every field, every order) is untouched.",
  [MIN, SG, RD, ST], [("expected key comparison", "src/minimal.rs read_inner (Connect)"), ("signature verification", "src/minimal.rs verify_sig, src/signature.rs"), ("challenge check", "src/minimal.rs read_inner (Ack)")],
  [("peer_sig_pubkey", "expected or established peer identity key", MIN)],
  ["MinimalSecureLayer::read", "SecureLayer::read_bin", "try_clone/write_message (negotiated or not)"])
p("C05", "Only the peer's unaltered user messages are delivered",
  "Every user message a negotiated layer delivers was written in this session by its peer, byte for byte. Bytes that were altered, truncated, extended, spliced or invented by someone without the session key, that come from another session, that carry a user message in clear, or that the layer wrote itself, are never delivered.",
  ["inputs", "histories"],
  "all modifications of observed ciphertexts (every bit, every length, splices between messages, directions and sessions) and invented bytes, at any point of any session",
  "No test alters an encrypted message; the quantifier ranges over all byte strings an attacker can send.",
  [RD, MIN, EN, CH], [("AEAD tag verification", "src/encryption/chacha20_poly1305_aead.rs decrypt"), ("encryption state check", "src/reader.rs read"), ("inner hash", "src/minimal.rs read_inner (UserMsg)")],
  [("encrypt_algo_with_secret", "session key", MIN)], ["read / read_bin results"])
p("C06", "User messages are never replayed; reordering is tolerated",
  "Each user message is delivered at most once however often its bytes arrive; a duplicate is refused as an invalid nonce and the session keeps working. Messages arriving in any order are all delivered as long as at most 10,000 of them are waiting beyond a missing one; one more than that is refused as too many unordered messages and fails the connection.",
  ["schedules", "histories", "inputs"],
  "all delivery schedules (reordering, duplication, loss, late arrival) of user messages, including gaps at and around the 10,000 limit and any message number carried by an authentic message",
  "The tests replay one message immediately and permute four; nothing covers duplicates of absorbed out-of-order messages, several gaps, or a window that drains and refills.",
  [MIN, CS], [("nonce check and orphan list", "src/minimal.rs read_inner (UserMsg)"), ("window limit", "src/constants.rs MAX_ORPHAN_NONCES")],
  [("next_nonce_expected", "lowest nonce not yet received", MIN), ("orphan_nonce_list", "nonces received above it", MIN)], ["read / read_bin results"])
p("C07", "No received bytes and no call sequence cause a panic",
  "Whatever bytes are given to a layer's read functions, in whatever state it is and in either mode, the call returns messages or an error and never panics; this includes bytes that are correctly signed or encrypted but malformed inside. No order of calls on a layer makes any of them panic.",
  ["inputs", "histories"],
  "all byte strings (random, truncated, with lying length fields, re-signed or re-encrypted malformed content, malformed compressed or serialised data) in all reachable states, and all call sequences",
  "The tests feed a dozen hand-written malformed messages; a remote peer can send any bytes, and a panic is a denial of service.",
  [RD, MIN, CH, DE, SE, CO, MS], [("length checks before slicing", "src/reader.rs read, read_type_headers"), ("ciphertext length check", CH), ("errors instead of unimplemented", DE)],
  (), ["every public function of MinimalSecureLayer and SecureLayer"])
p("C08", "A failed connection stays failed",
  "Once a layer has failed - because of a message it could not decode, decrypt or accept in its state, too many unordered messages, a key agreement that failed, user data written before the negotiation was over, or an error while writing a user message - no later input makes it deliver a message, and every attempt to create a CONNECT or ACK, write user data or clone it is refused with an error.",
  ["histories", "inputs", "fault_sequences"],
  "all histories that reach a failure by any cause, followed by any sequence of valid and invalid messages and calls",
  "One test checks that one bad message sets the failed status; nothing checks what happens afterwards.",
  [ST, MIN], [("Fail status absorbs every action", "src/status.rs apply_action"), ("failures set the status", "src/minimal.rs read_inner, write_message")],
  [("status", "Fail is absorbing", ST)], ["return values after a failure"])
p("C09", "No user data before the negotiation is complete",
  "A layer writes user data, delivers user data or can be cloned only after it has sent its CONNECT and its ACK and has received a valid CONNECT and a valid ACK from its peer; before that the calls are refused, and a user message that arrives is either held undelivered (when only the peer's ACK is missing) or fails the connection. A layer creates at most one CONNECT and at most one ACK, the ACK only after a valid CONNECT from the peer, and accepts at most one CONNECT and one ACK.",
  ["histories", "schedules"],
  "all sequences of local calls and received messages, valid or not, at every negotiation stage",
  "The tests try about six illegal calls in the initial state; there are ten negotiation states and any operation can occur in each.",
  [ST, MIN, CO], [("status state machine", "src/status.rs apply_action")],
  [("status", "negotiation progress", ST), ("tmp_stack_user_msgs", "user messages held until the ACK", MIN)], ["return values of every call"])
p("C10", "Harmless rejections leave the session untouched",
  "A CONNECT or ACK refused for a bad signature, an unexpected peer key or a wrong challenge, a refused duplicate of a user message, and a refused local call (second CONNECT, ACK not due or already created, too early clone, typed write in a format without typed encoding, configuration change after cloning) leave the layer as it was. The session continues exactly as if the refused event had not happened.",
  ["histories", "inputs"],
  "all honest session histories with refused events inserted at any points, compared with the same history without them",
  "The tests stop at the first error; none continues a session after a refusal.",
  [MIN, ST, CO, WR], [("state updated only after all checks", "src/minimal.rs read_inner"), ("refusals without transition", "src/status.rs apply_action"), ("serialisation before state change", SE)],
  [("peer_sig_pubkey", "must not be set by an unverified CONNECT", MIN)], ["emitted bytes and results of the rest of the history"])
p("C11", "Emitted messages follow the version 1 wire format",
  "Every message a layer emits has exactly the documented version 1 layout (magic value, version, length, type, type-specific fields, data, then an Ed25519 signature of all previous bytes or their SHA-256 hash, all numbers big endian), and every user message is that encoding encrypted with ChaCha20-Poly1305. Its key, nonce and associated data are taken in this order from 48 bytes derived by PBKDF2-HMAC-SHA384 (3 iterations) from the X25519 secret with the larger ephemeral public key as salt, and message numbers count 0, 1, 2 and so on, so that an independent implementation of the format interoperates with it in both directions.",
  ["inputs", "histories", "configurations"],
  "all payloads, identity keys, ephemeral key pairs (including keys sharing a long prefix), message numbers and both modes",
  "The tests compare three encodings with literals and otherwise talk only to the same code, so any symmetric change of the format or of the key derivation goes unnoticed.",
  [MS, CS, AG, CH, EN, MIN, WR, FM], [("encoding", "src/message.rs MessageRef::to_bytes"), ("key derivation", "src/agreement.rs derive"), ("key split", "src/encryption/chacha20_poly1305_aead.rs SecretKey::new"), ("nonce counter", "src/minimal.rs write_message")],
  [("next_nonce_sent", "number of the next message", MIN)], ["bytes returned or written by create_*/write_*"])
p("C12", "Only exactly well-formed messages are accepted",
  "A received message is accepted only if its magic value, version, length field, type, signature algorithm, and signature or hash (which must cover all bytes before it and end the message) are all exactly right, and only if it is encrypted when it is a user message and in clear when it is a CONNECT or ACK - even when whoever made it holds all the keys. What is delivered from an accepted message is exactly the data field it carries.",
  ["inputs"],
  "all messages obtained from well-formed ones by changing any field or structure (including lengths, versions, types, nested encryption) and then correctly re-signing, re-hashing and re-encrypting",
  "The tests try one wrong version, one wrong type and one wrong magic value on truncated messages; consistent re-signed variants are never tried.",
  [RD, MIN, MS], [("magic/version/type/length checks", "src/reader.rs read, read_type_headers"), ("signature and hash checks", "src/minimal.rs read_inner")],
  (), ["read / read_bin results compared with an independent decoder"])
p("C13", "User data is encrypted under fresh session keys",
  "The wire bytes of a user message reveal neither its content nor its header: they are the encryption of the message under a key that can be derived only with one of the two ephemeral private keys of this session. Each layer draws its ephemeral key pair from fresh system randomness, so different sessions have unrelated ephemeral and session keys, and within a session no two messages are encrypted with the same keystream.",
  ["inputs", "histories"],
  "all payloads and message sequences within and across sessions, all values the system random source can give",
  "The tests check that decryption inverts encryption, never that wire bytes are unrelated to the plaintext or that keys differ between sessions.",
  [AG, CH, EN, MIN, SD], [("ephemeral key generation", "src/agreement.rs EphemeralKeyPair::generate"), ("key derivation", "src/agreement.rs derive"), ("encryption of every user message", "src/minimal.rs encrypt_and_write")],
  [("ephemeral_kp", "one-time key pair", MIN)], ["bytes written by write_message/write_bin; randomness drawn from the system"])
p("C14", "Clones continue the same session consistently",
  "A negotiated layer can be cloned, also repeatedly, and each handle continues the session from the point of cloning: its reads refuse everything already delivered before the cloning, and its writes are accepted by the peer as the next messages. A clone has no identity key, so it can write neither CONNECT nor ACK, and after cloning the configuration of neither the original nor the clone can be changed.",
  ["histories", "configurations"],
  "all histories of writes, reads (ordered or not), clonings at any point, and use of one handle for reading and another for writing, in both modes",
  "The tests only call try_clone once and drop the result.",
  [MIN, CO, WR], [("state copied into the clone", "src/minimal.rs try_clone"), ("clone has no key pair", "src/complete.rs try_clone"), ("configuration frozen", "src/minimal.rs change_config")],
  [("cloned", "configuration is frozen", MIN)], ["results of calls on original and clones"])
p("C15", "A successful write puts the whole message on the writer",
  "When a write call returns success, then after a successful flush the underlying sink has received exactly the bytes of the message, once and completely, even if the sink takes bytes in arbitrary pieces or is interrupted. When the sink fails during a user message write, the call returns an error and the layer writes no further user message.",
  ["fault_sequences", "inputs", "configurations"],
  "all payload sizes, BufWriter capacities and sink behaviours (short writes, interruptions, errors at any byte) for CONNECT, ACK and user messages",
  "The tests write only into vectors, which always accept everything at once.",
  [WR, CH, MIN, SE], [("complete writes", "src/complete/writer.rs, src/encryption/chacha20_poly1305_aead.rs encrypt"), ("failure marks the connection failed", "src/minimal.rs write_message")],
  (), ["bytes received by the sink; return values"])
p("C16", "The configuration is honoured",
  "In complete mode data shorter than the configured threshold (the encoding of a typed message counts with its format header) is sent uncompressed and data at or above it is compressed with the configured level; typed messages are sent in the configured format. A configuration change takes effect from the next message on, and never affects how messages sent under another configuration are read.",
  ["configurations", "inputs", "histories"],
  "all compression levels, thresholds, formats and sizes around the threshold, and configuration changes between any two messages",
  "The tests only compare default values and never look at what a configuration does.",
  [CO, CF, SE, MIN], [("level chosen by size", "src/complete.rs compress"), ("change_config", "src/minimal.rs change_config"), ("format header", SE)],
  [("config", "current configuration", MIN)], ["decrypted wire content and its compressed form"])
p("C17", "Identity and random seeds are what they claim to be",
  "A complete-mode layer created with a seed announces the Ed25519 public key of that seed and signs its CONNECT and ACK with it; one created without a seed uses a fresh random identity, different for every layer. Random seeds come unaltered from the system random source, and a seed built from given bytes holds exactly those bytes.",
  ["inputs"],
  "all seeds, custom data and system random outputs",
  "The tests use a random seed once and compare two random seeds for inequality.",
  [CO, WR, SD], [("key pair from seed", "src/complete.rs create"), ("random seed", "src/seeds.rs Seed32::random"), ("signing", "src/complete/writer.rs sign_bin_msg_and_write_sig")],
  [("sig_key_pair", "identity key pair", CO)], ["peer_sig_public_key reported by the peer; signatures on the wire"])
p("C18", "Sessions are isolated from one another",
  "Sessions running in one process do not influence each other: under any interleaving of several sessions, on one thread or several, each produces the same results and the same messages as when it runs alone. No message of one session is accepted as a user message or ACK in another.",
  ["schedules", "histories"],
  "all interleavings of several concurrent sessions and all cross-deliveries between them",
  "Every test runs a single session.",
  [MIN, CO, AG, EN], [("all state is per layer", "src/minimal.rs MinimalSecureLayer"), ("session keys and challenges bind messages to a session", "src/minimal.rs read_inner")],
  (), ["outputs of each session alone and interleaved"])
p("C19", "Secrets are erased from memory when dropped",
  "When a seed or a layer (original or clone, negotiated or not) is dropped, the memory it occupied, including memory it owned elsewhere, no longer contains the seed bytes or the session's symmetric key. Completing a negotiation leaves no copy of the symmetric key in freed heap memory either.",
  ["histories", "inputs"],
  "all seeds and session keys, and all histories ending in drops of originals and clones in any order",
  "No test looks at memory after a drop.",
  [SD, CH, AG], [("zeroize on drop", "src/seeds.rs Seed32/Seed48/Seed64, src/encryption/chacha20_poly1305_aead.rs SecretKey")],
  (), ["memory of the dropped value and of freed heap blocks"])
p("C20", "Early messages are held and delivered exactly once",
  "An ACK that arrives before the peer's key is known, and user messages that arrive before the peer's ACK, are held and then each delivered exactly once, unaltered and in order of arrival, when the missing message has come: on request in minimal mode, automatically in complete mode. Asking too soon or again changes nothing; a duplicate of a held user message never costs the delivery of the others, and a second early ACK fails the connection.",
  ["schedules", "histories"],
  "all arrival orders in which ACK or user messages overtake, any number of held messages, duplicates among them, and requests for held messages at any time",
  "One test holds one ACK and one user message; duplicates, several messages, reordering and repeated requests are not covered.",
  [MIN, CO, ST], [("early ACK", "src/minimal.rs take_ack_msg_recv_too_early"), ("held user messages", "src/minimal.rs drain_tmp_stack_user_msgs"), ("automatic delivery", "src/complete.rs read_bin")],
  [("tmp_stack_user_msgs", "held user messages", MIN), ("ack_msg_recv_too_early", "held ACK", MIN)], ["results of read, take_ack_msg_recv_too_early, drain_tmp_stack_user_msgs, read_bin"])
p("C21", "Memory stays in proportion to what must be kept",
  "Reading or writing a message needs memory in proportion to its size and to what its data inflate to, whatever lengths it announces; delivered, refused and failed messages leave nothing behind. What a layer keeps does not grow with traffic: beyond its keys only messages received before their turn (an early ACK, user messages before the ACK) and the numbers, at most 10,000, of messages received past a missing one; dropping a layer frees all it kept.",
  ["histories", "inputs"],
  "all sessions of any length, delivery orders, message sizes, announced lengths, refused and failing calls, in both modes",
  "Memory is invisible to tests that compare results, and growth needs sessions longer than theirs.",
  [MIN, RD, CO, MS, DE], [("numbers kept of messages past a missing one", "src/minimal.rs read_inner"), ("lengths announced in the header", "src/reader.rs read"), ("decompression buffer", "src/complete.rs uncompress")],
  [("list of received numbers", "messages received past a missing one", MIN), ("tmp_stack_user_msgs", "user messages before the ACK", MIN), ("ack_msg_recv_too_early", "early ACK", MIN)],
  ["bytes allocated and freed during and after each call of the public API"])
p("C22", "Nothing printed or logged discloses a secret",
  "Nothing pkstl prints or returns as text \u2013 Debug of a layer, clone, seed or error, panic messages, log records, standard output and error \u2013 contains the bytes of an identity seed, private key, shared secret or session key, in any usual encoding.",
  ["histories", "inputs"],
  "all states and histories of layers in both modes, all seeds and keys, all errors, with logging enabled at every level",
  "No test formats a layer or a seed; a leak shows only in text that tests do not look at.",
  [SD, CH, EN, AG, MIN, CO, "src/errors.rs"], [("Debug of seeds, keys and layers", "src/seeds.rs, src/encryption/chacha20_poly1305_aead.rs, src/agreement.rs"), ("Debug of errors", "src/errors.rs")],
  [("encrypt_algo_with_secret", "session key", MIN), ("sig_key_pair", "identity key", CO)],
  ["{:?} and {:#?} of every public type", "log records", "standard output and standard error", "panic messages"])
p("C23", "Builds with different features interoperate",
  "pkstl compiles with every set of its features, and peers built with different sets negotiate and exchange messages exactly as equal builds do: the minimal mode is the same in all of them, the complete mode in all that have it, and a typed message is read exactly by builds that include its format, while the others refuse it with an error and go on.",
  ["configurations", "histories", "inputs"],
  "all pairs of builds (none, zip-sign, ser, any subset of bin, cbor, json), all sessions in both modes, all formats, configurations and payloads",
  "The tests run in one build, with all features, so nothing that depends on the features is ever compared.",
  ["Cargo.toml", "src/lib.rs", CF, FM, MIN, CO, SE, DE], [("formats included by features", FM), ("configuration fields by features", CF), ("serialisation by features", "src/complete/serde/serializer.rs, deserializer.rs")],
  [], ["every call of the public API in programs built with each set of features"])
p("C24", "Errors name what is wrong",
  "A call that is refused for one reason returns the error documented for that reason, in either mode, in every state and whatever the contents: a received message with one wrong part (magic value, version, type, signature algorithm, length, signature or hash, challenge, key, encryption, number, compression, format, encoding) that of the part, one that comes at the wrong time, twice or after a failure that of the time, and a refused local call that of its precondition. Errors of the writer, of decompression and of (de)serialisation are reported as such.",
  ["inputs", "histories"],
  "all single flaws at all positions and values, all message types, states, modes, configurations and contents, all refused calls",
  "The tests look at the error of a dozen hand made cases, in one state each.",
  ["src/errors.rs", RD, MIN, "src/status.rs", CO, DE, SE, CH], [("parse errors", RD), ("state errors", "src/status.rs apply_action"), ("signature, challenge, number", "src/minimal.rs read_inner"), ("format errors", DE)],
  [("status", "stage of the negotiation", MIN)], ["the error returned by each refused call"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
