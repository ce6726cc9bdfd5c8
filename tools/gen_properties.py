#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

p("C01", "Handshake with any conforming server completes with the RFC key schedule",
  "Against every server that follows TLS 1.2 ECDHE with the one offered suite, curve and point format, the connection constructor succeeds, whatever legal values the server chooses (random, session id, extensions, certificate list, signature, key share) and however it packs its handshake messages into records. Afterwards both directions carry data protected under exactly the keys RFC 5246/7905 derive from the exchange, and the client's own messages are well-formed and in the right order.",
  ["inputs","configurations"], "all legal server choices (session id 0..32 bytes, extension blocks, 0..3 certificates up to multi-record size, signature lengths, key shares incl. shared secrets with leading zero bytes) x all packings of the server flight into records up to two cuts, plus message-level coalescings and one-byte records",
  "No existing test runs a handshake at all; the example needs the network. Unit tests only cover the pieces with one vector each.",
  ["src/client.rs","src/tls.rs","src/handshake.rs","src/cipher/ecdhe.rs","src/cipher/prf.rs"],
  [("handshake driver","src/client.rs handshake"),("key derivation","src/client.rs read_key block, src/cipher/prf.rs")],
  ["TlsClient::new","TlsClient::from_tcp","Read/Write of TlsClient","bytes on the wire"])
p("C02", "Connection is established only by the exact legal server message sequence",
  "The connection constructor returns success only after the server has sent ServerHello, Certificate, ServerKeyExchange, ServerHelloDone, ChangeCipherSpec and a protected Finished, each exactly once and in that order. Any missing, repeated, reordered, unknown, client-side, unprotected-when-it-must-be-protected or interleaved message (alert, application data, stray ChangeCipherSpec) makes it return an error.",
  ["histories","inputs"], "all sequences of peer messages over an alphabet of ~40 message/record kinds, explored to the point where the client has decided, and past the legal length",
  "There is no handshake test; a state machine must be explored over histories, a test picks one.",
  ["src/client.rs","src/tls.rs","src/handshake.rs"],
  [("expect! sequence","src/client.rs handshake"),("message dispatch","src/tls.rs read_message/read_handshake/read_change_cipher_spec")],
  ["TlsClient::new"])
p("C03", "Tampering with any handshake byte prevents establishment",
  "If any byte of any handshake message, in either direction, differs between what one side sent and what the other received, the constructor does not succeed; the same holds for any server Finished whose verify data, label, transcript, key, sequence number or protection is not exactly the right one. The verify-data comparison accepts equal strings only.",
  ["inputs","fault_sequences"], "every bit of every handshake message of both flights, message substitutions, every one-byte and chosen multi-byte change of the verify data, every wrong way of building Finished",
  "Existing tests never run a handshake and the comparison helper is untested; forgeries live in the inputs a sample does not contain.",
  ["src/client.rs","src/util.rs","src/cipher/prf.rs","src/handshake.rs"],
  [("transcript hash","src/client.rs msgs / verify_hash"),("constant-time compare","src/util.rs crypto_compare")],
  ["TlsClient::new","util::crypto_compare"])
p("C04", "Only offered parameters are ever negotiated",
  "The ClientHello offers exactly TLS 1.2, suite 0xCCA8, null compression, secp256r1, uncompressed points and RSA/SHA-256, in well-formed encoding. Whatever the server answers, the connection is established only with protocol version 3.3, that suite, null compression, a named curve and the curve secp256r1; every other value is refused with an error before any key material is sent.",
  ["inputs"], "all 65536 versions, all 65536 suites, all 256 compression values, all 256 curve types, all 65536 named curves, combined one deviation at a time (pairs in the thorough tier)",
  "No test exercises server answers; the sets are small enough to enumerate completely but not by example.",
  ["src/client.rs","src/cipher/mod.rs","src/cipher/ecdhe.rs","src/handshake.rs"],
  [("ServerHello checks","src/client.rs handshake"),("curve parameters","src/cipher/ecdhe.rs compute_keys")],
  ["TlsClient::new","alert on the wire"])
p("C05", "Peer key shares are accepted only as valid canonical P-256 points",
  "A server key share is used only if it is 65 bytes, starts with 0x04, has both coordinates below the field prime and satisfies the curve equation; everything else is refused with illegal_parameter (or decode_error when it does not parse) and never crashes the client.",
  ["inputs"], "all first bytes, all lengths 0..255, coordinates over a limb lattice including values at and above the prime, all single-bit changes of valid points, points on related curves, compressed forms",
  "No test calls point decoding; invalid-curve and non-canonical inputs are corner values.",
  ["src/crypto/p256.rs","src/cipher/ecdhe.rs"],
  [("point decoding and curve check","src/crypto/p256.rs from_uncompressed_bytes")],
  ["TlsClient::new","p256::NPoint256::from_uncompressed_bytes"])
p("C06", "PRF output stream is P_SHA256 and independent of how it is drawn",
  "For every secret and seed, the bytes obtained by any sequence of requests to the pseudo-random function are exactly the RFC 5246 P_SHA256 stream, with no byte skipped, repeated or reordered at request boundaries.",
  ["inputs","histories"], "all request sequences (sizes 0..130 near the 32-byte block boundaries) up to depth 4-5, all reachable buffer offsets, secrets of 0..64 bytes and seeds of 0..200 bytes",
  "The tests draw 100 bytes in three ways from an empty secret and one vector; the buffered remainder logic depends on the history of request sizes.",
  ["src/cipher/prf.rs"], [("buffered generator","src/cipher/prf.rs Prf::get_bytes/next_block")],
  ["cipher::prf::Prf"])
p("C07", "Everything the client sends after ChangeCipherSpec is protected, in order, exact",
  "Every record the client emits after its ChangeCipherSpec opens under the negotiated client write key with the next consecutive sequence number and correct additional data; the concatenated application-data plaintexts equal exactly the bytes accepted by successful writes, in order, each record carrying at most 2^14 bytes. No application byte is ever emitted unprotected, and reads in between do not disturb this.",
  ["histories","inputs"], "all operation sequences over {write n, write_all n, flush, read n, close} with n around all block/record boundaries up to depth 3-4, all lengths 0..520 and record-boundary lengths, one history of more than 65536 records",
  "One test writes 2^14+200 bytes through a null cipher; sequence-number carries, sizes and histories are not covered.",
  ["src/tls.rs","src/client.rs","src/cipher/chacha20_poly1305.rs"],
  [("record writer","src/tls.rs write_record/write_data"),("Write impl","src/client.rs")],
  ["wire bytes","io::Write of TlsClient","TlsClient::close"])
p("C08", "Only the peer's authentic bytes are delivered, in order, without gaps",
  "Whatever a network attacker does to the protected record stream (drop, replay, reorder, duplicate, truncate, modify any header, ciphertext or tag byte, change the type, inject unprotected records, reflect the client's own records, splice or split), the application bytes delivered are a prefix of what the server sent on this connection. Everything authentic that arrives in order before the first manipulation is delivered.",
  ["fault_sequences","histories","inputs"], "all attacker schedules over a menu of about 30 actions on a 4-record stream up to depth 4-5; every bit of a record; sequence numbers past 256 and 65536",
  "No test decrypts a record stream; replay and reorder are properties of histories.",
  ["src/tls.rs","src/client.rs","src/cipher/chacha20_poly1305.rs"],
  [("record reader","src/tls.rs read_record"),("AEAD open","src/cipher/chacha20_poly1305.rs decrypt")],
  ["io::Read of TlsClient"])
p("C09", "A key/nonce pair never protects two different records, even after write errors",
  "Over any history of writes, closes, alerts and transport write failures at any byte, no two different plaintext records are ever sealed under the same sequence number with ciphertext bytes of both reaching the transport.",
  ["fault_sequences","histories"], "every byte offset of a record x error kinds x follow-up operations, and all pairs of such faults",
  "Tests never inject a write error; the nonce counter update sits after the fallible writes.",
  ["src/tls.rs","src/client.rs"], [("write sequence number","src/tls.rs write_record write_count")],
  ["wire bytes after failed writes"])
p("C10", "Transport chunking and interruptions are invisible",
  "For any way the transport splits the byte stream over read and write calls, including one byte at a time and calls that report an interruption to be retried, the client sends the same bytes, delivers the same data and reports the same result as with an ideal transport.",
  ["schedules","fault_sequences"], "all single and pairs of split points / interruptions over the whole connection byte stream in both directions, all uniform chunk sizes 1..64",
  "Tests read from in-memory cursors that never return short.",
  ["src/util.rs","src/tls.rs"], [("fill loop","src/util.rs fill_exact"),("write_all use","src/tls.rs write_record")],
  ["TlsClient::new","io::Read/io::Write of TlsClient"])
p("C11", "Reads return the byte stream regardless of record and buffer sizes",
  "For every way the server splits its data into records (including empty records) and every sequence of read buffer sizes (including zero), successive reads return the server's bytes in order without loss, duplication or invention, never more than the buffer holds. A read that already buffered data can satisfy does not wait for the transport, and zero is returned for a non-empty buffer only at the end of the stream.",
  ["inputs","histories"], "all compositions of short streams into records (with empty records in every gap) x all read-size sequences; boundary sizes up to multi-record reads",
  "No test reads application data through the client.",
  ["src/client.rs","src/tls.rs"], [("read buffering","src/client.rs Read impl")],
  ["io::Read of TlsClient"])
p("C12", "End of stream is final and reached without waiting",
  "After the peer's close_notify, a fatal alert or any protocol violation, the read that meets it returns what was delivered before it and every later read returns end of stream; no application byte that follows is ever delivered, and no later read touches or waits for the transport. close() puts exactly one protected close_notify alert on the wire.",
  ["histories"], "all sequences of server items {data, empty data, close_notify, other alerts, CCS, handshake messages, forged record, oversized record, EOF} up to depth 4, with varied read sizes and interleaved close/write",
  "No test closes a connection.",
  ["src/client.rs","src/tls.rs"], [("alert handling","src/tls.rs read_application_data"),("read loop","src/client.rs Read impl")],
  ["io::Read of TlsClient","TlsClient::close"])
p("C13", "No peer input can crash or hang the client",
  "For every byte sequence a peer can send, before or after keys are established, and also a malicious peer that holds the keys, every client call returns: it never panics, never overflows, never loops without consuming input, and fails once the stream ends.",
  ["inputs","fault_sequences"], "all two-byte inputs, all record headers over boundary lengths, every byte of the flight set to every value, every length field set to every boundary, every content type / handshake type / alert byte pair in every state, truncation of every message at every byte",
  "Tests feed three malformed records; the quantifier is over all inputs in all protocol states.",
  ["src/tls.rs","src/handshake.rs","src/tls_item.rs","src/client.rs","src/cipher/ecdhe.rs","src/crypto/p256.rs"],
  [("record and message parsing","src/tls.rs, src/handshake.rs, src/tls_item.rs")],
  ["TlsClient::new","io::Read of TlsClient"])
p("C14", "Handshake failures are reported as the right error and one matching fatal alert",
  "When the handshake fails because of what the peer sent, the constructor returns an error of the matching kind and the last thing on the wire is exactly one fatal alert whose description matches that kind, protected if and only if the client has already switched to protected sending. When it fails because the transport failed or ended, the error is an I/O error and no alert is sent.",
  ["inputs","fault_sequences"], "every fault class (wrong order, malformed, truncated, unacceptable parameter, wrong verify data, bad tag, oversized, alert received) at every stage of the handshake, and transport end/error at every byte",
  "No test observes an alert.",
  ["src/client.rs","src/alert.rs","src/tls_result.rs","src/tls.rs","src/handshake.rs"],
  [("error to alert","src/client.rs send_tls_alert, src/alert.rs from_err")],
  ["TlsClient::new","alert on the wire"])
p("C15", "Wire encoding is exact, canonical and strict for every message structure",
  "For every value of every message structure, encoding yields the RFC 5246/4492 byte layout, its declared size equals the encoded length, and decoding gives the value back. Decoding accepts exactly the well-formed encodings: whatever is accepted re-encodes to the same bytes, and truncated, over-long, out-of-range or trailing-garbage inputs are rejected. (A cipher suite the client does not know decodes to a placeholder, which need not re-encode.)",
  ["inputs"], "all values of every enum and integer width on small ranges, all small-scope values of every vector/struct, all byte strings up to length 5-8 over a structural alphabet per type, every truncation and every one-byte extension of valid encodings, boundary vector sizes",
  "One round trip of one ClientHello is tested; length fields and nesting are combinatorial.",
  ["src/tls_item.rs","src/macros.rs","src/handshake.rs","src/signature.rs","src/alert.rs","src/util.rs","src/cipher/mod.rs","src/cipher/ecdhe.rs"],
  [("codec macros","src/tls_item.rs, src/macros.rs"),("extension and handshake codecs","src/handshake.rs")],
  ["TlsItem read/write/size of the public message types","ReadExt/WriteExt"])
p("C16", "Handshake messages are reassembled identically however they are fragmented",
  "For every sequence of handshake messages and every way of cutting their concatenation into records, the same messages come out in the same order, none early, none lost. A handshake message never spans a key change: a ChangeCipherSpec arriving while a handshake message is incomplete is an error.",
  ["inputs","schedules"], "all 2^(n-1) fragmentations of message sequences up to 21-24 bytes, all cut pairs of longer ones, a ChangeCipherSpec inserted at every cut",
  "Tests never split a handshake message.",
  ["src/handshake.rs","src/tls.rs"], [("reassembly buffer","src/handshake.rs HandshakeBuffer"),("dispatch","src/tls.rs read_message")],
  ["TlsReader::read_message","TlsClient::new"])
p("C17", "Record size limits are exact in both directions",
  "A record is accepted exactly when its plaintext is at most 2^14 bytes (and, when protected, it carries at least a tag and at most 2^14+2048 bytes); longer ones are reported as record_overflow and too short protected ones as bad_record_mac, never by a crash. The client never emits a record with more than 2^14 plaintext bytes.",
  ["inputs"], "every declared length 0..65535 at the header, every plaintext length around all limits for each content type, unprotected and protected",
  "One test covers 2^14+1 declared unprotected; limits are boundary conditions over all lengths, types and protection states.",
  ["src/tls.rs"], [("limits","src/tls.rs RECORD_MAX_LEN/ENC_RECORD_MAX_LEN, read_record, write_data")],
  ["TlsReader::read_message","wire bytes"])
p("C18", "AEAD seal and open are exactly ChaCha20-Poly1305 and reject every forgery",
  "For every key, nonce, additional data and plaintext, sealing produces the RFC 8439 ciphertext and tag, and opening inverts it. Opening anything else - any changed bit of nonce, additional data, ciphertext or tag, any truncation or extension - fails with bad_record_mac.",
  ["inputs"], "all plaintext lengths 0..2^14+, all AD lengths 0..64, limb-corner lattices for the authenticator, all single-bit and double-byte tag changes, all truncations",
  "One 16-byte vector; padding and carry paths depend on lengths and limb corners.",
  ["src/cipher/chacha20_poly1305.rs","src/crypto/chacha20.rs","src/crypto/poly1305.rs"],
  [("mac input layout","src/cipher/chacha20_poly1305.rs compute_mac"),("carry chains","src/crypto/poly1305.rs")],
  ["cipher::Aead encryptor/decryptor","crypto::poly1305::authenticate","crypto::chacha20::ChaCha20"])
p("C19", "SHA-256 and HMAC-SHA-256 are correct for every length",
  "For every message the hash equals SHA-256, and for every key and message the MAC equals HMAC-SHA-256, at every length relative to the block size and for multi-megabyte messages.",
  ["inputs"], "every message length 0..20000 and boundary lengths to 2^21+ (2^29+ thorough), every HMAC key length 0..200 x message lengths 0..200",
  "Three hash vectors and four HMAC vectors sample the padding logic.",
  ["src/crypto/sha2.rs","src/cipher/prf.rs"], [("padding","src/crypto/sha2.rs sha256"),("hmac","src/cipher/prf.rs hmac_sha256")],
  ["crypto::sha2::sha256","cipher::prf::hmac_sha256"])
p("C20", "P-256 field arithmetic is exact on the whole corner lattice",
  "For all reduced operands, addition, subtraction, doubling, multiplication, squaring, inversion, halving, comparison, selection, reduction and byte conversion agree with integer arithmetic modulo the P-256 prime, and results are always fully reduced.",
  ["inputs"], "all pairs from a lattice of limb-corner values (thousands of operands, tens of millions of pairs), all results near 0 and p, one-hot and near-prime operands",
  "Algebraic identities are tested on 8 values; reduction errors appear for rare limb patterns.",
  ["src/crypto/p256.rs","src/crypto/wrapping.rs"], [("reduction","src/crypto/p256.rs int256 mult/reduce_once")],
  ["crypto::p256::int256::Int256"])
p("C21", "P-256 point multiplication and key agreement are exact for every scalar",
  "For every 256-bit scalar k and curve point P the computed multiple is k*P (infinity normalising to the all-zero pair), every bit of the scalar counts, and both sides of an ECDH exchange obtain the same 32-byte secret including leading zeros.",
  ["inputs"], "all one-hot and two-hot scalars, all-ones runs, scalars around 0, n/2, n, p and 2^256, on several base points incl. equal/opposite intermediate points",
  "No test performs a scalar multiplication.",
  ["src/crypto/p256.rs","src/cipher/ecdhe.rs"], [("double-and-add","src/crypto/p256.rs mult_scalar/add/double"),("shared secret","src/cipher/ecdhe.rs compute_keys")],
  ["crypto::p256::Point256","TlsClient::new"])
p("C22", "Client randomness is fresh, full-entropy and always a valid key pair",
  "Each connection draws a new client random and a new ephemeral key from the system generator; every bit of the 256-bit client random and of the private scalar depends on generator output. Whatever the generator returns - zero, the group order, the field prime, all ones - the key share sent is a valid non-trivial curve point.",
  ["inputs","histories"], "every single-bit change of the first 512 generator bits, generator outputs around 0, n, p and 2^256 in repeated draws, consecutive connections",
  "Tests never observe the generator.",
  ["src/client.rs","src/cipher/ecdhe.rs"], [("scalar sampling","src/cipher/ecdhe.rs get_random_x"),("client random","src/client.rs handshake")],
  ["ClientHello and ClientKeyExchange on the wire"])
p("C23", "Nothing the peer needs stays in a buffered transport",
  "Over a buffering transport, whenever the client waits for the peer during the handshake everything it has written has been flushed; flush() on the connection flushes the transport, and alerts sent on failure and on close() are flushed.",
  ["configurations","histories"], "handshake against a peer that only sees flushed bytes, every failure stage, all op sequences of {write, flush, close} to depth 4",
  "Tests write into vectors, where flushing is meaningless.",
  ["src/client.rs","src/tls.rs"], [("flush","src/client.rs Write impl")],
  ["io::Write::flush of TlsClient","TlsClient::new"])
p("C24", "A transport failure at any byte is reported and never turned into data",
  "If the transport ends or fails at any byte of either direction, the handshake returns an I/O error; after the handshake, reads deliver exactly the bytes of the records that had arrived completely and then report the end, and writes report an error unless every byte was accepted by the transport.",
  ["crash_points","fault_sequences"], "end-of-stream and each error kind at every byte offset of the incoming and outgoing streams",
  "No fault injection exists in the tests.",
  ["src/util.rs","src/tls.rs","src/client.rs"], [("error propagation","src/util.rs fill_exact, src/tls.rs, src/client.rs")],
  ["TlsClient::new","io::Read/io::Write of TlsClient"])
p("C25", "Connections are independent of each other",
  "Two connections in one process behave exactly as each would alone, however their operations interleave: same bytes sent, same data delivered, same results.",
  ["schedules","histories"], "a complete second connection (or its failure) inserted at every transport event of the first; all interleavings of 3+3 post-handshake operations of two connections",
  "Every test uses a single object.",
  ["src/client.rs","src/tls.rs","src/cipher/prf.rs","src/cipher/chacha20_poly1305.rs","src/crypto/p256.rs"],
  [("per-connection state","src/client.rs TlsClient, src/tls.rs TlsReader/TlsWriter")],
  ["TlsClient::new","io::Read/io::Write of TlsClient"])
p("C26", "Secrets influence neither control flow nor memory addresses",
  "What the code marks as secret - the private scalar and shared secret, master secret and keys, the contents of plaintext, the verify data, and where a forged tag or a wrong Finished differs from the right one - decides neither which instructions are executed nor which memory addresses are touched. Executions that differ in secrets only (same lengths, same public values) take exactly the same path, and refusing a forged record does the same work as accepting an authentic one.",
  ["inputs"], "all members of secret families: scalars with every bit length and pattern, field operands at the corners, keys and data with every one-bit content, every position of a wrong byte in tags and verify data; alone and inside whole connections",
  "Every functional test passes just as well when a loop stops at the first difference; the property relates two executions, a test looks at one.",
  ["src/util.rs","src/crypto/p256.rs","src/crypto/poly1305.rs","src/crypto/chacha20.rs","src/cipher/chacha20_poly1305.rs","src/cipher/ecdhe.rs","src/cipher/prf.rs","src/client.rs"],
  [("masked selection","src/crypto/p256.rs choose/compare/mult_scalar"),("constant-time compare","src/util.rs crypto_compare"),("decrypt before the verdict","src/cipher/chacha20_poly1305.rs decrypt")],
  ["basic blocks executed","addresses loaded from and stored to","TlsClient::new","Point256::mult_scalar","util::crypto_compare","Decryptor::decrypt"])
p("C27", "Memory stays bounded",
  "What a connection holds in memory does not grow with its history: between calls it is bounded by a constant (plus the size of the handshake and data received but not yet read), however many records, HelloRequests, reads, writes and failed operations there have been. While the peer talks, the memory in use is bounded by a constant plus a multiple of the bytes it has really sent: no length field, in a record, a handshake message or a list, makes the client reserve what never arrives. A dropped or failed connection gives everything back.",
  ["inputs","histories"], "all peer inputs with arbitrary length fields in every position and state; all operation histories of a connection of any length; any number of connections, ended in every way",
  "Tests are short: a leak of a few bytes per operation, or a reservation made for an announced length, changes no result; it only shows in the memory held at some point of a long or hostile history.",
  ["src/handshake.rs","src/tls_item.rs","src/tls.rs","src/client.rs","src/util.rs"],
  [("reassembly buffer","src/handshake.rs HandshakeBuffer"),("lists grow with what is read","src/tls_item.rs tls_vec"),("record size limit before allocation","src/tls.rs read_record"),("unread data","src/client.rs Read for TlsClient")],
  ["TlsClient::new","io::Read/io::Write of TlsClient","drop"])
p("C28", "Integers and byte blocks pass a transport exactly",
  "For every value of 8, 16, 32 and 64 bits the writers put exactly the bytes of the byte order in their name, and the readers return the value whose bytes, in that order, come next, consuming exactly that many; the array conversions agree with them. fill_exact and read_exact return exactly the next bytes of the stream. This holds however the transport cuts, shortens or interrupts its calls. A stream that ends or fails before the last byte gives an error and no value, and a writer that stops before the last byte gives an error.",
  ["inputs","schedules","fault_sequences"], "all 8- and 16-bit values, all pairs of bytes of wider ones; every way a transport can cut and interrupt an integer, every end inside it; blocks of every length, piece size, cut and end",
  "Nothing tests these helpers; the tests that use them read from slices, which give everything at once.",
  ["src/util.rs","src/macros.rs"], [("byte order","src/util.rs ReadExt/WriteExt"),("completion over short and interrupted calls","src/util.rs fill_exact")],
  ["util::ReadExt","util::WriteExt","util::u32_be_array and its kin"])
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
