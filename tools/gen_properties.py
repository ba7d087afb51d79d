#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the file stays well formed).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
MIN="src/minimal.rs"; RD="src/reader.rs"; CP="src/complete.rs"; ST="src/status.rs"; WR="src/complete/writer.rs"
p("C01","Delivered user data is authentic and unaltered",
 "An endpoint delivers a user message only if the endpoint at the other end of this very session wrote exactly that message in this session. Whatever an active network attacker alters, truncates, extends, splices, forges, reflects or carries over from another session is never delivered as user data.",
 ["fault_sequences","histories","inputs"],
 "every sequence of datagrams, genuine or not, fed to an endpoint in any state, in every API mode",
 "The tests only read back well-formed messages in order; they contain no tampered, cross-session, reflected or forged user message except one wrong magic value.",
 [MIN,RD,"src/encryption.rs","src/encryption/chacha20_poly1305_aead.rs","src/agreement.rs"],
 [("AEAD decryption before parsing, hash comparison over the encapsulated message","src/reader.rs read(), src/minimal.rs read_inner()"),
  ("refusal of clear-text user messages","src/reader.rs check_encrypt_state")],
 [("encrypt_algo_with_secret","session key material","src/minimal.rs")],["return value of read / read_bin / drain"])
p("C02","No user message is delivered twice",
 "However often and whenever the datagram of a user message is duplicated or replayed (before the negotiation completes, inside the reordering window, or long afterwards), a receiving endpoint delivers that message at most once. Two different user messages carrying the same message number are never both delivered.",
 ["fault_sequences","histories","schedules"],
 "every pattern of duplication, delay and reordering of user datagrams, over sessions of any length",
 "One test replays the newest message once and another swaps four messages; duplicates of early, out-of-order, drained or very old messages are not tried.",
 [MIN],[("next expected number plus set of out-of-order numbers","src/minimal.rs read_inner()"),("early-message stack","src/minimal.rs drain_tmp_stack_user_msgs()")],
 [("next_nonce_expected / orphan_nonce_list","numbers already seen","src/minimal.rs"),("tmp_stack_user_msgs","messages received before the peer's ACK","src/minimal.rs")],
 ["return value of read / read_bin / drain"])
p("C03","Every user message that arrives is delivered, in any order",
 "Every genuine user message whose datagram reaches an endpoint of a live session is delivered, complete and unchanged, the first time it arrives, whatever the order, delay, loss or duplication of the other user datagrams. Messages that overtake the peer's ACK are kept and handed over, once each and in order of arrival, when the negotiation completes.",
 ["schedules","fault_sequences","histories"],
 "every interleaving, delay, loss and duplication of user datagrams among themselves and with the last handshake messages",
 "The tests deliver at most four user messages, with one early message and one swap; no loss, no duplicate before a later delivery, no long or bidirectional session.",
 [MIN,CP],[("early-message stack and its drain","src/minimal.rs, src/complete.rs read_bin()"),("out-of-order acceptance","src/minimal.rs read_inner()")],
 [("tmp_stack_user_msgs","early messages","src/minimal.rs")],["return value of read / read_bin / drain"])
p("C04","Negotiation completes under every message order",
 "If both endpoints send one CONNECT and one ACK, with matching key expectations, and each of these datagrams arrives once in any order and after any delay, then both endpoints end up established with the same session and can exchange user messages in both directions. On the way each endpoint reports the peer's CONNECT and ACK exactly once, with the right peer key and the custom data that was sent.",
 ["schedules","configurations"],
 "every interleaving of local send calls and arrivals, every combination of known and unknown peer keys, every API mode",
 "Three fixed orders are tested, always with a client that knows the server's key.",
 [ST,MIN,CP,"src/agreement.rs"],[("two negotiation threads","src/status.rs apply_action()"),("ACK received too early","src/minimal.rs take_ack_msg_recv_too_early(), src/complete.rs read_bin()")],
 [("status","progress of the two negotiation threads","src/status.rs"),("ack_msg_recv_too_early","ACK set aside until the peer's key is known","src/minimal.rs")],
 ["return values of the handshake calls and of read; success of try_clone and of user writes afterwards"])
p("C05","Only the owner of the peer key completes the negotiation",
 "An endpoint becomes established only after the owner of the expected peer key (or, when none was expected, of the key it reports) has signed, for this endpoint's own fresh ephemeral key, the negotiation messages it received from another endpoint. Impostors, altered or spliced handshakes, handshakes replayed from other sessions and reflections of its own messages never get an endpoint established, and nobody is reported as the peer whose key did not sign the reported message.",
 ["fault_sequences","histories","inputs"],
 "every sequence of handshake datagrams an active attacker with its own keys can build from everything seen on the network",
 "One test has an impostor with the wrong key, one a wrong challenge and one a broken signature; replay, splicing, signature reuse, reflection and low-order keys are not tried.",
 [MIN,RD,"src/signature.rs","src/agreement.rs"],[("expected key comparison, signature and challenge verification","src/minimal.rs read_inner()"),("rejection of degenerate agreement keys","src/agreement.rs compute_shared_secret()")],
 [("peer_sig_pubkey","identity of the peer","src/minimal.rs")],["return value of read; success of try_clone / user writes"])
p("C06","A handshake message that fails authentication has no effect",
 "A well-formed CONNECT or ACK that an endpoint refuses because of its signer, its signature or its challenge leaves that endpoint unchanged: it does not fix who the peer is, does not consume the place of the genuine message and does not hide another accepted message, so that the genuine handshake still completes afterwards. This also holds for an ACK that was set aside until the peer's key was known and then turns out to be forged (one such ACK can be set aside at a time; a second one before the peer's key is known ends the connection).",
 ["fault_sequences","schedules","histories"],
 "every position at which forged handshake messages can be injected into a genuine negotiation",
 "No test continues a negotiation after a refused handshake message.",
 [MIN,CP],[("verification before any state change","src/minimal.rs read_inner()"),("handling of the ACK set aside","src/complete.rs read_bin()")],
 [("peer_sig_pubkey, status","must not change on a refused message","src/minimal.rs")],["later genuine handshake"])
p("C07","No input or call order panics or exhausts memory",
 "Whatever bytes an endpoint is given to read, in any state, from the network or from an authenticated but malicious peer, and whatever order its operations are called in, every call returns normally: it does not panic, hang or abort. Memory used while handling a datagram stays within a fixed multiple of the datagram's size, whatever lengths the datagram claims.",
 ["inputs","histories","fault_sequences"],
 "all byte strings of every length, in every endpoint state and API mode, and all call sequences",
 "Tests feed a dozen hand-made malformed messages, none truncated inside the header, none with a lying length, none from a malicious authenticated peer.",
 [RD,"src/message.rs",MIN,"src/encryption/chacha20_poly1305_aead.rs","src/complete/serde/deserializer.rs","src/complete/serde/serializer.rs"],
 [("length checks while parsing","src/reader.rs"),("error returns instead of panics","src/complete/serde/*.rs, src/minimal.rs encrypt_and_write()")],
 [],["return of every API call; peak allocation during it"])
p("C08","A failed connection stays failed",
 "A datagram that cannot be decoded or decrypted, a clear-text user message, a repeated or untimely handshake message, a user message before its time, a key agreement that fails, an overflow of the reordering window, a user write before the negotiation completes and a failed user write each make the connection fail. From then on that endpoint never delivers a message, emits a byte, becomes established or can be cloned, whatever is called or received.",
 ["histories","fault_sequences"],
 "every cause of failure in every state, followed by every continuation with genuine traffic",
 "One test looks at the status field after one cause; nothing is tried after a failure.",
 [ST,MIN],[("absorbing failure status","src/status.rs apply_action(), src/minimal.rs")],[("status","Fail is absorbing","src/status.rs")],["every API call after the failure"])
p("C09","Messages are sent and accepted only when the protocol allows",
 "An endpoint emits at most one CONNECT and at most one ACK, an ACK only after it accepted the peer's CONNECT, and user data or clones only after its own negotiation completed; every other attempt is refused and emits nothing. It never delivers user data before it has received and verified the peer's ACK, and a refused out-of-turn CONNECT, ACK or clone attempt does not disturb the negotiation.",
 ["histories","schedules"],
 "every sequence of API calls interleaved with every arrival order",
 "Tests make four single out-of-order calls on a fresh endpoint.",
 [ST,MIN,WR],[("status automaton","src/status.rs apply_action()")],[("status","progress of the negotiation","src/status.rs")],["result and emitted bytes of every write call, of try_clone and of read"])
p("C10","Writes are complete or reported, on any writer",
 "When a write call and the following flush both succeed, exactly one complete message has reached the underlying writer, whatever partial writes and interruptions the writer made on the way and whatever the buffer capacity. When the writer fails, the call or the flush reports it, what reached the writer is at most the beginning of that message, and interruptions or partial writes alone never make a write fail.",
 ["fault_sequences","inputs","configurations"],
 "every sequence of short writes, interruptions, zero-length writes and errors of the underlying writer, every buffer capacity and message size",
 "All tests write into an in-memory vector, which never writes short and never fails.",
 [WR,MIN,"src/encryption/chacha20_poly1305_aead.rs","src/message.rs"],[("buffered writes with error propagation","src/complete/writer.rs, src/minimal.rs encrypt_and_write(), src/encryption/chacha20_poly1305_aead.rs encrypt()")],
 [],["bytes received by the writer; results of write calls and flush"])
p("C11","Payloads survive every configuration",
 "The data an application sends (custom data of CONNECT and ACK, and user messages, binary or serialised in any enabled format, of any size and content) is what the peer's application receives, whatever compression level, compression threshold and message format either side is configured with and whenever these are changed. A format that a call cannot handle is refused with an error that emits nothing and leaves the connection usable.",
 ["inputs","configurations","histories"],
 "all payload contents and sizes, all configurations of either side, changes of configuration in the middle of a session",
 "Tests send a few 3 to 9 byte payloads with the default compression settings, which never compress anything, and one format on both sides.",
 [CP,"src/complete/serde/deserializer.rs","src/complete/serde/serializer.rs","src/format.rs","src/config.rs"],[("self-describing format header, deflate","src/complete/serde/*, src/complete.rs")],
 [("config","compression and format settings","src/config.rs")],["messages returned by read / read_bin"])
p("C12","Observers of the network learn no user data",
 "Someone who sees every datagram of any number of sessions but owns no private key of them cannot recover the content of any user message: user data never appears in clear, and no session key can be computed from public values. Every session uses fresh, unrelated ephemeral keys and encryption keys, even between the same identities, and no two user messages are encrypted with the same key stream.",
 ["histories","schedules","configurations"],
 "all sessions between all pairs of identities, all messages in them",
 "No test looks at the bytes on the network or compares two sessions.",
 ["src/agreement.rs","src/encryption.rs","src/encryption/chacha20_poly1305_aead.rs",MIN],[("ephemeral key pair per layer, key derivation from the Diffie-Hellman secret","src/agreement.rs"),("encryption of user messages","src/encryption/chacha20_poly1305_aead.rs")],
 [("ephemeral_kp","one-time key pair","src/minimal.rs")],["all emitted datagrams"])
p("C13","Endpoints speak the documented protocol",
 "Every emitted message has the documented layout (magic value, version 1, length, type, type header, custom data, Ed25519 signature or SHA-256 hash; user messages encrypted with ChaCha20-Poly1305 under the documented key derivation), so that an independent implementation of the documentation negotiates and exchanges messages with this one in every order. Messages of another version, signature algorithm or type, encrypted handshake messages and inconsistent lengths are refused.",
 ["schedules","inputs","configurations"],
 "all interleavings of sessions between this implementation and an independent one, all optional fields and sizes",
 "Tests only connect the implementation to itself, so a change made on both sides passes; a few layouts are compared with constants.",
 ["README.md","src/message.rs",RD,"src/agreement.rs","src/constants.rs","src/format.rs"],[("message layout","src/message.rs to_bytes(), src/reader.rs"),("key derivation","src/agreement.rs")],
 [],["emitted bytes; behaviour towards an independent peer"])
p("C14","Clones continue the session independently",
 "A clone of an established endpoint starts from the original's exact position in the session: reading with one handle while writing with the other, in any interleaving, behaves exactly like one handle, including recognition of replays from before the clone. Afterwards the handles do not influence each other, dropping one leaves the others working, and the configuration of every handle is frozen from the first clone on.",
 ["schedules","histories"],
 "every moment of cloning (also repeatedly, and with messages missing or early messages pending) and every interleaving of the handles' operations",
 "The only test clones once, throws the clone away and checks that the configuration is frozen on the original.",
 [MIN,CP],[("copy of the session state","src/minimal.rs try_clone()"),("frozen configuration","src/minimal.rs change_config()")],
 [("cloned","configuration frozen","src/minimal.rs")],["results of operations on every handle"])
p("C15","Reordering window: 10,000 messages, then fail closed",
 "Any reordering in which at most 10,000 messages are waiting for an earlier one is tolerated, again and again over a session of any length and for any 64-bit message numbers, and filling the gaps returns the endpoint to normal. A message that would make more than 10,000 wait is refused with a specific error and ends the connection, so the memory a peer can tie up this way is bounded.",
 ["histories","schedules","fault_sequences"],
 "all arrival orders of long sessions, including those at the exact limit",
 "One test reaches the limit once, from the start of a session, by its own constant; window refill, repeated gaps, long sessions and large numbers are not tried.",
 [MIN,"src/constants.rs"],[("limit on out-of-order numbers","src/minimal.rs read_inner(), src/constants.rs")],
 [("orphan_nonce_list","numbers received ahead of a gap","src/minimal.rs")],["result of read"])
p("C16","Entropy faults never yield weak keys",
 "When the operating system's random source is interrupted or returns short results, creating an endpoint still works and uses fully random keys; when the source fails, creation is refused and a later attempt with a working source succeeds. No two endpoints or generated seeds ever share key material, and every random byte obtained influences the keys.",
 ["fault_sequences","histories"],
 "every sequence of interruptions, short reads and errors of the random source at every creation",
 "One test compares two random seeds; the random source never fails in tests.",
 ["src/agreement.rs","src/seeds.rs",CP,MIN],[("key generation from the system random source, errors propagated","src/agreement.rs generate(), src/seeds.rs random()")],
 [],["created endpoints' public keys; errors of create"],"none: the random source is intercepted at the system-call symbol, outside /repo")
p("C17","Session keys are erased when an endpoint is dropped",
 "When an endpoint, a clone of it, or a seed value is dropped, at whatever point of its life, the memory it occupied no longer contains the session's encryption key material or the seed. Dropping one handle does not erase the key of the others.",
 ["crash_points","histories"],
 "every moment in the life of an endpoint or clone at which it can be dropped",
 "No test inspects memory after a drop.",
 ["src/seeds.rs","src/encryption/chacha20_poly1305_aead.rs"],[("zeroize on drop","src/seeds.rs, src/encryption/chacha20_poly1305_aead.rs")],
 [],["memory of the dropped value at the moment it is released to the allocator"],"none: observed from the allocator of the test process")
p("C18","Sessions are isolated from each other",
 "What an endpoint returns and emits depends only on its own configuration, its own random bytes and the calls made on its own handles. Running any number of other sessions in the same process, interleaved in any way, including failing, dropped and attacked ones, changes nothing.",
 ["schedules","histories"],
 "every interleaving of several sessions' operations in one process",
 "Each test runs one session.",
 ["src/lib.rs",MIN,CP,"src/encryption.rs"],[("all state is held in the endpoint value","src/minimal.rs struct MinimalSecureLayer")],
 [],["transcript of each session alone and interleaved"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
