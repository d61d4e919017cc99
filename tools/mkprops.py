#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None,
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

XX = "vru-session/src/handshake/xx.rs"; KEY = "vru-session/src/handshake/key.rs"; NZ = "vru-session/src/handshake/noise.rs"
SS = "vru-noise/src/symmetric_state.rs"; CS = "vru-noise/src/cipher_state.rs"; HS = "vru-noise/src/hash.rs"
UG = "vru-udp/src/global.rs"; UL = "vru-udp/src/local.rs"; UD = "vru-udp/src/linkage/datagram.rs"; UC = "vru-udp/src/command.rs"
TC = "vru-tcp/src/lib.rs"
NM = "vru-node/src/main.rs"; NL = "vru-node/src/listener_unix.rs"; ND = "vru-node/src/database.rs"; NC = "vru-node/src/bin/client.rs"
T1 = "One handshake with fixed keys, fixed 16-byte payloads and in-order delivery is the only session test."
T0 = "There is no test of this component at all."

p("C01", "Honest handshakes complete and both ends agree",
  "When the four handshake messages between an initiator and the responder it dialled are delivered unaltered, both sides complete without error, each learns the other's true static public key and the exact payloads the other sent, and both end with the same session hash and with ciphers that open each other's traffic. This is so whatever other sessions of the same parties are in progress, however their messages are delayed, lost or interleaved. Every message and the session hash are those the documented pattern (e / ec p e ee s es / ec q sc s se r / sc s over Sha3-256 and ChaCha20-Poly1305) prescribes for the given keys and randomness.",
  ["inputs", "schedules", "histories"], "all static and ephemeral keys and seeds, payload sizes (zero to beyond a hash block), numbers of parties and concurrent sessions, and interleavings of their messages",
  T1 + " It never runs two sessions at once, another payload size or other key material.",
  [XX, NZ, KEY, SS, HS, "vru-kyber/src/kem.rs"], [("four-message pattern", XX), ("transcript hashing", SS), ("hybrid key agreement", KEY)],
  ["return values of the five handshake calls", "bytes of the four messages"])
p("C02", "A completed handshake is a matching, untampered conversation",
  "Against an adversary who may drop, duplicate, delay, reorder, alter, replay and splice messages of any sessions and who has its own keys, a side completes only if its peer - the holder of the static key it reports - sent exactly the messages it received and received exactly the messages it sent, in that one session. Any altered, substituted or cross-session message in place of the second, third or fourth is answered with an error, and no two sides end with the same session hash unless their whole conversations are equal.",
  ["inputs", "schedules", "fault_sequences", "histories"], "all message mutations and splices, all delivery orders, duplicates and replays across concurrent sessions",
  T1 + " No message is ever altered, replayed or crossed between sessions.",
  [XX, NZ, SS, CS], [("every handshake field is mixed in the transcript or authenticated", XX), ("MAC checks on payloads and static keys", NZ)],
  ["which sides complete, with which peer key, payloads and session hash"])
p("C03", "An initiator only completes with the identity it dialled",
  "An initiator that dialled an identity completes only with the holder of a static key of that identity. A responder or man in the middle with any other static key, even one that follows the protocol and knows the dialled identity, is refused with an error, and a responder with a given identity refuses an initiator that dialled another one.",
  ["inputs", "histories", "fault_sequences"], "all dialled identities, all impostor keys and relay strategies, interleaved with honest sessions",
  T1 + " The responder in the test is always the dialled one.",
  [XX, KEY], [("dialled identity mixed in the transcript", XX), ("identity of the received static key", KEY)], ["result of the initiator's second step"])
p("C04", "Hostile handshake and record bytes are contained",
  "Whatever bytes of the right length arrive in place of a handshake message, a side answers with an error value and never crashes, and the other sessions of the process are unaffected. Sealed records of any length, including shorter than a tag, are answered with an error value.",
  ["inputs", "fault_sequences"], "all byte strings substituted for each handshake message and sealed record, including non-points, protocol-conforming peers that encrypt an invalid key, zero, all-ones and bit-flipped messages",
  T1 + " No malformed input is ever presented.",
  [XX, KEY, CS, "vru-kyber/src/indcpa.rs"], [("decoding of received public keys", KEY), ("MAC checks", CS)], ["return values; absence of panics"])
p("C05", "The secure channel delivers in order, once, unaltered, or not at all",
  "After a handshake, each record sealed by one side opens on the other side to the same plaintext and associated data only when presented in sending order, exactly once, and unaltered. A lost, reordered, duplicated, replayed, reflected, cross-direction, cross-session, truncated or altered record is refused without effect: the records that follow, presented in order, still open, in both directions independently.",
  ["inputs", "schedules", "fault_sequences", "histories"], "all sequences of sends and deliveries in both directions with loss, duplication, reordering, corruption, reflection and retransmission; all record sizes and associated data; both record interfaces (detached tag and appended tag)",
  "The one test seals and opens 16 records of 32 bytes strictly alternately with no fault.",
  [CS, XX], [("per-direction counter advanced only by success", CS), ("direction swap at the responder", XX)],
  ["result of each open", "plaintext", "subsequent opens"], [("nonce", "number of records so far in that direction", CS)])
p("C06", "Key rotation stays in lockstep",
  "With a rotation policy of interval n, both ends of a direction rotate exactly after every n-th successfully sealed or opened record and after no other event, each starting from the same chaining key and the direction's own key, so that traffic continues to open across rotations. Refused records never cause or delay a rotation.",
  ["inputs", "schedules", "fault_sequences", "histories"], "all intervals, all traffic patterns over both directions, all placements of lost, duplicated and corrupted records around the rotation boundaries",
  "The only policy under test never rotates.",
  [CS, SS], [("rotation at multiples of the interval", CS)], ["calls received by the rotation policy", "records opening after rotation"], [("nonce", "record counter that decides rotation", CS)])
p("C07", "The Noise state machine interoperates with independent Noise peers",
  "A party that drives the handshake primitives and an independent implementation of the Noise specification, running the same pattern over an unreliable exchange, produce bit-identical messages, handshake hash and transport traffic: name hashing, transcript mixing, key derivation (including pre-shared keys), nonces and byte order. A side that gets an altered message fails, and only then.",
  ["inputs", "histories", "fault_sequences", "configurations"], "all patterns composed of the primitives, cipher suites (Sha-512/AES-GCM, Sha3/ChaCha and others), protocol names, prologues, pre-shared keys, payload sizes including around the hash block size, and placements of a corrupted message",
  "One fixed Noise_XK vector of one cipher suite is checked; pre-shared keys, other suites, long names, other payload sizes and the decrypting side are never run.",
  [SS, HS, CS, "vru-noise/src/config.rs"], [("symmetric state", SS), ("block-buffered transcript hashing", HS), ("transport ciphers", CS)], ["messages, hashes and transport records on both sides"])

p("C08", "Every UDP datagram has exactly one reported outcome",
  "Every datagram the node takes from its socket and every receive error it meets leads to exactly one outcome: an error naming the sender if its size is not the frame size (including larger than a frame), handling for the outgoing connection pending to that address, or a report of an incoming contact that names the sender. Outcomes appear in the event stream once, none is invented, and those of datagrams not matching a pending connection appear in arrival order.",
  ["schedules", "inputs", "fault_sequences", "histories"], "all arrival patterns, sizes and senders, interleaved with commands from the application thread and socket errors, under all thread schedules", T0,
  [UG, UD, UC, UL], [("receive loop", UG), ("event channel", UC)], ["datagrams taken from the socket", "event stream of the node reference"])
p("C09", "An accepted UDP connect request starts exactly one handshake",
  "Each accepted connect request yields exactly one handshake message, of frame size, sent to the requested address when a full-size datagram comes from that address, followed by exactly one worker report for that address (or, when the system refuses the worker its thread, by exactly one connection-failed event for it); nothing is ever sent to any other address or unprompted. A connect request for an address that is still pending is refused with exactly one connection-failed event and changes nothing; after the pending request was used the address can be requested again. Each handshake message is fresh.",
  ["schedules", "inputs", "fault_sequences", "histories"], "all interleavings of connect requests with arrivals, duplicates, repeated requests, send failures", T0,
  [UG, UL, UC], [("table of pending outgoing connections, shared by the caller and the node thread", UG)], ["datagrams sent", "event stream"],
  [("pending_outgoing", "address to identity of requested connections", UG)])
p("C10", "The UDP node survives hostile traffic, faults and any use of its API",
  "No sequence of datagrams, socket errors, interrupted or spurious wake-ups, connect and local commands (including to peers that are unknown, known, or whose worker has finished), and no refusal of the system to start another thread, makes the node or its caller crash, stop, or lose the ability to report later datagrams. After the last fault the next datagram is reported within a bounded time.",
  ["schedules", "inputs", "fault_sequences", "histories"], "all command sequences interleaved with all arrival and fault sequences", T0,
  [UG, UL], [("receive loop and its error handling", UG), ("worker loop", UL)], ["panics", "event stream after the last fault"])
p("C11", "UDP shutdown is complete and bounded",
  "Once the running flag is cleared, joining the node returns within a bounded time, whatever connections, traffic, errors and commands preceded it or arrive meanwhile; all threads the node started have then ended. The event stream then delivers every event reported before and after that reports disconnection, never earlier.",
  ["schedules", "fault_sequences", "histories"], "all instants of clearing the flag relative to traffic, commands, faults and worker activity", T0,
  [UG, UL, UC], [("running flag polled by the receive loop", UG), ("worker join", UL)], ["return of join", "ends of threads", "event stream end"])
p("C12", "The TCP node accounts for every incoming connection and survives",
  "Every connection that reaches the listening address is accepted or reported within a bounded time, also when several arrive at once, when accepting fails, or when waiting is interrupted; each accepted connection is reported in the event stream naming its peer, and each accept error is reported as an error event. No arrival pattern, reset or fault stops or crashes the node.",
  ["schedules", "inputs", "fault_sequences", "histories"], "all arrival patterns including bursts between two wake-ups, resets before accept, accept and poll failures, under all schedules", T0,
  [TC], [("edge-triggered accept loop", TC)], ["accept calls", "event stream"])
p("C13", "A TCP connect request makes exactly one attempt and reports failure",
  "Each connect request makes exactly one connection attempt to exactly the requested address, in request order; an attempt that fails at once is reported as an error event and neither blocks nor crashes the caller. Local commands attempt nothing.",
  ["schedules", "inputs", "fault_sequences", "histories"], "all command sequences, address kinds and connect or socket failures, interleaved with the node thread", T0,
  [TC], [("command handling in the caller", TC)], ["connect calls", "event stream"])
p("C14", "TCP shutdown is complete and bounded",
  "Joining the node returns within a bounded time whether the running flag was cleared or not, whatever arrivals, errors and commands preceded it or arrive meanwhile, and its thread has then ended. If only the flag is cleared, the thread ends within a bounded time as well; the event stream delivers everything reported and then reports disconnection.",
  ["schedules", "fault_sequences", "histories"], "all instants of join and of clearing the flag relative to arrivals and faults", T0,
  [TC], [("waker", TC), ("running flag", TC)], ["return of join", "ends of threads", "event stream end"])

p("C15", "The daemon's identity survives every crash",
  "Once a daemon has announced an identity or begun to serve, every later start on the same data directory announces the same identity, after any kill or power loss at any instant, any number of times. A start never announces two identities, and different fresh directories get different identities.",
  ["crash_points", "histories", "fault_sequences", "schedules"], "all crash instants (process kill: completed writes survive; power loss: unsynced writes are lost, reordered at the end or torn) and all sequences of starts", T0,
  [ND, NM], [("key seed stored before use", ND), ("start-up order", NM)], ["announced identity", "listening sockets", "durable bytes of the data directory"])
p("C16", "Storage failure never yields a daemon with an unsaved identity",
  "If opening, reading, writing or syncing the store fails in any way, the daemon either ends with a diagnostic and without serving or serves with an identity that is durable; it never crashes by signal or hangs. While another process holds the data directory the daemon ends without touching the other's control socket or announcing an identity.",
  ["fault_sequences", "crash_points", "histories"], "all placements of disk errors, full disk, short and interrupted I/O, lock held elsewhere", T0,
  [ND, NM], [("error paths of start-up", NM), ("flush before use", ND)], ["announced identity", "sockets bound", "files unlinked", "exit"])
p("C17", "Control commands are executed exactly once and in order",
  "Each well-formed connect command a client writes to the control socket, however its bytes are fragmented, is executed exactly once, in the order in which clients connected; malformed, truncated or empty input executes nothing and is reported, and never disturbs commands that follow, and a well-formed command of up to 1 MiB is never refused or reported as malformed. When the log cannot be written commands are executed as before. This holds for any number of commands in the life of the daemon.",
  ["inputs", "schedules", "fault_sequences", "histories"], "all command sequences, fragmentations, malformed inputs, client resets, interrupted system calls; thousands of commands per life", T0,
  [NL, NM, TC], [("listener iterator", NL), ("command loop", NM)], ["outgoing connection attempts", "log lines"])
p("C18", "No control client can block or stop the daemon",
  "A control client that stalls, sends garbage, claims absurd lengths, sends nothing or disconnects at any point delays other clients by at most a bounded time, does not stop or crash the daemon, and does not make it consume unbounded memory. Accept failures and interrupted waits do not stop command service.",
  ["inputs", "schedules", "fault_sequences"], "all client behaviours, interleaved with well-behaved clients, failing accept and poll, signals", T0,
  [NL, NM], [("reading a command from an accepted client", NL)], ["later commands are executed", "daemon alive", "memory"])
p("C19", "An interrupt signal stops the daemon cleanly and in bounded time",
  "After an interrupt signal at any instant once the daemon serves, the daemon finishes within a bounded time with success status, whatever clients, connections and commands are in progress and on whatever thread the signal lands; the threads of its network node and event loop have ended in an orderly way, with no crash. Before a signal it does not stop on its own.",
  ["schedules", "fault_sequences", "histories"], "all signal instants and receiving threads, repeated signals, in all client and connection states", T0,
  [NM, NL, TC], [("signal handler sets the running flag", NM), ("flag polled by the loops", NL)], ["exit status and time", "panics"])
p("C20", "After any crash the daemon returns to service",
  "After any kill or power loss, at any instant of start-up, service or shutdown and any number of times, the next start on the same data directory, with faults over, serves within a bounded time: it announces its identity, accepts connections on its port and executes control commands, also when a stale control socket was left behind.",
  ["crash_points", "histories", "schedules"], "all crash instants and sequences of crashes", T0,
  [NM, ND, NL], [("removal of a stale control socket", NL), ("store recovery", ND)], ["listening sockets", "executed probe command"])
p("C21", "The control client transmits exactly its command or fails",
  "The client writes to the control socket exactly the encoding of the command given by its arguments, once, also when the system splits or interrupts its writes; the daemon decodes the same command. If the daemon is absent or the connection breaks the client reports failure with a non-zero status and never success.",
  ["inputs", "fault_sequences"], "all commands, short writes, interruptions, connection refusal and resets at any byte", T0,
  [NC, "vru-session/src/node.rs"], [("serialization to the socket", NC)], ["bytes on the socket", "exit status"])

p("C22", "Kyber key exchange agrees, or fails into an unrelated secret",
  "Parties exchange Kyber public keys and ciphertexts (widths 2, 3, 4) over an unreliable, altering network and may restart with only their encoded keys. Whoever decapsulates, unaltered, a ciphertext made for its public key obtains the encapsulated secret, whether the sender used the key object at hand or one decoded from its encoding, and whether the receiver has restarted since. Keys, ciphertexts and secrets are the ones Kyber (round 1 of the NIST competition, whose test vectors the repository holds) specifies for the given seeds. A ciphertext altered anywhere, made for another or an altered key, or spliced from two, decapsulates without error or crash to a secret which differs from the encapsulated one and from that of every other ciphertext.",
  ["inputs", "fault_sequences", "histories"], "all key and encapsulation seeds, all alterations and splices of keys and ciphertexts in transit, all deliveries (delayed, duplicated, reordered) and restarts",
  "Three known-answer vectors, in which the key is always decoded first and no ciphertext is ever altered.", ["vru-kyber/src/kem.rs", "vru-kyber/src/indcpa.rs", "vru-kyber/src/poly.rs", "vru-kyber/src/poly_inner.rs", "vru-kyber/src/coefficient.rs"],
  [("re-encryption check and rejection secret", "vru-kyber/src/kem.rs"), ("public-key encryption", "vru-kyber/src/indcpa.rs")], ["shared secrets of both ends", "bytes of keys and ciphertexts"])
p("C23", "Schnorr signatures verify exactly when genuine",
  "Parties with honestly generated keys sign messages of any length (Schnorr over curve25519 in Edwards form, as in rac) and send message and signature to each other over an unreliable, altering network; a signer may restart with only its encoded secret key. A signature made with a key verifies, where it was made and wherever its encoding arrives unaltered, under that public key and that message. It verifies under no other message, no other party's key, and not when any part of it was altered, including by adding the group order to its number.",
  ["inputs", "fault_sequences", "histories"], "all keys, nonces and messages of all lengths; all alterations, swaps and truncations of message and signature; all restarts",
  "One signature of one four-byte message is verified, without ever encoding it and without a wrong key or message.", ["rac/src/schnorr.rs", "rac/src/curve25519_dalek_m.rs", "rac/src/elliptic.rs"],
  [("challenge hash", "rac/src/schnorr.rs"), ("arithmetic and encoding of scalars", "rac/src/curve25519_dalek_m.rs")], ["verify result where it was made and where it arrived"])
p("C24", "Keys, identities and wire structures survive transport and storage",
  "Every static public key (serialized or packed), identity (serialized or as text), Kyber key and ciphertext, curve25519 or secp256k1 key, point, scalar and signature, concatenated or wrapped structure and control command that a party encodes, and sends or stores over a restart, decodes to an equal value wherever its bytes arrive unaltered. Bytes cut short, by a torn write or in transit, are refused with an error, as are surplus bytes where the form has a fixed length (identity text, packed forms); no bytes crash the decoder.",
  ["inputs", "fault_sequences", "crash_points", "histories"], "all values of the named kinds, extremes included; all truncations, extensions, torn tails and alterations of their encodings; all restarts",
  "No encoding is tested by itself, and none is ever damaged.", [KEY, "vru-session/src/node.rs", "vru-udp/src/command.rs", "rac/src/line.rs", "rac/src/concat.rs", "rac/src/curve25519_dalek_m.rs", "rac/src/secp256k1_m.rs", "rac/src/schnorr.rs", "vru-kyber/src/indcpa.rs", "vru-kyber/src/poly_inner.rs"],
  [("line encodings", "rac/src/line.rs"), ("concatenation", "rac/src/concat.rs"), ("identity text and key serialization", KEY)], ["decoded values, errors, absence of panics"])
p("C25", "The daemon's log accounts for what its network node did",
  "Each connection the daemon's port accepts is named in its log by the address of the peer, exactly once, and each failed accept and each connection attempt that fails at once is in the log with its error, within a bounded time and at the latest when the daemon has ended after an interrupt. Errors, bursts and malformed control input before do not keep later events out of the log.",
  ["schedules", "fault_sequences", "histories"], "all sequences of connections, failing accepts and connects and control clients, stopped at any instant", T0,
  [NM, TC], [("event stream thread", NM), ("events of the node", TC)], ["log lines"])
p("C26", "A daemon which cannot serve says so and ends",
  "When the system refuses the daemon its port, its control socket or anything else its network node needs at start-up, it does not crash and does not go on with half of its service: it either accepts connections on its port and executes control commands, or it says what failed and ends within a bounded time with a failure status. The next start with these resources available serves, with the same identity.",
  ["fault_sequences", "schedules", "histories"], "all placements of refused system calls at start-up, any number of failed starts in a row, directories too deep for a socket", T0,
  [NM, TC, NL], [("error paths of start-up", NM), ("listener registration", TC), ("binding of the control socket", NL)], ["listening sockets", "executed commands", "exit status", "log lines"])
p("C27", "Curve keys combine the same way for every party",
  "Parties with key pairs over a curve rac supports (curve25519 in Edwards or Montgomery form, secp256k1) send each other points, plainly encoded or compressed, over an unreliable, altering network and may restart with only their encoded secret key. A point which each of several parties multiplies with its secret key ends up the same in whichever order they do so. The public keys of several parties combine, in any order and grouping, to the public key of the sum of their secret keys; the product of two secret keys acts like the one applied after the other; numbers into which a secret key was split by subtraction add up to it again. The results are those of the curve itself. Both encodings of a point decode to it, and its coordinate is the one its encoding shows. Altered bytes are another point or refused; none make an operation crash. (Operations rac declares but leaves unimplemented are not covered.)",
  ["inputs", "fault_sequences", "histories"], "all secret keys, extremes included; all orders, groupings and numbers of parties; all alterations, deliveries and restarts",
  "No test of rac performs any of these operations, except as a part of one signature.", ["rac/src/elliptic.rs", "rac/src/curve25519_dalek_m.rs", "rac/src/secp256k1_m.rs", "rac/src/line.rs"],
  [("arithmetic of points and numbers", "rac/src/secp256k1_m.rs"), ("the same for curve25519", "rac/src/curve25519_dalek_m.rs")], ["encodings of the resulting points", "errors, absence of panics"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
