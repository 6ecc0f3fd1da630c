#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

MSG = ["nora_ssh_core/src/message/mod.rs", "nora_ssh_core/src/message/userauth.rs", "nora_ssh_core/src/message/service.rs",
       "nora_ssh_core/src/message/channel/mod.rs", "nora_ssh_core/src/message/channel/session.rs",
       "nora_ssh_core/src/message/key_exchange/mod.rs", "nora_ssh_core/src/message/key_exchange/ecdh.rs", "nora_ssh_core/src/data.rs"]
SRV = ["nora_ssh/src/server.rs", "nora_ssh/src/host.rs", "nora_ssh/src/sync.rs", "nora_ssh/src/arena.rs"]

p("C01", "Every message survives the wire unchanged",
  "For every SSH message and session request the library can represent, serialising it produces exactly the bytes the SSH RFCs prescribe for it, and parsing those bytes yields a message of the same kind with every field equal. This includes empty and large fields, every flag value, every reason code and signal, and key-exchange replies (whose signature integers are encoded as canonical positive mpints).",
  ["inputs"], "all message kinds x all field values (lengths, byte values, flags, integers up to 2^32-1)",
  "The 25 round-trip tests use one fixed value per kind, compare bytes with bytes produced by the same code (a symmetric error cancels out), and no test covers transport, key-exchange or service messages.",
  MSG, [("typed serialise/parse pairs", "nora_ssh_core/src/message/**"), ("string/mpint/uint32 helpers", "nora_ssh_core/src/data.rs")],
  ["Message::serialize / Message::parse / SessionRequest::serialize / SessionRequest::parse return values"])
p("C02", "The parser accepts exactly the well-formed messages",
  "For any byte string, parsing it as a message or as a session request terminates without panicking and succeeds if and only if the bytes are one complete well-formed message of a supported kind: truncated fields, trailing bytes, non-ASCII or empty-name name lists and invalid UTF-8/ASCII text are rejected. On success every field is exactly the corresponding bytes, and a name list iterates over exactly its comma-separated names in order.",
  ["inputs"], "all byte strings (hostile, truncated, extended, mutated), every message number 0..255",
  "Tests parse only what the library itself just serialised; no rejection path of any message is exercised, and name lists are tried on five strings.",
  MSG, [("length-checked string/uint32/bool readers and 'rest is empty' checks", "nora_ssh_core/src/data.rs, nora_ssh_core/src/message/**"), ("NameList validation", "nora_ssh_core/src/data.rs")],
  ["Message::parse / SessionRequest::parse / NameList / AsciiStr results against an independent grammar"])
p("C03", "Serialising respects the caller's buffer",
  "For every message, session request and signature-data block and every buffer size, serialisation succeeds if and only if the encoded form fits, yields the same bytes whatever the buffer size or previous buffer contents, reports exactly their length, and leaves every byte after them untouched. It never panics.",
  ["inputs"], "all messages x all buffer lengths from 0 to beyond the encoded size x arbitrary prior buffer contents",
  "Tests always serialise into a zeroed 2048-byte buffer, so short buffers, exact fits and stale contents are never tried.",
  MSG, [("bounds-checked make_* helpers", "nora_ssh_core/src/data.rs"), ("split of the buffer at the encoded length", "nora_ssh_core/src/message/mod.rs"), ("format_sign_data", "nora_ssh_core/src/message/userauth.rs")],
  ["return value and the whole buffer after serialisation"])
p("C04", "Packet framing is well-formed and lossless",
  "For every payload, block size and length-inclusion mode, framing produces a packet whose padded length is a multiple of the block size, has between 4 and 255 padding bytes that all come from the caller's random generator, and reads back the identical payload. For any byte string, reading it as a packet either fails or yields a payload inside that buffer, with misaligned, truncated or over-padded packets refused; it never panics.",
  ["inputs"], "all payload lengths, the four block sizes, both padding modes, arbitrary received buffers and lengths",
  "No test touches packet framing at all.",
  ["nora_ssh_core/src/packet.rs", "nora_ssh/src/packet.rs"], [("Packet::wrap padding computation", "nora_ssh_core/src/packet.rs"), ("Packet::wrap_raw validation", "nora_ssh_core/src/packet.rs")],
  ["raw packet bytes, payload accessors, bytes drawn from the recording RNG"])
p("C05", "Packet encryption is interoperable chacha20-poly1305@openssh.com",
  "For any keys, direction, starting sequence number and packet sequence, the n-th encrypted packet is byte-for-byte what OpenSSH's chacha20-poly1305 specification prescribes for that key and sequence number, and a receiver with the same key and sequence number recovers the length and the exact plaintext of every packet. The two directions use different keys and no two packets of a direction ever share a nonce.",
  ["inputs", "histories"], "all keys, start counters (including >2^32), packet lengths and packet sequences",
  "No test touches the cipher; agreement with the published construction over sequences of packets is not sampled at all.",
  ["nora_ssh_core/src/cipher/chacha20poly1305.rs", "nora_ssh_core/src/cipher/mod.rs"], [("length key / data key split, per-packet counter nonce, block 1 payload keystream", "nora_ssh_core/src/cipher/chacha20poly1305.rs")],
  ["ciphertext bytes and decrypted bytes against an independent implementation"], [("counter", "sequence number used as nonce", "ChaCha20Poly1305")])
p("C06", "Tampered, replayed or reordered packets are never accepted",
  "A received packet that differs in any bit from the next packet the peer sent (altered length, body or tag, replayed, reordered, dropped predecessor, wrong key) is rejected before any of its body is decrypted or acted upon, and rejecting it does not advance the sequence number. On a live connection the server ends that connection and performs no action requested by the forged packet or anything after it.",
  ["inputs", "histories", "fault_sequences"], "all bit flips, truncations, extensions, replays and reorderings at every position of every packet history",
  "No test touches authentication of packets.",
  ["nora_ssh_core/src/cipher/chacha20poly1305.rs", "nora_ssh/src/host.rs", "nora_ssh/src/server.rs"], [("verify-before-decrypt", "nora_ssh_core/src/cipher/chacha20poly1305.rs"), ("connection ends on a receive error", "nora_ssh/src/host.rs, nora_ssh/src/server.rs")],
  ["decrypt result and buffer contents; handler calls and replies of a live server after a forged packet"])
p("C07", "Session keys are derived as RFC 4253 section 7.2 prescribes",
  "For every shared secret and exchange hash (including secrets with leading zero bytes or the top bit set) and any requested output length, the initial IV, encryption key and integrity key of each direction equal the RFC 4253 derivation with the secret encoded as a positive mpint. Asking for more output never changes the bytes already produced.",
  ["inputs"], "all 32-byte secrets and hashes, six key kinds, output lengths of one or more blocks",
  "No test touches key derivation; the mpint edge cases occur in 1 of 256 (leading zero) or 1 of 2 (sign byte) handshakes.",
  ["nora_ssh_core/src/key_exchange.rs", "nora_ssh_core/src/data.rs"], [("K1, K2.. hash chain", "nora_ssh_core/src/key_exchange.rs"), ("positive mpint encoding", "nora_ssh_core/src/data.rs")],
  ["bytes returned by the key derivation functions"])
p("C08", "The key exchange binds the whole transcript to the host key",
  "In every completed handshake the server's signature verifies, under the host public key it sent (which is the configured key), over the RFC 8731 exchange hash of exactly both identification strings, both key-exchange-init payloads, the host key, both ephemeral keys and the shared secret; the traffic keys of both directions derive from that hash and it is the session identifier used for user authentication. A client that saw or sent anything different computes a different hash.",
  ["inputs", "histories", "configurations"], "all client identifications, algorithm lists, cookies, paddings, ephemeral keys and host keys; hashes whose signature integers have leading zeros or the top bit set",
  "nora_ssh has no tests; interoperating with one client exercises one transcript.",
  ["nora_ssh/src/host.rs", "nora_ssh_core/src/message/key_exchange/ecdh.rs", "nora_ssh_core/src/key_exchange.rs"], [("typed exchange-hash builder", "nora_ssh_core/src/message/key_exchange/ecdh.rs"), ("handle_new_client", "nora_ssh/src/host.rs")],
  ["bytes on the wire seen by an independent client that recomputes hash, signature and keys"])
p("C09", "A handshake completes only with agreed, valid parameters",
  "The server continues past algorithm negotiation only if the client offered the server's key-exchange method, its host-key algorithm, its cipher in both directions and no compression in both directions; it uses the client's ephemeral key only if it is 32 bytes and the shared secret is not all zero. Any other, malformed or out-of-order handshake message ends that connection without the server signing anything for it, switching to encryption, or calling the application. The one tolerated surplus is RFC 4253's optimistic first key-exchange packet: when the client announced one and its guess was wrong, exactly that packet is ignored and the handshake goes on.",
  ["inputs", "histories"], "all algorithm-list combinations, ephemeral keys, and orders/mutations of handshake messages",
  "nora_ssh has no tests; ordinary clients always offer acceptable parameters.",
  ["nora_ssh/src/host.rs", "nora_ssh/src/packet.rs"], [("negotiation check", "nora_ssh/src/host.rs"), ("handshake message type and length checks", "nora_ssh/src/host.rs")],
  ["packets sent by the server, connection closure, application callbacks"])
p("C10", "Identification strings are exchanged exactly",
  "The server first sends its configured identification line terminated by CR LF. It skips any client lines that do not start with 'SSH-', accepts a 'SSH-2.0-' line of up to 255 bytes including CR LF whatever bytes it contains and however it is fragmented, and takes precisely that line without CR LF into the exchange hash; another protocol version or a longer line ends the connection.",
  ["inputs", "schedules"], "all client preambles (blank lines, near-miss prefixes, bare CRs), identification contents and lengths 8..260, all fragmentations",
  "nora_ssh has no tests.",
  ["nora_ssh/src/identifier.rs", "nora_ssh_core/src/identifier.rs", "nora_ssh/src/host.rs"], [("prefix state machine and bounded line reader", "nora_ssh/src/identifier.rs")],
  ["server's first bytes; success of the handshake under the hash computed with the expected line"])
p("C11", "Key shares, cookies and padding are fresh and random",
  "Every handshake uses a new server ephemeral key and a new cookie, so no two connections (even with identical client bytes) share an ephemeral key, session identifier or traffic keys. All padding bytes of every packet the server sends come from its random generator: no earlier buffer contents (plaintext, keys, other traffic) ever appear in padding.",
  ["histories", "inputs"], "all connection histories and packet sequences",
  "nora_ssh has no tests, and a repeated key or leaking padding is invisible to functional tests.",
  ["nora_ssh/src/host.rs", "nora_ssh_core/src/packet.rs"], [("per-connection RNG and ephemeral secret", "nora_ssh/src/host.rs, nora_ssh/src/server.rs"), ("padding filled from RNG", "nora_ssh_core/src/packet.rs")],
  ["decrypted padding of every server packet against the recorded RNG output; ephemeral keys, cookies, session ids across connections"])
p("C12", "Nothing happens before the application accepts the credentials",
  "On every connection, no channel is opened and no command started until the application's authentication callback has accepted credentials sent on that same connection. The client is told success if and only if the callback accepted, and failure (after which it may try again, with the connection still usable) for each request it refused or the server does not support; the user handed to later commands is the one the callback returned for that connection. Messages that are to be ignored at any time (SSH_MSG_IGNORE, SSH_MSG_DEBUG) change none of this.",
  ["histories", "inputs", "schedules"], "all sequences of authentication and premature connection-protocol messages, callback outcomes and delays, interleaved connections",
  "nora_ssh has no tests; the property is about all message orders and concurrent connections.",
  ["nora_ssh/src/server.rs"], [("authentication loop before the connection loop", "nora_ssh/src/server.rs")],
  ["callback invocation log (authenticate, key query, spawn) and packets received by the client"])
p("C13", "Public-key logins are bound to session, user, service and key",
  "For every signed public-key request that reaches the application, the data to verify is exactly the RFC 4252 block built from this connection's session identifier and the user, service, algorithm and key blob of that very request, for requests of any size that fits a packet; algorithm, key and signature handed over are those in the request. A request whose key or signature names a different algorithm or carries surplus bytes never reaches the application, and a key query is answered positively (echoing algorithm and blob) exactly when the application says the key is acceptable, never logging anyone in.",
  ["inputs", "histories"], "all users, services, algorithms, keys, signatures (any length), malformed variants, sequences of attempts",
  "nora_ssh has no tests.",
  ["nora_ssh/src/server.rs", "nora_ssh_core/src/message/userauth.rs", "nora_ssh/src/auth.rs"], [("format_sign_data", "nora_ssh_core/src/message/userauth.rs"), ("blob/signature decomposition", "nora_ssh/src/server.rs")],
  ["arguments of the application callbacks versus the request the client sent"])
p("C14", "Chunking, delays and concurrency never corrupt the packet streams",
  "How the transport fragments, delays or interleaves bytes never changes what the server understands: every client packet is processed exactly once, completely and in order, even when other activity (process output, other channels, handler delays) happens while it is partly received. Likewise the server's output is always a sequence of complete valid packets with consecutive sequence numbers, even if the transport accepts only a few bytes at a time or holds them until it is flushed, or several channels send at once.",
  ["schedules", "inputs"], "all fragmentations, short writes, pending operations and interleavings with process output and handler completion",
  "nora_ssh has no tests; the failing interleavings need output to arrive in the middle of a partially received or partially written packet.",
  SRV, [("read_exact/write_all framing", "nora_ssh/src/host.rs"), ("write lock around each packet", "nora_ssh/src/server.rs, nora_ssh/src/sync.rs"), ("receive not cancelled by other events", "nora_ssh/src/server.rs")],
  ["an independent client decoding the full server stream; replies matched to requests; callback log"])
p("C15", "Client data reaches the process's standard input intact",
  "The bytes a client sends as channel data arrive at the standard input of the process started on that channel (even those sent before it was started) exactly once, complete and in order, however the process accepts them (short writes, delays, a writer that holds data until it is flushed), and end-of-file from the client is delivered to the process after all of them. A process that closes or lacks standard input merely discards the data; the session continues.",
  ["schedules", "inputs", "histories"], "all data sizes, packetisations, process read behaviours, concurrent output",
  "nora_ssh has no tests; short writes and concurrent output are needed to lose data.",
  ["nora_ssh/src/server.rs"], [("channel data handling and stdin writing", "nora_ssh/src/server.rs")],
  ["bytes observed at the process's stdin versus bytes sent by the client"])
p("C16", "Process output reaches the client intact and on the right stream",
  "Every byte a process writes to standard output arrives at the client as channel data of its channel, and every byte of standard error as extended data of type stderr of its channel, each exactly once and in order, followed by end-of-file only after all of it. No output is lost when the process exits, closes one of its streams early or reading a stream ends with an error.",
  ["schedules", "inputs", "histories"], "all output sizes, chunkings, orders of stream closure and exit, client read behaviours",
  "nora_ssh has no tests.",
  ["nora_ssh/src/server.rs"], [("per-channel output forwarding", "nora_ssh/src/server.rs")],
  ["bytes written by the process versus data/extended-data messages received by the client"])
p("C17", "Exit status is reported once and the channel closes in order",
  "When a process ends and its output is drained, the client receives on that channel exactly one exit-status with the process's status, one end-of-file and one close, with nothing on that channel after the close and no end-of-file or close before the output is complete. A close from the client is answered with a close unless one was already sent, and the connection and its other channels stay usable.",
  ["schedules", "histories"], "all orders of output end, exit, client EOF/close, and channel reuse",
  "nora_ssh has no tests; wrong orders depend on which event is polled first.",
  ["nora_ssh/src/server.rs"], [("end-of-session sequence", "nora_ssh/src/server.rs"), ("close handling", "nora_ssh/src/server.rs")],
  ["per-channel message sequence received by the client checked online against the RFC 4254 automaton"])
p("C18", "Channels are isolated and every request gets its own answer",
  "Simultaneously open channels have distinct identifiers, and everything sent for a channel carries the identifier its opener chose: no data, status or reply of one channel ever appears on another, including after identifiers are reused. Each open gets exactly one confirmation or (for unsupported types) failure, each request exactly one success or failure if and only if a reply was wanted, in order, and success exactly when the process was started; a channel starts at most one process. (Requests that cross with the server's own close of that channel may go unanswered, as RFC 4254 allows.)",
  ["histories", "schedules"], "all histories of open/request/data/eof/close over several channels and connections, with identifier reuse",
  "nora_ssh has no tests.",
  ["nora_ssh/src/server.rs", "nora_ssh/src/arena.rs"], [("channel table", "nora_ssh/src/arena.rs"), ("request dispatch", "nora_ssh/src/server.rs")],
  ["per-connection message log with unique commands, payloads and channel numbers"], [("channel table", "open channels by server identifier", "nora_ssh/src/arena.rs")])
p("C19", "No client can take the server down or disturb other clients",
  "Whatever bytes a client sends at any stage (before, during or after key exchange and login), wherever it disconnects or its transport fails, and whatever the application's callbacks return, the server does not panic and keeps accepting and serving every other connection correctly. At most the offending connection ends.",
  ["inputs", "histories", "fault_sequences"], "all hostile byte streams and message sequences, all disconnect/I-O error points, all callback outcomes",
  "nora_ssh has no tests; the server runs all connections in one task, so one unwrap reached by one client ends all sessions.",
  SRV + ["nora_ssh/src/packet.rs", "nora_ssh/src/identifier.rs"], [("per-connection Result handling", "nora_ssh/src/server.rs"), ("bounds checks on received lengths", "nora_ssh/src/packet.rs, nora_ssh/src/host.rs")],
  ["panics of the server task; a concurrent well-behaved witness connection and a connection opened afterwards"])
p("C20", "No lost wake-ups: pending work always completes",
  "Whenever the peer, transport, process or application makes an operation possible, the server carries it out without needing an unrelated event: once all inputs are delivered and nothing is artificially blocked, every request is answered and all output delivered. A stalled client, process or callback, or a client that sends without ever pausing, never prevents other connections from making progress; a stalled process, an exhausted window or a process whose output never ends never prevents the other channels of its connection from making progress, nor requests on it from being answered; and an idle server does not spin.",
  ["schedules", "histories"], "all wake-up orders under an executor that polls only woken tasks; stalls at every stage",
  "nora_ssh has no tests; lost wake-ups need contention on the write lock and particular poll orders.",
  SRV, [("wake-up queue of the write lock", "nora_ssh/src/sync.rs"), ("futures selection", "nora_ssh/src/server.rs")],
  ["quiescent states of the simulated world: no runnable task while a client still waits"], [("wait queue", "wakers of tasks waiting for the write lock", "nora_ssh/src/sync.rs")])
p("C21", "Channel flow control is respected in both directions",
  "The server never sends more data and extended-data bytes on a channel than the window the client has granted so far, nor a chunk larger than the client's maximum packet size, and resumes when more window is granted. It grants a window itself, replenishes it as the process consumes input so that a client honouring it can send any amount, and never promises a packet size it cannot receive.",
  ["histories", "inputs", "schedules"], "all initial windows, packet limits, adjustment sequences, and data volumes beyond the initial windows",
  "nora_ssh has no tests; the limits only matter beyond the first window.",
  ["nora_ssh/src/server.rs"], [("window accounting", "nora_ssh/src/server.rs")],
  ["client-side credit ledger per channel"])
p("C22", "scp in directory mode never writes outside the target directory",
  "When receiving into a directory, whatever file names the sender announces, the tool creates or modifies only regular files directly inside that directory (links already present there before the transfer aside). A name that is empty, '.', '..' or contains a path separator makes the transfer fail without touching anything.",
  ["inputs"], "all announced names, sequences of files, absolute and relative traversal",
  "nora_scp has no tests.",
  ["nora_scp/src/main.rs"], [("file name validation in the receiver", "nora_scp/src/main.rs")],
  ["file-system snapshot around the target directory before and after"])
p("C23", "scp receives files byte-exactly and acknowledges correctly",
  "For every well-formed transfer (any sizes including 0 and multiples of the buffer, any contents, names with spaces, any chunking of the input), each file ends up with exactly the announced bytes under the announced name (or the given path), and the receiver sends exactly one acknowledgement at start, one per header and one per completed file, never before it has what it acknowledges. A transfer that is truncated, has a malformed header (unknown letter, missing field, invalid size, no line end) or does not end a file with a zero byte, or whose file cannot be created or written, is not acknowledged from that point and makes the tool exit unsuccessfully.",
  ["inputs", "crash_points"], "all file contents, sizes, names, chunkings; truncation after every byte",
  "nora_scp has no tests.",
  ["nora_scp/src/main.rs"], [("receive loop", "nora_scp/src/main.rs")],
  ["files on disk, bytes on stdout over time, exit status"])
p("C24", "scp sends files byte-exactly following the protocol",
  "For every list of readable files the sender waits for the peer's acknowledgement at the start, after each header and after each file, announces each file's name and true size, sends exactly its contents followed by one zero byte, and exits successfully; connected to the receiver, every file arrives identical. A missing or unreadable file, one that ends before its announced size was sent, a negative or missing acknowledgement or a receiver that vanishes before everything was sent makes it exit unsuccessfully.",
  ["inputs", "fault_sequences"], "all files, sizes, names, acknowledgement behaviours",
  "nora_scp has no tests.",
  ["nora_scp/src/main.rs"], [("send loop", "nora_scp/src/main.rs")],
  ["stdout byte stream against a protocol automaton, exit status, received copies"])
p("C25", "The sshd example only admits holders of the offered key",
  "The daemon grants a login only for a signed ed25519 request whose signature by the offered key over this session's authentication data verifies; no other method, algorithm, altered, replayed or foreign-session signature succeeds, and no command runs for a client that was not granted a login. Genuine signatures are accepted.",
  ["inputs", "histories"], "all authentication requests and mutations of signatures, keys, users and session identifiers",
  "nora_sshd has no tests.",
  ["nora_sshd/src/main.rs", "nora_ssh/src/server.rs"], [("authenticate callback", "nora_sshd/src/main.rs")],
  ["replies of the real daemon over TCP; side effects of commands"])
p("C26", "The sshd example runs commands faithfully",
  "For an authenticated client, an exec request runs exactly the given program with the arguments separated by ASCII whitespace (space, tab, line feed, form feed, carriage return; no shell interpretation), a shell request runs $SHELL, and the client receives the program's exact standard output, standard error and exit status while the program receives exactly the client's input; death by signal is not reported as success. A program that cannot be started yields a failure reply.",
  ["inputs", "schedules"], "all commands, argument bytes, input/output sizes up to several windows, exit codes, concurrent sessions",
  "nora_sshd has no tests.",
  ["nora_sshd/src/main.rs", "nora_ssh/src/server.rs"], [("spawn callback", "nora_sshd/src/main.rs")],
  ["OpenSSH client and independent client against the real daemon"])
p("C27", "No undefined behaviour in the protocol core",
  "No use of the safe interface of the protocol core (parsing, serialising, framing, encrypting, key derivation), on any input, causes an out-of-bounds or uninitialised access, invalid aliasing or arithmetic overflow.",
  ["inputs"], "all inputs to the public core functions, in particular the one that uses unsafe code",
  "Native test runs do not notice undefined behaviour, and no test reaches the unsafe block.",
  ["nora_ssh_core/src/key_exchange.rs", "nora_ssh_core/src/packet.rs", "nora_ssh_core/src/cipher/chacha20poly1305.rs", "nora_ssh_core/src/data.rs"], [("the align_to reinterpretation", "nora_ssh_core/src/key_exchange.rs")],
  ["Miri and AddressSanitizer reports, overflow checks"])
p("C28", "No client can crash the sshd example",
  "The daemon process survives every client: password, unknown or malformed logins, non-UTF-8 user names, empty, unknown or failing commands, missing shell, abrupt disconnects at any point and garbage; afterwards it still serves a well-behaved client.",
  ["inputs", "fault_sequences"], "all client behaviours at every stage against the real binary",
  "nora_sshd has no tests.",
  ["nora_sshd/src/main.rs", "nora_ssh/src/server.rs"], [("error returns in the callbacks", "nora_sshd/src/main.rs")],
  ["liveness of the daemon process and a witness session after each attack"])
p("C29", "Everything is released and memory stays bounded",
  "When a channel or connection ends in whatever way (closed by either side, disconnect, transport failure, refused login, failed handshake, protocol violation), the server drops everything it held for it: the transport, the user, the process's streams and its wait handle, and the memory. So the memory of a server that has served any number of connections, and of a connection that has had any number of channels, does not grow with that number. While clients, windows or processes are stalled, the memory used for a connection stays within the window it granted plus a fixed amount, however much a process produces or a client sends. In the daemon, descriptors and exited child processes do not accumulate either.",
  ["histories", "schedules", "fault_sequences"], "all sequences of connections and channels and the ways they end; all floods against a stalled counterpart",
  "Tests never look at what remains after a connection, and leaks show only after many of them.",
  ["nora_ssh/src/server.rs", "nora_ssh/src/sync.rs", "nora_ssh/src/arena.rs", "nora_sshd/src/main.rs"], [("removal of channels, session select, client loop", "nora_ssh/src/server.rs"), ("slots are reused", "nora_ssh/src/arena.rs")],
  ["bytes allocated by the server's future and not freed, dropped ends of all streams, /proc/PID/fd and zombies of the daemon"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
