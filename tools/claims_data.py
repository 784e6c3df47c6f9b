NT = "A run is non-trivial when the operation under test reached the point the property speaks about (%s); runs are distinct when the hashes of their full traces (system calls, data, replies, times) differ."
c("S01", "Each run draws a server (extensions, reply wording and pace), a network (segmentation, latency, windows, EINTR, spurious readiness), 1-4 messages (streams or message objects, any recipients, given or taken from To, Cc and Bcc including groups) and a source chunking from the seed. " + NT % "at least one message submitted",
  REAL_NET + TLS, STUB_NET, "Seeded search; every message accepted by the strict model server is compared byte for byte with what was submitted.")
c("S02", "As S01, plus one or two rejections at any command, source stream failures at any byte, or a FIN/RST/silence at any byte of either direction. " + NT % "a rejection, source failure or network accident struck",
  REAL_NET, STUB_NET, "Seeded search; conservation between send() outcomes and transactions recorded by the server.")
c("S03", "Histories of up to 8 operations on one connection with up to 4 rejections (some replying late), source failures, stalls and reconnections; then a recovery phase without faults. " + NT % "at least one fault struck",
  REAL_NET, STUB_NET, "Seeded search; server-side classification of every byte, bounded recovery once faults stop.")
c("S04", "Each run draws the extension lists before and after STARTTLS, EHLO/HELO/STARTTLS refusals, bad greetings, and a network. " + NT % "connect() was attempted",
  REAL_NET + TLS, STUB_NET, "Seeded search; the server model rejects any command or parameter it did not announce in the current phase.")
c("P01", "Each run draws a maildrop (messages with dots at line starts, bare CRs, missing final line end, missing body), server wording and pace, a network, and retrievals (extract, parsed message, single and multiple fetches of size, uid and header); in the fault scenario also refusals, late replies, dropped connections, a FIN/RST/silence at any byte or a failing output stream, followed by a fault-free phase. " + NT % "at least one retrieval completed or a fault struck",
  REAL_NET + TLS, STUB_NET, "Seeded search; everything delivered is compared byte for byte with the simulated maildrop, refused or broken retrievals must throw, and service must recover once faults stop.")
c("P02", "Histories of up to 16 operations (delete sets, get, status, retrieve, noop, close with and without expunge, reopen, disconnect, reconnect) with refusals, late replies, dropped and broken connections. " + NT % "at least one deletion attempted",
  REAL_NET, STUB_NET, "Seeded search; the server's transaction state and the set it removes at QUIT are compared with what the client was told, after every step and at every end of session.")
c("I01", "Each run draws a mailbox (nested MIME messages, binary-ish bodies, encoded names), server layout (literals or quoted strings, item order, unsolicited data, NIL for empty), a network, and a series of fetches, structure walks, partial and parsed extractions; in the fault scenario also refused, half-sent, late replies, dropped connections and a FIN/RST/silence at any byte, followed by a recovery phase. " + NT % "something was fetched or extracted",
  REAL_NET, STUB_NET, "Seeded search; every value delivered is compared with the simulated mailbox; refused or broken operations must throw.")
c("I02", "Histories of up to 14 operations of the client (one folder, or two folders of each of one or two clients) while other simulated clients deliver, expunge and flag messages, announced by the server at any permitted moment (eager or late, between items, with refusals). " + NT % "an update was announced or a mutation attempted",
  REAL_NET, STUB_NET, "Seeded search; count, numbers, expunged state, uids, flags and the sequence of events are compared with the per-session view of the server after every operation.")
c("I03", "Histories of up to 11 mutations (flags, delete, expunge, append from streams that fail or stop early, copy, close) or folder operations (create, rename, destroy on random trees with arbitrary names), with refusals, late refusals and failing sources. " + NT % "a mutation was attempted",
  REAL_NET, STUB_NET, "Seeded search; refinement against the server's mailboxes: each accepted call changed exactly what it says, each refused one nothing; listeners heard of exactly that.")
c("I04", "Random folder trees (two delimiters, UTF-8 and special characters, unselectable, sealed and special-use boxes) and servers with or without CHILDREN, SPECIAL-USE, CONDSTORE; listings, exists, attributes, status, opening in both modes and random search expressions, with refusals. " + NT % "an inquiry was made",
  REAL_NET, STUB_NET, "Seeded search; answers are compared with the server's tree and with an independent evaluation of the search expression.")
c("N01", "Each run draws a protocol, TLS mode, authentication, network, time-out and number of extensions, and the point where silence begins: at any byte of either direction of any connection, in name resolution, connection set-up or the TLS handshake, with or without healing; a second scenario lets a slow server pause for just less than the time-out between small pieces. " + NT % "silence struck or a piece was delayed",
  REAL_NET + TLS + SASLR, STUB_NET, "Seeded search; in simulated time, every call must end within the time the handler granted after the last sign of life.")
c("N02", "Each run draws a protocol, TLS mode, authentication, network and a FIN or RST at any byte of either direction of one or two connections, during a history of operations with reconnections, then a recovery phase; a second scenario has only EINTR, spurious readiness and tiny windows, under which nothing may fail. " + NT % "the connection was lost or disturbed",
  REAL_NET + TLS + SASLR, STUB_NET, "Seeded search; the oracles of S, P and I decide each result, and service must recover once faults stop.")
c("N03", "Each run draws a protocol, an honest server behind a mutator that corrupts, reorders, repeats, truncates, swaps, inflates or replaces replies (absurd numbers, nesting, literals, NULs, malformed SASL challenges), and a history of up to 15 arbitrary client operations and destructions in any order. " + NT % "a reply was mutated",
  REAL_NET + TLS + SASLR, STUB_NET, "Seeded search under AddressSanitizer with a bound on executed basic blocks, simulated calls, memory per allocation and time.")
c("N04", "Each run draws up to 6 addresses (IPv4 and IPv6) that accept, refuse, are unreachable or silent after various delays, slow or failing name resolution, time-outs, descriptor limits, and a series of sessions that succeed or are broken off in any way. " + NT % "connect() was attempted",
  REAL_NET + TLS, STUB_NET, "Seeded search; outcome, chosen address and attempts are compared with a reference, descriptors and resolver requests with the simulated kernel's tables.")
c("T01", "Each run draws a protocol, implicit TLS or an upgrade (required or merely enabled), and one trouble: upgrade not offered, refused or answered in a malformed way, the handshake broken at any byte (garbage, close, alert, silence), one of 16 certificate chains (expired, other host, self-signed, forged, other CA, missing or leaf intermediates) against various trust settings and clock skews, or a network accident at any byte; then operations, disconnection and a second connection. " + NT % "connect() was attempted",
  REAL_NET + TLS + SASLR, STUB_NET, "Seeded search; every byte the client sends outside TLS is recorded and classified; acceptance of a chain is compared with a table made when the chains were made.")
c("T02", "Each run draws a protocol, different capabilities before and inside TLS, and a clear-text injection (replies, capabilities, fragments, tagged completions) in front of, glued behind or some time behind the reply to STARTTLS/STLS, with any segmentation; then a history of operations. " + NT % "something was injected",
  REAL_NET + TLS + SASLR, STUB_NET, "Seeded search; after the upgrade every result is compared with what the real server said inside TLS.")
c("A01", "Each run draws a protocol, TLS mode, user name and password (quotes, 8-bit, long), offered mechanisms (of 13, in any order), which of them the server refuses, malformed challenges, right or wrong credentials, an authenticator (default, recording, reordering or restricting, without password or user, XOAUTH2 in both modes, not SASL-capable), options (SASL, fallback, APOP), refused, late or dropped authentication commands, LOGINDISABLED, SASL-IR, and in part of the runs a FIN/RST/silence at any byte; then operations and a second connection. " + NT % "connect() was attempted",
  REAL_NET + TLS + SASLR, STUB_NET, "Seeded search; connect() is compared with the logins the server (GNU SASL's server side) accepted; the mechanisms attempted with those offered and acceptable; traces are searched for secrets.")
FS_REAL = ["src/vmime/net/maildir/*", "src/vmime/platforms/posix/posixFile.cpp", "src/vmime/platforms/posix/posixHandler.cpp", "src/vmime message and MIME core"]
FSN = "Seeded search; the simulated disk and what fresh and existing folder objects show are compared with a model after every operation."
c("M01", "Each run draws a layout (KMail or Courier), messages in two folders, up to 12 operations (add, copy, flags, expunge, status, reopen, delivery by another program), and one crash point among the first 800 file-system calls: of the process, or of the machine (data not yet synced is lost, kept or torn). " + NT % "a crash struck or a mutation completed",
  FS_REAL, FS_STUB, "Seeded search; after the crash both folders are compared, on disk and through a fresh client, with the copies that must, may and must not exist, and their flags.")
c("M02", "Each run draws a layout, messages and up to 12 operations, each with up to two failing system calls (any call class, position, errno, once or from then on), short or interrupted transfers, a full disk or a failing source stream. " + NT % "at least one system call failed",
  FS_REAL, FS_STUB, FSN)
c("M03", "Two to four clients (each a thread with its own session and process id, pre-empted at any system call) add, copy, flag, delete, expunge, close, reopen and list the same two folders, sometimes with deliveries by another program. " + NT % "at least one listing was compared while others were active",
  FS_REAL, FS_STUB, "Seeded search over interleavings of file-system calls; listings and the final disk contents are compared with what each client was told.")
c("M04", "Histories of up to 25 operations on up to four folder objects (of one or two stores) open on the same two folders, with listeners on every object, deliveries and flag changes by other programs. " + NT % "at least one operation was compared with the model",
  FS_REAL, FS_STUB, FSN)
c("M05", "Random folder trees in both layouts (30 names: prefixes of one another, dots, non-ASCII, characters special to the layout), histories of up to 22 creations, deletions, renames, listings and inquiries through several stores, with listeners; in the fault scenario with failing system calls. " + NT % "a rename took place or the history ended",
  FS_REAL, FS_STUB, "Seeded search; the directory tree on the simulated disk is decoded independently and compared with a model tree after every operation.")
c("F01", "Each run draws histories of writing, reading, skipping, seeking, copying and flushing through the file streams (with short transfers, EINTR, failing calls, a full disk, a crash at any call), or of creating, renaming, removing, listing and querying a tree of files and directories with up to several failing calls, or a message generated to and parsed from files. " + NT % "an operation was compared with the model",
  ["src/vmime/platforms/posix/posixFile.cpp","src/vmime/platforms/posix/posixHandler.cpp","src/vmime/utility/streamUtils.cpp","src/vmime/utility/*FileStream*","src/vmime message and MIME core"], FS_STUB, FSN)
c("F02", "Each run draws senders, recipients, contents (any mix of CR and LF), a pipe capacity (1 byte to 64 KB), the program's reading pace, short or interrupted pipe writes and waits, and one trouble: any exit status, early exit or closed input after any byte, death by a signal, no such program, failing fork/pipe/wait, a failing source; several sends per transport, or several threads sending at once, with SIGPIPE at its default or ignored. " + NT % "send() was judged against what the program saw",
  ["src/vmime/net/sendmail/*","src/vmime/platforms/posix/posixChildProcess.cpp","src/vmime/utility/filteredStream.cpp","src/vmime message and MIME core"], ["the sendmail program (a simulated process: arguments, pipe, pace, exit status; fork() is real up to exec)","pipe, signal mask and waitpid of the simulated kernel"], "Seeded search; what the simulated program received and how it ended is compared with the call's outcome.")
c("F03", "Each run starts 1-3 programs with random arguments and any combination of redirected standard input and output, a pipe capacity (1 byte to 64 KB), the program's pace, short or interrupted pipe transfers and waits, and sometimes one trouble: an exit status, an early end, closed input, death by a signal, no such program, failing fork/pipe/wait, a caller who stops reading. " + NT % "a program was waited for",
  ["src/vmime/platforms/posix/posixChildProcess.cpp"], ["the programs (simulated processes: arguments, pipes, pace, exit status; fork() is real up to exec)","pipe, signal mask and waitpid of the simulated kernel"], "Seeded search; the bytes on either side of each pipe are compared with what the other side wrote.")
c("T03", "Each run draws a socket (posix, TLS, SASL-protected, SASL inside TLS), network conditions (segments, short transfers, tiny windows, EINTR, spurious readiness), a peer that talks and stalls at random, and up to 15 calls of send()/sendRaw()/sendRawNonBlocking()/receive()/receiveRaw()/waitForRead()/isConnected() and the stream adapters, with a FIN, RST or silence at any byte, an orderly close, and reconnection of the same socket. " + NT % "bytes were received or the connection broke",
  ["src/vmime/platforms/posix/posixSocket.cpp","src/vmime/net/tls/gnutls/*","src/vmime/security/sasl/SASLSocket.cpp","src/vmime/security/sasl/SASLSession.cpp","src/vmime/utility/*SocketAdapter.cpp","libgnutls (both ends)"], ["the kernel's sockets, poll, clock and resolver","the peer (a byte-stream endpoint written for this)","the SASL protection layer itself (a framing mechanism written for this, loaded through vmime's interface)"], "Seeded search; both byte streams are compared with what was handed over, byte by byte and as the run proceeds.")
c("E01", "Each run lets an author compose a message (plain or HTML text, up to 3 attachments, names and texts in several scripts, the reader among the To, Cc or Bcc recipients, sometimes a request for a receipt), submit it with SMTP until that succeeds (temporary refusals, broken connections, silence, retries with pauses and clock jumps), delivers what the server took into a POP3, IMAP or maildir mailbox, collects it there (with broken connections and retries), and lets the reader send the receipt, an answer or the message forwarded the same way; author and readers live in drawn time zones, often near a change of Daylight Saving Time. " + NT % "the message was read",
  ["vmime MIME core (builder, parser, header fields, date and identifier classes)","src/vmime/mdn/*","src/vmime/net/{smtp,pop3,imap,maildir}/*","posixSocket, posixFile"], ["the SMTP, POP3 and IMAP servers and the delivery between them (written for this)","network, resolver, disk and clock"], "Seeded search; what the reader sees is compared field by field with what was composed.")
c("U01", "Each run draws the kind and number of identifiers (up to 70000 in one process while the clock stands, jumps back or forth), the seed the entropy source gives (also 0 and the extremes), threads pre-empted at system calls or at basic blocks, processes that start, fork, reuse process ids and have a working, short, interrupted or missing entropy source, or message trees whose parts are full of text resembling delimiter lines. " + NT % "many identifiers were generated, or several threads or processes took part, or a message was nested",
  ["src/vmime/utility/random.cpp","src/vmime/messageId.cpp","src/vmime/body.cpp","src/vmime/net/maildir/maildirUtils.cpp","src/vmime/platforms/posix/posixHandler.cpp","vmime MIME core"], ["clock, process id, host name and /dev/urandom","thread scheduling (system calls and instrumented basic blocks)"], "Seeded search; every identifier of a run is compared with all others; a bound on executed basic blocks decides termination.")
c("C01", "Each run draws a codec with its options, a filter, a pair of charsets or a stream adapter, data of a chosen style (random, escapes, boundaries, line ends, up to 90 kB), and the partition of the transfer: block sizes, short and empty reads, late end of stream, a source, sink or std:: stream buffer that fails at any byte.",
  ["src/vmime/utility/encoder/*","src/vmime/utility/filteredStream.*","src/vmime/charsetConverter_icu.cpp","src/vmime/utility/*Adapter.*","src/vmime/utility/streamUtils.cpp","ICU"], ["sources, sinks and stream buffers (simulated I/O)"], "Seeded search; oracles are independent decoders and filters, the result of one whole-buffer conversion, and Unicode tables written for the charset checks. Code points that ICU substitutes silently (default-ignorable) are left out, and for stateful charsets only the bytes and the fact of failing are compared.")
c("C02", "Each run draws a message tree (nested multiparts, parts of six encodings whose contents imitate boundaries, texts and file names in several scripts, long recipient lists), content given as strings, streams or files (encoded or not), a destination and eight ways of parsing (string, std:: and other streams of known or unknown length, lazily from a file or a part of it) with short reads and writes, EINTR and failures at any byte or system call; or a message written by an independent generator, possibly then damaged; or the message builder, attachment helper and message parser; or several messages edited while still being read lazily (parts moved, copied, removed, kept), other parts being read in the middle of an extraction; or any of these with an allocation that fails (once or from then on), after which the operation is repeated. " + NT % "the message has several parts or attachments",
  ["vmime message and MIME core","src/vmime/platforms/posix/posixFile.cpp","src/vmime/utility/*","ICU"], ["sources, sinks and the simulated disk"], "Seeded search; parsed messages are compared with the model they were made from (contents extracted in any order, partly, repeatedly), damaged ones with what the whole-string parse gives; failures must surface as exceptions. Spaces between header words are not compared after a message was parsed and generated again.")
c("L01", "Each run keeps up to two stores (IMAP, POP3 or Maildir, plain or TLS) or SMTP transports and a zoo of folders, messages, structures, parsed messages and listeners obtained from them, and draws a history of opening, using, closing, disconnecting, reconnecting and destroying them in any order, with connections ended, reset, stalled or cut at any byte, the server restarted, messages delivered and expunged by others, and disk errors; in some runs the listeners themselves close, disconnect, open, use, change and drop folders when notified; finally the faults stop, stores are connected again and used, and everything is destroyed in a drawn order. " + NT % "something was disconnected, destroyed or opened twice",
  REAL_NET + ["src/vmime/net/maildir/*", "vmime message and MIME core"], STUB_NET + ["the simulated disk"], "Seeded search under AddressSanitizer. Use of an object whose folder or store is closed or gone must throw; stores, folders and transports must be gone when their last reference is dropped; no socket may stay open once nothing is connected; a store or transport connected again must work; a session ended while usable must tell the server.")
c("W01", "Each run connects to an SMTP, POP3 or IMAP server of a drawn feature set with user names and passwords, envelope addresses and delivery options, folder names, search strings and header names made of quotes, escapes, wildcards, literal markers, brackets, control characters, other scripts, line breaks and commands hidden behind them, in histories mixed with ordinary operations. " + NT % "a value other than a plain word was used",
  REAL_NET, STUB_NET, "Seeded search against strict servers that parse every command: what they decode must be what was given (login, sender, recipients, mailbox names), nothing hidden in a value may arrive as a command or parameter, what cannot be sent must throw, and the session must go on working.")
NA = {
 "X01": "pure function of its argument: no schedule, clock, I/O, fault or second party can influence it, so a simulator has nothing to vary",
 "X02": "pure arithmetic on its arguments: nothing a simulator controls can influence it",
 "X03": "pure function of its argument: nothing a simulator controls can influence it",
}
