# Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=False):
    M={"network segmentations":"schedules","server feature sets":"configurations","fault sequences":"fault_sequences","server behaviours":"configurations","interleavings with other clients":"schedules","adversarial schedules":"schedules","crash points":"crash_points","interleavings":"schedules","I/O segmentations":"schedules","clock behaviours":"schedules","random seeds":"inputs"}
    over=list(dict.fromkeys(M.get(o,o) for o in over))
    a={"files":files,"mechanism":[{"name":m,"where":files[0] if len(files)==1 else next((f for f in files if m.split("::")[0].split("/")[0] in f),files[0])} for m in mech]}
    if state: a["state"]=[{"name":x} for x in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

SM=["src/vmime/net/smtp/SMTPTransport.cpp","src/vmime/net/smtp/SMTPConnection.cpp","src/vmime/net/smtp/SMTPResponse.cpp","src/vmime/net/smtp/SMTPCommandSet.cpp","src/vmime/net/smtp/SMTPChunkingOutputStreamAdapter.cpp","src/vmime/utility/filteredStream.cpp"]
p("S01","SMTP delivers exactly the submitted message to exactly its recipients",
 "Whenever an SMTP server accepts a message sent through vmime, the envelope sender and recipients it saw are exactly the ones given to send() and the content it stored (after dot-unstuffing for DATA, or after joining the BDAT chunks) is byte for byte the submitted content, plus at most one trailing CRLF in DATA mode. "
 "This holds for every content made of CRLF-terminated lines of any bytes and length (the last one possibly unterminated; lines that start with dots included), for arbitrary bytes where BDAT is used, however the content is split into write or read chunks, whatever subset of PIPELINING, CHUNKING, SIZE, 8BITMIME and SMTPUTF8 the server offers, and however the network splits and delays the traffic.",
 ["inputs","schedules","network segmentations","server feature sets"],"every message, envelope, server feature set, chunking of the source stream, and segmentation/delay of both byte streams",
 "Unit tests run one scripted exchange over an in-memory test socket that never splits, delays or back-pressures the byte streams.",
 SM,["SMTPTransport::send/sendEnvelope","dotFilteredOutputStream::writeImpl","SMTPChunkingOutputStreamAdapter::writeImpl/flush","SMTPResponse::readResponse"],["SMTP session state","filter state across chunks"],["messages stored by the simulated SMTP server"])
p("S02","SMTP send() reports success exactly when the server took the message",
 "send() returns normally only if the server acknowledged, with a positive final reply to the message data, a transaction holding the whole message and every recipient; if any command is rejected, the source stream fails, or the connection is lost or times out, send() throws, and if nothing of that kind happens it succeeds. "
 "A send() that throws because its source stream failed or because the server rejected part of the transaction never leaves the server with an accepted message that is truncated, corrupted or addressed to only part of the recipients.",
 ["inputs","schedules","fault sequences"],"every position of a rejection, read error, disconnection or stall in the SMTP dialogue, with and without PIPELINING and CHUNKING",
 "Tests script a few rejections; the pairing of replies with pipelined commands and the effect of failures at each byte cannot be sampled by hand.",
 SM,["SMTPTransport::sendEnvelope","SMTPTransport::send","SMTPResponse::readResponse","SMTPConnection::readResponse"],["pipelined replies in flight"],["return/throw of send()","transactions recorded by the server"])
p("S03","An SMTP connection stays in step after a failed or successful send",
 "After a send() on a connected SMTP transport has succeeded or failed, any later operation on the same transport either fails with an exception or behaves as on a fresh connection: replies are attributed to the commands they answer, command text never becomes message content, and message content is never read as commands. "
 "In particular every message the server accepts is one that was submitted, with its own envelope.",
 ["histories","schedules","fault sequences"],"every sequence of sends, with any mix of rejections (per command), source failures and server behaviours in between",
 "Needs multi-operation histories over one connection with failures at arbitrary points; tests create one transport per scripted exchange.",
 SM,["SMTPTransport::send (MAIL_AND_RCPT/RSET handling)","SMTPCommandSet","SMTPConnection m_responseState"],["m_needReset","reply buffer","unread pipelined replies"],["server-side transcript classification"])
p("S04","SMTP extensions are used only as the server currently offers them",
 "The client sends only commands and parameters (SIZE=, SMTPUTF8, BDAT, AUTH, pipelined command groups, DSN) that the server listed in the last EHLO reply of the current session phase, falls back to HELO when EHLO is refused, forgets the feature list seen before a TLS upgrade, and when SIZE is offered announces the exact size in MAIL FROM, so that a server that refuses it never receives the content. "
 "After connect() succeeds the session is ready: a greeting was accepted and the server knows the client's name.",
 ["server feature sets","schedules"],"every advertised extension list before and after STARTTLS, and every segmentation of the multi-line replies",
 "Feature lists, their change across STARTTLS and their segmentation form a product space tests sample at a handful of points.",
 SM,["SMTPConnection::helo/hasExtension/startTLS","SMTPTransport::send"],["m_extensions","m_extendedSMTP"],["server-side protocol checker"])
PO=["src/vmime/net/pop3/POP3Response.cpp","src/vmime/net/pop3/POP3Folder.cpp","src/vmime/net/pop3/POP3Message.cpp","src/vmime/net/pop3/POP3Connection.cpp","src/vmime/net/pop3/POP3Utils.cpp"]
p("P01","POP3 retrieval returns the stored messages however the bytes arrive",
 "Message count, sizes, unique ids, headers and full contents obtained through a POP3 folder equal what the server holds for that message number: extracted content is byte for byte the stored message (dot-stuffing undone, without the protocol terminator), for any content made of CRLF-terminated lines (the final CRLF may be taken for part of the terminator) and for any way the network splits, delays or coalesces the reply. "
 "A reply that is cut short by a disconnection is reported as an error, never returned as a complete message.",
 ["inputs","network segmentations","schedules"],"every mailbox content (dots, empty lines, blank or dot-only lines, missing final newline, large) and every segmentation of the replies",
 "Terminator recognition and dot-unstuffing depend on where reads split; tests use a socket that returns whole replies.",
 PO,["POP3Response::readResponseImpl/readLargeResponse","stopSequenceFilteredInputStream","dotFilteredInputStream","POP3Utils::parseMultiListOrUidlResponse"],["stream filter state"],["bytes written to the caller's output stream"])
p("P02","POP3 deletions take effect exactly as reported",
 "Exactly the messages for which deleteMessages() reported success, and for which no undelete (RSET) followed, are removed by the server when the session is closed with expunge; closing without expunge or losing the connection removes none, and no other message is ever removed. "
 "During the session the folder's message count, numbering and the deleted flag of message objects agree with the server's transaction state, whatever mix of successful and failing commands occurs.",
 ["histories","fault sequences"],"every sequence of open, fetch, delete, close(expunge or not), reopen and status calls with command failures and disconnections in between",
 "Stateful multi-operation histories with failures; tests only check single commands.",
 PO+["src/vmime/net/pop3/POP3Store.cpp"],["POP3Folder::deleteMessages/close/onClose","POP3Connection::disconnect"],["m_messages cache","server transaction state"],["server mailbox after the session"])
IM=["src/vmime/net/imap/IMAPConnection.cpp","src/vmime/net/imap/IMAPParser.hpp","src/vmime/net/imap/IMAPFolder.cpp","src/vmime/net/imap/IMAPMessage.cpp","src/vmime/net/imap/IMAPUtils.cpp","src/vmime/net/imap/IMAPFolderStatus.cpp","src/vmime/net/imap/IMAPCommand.cpp"]
p("I01","IMAP fetch and extract return the server's data however it arrives",
 "What fetchMessages(), extract() and extractPart() deliver (sizes, flags, uids, envelope header fields, structure, and the bytes of whole messages, headers, parts and partial ranges) equals what the server holds for that message, for any content, any literal or quoted encoding of strings the server chooses, any order of items, unsolicited responses in between, and any segmentation of the stream. "
 "If the response is incomplete or the command is refused, the operation throws.",
 ["inputs","network segmentations","server behaviours"],"every mailbox content, response layout, interleaved unsolicited data and segmentation",
 "Literals and tokens split at arbitrary read boundaries and interleaved unsolicited data cannot be enumerated by parser unit tests on complete strings.",
 IM,["IMAPParser::readLine/literal handling","IMAPMessage::extractImpl/processFetchResponse","IMAPFolder::fetchMessages"],["parser buffer and position"],["values returned to the caller"])
p("I02","The IMAP client's view of the mailbox follows the server's updates",
 "After each completed command on an open IMAP folder, the message count, the numbers and expunged state of live message objects, their fetched flags and their uids agree with the server's sequence-number mapping as announced by the EXISTS, EXPUNGE and FETCH responses received so far, whoever caused the changes. "
 "Events delivered to listeners (messages added, removed, flags changed) name exactly the messages affected, once.",
 ["histories","interleavings with other clients"],"every interleaving of this client's commands with deliveries, expunges and flag changes by other clients",
 "The order in which untagged updates interleave with command replies is decided by other clients; tests have no second client.",
 IM+["src/vmime/net/events.cpp"],["IMAPFolder::processStatusUpdate","IMAPFolderStatus::updateFromResponse","IMAPMessage::processFetchResponse","IMAPFolder::noop/getStatus"],["m_messages","m_status","m_flags"],["message objects and event callbacks vs. simulated server"])
p("I03","IMAP mutations do on the server exactly what the caller asked and was told",
 "Adding, copying, flagging, deleting and expunging messages and creating, renaming and deleting folders through vmime change the server's mailboxes exactly as the corresponding calls specify (appended bytes, flags and date; addressed messages only; the folder path addressed, whatever characters it contains), each call that returns took effect and each call the server refuses throws and changes nothing. "
 "An append whose source stream fails or delivers fewer bytes than announced never leaves later commands to be swallowed as message data nor a corrupted message in the mailbox.",
 ["inputs","histories","fault sequences"],"every sequence of mailbox operations, message sets, paths and failures (NO/BAD replies, failing source streams)",
 "Refinement against a mailbox model over histories with failures is not something single-command tests can settle.",
 IM+["src/vmime/net/messageSet.cpp"],["IMAPFolder::addMessage/copyMessages/setMessageFlags/deleteMessages/expunge/rename/create/destroy","IMAPUtils::messageSetToSequenceSet/pathToString"],["literal in progress"],["simulated server's mailboxes"])
p("I04","Folder listing, existence, attributes, status and search report what the server holds",
 "getFolders() (recursive or not), exists(), getAttributes(), status()/getStatus(), getMode() and the message searches of an IMAP folder give exactly what the server holds at that moment: every sub-folder once with its type, children, selectability and special use, whatever characters its name contains and whatever wildcards these are to the server; counts and identifiers; and exactly the messages that satisfy the search expression. "
 "An inquiry the server refuses throws; it is never answered by an empty or stale result.",
 ["inputs","server behaviours","histories"],"every folder tree, separator, set of capabilities, search expression, response order and refusal",
 "The space of trees, names and nested search expressions against a server with a state of its own is open-ended; unit tests check command texts.",
 IM+["src/vmime/net/imap/IMAPSearchAttributes.cpp","src/vmime/utility/path.cpp"],["IMAPFolder::getFolders/testExistAndGetType/getStatus/getMessageNumbersMatchingSearchAttributes","IMAPUtils::stringToPath/pathToString/mailboxFlagsToFolderAttributes","IMAPSearchTokenFactory"],["m_attribs","m_status"],["values returned to the caller vs. simulated server"])
NT=["src/vmime/platforms/posix/posixSocket.cpp","src/vmime/net/defaultTimeoutHandler.cpp"]+SM[1:3]+PO[:1]+["src/vmime/net/imap/IMAPParser.hpp","src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp"]
p("N01","No network operation blocks past its timeout",
 "With a timeout handler installed, every operation on an SMTP, POP3 or IMAP service returns or throws within a bounded (simulated) time after the peer or the network stops making progress, at whatever byte of the dialogue, name resolution, connection set-up or TLS handshake the silence begins, and including disconnect(). "
 "The handler contract is kept: the operation ends soon after handleTimeOut() returns false, and continues, with the timeout counter reset, when it returns true; a peer that keeps making progress is not timed out.",
 ["schedules","fault sequences"],"every point at which the peer may fall silent, stall its receive window, or trickle bytes, for every operation",
 "Requires time and silence at every byte offset; unit tests have no clock control.",
 NT,["posixSocket::waitForData/connect/resolve","SMTPResponse::receiveLine","POP3Response::readResponseImpl","IMAPParser::read","TLSSocket_GnuTLS::handshake/sendRaw"],["timeout handler state"],["simulated clock at return of each call"])
p("N02","A lost connection surfaces as an error, never as a complete result",
 "If the connection is closed or reset by the peer or the network at any byte of any SMTP, POP3 or IMAP operation, that operation throws a vmime exception unless its whole reply had already arrived; data handed out before the loss is never reported as a complete result, and the service can be disconnected, destroyed and reconnected afterwards. "
 "Interrupted system calls and spurious wake-ups (EINTR, EAGAIN) are not mistaken for a lost connection or for data.",
 ["fault sequences","schedules"],"every byte offset of close/reset in both directions, over plain and TLS connections, with EINTR/EAGAIN at any call",
 "Needs a fault at each byte offset and system call of a dialogue.",
 NT,["posixSocket::receiveRaw/sendRaw/throwSocketError","TLSSocket_GnuTLS push/pull functions","service isConnected/disconnect"],["socket status flags"],["result of the call vs. what the server sent"])
p("N03","Hostile or corrupted server data cannot crash, hang or exhaust the client",
 "Whatever bytes a server sends (corrupted, reordered, truncated or malicious replies, absurd numbers, nesting or lengths, embedded NULs), every client operation on that connection ends by returning or by throwing an exception derived from std::exception, without memory errors, unbounded recursion, or unbounded looping. "
 "Afterwards disconnecting and destroying the service and its folders and messages, in any order, is safe.",
 ["inputs","fault sequences"],"every mutation of server replies in every protocol state",
 "The space of malformed replies and states is unbounded; tests only feed well-formed or a few malformed lines.",
 IM+PO+SM[:3],["IMAPParser components","IMAPUtils::convertAddressList/appendFetchResponse","POP3Utils","SMTPResponse::getResponseCode"],None,["process survival under AddressSanitizer inside the simulator"])
p("N04","Connection set-up tries every address and leaks no descriptors",
 "connect() succeeds if at least one resolved address accepts the connection within the allowed time, whatever happens on the addresses tried before it (refused, unreachable, silent, reset while connecting) and otherwise throws a connection or timeout error; failed attempts, failed or abandoned sessions and repeated connect() calls on one socket leave no open socket once the service (or socket) object is gone. "
 "A name-resolution request that outlives an abandoned connect() never touches memory this call has released.",
 ["fault sequences","schedules"],"every list of addresses with every combination of refusal, unreachability, silence, delay and descriptor exhaustion",
 "Tests never resolve or connect to real addresses.",
 NT[:1],["posixSocket::resolve/connect"],["file descriptors","pending resolver requests"],["simulated kernel's descriptor and resolver tables"])
TL=["src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp","src/vmime/net/tls/gnutls/TLSSession_GnuTLS.cpp","src/vmime/net/smtp/SMTPConnection.cpp","src/vmime/net/pop3/POP3Connection.cpp","src/vmime/net/imap/IMAPConnection.cpp","src/vmime/security/cert/defaultCertificateVerifier.cpp"]
p("T01","Nothing sensitive is sent unprotected when TLS is required",
 "When TLS is required (connection.tls.required, or the smtps/pop3s/imaps services) no credential, message or mailbox command is sent before a TLS handshake has completed and the certificate verifier has accepted the peer; if the server does not offer STARTTLS, refuses it, answers it in a malformed way, breaks the handshake or presents an unacceptable certificate, connect() throws and the service is not connected. "
 "With TLS merely enabled, a refusal falls back to plain text but a started handshake that fails never does, and isSecuredConnection() tells the truth about every connected service.",
 ["fault sequences","server behaviours"],"every stripped, refused, delayed, corrupted or failed upgrade at any point, for all three protocols",
 "Downgrade attacks act on particular steps of the exchange; no unit test performs a TLS handshake.",
 TL,["SMTPConnection/POP3Connection/IMAPConnection::connect/startTLS","TLSSocket_GnuTLS::handshake","defaultCertificateVerifier::verify"],["m_secured","m_authenticated"],["plain-text bytes seen by the simulated network"])
p("T02","Data received before the TLS handshake is never used after it",
 "Bytes that reach the client in clear before the TLS handshake completes (for example injected behind the server's reply to STARTTLS/STLS) are never interpreted as server responses of the protected session: they cause an error or are discarded, and every capability, status and reply used after the upgrade was received inside the protected channel.",
 ["adversarial schedules"],"every injected byte string and every segmentation around the STARTTLS reply",
 "Depends on which bytes share a read with the STARTTLS reply.",
 TL+["src/vmime/net/smtp/SMTPResponse.cpp","src/vmime/net/imap/IMAPParser.hpp"],["startTLS in each protocol","SMTPResponse state carried between reads","IMAPParser m_buffer"],["reply buffers at the moment of the upgrade"],["behaviour after upgrade vs. server's protected replies"])
p("T03","Sockets are faithful byte streams through partial I/O",
 "Bytes passed to send/sendRaw on a posix, TLS or SASL-protected socket arrive at the peer complete, in order and once, and bytes sent by the peer are returned by receive/receiveRaw complete, in order and once, regardless of short reads and writes, EAGAIN, EINTR, full send windows and record boundaries; the end of the stream or an error is reported as such. "
 "The same holds for the stream adapters over sockets.",
 ["schedules","fault sequences"],"every pattern of partial transfers, interruptions and back-pressure",
 "Partial transfers and back-pressure are decided by the kernel; tests never see them.",
 ["src/vmime/platforms/posix/posixSocket.cpp","src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp","src/vmime/security/sasl/SASLSocket.cpp","src/vmime/utility/inputStreamSocketAdapter.cpp","src/vmime/utility/outputStreamSocketAdapter.cpp"],
 ["posixSocket::sendRaw/receiveRaw/sendRawNonBlocking","TLSSocket_GnuTLS::sendRaw/receiveRaw","SASLSocket::sendRaw/receiveRaw"],["m_status","pending buffers"],["bytes at both ends"])
p("A01","Authentication succeeds exactly when the server accepts it",
 "connect() with authentication returns normally if and only if the server accepted the user's credentials by one of the mechanisms tried; rejected, cancelled or malformed exchanges lead to the next acceptable mechanism or, when none is left, to an authentication error and a closed, unauthenticated service, never to a session treated as authenticated. "
 "Passwords and access tokens never appear in trace output, and are sent only inside the exchange of a mechanism the server offered (or the protocol's own login command when the server allows it).",
 ["server behaviours","fault sequences"],"every list of offered mechanisms, every accept/reject/malformed step in the exchange, and every segmentation",
 "Multi-step exchanges with failures at each step and fallback between mechanisms are a product space.",
 TL[2:5]+["src/vmime/security/sasl/SASLSession.cpp","src/vmime/security/sasl/builtinSASLMechanism.cpp","src/vmime/security/sasl/defaultSASLAuthenticator.cpp","src/vmime/security/sasl/SASLContext.cpp"],["authenticate/authenticateSASL in each protocol","SASLContext::suggestMechanism"],["m_authenticated"],["server-side authentication state"])
MD=["src/vmime/net/maildir/maildirFolder.cpp","src/vmime/net/maildir/maildirMessage.cpp","src/vmime/net/maildir/maildirUtils.cpp","src/vmime/platforms/posix/posixFile.cpp"]
p("M01","Maildir deliveries are crash-atomic and durable",
 "If the process or machine crashes at any point during addMessage() or copyMessages() on a maildir, then after restart every message visible in the folder is complete and byte-identical to a message that was added or copied (never empty, truncated or mixed), all messages present before are still there, and every message whose add or copy had returned is present. "
 "Flag changes and moves from 'new' to 'cur' interrupted by a crash neither lose nor duplicate a message. (Assumed of the file system: directory operations take effect atomically and in order, file data is only safe once fsync has returned.)",
 ["crash points","histories"],"every crash point (before and after each file-system operation), with unsynced file data lost, kept or torn",
 "Requires stopping the system at each file-system operation and discarding unsynced data.",
 MD,["maildirFolder::addMessage/copyMessageImpl","posixFile::rename/createFile","posixFileWriterOutputStream::flush"],["files in tmp/new/cur"],["folder listing after simulated crash and restart"])
p("M02","Maildir operations are all-or-nothing under I/O errors",
 "When a file-system call fails (disk full, I/O error, descriptor limit, permission) or transfers only part of the data during a maildir operation, the operation either succeeds completely or throws; a failed add leaves no new message (nor, when the disk still lets it be removed, a temporary file), a failed copy of several messages at most complete copies of some of them, neither ever a partial or empty message, and existing messages are untouched. "
 "A message reported as added can be read back byte for byte, and a folder whose directory cannot be read is never presented as an empty folder.",
 ["fault sequences"],"every failing or partial system call in every maildir operation",
 "Needs failing/short system calls at each call site.",
 MD+["src/vmime/net/maildir/format/kmailMaildirFormat.cpp","src/vmime/net/maildir/format/courierMaildirFormat.cpp"],["maildirFolder::copyMessageImpl/scanFolder","posixFileWriterOutputStream::writeImpl"],["temporary files"],["folder contents on the simulated disk"])
p("M03","Several clients sharing a maildir lose and duplicate nothing",
 "When several processes use the same maildir at once (adding, copying, opening, refreshing, flagging, deleting, expunging), every message added by any of them is, once all have finished, present exactly once with its exact content unless some client deleted and expunged it; no client ever sees a partially written message, and file names chosen by different clients never collide into overwriting. "
 "A message moved or renamed by another client at any moment does not make a client lose sight of the other messages in the folder.",
 ["interleavings"],"every interleaving of file-system operations of two to four clients",
 "Needs control of the interleaving of file-system calls between processes.",
 MD,["maildirFolder::scanFolder/setMessageFlags/expunge","maildirUtils::generateId","posixFile::rename"],["shared directory"],["disk contents and each client's listing"])
p("M04","A maildir folder object reflects the messages on disk",
 "Over any sequence of add, copy, fetch, flag, delete, expunge, status, close and reopen calls, message numbers, counts, unseen counts, flags, uids, sizes, expunged state and extracted bytes agree with a simple model of the folder: flags survive reopening, only messages marked deleted are removed by expunge, the others keep their identity under renumbering, and each message appears once. "
 "Events delivered to listeners name exactly the messages added, removed or changed, on every folder object open on that path.",
 ["histories"],"every sequence of operations over several folder objects, with external deliveries in between",
 "History-dependent cache state; tests check single operations on a freshly opened folder.",
 MD,["maildirFolder::expunge/setMessageFlags/getStatus/scanFolder","maildirMessage::fetch/extractImpl"],["m_messageInfos","m_messages","m_messageCount"],["message objects vs. model"])
p("M05","Maildir folder operations touch only the addressed folder tree",
 "Creating, renaming, deleting and listing folders in a maildir store (KMail or Courier layout) act on exactly the addressed folder and its descendants: sibling folders, including ones whose names share a prefix, keep all their messages; a rename moves the whole subtree with its messages or throws; listing shows exactly the existing sub-folders, with the names they were created with. "
 "An operation interrupted by an I/O error never destroys messages of folders it was not asked to delete.",
 ["inputs","histories","fault sequences"],"every folder tree, name (including non-ASCII, dots, prefixes of one another) and operation sequence, with failing system calls",
 "Name/prefix interactions and mid-operation failures form an unbounded space.",
 ["src/vmime/net/maildir/format/courierMaildirFormat.cpp","src/vmime/net/maildir/format/kmailMaildirFormat.cpp","src/vmime/net/maildir/maildirFolder.cpp","src/vmime/net/maildir/maildirStore.cpp","src/vmime/utility/path.cpp"],["courierMaildirFormat::listDirectories/renameFolder/destroyFolder","kmailMaildirFormat::renameFolder","maildirUtils::recursiveFSDelete"],None,["directory tree on the simulated disk"])
p("F01","File streams transfer everything or report an error",
 "Writing to a file through vmime's file API stores exactly the bytes written, in order, or throws; reading returns exactly the file's bytes and reports the end of file only at the end; short transfers and interrupted calls are completed transparently and genuine errors (disk full, I/O error, descriptor exhaustion) always surface; data whose flush() returned survives a crash. "
 "Renaming never overwrites an existing file and leaves either the old or the new name, and failing operations leave no stray files or open descriptors behind. A file attached to a message arrives at whoever parses that message with the file's bytes and the name, type, size, description and dates it was given.",
 ["fault sequences","inputs"],"every pattern of short transfers, EINTR and failing system calls",
 "Short transfers and errors are decided by the kernel.",
 ["src/vmime/platforms/posix/posixFile.cpp","src/vmime/utility/streamUtils.cpp"],["posixFileWriterOutputStream::writeImpl","posixFileReaderInputStream::read/skip/seek","posixFile::rename/createFile/remove"],["file descriptors"],["simulated disk contents"])
p("F02","The sendmail transport hands over the whole message or fails",
 "Sending through the local sendmail program passes exactly the envelope sender and recipients as arguments and exactly the message content (with LF line ends) on its standard input, whatever the pipe's capacity and the program's reading pace; send() returns normally only if the program accepted all of it and exited with status 0, and otherwise throws; a program that stops reading early cannot kill the calling process. "
 "No child process or pipe descriptor is left behind.",
 ["schedules","fault sequences"],"every pipe back-pressure pattern, interruption, early exit, signal or failure status of the child, and fork/exec failure",
 "Needs a child process whose pace, exit and pipe capacity are controlled.",
 ["src/vmime/platforms/posix/posixChildProcess.cpp","src/vmime/net/sendmail/sendmailTransport.cpp","src/vmime/utility/filteredStream.cpp"],["posixChildProcess::start/waitForFinish","outputStreamPosixPipeAdapter::writeImpl","CRLFToLFFilteredOutputStream"],["pipes","child status"],["bytes and arguments received by the simulated program"])
p("F03","The streams of a child process carry exactly what was written",
 "A program started through the child process interface, with its standard input, its standard output, both or none redirected, is executed once with exactly the given arguments; what it writes to its standard output is what the caller reads, in order and with the end of the stream after the last byte; what the caller writes is what it reads; neither direction is mixed with the other one. waitForFinish() returns normally only if the program ended with status 0, and throws otherwise. "
 "Interrupted and partial transfers are completed transparently, a program which ends early cannot kill the calling process, and no pipe descriptor or blocked signal is left behind.",
 ["schedules","fault sequences"],"every pace and pipe capacity, interruption, early end, failure status and fork/pipe/exec failure, for every combination of redirected streams",
 "Needs a child process whose pace, exit, output and pipe capacity are controlled.",
 ["src/vmime/platforms/posix/posixChildProcess.cpp","src/vmime/utility/childProcess.hpp"],["posixChildProcess::start/waitForFinish/getStdIn/getStdOut","inputStreamPosixPipeAdapter","outputStreamPosixPipeAdapter"],["pipes","child status"],["bytes and arguments exchanged with the simulated program"])
p("C01","Encoders, filters and charset conversion do not depend on chunking",
 "The output of every transfer encoder and decoder (base64, quoted-printable, uuencode, 7bit/8bit/binary), of every stream filter (dot-stuffing, line-end conversion, stop sequence) and of stream charset conversion depends only on the concatenation of the input, not on how sources and sinks split it, and decoding an encoded stream yields the original bytes. "
 "Encoded text is well formed: lines stay within the maximum length, line ends are CRLF, and the size estimates are upper bounds. Damaged encoded data decodes to the same result however it is delivered, without reading or writing out of bounds. "
 "The stream adapters and copy functions deliver exactly the bytes of the range asked for. An exception or failure of the source or the sink always propagates, and progress callbacks are ordered (start, non-decreasing progress, stop).",
 ["inputs","I/O segmentations","fault sequences"],"every byte string and every partition of it into reads and writes, with a failing source or sink at any point",
 "Chunk boundaries inside multi-byte units are the failure surface; tests use whole strings or a few splits.",
 ["src/vmime/utility/encoder/b64Encoder.cpp","src/vmime/utility/encoder/qpEncoder.cpp","src/vmime/utility/encoder/uuEncoder.cpp","src/vmime/utility/filteredStream.cpp","src/vmime/charsetConverter_icu.cpp","src/vmime/utility/streamUtils.cpp"],["*Encoder::encode/decode","*FilteredOutputStream::writeImpl","charsetFilteredOutputStream_icu::writeImpl/flush"],["carry-over state between chunks"],["output bytes"])
p("C02","Messages survive generation to and parsing from imperfect I/O",
 "Generating a message to a stream or file and parsing it back (from memory or from a file whose contents are read lazily) yields the same header fields, part structure and decoded part contents, including attachments whose data comes from files, however reads and writes are split; parsing the same bytes through any read segmentation gives the same message; a message which is edited after being parsed (parts added, removed, moved, re-encoded or taken from other messages, messages and files attached) generates exactly the edited message. "
 "If a source (attachment file) or the destination fails part-way, generation or extraction throws: it never completes normally with missing or altered content. If memory runs out anywhere in parsing, reading, editing or generating, the operation throws, and it succeeds with the right result when repeated.",
 ["inputs","I/O segmentations","fault sequences"],"every message (nested multiparts, encodings, attachments), every partition of the I/O, and a failure at any I/O call",
 "Parser buffering and lazy extraction depend on read boundaries; tests parse from complete strings.",
 ["src/vmime/body.cpp","src/vmime/bodyPart.cpp","src/vmime/component.cpp","src/vmime/utility/parserInputStreamAdapter.cpp","src/vmime/utility/seekableInputStreamRegionAdapter.cpp","src/vmime/streamContentHandler.cpp","src/vmime/fileContentHandler.cpp","src/vmime/parsedMessageAttachment.cpp"],["parserInputStreamAdapter::findNext/extract","body::parseImpl","contentHandler::extract/generate"],["buffered stream positions"],["parsed message model"])
p("U01","Generated identifiers never repeat",
 "Message-IDs, MIME boundaries and maildir file names produced by any number of threads, processes and restarts on a host do not repeat, even when many are generated within one clock tick, the clock steps backwards or a process id is reused; and generating one always terminates. "
 "A boundary never occurs as a delimiter line inside the parts it separates.",
 ["interleavings","clock behaviours","random seeds"],"every interleaving of generating threads/processes, every clock step and every random seed",
 "Collisions depend on schedule, clock and seed.",
 ["src/vmime/messageId.cpp","src/vmime/body.cpp","src/vmime/net/maildir/maildirUtils.cpp","src/vmime/utility/random.cpp"],["messageId::generateId","body::generateRandomBoundaryString","maildirUtils::generateId","random::getNext/getString"],["shared generator state"],["set of generated identifiers"])
p("L01","Services and their folders and messages survive any order of shutdown",
 "Closing, disconnecting, losing the connection of, and destroying services, folders, messages and sockets in any order, from any state, also from within event listeners, is safe: operations on an object whose store or folder is gone throw an exception instead of touching freed state, destructors never throw or crash, every connection is closed and a service can be connected again and then works normally. "
 "A session that ends by disconnect() tells the server (QUIT/LOGOUT) when the connection is still usable.",
 ["histories","fault sequences"],"every order of close/disconnect/destroy/reconnect over stores, folders and messages, with the connection lost at any point",
 "Lifetime histories with faults; tests destroy objects in one benign order.",
 ["src/vmime/net/imap/IMAPStore.cpp","src/vmime/net/imap/IMAPFolder.cpp","src/vmime/net/imap/IMAPMessage.cpp","src/vmime/net/pop3/POP3Store.cpp","src/vmime/net/pop3/POP3Folder.cpp","src/vmime/net/maildir/maildirStore.cpp","src/vmime/net/maildir/maildirFolder.cpp","src/vmime/net/smtp/SMTPTransport.cpp"],["onStoreDisconnected/onClose/onFolderClosed","register/unregister of folders and messages","destructors"],["back pointers"],["exceptions and process survival under AddressSanitizer"])
p("E01","A composed message is what its reader gets, and the receipt and the answer find their way back",
 "A message composed with the message builder, submitted through SMTP (again after failed attempts), and collected from a POP3, IMAP or maildir mailbox shows its reader the author, recipients, subject, text (plain and HTML) and attachments (name, type, description, content) that were composed, the date at which it was made, the identifier it was given, and no trace of blind copies; it goes to exactly the recipients named, at least one copy arrives once the submission succeeded, and every copy the server took is complete. "
 "A requested disposition notification is offered to the reader with its recipient, confirmation is asked for exactly when the request has several recipients or another one than the return path, and the notification which comes back is recognized as such and names the original message, the disposition, the recipient it is issued for and the given texts. An answer carries the identifiers of the thread, and a forwarded message reaches its new reader complete.",
 ["inputs","schedules","fault sequences"],"every message, every segmentation, temporary refusal, lost connection and retry on the way, every kind of mailbox, any passing of time or jump of the clock",
 "Several parties, clocks, retries and stores take part; unit tests look at one step with one message.",
 ["src/vmime/messageBuilder.cpp","src/vmime/messageParser.cpp","src/vmime/mdn/MDNHelper.cpp","src/vmime/mdn/receivedMDNInfos.cpp","src/vmime/disposition.cpp","src/vmime/net/transport.cpp","src/vmime/messageIdSequence.cpp","src/vmime/dateTime.cpp"],["messageBuilder::construct","transport::send/processHeader","MDNHelper::*","messageParser::parse"],["headers and parts in transit"],["messages accepted by the SMTP server","messages read from the mailbox"])
p("W01","Values given by the application are data, never protocol",
 "Whatever bytes an application passes as a value (user names, passwords, envelope addresses, delivery status options, folder names, search strings, header names), SMTP, POP3 and IMAP servers receive exactly that value in exactly the commands the operation stands for, quoted, escaped or encoded as the protocol requires; a value that cannot be expressed, such as one with a line break in an IMAP or POP3 login, makes the operation throw without sending any of it. "
 "No part of a value is ever read by the server as another command, argument or parameter, and the session works on afterwards.",
 ["inputs","histories","server feature sets"],"every value, every position it can be given in, every feature set (with and without SMTPUTF8, pipelining, APOP), within a history of other operations on the same connection",
 "Whether a value stays inside its command shows only in a whole dialogue with a server that parses strictly and keeps state; tests compare a few command strings.",
 ["src/vmime/net/smtp/SMTPCommand.cpp","src/vmime/net/pop3/POP3Command.cpp","src/vmime/net/imap/IMAPCommand.cpp","src/vmime/net/imap/IMAPUtils.cpp","src/vmime/net/imap/IMAPSearchAttributes.cpp"],["SMTPCommand::MAIL/RCPT","POP3Command::USER/PASS/APOP","IMAPUtils::quoteString","IMAPUtils::toModifiedUTF7"],None,["commands as parsed by the server","accepted logins, messages, mailboxes"])
p("X01","Header fields, addresses and words round-trip through text",
 "Generating the text of any header field value (addresses, dates, encoded words, parameters, dispositions) and parsing it back gives an equal value.",
 ["inputs"],"every value of every header field type",
 "Unbounded input space.",
 ["src/vmime/word.cpp","src/vmime/mailbox.cpp","src/vmime/parameter.cpp","src/vmime/dateTime.cpp","src/vmime/emailAddress.cpp"],["parseImpl/generateImpl of each value type"],None,["parsed value"])
p("X02","Time zone and calendar arithmetic is exact",
 "Converting a date between time zones and universal time and comparing dates agrees with the proleptic Gregorian calendar.",
 ["inputs"],"every date and zone","Unbounded input space.",
 ["src/vmime/utility/datetimeUtils.cpp","src/vmime/dateTime.cpp"],["datetimeUtils::toUniversalTime/toLocalTime"],None,["datetime value"])
p("X03","URLs and paths encode and decode without loss",
 "Building a URL or path from components and parsing it back gives the same components, and no component can escape its position.",
 ["inputs"],"every component string","Unbounded input space.",
 ["src/vmime/utility/url.cpp","src/vmime/utility/path.cpp","src/vmime/utility/urlUtils.cpp"],["url::parse/build"],None,["components"])
for x in P: print(json.dumps(x))
