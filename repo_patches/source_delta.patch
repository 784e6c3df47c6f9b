From 5df75fcfd775bac4f4417e3b45635617b2b85ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 01/86] fix: dot-stuff a leading dot in SMTP content, and do
 not depend on how the content is split into writes

---
 src/vmime/net/smtp/SMTPTransport.cpp |  2 +-
 src/vmime/utility/filteredStream.cpp | 18 ++++++++++--------
 src/vmime/utility/filteredStream.hpp |  6 +++++-
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index e557137..937cb4a 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -409,7 +409,7 @@ void SMTPTransport::send(
 	// Send the message data
 	// Stream copy with "\n." to "\n.." transformation
 	utility::outputStreamSocketAdapter sos(*m_connection->getSocket());
-	utility::dotFilteredOutputStream fos(sos);
+	utility::dotFilteredOutputStream fos(sos, /* startOfLine */ true);
 
 	utility::bufferedStreamCopy(is, fos, size, progress);
 
diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index d5ec17b..911867e 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -130,10 +130,11 @@ size_t dotFilteredInputStream::skip(const size_t /* count */) {
 
 // dotFilteredOutputStream
 
-dotFilteredOutputStream::dotFilteredOutputStream(outputStream& os)
+dotFilteredOutputStream::dotFilteredOutputStream(outputStream& os, const bool startOfLine)
 	: m_stream(os),
-	  m_previousChar('\0'),
-	  m_start(true) {
+	  m_previousChar(startOfLine ? '\n' : '\0'),
+	  m_start(!startOfLine),
+	  m_pendingDot(false) {
 
 }
 
@@ -154,15 +155,14 @@ void dotFilteredOutputStream::writeImpl(const byte_t* const data, const size_t c
 	const byte_t* end = data + count;
 	const byte_t* start = data;
 
-	if (m_previousChar == '.') {
+	if (m_pendingDot) {
 
+		// The content begins with a <DOT>, which ended the previous buffer
 		if (data[0] == '\n' || data[0] == '\r') {
-
 			m_stream.write(".", 1);  // extra <DOT>
-			m_stream.write(data, 1);
-
-			pos = data + 1;
 		}
+
+		m_pendingDot = false;
 	}
 
 	// Replace "\n." with "\n.."
@@ -181,6 +181,8 @@ void dotFilteredOutputStream::writeImpl(const byte_t* const data, const size_t c
 
 			m_stream.write(start, pos - start);
 
+			m_pendingDot = (pos + 1 == end);
+
 			if (pos + 1 < end && (*(pos + 1) == '\n' || *(pos + 1) == '\r')) {
 				m_stream.write("..", 2);
 			} else {
diff --git a/src/vmime/utility/filteredStream.hpp b/src/vmime/utility/filteredStream.hpp
index 2414c54..daf2273 100644
--- a/src/vmime/utility/filteredStream.hpp
+++ b/src/vmime/utility/filteredStream.hpp
@@ -108,8 +108,11 @@ public:
 	/** Construct a new filter for the specified output stream.
 	  *
 	  * @param os stream into which write filtered data
+	  * @param startOfLine set to true if the content begins at the start
+	  * of a line, ie. if a <DOT> at the very beginning of the content has
+	  * to be escaped whatever follows it
 	  */
-	dotFilteredOutputStream(outputStream& os);
+	dotFilteredOutputStream(outputStream& os, const bool startOfLine = false);
 
 	outputStream& getNextOutputStream();
 
@@ -126,6 +129,7 @@ private:
 	outputStream& m_stream;
 	byte_t m_previousChar;
 	bool m_start;
+	bool m_pendingDot;
 };
 
 
-- 
2.43.0


From e2a41ec366836b9e506358fbfa77d79510457a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 02/86] fix: keep SMTP client and server in step after a
 rejected or failed send

---
 src/vmime/net/smtp/SMTPTransport.cpp | 261 +++++++++++++++++++--------
 src/vmime/net/smtp/SMTPTransport.hpp |  14 ++
 2 files changed, 195 insertions(+), 80 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index 937cb4a..526b6cd 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -148,15 +148,39 @@ void SMTPTransport::disconnect() {
 }
 
 
+void SMTPTransport::abandonConnection() {
+
+	try {
+
+		if (isConnected()) {
+			disconnect();
+		}
+
+	} catch (...) {
+
+		// The connection is being dropped because of another error
+	}
+}
+
+
 void SMTPTransport::noop() {
 
 	if (!isConnected()) {
 		throw exceptions::not_connected();
 	}
 
-	m_connection->sendRequest(SMTPCommand::NOOP());
+	shared_ptr <SMTPResponse> resp;
 
-	shared_ptr <SMTPResponse> resp = m_connection->readResponse();
+	try {
+
+		m_connection->sendRequest(SMTPCommand::NOOP());
+		resp = m_connection->readResponse();
+
+	} catch (...) {
+
+		abandonConnection();
+		throw;
+	}
 
 	if (resp->getCode() != 250) {
 		throw SMTPCommandError("NOOP", resp->getText(), resp->getCode(), resp->getEnhancedCode());
@@ -274,71 +298,53 @@ void SMTPTransport::sendEnvelope(
 		commands->addCommand(SMTPCommand::DATA());
 	}
 
-	// Read response for "RSET" command
-	if (needReset) {
-
-		commands->writeToSocket(m_connection->getSocket(), m_connection->getTracer());
+	// Number of replies to expect for the commands which have been sent
+	size_t pendingReplies = 0;
+	// Whether all replies to commands sent so far can still be read
+	bool inSync = true;
 
-		resp = m_connection->readResponse();
-
-		if (resp->getCode() != 250 &&
-		    resp->getCode() != 200) {   // RFC-876: << In reply to a RSET and/or a NOOP command,
-		                                //             some servers reply "200" >>
+	const auto sendNextCommand = [&]() {
 
-			disconnect();
-
-			throw SMTPCommandError(
-				commands->getLastCommandSent()->getText(), resp->getText(),
-				resp->getCode(), resp->getEnhancedCode()
-			);
+		if (!hasPipelining) {
+			pendingReplies = 1;
+		} else if (commands->getLastCommandSent() == nullptr) {
+			pendingReplies = (needReset ? 1 : 0) + 1 + recipients.getMailboxCount() + (sendDATACommand ? 1 : 0);
 		}
-	}
 
-	// Read response for "MAIL" command
-	commands->writeToSocket(m_connection->getSocket(), m_connection->getTracer());
+		inSync = false;
 
-	if ((resp = m_connection->readResponse())->getCode() != 250) {
-		auto code = resp->getCode();
+		commands->writeToSocket(m_connection->getSocket(), m_connection->getTracer());
+		shared_ptr <SMTPResponse> reply = m_connection->readResponse();
 
-		// SIZE extension: insufficient system storage
-		if (code == 452) {
+		inSync = true;
+		--pendingReplies;
 
-			throw SMTPMessageSizeExceedsCurLimitsException(
-				SMTPCommandError(
-					commands->getLastCommandSent()->getText(), resp->getText(),
-					code, resp->getEnhancedCode()
-				)
-			);
-
-		// SIZE extension: message size exceeds fixed maximum message size
-		} else if (code == 552) {
+		return reply;
+	};
 
-			throw SMTPMessageSizeExceedsMaxLimitsException(
-				SMTPCommandError(
-					commands->getLastCommandSent()->getText(), resp->getText(),
-					code, resp->getEnhancedCode()
-				 )
-			);
+	try {
 
-		// Other error
-		} else {
+		// Read response for "RSET" command
+		if (needReset) {
 
-			throw SMTPCommandError(
-				commands->getLastCommandSent()->getText(), resp->getText(),
-				code, resp->getEnhancedCode()
-			);
-		}
-	}
+			resp = sendNextCommand();
 
-	// Read responses for "RCPT TO" commands
-	for (size_t i = 0 ; i < recipients.getMailboxCount() ; ++i) {
+			if (resp->getCode() != 250 &&
+			    resp->getCode() != 200) {   // RFC-876: << In reply to a RSET and/or a NOOP command,
+			                                //             some servers reply "200" >>
 
-		commands->writeToSocket(m_connection->getSocket(), m_connection->getTracer());
+				disconnect();
 
-		resp = m_connection->readResponse();
-		auto code = resp->getCode();
+				throw SMTPCommandError(
+					commands->getLastCommandSent()->getText(), resp->getText(),
+					resp->getCode(), resp->getEnhancedCode()
+				);
+			}
+		}
 
-		if (code != 250 && code != 251) {
+		// Read response for "MAIL" command
+		if ((resp = sendNextCommand())->getCode() != 250) {
+			auto code = resp->getCode();
 
 			// SIZE extension: insufficient system storage
 			if (code == 452) {
@@ -357,7 +363,7 @@ void SMTPTransport::sendEnvelope(
 					SMTPCommandError(
 						commands->getLastCommandSent()->getText(), resp->getText(),
 						code, resp->getEnhancedCode()
-					)
+					 )
 				);
 
 			// Other error
@@ -369,22 +375,96 @@ void SMTPTransport::sendEnvelope(
 				);
 			}
 		}
+
+		// Read responses for "RCPT TO" commands
+		for (size_t i = 0 ; i < recipients.getMailboxCount() ; ++i) {
+
+			resp = sendNextCommand();
+			auto code = resp->getCode();
+
+			if (code != 250 && code != 251) {
+
+				// SIZE extension: insufficient system storage
+				if (code == 452) {
+
+					throw SMTPMessageSizeExceedsCurLimitsException(
+						SMTPCommandError(
+							commands->getLastCommandSent()->getText(), resp->getText(),
+							code, resp->getEnhancedCode()
+						)
+					);
+
+				// SIZE extension: message size exceeds fixed maximum message size
+				} else if (code == 552) {
+
+					throw SMTPMessageSizeExceedsMaxLimitsException(
+						SMTPCommandError(
+							commands->getLastCommandSent()->getText(), resp->getText(),
+							code, resp->getEnhancedCode()
+						)
+					);
+
+				// Other error
+				} else {
+
+					throw SMTPCommandError(
+						commands->getLastCommandSent()->getText(), resp->getText(),
+						code, resp->getEnhancedCode()
+					);
+				}
+			}
+		}
+
+		// Read response for "DATA" command
+		if (sendDATACommand) {
+
+			auto resp = sendNextCommand();
+			auto code = resp->getCode();
+
+			if (code != 354) {
+
+				throw SMTPCommandError(
+					commands->getLastCommandSent()->getText(), resp->getText(),
+					code, resp->getEnhancedCode()
+				);
+			}
+		}
+
+	} catch (...) {
+
+		if (!inSync) {
+			abandonConnection();
+		} else {
+			discardPipelinedReplies(pendingReplies, sendDATACommand);
+		}
+
+		throw;
 	}
+}
 
-	// Read response for "DATA" command
-	if (sendDATACommand) {
 
-		commands->writeToSocket(m_connection->getSocket(), m_connection->getTracer());
-		auto resp = m_connection->readResponse();
-		auto code = resp->getCode();
+void SMTPTransport::discardPipelinedReplies(const size_t count, const bool expectDATAReply) {
 
-		if (code != 354) {
+	if (count == 0 || !isConnected()) {
+		return;
+	}
+
+	try {
+
+		int code = 0;
+
+		for (size_t i = 0 ; i < count ; ++i) {
+			code = m_connection->readResponse()->getCode();
+		}
 
-			throw SMTPCommandError(
-				commands->getLastCommandSent()->getText(), resp->getText(),
-				code, resp->getEnhancedCode()
-			);
+		// The server is waiting for the contents of a message we won't send
+		if (expectDATAReply && code == 354) {
+			abandonConnection();
 		}
+
+	} catch (...) {
+
+		abandonConnection();
 	}
 }
 
@@ -406,24 +486,36 @@ void SMTPTransport::send(
 	// Send message envelope
 	sendEnvelope(expeditor, recipients, sender, /* sendDATACommand */ true, size, options);
 
-	// Send the message data
-	// Stream copy with "\n." to "\n.." transformation
-	utility::outputStreamSocketAdapter sos(*m_connection->getSocket());
-	utility::dotFilteredOutputStream fos(sos, /* startOfLine */ true);
+	shared_ptr <SMTPResponse> resp;
+
+	try {
+
+		// Send the message data
+		// Stream copy with "\n." to "\n.." transformation
+		utility::outputStreamSocketAdapter sos(*m_connection->getSocket());
+		utility::dotFilteredOutputStream fos(sos, /* startOfLine */ true);
+
+		utility::bufferedStreamCopy(is, fos, size, progress);
 
-	utility::bufferedStreamCopy(is, fos, size, progress);
+		fos.flush();
 
-	fos.flush();
+		// Send end-of-data delimiter
+		m_connection->getSocket()->send("\r\n.\r\n");
+
+		if (m_connection->getTracer()) {
+			m_connection->getTracer()->traceSendBytes(size);
+			m_connection->getTracer()->traceSend(".");
+		}
 
-	// Send end-of-data delimiter
-	m_connection->getSocket()->send("\r\n.\r\n");
+		resp = m_connection->readResponse();
+
+	} catch (...) {
 
-	if (m_connection->getTracer()) {
-		m_connection->getTracer()->traceSendBytes(size);
-		m_connection->getTracer()->traceSend(".");
+		// The server did not get the whole message, or its reply was lost
+		abandonConnection();
+		throw;
 	}
 
-	shared_ptr <SMTPResponse> resp = m_connection->readResponse();
 	auto code = resp->getCode();
 
 	if (code != 250) {
@@ -474,12 +566,21 @@ void SMTPTransport::send(
 
 	sendEnvelope(expeditor, recipients, sender, /* sendDATACommand */ false, msgSize, options);
 
-	// Send the message by chunks
-	SMTPChunkingOutputStreamAdapter chunkStream(m_connection, msgSize, progress);
+	try {
+
+		// Send the message by chunks
+		SMTPChunkingOutputStreamAdapter chunkStream(m_connection, msgSize, progress);
+
+		msg->generate(ctx, chunkStream);
 
-	msg->generate(ctx, chunkStream);
+		chunkStream.flush();
 
-	chunkStream.flush();
+	} catch (...) {
+
+		// The server did not get the whole message, or its replies were lost
+		abandonConnection();
+		throw;
+	}
 }
 
 
diff --git a/src/vmime/net/smtp/SMTPTransport.hpp b/src/vmime/net/smtp/SMTPTransport.hpp
index 6dc118a..fdd172d 100644
--- a/src/vmime/net/smtp/SMTPTransport.hpp
+++ b/src/vmime/net/smtp/SMTPTransport.hpp
@@ -121,6 +121,20 @@ private:
 		const sendOptions& options = sendOptions()
 	);
 
+	/** Read and ignore the replies to pipelined commands, after one of
+	  * the previous commands has been rejected.
+	  *
+	  * @param count number of replies to read
+	  * @param expectDATAReply if true, the last of these replies is the
+	  * one to a DATA command
+	  */
+	void discardPipelinedReplies(const size_t count, const bool expectDATAReply);
+
+	/** Drop the connection, when it is no longer possible to know to which
+	  * command the next reply will be. Does not throw.
+	  */
+	void abandonConnection();
+
 
 	shared_ptr <SMTPConnection> m_connection;
 
-- 
2.43.0


From 4cb8d06981428ffcb643f8e0c6d30fd13f39393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 03/86] fix: discard clear-text data received after the SMTP
 STARTTLS response

---
 src/vmime/net/smtp/SMTPConnection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 07d0376..bf94b97 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -573,6 +573,9 @@ void SMTPConnection::startTLS() {
 
 		m_socket = tlsSocket;
 
+		// Discard anything received in clear after the response to STARTTLS
+		m_responseState = SMTPResponse::state();
+
 		m_secured = true;
 		m_cntInfos = make_shared <tls::TLSSecuredConnectionInfos>(
 			m_cntInfos->getHost(), m_cntInfos->getPort(), tlsSession, tlsSocket
-- 
2.43.0


From 4f21379cfea0a09bd6e038601fc84421919686c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 04/86] fix: name resolution and connection set-up in
 posixSocket (interrupted calls, abandoned requests, next address, IPv6 peer
 address)

---
 src/vmime/platforms/posix/posixSocket.cpp | 115 +++++++++++++++++-----
 1 file changed, 91 insertions(+), 24 deletions(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index c0ce0cf..e678f5c 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -47,6 +47,8 @@
 #include <stdio.h>
 #include <poll.h>
 
+#include <memory>
+
 #include "vmime/utility/stringUtils.hpp"
 
 #include "vmime/exception.hpp"
@@ -141,15 +143,16 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 
 	// Connect to host
 	int sock = -1;
-	int connectErrno = 0;
+	int connectErrno = ETIMEDOUT;
+	bool cancelled = false;
 
 	if (m_timeoutHandler != NULL) {
 		m_timeoutHandler->resetTimeOut();
 	}
 
 	for (struct ::addrinfo* curAddrInfo = addrInfo ;
-	     sock == -1 && curAddrInfo != NULL ;
-	     curAddrInfo = curAddrInfo->ai_next, connectErrno = ETIMEDOUT) {
+	     sock == -1 && !cancelled && curAddrInfo != NULL ;
+	     curAddrInfo = curAddrInfo->ai_next) {
 
 		if (curAddrInfo->ai_family != AF_INET && curAddrInfo->ai_family != AF_INET6) {
 			continue;
@@ -232,7 +235,7 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 					// Success
 					if (ret > 0) {
 
-						if (fds[0].revents & (POLLIN | POLLOUT)) {
+						if (fds[0].revents != 0) {
 
 							int error = 0;
 							socklen_t len = sizeof(error);
@@ -254,7 +257,7 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 						break;
 
 					// Error
-					} else if (ret < -1) {
+					} else if (ret < 0) {
 
 						if (errno != EAGAIN && errno != EINTR) {
 
@@ -271,6 +274,7 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 
 							// Cancel connection
 							connectErrno = ETIMEDOUT;
+							cancelled = true;
 							break;
 
 						} else {
@@ -288,7 +292,8 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 					gettimeofday(&curTime, /* timezone */ NULL);
 
 					if (curAddrInfo->ai_next != NULL &&
-						curTime.tv_usec - startTime.tv_usec >= tryNextTimeout * 1000) {
+						(curTime.tv_sec - startTime.tv_sec) * 1000 +
+						(curTime.tv_usec - startTime.tv_usec) / 1000 >= tryNextTimeout) {
 
 						connectErrno = ETIMEDOUT;
 						break;
@@ -396,6 +401,64 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 }
 
 
+#if VMIME_HAVE_GETADDRINFO_A
+
+namespace {
+
+// An asynchronous name resolution request. As the resolver may use the
+// request until it is completed, it can not be allocated on the stack
+// of a function which may return before that (when a time-out occurs).
+struct asyncResolveRequest {
+
+	asyncResolveRequest(
+		const std::string& address_,
+		const std::string& service_,
+		const struct ::addrinfo& hints_
+	)
+		: address(address_),
+		  service(service_),
+		  hints(hints_),
+		  started(false) {
+
+		memset(&gaiRequest, 0, sizeof(gaiRequest));
+
+		gaiRequest.ar_name = address.c_str();
+		gaiRequest.ar_service = service.c_str();
+		gaiRequest.ar_request = &hints;
+	}
+
+	const std::string address;
+	const std::string service;
+	const struct ::addrinfo hints;
+	struct ::gaicb gaiRequest;
+	bool started;
+};
+
+struct asyncResolveRequestDeleter {
+
+	void operator()(asyncResolveRequest* req) const {
+
+		if (req->started) {
+
+			if (::gai_cancel(&req->gaiRequest) == EAI_NOTCANCELED) {
+				// Still used by the resolver: it can not be freed
+				return;
+			}
+
+			if (::gai_error(&req->gaiRequest) == 0 && req->gaiRequest.ar_result) {
+				::freeaddrinfo(req->gaiRequest.ar_result);
+			}
+		}
+
+		delete req;
+	}
+};
+
+}
+
+#endif // VMIME_HAVE_GETADDRINFO_A
+
+
 void posixSocket::resolve(
 	struct ::addrinfo** addrInfo,
 	const vmime::string& address,
@@ -418,14 +481,11 @@ void posixSocket::resolve(
 	// If getaddrinfo_a() is available, use asynchronous resolving to allow
 	// the timeout handler to cancel the operation
 
-	struct ::gaicb gaiRequest;
-	memset(&gaiRequest, 0, sizeof(gaiRequest));
-
-	gaiRequest.ar_name = address.c_str();
-	gaiRequest.ar_service = portStr;
-	gaiRequest.ar_request = &hints;
+	std::unique_ptr <asyncResolveRequest, asyncResolveRequestDeleter> request(
+		new asyncResolveRequest(address, portStr, hints)
+	);
 
-	struct ::gaicb* gaiRequests = &gaiRequest;
+	struct ::gaicb* gaiRequests = &request->gaiRequest;
 	int gaiError;
 
 	if ((gaiError = getaddrinfo_a(GAI_NOWAIT, &gaiRequests, 1, NULL)) != 0) {
@@ -435,6 +495,8 @@ void posixSocket::resolve(
 		);
 	}
 
+	request->started = true;
+
 	if (m_timeoutHandler) {
 		m_timeoutHandler->resetTimeOut();
 	}
@@ -449,7 +511,7 @@ void posixSocket::resolve(
 
 		if (gaiError == 0 || gaiError == EAI_ALLDONE) {
 
-			const int ret = gai_error(&gaiRequest);
+			const int ret = gai_error(&request->gaiRequest);
 
 			if (ret != 0) {
 
@@ -459,15 +521,16 @@ void posixSocket::resolve(
 
 			} else {
 
-				*addrInfo = gaiRequest.ar_result;
+				*addrInfo = request->gaiRequest.ar_result;
+				request->gaiRequest.ar_result = NULL;
 				break;
 			}
 
-		} else if (gaiError != EAI_AGAIN) {
+		} else if (gaiError != EAI_AGAIN && gaiError != EAI_INTR) {
 
 			if (gaiError == EAI_SYSTEM) {
 
-				const int ret = gai_error(&gaiRequest);
+				const int ret = gai_error(&request->gaiRequest);
 
 				if (ret != EAI_INPROGRESS && errno != 0) {
 
@@ -574,17 +637,21 @@ static bool isNumericAddress(const char* address) {
 const string posixSocket::getPeerAddress() const {
 
 	// Get address of connected peer
-	sockaddr peer;
+	sockaddr_storage peer;
 	socklen_t peerLen = sizeof(peer);
 
-	if (getpeername(m_desc, &peer, &peerLen) != 0) {
+	if (getpeername(m_desc, reinterpret_cast <sockaddr*>(&peer), &peerLen) != 0) {
 		throwSocketError(errno);
 	}
 
 	// Convert to numerical presentation format
 	char buf[INET6_ADDRSTRLEN];
 
-	if (!inet_ntop(peer.sa_family, &(reinterpret_cast <struct sockaddr_in *>(&peer))->sin_addr, buf, sizeof(buf))) {
+	const void* addr = (peer.ss_family == AF_INET6)
+		? static_cast <const void*>(&reinterpret_cast <struct sockaddr_in6*>(&peer)->sin6_addr)
+		: static_cast <const void*>(&reinterpret_cast <struct sockaddr_in*>(&peer)->sin_addr);
+
+	if (!inet_ntop(peer.ss_family, addr, buf, sizeof(buf))) {
 		throwSocketError(errno);
 	}
 
@@ -595,10 +662,10 @@ const string posixSocket::getPeerAddress() const {
 const string posixSocket::getPeerName() const {
 
 	// Get address of connected peer
-	sockaddr peer;
+	sockaddr_storage peer;
 	socklen_t peerLen = sizeof(peer);
 
-	if (getpeername(m_desc, &peer, &peerLen) != 0) {
+	if (getpeername(m_desc, reinterpret_cast <sockaddr*>(&peer), &peerLen) != 0) {
 		throwSocketError(errno);
 	}
 
@@ -623,7 +690,7 @@ const string posixSocket::getPeerName() const {
 		struct hostent *hp;
 
 		if ((hp = gethostbyaddr(reinterpret_cast <const void *>(&peer),
-				sizeof(peer), peer.sa_family)) != NULL) {
+				peerLen, peer.ss_family)) != NULL) {
 
 			return string(hp->h_name);
 		}
@@ -744,7 +811,7 @@ size_t posixSocket::receiveRaw(byte_t* buffer, const size_t count) {
 			if (!m_timeoutHandler->handleTimeOut()) {
 
 				// Server did not react within timeout delay
-				throwSocketError(errno);
+				throw exceptions::operation_timed_out();
 
 			} else {
 
-- 
2.43.0


From 8173daa2b7bca2cd5506e5ee79f76be09a48768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 05/86] fix: a TLS connection closed by the peer is an error,
 not an endless absence of data

---
 src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
index 97466fc..c1d0969 100644
--- a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
+++ b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
@@ -101,6 +101,10 @@ void TLSSocket_GnuTLS::connect(const string& address, const port_t port) {
 	} catch (...) {
 
 		disconnect();
+
+		// Not done by disconnect() if the handshake did not complete
+		m_wrapped->disconnect();
+
 		throw;
 	}
 }
@@ -207,7 +211,7 @@ size_t TLSSocket_GnuTLS::receiveRaw(byte_t* buffer, const size_t count) {
 
 	if (ret < 0) {
 
-		if (ret == GNUTLS_E_AGAIN) {
+		if (ret == GNUTLS_E_AGAIN || ret == GNUTLS_E_INTERRUPTED) {
 
 			if (gnutls_record_get_direction(*m_session->m_gnutlsSession) == 0) {
 				m_status |= STATUS_WANT_READ;
@@ -219,6 +223,11 @@ size_t TLSSocket_GnuTLS::receiveRaw(byte_t* buffer, const size_t count) {
 		}
 
 		TLSSession_GnuTLS::throwTLSException("gnutls_record_recv", static_cast <int>(ret));
+
+	} else if (ret == 0 && count != 0) {
+
+		// TLS session has been closed by the peer
+		throw exceptions::socket_exception("TLS connection closed by peer.");
 	}
 
 	return static_cast <size_t>(ret);
@@ -242,7 +251,7 @@ void TLSSocket_GnuTLS::sendRaw(const byte_t* buffer, const size_t count) {
 
 		if (ret < 0) {
 
-			if (ret == GNUTLS_E_AGAIN) {
+			if (ret == GNUTLS_E_AGAIN || ret == GNUTLS_E_INTERRUPTED) {
 
 				if (gnutls_record_get_direction(*m_session->m_gnutlsSession) == 0) {
 					m_wrapped->waitForRead();
@@ -279,7 +288,7 @@ size_t TLSSocket_GnuTLS::sendRawNonBlocking(const byte_t* buffer, const size_t c
 
 	if (ret < 0) {
 
-		if (ret == GNUTLS_E_AGAIN) {
+		if (ret == GNUTLS_E_AGAIN || ret == GNUTLS_E_INTERRUPTED) {
 
 			if (gnutls_record_get_direction(*m_session->m_gnutlsSession) == 0) {
 				m_status |= STATUS_WANT_READ;
-- 
2.43.0


From 3e40f63824b22ec6ba2654ece7128f952c8587ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 06/86] fix: do not time out while the peer keeps accepting
 data

---
 src/vmime/platforms/posix/posixSocket.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index e678f5c..d866fbd 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -880,12 +880,12 @@ void posixSocket::sendRaw(const byte_t* buffer, const size_t count) {
 
 			buffer += ret;
 			size -= ret;
-		}
-	}
 
-	// Reset timeout
-	if (m_timeoutHandler) {
-		m_timeoutHandler->resetTimeOut();
+			// Data sent, reset timeout
+			if (m_timeoutHandler) {
+				m_timeoutHandler->resetTimeOut();
+			}
+		}
 	}
 }
 
-- 
2.43.0


From ee4f10bbf6019ec613ac10f206010275fcc686f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 07/86] fix: POP3: error reply to RETR/TOP, and responses which
 have not been read entirely

---
 src/vmime/net/pop3/POP3Command.cpp  |  22 +++++-
 src/vmime/net/pop3/POP3Response.cpp | 105 ++++++++++++++++++++++++++--
 2 files changed, 121 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Command.cpp b/src/vmime/net/pop3/POP3Command.cpp
index 0e79888..0ddd080 100644
--- a/src/vmime/net/pop3/POP3Command.cpp
+++ b/src/vmime/net/pop3/POP3Command.cpp
@@ -251,7 +251,27 @@ const string POP3Command::getTraceText() const {
 
 void POP3Command::send(const shared_ptr <POP3Connection>& conn) {
 
-	conn->getSocket()->send(m_text + "\r\n");
+	shared_ptr <socket> sok = conn->getSocket();
+
+	if (!sok) {
+		throw exceptions::not_connected();
+	}
+
+	try {
+
+		sok->send(m_text + "\r\n");
+
+	} catch (...) {
+
+		// The command may have been partially sent
+		try {
+			sok->disconnect();
+		} catch (...) {
+			// Ignore
+		}
+
+		throw;
+	}
 
 	if (conn->getTracer()) {
 		conn->getTracer()->traceSend(m_traceText);
diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 725841e..9a7f54c 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -46,6 +46,70 @@ namespace net {
 namespace pop3 {
 
 
+namespace {
+
+
+/** Reads from a socket and keeps a copy of the first line received.
+  */
+class firstLineInputStreamSocketAdapter : public utility::inputStreamSocketAdapter {
+
+public:
+
+	firstLineInputStreamSocketAdapter(net::socket& sok)
+		: inputStreamSocketAdapter(sok),
+		  m_complete(false) {
+
+	}
+
+	size_t read(byte_t* const data, const size_t count) {
+
+		const size_t read = inputStreamSocketAdapter::read(data, count);
+
+		if (!m_complete) {
+
+			const byte_t* end = std::find(data, data + read, '\n');
+
+			utility::stringUtils::appendBytesToString(m_line, data, end - data);
+			m_complete = (end != data + read);
+		}
+
+		return read;
+	}
+
+	bool isLineComplete() const {
+
+		return m_complete;
+	}
+
+	const string getLine() const {
+
+		return utility::stringUtils::trim(m_line);
+	}
+
+private:
+
+	string m_line;
+	bool m_complete;
+};
+
+
+/** Drops a connection on which a response has not been entirely read,
+  * as what remains of it could be mistaken for the response to
+  * another command.
+  */
+void dropConnection(const shared_ptr <socket>& sok) {
+
+	try {
+		sok->disconnect();
+	} catch (...) {
+		// The connection is being dropped because of another error
+	}
+}
+
+
+} // namespace
+
+
 POP3Response::POP3Response(
 	const shared_ptr <socket>& sok,
 	const shared_ptr <timeoutHandler>& toh,
@@ -68,7 +132,13 @@ shared_ptr <POP3Response> POP3Response::readResponse(
 	);
 
 	string buffer;
-	resp->readResponseImpl(buffer, /* multiLine */ false);
+
+	try {
+		resp->readResponseImpl(buffer, /* multiLine */ false);
+	} catch (...) {
+		dropConnection(resp->m_socket);
+		throw;
+	}
 
 	resp->m_firstLine = buffer;
 	resp->m_code = getResponseCode(buffer);
@@ -92,7 +162,13 @@ shared_ptr <POP3Response> POP3Response::readMultilineResponse(
 	);
 
 	string buffer;
-	resp->readResponseImpl(buffer, /* multiLine */ true);
+
+	try {
+		resp->readResponseImpl(buffer, /* multiLine */ true);
+	} catch (...) {
+		dropConnection(resp->m_socket);
+		throw;
+	}
 
 	string firstLine, nextLines;
 	stripFirstLine(buffer, nextLines, &firstLine);
@@ -139,7 +215,16 @@ shared_ptr <POP3Response> POP3Response::readLargeResponse(
 	);
 
 	string firstLine;
-	const size_t length = resp->readResponseImpl(firstLine, os, progress, predictedSize);
+	size_t length = 0;
+
+	try {
+		length = resp->readResponseImpl(firstLine, os, progress, predictedSize);
+	} catch (exceptions::command_error&) {
+		throw;
+	} catch (...) {
+		dropConnection(resp->m_socket);
+		throw;
+	}
 
 	resp->m_firstLine = firstLine;
 	resp->m_code = getResponseCode(firstLine);
@@ -297,7 +382,7 @@ size_t POP3Response::readResponseImpl(
 		m_timeoutHandler->resetTimeOut();
 	}
 
-	utility::inputStreamSocketAdapter sis(*m_socket);
+	firstLineInputStreamSocketAdapter sis(*m_socket);
 	utility::stopSequenceFilteredInputStream <5> sfis1(sis, "\r\n.\r\n");
 	utility::stopSequenceFilteredInputStream <3> sfis2(sfis1, "\n.\n");
 	utility::dotFilteredInputStream dfis(sfis2);   // "\n.." --> "\n."
@@ -312,12 +397,22 @@ size_t POP3Response::readResponseImpl(
 			if (!m_timeoutHandler->handleTimeOut()) {
 				throw exceptions::operation_timed_out();
 			}
+
+			m_timeoutHandler->resetTimeOut();
 		}
 
 		// Receive data from the socket
 		byte_t buffer[65536];
 		const size_t read = is.read(buffer, sizeof(buffer));
 
+		// If there is an error (-ERR), the response includes only one
+		// line: do not wait for the terminator
+		if (!codeDone && sis.isLineComplete() &&
+		    getResponseCode(sis.getLine()) != CODE_OK) {
+
+			throw exceptions::command_error("?", sis.getLine());
+		}
+
 		if (read == 0) {  // buffer is empty
 
 			if (m_socket->getStatus() & socket::STATUS_WANT_WRITE) {
@@ -431,7 +526,7 @@ POP3Response::ResponseCode POP3Response::getResponseCode(const string& buffer) {
 
 			if (buffer[0] == '+' &&
 			    (buffer[1] == 'O' || buffer[1] == 'o') &&
-			    (buffer[2] == 'K' || buffer[1] == 'k')) {
+			    (buffer[2] == 'K' || buffer[2] == 'k')) {
 
 				return CODE_OK;
 			}
-- 
2.43.0


From 9e8f4f09faa70eee361ac5a33b9167b47439b2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 08/86] fix: POP3: keep numbering and deleted state of messages
 in step with the server, detach folders from a lost connection

---
 src/vmime/net/pop3/POP3Connection.cpp |  6 ++++
 src/vmime/net/pop3/POP3Connection.hpp | 11 +++++++
 src/vmime/net/pop3/POP3Folder.cpp     | 41 +++++++++++++++++++++------
 src/vmime/net/pop3/POP3Folder.hpp     |  2 ++
 src/vmime/net/pop3/POP3Message.cpp    | 10 ++++++-
 src/vmime/net/pop3/POP3Store.cpp      | 12 +++++++-
 6 files changed, 72 insertions(+), 10 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index 749f7ef..d6dbd50 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -723,6 +723,12 @@ shared_ptr <timeoutHandler> POP3Connection::getTimeoutHandler() {
 }
 
 
+std::set <size_t>& POP3Connection::getDeletedMessages() {
+
+	return m_deletedMessages;
+}
+
+
 shared_ptr <security::authenticator> POP3Connection::getAuthenticator() {
 
 	return m_auth;
diff --git a/src/vmime/net/pop3/POP3Connection.hpp b/src/vmime/net/pop3/POP3Connection.hpp
index 26b3f3c..6f0561e 100644
--- a/src/vmime/net/pop3/POP3Connection.hpp
+++ b/src/vmime/net/pop3/POP3Connection.hpp
@@ -31,6 +31,8 @@
 #if VMIME_HAVE_MESSAGING_FEATURES && VMIME_HAVE_MESSAGING_PROTO_POP3
 
 
+#include <set>
+
 #include "vmime/messageId.hpp"
 
 #include "vmime/net/socket.hpp"
@@ -87,6 +89,13 @@ public:
 	virtual shared_ptr <session> getSession();
 	virtual shared_ptr <tracer> getTracer();
 
+	/** Return the numbers of the messages which have been marked
+	  * as deleted since the beginning of the POP3 session.
+	  *
+	  * @return sequence numbers of the messages marked as deleted
+	  */
+	std::set <size_t>& getDeletedMessages();
+
 private:
 
 	void authenticate(const messageId& randomMID);
@@ -119,6 +128,8 @@ private:
 
 	std::vector <string> m_capabilities;
 	bool m_capabilitiesFetched;
+
+	std::set <size_t> m_deletedMessages;
 };
 
 
diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index b69a483..05a5a37 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -53,7 +53,8 @@ POP3Folder::POP3Folder(
 	  m_path(path),
 	  m_name(path.isEmpty() ? folder::path::component("") : path.getLastComponent()),
 	  m_mode(-1),
-	  m_open(false) {
+	  m_open(false),
+	  m_messageCount(0) {
 
 	store->registerFolder(this);
 }
@@ -163,6 +164,9 @@ void POP3Folder::open(const int mode, bool failIfModeIsNotAvailable) {
 			throw exceptions::invalid_response("STAT", response->getFirstLine());
 		}
 
+		// Messages marked as deleted are not counted, but message numbers do not change
+		m_messageCount += store->getConnection()->getDeletedMessages().size();
+
 		m_open = true;
 		m_mode = mode;
 
@@ -187,7 +191,15 @@ void POP3Folder::close(const bool expunge) {
 
 	if (!expunge) {
 		POP3Command::RSET()->send(store->getConnection());
-		POP3Response::readResponse(store->getConnection());
+
+		shared_ptr <POP3Response> response =
+			POP3Response::readResponse(store->getConnection());
+
+		if (!response->isSuccess()) {
+			throw exceptions::command_error("RSET", response->getFirstLine());
+		}
+
+		store->getConnection()->getDeletedMessages().clear();
 	}
 
 	m_open = false;
@@ -614,6 +626,8 @@ void POP3Folder::deleteMessages(const messageSet& msgs) {
 		throw exceptions::illegal_state("Folder not open");
 	}
 
+	std::vector <size_t> list;
+
 	for (std::vector <size_t>::const_iterator
 	     it = nums.begin() ; it != nums.end() ; ++it) {
 
@@ -623,16 +637,26 @@ void POP3Folder::deleteMessages(const messageSet& msgs) {
 			POP3Response::readResponse(store->getConnection());
 
 		if (!response->isSuccess()) {
+
+			// Previous messages have been deleted, though
+			if (!list.empty()) {
+				onMessagesDeleted(list);
+			}
+
 			throw exceptions::command_error("DELE", response->getFirstLine());
 		}
+
+		store->getConnection()->getDeletedMessages().insert(*it);
+		list.push_back(*it);
 	}
 
-	// Sort message list
-	std::vector <size_t> list;
+	onMessagesDeleted(list);
+}
+
 
-	list.resize(nums.size());
-	std::copy(nums.begin(), nums.end(), list.begin());
+void POP3Folder::onMessagesDeleted(std::vector <size_t> list) {
 
+	// Sort message list
 	std::sort(list.begin(), list.end());
 
 	// Update local flags
@@ -715,8 +739,6 @@ void POP3Folder::status(size_t& count, size_t& unseen) {
 
 	count = status->getMessageCount();
 	unseen = status->getUnseenCount();
-
-	m_messageCount = count;
 }
 
 
@@ -749,6 +771,9 @@ shared_ptr <folderStatus> POP3Folder::getStatus() {
 	status->setMessageCount(count);
 	status->setUnseenCount(count);
 
+	// Messages marked as deleted are not counted, but message numbers do not change
+	count += store->getConnection()->getDeletedMessages().size();
+
 	// Update local message count
 	if (m_messageCount != count) {
 
diff --git a/src/vmime/net/pop3/POP3Folder.hpp b/src/vmime/net/pop3/POP3Folder.hpp
index 73e29f9..6cdcfdb 100644
--- a/src/vmime/net/pop3/POP3Folder.hpp
+++ b/src/vmime/net/pop3/POP3Folder.hpp
@@ -151,6 +151,8 @@ private:
 
 	void onStoreDisconnected();
 
+	void onMessagesDeleted(std::vector <size_t> list);
+
 	void onClose();
 
 
diff --git a/src/vmime/net/pop3/POP3Message.cpp b/src/vmime/net/pop3/POP3Message.cpp
index 8d6b7f5..40ff194 100644
--- a/src/vmime/net/pop3/POP3Message.cpp
+++ b/src/vmime/net/pop3/POP3Message.cpp
@@ -53,6 +53,14 @@ POP3Message::POP3Message(
 	  m_size(-1),
 	  m_deleted(false) {
 
+	shared_ptr <POP3Store> store = folder->m_store.lock();
+
+	if (store && store->getConnection() &&
+	    store->getConnection()->getDeletedMessages().count(num) != 0) {
+
+		m_deleted = true;
+	}
+
 	folder->registerMessage(this);
 }
 
@@ -158,7 +166,7 @@ void POP3Message::extract(
 		throw exceptions::illegal_state("Store disconnected");
 	}
 
-	if (start != 0 && length != static_cast <size_t>(-1)) {
+	if (start != 0 || length != static_cast <size_t>(-1)) {
 		throw exceptions::partial_fetch_not_supported();
 	}
 
diff --git a/src/vmime/net/pop3/POP3Store.cpp b/src/vmime/net/pop3/POP3Store.cpp
index b06640f..644ce8f 100644
--- a/src/vmime/net/pop3/POP3Store.cpp
+++ b/src/vmime/net/pop3/POP3Store.cpp
@@ -131,6 +131,16 @@ void POP3Store::connect() {
 		throw exceptions::already_connected();
 	}
 
+	// If the previous connection has been lost, numbers of the messages in
+	// the folders are not valid anymore
+	for (std::list <POP3Folder*>::iterator it = m_folders.begin() ;
+	     it != m_folders.end() ; ++it) {
+
+		(*it)->onStoreDisconnected();
+	}
+
+	m_folders.clear();
+
 	m_connection = make_shared <POP3Connection>(
 		dynamicCast <POP3Store>(shared_from_this()), getAuthenticator()
 	);
@@ -199,7 +209,7 @@ void POP3Store::disconnect() {
 
 void POP3Store::noop() {
 
-	if (!m_connection) {
+	if (!isConnected()) {
 		throw exceptions::not_connected();
 	}
 
-- 
2.43.0


From 30bfc8f25641d7dd68d4e3c4b78414395081d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 09/86] fix: POP3: a folder destroyed on a broken connection
 stayed registered in its store

---
 src/vmime/net/pop3/POP3Folder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index 05a5a37..47ce2ec 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -69,7 +69,11 @@ POP3Folder::~POP3Folder() {
 		if (store) {
 
 			if (m_open) {
-				close(false);
+				try {
+					close(false);
+				} catch (...) {
+					// Ignore exception here to make sure unregisterFolder is called
+				}
 			}
 
 			store->unregisterFolder(this);
-- 
2.43.0


From 8a00f83b39d76856ac3d636e41e134ac1a588962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 10/86] fix: assignment of a messageSet shared its ranges,
 which were freed twice

---
 src/vmime/net/messageSet.cpp | 9 +++++++++
 src/vmime/net/messageSet.hpp | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/vmime/net/messageSet.cpp b/src/vmime/net/messageSet.cpp
index fe2d645..be75f4e 100644
--- a/src/vmime/net/messageSet.cpp
+++ b/src/vmime/net/messageSet.cpp
@@ -178,6 +178,15 @@ messageSet::messageSet(const messageSet& other)
 }
 
 
+messageSet& messageSet::operator=(const messageSet& other) {
+
+	messageSet copy(other);
+	m_ranges.swap(copy.m_ranges);
+
+	return *this;
+}
+
+
 messageSet::~messageSet() {
 
 	for (size_t i = 0, n = m_ranges.size() ; i < n ; ++i) {
diff --git a/src/vmime/net/messageSet.hpp b/src/vmime/net/messageSet.hpp
index 848c4c9..0fa6674 100644
--- a/src/vmime/net/messageSet.hpp
+++ b/src/vmime/net/messageSet.hpp
@@ -215,6 +215,8 @@ public:
 
 	messageSet(const messageSet& other);
 
+	messageSet& operator=(const messageSet& other);
+
 	/** Constructs an empty set.
 	  *
 	  * @return new empty message set
-- 
2.43.0


From 28889989c49323e3166caff5f34841e96f7af391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 11/86] fix: IMAP: discard data received in clear before TLS is
 established

---
 src/vmime/net/imap/IMAPConnection.cpp |  5 +++++
 src/vmime/net/imap/IMAPParser.hpp     | 15 +++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 0e4020f..aecda3f 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -163,6 +163,7 @@ void IMAPConnection::connect() {
 	m_socket->connect(address, port);
 
 
+	m_parser->discardReceivedData();
 	m_parser->setSocket(m_socket);
 	m_parser->setTimeoutHandler(m_timeoutHandler);
 
@@ -559,6 +560,10 @@ void IMAPConnection::startTLS() {
 		tlsSocket->handshake();
 
 		m_socket = tlsSocket;
+
+		// Data received in clear after the response to STARTTLS may have
+		// been injected, do not use it as if it had been received securely
+		m_parser->discardReceivedData();
 		m_parser->setSocket(m_socket);
 
 		m_secured = true;
diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 78b7697..8153886 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -289,6 +289,21 @@ public:
 		m_socket = sok;
 	}
 
+	/** Forget everything which has been received but not used yet: nothing
+	  * of it belongs to what will be read from now on (new connection, or
+	  * TLS layer which has just been established on the connection).
+	  */
+	void discardReceivedData() {
+
+		m_buffer.clear();
+
+		for (auto it = m_pendingResponses.begin() ; it != m_pendingResponses.end() ; ++it) {
+			delete it->second;
+		}
+
+		m_pendingResponses.clear();
+	}
+
 	/** Set the timeout handler currently used by this parser.
 	  *
 	  * @param toh timeout handler
-- 
2.43.0


From 2a41a7c2625d01b29cff81e23a4a539a2e807a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 12/86] fix: IMAP: close the connection when reading a response
 or sending a command fails

---
 src/vmime/net/imap/IMAPConnection.cpp | 95 ++++++++++++++++++++++-----
 src/vmime/net/imap/IMAPConnection.hpp |  5 ++
 src/vmime/net/imap/IMAPStore.cpp      | 16 ++++-
 3 files changed, 99 insertions(+), 17 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index aecda3f..785575b 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -301,7 +301,7 @@ void IMAPConnection::authenticate() {
 	shared_ptr <IMAPConnection> conn = dynamicCast <IMAPConnection>(shared_from_this());
 	IMAPCommand::LOGIN(username, password)->send(conn);
 
-	scoped_ptr <IMAPParser::response> resp(m_parser->readResponse(*m_tag));
+	scoped_ptr <IMAPParser::response> resp(readResponse());
 
 	if (resp->isBad()) {
 
@@ -423,7 +423,7 @@ void IMAPConnection::authenticateSASL() {
 
 		for (bool cont = true ; cont ; ) {
 
-			scoped_ptr <IMAPParser::response> resp(m_parser->readResponse(*m_tag));
+			scoped_ptr <IMAPParser::response> resp(readResponse());
 
 			if (resp->response_done &&
 			    resp->response_done->response_tagged &&
@@ -536,7 +536,7 @@ void IMAPConnection::startTLS() {
 
 		IMAPCommand::STARTTLS()->send(dynamicCast <IMAPConnection>(shared_from_this()));
 
-		scoped_ptr <IMAPParser::response> resp(m_parser->readResponse(*m_tag));
+		scoped_ptr <IMAPParser::response> resp(readResponse());
 
 		if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
@@ -648,9 +648,9 @@ void IMAPConnection::fetchCapabilities() {
 
 	IMAPCommand::CAPABILITY()->send(dynamicCast <IMAPConnection>(shared_from_this()));
 
-	scoped_ptr <IMAPParser::response> resp(m_parser->readResponse(*m_tag));
+	scoped_ptr <IMAPParser::response> resp(readResponse());
 
-	if (resp->response_done->response_tagged->
+	if (!resp->isBad() && resp->response_done->response_tagged->
 			resp_cond_state->status == IMAPParser::resp_cond_state::OK) {
 
 		processCapabilityResponseData(resp.get());
@@ -734,16 +734,41 @@ void IMAPConnection::disconnect() {
 }
 
 
+void IMAPConnection::drop() {
+
+	m_state = STATE_NONE;  // do not try to send LOGOUT
+
+	try {
+
+		internalDisconnect();
+
+	} catch (...) {
+
+		// Keep the error that caused the connection to be dropped
+	}
+}
+
+
 void IMAPConnection::internalDisconnect() {
 
 	if (isConnected()) {
 
-		IMAPCommand::LOGOUT()->send(dynamicCast <IMAPConnection>(shared_from_this()));
+		try {
+
+			IMAPCommand::LOGOUT()->send(dynamicCast <IMAPConnection>(shared_from_this()));
+
+		} catch (...) {
+
+			// Connection is lost: close it anyway
+		}
 	}
 
 	if (m_socket) {
-		m_socket->disconnect();
+
+		shared_ptr <socket> sok = m_socket;
 		m_socket = null;
+
+		sok->disconnect();
 	}
 
 	m_timeoutHandler = null;
@@ -759,7 +784,7 @@ void IMAPConnection::initHierarchySeparator() {
 
 	IMAPCommand::LIST("", "")->send(dynamicCast <IMAPConnection>(shared_from_this()));
 
-	scoped_ptr <IMAPParser::response> resp(m_parser->readResponse(*m_tag));
+	scoped_ptr <IMAPParser::response> resp(readResponse());
 
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
@@ -798,17 +823,30 @@ void IMAPConnection::initHierarchySeparator() {
 
 void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 
+	if (!m_socket) {
+		throw exceptions::not_connected();
+	}
+
 	if (!m_firstTag) {
 		++(*m_tag);
 	}
 
-	m_socket->send(*m_tag);
-	m_socket->send(" ");
-	m_socket->send(cmd->getText());
-	m_socket->send("\r\n");
-
 	m_firstTag = false;
 
+	try {
+
+		m_socket->send(*m_tag);
+		m_socket->send(" ");
+		m_socket->send(cmd->getText());
+		m_socket->send("\r\n");
+
+	} catch (...) {
+
+		// Command may have been sent partially
+		drop();
+		throw;
+	}
+
 	if (m_tracer) {
 
 		std::ostringstream oss;
@@ -821,13 +859,40 @@ void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 
 void IMAPConnection::sendRaw(const byte_t* buffer, const size_t count) {
 
-	m_socket->sendRaw(buffer, count);
+	if (!m_socket) {
+		throw exceptions::not_connected();
+	}
+
+	try {
+
+		m_socket->sendRaw(buffer, count);
+
+	} catch (...) {
+
+		// Data may have been sent partially
+		drop();
+		throw;
+	}
 }
 
 
 IMAPParser::response* IMAPConnection::readResponse(IMAPParser::literalHandler* lh) {
 
-	return m_parser->readResponse(*m_tag, lh);
+	if (!m_socket) {
+		throw exceptions::not_connected();
+	}
+
+	try {
+
+		return m_parser->readResponse(*m_tag, lh);
+
+	} catch (...) {
+
+		// What remains to be read of this response would be taken for the
+		// response to another command: this connection can't be used anymore
+		drop();
+		throw;
+	}
 }
 
 
diff --git a/src/vmime/net/imap/IMAPConnection.hpp b/src/vmime/net/imap/IMAPConnection.hpp
index d229d0f..96f2e74 100644
--- a/src/vmime/net/imap/IMAPConnection.hpp
+++ b/src/vmime/net/imap/IMAPConnection.hpp
@@ -160,6 +160,11 @@ private:
 
 	void internalDisconnect();
 
+	/** Close the connection without saying goodbye, after an error which
+	  * has left it in an unknown state.
+	  */
+	void drop();
+
 	void initHierarchySeparator();
 };
 
diff --git a/src/vmime/net/imap/IMAPStore.cpp b/src/vmime/net/imap/IMAPStore.cpp
index be5c4de..86b2b0d 100644
--- a/src/vmime/net/imap/IMAPStore.cpp
+++ b/src/vmime/net/imap/IMAPStore.cpp
@@ -135,7 +135,16 @@ void IMAPStore::connect() {
 		dynamicCast <IMAPStore>(shared_from_this()), getAuthenticator()
 	);
 
-	m_connection->connect();
+	try {
+
+		m_connection->connect();
+
+	} catch (...) {
+
+		// Do not keep a connection which is not usable
+		m_connection = null;
+		throw;
+	}
 }
 
 
@@ -190,8 +199,11 @@ void IMAPStore::disconnect() {
 	m_folders.clear();
 
 	if (m_connection) {
-		m_connection->disconnect();
+
+		shared_ptr <IMAPConnection> connection = m_connection;
 		m_connection = null;
+
+		connection->disconnect();
 	}
 
 	if (!wasConnected) {
-- 
2.43.0


From 9eb3b0fea5fff4bc3ee7bb26a091324ed07ca887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 13/86] fix: IMAP: do not trace credentials

---
 src/vmime/net/imap/IMAPCommand.cpp    | 6 +++++-
 src/vmime/net/imap/IMAPConnection.cpp | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPCommand.cpp b/src/vmime/net/imap/IMAPCommand.cpp
index 256924e..b77f120 100644
--- a/src/vmime/net/imap/IMAPCommand.cpp
+++ b/src/vmime/net/imap/IMAPCommand.cpp
@@ -81,7 +81,11 @@ shared_ptr <IMAPCommand> IMAPCommand::AUTHENTICATE(const string& mechName, const
 	cmd.imbue(std::locale::classic());
 	cmd << "AUTHENTICATE " << mechName << " " << initialResponse;
 
-	return createCommand(cmd.str());
+	std::ostringstream trace;
+	trace.imbue(std::locale::classic());
+	trace << "AUTHENTICATE " << mechName << " {initial response}";
+
+	return createCommand(cmd.str(), trace.str());
 }
 
 
diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 785575b..e104641 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -850,7 +850,7 @@ void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 	if (m_tracer) {
 
 		std::ostringstream oss;
-		oss << string(*m_tag) << " " << cmd->getText();
+		oss << string(*m_tag) << " " << cmd->getTraceText();
 
 		m_tracer->traceSend(oss.str());
 	}
-- 
2.43.0


From 626a356da53fda4e33731396cb0b7aefaf00c9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 14/86] fix: IMAP: process the updates sent by the server in
 order, for every command

---
 src/vmime/net/imap/IMAPFolder.cpp       | 236 +++++++++++++-----------
 src/vmime/net/imap/IMAPFolder.hpp       |  22 ++-
 src/vmime/net/imap/IMAPFolderStatus.cpp |   6 +
 src/vmime/net/imap/IMAPFolderStatus.hpp |   6 +
 src/vmime/net/imap/IMAPUtils.cpp        |  72 ++++++++
 src/vmime/net/imap/IMAPUtils.hpp        |  13 ++
 6 files changed, 245 insertions(+), 110 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 34da36d..c51ba43 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -547,6 +547,8 @@ int IMAPFolder::testExistAndGetType() {
 		}
 	}
 
+	processStatusUpdate(resp.get());
+
 	m_attribs = make_shared <folderAttributes>(attribs);
 
 	return m_attribs->getType();
@@ -613,40 +615,61 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 	}
 
 	// Process the response
-	auto &respDataList = resp->continue_req_or_response_data;
+	for (auto &respData : resp->continue_req_or_response_data) {
 
-	for (auto it = respDataList.begin() ; it != respDataList.end() ; ++it) {
-
-		if (!(*it)->response_data) {
+		if (!respData->response_data) {
 			throw exceptions::command_error("UID FETCH ... UID", resp->getErrorLog(), "invalid response");
 		}
+	}
 
-		auto *messageData = (*it)->response_data->message_data.get();
-
-		// We are only interested in responses of type "FETCH"
-		if (!messageData || messageData->type != IMAPParser::message_data::FETCH) {
-			continue;
+	processStatusUpdate(
+		resp.get(),
+		[&](const IMAPParser::message_data& messageData) {
+			getOrCreateFetchedMessage(messages, msgs, messageData);
 		}
+	);
+
+	return messages;
+}
+
+
+shared_ptr <IMAPMessage> IMAPFolder::getOrCreateFetchedMessage(
+	std::vector <shared_ptr <message> >& messages,
+	const messageSet& msgs,
+	const IMAPParser::message_data& messageData
+) {
 
-		// Find UID in message attributes
-		const size_t msgNum = messageData->number;
-		message::uid msgUID;
+	// Find UID in message attributes
+	const size_t msgNum = messageData.number;
+	message::uid msgUID;
 
-		for (auto &att : messageData->msg_att->items) {
+	for (auto &att : messageData.msg_att->items) {
 
-			if (att->type == IMAPParser::msg_att_item::UID) {
-				msgUID = att->uniqueid->value;
-				break;
-			}
+		if (att->type == IMAPParser::msg_att_item::UID) {
+			msgUID = att->uniqueid->value;
+			break;
 		}
+	}
+
+	// Server may send several FETCH responses for the same message
+	for (auto &msg : messages) {
 
-		if (!msgUID.empty()) {
-			shared_ptr <IMAPFolder> thisFolder = dynamicCast <IMAPFolder>(shared_from_this());
-			messages.push_back(make_shared <IMAPMessage>(thisFolder, msgNum, msgUID));
+		if (msg->getNumber() == msgNum && !msg->isExpunged()) {
+			return dynamicCast <IMAPMessage>(msg);
 		}
 	}
 
-	return messages;
+	// Server may also notify us about messages we have not asked for
+	if (msgUID.empty() || !IMAPUtils::messageSetContains(msgs, msgNum, msgUID)) {
+		return null;
+	}
+
+	shared_ptr <IMAPMessage> msg =
+		make_shared <IMAPMessage>(dynamicCast <IMAPFolder>(shared_from_this()), msgNum, msgUID);
+
+	messages.push_back(msg);
+
+	return msg;
 }
 
 
@@ -777,6 +800,8 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 		}
 	}
 
+	processStatusUpdate(resp.get());
+
 	return v;
 }
 
@@ -825,7 +850,12 @@ void IMAPFolder::fetchMessages(
 		throw exceptions::command_error("FETCH", resp->getErrorLog(), "bad response");
 	}
 
-	auto &respDataList = resp->continue_req_or_response_data;
+	for (auto &respData : resp->continue_req_or_response_data) {
+
+		if (!respData->response_data) {
+			throw exceptions::command_error("FETCH", resp->getErrorLog(), "invalid response");
+		}
+	}
 
 	const size_t total = msg.size();
 	size_t current = 0;
@@ -836,33 +866,23 @@ void IMAPFolder::fetchMessages(
 
 	try {
 
-		for (auto it = respDataList.begin() ; it != respDataList.end() ; ++it) {
+		processStatusUpdate(
+			resp.get(),
+			[&](const IMAPParser::message_data& messageData) {
 
-			if (!(*it)->response_data) {
-				throw exceptions::command_error("FETCH", resp->getErrorLog(), "invalid response");
-			}
+				// Process fetch response for this message
+				auto msg = numberToMsg.find(messageData.number);
 
-			auto *messageData = (*it)->response_data->message_data.get();
+				if (msg != numberToMsg.end()) {
 
-			// We are only interested in responses of type "FETCH"
-			if (!messageData || messageData->type != IMAPParser::message_data::FETCH) {
-				continue;
-			}
+					(*msg).second->processFetchResponse(options, messageData);
 
-			// Process fetch response for this message
-			const size_t num = messageData->number;
-
-			std::map <size_t, shared_ptr <IMAPMessage> >::iterator msg = numberToMsg.find(num);
-
-			if (msg != numberToMsg.end()) {
-
-				(*msg).second->processFetchResponse(options, *messageData);
-
-				if (progress) {
-					progress->progress(++current, total);
+					if (progress) {
+						progress->progress(++current, total);
+					}
 				}
 			}
-		}
+		);
 
 	} catch (...) {
 
@@ -876,8 +896,6 @@ void IMAPFolder::fetchMessages(
 	if (progress) {
 		progress->stop(total);
 	}
-
-	processStatusUpdate(resp.get());
 }
 
 
@@ -923,48 +941,28 @@ std::vector <shared_ptr <message> > IMAPFolder::getAndFetchMessages(
 		throw exceptions::command_error("FETCH", resp->getErrorLog(), "bad response");
 	}
 
-	auto &respDataList = resp->continue_req_or_response_data;
-
-	std::vector <shared_ptr <message> > messages;
-
-	for (auto it = respDataList.begin() ; it != respDataList.end() ; ++it) {
+	for (auto &respData : resp->continue_req_or_response_data) {
 
-		if (!(*it)->response_data) {
+		if (!respData->response_data) {
 			throw exceptions::command_error("FETCH", resp->getErrorLog(), "invalid response");
 		}
+	}
 
-		auto *messageData = (*it)->response_data->message_data.get();
-
-		// We are only interested in responses of type "FETCH"
-		if (!messageData || messageData->type != IMAPParser::message_data::FETCH) {
-			continue;
-		}
-
-		// Get message number
-		const size_t msgNum = messageData->number;
+	std::vector <shared_ptr <message> > messages;
 
-		// Get message UID
-		message::uid msgUID;
+	processStatusUpdate(
+		resp.get(),
+		[&](const IMAPParser::message_data& messageData) {
 
-		for (auto &att : messageData->msg_att->items) {
+			shared_ptr <IMAPMessage> msg =
+				getOrCreateFetchedMessage(messages, msgs, messageData);
 
-			if (att->type == IMAPParser::msg_att_item::UID) {
-				msgUID = att->uniqueid->value;
-				break;
+			// Process fetch response for this message
+			if (msg) {
+				msg->processFetchResponse(attribsWithUID, messageData);
 			}
 		}
-
-		// Create a new message reference
-		shared_ptr <IMAPFolder> thisFolder = dynamicCast <IMAPFolder>(shared_from_this());
-		shared_ptr <IMAPMessage> msg = make_shared <IMAPMessage>(thisFolder, msgNum, msgUID);
-
-		messages.push_back(msg);
-
-		// Process fetch response for this message
-		msg->processFetchResponse(attribsWithUID, *messageData);
-	}
-
-	processStatusUpdate(resp.get());
+	);
 
 	return messages;
 }
@@ -1414,7 +1412,7 @@ shared_ptr <folderStatus> IMAPFolder::getStatus() {
 				shared_ptr <IMAPFolderStatus> status = make_shared <IMAPFolderStatus>();
 				status->updateFromResponse(*responseData->mailbox_data);
 
-				m_status->updateFromResponse(*responseData->mailbox_data);
+				processStatusUpdate(resp.get());
 
 				return status;
 			}
@@ -1598,13 +1596,13 @@ std::vector <message::uid> IMAPFolder::getMessageUIDsMatchingSearchAttributes(
 }
 
 
-void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
+void IMAPFolder::processStatusUpdate(
+	const IMAPParser::response* resp,
+	const std::function <void (const IMAPParser::message_data&)>& onFetch
+) {
 
 	std::vector <shared_ptr <events::event> > events;
 
-	shared_ptr <IMAPFolderStatus> oldStatus = vmime::clone(m_status);
-	int expungedMessageCount = 0;
-
 	// Process tagged response
 	if (resp->response_done &&
 	    resp->response_done->response_tagged &&
@@ -1630,16 +1628,48 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 		} else if ((*it)->response_data &&
 		           (*it)->response_data->mailbox_data) {
 
-			m_status->updateFromResponse(*(*it)->response_data->mailbox_data);
+			auto *mailboxData = (*it)->response_data->mailbox_data.get();
+			const size_t oldCount = m_status->getMessageCount();
+
+			m_status->updateFromResponse(*mailboxData);
+
+			// Message numbers are those given by "EXISTS" and "EXPUNGE" only
+			if (mailboxData->type == IMAPParser::mailbox_data::STATUS) {
+				m_status->setMessageCount(oldCount);
+			}
+
+			// New messages arrived
+			if (m_status->getMessageCount() > oldCount) {
+
+				std::vector <size_t> newMessageNumbers;
+
+				for (size_t msgNumber = oldCount + 1 ;
+				     msgNumber <= m_status->getMessageCount() ; ++msgNumber) {
+
+					newMessageNumbers.push_back(msgNumber);
+				}
+
+				events.push_back(
+					make_shared <events::messageCountEvent>(
+						dynamicCast <folder>(shared_from_this()),
+						events::messageCountEvent::TYPE_ADDED,
+						newMessageNumbers
+					)
+				);
+			}
 
 			// Update folder attributes, if available
-			if ((*it)->response_data->mailbox_data->type == IMAPParser::mailbox_data::LIST) {
+			if (mailboxData->type == IMAPParser::mailbox_data::LIST &&
+			    IMAPUtils::stringToPath(
+			        mailboxData->mailbox_list->quoted_char,
+			        mailboxData->mailbox_list->mailbox->name
+			    ) == m_path) {
 
 				folderAttributes attribs;
 				IMAPUtils::mailboxFlagsToFolderAttributes(
 					m_connection,
 					m_path,
-					*(*it)->response_data->mailbox_data->mailbox_list->mailbox_flag_list,
+					*mailboxData->mailbox_list->mailbox_flag_list,
 					attribs
 				);
 
@@ -1653,11 +1683,15 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 
 			if (msgData->type == IMAPParser::message_data::FETCH) {
 
+				if (onFetch) {
+					onFetch(*msgData);
+				}
+
 				// Message changed
 				for (std::vector <IMAPMessage*>::iterator mit =
 				     m_messages.begin() ; mit != m_messages.end() ; ++mit) {
 
-					if ((*mit)->getNumber() == msgNumber) {
+					if ((*mit)->getNumber() == msgNumber && !(*mit)->isExpunged()) {
 						(*mit)->processFetchResponse(/* options */ 0, *msgData);
 					}
 				}
@@ -1676,7 +1710,9 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 				for (std::vector <IMAPMessage*>::iterator jt =
 				     m_messages.begin() ; jt != m_messages.end() ; ++jt) {
 
-					if ((*jt)->getNumber() == msgNumber) {
+					if ((*jt)->isExpunged()) {
+						continue;
+					} else if ((*jt)->getNumber() == msgNumber) {
 						(*jt)->setExpunged();
 					} else if ((*jt)->getNumber() > msgNumber) {
 						(*jt)->renumber((*jt)->getNumber() - 1);
@@ -1691,31 +1727,13 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 					)
 				);
 
-				expungedMessageCount++;
+				if (m_status->getMessageCount() > 0) {
+					m_status->setMessageCount(m_status->getMessageCount() - 1);
+				}
 			}
 		}
 	}
 
-	// New messages arrived
-	if (m_status->getMessageCount() > oldStatus->getMessageCount() - expungedMessageCount) {
-
-		std::vector <size_t> newMessageNumbers;
-
-		for (size_t msgNumber = oldStatus->getMessageCount() - expungedMessageCount ;
-		     msgNumber <= m_status->getMessageCount() ; ++msgNumber) {
-
-			newMessageNumbers.push_back(msgNumber);
-		}
-
-		events.push_back(
-			make_shared <events::messageCountEvent>(
-				dynamicCast <folder>(shared_from_this()),
-				events::messageCountEvent::TYPE_ADDED,
-				newMessageNumbers
-			)
-		);
-	}
-
 	// Dispatch notifications
 	for (std::vector <shared_ptr <events::event> >::iterator evit =
 	     events.begin() ; evit != events.end() ; ++evit) {
diff --git a/src/vmime/net/imap/IMAPFolder.hpp b/src/vmime/net/imap/IMAPFolder.hpp
index ef54719..e9389f3 100644
--- a/src/vmime/net/imap/IMAPFolder.hpp
+++ b/src/vmime/net/imap/IMAPFolder.hpp
@@ -32,6 +32,7 @@
 
 
 #include <vector>
+#include <functional>
 #include <map>
 
 #include "vmime/types.hpp"
@@ -222,6 +223,20 @@ private:
 	void copyMessagesImpl(const string& set, const folder::path& dest);
 
 
+	/** Return the message a FETCH response is about, if this is one of
+	  * those which have been asked for.
+	  *
+	  * @param messages messages found so far (updated by this function)
+	  * @param msgs set of messages which have been asked for
+	  * @param messageData FETCH response
+	  * @return message, or null if it has not been asked for
+	  */
+	shared_ptr <IMAPMessage> getOrCreateFetchedMessage(
+		std::vector <shared_ptr <message> >& messages,
+		const messageSet& msgs,
+		const IMAPParser::message_data& messageData
+	);
+
 	/** Process status updates ("unsolicited responses") contained in the
 	  * specified response. Example:
 	  *
@@ -230,8 +245,13 @@ private:
 	  *    S: a006 OK Success
 	  *
 	  * @param resp parsed IMAP response
+	  * @param onFetch function called for each FETCH response, before it is
+	  * used to update the messages
 	  */
-	void processStatusUpdate(const IMAPParser::response* resp);
+	void processStatusUpdate(
+		const IMAPParser::response* resp,
+		const std::function <void (const IMAPParser::message_data&)>& onFetch = nullptr
+	);
 
 
 	weak_ptr <IMAPStore> m_store;
diff --git a/src/vmime/net/imap/IMAPFolderStatus.cpp b/src/vmime/net/imap/IMAPFolderStatus.cpp
index 55df337..1609ac1 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.cpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.cpp
@@ -94,6 +94,12 @@ vmime_uint64 IMAPFolderStatus::getHighestModSeq() const {
 }
 
 
+void IMAPFolderStatus::setMessageCount(const size_t count) {
+
+	m_count = count;
+}
+
+
 shared_ptr <folderStatus> IMAPFolderStatus::clone() const {
 
 	return make_shared <IMAPFolderStatus>(*this);
diff --git a/src/vmime/net/imap/IMAPFolderStatus.hpp b/src/vmime/net/imap/IMAPFolderStatus.hpp
index b9a73ec..c1321eb 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.hpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.hpp
@@ -88,6 +88,12 @@ public:
 	vmime_uint64 getHighestModSeq() const;
 
 
+	/** Sets the number of messages in the folder.
+	  *
+	  * @param count number of messages
+	  */
+	void setMessageCount(const size_t count);
+
 	/** Reads the folder status from the specified IMAP response.
 	  *
 	  * @param resp parsed IMAP response
diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 80e8487..f3930ff 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -824,6 +824,78 @@ public:
 
 
 
+class IMAPMessageSetFinder : public messageSetEnumerator {
+
+public:
+
+	IMAPMessageSetFinder(const size_t number, const message::uid& uid)
+		: m_number(number),
+		  m_uid(uidValue(uid)),
+		  m_found(false) {
+
+	}
+
+	void enumerateNumberMessageRange(const vmime::net::numberMessageRange& range) {
+
+		if (m_number >= range.getFirst() && m_number <= range.getLast()) {
+			m_found = true;
+		}
+	}
+
+	void enumerateUIDMessageRange(const vmime::net::UIDMessageRange& range) {
+
+		const vmime_uint64 first = uidValue(range.getFirst());
+		const vmime_uint64 last = uidValue(range.getLast());
+
+		if (m_uid != 0 && m_uid >= std::min(first, last) && m_uid <= std::max(first, last)) {
+			m_found = true;
+		}
+	}
+
+	bool found() const {
+
+		return m_found;
+	}
+
+private:
+
+	static vmime_uint64 uidValue(const message::uid& uid) {
+
+		const string str(uid);
+
+		if (str == "*") {
+			return static_cast <vmime_uint64>(-1);
+		}
+
+		vmime_uint64 value = 0;
+
+		std::istringstream iss(str);
+		iss.imbue(std::locale::classic());
+		iss >> value;
+
+		return value;
+	}
+
+	const size_t m_number;
+	const vmime_uint64 m_uid;
+	bool m_found;
+};
+
+
+// static
+bool IMAPUtils::messageSetContains(
+	const messageSet& msgs,
+	const size_t number,
+	const message::uid& uid
+) {
+
+	IMAPMessageSetFinder finder(number, uid);
+	msgs.enumerate(finder);
+
+	return finder.found();
+}
+
+
 // static
 const string IMAPUtils::messageSetToSequenceSet(const messageSet& msgs) {
 
diff --git a/src/vmime/net/imap/IMAPUtils.hpp b/src/vmime/net/imap/IMAPUtils.hpp
index e64b268..a0f575d 100644
--- a/src/vmime/net/imap/IMAPUtils.hpp
+++ b/src/vmime/net/imap/IMAPUtils.hpp
@@ -120,6 +120,19 @@ public:
 	  */
 	static void convertAddressList(const IMAPParser::address_list& src, mailboxList& dest);
 
+	/** Tests whether a message is part of the specified set.
+	  *
+	  * @param msgs message set
+	  * @param number sequence number of the message
+	  * @param uid UID of the message (may be empty)
+	  * @return true if the set contains the message, or false otherwise
+	  */
+	static bool messageSetContains(
+		const messageSet& msgs,
+		const size_t number,
+		const message::uid& uid
+	);
+
 	/** Returns an IMAP-formatted sequence set given a message set.
 	  *
 	  * @param msgs message set
-- 
2.43.0


From 682eb6b2ea781df166c46496b6c6aa8a8fcfa213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 15/86] fix: IMAP: do not use the number of an expunged
 message, and report messages that do not exist anymore

---
 src/vmime/net/imap/IMAPFolder.cpp  |  9 +++++++
 src/vmime/net/imap/IMAPMessage.cpp | 41 +++++++++++++++++++++++++++++-
 2 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index c51ba43..e4f9618 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -832,10 +832,19 @@ void IMAPFolder::fetchMessages(
 
 	for (std::vector <shared_ptr <message> >::iterator it = msg.begin() ; it != msg.end() ; ++it) {
 
+		// The number of an expunged message now belongs to another message
+		if ((*it)->isExpunged()) {
+			continue;
+		}
+
 		list.push_back((*it)->getNumber());
 		numberToMsg[(*it)->getNumber()] = dynamicCast <IMAPMessage>(*it);
 	}
 
+	if (list.empty()) {
+		return;
+	}
+
 	// Send the request
 	IMAPUtils::buildFetchCommand(
 		m_connection, messageSet::byNumber(list), options
diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index fa33b83..7e7485f 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -327,7 +327,12 @@ size_t IMAPMessage::extractImpl(
 	if (!folder->isOpen()) {
 		throw exceptions::illegal_state("Folder not open");
 	}
-	
+
+	// The sequence number of an expunged message now belongs to another one
+	if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	IMAPMessage_literalHandler literalHandler(os, progress);
 
 	if (length == 0) {
@@ -476,6 +481,31 @@ size_t IMAPMessage::extractImpl(
 		throw exceptions::command_error("FETCH", resp->getErrorLog(), "bad response");
 	}
 
+	// If message does not exist anymore, server simply returns no data
+	bool found = false;
+
+	for (auto &respData : resp->continue_req_or_response_data) {
+
+		if (!respData->response_data || !respData->response_data->message_data ||
+		    respData->response_data->message_data->type != IMAPParser::message_data::FETCH) {
+
+			continue;
+		}
+
+		for (auto &att : respData->response_data->message_data->msg_att->items) {
+
+			if (att->type == IMAPParser::msg_att_item::BODY_SECTION) {
+				found = true;
+			}
+		}
+	}
+
+	shared_ptr <IMAPFolder> thisFolder = m_folder.lock();
+	thisFolder->processStatusUpdate(resp.get());
+
+	if (!found) {
+		throw exceptions::message_not_found();
+	}
 
 	if (extractFlags & EXTRACT_BODY) {
 		// TODO: update the flags (eg. flag "\Seen" may have been set)
@@ -625,6 +655,11 @@ int IMAPMessage::processFetchResponse(
 
 						vmime::header& hdr = *getOrCreateHeader();
 
+						// Replace fields which may already have been received
+						for (auto& fld : tempHeader.getFieldList()) {
+							hdr.removeAllFields(fld->getName());
+						}
+
 						for (auto& fld : tempHeader.getFieldList()) {
 							hdr.appendField(vmime::clone(fld));
 						}
@@ -666,6 +701,10 @@ void IMAPMessage::setFlags(const int flags, const int mode) {
 		throw exceptions::folder_not_found();
 	}
 
+	if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	if (!m_uid.empty()) {
 		folder->setMessageFlags(messageSet::byUID(m_uid), flags, mode);
 	} else {
-- 
2.43.0


From 256aae09e03b3696d3ac244ed9b0942784044142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 16/86] fix: IMAP: sizes and names of parts, raw contents of
 parts, several identifiers in In-Reply-To

---
 src/vmime/net/imap/IMAPMessage.cpp                   | 3 +--
 src/vmime/net/imap/IMAPMessagePart.cpp               | 8 +++++++-
 src/vmime/net/imap/IMAPMessagePartContentHandler.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index 7e7485f..71caf02 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -618,9 +618,8 @@ int IMAPMessage::processFetchResponse(
 
 					// In-Reply-To
 					if (!env->env_in_reply_to->isNIL) {
-						shared_ptr <messageId> mid = make_shared <messageId>(env->env_in_reply_to->value);
 						messageIdSequence sequence;
-						sequence.appendMessageId(mid);
+						sequence.parse(env->env_in_reply_to->value);
 						hdr->InReplyTo()->setValue(sequence);
 					}
 				}
diff --git a/src/vmime/net/imap/IMAPMessagePart.cpp b/src/vmime/net/imap/IMAPMessagePart.cpp
index ed2c0bd..c8c11b0 100644
--- a/src/vmime/net/imap/IMAPMessagePart.cpp
+++ b/src/vmime/net/imap/IMAPMessagePart.cpp
@@ -30,6 +30,8 @@
 #include "vmime/net/imap/IMAPMessagePart.hpp"
 #include "vmime/net/imap/IMAPMessageStructure.hpp"
 
+#include "vmime/utility/stringUtils.hpp"
+
 
 namespace vmime {
 namespace net {
@@ -57,7 +59,7 @@ namespace {
 	vmime::string getPartName(const T& body_type) {
 		if (const auto* pparam = body_type->body_fields->body_fld_param.get()) {
 			for (const auto& param : pparam->items) {
-				if (param->string1->value == "NAME") {
+				if (utility::stringUtils::isStringEqualNoCase(param->string1->value, "name")) {
 					return param->string2->value;
 				}
 			}
@@ -96,6 +98,10 @@ IMAPMessagePart::IMAPMessagePart(
 			part->body_type_msg->media_message->media_subtype->value
 		);
 
+		m_size = part->body_type_msg->body_fields->body_fld_octets->value;
+
+		m_name = getPartName(part->body_type_msg);
+
 	} else {
 
 		m_mediaType = vmime::mediaType(
diff --git a/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp b/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
index 040d2ab..07484b3 100644
--- a/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
+++ b/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
@@ -86,7 +86,7 @@ void IMAPMessagePartContentHandler::generate(
 			std::ostringstream oss;
 			utility::outputStreamAdapter tmp(oss);
 
-			msg->extractPart(part, tmp, NULL);
+			msg->extractImpl(part, tmp, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 
 			// Decode to another temporary buffer
 			utility::inputStreamStringAdapter in(oss.str());
@@ -110,7 +110,7 @@ void IMAPMessagePartContentHandler::generate(
 		// No encoding to perform
 		} else {
 
-			msg->extractPart(part, os);
+			msg->extractImpl(part, os, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 		}
 
 	// Need to encode data before
@@ -120,7 +120,7 @@ void IMAPMessagePartContentHandler::generate(
 		std::ostringstream oss;
 		utility::outputStreamAdapter tmp(oss);
 
-		msg->extractPart(part, tmp, NULL);
+		msg->extractImpl(part, tmp, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 
 		// Encode temporary buffer to output stream
 		shared_ptr <utility::encoder::encoder> theEncoder = enc.getEncoder();
@@ -180,7 +180,7 @@ void IMAPMessagePartContentHandler::extractRaw(
 	if (!msg || !part)
 		throw exceptions::message_not_found();
 
-	msg->extractPart(part, os, progress);
+	msg->extractImpl(part, os, progress, 0, -1, IMAPMessage::EXTRACT_BODY);
 }
 
 
-- 
2.43.0


From 4ac55d58acc9c49e738eede0cfad40c3330f19c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:45 +0000
Subject: [PATCH 17/86] fix: IMAP: wait for CLOSE to complete, send exactly the
 announced size of an appended message, rename sub-folders

---
 src/vmime/net/imap/IMAPConnection.hpp | 10 +++---
 src/vmime/net/imap/IMAPFolder.cpp     | 48 +++++++++++++++++++++------
 2 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.hpp b/src/vmime/net/imap/IMAPConnection.hpp
index 96f2e74..d18ad00 100644
--- a/src/vmime/net/imap/IMAPConnection.hpp
+++ b/src/vmime/net/imap/IMAPConnection.hpp
@@ -83,6 +83,11 @@ public:
 	void sendCommand(const shared_ptr <IMAPCommand>& cmd);
 	void sendRaw(const byte_t* buffer, const size_t count);
 
+	/** Close the connection without saying goodbye, after an error which
+	  * has left it in an unknown state.
+	  */
+	void drop();
+
 	IMAPParser::response* readResponse(IMAPParser::literalHandler* lh = NULL);
 
 
@@ -160,11 +165,6 @@ private:
 
 	void internalDisconnect();
 
-	/** Close the connection without saying goodbye, after an error which
-	  * has left it in an unknown state.
-	  */
-	void drop();
-
 	void initHierarchySeparator();
 };
 
diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index e4f9618..744d192 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -320,6 +320,15 @@ void IMAPFolder::close(const bool expunge) {
 		}
 
 		IMAPCommand::CLOSE()->send(oldConnection);
+
+		// Wait for the messages to be actually expunged
+		scoped_ptr <IMAPParser::response> resp(oldConnection->readResponse());
+
+		if (resp->isBad() || resp->response_done->response_tagged->
+				resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
+
+			throw exceptions::command_error("CLOSE", resp->getErrorLog(), "bad response");
+		}
 	}
 
 	// Close this folder connection
@@ -1177,19 +1186,38 @@ messageSet IMAPFolder::addMessage(
 	std::vector <byte_t> vbuffer(blockSize);
 	byte_t* buffer = &vbuffer.front();
 
-	while (!is.eof()) {
+	try {
+
+		// Server is now waiting for exactly this number of bytes
+		while (current < total && !is.eof()) {
 
-		// Read some data from the input stream
-		const size_t read = is.read(buffer, blockSize);
-		current += read;
+			// Read some data from the input stream
+			const size_t read = is.read(buffer, std::min(blockSize, total - current));
+			current += read;
 
-		// Put read data into socket output stream
-		m_connection->sendRaw(buffer, read);
+			// Put read data into socket output stream
+			m_connection->sendRaw(buffer, read);
+
+			// Notify progress
+			if (progress) {
+				progress->progress(current, total);
+			}
+		}
+
+		if (current != total) {
+			throw exceptions::invalid_argument();
+		}
+
+	} catch (...) {
+
+		// Next command would be taken for the end of the message
+		m_connection->drop();
 
-		// Notify progress
 		if (progress) {
-			progress->progress(current, total);
+			progress->stop(total);
 		}
+
+		throw;
 	}
 
 	m_connection->sendRaw(utility::stringUtils::bytesFromString("\r\n"), 2);
@@ -1303,7 +1331,7 @@ void IMAPFolder::rename(const folder::path& newPath) {
 
 		if ((*it) != this && oldPath.isParentOf((*it)->getFullPath())) {
 
-			folder::path oldPath((*it)->m_path);
+			const folder::path oldSubPath((*it)->m_path);
 
 			(*it)->m_path.renameParent(oldPath, newPath);
 
@@ -1311,7 +1339,7 @@ void IMAPFolder::rename(const folder::path& newPath) {
 				make_shared <events::folderEvent>(
 					dynamicCast <folder>((*it)->shared_from_this()),
 					events::folderEvent::TYPE_RENAMED,
-					oldPath, (*it)->m_path
+					oldSubPath, (*it)->m_path
 				);
 
 			(*it)->notifyFolder(event);
-- 
2.43.0


From 62475415323ebe82b2c037fd959ce2d5b4086182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 18/86] fix: IMAP: conversion of folder names from and to
 modified UTF-7

---
 src/vmime/net/imap/IMAPUtils.cpp | 212 +++++++++++++++++++------------
 1 file changed, 133 insertions(+), 79 deletions(-)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index f3930ff..6ab8715 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -173,19 +173,10 @@ const string IMAPUtils::toModifiedUTF7(
 	const folder::path::component& text
 ) {
 
-	// We will replace the hierarchy separator with an equivalent
-	// UTF-7 sequence, so we compute it here...
 	const char base64alphabet[] =
 		"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,=";
 
-	const unsigned int hs = static_cast <unsigned int>(static_cast <unsigned char>(hierarchySeparator));
-
-	string hsUTF7;
-	hsUTF7.resize(3);
-
-	hsUTF7[0] = base64alphabet[0];
-	hsUTF7[1] = base64alphabet[(hs & 0xF0) >> 4];
-	hsUTF7[2] = base64alphabet[(hs & 0x0F) << 2];
+	const int hs = static_cast <int>(static_cast <unsigned char>(hierarchySeparator));
 
 	// iconv() is buggy with UTF-8 to UTF-7 conversion, so we do it "by hand".
 	// This code is largely inspired from "imap/utf7.c", in mutt 1.4.
@@ -208,16 +199,6 @@ const string IMAPUtils::toModifiedUTF7(
 
 		const unsigned char c = cvt[i];
 
-		// Replace hierarchy separator with an equivalent UTF-7 Base64 sequence
-		if (!base64 && c == hierarchySeparator) {
-
-			out += "&" + hsUTF7 + "-";
-
-			++i;
-			--remaining;
-			continue;
-		}
-
 		size_t n = 0;
 		int ch = 0;
 
@@ -262,7 +243,8 @@ const string IMAPUtils::toModifiedUTF7(
 		i += n;
 		remaining -= n;
 
-		if (ch < 0x20 || ch >= 0x7f) {
+		// Hierarchy separator is replaced with an equivalent UTF-7 Base64 sequence
+		if (ch < 0x20 || ch >= 0x7f || ch == hs) {
 
 			if (!base64) {
 				out += '&';
@@ -271,20 +253,35 @@ const string IMAPUtils::toModifiedUTF7(
 				k = 10;
 			}
 
-			if (ch & ~0xffff) {
+			if (ch > 0x10ffff) {
 				ch = 0xfffe;
 			}
 
-			out += base64alphabet[b | ch >> k];
+			// Characters outside the BMP are encoded as two surrogates
+			int units[2] = { ch, 0 };
+			int unitCount = 1;
 
-			k -= 6;
-
-			for ( ; k >= 0 ; k -= 6) {
-				out += base64alphabet[(ch >> k) & 0x3f];
+			if (ch > 0xffff) {
+				units[0] = 0xd800 + ((ch - 0x10000) >> 10);
+				units[1] = 0xdc00 + ((ch - 0x10000) & 0x3ff);
+				unitCount = 2;
 			}
 
-			b = (ch << (-k)) & 0x3f;
-			k += 16;
+			for (int u = 0 ; u < unitCount ; ++u) {
+
+				const int unit = units[u];
+
+				out += base64alphabet[b | unit >> k];
+
+				k -= 6;
+
+				for ( ; k >= 0 ; k -= 6) {
+					out += base64alphabet[(unit >> k) & 0x3f];
+				}
+
+				b = (unit << (-k)) & 0x3f;
+				k += 16;
+			}
 
 		} else {
 
@@ -319,77 +316,134 @@ const string IMAPUtils::toModifiedUTF7(
 }
 
 
-const folder::path::component IMAPUtils::fromModifiedUTF7(const string& text) {
+// Decode the UTF-16 text contained in a modified Base64 sequence, and
+// append it in UTF-8 to the specified string
+static bool decodeModifiedBase64(const string& sequence, string& out) {
 
-	// Transcode from modified UTF-7 (RFC-2060).
-	string out;
-	out.reserve(text.length());
+	string utf8;
+	unsigned int bits = 0, bitCount = 0, high = 0;
 
-	bool inB64sequence = false;
-	bool plusOutput = false;
-	unsigned char prev = 0;
+	for (size_t i = 0 ; i < sequence.length() ; ++i) {
 
-	for (string::const_iterator it = text.begin() ; it != text.end() ; ++it) {
+		const char c = sequence[i];
+		unsigned int value = 0;
 
-		const unsigned char c = *it;
+		if (c >= 'A' && c <= 'Z') {
+			value = c - 'A';
+		} else if (c >= 'a' && c <= 'z') {
+			value = c - 'a' + 26;
+		} else if (c >= '0' && c <= '9') {
+			value = c - '0' + 52;
+		} else if (c == '+') {
+			value = 62;
+		} else if (c == ',') {  // ',' is used instead of '/'
+			value = 63;
+		} else {
+			return false;
+		}
 
-		switch (c) {
+		bits = (bits << 6) | value;
+		bitCount += 6;
 
-			// Start of Base64 sequence
-			case '&': {
+		if (bitCount < 16) {
+			continue;
+		}
 
-				if (!inB64sequence) {
-					inB64sequence = true;
-					plusOutput = false;
-				} else {
-					out += '&';
-				}
+		bitCount -= 16;
 
-				break;
-			}
-			// End of Base64 sequence (or "&-" --> "&")
-			case '-': {
+		unsigned int ch = (bits >> bitCount) & 0xffff;
 
-				if (inB64sequence && prev == '&') {  // special case "&-" --> "&"
-					out += '&';
-				} else {
-					out += '-';
-				}
+		bits &= (1u << bitCount) - 1;
 
-				inB64sequence = false;
-				break;
+		if (high != 0) {
+
+			if (ch < 0xdc00 || ch > 0xdfff) {
+				return false;
 			}
-			// ',' is used instead of '/' in modified Base64
-			case ',': {
 
-				if (inB64sequence && !plusOutput) {
-					out += '+';
-					plusOutput = true;
-				}
+			ch = 0x10000 + ((high - 0xd800) << 10) + (ch - 0xdc00);
+			high = 0;
 
-				out += (inB64sequence ? '/' : ',');
-				break;
+		} else if (ch >= 0xd800 && ch <= 0xdbff) {
+
+			high = ch;
+			continue;
+
+		} else if (ch >= 0xdc00 && ch <= 0xdfff) {
+
+			return false;
+		}
+
+		if (ch < 0x80) {
+			utf8 += static_cast <char>(ch);
+		} else if (ch < 0x800) {
+			utf8 += static_cast <char>(0xc0 | (ch >> 6));
+			utf8 += static_cast <char>(0x80 | (ch & 0x3f));
+		} else if (ch < 0x10000) {
+			utf8 += static_cast <char>(0xe0 | (ch >> 12));
+			utf8 += static_cast <char>(0x80 | ((ch >> 6) & 0x3f));
+			utf8 += static_cast <char>(0x80 | (ch & 0x3f));
+		} else {
+			utf8 += static_cast <char>(0xf0 | (ch >> 18));
+			utf8 += static_cast <char>(0x80 | ((ch >> 12) & 0x3f));
+			utf8 += static_cast <char>(0x80 | ((ch >> 6) & 0x3f));
+			utf8 += static_cast <char>(0x80 | (ch & 0x3f));
+		}
+	}
+
+	// Only padding bits may remain
+	if (high != 0 || bits != 0) {
+		return false;
+	}
+
+	out += utf8;
+
+	return true;
+}
+
+
+const folder::path::component IMAPUtils::fromModifiedUTF7(const string& text) {
+
+	// Transcode from modified UTF-7 (RFC-2060).
+	string out;
+	out.reserve(text.length());
+
+	for (size_t i = 0 ; i < text.length() ; ) {
+
+		const size_t end = (text[i] == '&' ? text.find('-', i) : string::npos);
+
+		// Character which represents itself (or sequence which is not terminated)
+		if (end == string::npos) {
+
+			out += text[i++];
+
+			// "+-" is accepted for "+", as in UTF-7
+			if (text[i - 1] == '+' && i < text.length() && text[i] == '-') {
+				++i;
 			}
-			default: {
 
-				if (inB64sequence && !plusOutput) {
-					out += '+';
-					plusOutput = true;
-				}
+		// "&-" --> "&"
+		} else if (end == i + 1) {
 
-				out += c;
-				break;
+			out += '&';
+			i = end + 1;
+
+		// Base64 sequence
+		} else {
+
+			const string sequence(text, i + 1, end - i - 1);
+
+			// If the sequence is not valid, keep it as is
+			if (!decodeModifiedBase64(sequence, out)) {
+				out += "&" + sequence + "-";
 			}
-		}
 
-		prev = c;
+			i = end + 1;
+		}
 	}
 
 	// Store it as UTF-8 by default
-	string cvt;
-	charset::convert(out, cvt, charset(charsets::UTF_7), charset(charsets::UTF_8));
-
-	return folder::path::component(cvt, charset(charsets::UTF_8));
+	return folder::path::component(out, charset(charsets::UTF_8));
 }
 
 
-- 
2.43.0


From 2d0091d87732fad5d8ed1271719a95af88203c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 19/86] fix: IMAP: do not take folders matching a wildcard, or
 siblings, for the folder or its children

---
 src/vmime/net/imap/IMAPFolder.cpp | 60 ++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 744d192..763a315 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -42,6 +42,7 @@
 #include "vmime/exception.hpp"
 
 #include "vmime/utility/outputStreamAdapter.hpp"
+#include "vmime/utility/stringUtils.hpp"
 
 #include <algorithm>
 #include <sstream>
@@ -52,6 +53,29 @@ namespace net {
 namespace imap {
 
 
+// Tests whether a path is the parent of another one, or the same path. Unlike
+// the name of other mailboxes, the name "INBOX" is case-insensitive.
+static bool isParentMailboxOf(const folder::path& parent, const folder::path& path) {
+
+	if (path.getSize() < parent.getSize()) {
+		return false;
+	}
+
+	for (size_t i = 0 ; i < parent.getSize() ; ++i) {
+
+		if (!parent[i].isEquivalent(path[i]) &&
+		    !(i == 0 &&
+		      utility::stringUtils::isStringEqualNoCase(parent[i].getBuffer(), "inbox") &&
+		      utility::stringUtils::isStringEqualNoCase(path[i].getBuffer(), "inbox"))) {
+
+			return false;
+		}
+	}
+
+	return true;
+}
+
+
 IMAPFolder::IMAPFolder(
 	const folder::path& path,
 	const shared_ptr <IMAPStore>& store,
@@ -546,6 +570,16 @@ int IMAPFolder::testExistAndGetType() {
 		if (mailboxData &&
 		    mailboxData->type == IMAPParser::mailbox_data::LIST) {
 
+			const folder::path path = IMAPUtils::stringToPath(
+				mailboxData->mailbox_list->quoted_char,
+				mailboxData->mailbox_list->mailbox->name
+			);
+
+			// Server may return other folders, if path contains wildcards
+			if (path.getSize() != m_path.getSize() || !isParentMailboxOf(m_path, path)) {
+				continue;
+			}
+
 			// Get the folder type/flags at the same time
 			IMAPUtils::mailboxFlagsToFolderAttributes(
 				m_connection,
@@ -734,8 +768,7 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 
 	// Eg. List folders in '/foo/bar'
 	//
-	//     C: a005 list "foo/bar" *
-	//     S: * LIST (\NoSelect) "/" foo/bar
+	//     C: a005 list "foo/bar/" *
 	//     S: * LIST (\NoInferiors) "/" foo/bar/zap
 	//     S: a005 OK LIST completed
 
@@ -745,19 +778,12 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 		m_connection->hierarchySeparator(), getFullPath()
 	);
 
-	if (recursive) {
-
-		cmd = IMAPCommand::LIST(pathString, "*");
-
-	} else {
-
-		cmd = IMAPCommand::LIST(
-			pathString.empty()
-				? ""
-				: (pathString + m_connection->hierarchySeparator()),
-			"%"
-		);
-	}
+	cmd = IMAPCommand::LIST(
+		pathString.empty()
+			? ""
+			: (pathString + m_connection->hierarchySeparator()),
+		recursive ? "*" : "%"
+	);
 
 	cmd->send(m_connection);
 
@@ -793,7 +819,9 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 			mailboxData->mailbox_list->quoted_char, mailbox->name
 		);
 
-		if (recursive || m_path.isDirectParentOf(path)) {
+		// Server may return other folders, if path contains wildcards
+		if (isParentMailboxOf(m_path, path) &&
+		    (recursive ? path.getSize() > m_path.getSize() : path.getSize() == m_path.getSize() + 1)) {
 
 			// Append folder to list
 			shared_ptr <folderAttributes> attribs = make_shared <folderAttributes>();
-- 
2.43.0


From 2f0655fb4be24603ac11861e09353cd22be4c691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 20/86] fix: IMAP: parser: empty lists, literals without
 context, unbounded recursion; quote search keywords

---
 src/vmime/net/imap/IMAPFolderStatus.cpp     |   2 +-
 src/vmime/net/imap/IMAPParser.hpp           | 106 +++++++++++++++++---
 src/vmime/net/imap/IMAPSearchAttributes.cpp |  26 ++++-
 3 files changed, 119 insertions(+), 15 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolderStatus.cpp b/src/vmime/net/imap/IMAPFolderStatus.cpp
index 1609ac1..f209bc0 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.cpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.cpp
@@ -110,7 +110,7 @@ bool IMAPFolderStatus::updateFromResponse(const IMAPParser::mailbox_data& resp)
 
 	bool changed = false;
 
-	if (resp.type == IMAPParser::mailbox_data::STATUS) {
+	if (resp.type == IMAPParser::mailbox_data::STATUS && resp.status_att_list) {
 
 		for (auto &attval : resp.status_att_list->values) {
 
diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 8153886..938ec9c 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -266,6 +266,7 @@ public:
 
 	IMAPParser()
 		: m_progress(NULL),
+		  m_nestingLevel(0),
 		  m_strict(false),
 		  m_literalHandler(NULL) {
 
@@ -788,21 +789,46 @@ public:
 
 			size_t pos = *currentPos;
 
+			VIMAP_PARSER_FAIL_UNLESS(parseItem(parser, line, &pos));
+
+			// And maybe other items following
+			uid_set* last = this;
+
+			while (VIMAP_PARSER_TRY_CHECK(one_char <','>)) {
+
+				last->next_uid_set.reset(new uid_set());
+				last = last->next_uid_set.get();
+
+				VIMAP_PARSER_FAIL_UNLESS(last->parseItem(parser, line, &pos));
+			}
+
+			*currentPos = pos;
+
+			return true;
+		}
+
+		bool parseItem(IMAPParser& parser, string& line, size_t* currentPos) {
+
+			size_t pos = *currentPos;
+
 			// We have either a 'uid_range' or a 'uniqueid'
 			if (!VIMAP_PARSER_TRY_GET(IMAPParser::uid_range, uid_range)) {
 				VIMAP_PARSER_GET(IMAPParser::uniqueid, uniqueid);
 			}
 
-			// And maybe another 'uid-set' following
-			if (VIMAP_PARSER_TRY_CHECK(one_char <','>)) {
-				VIMAP_PARSER_GET(IMAPParser::uid_set, next_uid_set);
-			}
-
 			*currentPos = pos;
 
 			return true;
 		}
 
+		~uid_set() {
+
+			// Set may be very long, do not delete it recursively
+			while (next_uid_set) {
+				next_uid_set = std::move(next_uid_set->next_uid_set);
+			}
+		}
+
 
 		std::unique_ptr <IMAPParser::uniqueid> uniqueid;
 		std::unique_ptr <IMAPParser::uid_range> uid_range;
@@ -1104,7 +1130,7 @@ public:
 					VIMAP_PARSER_GET(quoted_text, text);
 					VIMAP_PARSER_CHECK(one_char <'"'>);
 
-					if (parser.m_literalHandler != NULL) {
+					if (parser.m_literalHandler != NULL && m_component != NULL) {
 
 						shared_ptr <literalHandler::target> target =
 							parser.m_literalHandler->targetFor(*m_component, m_data);
@@ -1152,7 +1178,7 @@ public:
 					VIMAP_PARSER_CHECK(CRLF);
 
 
-					if (parser.m_literalHandler != NULL) {
+					if (parser.m_literalHandler != NULL && m_component != NULL) {
 
 						shared_ptr <literalHandler::target> target =
 							parser.m_literalHandler->targetFor(*m_component, m_data);
@@ -1582,12 +1608,29 @@ public:
 
 			size_t pos = *currentPos;
 
-			if (!VIMAP_PARSER_TRY_GET(IMAPParser::seq_range, range)) {
-				VIMAP_PARSER_GET(IMAPParser::seq_number, number);
+			VIMAP_PARSER_FAIL_UNLESS(parseItem(parser, line, &pos));
+
+			sequence_set* last = this;
+
+			while (VIMAP_PARSER_TRY_CHECK(one_char <','> )) {
+
+				last->nextSet.reset(new sequence_set());
+				last = last->nextSet.get();
+
+				VIMAP_PARSER_FAIL_UNLESS(last->parseItem(parser, line, &pos));
 			}
 
-			if (VIMAP_PARSER_TRY_CHECK(one_char <','> )) {
-				VIMAP_PARSER_GET(sequence_set, nextSet);
+			*currentPos = pos;
+
+			return true;
+		}
+
+		bool parseItem(IMAPParser& parser, string& line, size_t* currentPos) {
+
+			size_t pos = *currentPos;
+
+			if (!VIMAP_PARSER_TRY_GET(IMAPParser::seq_range, range)) {
+				VIMAP_PARSER_GET(IMAPParser::seq_number, number);
 			}
 
 			*currentPos = pos;
@@ -1595,6 +1638,14 @@ public:
 			return true;
 		}
 
+		~sequence_set() {
+
+			// Set may be very long, do not delete it recursively
+			while (nextSet) {
+				nextSet = std::move(nextSet->nextSet);
+			}
+		}
+
 
 		std::unique_ptr <IMAPParser::seq_number> number;
 		std::unique_ptr <IMAPParser::seq_range> range;
@@ -2488,9 +2539,16 @@ public:
 
 			size_t pos = *currentPos;
 
+			nestingGuard guard(parser);
+
+			if (parser.m_nestingLevel > MAX_NESTING_LEVEL) {
+				VIMAP_PARSER_FAIL();
+			}
+
 			if (VIMAP_PARSER_TRY_CHECK(one_char <'('> )) {
 
 				VIMAP_PARSER_GET_PUSHBACK(body_extension, body_extensions);
+				VIMAP_PARSER_TRY_CHECK(SPACE);
 
 				while (!VIMAP_PARSER_TRY_CHECK(one_char <')'> )) {
 					VIMAP_PARSER_GET_PUSHBACK(body_extension, body_extensions);
@@ -3511,6 +3569,12 @@ public:
 
 			size_t pos = *currentPos;
 
+			nestingGuard guard(parser);
+
+			if (parser.m_nestingLevel > MAX_NESTING_LEVEL) {
+				VIMAP_PARSER_FAIL();
+			}
+
 			VIMAP_PARSER_CHECK(one_char <'('> );
 
 			if (!VIMAP_PARSER_TRY_GET(IMAPParser::body_type_mpart, body_type_mpart)) {
@@ -3723,7 +3787,7 @@ public:
 
 			VIMAP_PARSER_CHECK(one_char <'('> );
 
-			items.push_back(std::unique_ptr <msg_att_item>(parser.get <msg_att_item>(line, &pos)));
+			VIMAP_PARSER_GET_PUSHBACK(msg_att_item, items);
 
 			while (!VIMAP_PARSER_TRY_CHECK(one_char <')'> )) {
 				VIMAP_PARSER_CHECK(SPACE);
@@ -4831,6 +4895,24 @@ private:
 
 	utility::progressListener* m_progress;
 
+	// Number of elements which contain the one being parsed, for elements
+	// which may contain themselves
+	size_t m_nestingLevel;
+
+	static const size_t MAX_NESTING_LEVEL = 200;
+
+	class nestingGuard {
+
+	public:
+
+		nestingGuard(IMAPParser& parser) : m_parser(parser) { ++m_parser.m_nestingLevel; }
+		~nestingGuard() { --m_parser.m_nestingLevel; }
+
+	private:
+
+		IMAPParser& m_parser;
+	};
+
 	bool m_strict;
 
 	literalHandler* m_literalHandler;
diff --git a/src/vmime/net/imap/IMAPSearchAttributes.cpp b/src/vmime/net/imap/IMAPSearchAttributes.cpp
index 7675f3e..9ad5dab 100644
--- a/src/vmime/net/imap/IMAPSearchAttributes.cpp
+++ b/src/vmime/net/imap/IMAPSearchAttributes.cpp
@@ -51,6 +51,28 @@ protected:
 };
 
 
+// Quoted strings can't contain line breaks, and some characters are escaped
+static const string quoteKeyword(const string& keyword) {
+
+	string quoted("\"");
+
+	for (string::const_iterator it = keyword.begin() ; it != keyword.end() ; ++it) {
+
+		if (*it == '\r' || *it == '\n' || *it == '\0') {
+			throw exceptions::invalid_argument();
+		}
+
+		if (*it == '\\' || *it == '"') {
+			quoted += '\\';
+		}
+
+		quoted += *it;
+	}
+
+	return quoted + "\"";
+}
+
+
 // Represents a string search token with the search string quoted
 class stringToken : public typedSearchToken <string> {
 
@@ -63,7 +85,7 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		out << m_token << " \"" << m_keyword << "\"";
+		out << m_token << " " << quoteKeyword(m_keyword);
 	};
 };
 
@@ -85,7 +107,7 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		out << m_token << " " << m_keyword << " \"" << m_headerKeyword << "\"";
+		out << m_token << " " << m_keyword << " " << quoteKeyword(m_headerKeyword);
 	};
 
 protected:
-- 
2.43.0


From 00b9d0ab0753c83b0aff5dcc614fdca842ec2dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 21/86] fix: IMAP: check that the folder is open, allow opening
 a folder when another object for it is closed

---
 src/vmime/net/imap/IMAPFolder.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 763a315..d95a8fe 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -182,7 +182,7 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 	for (std::list <IMAPFolder*>::iterator it = store->m_folders.begin() ;
 	     it != store->m_folders.end() ; ++it) {
 
-		if ((*it) != this && (*it)->getFullPath() == m_path) {
+		if ((*it) != this && (*it)->isOpen() && (*it)->getFullPath() == m_path) {
 			throw exceptions::folder_already_open();
 		}
 	}
@@ -208,7 +208,7 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 
 		std::vector <string> selectParams;
 
-		if (m_connection->hasCapability("CONDSTORE")) {
+		if (connection->hasCapability("CONDSTORE")) {
 			selectParams.push_back("CONDSTORE");
 		}
 
@@ -322,6 +322,7 @@ void IMAPFolder::close(const bool expunge) {
 			m_connection->disconnect();
 		m_connection = nullptr;
 		m_open = false;
+		onClose();
 		throw exceptions::illegal_state("Store disconnected");
 	}
 
@@ -1115,6 +1116,10 @@ void IMAPFolder::setMessageFlags(
 	const int mode
 ) {
 
+	if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	}
+
 	const std::vector <string> flagList = IMAPUtils::messageFlagList(flags);
 
 	if ((mode == message::FLAG_MODE_SET) || !flagList.empty()) {
@@ -1516,6 +1521,10 @@ void IMAPFolder::noop() {
 
 std::vector <size_t> IMAPFolder::getMessageNumbersStartingOnUID(const message::uid& uid) {
 
+	if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	}
+
 	// Send the request
 	std::ostringstream uidSearchKey;
 	uidSearchKey.imbue(std::locale::classic());
@@ -1570,6 +1579,10 @@ std::vector <size_t> IMAPFolder::getMessageNumbersMatchingSearchAttributes(
 	const vmime::charset* charset
 ) {
 
+	if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	}
+
 	auto searchKeys = sa.generate();
 
 	IMAPCommand::SEARCH(searchKeys, charset)->send(m_connection);
@@ -1618,6 +1631,10 @@ std::vector <message::uid> IMAPFolder::getMessageUIDsMatchingSearchAttributes(
 	const vmime::charset* charset
 ) {
 
+	if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	}
+
 	auto searchKeys = sa.generate();
 
 	IMAPCommand::UIDSEARCH(searchKeys, charset)->send(m_connection);
-- 
2.43.0


From 4a42bcc799453c2462cd3241da877bf1fe73290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 22/86] fix: IMAP: updates sent with the response to a command
 that fails were lost

---
 src/vmime/net/imap/IMAPFolder.cpp  | 19 +++++++++++++++++++
 src/vmime/net/imap/IMAPMessage.cpp |  4 ++++
 2 files changed, 23 insertions(+)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index d95a8fe..dbcf0e8 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -449,6 +449,7 @@ void IMAPFolder::create(const folderAttributes& attribs) {
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("CREATE", resp->getErrorLog(), "bad response");
 	}
 
@@ -488,6 +489,7 @@ void IMAPFolder::destroy() {
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("DELETE", resp->getErrorLog(), "bad response");
 	}
 
@@ -550,6 +552,7 @@ int IMAPFolder::testExistAndGetType() {
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("LIST", resp->getErrorLog(), "bad response");
 	}
 
@@ -655,6 +658,7 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("UID FETCH ... UID", resp->getErrorLog(), "bad response");
 	}
 
@@ -794,6 +798,7 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("LIST", resp->getErrorLog(), "bad response");
 	}
 
@@ -894,6 +899,7 @@ void IMAPFolder::fetchMessages(
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("FETCH", resp->getErrorLog(), "bad response");
 	}
 
@@ -985,6 +991,7 @@ std::vector <shared_ptr <message> > IMAPFolder::getAndFetchMessages(
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("FETCH", resp->getErrorLog(), "bad response");
 	}
 
@@ -1103,6 +1110,7 @@ void IMAPFolder::deleteMessages(const messageSet& msgs) {
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("STORE", resp->getErrorLog(), "bad response");
 	}
 
@@ -1133,6 +1141,7 @@ void IMAPFolder::setMessageFlags(
 		if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+			processStatusUpdate(resp.get());
 			throw exceptions::command_error("STORE", resp->getErrorLog(), "bad response");
 		}
 
@@ -1198,6 +1207,7 @@ messageSet IMAPFolder::addMessage(
 	}
 
 	if (!ok) {
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("APPEND", resp->getErrorLog(), "bad response");
 	}
 
@@ -1269,6 +1279,7 @@ messageSet IMAPFolder::addMessage(
 	if (finalResp->isBad() || finalResp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(finalResp.get());
 		throw exceptions::command_error("APPEND", resp->getErrorLog(), "bad response");
 	}
 
@@ -1306,6 +1317,7 @@ void IMAPFolder::expunge() {
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("EXPUNGE", resp->getErrorLog(), "bad response");
 	}
 
@@ -1339,6 +1351,7 @@ void IMAPFolder::rename(const folder::path& newPath) {
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("RENAME", resp->getErrorLog(), "bad response");
 	}
 
@@ -1405,6 +1418,7 @@ messageSet IMAPFolder::copyMessages(const folder::path& dest, const messageSet&
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("COPY", resp->getErrorLog(), "bad response");
 	}
 
@@ -1465,6 +1479,7 @@ shared_ptr <folderStatus> IMAPFolder::getStatus() {
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("STATUS", resp->getErrorLog(), "bad response");
 	}
 
@@ -1512,6 +1527,7 @@ void IMAPFolder::noop() {
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("NOOP", resp->getErrorLog());
 	}
 
@@ -1541,6 +1557,7 @@ std::vector <size_t> IMAPFolder::getMessageNumbersStartingOnUID(const message::u
 	if (resp->isBad() ||
 	    resp->response_done->response_tagged->resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("SEARCH", resp->getErrorLog(), "bad response");
 	}
 
@@ -1593,6 +1610,7 @@ std::vector <size_t> IMAPFolder::getMessageNumbersMatchingSearchAttributes(
 	if (resp->isBad() ||
 		resp->response_done->response_tagged->resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("SEARCH", resp->getErrorLog(), "bad response");
 	}
 
@@ -1645,6 +1663,7 @@ std::vector <message::uid> IMAPFolder::getMessageUIDsMatchingSearchAttributes(
 	if (resp->isBad() ||
 		resp->response_done->response_tagged->resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("UIDSEARCH", resp->getErrorLog(), "bad response");
 	}
 
diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index 71caf02..b44952d 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -478,6 +478,10 @@ size_t IMAPMessage::extractImpl(
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		if (shared_ptr <IMAPFolder> thisFolder = m_folder.lock()) {
+			thisFolder->processStatusUpdate(resp.get());
+		}
+
 		throw exceptions::command_error("FETCH", resp->getErrorLog(), "bad response");
 	}
 
-- 
2.43.0


From 092c2bd88fdcd9c19985bf82000b34991e10fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 23/86] fix: IMAP: updates sent with the response to a refused
 CLOSE were lost

---
 src/vmime/net/imap/IMAPFolder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index dbcf0e8..2ef94a2 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -352,6 +352,7 @@ void IMAPFolder::close(const bool expunge) {
 		if (resp->isBad() || resp->response_done->response_tagged->
 				resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+			processStatusUpdate(resp.get());
 			throw exceptions::command_error("CLOSE", resp->getErrorLog(), "bad response");
 		}
 	}
-- 
2.43.0


From e5bb41096529a4d61b408b4d7541d60119de2dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 24/86] fix: IMAP: search keys: UID sets are not in
 parentheses, sizes are unsigned

---
 src/vmime/net/imap/IMAPSearchAttributes.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/vmime/net/imap/IMAPSearchAttributes.cpp b/src/vmime/net/imap/IMAPSearchAttributes.cpp
index 9ad5dab..acd15a9 100644
--- a/src/vmime/net/imap/IMAPSearchAttributes.cpp
+++ b/src/vmime/net/imap/IMAPSearchAttributes.cpp
@@ -133,7 +133,7 @@ public:
 };
 
 
-class numberToken : public typedSearchToken< int > {
+class numberToken : public typedSearchToken <uint32_t> {
 
 public:
 
@@ -246,16 +246,15 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		if (*m_token) {
-			out << m_token << " (";
-		}
-		else {
-			out << "(";
-		}
 		tokenMessageSetEnumerator enu;
 		m_keyword.enumerate(enu);
-		out << enu.str();
-		out << ")";
+
+		// Sequence set can't be in parentheses after a keyword
+		if (*m_token) {
+			out << m_token << " " << enu.str();
+		} else {
+			out << "(" << enu.str() << ")";
+		}
 	}
 };
 
-- 
2.43.0


From 13adf87aa3c0e39ba8117f9ece541fbdc061662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 25/86] fix: IMAP: message flags were taken for folder
 attributes when opening a folder, report the mode the server granted

---
 src/vmime/net/imap/IMAPFolder.cpp | 39 ++++++-------------------------
 1 file changed, 7 insertions(+), 32 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 2ef94a2..9458f07 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -256,30 +256,6 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 							break;
 					}
 				}
-
-			// Untagged responses: FLAGS, EXISTS, RECENT (required)
-			} else if (responseData->mailbox_data) {
-
-				switch (responseData->mailbox_data->type) {
-
-					default: break;
-
-					case IMAPParser::mailbox_data::FLAGS: {
-
-						if (!m_attribs) {
-							m_attribs = make_shared <folderAttributes>();
-						}
-
-						IMAPUtils::mailboxFlagsToFolderAttributes(
-							connection,
-							m_path,
-							*responseData->mailbox_data->mailbox_flag_list,
-							*m_attribs
-						);
-
-						break;
-					}
-				}
 			}
 		}
 
@@ -287,24 +263,23 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 
 		// Check for access mode (read-only or read-write)
 		auto *respTextCode = resp->response_done->response_tagged->resp_cond_state->resp_text->resp_text_code.get();
+		int openMode = mode;
 
 		if (respTextCode) {
 
-			const int openMode =
-				(respTextCode->type == IMAPParser::resp_text_code::READ_WRITE)
-					? MODE_READ_WRITE
-					: MODE_READ_ONLY;
+			if (mode == MODE_READ_WRITE && respTextCode->type == IMAPParser::resp_text_code::READ_ONLY) {
 
-			if (failIfModeIsNotAvailable &&
-			    mode == MODE_READ_WRITE && openMode == MODE_READ_ONLY) {
+				if (failIfModeIsNotAvailable) {
+					throw exceptions::operation_not_supported();
+				}
 
-				throw exceptions::operation_not_supported();
+				openMode = MODE_READ_ONLY;
 			}
 		}
 
 		m_connection = connection;
 		m_open = true;
-		m_mode = mode;
+		m_mode = openMode;
 
 	} catch (std::exception&) {
 
-- 
2.43.0


From e3fe768a20032eecd35f40ddec4256fc30635d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 26/86] fix: IMAP: folder attributes were stale after creating
 or deleting the folder

---
 src/vmime/net/imap/IMAPFolder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 9458f07..3751fa0 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -429,6 +429,9 @@ void IMAPFolder::create(const folderAttributes& attribs) {
 		throw exceptions::command_error("CREATE", resp->getErrorLog(), "bad response");
 	}
 
+	// Attributes have to be retrieved again
+	m_attribs = null;
+
 	// Notify folder created
 	shared_ptr <events::folderEvent> event =
 		make_shared <events::folderEvent>(
@@ -469,6 +472,9 @@ void IMAPFolder::destroy() {
 		throw exceptions::command_error("DELETE", resp->getErrorLog(), "bad response");
 	}
 
+	// Attributes have to be retrieved again
+	m_attribs = null;
+
 	// Notify folder deleted
 	shared_ptr <events::folderEvent> event =
 		make_shared <events::folderEvent>(
-- 
2.43.0


From c0c0f4a76eeaaff52c9daa7e69a58aad640f2d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:55 +0000
Subject: [PATCH 27/86] fix: POP3: dot-unstuffing of responses depended on how
 they were received and could read out of bounds

---
 src/vmime/net/pop3/POP3Response.cpp | 35 +++++++++--------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 9a7f54c..5a69abd 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -286,8 +286,6 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 
 	buffer.clear();
 
-	char last1 = '\0', last2 = '\0';
-
 	for ( ; !foundTerminator ; ) {
 
 		// Check whether the time-out delay is elapsed
@@ -320,28 +318,6 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 			m_timeoutHandler->resetTimeOut();
 		}
 
-		// Check for transparent characters: '\n..' becomes '\n.'
-		const char first = receiveBuffer[0];
-
-		if (first == '.' && last2 == '\n' && last1 == '.') {
-
-			receiveBuffer.erase(receiveBuffer.begin());
-
-		} else if (receiveBuffer.length() >= 2 && first == '.' &&
-		           receiveBuffer[1] == '.' && last1 == '\n') {
-
-			receiveBuffer.erase(receiveBuffer.begin());
-		}
-
-		for (size_t trans ;
-		     string::npos != (trans = receiveBuffer.find("\n..")) ; ) {
-
-			receiveBuffer.replace(trans, 3, "\n.");
-		}
-
-		last1 = receiveBuffer[receiveBuffer.length() - 1];
-		last2 = static_cast <char>((receiveBuffer.length() >= 2) ? receiveBuffer[receiveBuffer.length() - 2] : 0);
-
 		// Append the data to the response buffer
 		buffer += receiveBuffer;
 
@@ -359,6 +335,17 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 			foundTerminator = checkTerminator(buffer, false);
 		}
 	}
+
+	// Undo transparency: '\n..' becomes '\n.' (this is done once the whole
+	// response is there, so that it does not depend on how it was received)
+	if (multiLine) {
+
+		for (size_t trans = 0 ;
+		     string::npos != (trans = buffer.find("\n..", trans)) ; ++trans) {
+
+			buffer.replace(trans, 3, "\n.");
+		}
+	}
 }
 
 
-- 
2.43.0


From 77c50c9d61e28ca2c15a7f01913c93fac208c96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 28/86] fix: IMAP parser: an empty atom in a header list was
 accepted without end

---
 src/vmime/net/imap/IMAPParser.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 938ec9c..69de72b 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1314,6 +1314,11 @@ public:
 						end = true;
 					}
 				}
+
+				// At least one character is needed
+				if (value.empty()) {
+					VIMAP_PARSER_FAIL();
+				}
 			}
 
 			*currentPos = pos;
-- 
2.43.0


From 58cf2df7f6616e7a7c74f330dc62b5fe7f9fcb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 29/86] fix: IMAP parser: null pointer when the server lists
 AUTH= without a mechanism

---
 src/vmime/net/imap/IMAPParser.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 69de72b..de86250 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -2280,7 +2280,10 @@ public:
 				size_t pos = 5;
 				auth_type.reset(parser.get <IMAPParser::auth_type>(value, &pos));
 
-				atom.reset();
+				// Mechanism name may be missing ("AUTH=")
+				if (auth_type) {
+					atom.reset();
+				}
 			}
 
 			*currentPos = pos;
-- 
2.43.0


From 1ec18fe7c8cfcee9eb868114072129d8c76a2bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 30/86] fix: SASL: the challenge given to gsasl was not
 null-terminated

---
 src/vmime/security/sasl/builtinSASLMechanism.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmime/security/sasl/builtinSASLMechanism.cpp b/src/vmime/security/sasl/builtinSASLMechanism.cpp
index 020cae9..a2c85df 100644
--- a/src/vmime/security/sasl/builtinSASLMechanism.cpp
+++ b/src/vmime/security/sasl/builtinSASLMechanism.cpp
@@ -82,9 +82,12 @@ bool builtinSASLMechanism::step(
 		throw exceptions::sasl_exception("Invalid SASL session");
 	}
 
+	// Some mechanisms treat the challenge as a null-terminated string
+	const string input(challenge, challenge + challengeLen);
+
 	const int result = gsasl_step(
 		sess->m_gsaslSession,
-		reinterpret_cast <const char*>(challenge), challengeLen,
+		input.c_str(), input.length(),
 		&output, &outputLen
 	);
 
-- 
2.43.0


From e7981a3348cf29acd70f67c7cb727a1a51ff8c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:38 +0000
Subject: [PATCH 31/86] fix: X509: the issuer of a certificate was not verified
 by its signature

---
 .../cert/gnutls/X509Certificate_GnuTLS.cpp       | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
index 2ac0ed8..97d574c 100644
--- a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
+++ b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
@@ -227,7 +227,21 @@ bool X509Certificate_GnuTLS::checkIssuer(const shared_ptr <const X509Certificate
 	shared_ptr <const X509Certificate_GnuTLS> issuer =
 		dynamicCast <const X509Certificate_GnuTLS>(issuer_);
 
-	return gnutls_x509_crt_check_issuer(m_data->cert, issuer->m_data->cert) >= 1;
+	if (gnutls_x509_crt_check_issuer(m_data->cert, issuer->m_data->cert) == 0) {
+		return false;
+	}
+
+	// Names match: also check that the certificate has really been signed by
+	// this issuer (validity dates are checked separately)
+	unsigned int verify = 0;
+
+	const int res = gnutls_x509_crt_verify(
+		m_data->cert, &(issuer->m_data->cert), 1,
+		GNUTLS_VERIFY_ALLOW_X509_V1_CA_CRT | GNUTLS_VERIFY_DISABLE_TIME_CHECKS,
+		&verify
+	);
+
+	return res == 0 && verify == 0;
 }
 
 
-- 
2.43.0


From f615219dae16608e9c27850cf7ac1c325c043254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 32/86] fix: IMAP: LOGIN was sent even if the server announces
 LOGINDISABLED

---
 src/vmime/net/imap/IMAPConnection.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index e104641..d0e42b7 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -294,6 +294,13 @@ void IMAPConnection::authenticate() {
 	}
 #endif // VMIME_HAVE_SASL_SUPPORT
 
+	// The LOGIN command must not be sent if the server does not allow it
+	if (hasCapability("LOGINDISABLED")) {
+
+		internalDisconnect();
+		throw exceptions::authentication_error("LOGIN command is disabled on this server.");
+	}
+
 	// Normal authentication
 	const string username = getAuthenticator()->getUsername();
 	const string password = getAuthenticator()->getPassword();
-- 
2.43.0


From 4300b2b7bf2b8a6d3b0d44127964fc95e22ea56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 33/86] fix: SASL: a server that only offers registered
 mechanisms (XOAUTH2) could not be used

---
 src/vmime/net/imap/IMAPConnection.cpp | 4 ----
 src/vmime/net/pop3/POP3Connection.cpp | 4 ----
 src/vmime/net/smtp/SMTPConnection.cpp | 4 ----
 3 files changed, 12 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index d0e42b7..f0eb4be 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -381,10 +381,6 @@ void IMAPConnection::authenticateSASL() {
 	shared_ptr <security::sasl::SASLMechanism> suggestedMech =
 		saslContext->suggestMechanism(mechList);
 
-	if (!suggestedMech) {
-		throw exceptions::authentication_error("Unable to suggest SASL mechanism.");
-	}
-
 	// Allow application to choose which mechanisms to use
 	mechList = dynamicCast <security::sasl::SASLAuthenticator>(getAuthenticator())->
 		getAcceptableMechanisms(mechList, suggestedMech);
diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index d6dbd50..e57696b 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -442,10 +442,6 @@ void POP3Connection::authenticateSASL() {
 	shared_ptr <security::sasl::SASLMechanism> suggestedMech =
 		saslContext->suggestMechanism(mechList);
 
-	if (!suggestedMech) {
-		throw exceptions::authentication_error("Unable to suggest SASL mechanism.");
-	}
-
 	// Allow application to choose which mechanisms to use
 	mechList = dynamicCast <security::sasl::SASLAuthenticator>(getAuthenticator())->
 		getAcceptableMechanisms(mechList, suggestedMech);
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index bf94b97..c0e625d 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -411,10 +411,6 @@ void SMTPConnection::authenticateSASL() {
 	shared_ptr <security::sasl::SASLMechanism> suggestedMech =
 		saslContext->suggestMechanism(mechList);
 
-	if (!suggestedMech) {
-		throw exceptions::authentication_error("Unable to suggest SASL mechanism.");
-	}
-
 	// Allow application to choose which mechanisms to use
 	mechList = dynamicCast <security::sasl::SASLAuthenticator>(getAuthenticator())->
 		getAcceptableMechanisms(mechList, suggestedMech);
-- 
2.43.0


From fad459fa9138e5da37fdb05ea710f31e52781abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 34/86] fix: SMTP/POP3: the SASL initial response (an access
 token) was shown in the trace

---
 src/vmime/net/pop3/POP3Command.cpp | 6 +++++-
 src/vmime/net/smtp/SMTPCommand.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Command.cpp b/src/vmime/net/pop3/POP3Command.cpp
index 0ddd080..62385b9 100644
--- a/src/vmime/net/pop3/POP3Command.cpp
+++ b/src/vmime/net/pop3/POP3Command.cpp
@@ -81,7 +81,11 @@ shared_ptr <POP3Command> POP3Command::AUTH(const string& mechName, const string&
 	cmd.imbue(std::locale::classic());
 	cmd << "AUTH " << mechName << " " << initialResponse;
 
-	return createCommand(cmd.str());
+	std::ostringstream trace;
+	trace.imbue(std::locale::classic());
+	trace << "AUTH " << mechName << " {initial response}";
+
+	return createCommand(cmd.str(), trace.str());
 }
 
 
diff --git a/src/vmime/net/smtp/SMTPCommand.cpp b/src/vmime/net/smtp/SMTPCommand.cpp
index c636d4b..6d47402 100644
--- a/src/vmime/net/smtp/SMTPCommand.cpp
+++ b/src/vmime/net/smtp/SMTPCommand.cpp
@@ -88,7 +88,11 @@ shared_ptr <SMTPCommand> SMTPCommand::AUTH(const string& mechName, const std::st
 	cmd.imbue(std::locale::classic());
 	cmd << "AUTH " << mechName << " " << initialResponse;
 
-	return createCommand(cmd.str());
+	std::ostringstream trace;
+	trace.imbue(std::locale::classic());
+	trace << "AUTH " << mechName << " {initial response}";
+
+	return createCommand(cmd.str(), trace.str());
 }
 
 
-- 
2.43.0


From 84cb57827885d9b6129ea1c8429245925022b5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 35/86] fix: SASL: a mechanism for which the application has no
 information prevented the next ones from being tried

---
 src/vmime/net/imap/IMAPConnection.cpp | 12 ++++++++++--
 src/vmime/net/pop3/POP3Connection.cpp | 12 ++++++++++--
 src/vmime/net/smtp/SMTPConnection.cpp | 12 ++++++++++--
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index f0eb4be..64d1b96 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -406,7 +406,15 @@ void IMAPConnection::authenticateSASL() {
 			byte_t* initialResp = 0;
 			size_t initialRespLen = 0;
 
-			saslSession->evaluateChallenge(NULL, 0, &initialResp, &initialRespLen);
+			try {
+
+				saslSession->evaluateChallenge(NULL, 0, &initialResp, &initialRespLen);
+
+			} catch (exceptions::authentication_exception&) {
+
+				// This mechanism can not be used, try the next one
+				continue;
+			}
 
 			string encodedInitialResp(saslContext->encodeB64(initialResp, initialRespLen));
 			delete [] initialResp;
@@ -482,7 +490,7 @@ void IMAPConnection::authenticateSASL() {
 					// Server capabilities may change when logged in
 					invalidateCapabilities();
 
-				} catch (exceptions::sasl_exception& e) {
+				} catch (exceptions::authentication_exception&) {
 
 					if (challenge) {
 						delete [] challenge;
diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index e57696b..0fb738e 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -467,7 +467,15 @@ void POP3Connection::authenticateSASL() {
 			byte_t* initialResp = 0;
 			size_t initialRespLen = 0;
 
-			saslSession->evaluateChallenge(NULL, 0, &initialResp, &initialRespLen);
+			try {
+
+				saslSession->evaluateChallenge(NULL, 0, &initialResp, &initialRespLen);
+
+			} catch (exceptions::authentication_exception&) {
+
+				// This mechanism can not be used, try the next one
+				continue;
+			}
 
 			string encodedInitialResp(saslContext->encodeB64(initialResp, initialRespLen));
 			delete [] initialResp;
@@ -522,7 +530,7 @@ void POP3Connection::authenticateSASL() {
 							m_tracer->traceSendBytes(respB64.length() - 2, "SASL exchange");
 						}
 
-					} catch (exceptions::sasl_exception& e) {
+					} catch (exceptions::authentication_exception&) {
 
 						if (challenge) {
 							delete [] challenge;
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index c0e625d..280be0d 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -434,7 +434,15 @@ void SMTPConnection::authenticateSASL() {
 			byte_t* initialResp = 0;
 			size_t initialRespLen = 0;
 
-			saslSession->evaluateChallenge(NULL, 0, &initialResp, &initialRespLen);
+			try {
+
+				saslSession->evaluateChallenge(NULL, 0, &initialResp, &initialRespLen);
+
+			} catch (exceptions::authentication_exception&) {
+
+				// This mechanism can not be used, try the next one
+				continue;
+			}
 
 			string encodedInitialResp(saslContext->encodeB64(initialResp, initialRespLen));
 			delete [] initialResp;
@@ -485,7 +493,7 @@ void SMTPConnection::authenticateSASL() {
 							m_tracer->traceSendBytes(respB64.length() - 2, "SASL exchange");
 						}
 
-					} catch (exceptions::sasl_exception& e) {
+					} catch (exceptions::authentication_exception&) {
 
 						if (challenge) {
 							delete [] challenge;
-- 
2.43.0


From e60b4e2e5e1efd249cb3a77efaa4768c95586f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 36/86] fix: IMAP: a SASL initial response was sent to servers
 that do not support it (SASL-IR)

---
 src/vmime/net/imap/IMAPConnection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 64d1b96..b096dbd 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -389,6 +389,9 @@ void IMAPConnection::authenticateSASL() {
 		throw exceptions::authentication_error("No SASL mechanism available.");
 	}
 
+	// Initial response is only allowed if the server supports it [RFC-4959]
+	const bool initialResponseAllowed = hasCapability("SASL-IR");
+
 	// Try each mechanism in the list in turn
 	for (unsigned int i = 0 ; i < mechList.size() ; ++i) {
 
@@ -401,7 +404,7 @@ void IMAPConnection::authenticateSASL() {
 
 		shared_ptr <IMAPCommand> authCmd;
 
-		if (saslSession->getMechanism()->hasInitialResponse()) {
+		if (initialResponseAllowed && saslSession->getMechanism()->hasInitialResponse()) {
 
 			byte_t* initialResp = 0;
 			size_t initialRespLen = 0;
-- 
2.43.0


From ec02ef18357f0b80afa4d730541e8420b2cb701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 37/86] fix: write the rest of the data after a partial write
 to a file

---
 src/vmime/platforms/posix/posixFile.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 9773b3a..0f7f5ed 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -150,7 +150,7 @@ void posixFileWriterOutputStream::writeImpl(
 	const byte_t* array = data;
 	size_t size = count;
 
-	while (1) {
+	while (size > 0) {
 
 		ssize_t ret = ::write(m_fd, array, size);
 
@@ -162,14 +162,11 @@ void posixFileWriterOutputStream::writeImpl(
 
 			posixFileSystemFactory::reportError(m_path, errno);
 			break;
-
-		} else if (size_t(ret) < size) {
-
-			array += ret;
-			size -= ret;
 		}
 
-		break;
+		// Possibly a partial write: go on with what remains
+		array += ret;
+		size -= ret;
 	}
 }
 
-- 
2.43.0


From 737ce97d9d7016b7f1e11b312814c53dd92741cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 38/86] fix: rename files and directories in one step, without
 overwriting

---
 src/vmime/platforms/posix/posixFile.cpp | 35 ++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 0f7f5ed..fa59ac4 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -481,8 +481,32 @@ void posixFile::rename(const path& newName) {
 
 	const vmime::string newNativePath = posixFileSystemFactory::pathToStringImpl(newName);
 
+	// Never overwrite an existing file, and never let an empty file be seen
+	// under the new name in the meantime
+#ifdef RENAME_NOREPLACE
+
+	if (::renameat2(AT_FDCWD, m_nativePath.c_str(), AT_FDCWD, newNativePath.c_str(), RENAME_NOREPLACE) == 0) {
+
+		m_path = newName;
+		m_nativePath = newNativePath;
+
+		return;
+
+	} else if (errno != ENOSYS && errno != EINVAL) {
+
+		posixFileSystemFactory::reportError(m_path, errno);
+	}
+
+	// Not supported by the kernel or by the file system
+
+#endif // RENAME_NOREPLACE
+
 	posixFile dest(newName);
 
+	if (dest.exists()) {
+		posixFileSystemFactory::reportError(newName, EEXIST);
+	}
+
 	if (isDirectory()) {
 		dest.createDirectory();
 	} else {
@@ -490,7 +514,16 @@ void posixFile::rename(const path& newName) {
 	}
 
 	if (::rename(m_nativePath.c_str(), newNativePath.c_str()) == -1) {
-		posixFileSystemFactory::reportError(m_path, errno);
+
+		const int err = errno;
+
+		try {
+			dest.remove();
+		} catch (vmime::exceptions::filesystem_exception&) {
+			// Ignore
+		}
+
+		posixFileSystemFactory::reportError(m_path, err);
 	}
 
 	m_path = newName;
-- 
2.43.0


From c8f87f80a215f71f1322cdc16aa75af09565e067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 39/86] fix: interrupted calls, descriptor leaks and throwing
 destructors in file access

---
 src/vmime/platforms/posix/posixFile.cpp | 55 ++++++++++++++++++-------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index fa59ac4..63d613f 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -66,17 +66,24 @@ posixFileIterator::posixFileIterator(
 		posixFileSystemFactory::reportError(path, errno);
 	}
 
-	getNextElement();
+	try {
+
+		getNextElement();
+
+	} catch (vmime::exception&) {
+
+		// The destructor is not going to be called
+		::closedir(m_dir);
+		throw;
+	}
 }
 
 
 posixFileIterator::~posixFileIterator() {
 
+	// Don't throw in destructor
 	if (m_dir) {
-
-		if (::closedir(m_dir) == -1) {
-			posixFileSystemFactory::reportError(m_path, errno);
-		}
+		::closedir(m_dir);
 	}
 }
 
@@ -173,8 +180,11 @@ void posixFileWriterOutputStream::writeImpl(
 
 void posixFileWriterOutputStream::flush() {
 
-	if (::fsync(m_fd) == -1) {
-		posixFileSystemFactory::reportError(m_path, errno);
+	while (::fsync(m_fd) == -1) {
+
+		if (errno != EINTR) {
+			posixFileSystemFactory::reportError(m_path, errno);
+		}
 	}
 }
 
@@ -197,9 +207,8 @@ posixFileReaderInputStream::posixFileReaderInputStream(
 
 posixFileReaderInputStream::~posixFileReaderInputStream() {
 
-	if (::close(m_fd) == -1) {
-		posixFileSystemFactory::reportError(m_path, errno);
-	}
+	// Don't throw in destructor
+	::close(m_fd);
 }
 
 
@@ -226,8 +235,11 @@ size_t posixFileReaderInputStream::read(
 
 	ssize_t c = 0;
 
-	if ((c = ::read(m_fd, data, count)) == -1) {
-		posixFileSystemFactory::reportError(m_path, errno);
+	while ((c = ::read(m_fd, data, count)) == -1) {
+
+		if (errno != EINTR) {
+			posixFileSystemFactory::reportError(m_path, errno);
+		}
 	}
 
 	if (c == 0 && count != 0) {
@@ -352,12 +364,23 @@ void posixFile::createFile() {
 		posixFileSystemFactory::reportError(m_path, errno);
 	}
 
-	if (::fsync(fd) == -1) {
-		posixFileSystemFactory::reportError(m_path, errno);
+	int err = 0;
+
+	while (::fsync(fd) == -1) {
+
+		if (errno != EINTR) {
+			err = errno;
+			break;
+		}
 	}
 
-	if (::close(fd) == -1) {
-		posixFileSystemFactory::reportError(m_path, errno);
+	if (::close(fd) == -1 && !err) {
+		err = errno;
+	}
+
+	if (err) {
+		::unlink(m_nativePath.c_str());
+		posixFileSystemFactory::reportError(m_path, err);
 	}
 }
 
-- 
2.43.0


From 579a29c7e4590ebea189ad8667d68a3a04f49e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 40/86] fix: dashes in maildir file names are not always flag
 separators

---
 src/vmime/net/maildir/maildirUtils.cpp | 32 ++++++++++++++++----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/vmime/net/maildir/maildirUtils.cpp b/src/vmime/net/maildir/maildirUtils.cpp
index 9942e56..c97471e 100644
--- a/src/vmime/net/maildir/maildirUtils.cpp
+++ b/src/vmime/net/maildir/maildirUtils.cpp
@@ -68,17 +68,29 @@ bool maildirUtils::isMessageFile(const utility::file& file) {
 // characters when reading file names.
 
 
-const utility::file::path::component maildirUtils::extractId(
-	const utility::file::path::component& filename
-) {
+// Return the position of the separator, or npos if there are no flags in
+// the filename. As the unique identifier itself may contain dashes (in the
+// host name, for example), a dash is a separator only if flags follow it.
+
+static size_t findFlagsSeparator(const string& filename) {
 
-	size_t sep = filename.getBuffer().rfind(':');  // try colon
+	const size_t sep = filename.rfind(':');  // try colon
 
 	if (sep == string::npos) {
-		sep = filename.getBuffer().rfind('-');  // try dash (Windows)
-		if (sep == string::npos) return (filename);
+		return filename.rfind("-2,");  // try dash (Windows)
 	}
 
+	return sep;
+}
+
+
+const utility::file::path::component maildirUtils::extractId(
+	const utility::file::path::component& filename
+) {
+
+	size_t sep = findFlagsSeparator(filename.getBuffer());
+	if (sep == string::npos) return (filename);
+
 	return utility::path::component(
 		string(filename.getBuffer().begin(), filename.getBuffer().begin() + sep)
 	);
@@ -87,12 +99,8 @@ const utility::file::path::component maildirUtils::extractId(
 
 int maildirUtils::extractFlags(const utility::file::path::component& comp) {
 
-	size_t sep = comp.getBuffer().rfind(':');  // try colon
-
-	if (sep == string::npos) {
-		sep = comp.getBuffer().rfind('-');  // try dash (Windows)
-		if (sep == string::npos) return 0;
-	}
+	size_t sep = findFlagsSeparator(comp.getBuffer());
+	if (sep == string::npos) return 0;
 
 	const string flagsString(comp.getBuffer().begin() + sep + 1, comp.getBuffer().end());
 	const size_t count = flagsString.length();
-- 
2.43.0


From 1a25a34f913b9db3eb384e6677667c3feb573c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 41/86] fix: scan maildir folders safely

List each message once, survive concurrent changes made by other clients,
and report errors instead of showing an incomplete or empty folder.
---
 src/vmime/net/maildir/maildirFolder.cpp | 244 ++++++++++++++----------
 src/vmime/net/maildir/maildirFolder.hpp |   2 +
 2 files changed, 147 insertions(+), 99 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 4485767..b2879a6 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -43,6 +43,8 @@
 #include "vmime/utility/outputStreamAdapter.hpp"
 #include "vmime/utility/inputStreamStringAdapter.hpp"
 
+#include <map>
+
 
 namespace vmime {
 namespace net {
@@ -149,7 +151,14 @@ void maildirFolder::open(const int mode, bool /* failIfModeIsNotAvailable */) {
 		throw exceptions::illegal_state("Folder does not exist");
 	}
 
-	scanFolder();
+	// Forget about messages from a previous opening of this folder
+	m_messageInfos.clear();
+
+	try {
+		scanFolder();
+	} catch (exceptions::filesystem_exception& e) {
+		throw exceptions::command_error("OPEN", "", "", e);
+	}
 
 	m_open = true;
 	m_mode = mode;
@@ -284,150 +293,183 @@ bool maildirFolder::isOpen() const {
 }
 
 
+void maildirFolder::messageInfos::setPath(const utility::file::path::component& newPath) {
+
+	path = newPath;
+
+	if (maildirUtils::extractFlags(newPath) & message::FLAG_DELETED) {
+		type = TYPE_DELETED;
+	} else {
+		type = TYPE_CUR;
+	}
+}
+
+
 void maildirFolder::scanFolder() {
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
-	try {
+	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
-		m_messageCount = 0;
-		m_unreadMessageCount = 0;
+	utility::file::path newDirPath =
+		store->getFormat()->folderPathToFileSystemPath(m_path, maildirFormat::NEW_DIRECTORY);
+	shared_ptr <utility::file> newDir = fsf->create(newDirPath);
 
-		shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
+	utility::file::path curDirPath =
+		store->getFormat()->folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
+	shared_ptr <utility::file> curDir = fsf->create(curDirPath);
 
-		utility::file::path newDirPath =
-			store->getFormat()->folderPathToFileSystemPath(m_path, maildirFormat::NEW_DIRECTORY);
-		shared_ptr <utility::file> newDir = fsf->create(newDirPath);
+	// New received messages (new/)
+	shared_ptr <utility::fileIterator> nit = newDir->getFiles();
+	std::vector <utility::file::path::component> newMessageFilenames;
 
-		utility::file::path curDirPath =
-			store->getFormat()->folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
-		shared_ptr <utility::file> curDir = fsf->create(curDirPath);
+	while (nit->hasMoreElements()) {
 
-		// New received messages (new/)
-		shared_ptr <utility::fileIterator> nit = newDir->getFiles();
-		std::vector <utility::file::path::component> newMessageFilenames;
+		shared_ptr <utility::file> file = nit->nextElement();
 
-		while (nit->hasMoreElements()) {
+		if (maildirUtils::isMessageFile(*file)) {
+			newMessageFilenames.push_back(file->getFullPath().getLastComponent());
+		}
+	}
 
-			shared_ptr <utility::file> file = nit->nextElement();
+	// Current messages (cur/)
+	shared_ptr <utility::fileIterator> cit = curDir->getFiles();
+	std::vector <utility::file::path::component> curMessageFilenames;
 
-			if (maildirUtils::isMessageFile(*file)) {
-				newMessageFilenames.push_back(file->getFullPath().getLastComponent());
-			}
-		}
+	std::map <string, size_t> curMessageIds;
 
-		// Current messages (cur/)
-		shared_ptr <utility::fileIterator> cit = curDir->getFiles();
-		std::vector <utility::file::path::component> curMessageFilenames;
+	while (cit->hasMoreElements()) {
 
-		while (cit->hasMoreElements()) {
+		shared_ptr <utility::file> file = cit->nextElement();
 
-			shared_ptr <utility::file> file = cit->nextElement();
+		if (maildirUtils::isMessageFile(*file)) {
 
-			if (maildirUtils::isMessageFile(*file)) {
-				curMessageFilenames.push_back(file->getFullPath().getLastComponent());
+			const utility::file::path::component filename = file->getFullPath().getLastComponent();
+			const string id = maildirUtils::extractId(filename).getBuffer();
+
+			// If a message is renamed by another client while we are listing
+			// the directory, it may be found under both names
+			const std::map <string, size_t>::const_iterator same = curMessageIds.find(id);
+
+			if (same != curMessageIds.end() &&
+			    !fsf->create(curDirPath / curMessageFilenames[same->second])->isFile()) {
+
+				curMessageFilenames[same->second] = filename;
+
+			} else {
+
+				curMessageIds[id] = curMessageFilenames.size();
+				curMessageFilenames.push_back(filename);
 			}
 		}
+	}
 
-		// Update/delete existing messages (found in previous scan)
-		for (size_t i = 0 ; i < m_messageInfos.size() ; ++i) {
+	// Work on a copy: if an error occurs, nothing changes
+	std::vector <messageInfos> infos(m_messageInfos);
 
-			messageInfos& msgInfos = m_messageInfos[i];
+	// Update/delete existing messages (found in previous scan)
+	for (size_t i = 0 ; i < infos.size() ; ++i) {
 
-			// NOTE: the flags may have changed (eg. moving from 'new' to 'cur'
-			// may imply the 'S' flag) and so the filename. That's why we use
-			// "maildirUtils::messageIdComparator" to compare only the 'unique'
-			// portion of the filename...
+		messageInfos& msgInfos = infos[i];
 
-			if (msgInfos.type == messageInfos::TYPE_CUR) {
+		// NOTE: the flags may have changed (eg. moving from 'new' to 'cur'
+		// may imply the 'S' flag) and so the filename. That's why we use
+		// "maildirUtils::messageIdComparator" to compare only the 'unique'
+		// portion of the filename...
 
-				const std::vector <utility::file::path::component>::iterator pos =
-					std::find_if(
-						curMessageFilenames.begin(),
-						curMessageFilenames.end(),
-						maildirUtils::messageIdComparator(msgInfos.path)
-					);
+		const std::vector <utility::file::path::component>::iterator pos =
+			std::find_if(
+				curMessageFilenames.begin(),
+				curMessageFilenames.end(),
+				maildirUtils::messageIdComparator(msgInfos.path)
+			);
 
-				// If we cannot find this message in the 'cur' directory,
-				// it means it has been deleted (and expunged).
-				if (pos == curMessageFilenames.end()) {
+		// If we cannot find this message in the 'cur' directory,
+		// it means it has been deleted (and expunged).
+		if (pos == curMessageFilenames.end()) {
 
-					msgInfos.type = messageInfos::TYPE_DELETED;
+			msgInfos.type = messageInfos::TYPE_DELETED;
 
-				// Otherwise, update its information.
-				} else {
+		// Otherwise, update its information.
+		} else {
 
-					msgInfos.path = *pos;
-					curMessageFilenames.erase(pos);
-				}
-			}
+			msgInfos.setPath(*pos);
+			curMessageFilenames.erase(pos);
 		}
+	}
+
+	infos.reserve(infos.size() + newMessageFilenames.size() + curMessageFilenames.size());
 
-		m_messageInfos.reserve(m_messageInfos.size()
-			+ newMessageFilenames.size() + curMessageFilenames.size());
+	// Add new messages from 'new': we are responsible to move the files
+	// from the 'new' directory to the 'cur' directory, and append them
+	// to our message list.
+	for (std::vector <utility::file::path::component>::const_iterator
+	     it = newMessageFilenames.begin() ; it != newMessageFilenames.end() ; ++it) {
 
-		// Add new messages from 'new': we are responsible to move the files
-		// from the 'new' directory to the 'cur' directory, and append them
-		// to our message list.
-		for (std::vector <utility::file::path::component>::const_iterator
-		     it = newMessageFilenames.begin() ; it != newMessageFilenames.end() ; ++it) {
+		utility::file::path::component newFilename =
+			maildirUtils::buildFilename(maildirUtils::extractId(*it), 0);
 
-			const utility::file::path::component newFilename =
-				maildirUtils::buildFilename(maildirUtils::extractId(*it), 0);
+		// Move messages from 'new' to 'cur'
+		shared_ptr <utility::file> file = fsf->create(newDirPath / *it);
+
+		try {
 
-			// Move messages from 'new' to 'cur'
-			shared_ptr <utility::file> file = fsf->create(newDirPath / *it);
 			file->rename(curDirPath / newFilename);
 
-			// Append to message list
-			messageInfos msgInfos;
-			msgInfos.path = newFilename;
+		} catch (exceptions::filesystem_exception&) {
 
-			if (maildirUtils::extractFlags(msgInfos.path) & message::FLAG_DELETED) {
-				msgInfos.type = messageInfos::TYPE_DELETED;
-			} else {
-				msgInfos.type = messageInfos::TYPE_CUR;
-			}
+			if (!file->isFile()) {
 
-			m_messageInfos.push_back(msgInfos);
-		}
+				// Another client has just moved this message: it may
+				// have been found in 'cur', else it will be next time
+				continue;
 
-		// Add new messages from 'cur': the files have already been moved
-		// from 'new' to 'cur'. Just append them to our message list.
-		for (std::vector <utility::file::path::component>::const_iterator
-		     it = curMessageFilenames.begin() ; it != curMessageFilenames.end() ; ++it) {
+			} else if (fsf->create(curDirPath / newFilename)->isFile()) {
 
-			// Append to message list
-			messageInfos msgInfos;
-			msgInfos.path = *it;
+				// This identifier is already used in 'cur'
+				newFilename = maildirUtils::buildFilename(maildirUtils::generateId(), 0);
+				file->rename(curDirPath / newFilename);
 
-			if (maildirUtils::extractFlags(msgInfos.path) & message::FLAG_DELETED) {
-				msgInfos.type = messageInfos::TYPE_DELETED;
 			} else {
-				msgInfos.type = messageInfos::TYPE_CUR;
-			}
 
-			m_messageInfos.push_back(msgInfos);
+				throw;
+			}
 		}
 
-		// Update message count
-		size_t unreadMessageCount = 0;
+		// Append to message list
+		messageInfos msgInfos;
+		msgInfos.setPath(newFilename);
 
-		for (std::vector <messageInfos>::const_iterator
-		     it = m_messageInfos.begin() ; it != m_messageInfos.end() ; ++it) {
+		infos.push_back(msgInfos);
+	}
 
-			if ((maildirUtils::extractFlags((*it).path) & message::FLAG_SEEN) == 0) {
-				++unreadMessageCount;
-			}
-		}
+	// Add new messages from 'cur': the files have already been moved
+	// from 'new' to 'cur'. Just append them to our message list.
+	for (std::vector <utility::file::path::component>::const_iterator
+	     it = curMessageFilenames.begin() ; it != curMessageFilenames.end() ; ++it) {
 
-		m_unreadMessageCount = unreadMessageCount;
-		m_messageCount = static_cast <size_t>(m_messageInfos.size());
+		// Append to message list
+		messageInfos msgInfos;
+		msgInfos.setPath(*it);
 
-	} catch (exceptions::filesystem_exception&) {
+		infos.push_back(msgInfos);
+	}
+
+	// Update message count
+	size_t unreadMessageCount = 0;
 
-		// Should not happen...
+	for (std::vector <messageInfos>::const_iterator
+	     it = infos.begin() ; it != infos.end() ; ++it) {
+
+		if ((maildirUtils::extractFlags((*it).path) & message::FLAG_SEEN) == 0) {
+			++unreadMessageCount;
+		}
 	}
+
+	m_messageInfos.swap(infos);
+
+	m_unreadMessageCount = unreadMessageCount;
+	m_messageCount = static_cast <size_t>(m_messageInfos.size());
 }
 
 
@@ -1076,7 +1118,11 @@ shared_ptr <folderStatus> maildirFolder::getStatus() {
 
 	const size_t oldCount = m_messageCount;
 
-	scanFolder();
+	try {
+		scanFolder();
+	} catch (exceptions::filesystem_exception& e) {
+		throw exceptions::command_error("STATUS", "", "", e);
+	}
 
 	shared_ptr <maildirFolderStatus> status = make_shared <maildirFolderStatus>();
 
@@ -1089,8 +1135,8 @@ shared_ptr <folderStatus> maildirFolder::getStatus() {
 		std::vector <size_t> nums;
 		nums.reserve(m_messageCount - oldCount);
 
-		for (size_t i = oldCount + 1, j = 0 ; i <= m_messageCount ; ++i, ++j) {
-			nums[j] = i;
+		for (size_t i = oldCount + 1 ; i <= m_messageCount ; ++i) {
+			nums.push_back(i);
 		}
 
 		shared_ptr <events::messageCountEvent> event =
diff --git a/src/vmime/net/maildir/maildirFolder.hpp b/src/vmime/net/maildir/maildirFolder.hpp
index 24f2bf8..179d56c 100644
--- a/src/vmime/net/maildir/maildirFolder.hpp
+++ b/src/vmime/net/maildir/maildirFolder.hpp
@@ -192,6 +192,8 @@ private:
 
 		utility::file::path::component path;    // filename
 		Type type;                              // current location
+
+		void setPath(const utility::file::path::component& newPath);
 	};
 
 	std::vector <messageInfos> m_messageInfos;
-- 
2.43.0


From 5aceb9ec33a143a7458d0a3325779350072f9b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 42/86] fix: maildir: flags, expunge, copies and additions when
 other clients or folder objects are involved

Changing flags or expunging silently did nothing when another client had
renamed the message; expunge removed the wrong entries from the list, and
deleted files of messages not marked as deleted; message numbers were not
validated; errors were ignored; other folder objects for the same folder
got a copy of the list with the wrong numbers in their events.
---
 src/vmime/net/maildir/maildirFolder.cpp | 531 +++++++++++++++---------
 src/vmime/net/maildir/maildirFolder.hpp |  41 ++
 2 files changed, 369 insertions(+), 203 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index b2879a6..b1ee697 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -44,6 +44,7 @@
 #include "vmime/utility/inputStreamStringAdapter.hpp"
 
 #include <map>
+#include <set>
 
 
 namespace vmime {
@@ -51,6 +52,11 @@ namespace net {
 namespace maildir {
 
 
+// How many times we look again for a message which is being renamed
+// by other clients at the same time
+static const int MAX_ATTEMPTS = 10;
+
+
 maildirFolder::maildirFolder(
 	const folder::path& path,
 	const shared_ptr <maildirStore>& store
@@ -673,27 +679,27 @@ void maildirFolder::setMessageFlags(
 		throw exceptions::illegal_state("Folder is read-only");
 	}
 
-	if (msgs.isNumberSet()) {
+	const std::vector <size_t> nums = getMessageNumbers(msgs);
 
-		const std::vector <size_t> nums = maildirUtils::messageSetToNumberList(msgs, m_messageCount);
+	// Change message flags
+	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
-		// Change message flags
-		shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
+	utility::file::path curDirPath = store->getFormat()->
+		folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
 
-		utility::file::path curDirPath = store->getFormat()->
-			folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
+	std::vector <size_t> changedNums;
 
-		for (std::vector <size_t>::const_iterator it =
-			 nums.begin() ; it != nums.end() ; ++it) {
+	try {
 
-			const size_t num = *it - 1;
+		for (std::vector <size_t>::const_iterator it =
+		     nums.begin() ; it != nums.end() ; ++it) {
 
-			try {
+			messageInfos infos = m_messageInfos[*it - 1];
+			bool found = true;
 
-				const utility::file::path::component path = m_messageInfos[num].path;
-				shared_ptr <utility::file> file = fsf->create(curDirPath / path);
+			for (int attempt = 0 ; found ; ++attempt) {
 
-				int newFlags = maildirUtils::extractFlags(path);
+				int newFlags = maildirUtils::extractFlags(infos.path);
 
 				switch (mode) {
 					case message::FLAG_MODE_ADD:    newFlags |= flags; break;
@@ -703,89 +709,240 @@ void maildirFolder::setMessageFlags(
 				}
 
 				const utility::file::path::component newPath =
-					maildirUtils::buildFilename(maildirUtils::extractId(path), newFlags);
+					maildirUtils::buildFilename(maildirUtils::extractId(infos.path), newFlags);
+
+				shared_ptr <utility::file> file = fsf->create(curDirPath / infos.path);
+
+				try {
+
+					if (newPath.getBuffer() != infos.path.getBuffer()) {
 
-				file->rename(curDirPath / newPath);
+						file->rename(curDirPath / newPath);
+						infos.setPath(newPath);
+						break;
 
-				if (flags & message::FLAG_DELETED) {
-					m_messageInfos[num].type = messageInfos::TYPE_DELETED;
-				} else {
-					m_messageInfos[num].type = messageInfos::TYPE_CUR;
+					} else if (file->isFile()) {
+
+						break;
+					}
+
+				} catch (exceptions::filesystem_exception&) {
+
+					if (attempt == MAX_ATTEMPTS || file->isFile()) {
+						throw;
+					}
 				}
 
-				m_messageInfos[num].path = newPath;
+				// Another client has changed the flags of this message, or deleted it
+				found = locateMessage(infos);
+			}
 
-			} catch (exceptions::filesystem_exception& e) {
+			m_messageInfos[*it - 1] = infos;
 
-				// Ignore (not important)
+			if (found) {
+				changedNums.push_back(*it);
 			}
 		}
 
-		// Update local flags
-		switch (mode) {
+	} catch (exceptions::filesystem_exception& e) {
 
-			case message::FLAG_MODE_ADD: {
+		onMessagesChanged(changedNums);
+		throw exceptions::command_error("FLAGS", "", "", e);
+	}
 
-				for (std::vector <maildirMessage*>::iterator it =
-					 m_messages.begin() ; it != m_messages.end() ; ++it) {
+	onMessagesChanged(changedNums);
+}
 
-					if (std::binary_search(nums.begin(), nums.end(), (*it)->getNumber()) &&
-						(*it)->m_flags != maildirMessage::FLAG_UNDEFINED) {
 
-						(*it)->m_flags |= flags;
-					}
-				}
+std::vector <size_t> maildirFolder::getMessageNumbers(const messageSet& msgs) const {
 
-				break;
-			}
-			case message::FLAG_MODE_REMOVE: {
+	if (!msgs.isEmpty() && !msgs.isNumberSet()) {
+		throw exceptions::operation_not_supported();
+	}
 
-				for (std::vector <maildirMessage*>::iterator it =
-					 m_messages.begin() ; it != m_messages.end() ; ++it) {
+	const std::vector <size_t> nums = maildirUtils::messageSetToNumberList(msgs, m_messageCount);
 
-					if (std::binary_search(nums.begin(), nums.end(), (*it)->getNumber()) &&
-						(*it)->m_flags != maildirMessage::FLAG_UNDEFINED) {
+	for (std::vector <size_t>::const_iterator it = nums.begin() ; it != nums.end() ; ++it) {
 
-						(*it)->m_flags &= ~flags;
-					}
-				}
+		if (*it < 1 || *it > m_messageCount) {
+			throw exceptions::message_not_found();
+		}
+	}
 
-				break;
-			}
-			default:
-			case message::FLAG_MODE_SET: {
+	return nums;
+}
 
-				for (std::vector <maildirMessage*>::iterator it =
-					 m_messages.begin() ; it != m_messages.end() ; ++it) {
 
-					if (std::binary_search(nums.begin(), nums.end(), (*it)->getNumber()) &&
-						(*it)->m_flags != maildirMessage::FLAG_UNDEFINED) {
+bool maildirFolder::locateMessage(messageInfos& infos) const {
 
-						(*it)->m_flags = flags;
-					}
-				}
+	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
+
+	shared_ptr <utility::file> curDir = fsf->create(
+		m_store.lock()->getFormat()->
+			folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY)
+	);
+
+	const maildirUtils::messageIdComparator sameId(infos.path);
+	shared_ptr <utility::fileIterator> it = curDir->getFiles();
+
+	while (it->hasMoreElements()) {
+
+		shared_ptr <utility::file> file = it->nextElement();
+		const utility::file::path::component filename = file->getFullPath().getLastComponent();
+
+		if (sameId(filename) && maildirUtils::isMessageFile(*file)) {
+
+			infos.setPath(filename);
+			return true;
+		}
+	}
+
+	infos.type = messageInfos::TYPE_DELETED;
+	return false;
+}
+
+
+std::vector <maildirFolder*> maildirFolder::getOpenFoldersWithPath(const folder::path& path) {
+
+	shared_ptr <maildirStore> store = m_store.lock();
+	std::vector <maildirFolder*> folders;
+
+	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
+	     it != store->m_folders.end() ; ++it) {
+
+		if ((*it)->isOpen() && (*it)->getFullPath() == path) {
+			folders.push_back(*it);
+		}
+	}
+
+	return folders;
+}
+
+
+void maildirFolder::onMessagesAdded(const size_t first) {
+
+	std::vector <size_t> nums;
+
+	for (size_t num = first ; num <= m_messageCount ; ++num) {
+		nums.push_back(num);
+	}
+
+	if (nums.empty()) {
+		return;
+	}
+
+	shared_ptr <events::messageCountEvent> event =
+		make_shared <events::messageCountEvent>(
+			dynamicCast <folder>(shared_from_this()),
+			events::messageCountEvent::TYPE_ADDED,
+			nums
+		);
+
+	notifyMessageCount(event);
+}
+
+
+void maildirFolder::onMessagesChanged(const std::vector <size_t>& nums) {
 
-				break;
+	if (nums.empty()) {
+		return;
+	}
+
+	const std::vector <maildirFolder*> folders = getOpenFoldersWithPath(m_path);
+	std::map <string, messageInfos> changed;
+
+	for (size_t i = 0 ; i < nums.size() ; ++i) {
+
+		const messageInfos& infos = m_messageInfos[nums[i] - 1];
+		changed[maildirUtils::extractId(infos.path).getBuffer()] = infos;
+	}
+
+	for (size_t i = 0 ; i < folders.size() ; ++i) {
+
+		maildirFolder* folder = folders[i];
+		std::vector <size_t> folderNums;
+
+		for (size_t num = 1 ; num <= folder->m_messageCount ; ++num) {
+
+			messageInfos& infos = folder->m_messageInfos[num - 1];
+
+			const std::map <string, messageInfos>::const_iterator it =
+				changed.find(maildirUtils::extractId(infos.path).getBuffer());
+
+			if (it != changed.end()) {
+
+				infos = it->second;
+				folderNums.push_back(num);
 			}
+		}
 
+		// Update local flags
+		for (std::vector <maildirMessage*>::iterator it =
+		     folder->m_messages.begin() ; it != folder->m_messages.end() ; ++it) {
+
+			if (!(*it)->m_expunged && (*it)->m_flags != maildirMessage::FLAG_UNDEFINED &&
+			    std::binary_search(folderNums.begin(), folderNums.end(), (*it)->m_num)) {
+
+				(*it)->m_flags = maildirUtils::extractFlags(folder->m_messageInfos[(*it)->m_num - 1].path);
+			}
 		}
 
 		// Notify message flags changed
-		shared_ptr <events::messageChangedEvent> event =
-			make_shared <events::messageChangedEvent>(
-				dynamicCast <folder>(shared_from_this()),
-				events::messageChangedEvent::TYPE_FLAGS,
-				nums
-			);
+		if (!folderNums.empty()) {
 
-		notifyMessageChanged(event);
+			shared_ptr <events::messageChangedEvent> event =
+				make_shared <events::messageChangedEvent>(
+					dynamicCast <net::folder>(folder->shared_from_this()),
+					events::messageChangedEvent::TYPE_FLAGS,
+					folderNums
+				);
 
-		// TODO: notify other folders with the same path
+			folder->notifyMessageChanged(event);
+		}
+	}
+}
 
-	} else {
 
-		throw exceptions::operation_not_supported();
+void maildirFolder::onMessagesExpunged(const std::vector <size_t>& nums) {
+
+	if (nums.empty()) {
+		return;
 	}
+
+	// Remove messages from the list, starting with the last one
+	for (std::vector <size_t>::size_type i = nums.size() ; i != 0 ; --i) {
+
+		const size_t num = nums[i - 1];
+
+		for (std::vector <maildirMessage*>::iterator it =
+		     m_messages.begin() ; it != m_messages.end() ; ++it) {
+
+			if ((*it)->m_expunged) {
+				continue;
+			} else if ((*it)->m_num == num) {
+				(*it)->m_expunged = true;
+			} else if ((*it)->m_num > num) {
+				(*it)->m_num--;
+			}
+		}
+
+		if ((maildirUtils::extractFlags(m_messageInfos[num - 1].path) & message::FLAG_SEEN) == 0) {
+			--m_unreadMessageCount;
+		}
+
+		m_messageInfos.erase(m_messageInfos.begin() + (num - 1));
+		--m_messageCount;
+	}
+
+	// Notify message expunged
+	shared_ptr <events::messageCountEvent> event =
+		make_shared <events::messageCountEvent>(
+			dynamicCast <folder>(shared_from_this()),
+			events::messageCountEvent::TYPE_REMOVED,
+			nums
+		);
+
+	notifyMessageCount(event);
 }
 
 
@@ -858,51 +1015,32 @@ messageSet maildirFolder::addMessage(
 	// Actually add the message
 	copyMessageImpl(tmpDirPath, dstDirPath, filename, is, size, progress);
 
-	// Append the message to the cache list
-	messageInfos msgInfos;
-	msgInfos.path = filename;
-	msgInfos.type = messageInfos::TYPE_CUR;
+	if (flags == message::FLAG_RECENT) {
 
-	m_messageInfos.push_back(msgInfos);
-	m_messageCount++;
+		// The message is in 'new', it is handled like any other new message
+		refreshFolders(m_path);
 
-	if ((flags == -1) || !(flags & message::FLAG_SEEN)) {
-		m_unreadMessageCount++;
-	}
-
-	// Notification
-	std::vector <size_t> nums;
-	nums.push_back(m_messageCount);
-
-	shared_ptr <events::messageCountEvent> event =
-		make_shared <events::messageCountEvent>(
-			dynamicCast <folder>(shared_from_this()),
-			events::messageCountEvent::TYPE_ADDED,
-			nums
-		);
+	} else {
 
-	notifyMessageCount(event);
+		// Append the message to the cache list of all folders with the same path
+		messageInfos msgInfos;
+		msgInfos.setPath(filename);
 
-	// Notify folders with the same path
-	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
-	     it != store->m_folders.end() ; ++it) {
+		const std::vector <maildirFolder*> folders = getOpenFoldersWithPath(m_path);
 
-		if ((*it) != this && (*it)->getFullPath() == m_path) {
+		for (size_t i = 0 ; i < folders.size() ; ++i) {
 
-			(*it)->m_messageCount = m_messageCount;
-			(*it)->m_unreadMessageCount = m_unreadMessageCount;
+			maildirFolder* folder = folders[i];
 
-			(*it)->m_messageInfos.resize(m_messageInfos.size());
-			std::copy(m_messageInfos.begin(), m_messageInfos.end(), (*it)->m_messageInfos.begin());
+			folder->m_messageInfos.push_back(msgInfos);
+			folder->m_messageCount++;
 
-			shared_ptr <events::messageCountEvent> event =
-				make_shared <events::messageCountEvent>(
-					dynamicCast <folder>((*it)->shared_from_this()),
-					events::messageCountEvent::TYPE_ADDED,
-					nums
-				);
+			if ((flags == -1) || !(flags & message::FLAG_SEEN)) {
+				folder->m_unreadMessageCount++;
+			}
 
-			(*it)->notifyMessageCount(event);
+			// Notification
+			folder->onMessagesAdded(folder->m_messageCount);
 		}
 	}
 
@@ -983,13 +1121,8 @@ void maildirFolder::copyMessageImpl(
 
 		// Delete temporary file
 		try {
-
-			file->remove();
-			shared_ptr <utility::file> file = fsf->create(dstDirPath / filename);
 			file->remove();
-
 		} catch (exceptions::filesystem_exception&) {
-
 			// Ignore
 		}
 
@@ -1012,6 +1145,12 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 		throw exceptions::illegal_state("Folder not open");
 	}
 
+	const std::vector <size_t> nums = getMessageNumbers(msgs);
+
+	if (!store->getFormat()->folderExists(dest)) {
+		throw exceptions::folder_not_found();
+	}
+
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
 	utility::file::path curDirPath =
@@ -1044,21 +1183,26 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 	}
 
 	// Copy messages
-	const std::vector <size_t> nums = maildirUtils::messageSetToNumberList(msgs, m_messageCount);
-
 	try {
 
 		for (std::vector <size_t>::const_iterator it =
 		     nums.begin() ; it != nums.end() ; ++it) {
 
 			const size_t num = *it;
-			const messageInfos& msg = m_messageInfos[num - 1];
+			messageInfos& msg = m_messageInfos[num - 1];
+
+			shared_ptr <utility::file> file = fsf->create(curDirPath / msg.path);
+
+			// If another client has changed the flags of this message, find it again
+			if (!file->isFile() && locateMessage(msg)) {
+				file = fsf->create(curDirPath / msg.path);
+			}
+
 			const int flags = maildirUtils::extractFlags(msg.path);
 
 			const utility::file::path::component filename =
 				maildirUtils::buildFilename(maildirUtils::generateId(), flags);
 
-			shared_ptr <utility::file> file = fsf->create(curDirPath / msg.path);
 			shared_ptr <utility::fileReader> fr = file->getFileReader();
 			shared_ptr <utility::inputStream> is = fr->getInputStream();
 
@@ -1080,20 +1224,26 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 
 void maildirFolder::notifyMessagesCopied(const folder::path& dest) {
 
-	shared_ptr <maildirStore> store = m_store.lock();
+	refreshFolders(dest);
+}
 
-	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
-	     it != store->m_folders.end() ; ++it) {
 
-		if ((*it) != this && (*it)->getFullPath() == dest) {
+void maildirFolder::refreshFolders(const folder::path& path) {
 
-			// We only need to update the first folder we found as calling
-			// status() will notify all the folders with the same path.
-			size_t count, unseen;
-			(*it)->status(count, unseen);
+	const std::vector <maildirFolder*> folders = getOpenFoldersWithPath(path);
 
-			return;
+	for (size_t i = 0 ; i < folders.size() ; ++i) {
+
+		const size_t oldCount = folders[i]->m_messageCount;
+
+		try {
+			folders[i]->scanFolder();
+		} catch (exceptions::filesystem_exception&) {
+			// Ignore, this will be done again when the status is requested
+			continue;
 		}
+
+		folders[i]->onMessagesAdded(oldCount + 1);
 	}
 }
 
@@ -1132,44 +1282,10 @@ shared_ptr <folderStatus> maildirFolder::getStatus() {
 	// Notify message count changed (new messages)
 	if (m_messageCount > oldCount) {
 
-		std::vector <size_t> nums;
-		nums.reserve(m_messageCount - oldCount);
-
-		for (size_t i = oldCount + 1 ; i <= m_messageCount ; ++i) {
-			nums.push_back(i);
-		}
-
-		shared_ptr <events::messageCountEvent> event =
-			make_shared <events::messageCountEvent>(
-				dynamicCast <folder>(shared_from_this()),
-				events::messageCountEvent::TYPE_ADDED,
-				nums
-			);
-
-		notifyMessageCount(event);
+		onMessagesAdded(oldCount + 1);
 
 		// Notify folders with the same path
-		for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
-		     it != store->m_folders.end() ; ++it) {
-
-			if ((*it) != this && (*it)->getFullPath() == m_path) {
-
-				(*it)->m_messageCount = m_messageCount;
-				(*it)->m_unreadMessageCount = m_unreadMessageCount;
-
-				(*it)->m_messageInfos.resize(m_messageInfos.size());
-				std::copy(m_messageInfos.begin(), m_messageInfos.end(), (*it)->m_messageInfos.begin());
-
-				shared_ptr <events::messageCountEvent> event =
-					make_shared <events::messageCountEvent>(
-						dynamicCast <folder>((*it)->shared_from_this()),
-						events::messageCountEvent::TYPE_ADDED,
-						nums
-					);
-
-				(*it)->notifyMessageCount(event);
-			}
-		}
+		refreshFolders(m_path);
 	}
 
 	return status;
@@ -1194,81 +1310,90 @@ void maildirFolder::expunge() {
 		folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
 
 	std::vector <size_t> nums;
-	size_t unreadCount = 0;
+	std::vector <messageInfos> expunged;
 
-	for (size_t num = 1 ; num <= m_messageCount ; ++num) {
+	try {
+
+		for (size_t num = 1 ; num <= m_messageCount ; ++num) {
+
+			messageInfos& infos = m_messageInfos[num - 1];
+			bool found = true;
 
-		messageInfos& infos = m_messageInfos[num - 1];
+			for (int attempt = 0 ; found && infos.type == messageInfos::TYPE_DELETED ; ++attempt) {
 
-		if (infos.type == messageInfos::TYPE_DELETED) {
+				// Delete file from file system
+				if (maildirUtils::extractFlags(infos.path) & message::FLAG_DELETED) {
 
-			nums.push_back(num);
+					shared_ptr <utility::file> file = fsf->create(curDirPath / infos.path);
 
-			for (std::vector <maildirMessage*>::iterator it =
-			     m_messages.begin() ; it != m_messages.end() ; ++it) {
+					try {
 
-				if ((*it)->m_num == num) {
-					(*it)->m_expunged = true;
-				} else if ((*it)->m_num > num) {
-					(*it)->m_num--;
+						file->remove();
+						break;
+
+					} catch (exceptions::filesystem_exception&) {
+
+						if (attempt == MAX_ATTEMPTS || file->isFile()) {
+							throw;
+						}
+					}
 				}
-			}
 
-			if (maildirUtils::extractFlags(infos.path) & message::FLAG_SEEN) {
-				++unreadCount;
+				// Another client has already deleted this message,
+				// or has changed its flags
+				found = locateMessage(infos);
 			}
 
-			// Delete file from file system
-			try {
-				shared_ptr <utility::file> file = fsf->create(curDirPath / infos.path);
-				file->remove();
-			} catch (exceptions::filesystem_exception& e) {
-				// Ignore (not important)
+			if (infos.type == messageInfos::TYPE_DELETED) {
+
+				nums.push_back(num);
+				expunged.push_back(infos);
 			}
 		}
-	}
 
-	if (!nums.empty()) {
+	} catch (exceptions::filesystem_exception& e) {
 
-		for (std::vector <size_t>::size_type i = nums.size() ; i != 0 ; --i) {
-			m_messageInfos.erase(m_messageInfos.begin() + (i - 1));
-		}
+		notifyMessagesExpunged(nums, expunged);
+		throw exceptions::command_error("EXPUNGE", "", "", e);
 	}
 
-	m_messageCount -= static_cast <size_t>(nums.size());
-	m_unreadMessageCount -= unreadCount;
+	notifyMessagesExpunged(nums, expunged);
+}
 
-	// Notify message expunged
-	shared_ptr <events::messageCountEvent> event =
-		make_shared <events::messageCountEvent>(
-			dynamicCast <folder>(shared_from_this()),
-			events::messageCountEvent::TYPE_REMOVED,
-			nums
-		);
 
-	notifyMessageCount(event);
+void maildirFolder::notifyMessagesExpunged(
+	const std::vector <size_t>& nums,
+	const std::vector <messageInfos>& expunged
+) {
+
+	onMessagesExpunged(nums);
 
 	// Notify folders with the same path
-	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
-	     it != store->m_folders.end() ; ++it) {
+	const std::vector <maildirFolder*> folders = getOpenFoldersWithPath(m_path);
+	std::set <string> ids;
 
-		if ((*it) != this && (*it)->getFullPath() == m_path) {
+	for (size_t i = 0 ; i < expunged.size() ; ++i) {
+		ids.insert(maildirUtils::extractId(expunged[i].path).getBuffer());
+	}
 
-			(*it)->m_messageCount = m_messageCount;
-			(*it)->m_unreadMessageCount = m_unreadMessageCount;
+	for (size_t i = 0 ; i < folders.size() ; ++i) {
 
-			(*it)->m_messageInfos.resize(m_messageInfos.size());
-			std::copy(m_messageInfos.begin(), m_messageInfos.end(), (*it)->m_messageInfos.begin());
+		if (folders[i] == this) {
+			continue;
+		}
 
-			shared_ptr <events::messageCountEvent> event =
-				make_shared <events::messageCountEvent>(
-					dynamicCast <folder>((*it)->shared_from_this()),
-					events::messageCountEvent::TYPE_REMOVED,
-					nums
-				);
+		std::vector <size_t> folderNums;
+
+		for (size_t num = 1 ; num <= folders[i]->m_messageCount ; ++num) {
 
-			(*it)->notifyMessageCount(event);
+			const messageInfos& infos = folders[i]->m_messageInfos[num - 1];
+
+			if (ids.find(maildirUtils::extractId(infos.path).getBuffer()) != ids.end()) {
+				folderNums.push_back(num);
+			}
 		}
+
+		folders[i]->onMessagesExpunged(folderNums);
 	}
 }
 
diff --git a/src/vmime/net/maildir/maildirFolder.hpp b/src/vmime/net/maildir/maildirFolder.hpp
index 179d56c..76c345d 100644
--- a/src/vmime/net/maildir/maildirFolder.hpp
+++ b/src/vmime/net/maildir/maildirFolder.hpp
@@ -170,6 +170,34 @@ private:
 
 	void notifyMessagesCopied(const folder::path& dest);
 
+	/** Return the numbers of the specified messages, and ensure
+	  * all of them exist.
+	  *
+	  * @throw exceptions::message_not_found if one does not exist
+	  */
+	std::vector <size_t> getMessageNumbers(const messageSet& msgs) const;
+
+	/** Return all open folders with the specified path (possibly this one).
+	  */
+	std::vector <maildirFolder*> getOpenFoldersWithPath(const folder::path& path);
+
+	/** Look for new messages in all open folders with the specified path.
+	  */
+	void refreshFolders(const folder::path& path);
+
+	/** Notify that messages have been added at the end of the list.
+	  */
+	void onMessagesAdded(const size_t first);
+
+	/** Update all open folders with the same path after message flags
+	  * have changed in this one.
+	  */
+	void onMessagesChanged(const std::vector <size_t>& nums);
+
+	/** Remove messages from the list, and update message objects.
+	  */
+	void onMessagesExpunged(const std::vector <size_t>& nums);
+
 
 	weak_ptr <maildirStore> m_store;
 
@@ -198,6 +226,19 @@ private:
 
 	std::vector <messageInfos> m_messageInfos;
 
+	/** Find a message which is not any more where it was, because another
+	  * client has renamed it. If it does not exist any more, it is marked
+	  * as deleted.
+	  *
+	  * @return true if the message has been found, false otherwise
+	  */
+	bool locateMessage(messageInfos& infos) const;
+
+	void notifyMessagesExpunged(
+		const std::vector <size_t>& nums,
+		const std::vector <messageInfos>& expunged
+	);
+
 	// Instanciated message objects
 	std::vector <maildirMessage*> m_messages;
 };
-- 
2.43.0


From eee7b581335e3b779dad0a0e7c3e4b6be9c94cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 43/86] fix: maildir: an expunged message object gave the
 contents of another message

Also check that the folder is open and the store connected before using
them, and clamp the range of a partial extraction to the part.
---
 src/vmime/net/maildir/maildirFolder.cpp  | 32 +++++++++++----
 src/vmime/net/maildir/maildirMessage.cpp | 52 ++++++++++++++----------
 src/vmime/net/maildir/maildirMessage.hpp |  9 ++++
 3 files changed, 64 insertions(+), 29 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index b1ee697..61232e2 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -117,6 +117,12 @@ int maildirFolder::getMode() const {
 
 const folderAttributes maildirFolder::getAttributes() {
 
+	shared_ptr <maildirStore> store = m_store.lock();
+
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
 	folderAttributes attribs;
 
 	if (m_path.isEmpty()) {
@@ -125,7 +131,7 @@ const folderAttributes maildirFolder::getAttributes() {
 		attribs.setType(folderAttributes::TYPE_CONTAINS_FOLDERS | folderAttributes::TYPE_CONTAINS_MESSAGES);
 	}
 
-	if (m_store.lock()->getFormat()->folderHasSubfolders(m_path)) {
+	if (store->getFormat()->folderHasSubfolders(m_path)) {
 		attribs.setFlags(folderAttributes::FLAG_HAS_CHILDREN);  // contains at least one sub-folder
 	}
 
@@ -269,8 +275,8 @@ void maildirFolder::destroy() {
 	// Delete folder
 	try {
 		store->getFormat()->destroyFolder(m_path);
-	} catch (std::exception&) {
-		// Ignore exception: anyway, we can't recover from this...
+	} catch (exceptions::filesystem_exception& e) {
+		throw exceptions::command_error("DELETE", "", "", e);
 	}
 
 	// Notify folder deleted
@@ -289,6 +295,10 @@ bool maildirFolder::exists() {
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
 	return store->getFormat()->folderExists(m_path);
 }
 
@@ -546,7 +556,7 @@ std::vector <shared_ptr <folder> > maildirFolder::getFolders(const bool recursiv
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
-	if (!isOpen() && !store) {
+	if (!store) {
 		throw exceptions::illegal_state("Store disconnected");
 	}
 
@@ -593,6 +603,8 @@ void maildirFolder::rename(const folder::path& newPath) {
 		throw exceptions::illegal_state("Store disconnected");
 	} else if (m_path.isEmpty() || newPath.isEmpty()) {
 		throw exceptions::illegal_operation("Cannot rename root folder");
+	} else if (m_path == newPath || m_path.isParentOf(newPath)) {
+		throw exceptions::illegal_operation("Cannot move a folder into itself");
 	} else if (!store->isValidFolderName(newPath.getLastComponent())) {
 		throw exceptions::invalid_folder_name();
 	}
@@ -639,7 +651,7 @@ void maildirFolder::rename(const folder::path& newPath) {
 
 		} else if ((*it) != this && oldPath.isParentOf((*it)->getFullPath())) {
 
-			folder::path oldPath((*it)->m_path);
+			const folder::path oldSubPath((*it)->m_path);
 
 			(*it)->m_path.renameParent(oldPath, newPath);
 
@@ -647,7 +659,7 @@ void maildirFolder::rename(const folder::path& newPath) {
 				make_shared <events::folderEvent>(
 					dynamicCast <folder>((*it)->shared_from_this()),
 					events::folderEvent::TYPE_RENAMED,
-					oldPath, (*it)->m_path
+					oldSubPath, (*it)->m_path
 				);
 
 			(*it)->notifyFolder(event);
@@ -1514,7 +1526,13 @@ int maildirFolder::getFetchCapabilities() const {
 
 const utility::file::path maildirFolder::getMessageFSPath(const size_t number) const {
 
-	utility::file::path curDirPath = m_store.lock()->getFormat()->
+	shared_ptr <maildirStore> store = m_store.lock();
+
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
+	utility::file::path curDirPath = store->getFormat()->
 		folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
 
 	return curDirPath / m_messageInfos[number - 1].path;
diff --git a/src/vmime/net/maildir/maildirMessage.cpp b/src/vmime/net/maildir/maildirMessage.cpp
index ae99c59..1cb346b 100644
--- a/src/vmime/net/maildir/maildirMessage.cpp
+++ b/src/vmime/net/maildir/maildirMessage.cpp
@@ -157,6 +157,8 @@ void maildirMessage::setFlags(const int flags, const int mode) {
 
 	if (!folder) {
 		throw exceptions::folder_not_found();
+	} else if (m_expunged) {
+		throw exceptions::message_not_found();
 	}
 
 	folder->setMessageFlags(messageSet::byNumber(m_num), flags, mode);
@@ -171,7 +173,7 @@ void maildirMessage::extract(
 	const bool peek
 ) const {
 
-	extractImpl(os, progress, 0, m_size, start, length, peek);
+	extractImpl(os, progress, 0, static_cast <size_t>(-1), start, length, peek);
 }
 
 
@@ -203,24 +205,21 @@ void maildirMessage::extractImpl(
 	const bool /* peek */
 ) const {
 
-	shared_ptr <const maildirFolder> folder = m_folder.lock();
-
-	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
+	shared_ptr <utility::file> file = getFile();
 
-	const utility::file::path path = folder->getMessageFSPath(m_num);
-	shared_ptr <utility::file> file = fsf->create(path);
+	// Compute the range of bytes to extract
+	const size_t fileLength = file->getLength();
+	const size_t partStart = std::min(start, fileLength);
+	const size_t partLength = std::min(length, fileLength - partStart);
+	const size_t skipped = std::min(partialStart, partLength);
 
 	shared_ptr <utility::fileReader> reader = file->getFileReader();
 	shared_ptr <utility::inputStream> is = reader->getInputStream();
 
-	is->skip(start + partialStart);
+	is->skip(partStart + skipped);
 
 	byte_t buffer[8192];
-	size_t remaining =
-		(partialLength == static_cast <size_t>(-1)
-			? length
-			: std::min(partialLength, length)
-		);
+	size_t remaining = std::min(partialLength, partLength - skipped);
 
 	const size_t total = remaining;
 	size_t current = 0;
@@ -253,14 +252,9 @@ void maildirMessage::extractImpl(
 
 void maildirMessage::fetchPartHeader(const shared_ptr <messagePart>& p) {
 
-	shared_ptr <maildirFolder> folder = m_folder.lock();
-
 	shared_ptr <maildirMessagePart> mp = dynamicCast <maildirMessagePart>(p);
 
-	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
-
-	const utility::file::path path = folder->getMessageFSPath(m_num);
-	shared_ptr <utility::file> file = fsf->create(path);
+	shared_ptr <utility::file> file = getFile();
 
 	shared_ptr <utility::fileReader> reader = file->getFileReader();
 	shared_ptr <utility::inputStream> is = reader->getInputStream();
@@ -294,10 +288,8 @@ void maildirMessage::fetch(const shared_ptr <maildirFolder>& msgFolder, const fe
 		throw exceptions::folder_not_found();
 	}
 
-	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
-
-	const utility::file::path path = folder->getMessageFSPath(m_num);
-	shared_ptr <utility::file> file = fsf->create(path);
+	shared_ptr <utility::file> file = getFile();
+	const utility::file::path path = file->getFullPath();
 
 	if (options.has(fetchAttributes::FLAGS)) {
 		m_flags = maildirUtils::extractFlags(path.getLastComponent());
@@ -377,6 +369,22 @@ void maildirMessage::fetch(const shared_ptr <maildirFolder>& msgFolder, const fe
 }
 
 
+shared_ptr <utility::file> maildirMessage::getFile() const {
+
+	shared_ptr <const maildirFolder> folder = m_folder.lock();
+
+	if (!folder) {
+		throw exceptions::folder_not_found();
+	} else if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
+	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
+
+	return fsf->create(folder->getMessageFSPath(m_num));
+}
+
+
 shared_ptr <header> maildirMessage::getOrCreateHeader() {
 
 	if (m_header) {
diff --git a/src/vmime/net/maildir/maildirMessage.hpp b/src/vmime/net/maildir/maildirMessage.hpp
index 8cd0aac..a7191ca 100644
--- a/src/vmime/net/maildir/maildirMessage.hpp
+++ b/src/vmime/net/maildir/maildirMessage.hpp
@@ -34,6 +34,8 @@
 #include "vmime/net/message.hpp"
 #include "vmime/net/folder.hpp"
 
+#include "vmime/utility/file.hpp"
+
 
 namespace vmime {
 namespace net {
@@ -101,6 +103,13 @@ private:
 
 	void onFolderClosed();
 
+	/** Return the file of this message.
+	  *
+	  * @throw exceptions::folder_not_found if the folder has been closed
+	  * @throw exceptions::message_not_found if the message has been expunged
+	  */
+	shared_ptr <utility::file> getFile() const;
+
 	shared_ptr <header> getOrCreateHeader();
 
 	void extractImpl(
-- 
2.43.0


From aa26e8006b3efbc9fb184671e4a7b19e5a9bdfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 44/86] fix: maildir: deleting or renaming a folder must not
 hit siblings, hide messages or ignore errors

Courier: a folder whose name starts with the name of another one was
deleted or renamed with it, and some names changed their meaning
(e.g. 'e acute' followed by '.'). KMail: errors were ignored when
renaming sub-folders.
---
 .../maildir/format/courierMaildirFormat.cpp   | 219 ++++++++++--------
 .../net/maildir/format/kmailMaildirFormat.cpp |  41 ++--
 src/vmime/net/maildir/maildirUtils.cpp        |  21 +-
 3 files changed, 145 insertions(+), 136 deletions(-)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index e611949..698bfdb 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -34,6 +34,8 @@
 
 #include "vmime/platform.hpp"
 
+#include <cstring>
+
 
 namespace vmime {
 namespace net {
@@ -116,19 +118,36 @@ void courierMaildirFormat::renameFolder(
 	const folder::path& newPath
 ) {
 
-	const std::vector <folder::path> folders = listFolders(oldPath, true);
+	std::vector <folder::path> folders = listFolders(oldPath, true);
+	folders.insert(folders.begin(), oldPath);
 
-	for (std::vector <folder::path>::size_type i = 0, n = folders.size() ; i < n ; ++i) {
+	std::vector <folder::path> newFolders(folders);
+	size_t count = 0;
 
-		const folder::path folderOldPath = folders[i];
+	try {
 
-		folder::path folderNewPath = folderOldPath;
-		folderNewPath.renameParent(oldPath, newPath);
+		for ( ; count < folders.size() ; ++count) {
 
-		renameFolderImpl(folderOldPath, folderNewPath);
-	}
+			newFolders[count].renameParent(oldPath, newPath);
+			renameFolderImpl(folders[count], newFolders[count]);
+		}
+
+	} catch (exceptions::filesystem_exception&) {
+
+		// Revert to old location
+		while (count != 0) {
+
+			--count;
 
-	renameFolderImpl(oldPath, newPath);
+			try {
+				renameFolderImpl(newFolders[count], folders[count]);
+			} catch (exceptions::filesystem_exception&) {
+				// Ignore (not recoverable)
+			}
+		}
+
+		throw;
+	}
 }
 
 
@@ -269,10 +288,20 @@ const std::vector <folder::path> courierMaildirFormat::listFolders(
 		     pos != string::npos ; prev = pos + 1, pos = dir.find(".", pos + 1)) {
 
 			const string comp = dir.substr(prev, pos - prev);
-			path /= fromModifiedUTF7(comp);
+
+			try {
+
+				path /= fromModifiedUTF7(comp);
+
+			} catch (exceptions::invalid_folder_name&) {
+
+				// Not the name of a folder
+				path = folder::path();
+				break;
+			}
 		}
 
-		if (recursive || path.getSize() == root.getSize() + 1) {
+		if (!path.isEmpty() && (recursive || path.getSize() == root.getSize() + 1)) {
 			folders.push_back(path);
 		}
 	}
@@ -316,7 +345,7 @@ bool courierMaildirFormat::listDirectories(
 
 				const string dir = file->getFullPath().getLastComponent().getBuffer();
 
-				if (base.empty() || (dir.length() > base.length() && dir.substr(0, base.length()) == base)) {
+				if (base.empty() || (dir.length() > base.length() && dir.substr(0, base.length()) == base && dir[base.length()] == '.')) {
 
 					dirs.push_back(dir);
 
@@ -353,6 +382,20 @@ bool courierMaildirFormat::isSubfolderDirectory(const utility::file& file) {
 }
 
 
+static const char MODIFIED_BASE64[] =
+	"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,";
+
+
+// Return whether the UTF-16 character at the specified position represents itself
+
+static bool isDirectCharacter(const string& utf16, const string::size_type pos) {
+
+	const char c = utf16[pos + 1];
+
+	return utf16[pos] == 0 && c >= 0x20 && c <= 0x7e && c != '.' && c != '/' && c != '&';
+}
+
+
 // static
 const string courierMaildirFormat::toModifiedUTF7(const folder::path::component& text) {
 
@@ -383,75 +426,52 @@ const string courierMaildirFormat::toModifiedUTF7(const folder::path::component&
 	// that name would be a maildir subdirectory called ".R&AOk-sum&AOk-").
 	//
 
-	// Transcode path component to UTF-7 charset.
+	// Transcode path component to UTF-16 (big-endian).
 	// WARNING: This may throw "exceptions::charset_conv_error"
-	const string cvt = text.getConvertedText(charset(charsets::UTF_7));
+	const string cvt = text.getConvertedText(charset("utf-16be"));
 
-	// Transcode to modified UTF-7 (RFC-2060).
 	string out;
-	out.reserve((cvt.length() * 3) / 2);
+	out.reserve(cvt.length() * 2);
 
-	bool inB64sequence = false;
+	string::size_type pos = 0;
 
-	for (string::const_iterator it = cvt.begin() ; it != cvt.end() ; ++it) {
+	while (pos + 1 < cvt.length()) {
 
-		const unsigned char c = *it;
+		if (isDirectCharacter(cvt, pos)) {
 
-		switch (c) {
+			out += cvt[pos + 1];
+			pos += 2;
 
-			// Beginning of Base64 sequence: replace '+' with '&'
-			case '+': {
+		// '&' (0x26) is represented by the two-octet sequence "&-"
+		} else if (cvt[pos] == 0 && cvt[pos + 1] == '&') {
 
-				if (!inB64sequence) {
-					inB64sequence = true;
-					out += '&';
-				} else {
-					out += '+';
-				}
+			out += "&-";
+			pos += 2;
 
-				break;
-			}
-			// End of Base64 sequence
-			case '-': {
+		// Base64-encode all the following characters which cannot represent themselves
+		} else {
 
-				inB64sequence = false;
-				out += '-';
-				break;
-			}
-			// ',' is used instead of '/' in modified Base64,
-			// and simply UTF7-encoded out of a Base64 sequence
-			case '/': {
-
-				if (inB64sequence) {
-					out += ',';
-				} else {
-					out += "&Lw-";
-				}
+			unsigned int bits = 0;
+			unsigned int bitCount = 0;
 
-				break;
-			}
-			// Encode period (should not happen in a Base64 sequence)
-			case '.': {
+			out += '&';
 
-				out += "&Lg-";
-				break;
-			}
-			// '&' (0x26) is represented by the two-octet sequence "&-"
-			case '&': {
+			for ( ; pos + 1 < cvt.length() && !isDirectCharacter(cvt, pos) &&
+			        !(cvt[pos] == 0 && cvt[pos + 1] == '&') ; pos += 2) {
 
-				if (!inB64sequence) {
-					out += "&-";
-				} else {
-					out += '&';
-				}
+				bits = (bits << 16) | (static_cast <unsigned char>(cvt[pos]) << 8)
+					| static_cast <unsigned char>(cvt[pos + 1]);
 
-				break;
+				for (bitCount += 16 ; bitCount >= 6 ; bitCount -= 6) {
+					out += MODIFIED_BASE64[(bits >> (bitCount - 6)) & 0x3f];
+				}
 			}
-			default: {
 
-				out += c;
-				break;
+			if (bitCount != 0) {
+				out += MODIFIED_BASE64[(bits << (6 - bitCount)) & 0x3f];
 			}
+
+			out += '-';
 		}
 	}
 
@@ -462,65 +482,60 @@ const string courierMaildirFormat::toModifiedUTF7(const folder::path::component&
 // static
 const folder::path::component courierMaildirFormat::fromModifiedUTF7(const string& text) {
 
-	// Transcode from modified UTF-7
+	// Transcode from modified UTF-7, and store it as UTF-8 by default
 	string out;
 	out.reserve(text.length());
 
-	bool inB64sequence = false;
-	unsigned char prev = 0;
+	for (string::size_type pos = 0 ; pos < text.length() ; ++pos) {
 
-	for (string::const_iterator it = text.begin() ; it != text.end() ; ++it) {
+		const string::size_type end =
+			(text[pos] == '&' ? text.find('-', pos) : string::npos);
 
-		const unsigned char c = *it;
+		if (end == string::npos) {
 
-		switch (c) {
+			out += text[pos];
 
-			// Start of Base64 sequence
-			case '&': {
+		// "&-" --> "&"
+		} else if (end == pos + 1) {
 
-				if (!inB64sequence) {
-					inB64sequence = true;
-					out += '+';
-				} else {
-					out += '&';
-				}
+			out += '&';
+			pos = end;
 
-				break;
-			}
-			// End of Base64 sequence (or "&-" --> "&")
-			case '-': {
+		// Base64 sequence
+		} else {
+
+			string utf16;
+			unsigned int bits = 0;
+			unsigned int bitCount = 0;
+
+			for (++pos ; pos < end ; ++pos) {
+
+				const char* c = ::strchr(MODIFIED_BASE64, text[pos]);
 
-				if (inB64sequence && prev == '&') {
-					out += '&';
-				} else {
-					out += '-';
+				if (!c) {
+					throw exceptions::invalid_folder_name();
 				}
 
-				inB64sequence = false;
-				break;
-			}
-			// ',' is used instead of '/' in modified Base64
-			case ',': {
+				bits = (bits << 6) | static_cast <unsigned int>(c - MODIFIED_BASE64);
+				bitCount += 6;
 
-				out += (inB64sequence ? '/' : ',');
-				break;
-			}
-			default: {
+				if (bitCount >= 16) {
 
-				out += c;
-				break;
+					bitCount -= 16;
+
+					utf16 += static_cast <char>((bits >> (bitCount + 8)) & 0xff);
+					utf16 += static_cast <char>((bits >> bitCount) & 0xff);
+				}
 			}
 
-		}
+			string cvt;
+			charset::convert(utf16, cvt, charset("utf-16be"), charset(charsets::UTF_8));
 
-		prev = c;
+			out += cvt;
+		}
 	}
 
-	// Store it as UTF-8 by default
-	string cvt;
-	charset::convert(out, cvt, charset(charsets::UTF_7), charset(charsets::UTF_8));
-
-	return folder::path::component(cvt, charset(charsets::UTF_8));
+	return folder::path::component(out, charset(charsets::UTF_8));
 }
 
 
diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index 4eb89e8..386c9f3 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -88,12 +88,18 @@ void kmailMaildirFormat::destroyFolder(const folder::path& path) {
 	// Delete 'folder' and '.folder.directory' directories
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
-	maildirUtils::recursiveFSDelete(
-		fsf->create(folderPathToFileSystemPath(path, ROOT_DIRECTORY))  // root
+	shared_ptr <utility::file> contDir = fsf->create(
+		folderPathToFileSystemPath(path, CONTAINER_DIRECTORY)
 	);
 
+	// Container directory may not exist. It is deleted first: without the folder,
+	// the sub-folders it contains could not be listed any more
+	if (contDir->exists()) {
+		maildirUtils::recursiveFSDelete(contDir);
+	}
+
 	maildirUtils::recursiveFSDelete(
-		fsf->create(folderPathToFileSystemPath(path, CONTAINER_DIRECTORY))  // container
+		fsf->create(folderPathToFileSystemPath(path, ROOT_DIRECTORY))  // root
 	);
 }
 
@@ -261,33 +267,22 @@ void kmailMaildirFormat::renameFolder(const folder::path& oldPath, const folder:
 		folderPathToFileSystemPath(oldPath, CONTAINER_DIRECTORY)
 	);
 
-	try {
+	// Container directory may not exist
+	const bool hasContainer = contDir->exists();
 
-		const utility::file::path newRootPath =
-			folderPathToFileSystemPath(newPath, ROOT_DIRECTORY);
-		const utility::file::path newContPath =
-			folderPathToFileSystemPath(newPath, CONTAINER_DIRECTORY);
+	rootDir->rename(folderPathToFileSystemPath(newPath, ROOT_DIRECTORY));
 
-		rootDir->rename(newRootPath);
+	try {
 
-		// Container directory may not exist, so ignore error when trying to rename it
-		try {
-			contDir->rename(newContPath);
-		} catch (exceptions::filesystem_exception& e) {
-			// Ignore
+		if (hasContainer) {
+			contDir->rename(folderPathToFileSystemPath(newPath, CONTAINER_DIRECTORY));
 		}
 
 	} catch (exceptions::filesystem_exception& e) {
 
 		// Revert to old location
-		const utility::file::path rootPath =
-			folderPathToFileSystemPath(oldPath, ROOT_DIRECTORY);
-		const utility::file::path contPath =
-			folderPathToFileSystemPath(oldPath, CONTAINER_DIRECTORY);
-
 		try {
-			rootDir->rename(rootPath);
-			contDir->rename(contPath);
+			rootDir->rename(folderPathToFileSystemPath(oldPath, ROOT_DIRECTORY));
 		} catch (exceptions::filesystem_exception& e) {
 			// Ignore (not recoverable)
 		}
@@ -305,6 +300,10 @@ bool kmailMaildirFormat::folderHasSubfolders(const folder::path& path) const {
 		folderPathToFileSystemPath(path, CONTAINER_DIRECTORY)
 	);
 
+	if (!rootDir->exists()) {
+		return false;
+	}
+
 	shared_ptr <utility::fileIterator> it = rootDir->getFiles();
 
 	while (it->hasMoreElements()) {
diff --git a/src/vmime/net/maildir/maildirUtils.cpp b/src/vmime/net/maildir/maildirUtils.cpp
index c97471e..6a120b2 100644
--- a/src/vmime/net/maildir/maildirUtils.cpp
+++ b/src/vmime/net/maildir/maildirUtils.cpp
@@ -195,26 +195,21 @@ void maildirUtils::recursiveFSDelete(const shared_ptr <utility::file>& dir) {
 
 		shared_ptr <utility::file> file = files->nextElement();
 
-		if (file->isDirectory()) {
+		try {
 
-			maildirUtils::recursiveFSDelete(file);
-
-		} else {
-
-			try {
+			if (file->isDirectory()) {
+				maildirUtils::recursiveFSDelete(file);
+			} else {
 				file->remove();
-			} catch (exceptions::filesystem_exception&) {
-				// Ignore
 			}
+
+		} catch (exceptions::filesystem_exception&) {
+			// Ignore: this directory will not be empty
 		}
 	}
 
 	// Then, delete this (empty) directory
-	try {
-		dir->remove();
-	} catch (exceptions::filesystem_exception&) {
-		// Ignore
-	}
+	dir->remove();
 }
 
 
-- 
2.43.0


From 494ceccd778c8b5061969a5223a7a92cece278b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 45/86] fix: path::renameParent() renamed paths which only
 start with the same components

---
 src/vmime/utility/path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/utility/path.cpp b/src/vmime/utility/path.cpp
index 0c70f11..720dac7 100644
--- a/src/vmime/utility/path.cpp
+++ b/src/vmime/utility/path.cpp
@@ -234,8 +234,9 @@ void path::renameParent(const path& oldPath, const path& newPath) {
 		equal = (m_list[i].isEquivalent(oldPath.m_list[i]));
 	}
 
-	if (i != oldPath.m_list.size())
+	if (!equal) {
 		return;
+	}
 
 	list newList;
 
-- 
2.43.0


From 827da061257c252b04126eee9c7ae4fc2edc132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 46/86] fix: file: seek() did not reset the end of file, and
 exists() ignored errors

---
 src/vmime/platforms/posix/posixFile.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 63d613f..b59d337 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -287,6 +287,8 @@ void posixFileReaderInputStream::seek(const size_t pos) {
 	if (newPos == off_t(-1)) {
 		posixFileSystemFactory::reportError(m_path, errno);
 	}
+
+	m_eof = false;
 }
 
 
@@ -486,7 +488,18 @@ const posixFile::path& posixFile::getFullPath() const {
 bool posixFile::exists() const {
 
 	struct stat buf;
-	return ::stat(m_nativePath.c_str(), &buf) == 0;
+
+	if (::stat(m_nativePath.c_str(), &buf) == -1) {
+
+		if (errno == ENOENT || errno == ENOTDIR) {
+			return false;
+		}
+
+		posixFileSystemFactory::reportError(m_path, errno);
+		return false;
+	}
+
+	return true;
 }
 
 
-- 
2.43.0


From a40f1a0346a3c31b944ddfef38ca5784a29c208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:29 +0000
Subject: [PATCH 47/86] fix: file: skip() went past the end of the file

---
 src/vmime/platforms/posix/posixFile.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index b59d337..e7fe0f4 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -41,6 +41,8 @@
 #include <stdio.h>
 #include <string.h>
 
+#include <algorithm>
+
 #include "vmime/exception.hpp"
 
 
@@ -258,13 +260,21 @@ size_t posixFileReaderInputStream::skip(const size_t count) {
 		posixFileSystemFactory::reportError(m_path, errno);
 	}
 
-	const off_t newPos = ::lseek(m_fd, count, SEEK_CUR);
+	// Do not skip more than what remains in the file
+	const off_t endPos = ::lseek(m_fd, 0, SEEK_END);
 
-	if (newPos == off_t(-1)) {
+	if (endPos == off_t(-1)) {
+		posixFileSystemFactory::reportError(m_path, errno);
+	}
+
+	const size_t remaining = (endPos > curPos ? static_cast <size_t>(endPos - curPos) : 0);
+	const size_t skipped = std::min(count, remaining);
+
+	if (::lseek(m_fd, curPos + static_cast <off_t>(skipped), SEEK_SET) == off_t(-1)) {
 		posixFileSystemFactory::reportError(m_path, errno);
 	}
 
-	return static_cast <size_t>(newPos - curPos);
+	return skipped;
 }
 
 
-- 
2.43.0


From d488b6f49111c0d4ecbfaabf470b2b1503535dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:06 +0000
Subject: [PATCH 48/86] fix: parse messages correctly from streams which return
 less than requested

parserInputStreamAdapter assumed that read() fills the buffer, and read past
the end of the buffer while guessing a multipart boundary. inputStreamAdapter
did not rewind after the end of the stream had been reached.
---
 src/vmime/body.cpp                            | 14 ++++---
 src/vmime/utility/inputStreamAdapter.cpp      |  2 +-
 .../utility/parserInputStreamAdapter.cpp      | 38 +++++++++++++++----
 .../utility/parserInputStreamAdapter.hpp      |  4 +-
 4 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 1ba7d42..50aaf9c 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -196,12 +196,10 @@ void body::parseImpl(
 					const size_t bufferLen =
 						parser->read(buffer, std::min(end - pos, sizeof(buffer) / sizeof(buffer[0])));
 
-					buffer[sizeof(buffer) / sizeof(buffer[0]) - 1] = '\0';
-
 					// Skip transport padding bytes (SPACE or HTAB), if any
 					size_t boundarySkip = 0;
 
-					while (boundarySkip < bufferLen && parserHelpers::isSpace(buffer[boundarySkip])) {
+					while (boundarySkip + 1 < bufferLen && parserHelpers::isSpace(buffer[boundarySkip])) {
 						++boundarySkip;
 					}
 
@@ -211,9 +209,13 @@ void body::parseImpl(
 					byte_t boundaryBytes[100];
 					size_t boundaryLen = 0;
 
-					for (byte_t c = buffer[boundarySkip] ;
-					     boundaryLen < bufferLen && boundaryLen < 100 && !(c == '\r' || c == '\n') ;
-					     ++boundaryLen, c = buffer[boundarySkip + boundaryLen]) {
+					for ( ; boundarySkip + boundaryLen < bufferLen && boundaryLen < 100 ; ++boundaryLen) {
+
+						const byte_t c = buffer[boundarySkip + boundaryLen];
+
+						if (c == '\r' || c == '\n') {
+							break;
+						}
 
 						boundaryBytes[boundaryLen] = c;
 					}
diff --git a/src/vmime/utility/inputStreamAdapter.cpp b/src/vmime/utility/inputStreamAdapter.cpp
index 28be103..9dbc624 100644
--- a/src/vmime/utility/inputStreamAdapter.cpp
+++ b/src/vmime/utility/inputStreamAdapter.cpp
@@ -43,8 +43,8 @@ bool inputStreamAdapter::eof() const {
 void inputStreamAdapter::reset() {
 
 	m_stream.exceptions(std::ios_base::badbit);
+	m_stream.clear();   // else, seekg() does nothing after the end of the stream has been reached
 	m_stream.seekg(0, std::ios::beg);
-	m_stream.clear();
 }
 
 
diff --git a/src/vmime/utility/parserInputStreamAdapter.cpp b/src/vmime/utility/parserInputStreamAdapter.cpp
index 98bbe60..e0e5e17 100644
--- a/src/vmime/utility/parserInputStreamAdapter.cpp
+++ b/src/vmime/utility/parserInputStreamAdapter.cpp
@@ -48,7 +48,28 @@ void parserInputStreamAdapter::reset() {
 
 size_t parserInputStreamAdapter::read(byte_t* const data, const size_t count) {
 
-	return m_stream->read(data, count);
+	return readFully(data, count);
+}
+
+
+size_t parserInputStreamAdapter::readFully(byte_t* const data, const size_t count) const {
+
+	// The underlying stream may return less than requested
+	// even if the end of the stream has not been reached
+	size_t total = 0;
+
+	while (total < count) {
+
+		const size_t readBytes = m_stream->read(data + total, count - total);
+
+		if (readBytes == 0) {
+			break;
+		}
+
+		total += readBytes;
+	}
+
+	return total;
 }
 
 
@@ -70,7 +91,7 @@ const string parserInputStreamAdapter::extract(const size_t begin, const size_t
 
 		m_stream->seek(begin);
 
-		const size_t readBytes = m_stream->read(buffer, end - begin);
+		const size_t readBytes = readFully(buffer, end - begin);
 		buffer[readBytes] = '\0';
 
 		m_stream->seek(initialPos);
@@ -123,8 +144,8 @@ size_t parserInputStreamAdapter::findNext(
 		while (findBufferLen != 0) {
 
 			// Find token
-			for (byte_t *begin = findBuffer, *end = findBuffer + findBufferLen - token.length() ;
-			     begin <= end ; ++begin) {
+			for (byte_t *begin = findBuffer ;
+			     begin + token.length() <= findBuffer + findBufferLen ; ++begin) {
 
 				if (begin[0] == token[0] &&
 				    (token.length() == 1 ||
@@ -138,16 +159,17 @@ size_t parserInputStreamAdapter::findNext(
 				}
 			}
 
-			// Rotate buffer
-			memcpy(findBuffer1, findBuffer2, (BUFFER_SIZE / 2));
-
 			// Read more bytes
-			if (findBufferLen < BUFFER_SIZE && (eof() || isEOF)) {
+			if (findBufferLen < BUFFER_SIZE || isEOF) {
 
 				break;
 
 			} else {
 
+				// Rotate buffer
+				memcpy(findBuffer1, findBuffer2, (BUFFER_SIZE / 2));
+
+
 				const size_t bytesRead = read(findBuffer2, BUFFER_SIZE / 2);
 
 				if (bytesRead == 0) {
diff --git a/src/vmime/utility/parserInputStreamAdapter.hpp b/src/vmime/utility/parserInputStreamAdapter.hpp
index e448d29..7d6cff1 100644
--- a/src/vmime/utility/parserInputStreamAdapter.hpp
+++ b/src/vmime/utility/parserInputStreamAdapter.hpp
@@ -118,7 +118,7 @@ public:
 		try {
 
 			byte_t buffer[32];
-			const size_t readBytes = m_stream->read(buffer, length);
+			const size_t readBytes = readFully(buffer, length);
 
 			m_stream->seek(initialPos);
 
@@ -161,6 +161,8 @@ public:
 
 private:
 
+	size_t readFully(byte_t* const data, const size_t count) const;
+
 	mutable shared_ptr <seekableInputStream> m_stream;
 };
 
-- 
2.43.0


From 05a93eb4e701110cafb083d16afd95b93343ceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 49/86] fix: CRLFToLF filter dropped a final CR

---
 src/vmime/net/sendmail/sendmailTransport.cpp | 1 +
 src/vmime/utility/filteredStream.cpp         | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/sendmail/sendmailTransport.cpp b/src/vmime/net/sendmail/sendmailTransport.cpp
index 75508ee..4773158 100644
--- a/src/vmime/net/sendmail/sendmailTransport.cpp
+++ b/src/vmime/net/sendmail/sendmailTransport.cpp
@@ -212,6 +212,7 @@ void sendmailTransport::internalSend(
 	// TODO: remove 'Bcc:' field from message header
 
 	utility::bufferedStreamCopy(is, fos, size, progress);
+	fos.flush();
 
 	// Wait for sendmail to exit
 	proc->waitForFinish();
diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index 911867e..2ecc9b7 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -284,9 +284,14 @@ void CRLFToLFFilteredOutputStream::writeImpl(const byte_t* const data, const siz
 
 void CRLFToLFFilteredOutputStream::flush() {
 
-	m_stream.flush();
+	// Write back the '\r' which may be at the end of the last buffer
+	if (m_previousChar == '\r') {
 
-	// TODO
+		m_previousChar = '\0';
+		m_stream.write("\r", 1);
+	}
+
+	m_stream.flush();
 }
 
 
-- 
2.43.0


From c156cb63109af49858a19dca416cc797e29c23e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 50/86] fix: child process: write everything, do not die of
 SIGPIPE, and wait for the program

---
 .../platforms/posix/posixChildProcess.cpp     | 171 ++++++++++++++----
 .../platforms/posix/posixChildProcess.hpp     |   5 +
 2 files changed, 143 insertions(+), 33 deletions(-)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index 4a9fef3..a7ee95f 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -127,10 +127,67 @@ protected:
 
 	void writeImpl(const byte_t* const data, const size_t count) {
 
-		if (::write(m_desc, data, count) == -1) {
-			const string errorMsg = getPosixErrorMessage(errno);
-			throw exceptions::system_error(errorMsg);
+		const byte_t* ptr = data;
+		size_t remaining = count;
+
+		while (remaining != 0) {
+
+			const ssize_t bytesWritten = writeNoSignal(ptr, remaining);
+
+			if (bytesWritten == -1) {
+
+				if (errno == EINTR) {
+					continue;
+				}
+
+				const string errorMsg = getPosixErrorMessage(errno);
+				throw exceptions::system_error(errorMsg);
+			}
+
+			// Possibly a partial write: go on with what remains
+			ptr += bytesWritten;
+			remaining -= bytesWritten;
+		}
+	}
+
+	/** Write to the pipe, and return EPIPE instead of raising SIGPIPE (which,
+	  * by default, terminates the application) if the process does not read
+	  * its standard input anymore.
+	  */
+	ssize_t writeNoSignal(const byte_t* const data, const size_t count) {
+
+		sigset_t pipeMask, oldMask, pendingMask;
+
+		sigemptyset(&pipeMask);
+		sigaddset(&pipeMask, SIGPIPE);
+
+		// Do not discard a signal which was there before
+		sigemptyset(&pendingMask);
+		sigpending(&pendingMask);
+
+		const bool wasPending = (sigismember(&pendingMask, SIGPIPE) == 1);
+
+		pthread_sigmask(SIG_BLOCK, &pipeMask, &oldMask);
+
+		const ssize_t ret = ::write(m_desc, data, count);
+		const int err = errno;
+
+		if (ret == -1 && err == EPIPE && !wasPending) {
+
+			sigemptyset(&pendingMask);
+			sigpending(&pendingMask);
+
+			if (sigismember(&pendingMask, SIGPIPE) == 1) {
+				int sig = 0;
+				sigwait(&pipeMask, &sig);
+			}
 		}
+
+		pthread_sigmask(SIG_SETMASK, &oldMask, NULL);
+
+		errno = err;
+
+		return ret;
 	}
 
 private:
@@ -146,7 +203,9 @@ class inputStreamPosixPipeAdapter : public utility::inputStream {
 public:
 
 	inputStreamPosixPipeAdapter(const int desc)
-		: m_desc(desc) {
+		: m_desc(desc),
+		  m_eof(false) {
+
 	}
 
 	bool eof() const {
@@ -161,36 +220,40 @@ public:
 
 	size_t skip(const size_t count) {
 
-		// TODO: not tested
 		byte_t buffer[4096];
+		size_t bytesSkipped = 0;
 
-		ssize_t bytesSkipped = 0;
-		ssize_t bytesRead = 0;
+		while (bytesSkipped < count) {
 
-		while ((bytesRead = ::read(m_desc, buffer,
-			std::min(sizeof(buffer), count - bytesSkipped))) != 0) {
+			const size_t bytesRead = read(
+				buffer, std::min(sizeof(buffer), count - bytesSkipped)
+			);
 
-			if (bytesRead == -1) {
-				const string errorMsg = getPosixErrorMessage(errno);
-				throw exceptions::system_error(errorMsg);
+			if (bytesRead == 0) {
+				break;
 			}
 
 			bytesSkipped += bytesRead;
 		}
 
-		return static_cast <size_t>(bytesSkipped);
+		return bytesSkipped;
 	}
 
 	size_t read(byte_t* const data, const size_t count) {
 
 		ssize_t bytesRead = 0;
 
-		if ((bytesRead = ::read(m_desc, data, count)) == -1) {
-			const string errorMsg = getPosixErrorMessage(errno);
-			throw exceptions::system_error(errorMsg);
+		while ((bytesRead = ::read(m_desc, data, count)) == -1) {
+
+			if (errno != EINTR) {
+				const string errorMsg = getPosixErrorMessage(errno);
+				throw exceptions::system_error(errorMsg);
+			}
 		}
 
-		m_eof = (bytesRead == 0);
+		if (bytesRead == 0 && count != 0) {
+			m_eof = true;
+		}
 
 		return static_cast <size_t>(bytesRead);
 	}
@@ -212,6 +275,7 @@ private:
 posixChildProcess::posixChildProcess(const utility::file::path& path)
 	: m_processPath(path),
 	  m_started(false),
+	  m_finished(false),
 	  m_stdIn(null),
 	  m_stdOut(null),
 	  m_pid(0),
@@ -226,22 +290,41 @@ posixChildProcess::posixChildProcess(const utility::file::path& path)
 
 posixChildProcess::~posixChildProcess() {
 
-	if (m_started) {
-		sigprocmask(SIG_SETMASK, &m_oldProcMask, NULL);
-	}
+	if (m_started && !m_finished && m_pipe[1] != 0) {
 
-	if (m_pipe[0] != 0) {
-		close(m_pipe[0]);
+		// The process has not been given all of its input: do not let it take
+		// what it got for the whole, and do not leave a zombie process behind
+		kill(m_pid, SIGKILL);
+
+		closePipe();
+
+		while (waitpid(m_pid, NULL, 0) == -1 && errno == EINTR) {
+			;
+		}
 	}
 
-	if (m_pipe[1] != 0) {
-		close(m_pipe[1]);
+	closePipe();
+
+	if (m_started) {
+		pthread_sigmask(SIG_SETMASK, &m_oldProcMask, NULL);
 	}
 
 	delete [] m_argArray;
 }
 
 
+void posixChildProcess::closePipe() {
+
+	for (int i = 0 ; i < 2 ; ++i) {
+
+		if (m_pipe[i] != 0) {
+			close(m_pipe[i]);
+			m_pipe[i] = 0;
+		}
+	}
+}
+
+
 // The following code is highly inspired and adapted from the 'sendmail'
 // provider module in Evolution data server code.
 //
@@ -277,13 +360,18 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 	m_pipe[0] = fd[0];
 	m_pipe[1] = fd[1];
 
+	// Other processes must not inherit our end of the pipe: else, this one
+	// would not see the end of its input as long as the other ones are running
+	fcntl(fd[0], F_SETFD, FD_CLOEXEC);
+	fcntl(fd[1], F_SETFD, FD_CLOEXEC);
+
 	// Block SIGCHLD so the calling application doesn't notice
 	// process exiting before we do
 	sigset_t mask;
 
 	sigemptyset(&mask);
 	sigaddset(&mask, SIGCHLD);
-	sigprocmask(SIG_BLOCK, &mask, &m_oldProcMask);
+	pthread_sigmask(SIG_BLOCK, &mask, &m_oldProcMask);
 
 	// Spawn process
 	const pid_t pid = fork();
@@ -292,23 +380,30 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 
 		const string errorMsg = getPosixErrorMessage(errno);
 
-		sigprocmask(SIG_SETMASK, &m_oldProcMask, NULL);
+		pthread_sigmask(SIG_SETMASK, &m_oldProcMask, NULL);
 
-		close(fd[0]);
-		close(fd[1]);
+		closePipe();
 
 		throw exceptions::system_error(errorMsg);
 
 	} else if (pid == 0) {  // child process
 
 		if (flags & FLAG_REDIRECT_STDIN) {
-			dup2(fd[0], STDIN_FILENO);
+			if (fd[0] == STDIN_FILENO) {
+				fcntl(fd[0], F_SETFD, 0);
+			} else {
+				dup2(fd[0], STDIN_FILENO);
+			}
 		} else {
 			close(fd[0]);
 		}
 
 		if (flags & FLAG_REDIRECT_STDOUT) {
-			dup2(fd[1], STDOUT_FILENO);
+			if (fd[1] == STDOUT_FILENO) {
+				fcntl(fd[1], F_SETFD, 0);
+			} else {
+				dup2(fd[1], STDOUT_FILENO);
+			}
 		} else {
 			close(fd[1]);
 		}
@@ -368,12 +463,22 @@ void posixChildProcess::waitForFinish() {
 		m_pipe[1] = 0;
 	}
 
-	int wstat;
+	int wstat = 0;
 
-	while (waitpid(m_pid, &wstat, 0) == -1 && errno == EINTR) {
-		;
+	while (waitpid(m_pid, &wstat, 0) == -1) {
+
+		if (errno != EINTR) {
+
+			const string errorMsg = getPosixErrorMessage(errno);
+
+			m_finished = true;
+
+			throw exceptions::system_error(errorMsg);
+		}
 	}
 
+	m_finished = true;
+
 	if (!WIFEXITED(wstat)) {
 
 		throw exceptions::system_error("Process exited with signal "
diff --git a/src/vmime/platforms/posix/posixChildProcess.hpp b/src/vmime/platforms/posix/posixChildProcess.hpp
index b831e8b..0ef6d65 100644
--- a/src/vmime/platforms/posix/posixChildProcess.hpp
+++ b/src/vmime/platforms/posix/posixChildProcess.hpp
@@ -56,10 +56,15 @@ public:
 
 	void waitForFinish();
 
+private:
+
+	void closePipe();
+
 private:
 
 	utility::file::path m_processPath;
 	bool m_started;
+	bool m_finished;
 
 	shared_ptr <utility::outputStream> m_stdIn;
 	shared_ptr <utility::inputStream> m_stdOut;
-- 
2.43.0


From 4cfbe1603e496dc9c366806d62e548a4b663288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:10 +0000
Subject: [PATCH 51/86] fix: SASL socket: received data was returned twice, or
 read out of bounds; partial non-blocking sends lost data

---
 src/vmime/security/sasl/SASLSocket.cpp | 83 ++++++++++++++++++++++----
 src/vmime/security/sasl/SASLSocket.hpp |  8 +++
 2 files changed, 79 insertions(+), 12 deletions(-)

diff --git a/src/vmime/security/sasl/SASLSocket.cpp b/src/vmime/security/sasl/SASLSocket.cpp
index 0dbafd8..61d8d96 100644
--- a/src/vmime/security/sasl/SASLSocket.cpp
+++ b/src/vmime/security/sasl/SASLSocket.cpp
@@ -54,7 +54,9 @@ SASLSocket::SASLSocket(
 	  m_wrapped(wrapped),
 	  m_pendingBuffer(0),
 	  m_pendingPos(0),
-	  m_pendingLen(0) {
+	  m_pendingLen(0),
+	  m_sendPos(0),
+	  m_sendCount(0) {
 
 }
 
@@ -123,6 +125,10 @@ shared_ptr <net::tracer> SASLSocket::getTracer() {
 
 bool SASLSocket::waitForRead(const int msecs) {
 
+	if (m_pendingLen != 0) {
+		return true;  // already received and decoded
+	}
+
 	return m_wrapped->waitForRead(msecs);
 }
 
@@ -183,7 +189,7 @@ size_t SASLSocket::receiveRaw(byte_t* buffer, const size_t count) {
 		std::copy(output, output + count, buffer);
 
 		m_pendingBuffer = output;
-		m_pendingLen = outputLen;
+		m_pendingLen = outputLen - count;
 		m_pendingPos = count;
 
 		return count;
@@ -213,6 +219,30 @@ void SASLSocket::send(const char* str) {
 
 void SASLSocket::sendRaw(const byte_t* buffer, const size_t count) {
 
+	// Complete a send which has been started by sendRawNonBlocking()
+	if (m_sendCount != 0) {
+
+		if (count < m_sendCount) {
+			throw exceptions::socket_exception("A previous send is not completed.");
+		}
+
+		const size_t done = m_sendCount;
+
+		if (m_sendPos < m_sendBuffer.size()) {
+			m_wrapped->sendRaw(&m_sendBuffer[m_sendPos], m_sendBuffer.size() - m_sendPos);
+		}
+
+		m_sendBuffer.clear();
+		m_sendPos = 0;
+		m_sendCount = 0;
+
+		if (done < count) {
+			sendRaw(buffer + done, count - done);
+		}
+
+		return;
+	}
+
 	byte_t* output = 0;
 	size_t outputLen = 0;
 
@@ -236,26 +266,55 @@ void SASLSocket::sendRaw(const byte_t* buffer, const size_t count) {
 
 size_t SASLSocket::sendRawNonBlocking(const byte_t* buffer, const size_t count) {
 
-	byte_t* output = 0;
-	size_t outputLen = 0;
+	// Data is sent only when all the bytes it has been encoded to are
+	// sent. Until then, caller should call us again with the same data.
+	if (m_sendCount == 0) {
 
-	m_session->getMechanism()->encode(m_session, buffer, count, &output, &outputLen);
+		if (count == 0) {
+			return 0;
+		}
 
-	size_t bytesSent = 0;
+		byte_t* output = 0;
+		size_t outputLen = 0;
 
-	try {
+		m_session->getMechanism()->encode(m_session, buffer, count, &output, &outputLen);
 
-		bytesSent = m_wrapped->sendRawNonBlocking(output, outputLen);
+		try {
 
-	} catch (...) {
+			m_sendBuffer.assign(output, output + outputLen);
+
+		} catch (...) {
+
+			delete [] output;
+			throw;
+		}
 
 		delete [] output;
-		throw;
+
+		m_sendCount = count;
 	}
 
-	delete [] output;
+	while (m_sendPos < m_sendBuffer.size()) {
+
+		const size_t bytesSent =
+			m_wrapped->sendRawNonBlocking(
+				&m_sendBuffer[m_sendPos], m_sendBuffer.size() - m_sendPos
+			);
+
+		if (bytesSent == 0) {
+			return 0;
+		}
+
+		m_sendPos += bytesSent;
+	}
+
+	m_sendBuffer.clear();
+	m_sendPos = 0;
+
+	const size_t done = m_sendCount;
+	m_sendCount = 0;
 
-	return bytesSent;
+	return done;
 }
 
 
diff --git a/src/vmime/security/sasl/SASLSocket.hpp b/src/vmime/security/sasl/SASLSocket.hpp
index ac0e89e..4222350 100644
--- a/src/vmime/security/sasl/SASLSocket.hpp
+++ b/src/vmime/security/sasl/SASLSocket.hpp
@@ -31,6 +31,8 @@
 #if VMIME_HAVE_MESSAGING_FEATURES && VMIME_HAVE_SASL_SUPPORT
 
 
+#include <vector>
+
 #include "vmime/types.hpp"
 
 #include "vmime/net/socket.hpp"
@@ -94,6 +96,12 @@ private:
 	size_t m_pendingPos;
 	size_t m_pendingLen;
 
+	// Encoded data which could not be sent yet by sendRawNonBlocking(),
+	// and number of bytes this data has been encoded from
+	std::vector <byte_t> m_sendBuffer;
+	size_t m_sendPos;
+	size_t m_sendCount;
+
 	byte_t m_recvBuffer[65536];
 };
 
-- 
2.43.0


From 1fca2fb2128b7700937162f7e48fbbfcd9145360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:10 +0000
Subject: [PATCH 52/86] fix: TLS socket: waitForRead() did not know about data
 already decrypted

---
 src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
index c1d0969..192c446 100644
--- a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
+++ b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
@@ -167,6 +167,10 @@ shared_ptr <net::tracer> TLSSocket_GnuTLS::getTracer() {
 
 bool TLSSocket_GnuTLS::waitForRead(const int msecs) {
 
+	if (gnutls_record_check_pending(*m_session->m_gnutlsSession) > 0) {
+		return true;  // already received and decrypted
+	}
+
 	return m_wrapped->waitForRead(msecs);
 }
 
-- 
2.43.0


From d57e34d719add4ca3a53ca0a5feedd85dee8eb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:10 +0000
Subject: [PATCH 53/86] fix: socket: do not wait for data on a socket which is
 not connected, and isConnected() missed errors

---
 src/vmime/platforms/posix/posixSocket.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index d866fbd..d2df11c 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -585,7 +585,13 @@ bool posixSocket::isConnected() const {
 
 	char buff;
 
-	return ::recv(m_desc, &buff, 1, MSG_PEEK) != 0;
+	ssize_t ret;
+
+	do {
+		ret = ::recv(m_desc, &buff, 1, MSG_PEEK);
+	} while (ret < 0 && errno == EINTR);
+
+	return ret > 0 || (ret < 0 && IS_EAGAIN(errno));
 }
 
 
@@ -711,6 +717,10 @@ size_t posixSocket::getBlockSize() const {
 
 bool posixSocket::waitForData(const bool read, const bool write, const int msecs) {
 
+	if (m_desc == -1) {
+		throwSocketError(ENOTCONN);
+	}
+
 	for (int i = 0 ; i <= msecs / 10 ; ++i) {
 
 		// Check whether data is available
-- 
2.43.0


From 459cf0313b72f5fc3233ea554f8ceff8c18ff11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 54/86] fix: random: numbers repeated after a short cycle,
 between threads and in forked processes, or after short reads of the entropy
 source

---
 src/vmime/platforms/posix/posixHandler.cpp | 17 ++++++++++----
 src/vmime/utility/random.cpp               | 27 ++++++++++++++++++++--
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/vmime/platforms/posix/posixHandler.cpp b/src/vmime/platforms/posix/posixHandler.cpp
index 3e9d196..72dd6db 100644
--- a/src/vmime/platforms/posix/posixHandler.cpp
+++ b/src/vmime/platforms/posix/posixHandler.cpp
@@ -282,15 +282,22 @@ shared_ptr <vmime::utility::childProcessFactory> posixHandler::getChildProcessFa
 void posixHandler::generateRandomBytes(unsigned char* buffer, const unsigned int count) {
 
 	int fd = open("/dev/urandom", O_RDONLY);
-	ssize_t have = 0;
+	unsigned int have = 0;
 
 	if (fd != -1) {
 
-		have = read(fd, buffer, count);
-		close(fd);
-		if (have < 0)
-			have = 0;
+		while (have < count) {
+
+			const ssize_t ret = read(fd, buffer + have, count - have);
+
+			if (ret > 0) {
+				have += static_cast <unsigned int>(ret);
+			} else if (ret == 0 || errno != EINTR) {
+				break;
+			}
+		}
 
+		close(fd);
 	}
 
 	// fallback
diff --git a/src/vmime/utility/random.cpp b/src/vmime/utility/random.cpp
index 055122b..63f2504 100644
--- a/src/vmime/utility/random.cpp
+++ b/src/vmime/utility/random.cpp
@@ -24,6 +24,9 @@
 #include "vmime/utility/random.hpp"
 #include "vmime/platform.hpp"
 
+#include "vmime/utility/sync/autoLock.hpp"
+#include "vmime/utility/sync/criticalSection.hpp"
+
 #include <ctime>
 
 
@@ -45,12 +48,32 @@ static unsigned int getRandomSeed() {
 
 unsigned int random::getNext() {
 
-	static unsigned int next = getRandomSeed();
+	static const shared_ptr <sync::criticalSection> lock =
+		platform::getHandler()->createCriticalSection();
+
+	static unsigned int next = 0;
+	static unsigned int process = 0;
+
+	sync::autoLock <sync::criticalSection> guard(lock);
+
+	// A forked process must not go on with the same numbers as its parent
+	// (0 is not a valid state: the generator would never leave it)
+	const unsigned int currentProcess = getProcess();
+
+	if (next == 0 || process != currentProcess) {
+
+		next = getRandomSeed() % 2147483647u;
+		process = currentProcess;
+
+		if (next == 0) {
+			next = 1;
+		}
+	}
 
 	// Park and Miller's minimal standard generator:
 	// xn+1 = (a * xn + b) mod c
 	// xn+1 = (16807 * xn) mod (2^31 - 1)
-	next = static_cast<unsigned int>((16807 * next) % 2147483647ul);
+	next = static_cast <unsigned int>((16807ull * next) % 2147483647ull);
 	return next;
 }
 
-- 
2.43.0


From cfe094cf74d38790d5c09d1ec31e019893d64afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 55/86] fix: maildir: names generated within one second could
 be the same

---
 src/vmime/net/maildir/maildirUtils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/maildir/maildirUtils.cpp b/src/vmime/net/maildir/maildirUtils.cpp
index 6a120b2..a356168 100644
--- a/src/vmime/net/maildir/maildirUtils.cpp
+++ b/src/vmime/net/maildir/maildirUtils.cpp
@@ -35,6 +35,8 @@
 
 #include "vmime/exception.hpp"
 
+#include <atomic>
+
 
 namespace vmime {
 namespace net {
@@ -171,6 +173,8 @@ const utility::file::path::component maildirUtils::buildFilename(
 
 const utility::file::path::component maildirUtils::generateId() {
 
+	static std::atomic <unsigned long> counter(0);
+
 	std::ostringstream oss;
 	oss.imbue(std::locale::classic());
 
@@ -179,6 +183,7 @@ const utility::file::path::component maildirUtils::generateId() {
 	oss << utility::random::getProcess();
 	oss << ".";
 	oss << utility::random::getString(6);
+	oss << counter++;
 	oss << ".";
 	oss << platform::getHandler()->getHostName();
 
-- 
2.43.0


From 32c1a1e487dd95ef4731238cd986537518e2c622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:14 +0000
Subject: [PATCH 56/86] fix: socket: time spent idle made the next interrupted
 send() time out; do not wait twice for a server which does not respond

---
 src/vmime/net/pop3/POP3Connection.cpp         | 25 ++++++++++++++++---
 src/vmime/net/pop3/POP3Connection.hpp         |  4 +++
 src/vmime/net/smtp/SMTPConnection.cpp         |  6 +++++
 src/vmime/net/smtp/SMTPConnection.hpp         |  6 +++++
 src/vmime/net/smtp/SMTPTransport.cpp          |  3 ++-
 src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp |  5 ++++
 src/vmime/platforms/posix/posixSocket.cpp     |  5 ++++
 7 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index 0fb738e..9ef2e27 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -197,6 +197,10 @@ void POP3Connection::disconnect() {
 		throw exceptions::not_connected();
 	}
 
+	if (m_timeoutHandler) {
+		m_timeoutHandler->resetTimeOut();
+	}
+
 	internalDisconnect();
 }
 
@@ -205,7 +209,10 @@ void POP3Connection::internalDisconnect() {
 
 	if (m_socket) {
 
-		if (m_socket->isConnected()) {
+		// Do not wait once again for a server which has just stopped responding
+		const bool timedOut = m_timeoutHandler && m_timeoutHandler->isTimeOut();
+
+		if (m_socket->isConnected() && !timedOut) {
 
 			try {
 
@@ -216,7 +223,18 @@ void POP3Connection::internalDisconnect() {
 
 				// Not important
 			}
+		}
+	}
+
+	abandon();
+}
 
+
+void POP3Connection::abandon() {
+
+	if (m_socket) {
+
+		if (m_socket->isConnected()) {
 			m_socket->disconnect();
 		}
 
@@ -632,8 +650,9 @@ void POP3Connection::startTLS() {
 
 	} catch (exception&) {
 
-		// Fatal error
-		internalDisconnect();
+		// Fatal error: the state of the connection is unknown, so close it
+		// without sending anything more to the server
+		abandon();
 		throw;
 	}
 }
diff --git a/src/vmime/net/pop3/POP3Connection.hpp b/src/vmime/net/pop3/POP3Connection.hpp
index 6f0561e..3301c79 100644
--- a/src/vmime/net/pop3/POP3Connection.hpp
+++ b/src/vmime/net/pop3/POP3Connection.hpp
@@ -113,6 +113,10 @@ private:
 
 	void internalDisconnect();
 
+	/** Closes the connection immediately, without sending QUIT.
+	  */
+	void abandon();
+
 
 	weak_ptr <POP3Store> m_store;
 
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 280be0d..bb7e8ae 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -628,6 +628,12 @@ void SMTPConnection::internalDisconnect() {
 		}
 	}
 
+	abandon();
+}
+
+
+void SMTPConnection::abandon() {
+
 	m_socket->disconnect();
 	m_socket = null;
 
diff --git a/src/vmime/net/smtp/SMTPConnection.hpp b/src/vmime/net/smtp/SMTPConnection.hpp
index d8a2375..572dfa4 100644
--- a/src/vmime/net/smtp/SMTPConnection.hpp
+++ b/src/vmime/net/smtp/SMTPConnection.hpp
@@ -77,6 +77,12 @@ public:
 	virtual bool isConnected() const;
 	virtual void disconnect();
 
+	/** Close the connection without telling the server, when it
+	  * is not known anymore how the server understands what we send
+	  * (or when it does not react anymore).
+	  */
+	void abandon();
+
 	bool isSecuredConnection() const;
 	shared_ptr <connectionInfos> getConnectionInfos() const;
 
diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index 526b6cd..b36929a 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -153,7 +153,8 @@ void SMTPTransport::abandonConnection() {
 	try {
 
 		if (isConnected()) {
-			disconnect();
+			m_connection->abandon();
+			m_connection = null;
 		}
 
 	} catch (...) {
diff --git a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
index 192c446..cafec68 100644
--- a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
+++ b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
@@ -242,6 +242,11 @@ void TLSSocket_GnuTLS::sendRaw(const byte_t* buffer, const size_t count) {
 
 	m_status &= ~(STATUS_WANT_WRITE | STATUS_WANT_READ);
 
+	// The time during which the connection was not used does not count
+	if (shared_ptr <timeoutHandler> toHandler = m_wrapped->getTimeoutHandler()) {
+		toHandler->resetTimeOut();
+	}
+
 	for (size_t size = count ; size > 0 ; ) {
 
 		resetException();
diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index d2df11c..53f72d1 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -868,6 +868,11 @@ void posixSocket::sendRaw(const byte_t* buffer, const size_t count) {
 
 	m_status &= ~STATUS_WOULDBLOCK;
 
+	// The time during which the connection was not used does not count
+	if (m_timeoutHandler) {
+		m_timeoutHandler->resetTimeOut();
+	}
+
 	size_t size = count;
 
 	while (size > 0) {
-- 
2.43.0


From 792823cd068d6b99b450fc2e18d20a0ed3390845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:02 +0000
Subject: [PATCH 57/86] fix: quoted-printable and base64: input delivered in
 pieces, line breaks, progress and size estimates

---
 src/vmime/utility/encoder/b64Encoder.cpp | 22 +++++++++++------
 src/vmime/utility/encoder/qpEncoder.cpp  | 31 ++++++++++++++----------
 2 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/vmime/utility/encoder/b64Encoder.cpp b/src/vmime/utility/encoder/b64Encoder.cpp
index ef4e581..4d2f206 100644
--- a/src/vmime/utility/encoder/b64Encoder.cpp
+++ b/src/vmime/utility/encoder/b64Encoder.cpp
@@ -112,8 +112,9 @@ size_t b64Encoder::encode(
 			bufferLength = in.read(buffer, sizeof(buffer));
 			bufferPos = 0;
 
+			// No data yet, or no more data
 			if (bufferLength == 0) {
-				break;
+				continue;
 			}
 		}
 
@@ -132,7 +133,7 @@ size_t b64Encoder::encode(
 				bufferLength = in.read(buffer, sizeof(buffer));
 				bufferPos = 0;
 
-				if (bufferLength == 0) {
+				if (bufferLength == 0 && in.eof()) {
 					break;
 				}
 			}
@@ -183,6 +184,7 @@ size_t b64Encoder::encode(
 
 		if (cutLines && curCol + 2 /* \r\n */ + 4 /* next bytes */ >= maxLineLength) {
 			out.write("\r\n", 2);
+			total += 2;
 			curCol = 0;
 		}
 
@@ -235,9 +237,9 @@ size_t b64Encoder::decode(
 			bufferLength = in.read(buffer, sizeof(buffer));
 			bufferPos = 0;
 
-			// No more data
+			// No data yet, or no more data
 			if (bufferLength == 0) {
-				break;
+				continue;
 			}
 		}
 
@@ -332,9 +334,15 @@ size_t b64Encoder::getEncodedSize(const size_t n) const {
 	const bool cutLines = (propMaxLineLength != static_cast <size_t>(-1));
 	const size_t maxLineLength = std::min(propMaxLineLength, static_cast <size_t>(76));
 
-	return (n * 4) / 3                               // 3 bytes of input provide 4 bytes of output
-		 + (cutLines ? (n / maxLineLength) * 2 : 0)  // CRLF (2 bytes) for each line.
-		 + 4;                                        // padding
+	// Same limit as in encode(): a line is cut when less than 6 bytes are left
+	const size_t minLineLength = maxLineLength > 10 ? maxLineLength - 6 : 4;
+
+	const size_t encodedLength =
+		(n * 4) / 3  // 3 bytes of input provide 4 bytes of output
+		+ 4;         // padding
+
+	return encodedLength
+		+ (cutLines ? (encodedLength / minLineLength) * 2 : 0);  // CRLF (2 bytes) for each line.
 }
 
 
diff --git a/src/vmime/utility/encoder/qpEncoder.cpp b/src/vmime/utility/encoder/qpEncoder.cpp
index 4aeb640..0a497e0 100644
--- a/src/vmime/utility/encoder/qpEncoder.cpp
+++ b/src/vmime/utility/encoder/qpEncoder.cpp
@@ -211,9 +211,9 @@ size_t qpEncoder::encode(
 			bufferLength = in.read(buffer, sizeof(buffer));
 			bufferPos = 0;
 
-			// No more data
+			// No data yet, or no more data
 			if (bufferLength == 0) {
-				break;
+				continue;
 			}
 		}
 
@@ -266,7 +266,7 @@ size_t qpEncoder::encode(
 				case 32: {  // space
 
 					// Need to get more data?
-					if (bufferPos >= bufferLength) {
+					while (bufferPos >= bufferLength && !in.eof()) {
 						bufferLength = in.read(buffer, sizeof(buffer));
 						bufferPos = 0;
 					}
@@ -343,8 +343,8 @@ size_t qpEncoder::encode(
 
 			} // switch (c)
 
-			// Soft line break : "=\r\n"
-			if (cutLines && curCol >= maxLineLength - 1) {
+			// Soft line break : "=\r\n" (but not between the CR and the LF of a line break)
+			if (cutLines && curCol >= maxLineLength - 1 && !(text && c == 13)) {
 
 				outBuffer[outBufferPos] = '=';
 				outBuffer[outBufferPos + 1] = '\r';
@@ -398,6 +398,10 @@ size_t qpEncoder::decode(
 	size_t total = 0;
 	size_t inTotal = 0;
 
+	if (progress) {
+		progress->start(0);
+	}
+
 	while (bufferPos < bufferLength || !in.eof()) {
 
 		// Flush current output buffer
@@ -415,9 +419,9 @@ size_t qpEncoder::decode(
 			bufferLength = in.read(buffer, sizeof(buffer));
 			bufferPos = 0;
 
-			// No more data
+			// No data yet, or no more data
 			if (bufferLength == 0) {
-				break;
+				continue;
 			}
 		}
 
@@ -430,7 +434,7 @@ size_t qpEncoder::decode(
 
 			case '=': {
 
-				if (bufferPos >= bufferLength) {
+				while (bufferPos >= bufferLength && !in.eof()) {
 					bufferLength = in.read(buffer, sizeof(buffer));
 					bufferPos = 0;
 				}
@@ -447,7 +451,7 @@ size_t qpEncoder::decode(
 						case '\r':
 
 							// Read one byte more
-							if (bufferPos >= bufferLength) {
+							while (bufferPos >= bufferLength && !in.eof()) {
 								bufferLength = in.read(buffer, sizeof(buffer));
 								bufferPos = 0;
 							}
@@ -467,7 +471,7 @@ size_t qpEncoder::decode(
 						default:
 						{
 							// We need another byte...
-							if (bufferPos >= bufferLength) {
+							while (bufferPos >= bufferLength && !in.eof()) {
 								bufferLength = in.read(buffer, sizeof(buffer));
 								bufferPos = 0;
 							}
@@ -548,11 +552,12 @@ size_t qpEncoder::getEncodedSize(const size_t n) const {
 		getProperties().getProperty <size_t>("maxlinelength", static_cast <size_t>(-1));
 
 	const bool cutLines = (propMaxLineLength != static_cast <size_t>(-1));
-	const size_t maxLineLength = std::min(propMaxLineLength, static_cast <size_t>(74));
+	const size_t maxLineLength =
+		std::max(std::min(propMaxLineLength, static_cast <size_t>(74)), static_cast <size_t>(2));
 
 	// Worst cast: 1 byte of input provide 3 bytes of output
-	// Count CRLF (2 bytes) for each line.
-	return n * 3 + (cutLines ? (n / maxLineLength) * 2 : 0);
+	// Count a soft line break (3 bytes) for each line.
+	return n * 3 + (cutLines ? (n * 3 / (maxLineLength - 1)) * 3 : 0);
 }
 
 
-- 
2.43.0


From 0d3bef67e3948cd282bb53998fcfaef97bb5f2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:02 +0000
Subject: [PATCH 58/86] fix: uuencode: output depended on how the input was
 delivered, padding of the last group, buffer overflows on damaged data

---
 src/vmime/utility/encoder/uuEncoder.cpp | 61 ++++++++++++++++++-------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/vmime/utility/encoder/uuEncoder.cpp b/src/vmime/utility/encoder/uuEncoder.cpp
index 24dcdc8..db9fd3a 100644
--- a/src/vmime/utility/encoder/uuEncoder.cpp
+++ b/src/vmime/utility/encoder/uuEncoder.cpp
@@ -64,6 +64,19 @@ static inline unsigned int UUDECODE(const unsigned int c) {
 }
 
 
+// The stream may return less than requested even if its end has not been reached
+static size_t readFully(utility::inputStream& in, byte_t* const data, const size_t count) {
+
+	size_t total = 0;
+
+	while (total < count && !in.eof()) {
+		total += in.read(data + total, count - total);
+	}
+
+	return total;
+}
+
+
 size_t uuEncoder::encode(
 	utility::inputStream& in,
 	utility::outputStream& out,
@@ -75,8 +88,10 @@ size_t uuEncoder::encode(
 	const string propFilename = getProperties().getProperty <string>("filename", "");
 	const string propMode = getProperties().getProperty <string>("mode", "644");
 
-	const size_t maxLineLength =
-		std::min(getProperties().getProperty <size_t>("maxlinelength", 46), static_cast <size_t>(46));
+	const size_t maxLineLength = std::max(
+		std::min(getProperties().getProperty <size_t>("maxlinelength", 46), static_cast <size_t>(46)),
+		static_cast <size_t>(2)
+	);
 
 	size_t total = 0;
 	size_t inTotal = 0;
@@ -105,7 +120,11 @@ size_t uuEncoder::encode(
 		// Process up to 45 characters per line
 		std::fill(inBuffer, inBuffer + sizeof(inBuffer), 0);
 
-		const size_t inLength = in.read(inBuffer, maxLineLength - 1);
+		const size_t inLength = readFully(in, inBuffer, maxLineLength - 1);
+
+		if (inLength == 0) {
+			break;
+		}
 
 		outBuffer[0] = UUENCODE(static_cast <unsigned int>(inLength)); // Line length
 
@@ -156,8 +175,8 @@ size_t uuEncoder::decode(
 	in.reset();  // may not work...
 
 	// Process the data
-	byte_t inBuffer[64];
-	byte_t outBuffer[64];
+	byte_t inBuffer[84];   // the length of a line is at most 63,
+	byte_t outBuffer[63];  // and each 4 bytes of input provide 3 bytes of output
 
 	size_t total = 0;
 	size_t inTotal = 0;
@@ -175,12 +194,12 @@ size_t uuEncoder::decode(
 		// Get the line length
 		byte_t lengthChar;
 
-		if (in.read(&lengthChar, 1) == 0) {
+		if (readFully(in, &lengthChar, 1) == 0) {
 			break;
 		}
 
 		const size_t outLength = UUDECODE(lengthChar);
-		const size_t inLength = std::min((outLength * 4) / 3, static_cast <size_t>(64));
+		const size_t inLength = ((outLength + 2) / 3) * 4;
 		size_t inPos = 0;
 
 		switch (lengthChar) {
@@ -196,7 +215,7 @@ size_t uuEncoder::decode(
 			case 'b': {
 
 				// Read 5 characters more to check for begin ("begin ...\r\n" or "begin ...\n")
-				inPos = in.read(inBuffer, 5);
+				inPos = readFully(in, inBuffer, 5);
 
 				if (inPos == 5 &&
 				    inBuffer[0] == 'e' &&
@@ -212,7 +231,7 @@ size_t uuEncoder::decode(
 					size_t count = 0;
 					byte_t buffer[512];
 
-					while (count < sizeof(buffer) - 1 && in.read(&c, 1) == 1) {
+					while (count < sizeof(buffer) - 1 && readFully(in, &c, 1) == 1) {
 
 						if (c == '\n') {
 							break;
@@ -243,7 +262,7 @@ size_t uuEncoder::decode(
 
 						while (*p && parserHelpers::isSpace(*p)) ++p;
 
-						byte_t* modeStart = buffer;
+						byte_t* modeStart = p;
 
 						while (*p && !parserHelpers::isSpace(*p)) ++p;
 
@@ -251,7 +270,7 @@ size_t uuEncoder::decode(
 
 						while (*p && parserHelpers::isSpace(*p)) ++p;
 
-						byte_t* filenameStart = buffer;
+						byte_t* filenameStart = p;
 
 						while (*p && !(*p == '\r' || *p == '\n')) ++p;
 
@@ -272,7 +291,7 @@ size_t uuEncoder::decode(
 			case 'e': {
 
 				// Read 3 characters more to check for end ("end\r\n" or "end\n")
-				inPos = in.read(inBuffer, 3);
+				inPos = readFully(in, inBuffer, 3);
 
 				if (inPos == 3 &&
 				    inBuffer[0] == 'n' &&
@@ -290,8 +309,10 @@ size_t uuEncoder::decode(
 		}
 
 		// Read encoded data
-		if (in.read(inBuffer + inPos, inLength - inPos) != inLength - inPos) {
-			// Premature end of data
+		if (inPos > inLength ||
+		    readFully(in, inBuffer + inPos, inLength - inPos) != inLength - inPos) {
+
+			// Invalid line or premature end of data
 			break;
 		}
 
@@ -305,7 +326,7 @@ size_t uuEncoder::decode(
 			const byte_t c3 = inBuffer[i + 2];
 			const byte_t c4 = inBuffer[i + 3];
 
-			const size_t n = std::min(inLength - i, static_cast <size_t>(3));
+			const size_t n = std::min(outLength - j, static_cast <size_t>(3));
 
 			if (n >= 3) {
 				outBuffer[j + 2] = static_cast <byte_t>(UUDECODE(c3) << 6 | UUDECODE(c4));
@@ -339,10 +360,16 @@ size_t uuEncoder::decode(
 
 size_t uuEncoder::getEncodedSize(const size_t n) const {
 
+	const size_t maxLineLength = std::max(
+		std::min(getProperties().getProperty <size_t>("maxlinelength", 46), static_cast <size_t>(46)),
+		static_cast <size_t>(2)
+	);
+
 	// 3 bytes of input provide 4 bytes of output.
-	// Count CRLF (2 bytes) for each line of 45 characters.
+	// Count the length (1 byte), the padding (at most 4 bytes) and CRLF (2 bytes) for each line.
 	// Also reserve some space for header and footer.
-	return 200 + n * 3 + (n / 45) * 2;
+	return 200 + n * 3 + (n / (maxLineLength - 1) + 1) * 7
+		+ getProperties().getProperty <string>("filename", "").length();
 }
 
 
-- 
2.43.0


From ef9e303f0d293841fb56703320eec390dbb83b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:02 +0000
Subject: [PATCH 59/86] fix: stopSequenceFilteredInputStream: missed sequences
 which overlap themselves; reset() did not clear the end

---
 src/vmime/utility/filteredStream.hpp | 115 +++++----------------------
 1 file changed, 19 insertions(+), 96 deletions(-)

diff --git a/src/vmime/utility/filteredStream.hpp b/src/vmime/utility/filteredStream.hpp
index daf2273..5497694 100644
--- a/src/vmime/utility/filteredStream.hpp
+++ b/src/vmime/utility/filteredStream.hpp
@@ -240,6 +240,7 @@ public:
 	void reset() {
 
 		m_found = 0;
+		m_eof = false;
 		m_stream.reset();
 	}
 
@@ -272,112 +273,34 @@ public:
 			}
 		}
 
-		size_t read = m_stream.read(data, count - COUNT);
-
-		byte_t* end = data + read;
-		byte_t* pos = data;
-
-		while (pos < end) {
-
-			// Very simple case, search for the whole sequence
-			if (m_found == 0) {
-
-				while (pos < end) {
-
-					pos = std::find(pos, end, m_sequence[0]);
-
-					if (pos == end) {
-						return read;
-					}
-
-					m_found = 1;
-					++pos;
-
-					while (pos < end && m_found < COUNT && m_sequence[m_found] == *pos) {
-						++m_found;
-						++pos;
-					}
-
-					// Didn't found whole sequence
-					if (m_found != COUNT) {
-
-						// We reached the end of the buffer
-						if (pos == end) {
-
-							return read - m_found;
-
-						// Common prefix but not whole sequence
-						} else {
-
-							m_found = 0;
-						}
-
-					// Whole sequence found
-					} else {
-
-						// End of stream
-						return pos - data - m_found;
-					}
-				}
-
-			// More complex case: search for a sequence which has begun
-			// in a previous buffer
-			} else {
-
-				// Search for the end of the previously started sequence
-				while (pos < end && m_found < COUNT && m_sequence[m_found] == *pos) {
-					++m_found;
-					++pos;
-				}
-
-				if (m_found != COUNT) {
-
-					// End of buffer
-					if (pos == end) {
-
-						// No data: this buffer is a sub-sequence of the
-						// searched sequence
-						return 0;
-
-					// Common prefix
-					} else {
-
-						// We have to reinject the incomplete sequence into
-						// the stream data
-
-						// -- shift right data
-						const size_t n = pos - data;
-
-						byte_t* newEnd = data + read + m_found - n;
-						byte_t* oldEnd = data + read;
-
-						for (size_t i = 0 ; i < read - n ; ++i) {
+		// Reinject the part of the sequence which ended the previous buffer
+		for (size_t f = 0 ; f < m_found ; ++f) {
+			data[f] = m_sequence[f];
+		}
 
-							--newEnd;
-							--oldEnd;
+		byte_t* end = data + m_found;
+		end += m_stream.read(end, count - COUNT);
 
-							*newEnd = *oldEnd;
-						}
+		byte_t* pos = std::search(data, end, m_sequence, m_sequence + COUNT);
 
-						// -- copy the prefix just before data
-						for (size_t f = 0 ; f < m_found ; ++f) {
-							data[f] = m_sequence[f];
-						}
+		if (pos != end) {
 
-						read += m_found - n;
-						end += m_found - n;
+			// Whole sequence found: end of stream
+			m_found = COUNT;
 
-						m_found = 0;
-					}
+		} else {
 
-				} else {
+			// Maybe the sequence begins at the end of this buffer
+			m_found = std::min(static_cast <size_t>(end - data), static_cast <size_t>(COUNT - 1));
 
-					return 0;  // no more data
-				}
+			while (m_found != 0 && !std::equal(end - m_found, end, m_sequence)) {
+				--m_found;
 			}
+
+			pos = end - m_found;
 		}
 
-		return read;
+		return pos - data;
 	}
 
 	size_t skip(const size_t /* count */) {
-- 
2.43.0


From 84013821e00eb0161ba26afb45fe40451cc6574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:02 +0000
Subject: [PATCH 60/86] fix: charsetConverter: state left at the end was not
 flushed, errors missed or wrong when data is converted in pieces

---
 src/vmime/charsetConverter_icu.cpp | 68 ++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/src/vmime/charsetConverter_icu.cpp b/src/vmime/charsetConverter_icu.cpp
index 5016dca..026458b 100644
--- a/src/vmime/charsetConverter_icu.cpp
+++ b/src/vmime/charsetConverter_icu.cpp
@@ -225,15 +225,6 @@ void charsetConverter_icu::convert(
 				);
 
 				if (st) {
-
-					// Decrement input bytes count by the number of input bytes in error
-					char errBytes[16];
-					int8_t errBytesLen = sizeof(errBytes);
-					UErrorCode errBytesErr = U_ZERO_ERROR;
-
-	 				ucnv_getInvalidChars(m_from, errBytes, &errBytesLen, &errBytesErr);
-
-					st->inputBytesRead -= errBytesLen;
 					st->outputBytesWritten += cpTarget - &cpOutBuffer[0];
 				}
 
@@ -242,6 +233,18 @@ void charsetConverter_icu::convert(
 				    toErr == U_TRUNCATED_CHAR_FOUND ||
 				    toErr == U_ILLEGAL_CHAR_FOUND) {
 
+					if (st) {
+
+						// Decrement input bytes count by the number of input bytes in error
+						char errBytes[16];
+						int8_t errBytesLen = sizeof(errBytes);
+						UErrorCode errBytesErr = U_ZERO_ERROR;
+
+						ucnv_getInvalidChars(m_from, errBytes, &errBytesLen, &errBytesErr);
+
+						st->inputBytesRead -= errBytesLen;
+					}
+
 					throw exceptions::illegal_byte_sequence_for_charset();
 				}
 
@@ -353,7 +356,7 @@ charsetFilteredOutputStream_icu::charsetFilteredOutputStream_icu(
 
 		// Tell ICU top stop (and return an error) on illegal byte sequences
 		ucnv_setToUCallBack(
-			m_to, UCNV_TO_U_CALLBACK_STOP, UCNV_SUB_STOP_ON_ILLEGAL, NULL, NULL, &err
+			m_from, UCNV_TO_U_CALLBACK_STOP, UCNV_SUB_STOP_ON_ILLEGAL, NULL, NULL, &err
 		);
 
 		if (U_FAILURE(err)) {
@@ -393,6 +396,10 @@ void charsetFilteredOutputStream_icu::writeImpl(
 		throw exceptions::charset_conv_error("Cannot initialize converters.");
 	}
 
+	if (count == 0) {
+		return;
+	}
+
 	// Allocate buffer for Unicode chars
 	const size_t uniSize = ucnv_getMinCharSize(m_from) * count * sizeof(UChar);
 	std::vector <UChar> uniBuffer(uniSize);
@@ -517,18 +524,25 @@ void charsetFilteredOutputStream_icu::flush() {
 
 		if (U_FAILURE(toErr) && toErr != U_BUFFER_OVERFLOW_ERROR) {
 
-			throw exceptions::charset_conv_error(
-				"[ICU] Error converting to Unicode from '" + m_sourceCharset.getName() + "'."
-			);
+			if (toErr == U_INVALID_CHAR_FOUND ||
+			    toErr == U_TRUNCATED_CHAR_FOUND ||
+			    toErr == U_ILLEGAL_CHAR_FOUND) {
+
+				throw exceptions::illegal_byte_sequence_for_charset();
+
+			} else {
+
+				throw exceptions::charset_conv_error(
+					"[ICU] Error converting to Unicode from '" + m_sourceCharset.getName() + "'."
+				);
+			}
 		}
 
 		const size_t uniLength = uniTarget - &uniBuffer[0];
-		if(uniLength == 0) {
-			continue;
-		}
 
-		// Allocate buffer for destination charset
-		const size_t cpSize = ucnv_getMinCharSize(m_to) * uniLength;
+		// Allocate buffer for destination charset (even if there is no char left, the
+		// converter may have some bytes to write to get back to its initial state)
+		const size_t cpSize = ucnv_getMaxCharSize(m_to) * (uniLength + 1);
 		std::vector <char> cpBuffer(cpSize);
 
 		// Convert from Unicode to destination charset
@@ -546,14 +560,24 @@ void charsetFilteredOutputStream_icu::flush() {
 
 			ucnv_fromUnicode(
 				m_to, &cpTarget, cpTargetLimit,
-				&cpSource, cpSourceLimit, NULL, /* flush */ UBool(1), &fromErr
+				&cpSource, cpSourceLimit, NULL,
+				/* flush */ UBool(toErr != U_BUFFER_OVERFLOW_ERROR), &fromErr
 			);
 
 			if (fromErr != U_BUFFER_OVERFLOW_ERROR && U_FAILURE(fromErr)) {
 
-				throw exceptions::charset_conv_error(
-					"[ICU] Error converting from Unicode to '" + m_destCharset.getName() + "'."
-				);
+				if (fromErr == U_INVALID_CHAR_FOUND ||
+				    fromErr == U_TRUNCATED_CHAR_FOUND ||
+				    fromErr == U_ILLEGAL_CHAR_FOUND) {
+
+					throw exceptions::illegal_byte_sequence_for_charset();
+
+				} else {
+
+					throw exceptions::charset_conv_error(
+						"[ICU] Error converting from Unicode to '" + m_destCharset.getName() + "'."
+					);
+				}
 			}
 
 			const size_t cpLength = cpTarget - &cpBuffer[0];
-- 
2.43.0


From fb771dfb3752b3223833fef82fb317a9b412652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:02 +0000
Subject: [PATCH 61/86] fix: input stream adapters: read out of range, failures
 of the stream taken as its end, underlying stream ending early

---
 src/vmime/utility/inputStreamAdapter.cpp         | 16 ++++++++++++++++
 src/vmime/utility/inputStreamAdapter.hpp         |  2 ++
 src/vmime/utility/inputStreamStringAdapter.cpp   |  2 +-
 .../utility/seekableInputStreamRegionAdapter.cpp |  6 ++++++
 4 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/vmime/utility/inputStreamAdapter.cpp b/src/vmime/utility/inputStreamAdapter.cpp
index 9dbc624..9483208 100644
--- a/src/vmime/utility/inputStreamAdapter.cpp
+++ b/src/vmime/utility/inputStreamAdapter.cpp
@@ -23,6 +23,8 @@
 
 #include "vmime/utility/inputStreamAdapter.hpp"
 
+#include "vmime/exception.hpp"
+
 
 namespace vmime {
 namespace utility {
@@ -53,6 +55,8 @@ size_t inputStreamAdapter::read(byte_t* const data, const size_t count) {
 	m_stream.exceptions(std::ios_base::badbit);
 	m_stream.read(reinterpret_cast <char*>(data), count);
 
+	checkFailure();
+
 	return m_stream.gcount();
 }
 
@@ -62,10 +66,22 @@ size_t inputStreamAdapter::skip(const size_t count) {
 	m_stream.exceptions(std::ios_base::badbit);
 	m_stream.ignore(count);
 
+	checkFailure();
+
 	return m_stream.gcount();
 }
 
 
+void inputStreamAdapter::checkFailure() const {
+
+	// If the stream can not be read for another reason than having reached its
+	// end (eg. the file could not be open), eof() would never be true
+	if (m_stream.fail() && !m_stream.eof()) {
+		throw exceptions::system_error("Error while reading from stream.");
+	}
+}
+
+
 size_t inputStreamAdapter::getPosition() const {
 
 	return m_stream.tellg();
diff --git a/src/vmime/utility/inputStreamAdapter.hpp b/src/vmime/utility/inputStreamAdapter.hpp
index 340765c..eac7054 100644
--- a/src/vmime/utility/inputStreamAdapter.hpp
+++ b/src/vmime/utility/inputStreamAdapter.hpp
@@ -53,6 +53,8 @@ public:
 
 private:
 
+	void checkFailure() const;
+
 	std::istream& m_stream;
 };
 
diff --git a/src/vmime/utility/inputStreamStringAdapter.cpp b/src/vmime/utility/inputStreamStringAdapter.cpp
index bf09a9b..4de30f9 100644
--- a/src/vmime/utility/inputStreamStringAdapter.cpp
+++ b/src/vmime/utility/inputStreamStringAdapter.cpp
@@ -68,7 +68,7 @@ size_t inputStreamStringAdapter::read(byte_t* const data, const size_t count) {
 
 		const size_t remaining = m_end - m_pos;
 
-		std::copy(m_buffer.begin() + m_pos, m_buffer.end(), data);
+		std::copy(m_buffer.begin() + m_pos, m_buffer.begin() + m_end, data);
 		m_pos = m_end;
 
 		return remaining;
diff --git a/src/vmime/utility/seekableInputStreamRegionAdapter.cpp b/src/vmime/utility/seekableInputStreamRegionAdapter.cpp
index 3272366..f296844 100644
--- a/src/vmime/utility/seekableInputStreamRegionAdapter.cpp
+++ b/src/vmime/utility/seekableInputStreamRegionAdapter.cpp
@@ -71,6 +71,12 @@ size_t seekableInputStreamRegionAdapter::read(byte_t* const data, const size_t c
 
 	m_position += readBytes;
 
+	if (readBytes == 0 && count != 0 && m_position < m_length && m_stream->eof()) {
+
+		// The underlying stream ends before the end of the region
+		m_length = m_position;
+	}
+
 	return readBytes;
 }
 
-- 
2.43.0


From 4dabc99ef926608f0093236d2821e8ca51f700ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 62/86] fix: bufferedStreamCopyRange(): wrong range from
 streams which cannot skip

---
 src/vmime/utility/streamUtils.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/streamUtils.cpp b/src/vmime/utility/streamUtils.cpp
index 793973c..4680f84 100644
--- a/src/vmime/utility/streamUtils.cpp
+++ b/src/vmime/utility/streamUtils.cpp
@@ -62,13 +62,16 @@ size_t bufferedStreamCopyRange(
 	const size_t blockSize =
 		std::min(is.getBlockSize(), os.getBlockSize());
 
-	is.skip(start);
-
 	std::vector <byte_t> vbuffer(blockSize);
 
 	byte_t* buffer = &vbuffer.front();
 	size_t total = 0;
 
+	// The stream may skip less than requested, or not support skipping
+	for (size_t skipped = is.skip(start) ; skipped < start && !is.eof() ; ) {
+		skipped += is.read(buffer, std::min(start - skipped, blockSize));
+	}
+
 	while (!is.eof() && total < length) {
 
 		const size_t remaining = std::min(length - total, blockSize);
-- 
2.43.0


From 5fb5674c977e712efd598bcd1f9b91b6f64cbbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:56 +0000
Subject: [PATCH 63/86] fix: word: spaces were doubled between encoded and
 unencoded words of a text

---
 src/vmime/word.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index a16b4b5..8ca0267 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -642,7 +642,9 @@ void word::generate(
 
 				if (curLineLength != NEW_LINE_SEQUENCE_LENGTH &&
 				    !state->isFirstWord &&
-				    state->prevWordIsEncoded) {
+				    state->prevWordIsEncoded &&
+				    !state->lastCharIsSpace &&
+				    !parserHelpers::isSpace(*curLineStart)) {
 
 					os << " "; // Separate from previous word
 				}
@@ -678,6 +680,8 @@ void word::generate(
 			}
 		}
 
+		state->prevWordIsEncoded = false;
+
 	/*
 		RFC #2047:
 		4. Encodings
@@ -746,6 +750,11 @@ void word::generate(
 		if (startNewLine) {
 
 			os << NEW_LINE_SEQUENCE;
+			if (!state->isFirstWord && !state->prevWordIsEncoded &&
+			    !state->lastCharIsSpace && m_buffer[0] == ' ') {
+				wordEnc.getNextChunk(1);  // the new line stands for this space
+			}
+
 			curLineLength = NEW_LINE_SEQUENCE_LENGTH;
 
 			state->lastCharIsSpace = true;
-- 
2.43.0


From 2db42042ba7224f4f3217e624dc02561a73b3869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:20 +0000
Subject: [PATCH 64/86] fix: component: parsing from a stream of unknown length
 read nothing; parsed bounds and new position when the stream is not seekable

---
 src/vmime/component.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/vmime/component.cpp b/src/vmime/component.cpp
index e5e0370..81596b8 100644
--- a/src/vmime/component.cpp
+++ b/src/vmime/component.cpp
@@ -83,10 +83,24 @@ void component::parse(
 		std::ostringstream oss;
 		utility::outputStreamAdapter ossAdapter(oss);
 
-		utility::bufferedStreamCopyRange(*inputStream, ossAdapter, position, end - position);
+		// If the end is not known, read until the end of the stream
+		utility::bufferedStreamCopyRange(
+			*inputStream, ossAdapter, position,
+			end == 0 ? static_cast <size_t>(-1) : end - position
+		);
 
 		const string buffer = oss.str();
-		parseImpl(ctx, buffer, 0, buffer.length(), NULL);
+		parseImpl(ctx, buffer, 0, buffer.length(), newPosition);
+
+		// Parsed bounds are relative to the stream
+		if (position != 0) {
+
+			offsetParsedBounds(position);
+
+			if (newPosition) {
+				*newPosition += position;
+			}
+		}
 
 	} else {
 
-- 
2.43.0


From f3d932b670bad2304a0bd09786eaf42fa1391e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:16 +0000
Subject: [PATCH 65/86] fix: attachmentHelper::addAttachment() lost the
 parameters and the disposition of the contents it moved

---
 src/vmime/attachmentHelper.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/vmime/attachmentHelper.cpp b/src/vmime/attachmentHelper.cpp
index 8605122..5b37730 100644
--- a/src/vmime/attachmentHelper.cpp
+++ b/src/vmime/attachmentHelper.cpp
@@ -237,8 +237,16 @@ void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shar
 
 			if (msg->getHeader()->hasField(fields::CONTENT_TYPE)) {
 
-				container->getHeader()->ContentType()->setValue(
-					msg->getHeader()->ContentType()->getValue()
+				// With the parameters: charset, boundary...
+				container->getHeader()->ContentType()->copyFrom(
+					*msg->getHeader()->ContentType()
+				);
+			}
+
+			if (msg->getHeader()->hasField(fields::CONTENT_DISPOSITION)) {
+
+				container->getHeader()->ContentDisposition()->copyFrom(
+					*msg->getHeader()->ContentDisposition()
 				);
 			}
 
@@ -270,8 +278,16 @@ void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shar
 
 			if (msg->getHeader()->hasField(fields::CONTENT_TYPE)) {
 
-				child->getHeader()->ContentType()->setValue(
-					msg->getHeader()->ContentType()->getValue()
+				// With the parameters: charset, boundary...
+				child->getHeader()->ContentType()->copyFrom(
+					*msg->getHeader()->ContentType()
+				);
+			}
+
+			if (msg->getHeader()->hasField(fields::CONTENT_DISPOSITION)) {
+
+				child->getHeader()->ContentDisposition()->copyFrom(
+					*msg->getHeader()->ContentDisposition()
 				);
 			}
 
@@ -289,6 +305,7 @@ void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shar
 		}
 
 		// Set the root part to 'multipart/mixed'
+		msg->getHeader()->removeAllFields(vmime::fields::CONTENT_TYPE);
 		msg->getHeader()->ContentType()->setValue(mpMixed);
 
 		msg->getHeader()->removeAllFields(vmime::fields::CONTENT_DISPOSITION);
-- 
2.43.0


From c8f49be538637b0aabb186ffa1725a2cf61b0513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:57 +0000
Subject: [PATCH 66/86] fix: body: boundaries found after the end of the body
 were taken into account

---
 src/vmime/body.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 50aaf9c..a714946 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -75,8 +75,8 @@ size_t body::findNextBoundaryPosition(
 
 		pos = parser->findNext(boundary, pos);
 
-		if (pos == npos) {
-			break;  // not found
+		if (pos == npos || pos + boundary.length() > end) {
+			return npos;  // not found, or found after the end
 		}
 
 		if (pos == 0) {
@@ -94,13 +94,16 @@ size_t body::findNextBoundaryPosition(
 			continue;
 		}
 
-		parser->seek(pos + boundary.length());
+		// Boundary should be followed by a new line or a dash
+		if (pos + boundary.length() < end) {
 
-		const byte_t next = parser->peekByte();
+			parser->seek(pos + boundary.length());
 
-		// Boundary should be followed by a new line or a dash
-		if (!isspace(next) && next != '-') {
-			continue;
+			const byte_t next = parser->peekByte();
+
+			if (!isspace(next) && next != '-') {
+				continue;
+			}
 		}
 
 		// Get rid of the "[CR]" just before "[LF]--", if any
-- 
2.43.0


From 5c5ae9e219703d192129b950d29f2aeba996bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:12 +0000
Subject: [PATCH 67/86] fix: charsetConverter_idna: read beyond the end of
 invalid UTF-8, empty output for what is not valid Punycode

---
 src/vmime/charsetConverter_idna.cpp | 43 +++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/vmime/charsetConverter_idna.cpp b/src/vmime/charsetConverter_idna.cpp
index db4e131..e218a04 100644
--- a/src/vmime/charsetConverter_idna.cpp
+++ b/src/vmime/charsetConverter_idna.cpp
@@ -111,8 +111,25 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 		unichars.reserve(inUTF8.length());
 
 		while (ch < end) {
-			const uint32_t uc = utf8::unchecked::next(ch);
-			unichars.push_back(uc);
+
+			const char* next = ch;
+
+			if (utf8::internal::validate_next(next, end) == utf8::internal::UTF8_OK) {
+
+				unichars.push_back(utf8::unchecked::next(ch));
+
+			} else if (m_options.silentlyReplaceInvalidSequences) {
+
+				unichars.insert(
+					unichars.end(), m_options.invalidSequence.begin(), m_options.invalidSequence.end()
+				);
+
+				++ch;
+
+			} else {
+
+				throw exceptions::illegal_byte_sequence_for_charset();
+			}
 		}
 
 		if (st) {
@@ -121,11 +138,11 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 
 		punycode_uint inputLen = static_cast <punycode_uint>(unichars.size());
 
-		std::vector <char> output(inUTF8.length() * 2);
+		std::vector <char> output(unichars.size() * 8 + 1);
 		punycode_uint outputLen = static_cast <punycode_uint>(output.size());
 
 		const punycode_status status = punycode_encode(
-			inputLen, &unichars[0], /* case_flags */ NULL, &outputLen, &output[0]
+			inputLen, unichars.data(), /* case_flags */ NULL, &outputLen, output.data()
 		);
 
 		if (status == punycode_success) {
@@ -138,7 +155,12 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 
 		} else {
 
-			// TODO
+			// Cannot be encoded: leave it as it is
+			out = in;
+
+			if (st) {
+				st->outputBytesWritten = in.length();
+			}
 		}
 
 	} else if (m_source == "idna") {
@@ -171,7 +193,7 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 		if (status == punycode_success) {
 
 			std::vector <char> outUTF8Bytes(outputLen * 4);
-			char* p = &outUTF8Bytes[0];
+			char* p = outUTF8Bytes.data();
 
 			for (std::vector <punycode_uint>::const_iterator it = output.begin() ;
 			     it != output.begin() + outputLen ; ++it) {
@@ -179,7 +201,7 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 				p = utf8::unchecked::append(*it, p);
 			}
 
-			string outUTF8(&outUTF8Bytes[0], p);
+			string outUTF8(outUTF8Bytes.data(), p);
 			charset::convert(outUTF8, out, vmime::charsets::UTF_8, m_dest);
 
 			if (st) {
@@ -188,7 +210,12 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 
 		} else {
 
-			// TODO
+			// Cannot be decoded: leave it as it is
+			out = in;
+
+			if (st) {
+				st->outputBytesWritten = in.length();
+			}
 		}
 	}
 }
-- 
2.43.0


From 4ea99734ffa752930811173802c30b23efb4db42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:44 +0000
Subject: [PATCH 68/86] fix: a listener which removed itself while being
 notified invalidated the iteration over the listeners of a folder

---
 src/vmime/net/folder.cpp | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/vmime/net/folder.cpp b/src/vmime/net/folder.cpp
index 75b1004..7eced2d 100644
--- a/src/vmime/net/folder.cpp
+++ b/src/vmime/net/folder.cpp
@@ -65,10 +65,17 @@ void folder::removeMessageChangedListener(events::messageChangedListener* l) {
 
 void folder::notifyMessageChanged(const shared_ptr <events::messageChangedEvent>& event) {
 
-	for (std::list <events::messageChangedListener*>::iterator
-	     it = m_messageChangedListeners.begin() ; it != m_messageChangedListeners.end() ; ++it) {
+	// Listeners may be added or removed while the event is being dispatched
+	const std::list <events::messageChangedListener*> listeners = m_messageChangedListeners;
 
-		event->dispatch(*it);
+	for (std::list <events::messageChangedListener*>::const_iterator
+	     it = listeners.begin() ; it != listeners.end() ; ++it) {
+
+		if (std::find(m_messageChangedListeners.begin(), m_messageChangedListeners.end(), *it)
+				!= m_messageChangedListeners.end()) {
+
+			event->dispatch(*it);
+		}
 	}
 }
 
@@ -90,10 +97,17 @@ void folder::removeMessageCountListener(events::messageCountListener* l) {
 
 void folder::notifyMessageCount(const shared_ptr <events::messageCountEvent>& event) {
 
-	for (std::list <events::messageCountListener*>::iterator
-	     it = m_messageCountListeners.begin() ; it != m_messageCountListeners.end() ; ++it) {
+	// Listeners may be added or removed while the event is being dispatched
+	const std::list <events::messageCountListener*> listeners = m_messageCountListeners;
+
+	for (std::list <events::messageCountListener*>::const_iterator
+	     it = listeners.begin() ; it != listeners.end() ; ++it) {
 
-		event->dispatch(*it);
+		if (std::find(m_messageCountListeners.begin(), m_messageCountListeners.end(), *it)
+				!= m_messageCountListeners.end()) {
+
+			event->dispatch(*it);
+		}
 	}
 }
 
@@ -115,10 +129,17 @@ void folder::removeFolderListener(events::folderListener* l) {
 
 void folder::notifyFolder(const shared_ptr <events::folderEvent>& event) {
 
-	for (std::list <events::folderListener*>::iterator
-	     it = m_folderListeners.begin() ; it != m_folderListeners.end() ; ++it) {
+	// Listeners may be added or removed while the event is being dispatched
+	const std::list <events::folderListener*> listeners = m_folderListeners;
+
+	for (std::list <events::folderListener*>::const_iterator
+	     it = listeners.begin() ; it != listeners.end() ; ++it) {
+
+		if (std::find(m_folderListeners.begin(), m_folderListeners.end(), *it)
+				!= m_folderListeners.end()) {
 
-		event->dispatch(*it);
+			event->dispatch(*it);
+		}
 	}
 }
 
-- 
2.43.0


From 999a5e132ebb45fb6e6dc4eb399dca8e688f124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:44 +0000
Subject: [PATCH 69/86] fix: POP3, SMTP: disconnect() kept the socket open when
 the connection had been lost

---
 src/vmime/net/pop3/POP3Store.cpp      | 14 +++++++++-----
 src/vmime/net/smtp/SMTPConnection.cpp |  7 +++++--
 src/vmime/net/smtp/SMTPTransport.cpp  | 16 +++++++++++++---
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Store.cpp b/src/vmime/net/pop3/POP3Store.cpp
index 644ce8f..b5ba0e4 100644
--- a/src/vmime/net/pop3/POP3Store.cpp
+++ b/src/vmime/net/pop3/POP3Store.cpp
@@ -189,9 +189,7 @@ shared_ptr <POP3Connection> POP3Store::getConnection() {
 
 void POP3Store::disconnect() {
 
-	if (!isConnected()) {
-		throw exceptions::not_connected();
-	}
+	const bool wasConnected = isConnected();
 
 	for (std::list <POP3Folder*>::iterator it = m_folders.begin() ;
 	     it != m_folders.end() ; ++it) {
@@ -201,9 +199,15 @@ void POP3Store::disconnect() {
 
 	m_folders.clear();
 
-
-	m_connection->disconnect();
+	// Release the connection, even if it has been lost
+	shared_ptr <POP3Connection> connection = m_connection;
 	m_connection = null;
+
+	if (!wasConnected) {
+		throw exceptions::not_connected();
+	}
+
+	connection->disconnect();
 }
 
 
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index bb7e8ae..be16cad 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -634,8 +634,11 @@ void SMTPConnection::internalDisconnect() {
 
 void SMTPConnection::abandon() {
 
-	m_socket->disconnect();
-	m_socket = null;
+	if (m_socket) {
+
+		m_socket->disconnect();
+		m_socket = null;
+	}
 
 	m_timeoutHandler = null;
 
diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index b36929a..7080e54 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -139,12 +139,22 @@ shared_ptr <SMTPConnection> SMTPTransport::getConnection() {
 
 void SMTPTransport::disconnect() {
 
-	if (!isConnected()) {
+	const bool wasConnected = isConnected();
+
+	// Release the connection, even if it has been lost
+	shared_ptr <SMTPConnection> connection = m_connection;
+	m_connection = null;
+
+	if (!wasConnected) {
+
+		if (connection) {
+			connection->abandon();
+		}
+
 		throw exceptions::not_connected();
 	}
 
-	m_connection->disconnect();
-	m_connection = null;
+	connection->disconnect();
 }
 
 
-- 
2.43.0


From 4582eba8db615937331fa1919311337dfe6479f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:44 +0000
Subject: [PATCH 70/86] fix: folders of a store which has been disconnected,
 destroyed or has lost its connection stayed open, kept their connection or
 crashed

---
 src/vmime/net/imap/IMAPFolder.cpp       | 58 ++++++++++++++++++++++++-
 src/vmime/net/imap/IMAPStore.cpp        | 17 ++++++--
 src/vmime/net/maildir/maildirFolder.cpp | 21 ++++++++-
 src/vmime/net/pop3/POP3Folder.cpp       | 17 +++++++-
 4 files changed, 106 insertions(+), 7 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 3751fa0..22d7915 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -302,6 +302,26 @@ void IMAPFolder::close(const bool expunge) {
 	}
 
 	if (!m_connection || !m_connection->isConnected()) {
+
+		// The connection of this folder has been lost
+		if (isOpen()) {
+
+			m_open = false;
+			m_mode = -1;
+
+			m_status = make_shared <IMAPFolderStatus>();
+
+			if (m_connection) {
+				m_connection->drop();
+			}
+
+			if (store->connection()) {
+				m_connection = store->connection();
+			}
+
+			onClose();
+		}
+
 		throw exceptions::illegal_state("Folder not connected");
 	}
 
@@ -336,7 +356,9 @@ void IMAPFolder::close(const bool expunge) {
 	oldConnection->disconnect();
 
 	// Now use default store connection
-	m_connection = store->connection();
+	if (store->connection()) {
+		m_connection = store->connection();
+	}
 
 	m_open = false;
 	m_mode = -1;
@@ -501,6 +523,10 @@ bool IMAPFolder::exists() {
 
 int IMAPFolder::testExistAndGetType() {
 
+	if (!m_store.lock()) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
 	// To test whether a folder exists, we simple list it using
 	// the "LIST" command, and there should be one unique mailbox
 	// with this name...
@@ -1022,8 +1048,14 @@ shared_ptr <folder> IMAPFolder::getParent() {
 
 	} else {
 
+		shared_ptr <IMAPStore> store = m_store.lock();
+
+		if (!store) {
+			throw exceptions::illegal_state("Store disconnected");
+		}
+
 		return make_shared <IMAPFolder>(
-			m_path.getParent(), m_store.lock(), shared_ptr <folderAttributes>()
+			m_path.getParent(), store, shared_ptr <folderAttributes>()
 		);
 	}
 }
@@ -1061,6 +1093,28 @@ void IMAPFolder::unregisterMessage(IMAPMessage* msg) {
 void IMAPFolder::onStoreDisconnected() {
 
 	m_store.reset();
+
+	if (m_open) {
+
+		m_open = false;
+		m_mode = -1;
+
+		m_status = make_shared <IMAPFolderStatus>();
+
+		onClose();
+
+		// Close the connection of this folder
+		try {
+
+			if (m_connection) {
+				m_connection->disconnect();
+			}
+
+		} catch (exception&) {
+
+			// The folder is closed anyway
+		}
+	}
 }
 
 
diff --git a/src/vmime/net/imap/IMAPStore.cpp b/src/vmime/net/imap/IMAPStore.cpp
index 86b2b0d..ef80b35 100644
--- a/src/vmime/net/imap/IMAPStore.cpp
+++ b/src/vmime/net/imap/IMAPStore.cpp
@@ -60,9 +60,7 @@ IMAPStore::~IMAPStore() {
 
 	try {
 
-		if (isConnected()) {
-			disconnect();
-		}
+		disconnect();
 
 	} catch (...) {
 
@@ -131,6 +129,11 @@ void IMAPStore::connect() {
 		throw exceptions::already_connected();
 	}
 
+	// If the previous connection has been lost, folders may still refer to it
+	if (m_connection) {
+		m_connection->drop();
+	}
+
 	m_connection = make_shared <IMAPConnection>(
 		dynamicCast <IMAPStore>(shared_from_this()), getAuthenticator()
 	);
@@ -145,6 +148,14 @@ void IMAPStore::connect() {
 		m_connection = null;
 		throw;
 	}
+
+	for (std::list <IMAPFolder*>::iterator it = m_folders.begin() ;
+	     it != m_folders.end() ; ++it) {
+
+		if (!(*it)->isOpen()) {
+			(*it)->m_connection = m_connection;
+		}
+	}
 }
 
 
diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 61232e2..c61e9dc 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -102,6 +102,14 @@ maildirFolder::~maildirFolder() {
 void maildirFolder::onStoreDisconnected() {
 
 	m_store.reset();
+
+	if (m_open) {
+
+		m_open = false;
+		m_mode = -1;
+
+		onClose();
+	}
 }
 
 
@@ -1278,6 +1286,10 @@ shared_ptr <folderStatus> maildirFolder::getStatus() {
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
 	const size_t oldCount = m_messageCount;
 
 	try {
@@ -1415,7 +1427,14 @@ shared_ptr <folder> maildirFolder::getParent() {
 	if (m_path.isEmpty()) {
 		return null;
 	} else {
-		return shared_ptr <maildirFolder>(new maildirFolder(m_path.getParent(), m_store.lock()));
+
+		shared_ptr <maildirStore> store = m_store.lock();
+
+		if (!store) {
+			throw exceptions::illegal_state("Store disconnected");
+		}
+
+		return shared_ptr <maildirFolder>(new maildirFolder(m_path.getParent(), store));
 	}
 }
 
diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index 47ce2ec..f7b9342 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -579,7 +579,14 @@ shared_ptr <folder> POP3Folder::getParent() {
 	if (m_path.isEmpty()) {
 		return null;
 	} else {
-		return shared_ptr <POP3Folder>(new POP3Folder(m_path.getParent(), m_store.lock()));
+
+		shared_ptr <POP3Store> store = m_store.lock();
+
+		if (!store) {
+			throw exceptions::illegal_state("Store disconnected");
+		}
+
+		return shared_ptr <POP3Folder>(new POP3Folder(m_path.getParent(), store));
 	}
 }
 
@@ -611,6 +618,14 @@ void POP3Folder::unregisterMessage(POP3Message* msg) {
 void POP3Folder::onStoreDisconnected() {
 
 	m_store.reset();
+
+	if (m_open) {
+
+		m_open = false;
+		m_mode = -1;
+
+		onClose();
+	}
 }
 
 
-- 
2.43.0


From 838f3c1cd5bd77e8eab42be576cfba2755ef4010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:44 +0000
Subject: [PATCH 71/86] fix: IMAP: fetchMessages() fetched attributes of
 another message if the message given belonged to another folder

---
 src/vmime/net/imap/IMAPFolder.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 22d7915..0a03837 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -883,13 +883,20 @@ void IMAPFolder::fetchMessages(
 
 	for (std::vector <shared_ptr <message> >::iterator it = msg.begin() ; it != msg.end() ; ++it) {
 
+		shared_ptr <IMAPMessage> imapMsg = dynamicCast <IMAPMessage>(*it);
+
+		// Number is only valid in the folder the message belongs to
+		if (!imapMsg || imapMsg->m_folder.lock().get() != this) {
+			throw exceptions::folder_not_found();
+		}
+
 		// The number of an expunged message now belongs to another message
-		if ((*it)->isExpunged()) {
+		if (imapMsg->isExpunged()) {
 			continue;
 		}
 
-		list.push_back((*it)->getNumber());
-		numberToMsg[(*it)->getNumber()] = dynamicCast <IMAPMessage>(*it);
+		list.push_back(imapMsg->getNumber());
+		numberToMsg[imapMsg->getNumber()] = imapMsg;
 	}
 
 	if (list.empty()) {
-- 
2.43.0


From 8de8c18b79f43aa05a7ade80f9f7da63f1688552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:33 +0000
Subject: [PATCH 72/86] fix: SMTP addresses are written on one line, with the
 local part quoted, with and without SMTPUTF8

With SMTPUTF8 the local part was sent without the quotes it needs. Without it,
a long local part that has to be encoded was folded, which sent the rest of
the address as another command line.
---
 src/vmime/net/smtp/SMTPCommand.cpp | 56 +++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPCommand.cpp b/src/vmime/net/smtp/SMTPCommand.cpp
index 6d47402..264d073 100644
--- a/src/vmime/net/smtp/SMTPCommand.cpp
+++ b/src/vmime/net/smtp/SMTPCommand.cpp
@@ -32,6 +32,7 @@
 #include "vmime/net/socket.hpp"
 #include "vmime/net/tracer.hpp"
 
+#include "vmime/exception.hpp"
 #include "vmime/mailbox.hpp"
 #include "vmime/utility/outputStreamAdapter.hpp"
 
@@ -41,6 +42,39 @@ namespace net {
 namespace smtp {
 
 
+namespace {
+
+
+// Writes an address on a single line, quoting its local part if needed
+void writeAddress(std::ostringstream& oss, const emailAddress& email, const bool utf8) {
+
+	generationContext ctx(generationContext::getDefaultContext());
+	ctx.setMaxLineLength(lineLengthLimits::infinite);
+	ctx.setInternationalizedEmailSupport(utf8);
+
+	std::ostringstream address;
+	vmime::utility::outputStreamAdapter os(address);
+	email.generate(ctx, os);
+
+	// Whatever has not been quoted must not end the address
+	const string str = address.str();
+
+	for (size_t i = str.rfind('@') ; i < str.length() ; ++i) {
+
+		const unsigned char c = str[i];
+
+		if (c <= 0x20 || c == 0x7f || c == '<' || c == '>') {
+			throw exceptions::invalid_argument();
+		}
+	}
+
+	oss << str;
+}
+
+
+} // namespace
+
+
 SMTPCommand::SMTPCommand(const string& text, const string& traceText)
 	: m_text(text),
 	  m_traceText(traceText)
@@ -123,16 +157,7 @@ shared_ptr <SMTPCommand> SMTPCommand::MAIL(
 	cmd.imbue(std::locale::classic());
 	cmd << "MAIL FROM:<";
 
-	if (utf8) {
-
-		cmd << mbox.getEmail().toText().getConvertedText(vmime::charsets::UTF_8);
-
-	} else {
-
-		vmime::utility::outputStreamAdapter cmd2(cmd);
-		mbox.getEmail().generate(cmd2);
-	}
-
+	writeAddress(cmd, mbox.getEmail(), utf8);
 	cmd << ">";
 
 	if (dsnAttrs && !dsnAttrs->getReturnFormat().empty()) {
@@ -164,16 +189,7 @@ shared_ptr <SMTPCommand> SMTPCommand::RCPT(
 	cmd.imbue(std::locale::classic());
 	cmd << "RCPT TO:<";
 
-	if (utf8) {
-
-		cmd << mbox.getEmail().toText().getConvertedText(vmime::charsets::UTF_8);
-
-	} else {
-
-		vmime::utility::outputStreamAdapter cmd2(cmd);
-		mbox.getEmail().generate(cmd2);
-	}
-
+	writeAddress(cmd, mbox.getEmail(), utf8);
 	cmd << ">";
 
 	if (dsnAttrs && !dsnAttrs->getNotificationConditions().empty()) {
-- 
2.43.0


From a48eb902d7e003603828cc6e87085daf97a93cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:49 +0000
Subject: [PATCH 73/86] fix: a line break in a value never ends the command it
 is part of

User names, passwords, search strings and address domains given by the
application could carry CR, LF or NUL, and what followed was read by the
server as another command. Such a command is now refused.
---
 src/vmime/net/imap/IMAPCommand.cpp | 7 +++++++
 src/vmime/net/pop3/POP3Command.cpp | 7 +++++++
 src/vmime/net/smtp/SMTPCommand.cpp | 5 +++++
 3 files changed, 19 insertions(+)

diff --git a/src/vmime/net/imap/IMAPCommand.cpp b/src/vmime/net/imap/IMAPCommand.cpp
index b77f120..0673e28 100644
--- a/src/vmime/net/imap/IMAPCommand.cpp
+++ b/src/vmime/net/imap/IMAPCommand.cpp
@@ -28,6 +28,8 @@
 
 
 #include "vmime/net/imap/IMAPCommand.hpp"
+
+#include "vmime/exception.hpp"
 #include "vmime/net/imap/IMAPConnection.hpp"
 #include "vmime/net/imap/IMAPUtils.hpp"
 
@@ -426,6 +428,11 @@ shared_ptr <IMAPCommand> IMAPCommand::createCommand(
 	const string& traceText
 ) {
 
+	// A command is a single line: it cannot carry a line break
+	if (text.find_first_of("\r\n\0", 0, 3) != string::npos) {
+		throw exceptions::invalid_argument();
+	}
+
 	if (traceText.empty()) {
 		return shared_ptr <IMAPCommand>(new IMAPCommand(text, text));
 	} else {
diff --git a/src/vmime/net/pop3/POP3Command.cpp b/src/vmime/net/pop3/POP3Command.cpp
index 62385b9..6ba728f 100644
--- a/src/vmime/net/pop3/POP3Command.cpp
+++ b/src/vmime/net/pop3/POP3Command.cpp
@@ -28,6 +28,8 @@
 
 
 #include "vmime/net/pop3/POP3Command.hpp"
+
+#include "vmime/exception.hpp"
 #include "vmime/net/pop3/POP3Connection.hpp"
 #include "vmime/net/pop3/POP3Store.hpp"
 
@@ -233,6 +235,11 @@ shared_ptr <POP3Command> POP3Command::createCommand(
 	const string& traceText
 ) {
 
+	// A command is a single line: it cannot carry a line break
+	if (text.find_first_of("\r\n\0", 0, 3) != string::npos) {
+		throw exceptions::invalid_argument();
+	}
+
 	if (traceText.empty()) {
 		return shared_ptr <POP3Command>(new POP3Command(text, text));
 	} else {
diff --git a/src/vmime/net/smtp/SMTPCommand.cpp b/src/vmime/net/smtp/SMTPCommand.cpp
index 264d073..6bfb53d 100644
--- a/src/vmime/net/smtp/SMTPCommand.cpp
+++ b/src/vmime/net/smtp/SMTPCommand.cpp
@@ -246,6 +246,11 @@ shared_ptr <SMTPCommand> SMTPCommand::QUIT() {
 // static
 shared_ptr <SMTPCommand> SMTPCommand::createCommand(const string& text, const string& traceText) {
 
+	// A command is a single line: it cannot carry a line break
+	if (text.find_first_of("\r\n\0", 0, 3) != string::npos) {
+		throw exceptions::invalid_argument();
+	}
+
 	if (traceText.empty()) {
 		return shared_ptr <SMTPCommand>(new SMTPCommand(text, text));
 	} else {
-- 
2.43.0


From cc5ca17652d7c15fc50ee4a1665473c4242c759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:06 +0000
Subject: [PATCH 74/86] fix: SMTP message headers are internationalized only if
 SMTPUTF8 is announced in MAIL

With a server offering SMTPUTF8, non-ASCII header values were generated
unencoded even though the MAIL command did not say so when the envelope
addresses were ASCII (RFC-6531 section 3.1).
---
 src/vmime/net/smtp/SMTPTransport.cpp | 40 +++++++++++++++++-----------
 src/vmime/net/smtp/SMTPTransport.hpp |  6 +++++
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index 7080e54..e7d87fd 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -214,6 +214,23 @@ bool SMTPTransport::mailboxNeedsUTF8(const mailbox& mb) {
 }
 
 
+// static
+bool SMTPTransport::envelopeNeedsUTF8(
+	const mailbox& expeditor,
+	const mailboxList& recipients,
+	const mailbox& sender
+) {
+
+	bool needSMTPUTF8 = mailboxNeedsUTF8(sender.isEmpty() ? expeditor : sender);
+
+	for (size_t i = 0 ; !needSMTPUTF8 && i < recipients.getMailboxCount() ; ++i) {
+		needSMTPUTF8 = mailboxNeedsUTF8(*recipients.getMailboxAt(i));
+	}
+
+	return needSMTPUTF8;
+}
+
+
 void SMTPTransport::sendEnvelope(
 	const mailbox& expeditor,
 	const mailboxList& recipients,
@@ -253,19 +270,7 @@ void SMTPTransport::sendEnvelope(
 
 	// Check whether we need SMTPUTF8
 	const bool hasSMTPUTF8 = m_connection->hasExtension("SMTPUTF8");
-	bool needSMTPUTF8 = false;
-
-	if (!sender.isEmpty()) {
-		needSMTPUTF8 = needSMTPUTF8 || mailboxNeedsUTF8(sender);
-	} else {
-		needSMTPUTF8 = needSMTPUTF8 || mailboxNeedsUTF8(expeditor);
-	}
-
-	for (size_t i = 0 ; i < recipients.getMailboxCount() ; ++i) {
-
-		const mailbox& mbox = *recipients.getMailboxAt(i);
-		needSMTPUTF8 = needSMTPUTF8 || mailboxNeedsUTF8(mbox);
-	}
+	const bool needSMTPUTF8 = envelopeNeedsUTF8(expeditor, recipients, sender);
 
 	// Emit the "MAIL" command
 	const bool hasSize = m_connection->hasExtension("SIZE");
@@ -548,10 +553,13 @@ void SMTPTransport::send(
 		throw exceptions::not_connected();
 	}
 
-	// Generate the message with Internationalized Email support,
-	// if this is supported by the SMTP server
+	// Generate the message with Internationalized Email support, if this
+	// is supported by the SMTP server and announced in the envelope
 	generationContext ctx(generationContext::getDefaultContext());
-	ctx.setInternationalizedEmailSupport(m_connection->hasExtension("SMTPUTF8"));
+	ctx.setInternationalizedEmailSupport(
+		m_connection->hasExtension("SMTPUTF8") &&
+		envelopeNeedsUTF8(expeditor, recipients, sender)
+	);
 
 	// If CHUNKING is not supported, generate the message to a temporary
 	// buffer then use the send() method which takes an inputStream
diff --git a/src/vmime/net/smtp/SMTPTransport.hpp b/src/vmime/net/smtp/SMTPTransport.hpp
index fdd172d..bfb3309 100644
--- a/src/vmime/net/smtp/SMTPTransport.hpp
+++ b/src/vmime/net/smtp/SMTPTransport.hpp
@@ -101,6 +101,12 @@ private:
 
 	static bool mailboxNeedsUTF8(const mailbox& mb);
 
+	static bool envelopeNeedsUTF8(
+		const mailbox& expeditor,
+		const mailboxList& recipients,
+		const mailbox& sender
+	);
+
 	/** Send the MAIL and RCPT commands to the server, checking the
 	  * response, and using pipelining if supported by the server.
 	  * Optionally, the DATA command can also be sent.
-- 
2.43.0


From a6b95a18ac4e2bcf104bd27432a003deef6744f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 75/86] fix: IMAP capabilities are forgotten when SASL
 authentication succeeds without a challenge

---
 src/vmime/net/imap/IMAPConnection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index b096dbd..29e92f6 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -445,6 +445,12 @@ void IMAPConnection::authenticateSASL() {
 			    	status == IMAPParser::resp_cond_state::OK) {
 
 				m_socket = saslSession->getSecuredSocket(m_socket);
+
+				// Server capabilities may change when logged in
+				if (!processCapabilityResponseData(resp.get())) {
+					invalidateCapabilities();
+				}
+
 				return;
 
 			} else {
-- 
2.43.0


From ca2f4e33e9f670342393b580180d517eced29dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:06 +0000
Subject: [PATCH 76/86] fix: a connection which could not be authenticated
 stays open (POP3, SMTP)

---
 src/vmime/net/pop3/POP3Store.cpp     | 11 ++++++++++-
 src/vmime/net/smtp/SMTPTransport.cpp | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Store.cpp b/src/vmime/net/pop3/POP3Store.cpp
index b5ba0e4..58e3e06 100644
--- a/src/vmime/net/pop3/POP3Store.cpp
+++ b/src/vmime/net/pop3/POP3Store.cpp
@@ -145,7 +145,16 @@ void POP3Store::connect() {
 		dynamicCast <POP3Store>(shared_from_this()), getAuthenticator()
 	);
 
-	m_connection->connect();
+	try {
+
+		m_connection->connect();
+
+	} catch (...) {
+
+		// Do not keep a connection which is not usable
+		m_connection = null;
+		throw;
+	}
 }
 
 
diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index e7d87fd..7a78ee1 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -101,7 +101,16 @@ void SMTPTransport::connect() {
 		dynamicCast <SMTPTransport>(shared_from_this()), getAuthenticator()
 	);
 
-	m_connection->connect();
+	try {
+
+		m_connection->connect();
+
+	} catch (...) {
+
+		// Do not keep a connection which is not usable
+		m_connection = null;
+		throw;
+	}
 }
 
 
-- 
2.43.0


From b05ce57f2d663973a84bde683003bd8f1ec5c12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:57 +0000
Subject: [PATCH 77/86] fix: parts removed from a message, or outliving it,
 kept pointing at their former parent part

---
 src/vmime/body.cpp     | 23 +++++++++++++++++++++++
 src/vmime/body.hpp     | 10 ++++++++++
 src/vmime/bodyPart.cpp | 10 ++++++++++
 src/vmime/bodyPart.hpp |  1 +
 4 files changed, 44 insertions(+)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index a714946..18ace79 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -51,6 +51,26 @@ body::body()
 
 body::~body() {
 
+	detachParts();
+}
+
+
+void body::detachPart(const shared_ptr <bodyPart>& part) {
+
+	// The part may be in another body by now
+	if (part->m_parent == m_part) {
+		part->m_parent = NULL;
+	}
+}
+
+
+void body::detachParts() {
+
+	for (std::vector <shared_ptr <bodyPart> >::iterator it = m_parts.begin() ;
+	     it != m_parts.end() ; ++it) {
+
+		detachPart(*it);
+	}
 }
 
 
@@ -1046,18 +1066,21 @@ void body::removePart(const shared_ptr <bodyPart>& part) {
 		throw exceptions::no_such_part();
 	}
 
+	detachPart(*it);
 	m_parts.erase(it);
 }
 
 
 void body::removePart(const size_t pos) {
 
+	detachPart(m_parts[pos]);
 	m_parts.erase(m_parts.begin() + pos);
 }
 
 
 void body::removeAllParts() {
 
+	detachParts();
 	m_parts.clear();
 }
 
diff --git a/src/vmime/body.hpp b/src/vmime/body.hpp
index b513f57..8fa4cd0 100644
--- a/src/vmime/body.hpp
+++ b/src/vmime/body.hpp
@@ -319,6 +319,16 @@ private:
 
 	void initNewPart(const shared_ptr <bodyPart>& part);
 
+	/** Make a part which is leaving this body forget its parent part.
+	  *
+	  * @param part child part of this body
+	  */
+	void detachPart(const shared_ptr <bodyPart>& part);
+
+	/** Make all the child parts of this body forget their parent part.
+	  */
+	void detachParts();
+
 protected:
 
 	/** Finds the next boundary position in the parsing buffer.
diff --git a/src/vmime/bodyPart.cpp b/src/vmime/bodyPart.cpp
index 5c59fe5..c520435 100644
--- a/src/vmime/bodyPart.cpp
+++ b/src/vmime/bodyPart.cpp
@@ -36,6 +36,16 @@ bodyPart::bodyPart()
 }
 
 
+bodyPart::~bodyPart() {
+
+	// Our body and our child parts may live longer than us
+	if (m_body && m_body->m_part == this) {
+		m_body->detachParts();
+		m_body->m_part = NULL;
+	}
+}
+
+
 void bodyPart::parseImpl(
 	parsingContext& ctx,
 	const shared_ptr <utility::parserInputStreamAdapter>& parser,
diff --git a/src/vmime/bodyPart.hpp b/src/vmime/bodyPart.hpp
index e7e5ade..4173182 100644
--- a/src/vmime/bodyPart.hpp
+++ b/src/vmime/bodyPart.hpp
@@ -44,6 +44,7 @@ class VMIME_EXPORT bodyPart : public component {
 public:
 
 	bodyPart();
+	~bodyPart();
 
 	/** Return the header section of this part.
 	  *
-- 
2.43.0


From 19ebddf77b77a5745be30c4bbea1a7c76dbce475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:41 +0000
Subject: [PATCH 78/86] fix: members of address groups are recipients of a
 message sent with transport::send(msg)

---
 src/vmime/net/transport.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/transport.cpp b/src/vmime/net/transport.cpp
index c2260b2..c241200 100644
--- a/src/vmime/net/transport.cpp
+++ b/src/vmime/net/transport.cpp
@@ -123,13 +123,11 @@ static void extractMailboxes(
 	const addressList& list
 ) {
 
-	for (size_t i = 0 ; i < list.getAddressCount() ; ++i) {
+	// The members of the groups are recipients as well
+	const shared_ptr <mailboxList> mailboxes = list.toMailboxList();
 
-		shared_ptr <mailbox> mbox = dynamicCast <mailbox>(list.getAddressAt(i)->clone());
-
-		if (mbox) {
-			recipients.appendMailbox(mbox);
-		}
+	for (size_t i = 0 ; i < mailboxes->getMailboxCount() ; ++i) {
+		recipients.appendMailbox(mailboxes->getMailboxAt(i));
 	}
 }
 
-- 
2.43.0


From 235cb61c91f31f513e9238baddd51ba142a86ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:44 +0000
Subject: [PATCH 79/86] fix: renaming a missing file to its own name created
 it, where renameat2() is not supported

---
 src/vmime/platforms/posix/posixFile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index e7fe0f4..2d24764 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -549,6 +549,10 @@ void posixFile::rename(const path& newName) {
 
 	posixFile dest(newName);
 
+	if (!exists()) {
+		posixFileSystemFactory::reportError(m_path, ENOENT);
+	}
+
 	if (dest.exists()) {
 		posixFileSystemFactory::reportError(newName, EEXIST);
 	}
-- 
2.43.0


From 6e7eee4bebcf8edabb031bacc9478845b954060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:44 +0000
Subject: [PATCH 80/86] fix: the last part of a message was lost if its
 boundary, followed by two dashes, started another line

---
 src/vmime/body.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 18ace79..5825693 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -311,6 +311,7 @@ void body::parseImpl(
 				 * unspecified, so we might as well skip it to
 				 * facilitate broken mails.
 				 */
+				lastPart = false;
 				boundaryEnd += parser->skipIf([](char_t c) { return c != '\n'; }, end);
 				pos = findNextBoundaryPosition(parser, boundary, boundaryEnd, end, &boundaryStart, &boundaryEnd);
 				--index;
-- 
2.43.0


From fc1ae3bb2b23cb823601313df2d94927d48e797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:32 +0000
Subject: [PATCH 81/86] fix: a child process with both standard input and
 standard output redirected was connected to itself

One single pipe was used for both directions, so the process read what it
had written, or its output was mixed with what the caller had sent.
---
 .../platforms/posix/posixChildProcess.cpp     | 75 ++++++++++++-------
 1 file changed, 48 insertions(+), 27 deletions(-)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index a7ee95f..c6b6c48 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -350,20 +350,43 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 		argv[i + 1] = m_argVector[i].c_str();
 	}
 
-	// Create a pipe to communicate with the child process
-	int fd[2];
+	// Create pipes to communicate with the child process: one for its
+	// standard input, and another one for its standard output
+	int stdInPipe[2] = { -1, -1 };
+	int stdOutPipe[2] = { -1, -1 };
 
-	if (pipe(fd) == -1) {
+	if ((flags & FLAG_REDIRECT_STDIN) && pipe(stdInPipe) == -1) {
 		throw exceptions::system_error(getPosixErrorMessage(errno));
 	}
 
-	m_pipe[0] = fd[0];
-	m_pipe[1] = fd[1];
+	if ((flags & FLAG_REDIRECT_STDOUT) && pipe(stdOutPipe) == -1) {
+
+		const string errorMsg = getPosixErrorMessage(errno);
+
+		if (flags & FLAG_REDIRECT_STDIN) {
+			close(stdInPipe[0]);
+			close(stdInPipe[1]);
+		}
+
+		throw exceptions::system_error(errorMsg);
+	}
 
 	// Other processes must not inherit our end of the pipe: else, this one
 	// would not see the end of its input as long as the other ones are running
-	fcntl(fd[0], F_SETFD, FD_CLOEXEC);
-	fcntl(fd[1], F_SETFD, FD_CLOEXEC);
+	for (int i = 0 ; i < 2 ; ++i) {
+
+		if (stdInPipe[i] != -1) {
+			fcntl(stdInPipe[i], F_SETFD, FD_CLOEXEC);
+		}
+
+		if (stdOutPipe[i] != -1) {
+			fcntl(stdOutPipe[i], F_SETFD, FD_CLOEXEC);
+		}
+	}
+
+	// Our ends
+	m_pipe[0] = (flags & FLAG_REDIRECT_STDOUT) ? stdOutPipe[0] : 0;
+	m_pipe[1] = (flags & FLAG_REDIRECT_STDIN) ? stdInPipe[1] : 0;
 
 	// Block SIGCHLD so the calling application doesn't notice
 	// process exiting before we do
@@ -384,28 +407,32 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 
 		closePipe();
 
+		if (flags & FLAG_REDIRECT_STDIN) {
+			close(stdInPipe[0]);
+		}
+
+		if (flags & FLAG_REDIRECT_STDOUT) {
+			close(stdOutPipe[1]);
+		}
+
 		throw exceptions::system_error(errorMsg);
 
 	} else if (pid == 0) {  // child process
 
 		if (flags & FLAG_REDIRECT_STDIN) {
-			if (fd[0] == STDIN_FILENO) {
-				fcntl(fd[0], F_SETFD, 0);
+			if (stdInPipe[0] == STDIN_FILENO) {
+				fcntl(stdInPipe[0], F_SETFD, 0);
 			} else {
-				dup2(fd[0], STDIN_FILENO);
+				dup2(stdInPipe[0], STDIN_FILENO);
 			}
-		} else {
-			close(fd[0]);
 		}
 
 		if (flags & FLAG_REDIRECT_STDOUT) {
-			if (fd[1] == STDOUT_FILENO) {
-				fcntl(fd[1], F_SETFD, 0);
+			if (stdOutPipe[1] == STDOUT_FILENO) {
+				fcntl(stdOutPipe[1], F_SETFD, 0);
 			} else {
-				dup2(fd[1], STDOUT_FILENO);
+				dup2(stdOutPipe[1], STDOUT_FILENO);
 			}
-		} else {
-			close(fd[1]);
 		}
 
 		posixFileSystemFactory* pfsf = new posixFileSystemFactory();
@@ -420,22 +447,16 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 
 	if (flags & FLAG_REDIRECT_STDIN) {
 
-		m_stdIn = make_shared <outputStreamPosixPipeAdapter>(m_pipe[1]);
+		close(stdInPipe[0]);
 
-	} else {
-
-		close(m_pipe[1]);
-		m_pipe[1] = 0;
+		m_stdIn = make_shared <outputStreamPosixPipeAdapter>(m_pipe[1]);
 	}
 
 	if (flags & FLAG_REDIRECT_STDOUT) {
 
-		m_stdOut = make_shared <inputStreamPosixPipeAdapter>(m_pipe[0]);
-
-	} else {
+		close(stdOutPipe[1]);
 
-		close(m_pipe[0]);
-		m_pipe[0] = 0;
+		m_stdOut = make_shared <inputStreamPosixPipeAdapter>(m_pipe[0]);
 	}
 
 	m_pid = pid;
-- 
2.43.0


From f4c66cadb27cd77183d5cc77d015a640ec5c066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:12 +0000
Subject: [PATCH 82/86] fix: a disposition notification named its own addressee
 as the final recipient

---
 src/vmime/mdn/MDNHelper.cpp | 8 +++++---
 src/vmime/mdn/MDNHelper.hpp | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vmime/mdn/MDNHelper.cpp b/src/vmime/mdn/MDNHelper.cpp
index a21a181..df00147 100644
--- a/src/vmime/mdn/MDNHelper.cpp
+++ b/src/vmime/mdn/MDNHelper.cpp
@@ -186,7 +186,7 @@ shared_ptr <message> MDNHelper::buildMDN(
 
 	msg->getBody()->appendPart(createFirstMDNPart(mdnInfos, text, ch));
 	msg->getBody()->appendPart(createSecondMDNPart(mdnInfos,
-		dispo, reportingUA, reportingUAProducts, fields));
+		expeditor, dispo, reportingUA, reportingUAProducts, fields));
 	msg->getBody()->appendPart(createThirdMDNPart(mdnInfos));
 
 	return msg;
@@ -219,6 +219,7 @@ shared_ptr <bodyPart> MDNHelper::createFirstMDNPart(
 
 shared_ptr <bodyPart> MDNHelper::createSecondMDNPart(
 	const sendableMDNInfos& mdnInfos,
+    const mailbox& expeditor,
     const disposition& dispo,
     const string& reportingUA,
     const std::vector <string>& reportingUAProducts,
@@ -279,11 +280,12 @@ shared_ptr <bodyPart> MDNHelper::createSecondMDNPart(
 		fields.appendField(rua);
 	}
 
-	// -- Final-Recipient
+	// -- Final-Recipient: the recipient for which the MDN is being issued,
+	//    not the one to whom it is sent
 	shared_ptr <headerField> fr = headerFieldFactory::getInstance()->
 		create(vmime::fields::FINAL_RECIPIENT);
 
-	fr->setValue("rfc822; " + mdnInfos.getRecipient().getEmail().generate());
+	fr->setValue("rfc822; " + expeditor.getEmail().generate());
 
 	fields.appendField(fr);
 
diff --git a/src/vmime/mdn/MDNHelper.hpp b/src/vmime/mdn/MDNHelper.hpp
index c1bec2f..70c4e5d 100644
--- a/src/vmime/mdn/MDNHelper.hpp
+++ b/src/vmime/mdn/MDNHelper.hpp
@@ -125,6 +125,7 @@ private:
 
 	static shared_ptr <bodyPart> createSecondMDNPart(
 		const sendableMDNInfos& mdnInfos,
+		const mailbox& expeditor,
 		const disposition& dispo,
 		const string& reportingUA,
 		const std::vector <string>& reportingUAProducts,
-- 
2.43.0


From 8fbba3ca51fb57864ca8c4293d32ebcc4addfda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:06 +0000
Subject: [PATCH 83/86] fix: the zone of the current date was wrong near a
 change of Daylight Saving Time

---
 src/vmime/platforms/posix/posixHandler.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/vmime/platforms/posix/posixHandler.cpp b/src/vmime/platforms/posix/posixHandler.cpp
index 72dd6db..41b90db 100644
--- a/src/vmime/platforms/posix/posixHandler.cpp
+++ b/src/vmime/platforms/posix/posixHandler.cpp
@@ -118,19 +118,22 @@ const vmime::datetime posixHandler::getCurrentLocalTime() const {
 	tm gmt = *::gmtime(&t);  // WARNING: this is not thread-safe!
 #endif
 
-	// "A negative value for tm_isdst causes mktime() to attempt
-	//  to determine whether Daylight Saving Time is in effect
-	//  for the specified time."
-	local.tm_isdst = -1;
-	gmt.tm_isdst = -1;
+	// Calculate the difference (in minutes), from the broken-down times.
+	// Do not use mktime(): it interprets the UTC time as a local time, which
+	// may be on the other side of a Daylight Saving Time change.
+	int days = local.tm_yday - gmt.tm_yday;
 
-	// Calculate the difference (in seconds)
-	const time_t diff = ::mktime(&local) - ::mktime(&gmt);
+	if (local.tm_year != gmt.tm_year) {
+		days = local.tm_year > gmt.tm_year ? 1 : -1;
+	}
+
+	const int diff =
+		(days * 24 + local.tm_hour - gmt.tm_hour) * 60 + (local.tm_min - gmt.tm_min);
 
 	// Return the date
 	return vmime::datetime(
 		local.tm_year + 1900, local.tm_mon + 1, local.tm_mday,
-		local.tm_hour, local.tm_min, local.tm_sec, static_cast <int>(diff / 60)
+		local.tm_hour, local.tm_min, local.tm_sec, diff
 	);
 }
 
-- 
2.43.0


From 2dbab5b1c750a3e828a1e920621641080c9f60b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:17 +0000
Subject: [PATCH 84/86] fix: folders released or closed by event listeners were
 used while the others were notified

---
 src/vmime/net/imap/IMAPFolder.cpp       |  8 +++--
 src/vmime/net/imap/IMAPStore.cpp        | 20 +++++++++--
 src/vmime/net/imap/IMAPStore.hpp        |  4 +++
 src/vmime/net/maildir/maildirFolder.cpp | 48 +++++++++++++++++--------
 src/vmime/net/maildir/maildirFolder.hpp |  2 +-
 src/vmime/net/maildir/maildirStore.cpp  | 14 ++++++++
 src/vmime/net/maildir/maildirStore.hpp  |  4 +++
 src/vmime/net/pop3/POP3Folder.cpp       |  8 +++--
 src/vmime/net/pop3/POP3Store.cpp        | 14 ++++++++
 src/vmime/net/pop3/POP3Store.hpp        |  4 +++
 10 files changed, 103 insertions(+), 23 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 0a03837..d0fb5ac 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1415,10 +1415,12 @@ void IMAPFolder::rename(const folder::path& newPath) {
 	notifyFolder(event);
 
 	// Notify sub-folders
-	for (std::list <IMAPFolder*>::iterator it = store->m_folders.begin() ;
-	     it != store->m_folders.end() ; ++it) {
+	const std::vector <shared_ptr <IMAPFolder> > folders = store->getRegisteredFolders();
+
+	for (std::vector <shared_ptr <IMAPFolder> >::const_iterator it = folders.begin() ;
+	     it != folders.end() ; ++it) {
 
-		if ((*it) != this && oldPath.isParentOf((*it)->getFullPath())) {
+		if ((*it).get() != this && oldPath.isParentOf((*it)->getFullPath())) {
 
 			const folder::path oldSubPath((*it)->m_path);
 
diff --git a/src/vmime/net/imap/IMAPStore.cpp b/src/vmime/net/imap/IMAPStore.cpp
index ef80b35..d05e39d 100644
--- a/src/vmime/net/imap/IMAPStore.cpp
+++ b/src/vmime/net/imap/IMAPStore.cpp
@@ -240,8 +240,10 @@ void IMAPStore::noop() {
 	}
 
 
-	for (std::list <IMAPFolder*>::iterator it = m_folders.begin() ;
-	     it != m_folders.end() ; ++it) {
+	const std::vector <shared_ptr <IMAPFolder> > folders = getRegisteredFolders();
+
+	for (std::vector <shared_ptr <IMAPFolder> >::const_iterator it = folders.begin() ;
+	     it != folders.end() ; ++it) {
 
 		if ((*it)->isOpen()) {
 			(*it)->noop();
@@ -272,6 +274,20 @@ void IMAPStore::unregisterFolder(IMAPFolder* folder) {
 }
 
 
+const std::vector <shared_ptr <IMAPFolder> > IMAPStore::getRegisteredFolders() const {
+
+	std::vector <shared_ptr <IMAPFolder> > folders;
+
+	for (std::list <IMAPFolder*>::const_iterator it = m_folders.begin() ;
+	     it != m_folders.end() ; ++it) {
+
+		folders.push_back(dynamicCast <IMAPFolder>((*it)->shared_from_this()));
+	}
+
+	return folders;
+}
+
+
 int IMAPStore::getCapabilities() const {
 
 	return CAPABILITY_CREATE_FOLDER |
diff --git a/src/vmime/net/imap/IMAPStore.hpp b/src/vmime/net/imap/IMAPStore.hpp
index 018c195..81c0705 100644
--- a/src/vmime/net/imap/IMAPStore.hpp
+++ b/src/vmime/net/imap/IMAPStore.hpp
@@ -105,6 +105,10 @@ protected:
 	void registerFolder(IMAPFolder* folder);
 	void unregisterFolder(IMAPFolder* folder);
 
+	// Folders may be released or closed by event listeners: this keeps
+	// them alive while they are being notified
+	const std::vector <shared_ptr <IMAPFolder> > getRegisteredFolders() const;
+
 	std::list <IMAPFolder*> m_folders;
 
 	const bool m_isIMAPS;  // Use IMAPS
diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index c61e9dc..af93e8d 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -640,10 +640,12 @@ void maildirFolder::rename(const folder::path& newPath) {
 	notifyFolder(event);
 
 	// Notify folders with the same path
-	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
-	     it != store->m_folders.end() ; ++it) {
+	const std::vector <shared_ptr <maildirFolder> > folders = store->getRegisteredFolders();
 
-		if ((*it) != this && (*it)->getFullPath() == oldPath) {
+	for (std::vector <shared_ptr <maildirFolder> >::const_iterator it = folders.begin() ;
+	     it != folders.end() ; ++it) {
+
+		if ((*it).get() != this && (*it)->getFullPath() == oldPath) {
 
 			(*it)->m_path = newPath;
 			(*it)->m_name = newPath.getLastComponent();
@@ -657,7 +659,7 @@ void maildirFolder::rename(const folder::path& newPath) {
 
 			(*it)->notifyFolder(event);
 
-		} else if ((*it) != this && oldPath.isParentOf((*it)->getFullPath())) {
+		} else if ((*it).get() != this && oldPath.isParentOf((*it)->getFullPath())) {
 
 			const folder::path oldSubPath((*it)->m_path);
 
@@ -822,16 +824,21 @@ bool maildirFolder::locateMessage(messageInfos& infos) const {
 }
 
 
-std::vector <maildirFolder*> maildirFolder::getOpenFoldersWithPath(const folder::path& path) {
+std::vector <shared_ptr <maildirFolder> > maildirFolder::getOpenFoldersWithPath(const folder::path& path) {
 
 	shared_ptr <maildirStore> store = m_store.lock();
-	std::vector <maildirFolder*> folders;
+	std::vector <shared_ptr <maildirFolder> > folders;
+
+	// The store may have been disconnected by a listener
+	if (!store) {
+		return folders;
+	}
 
 	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
 	     it != store->m_folders.end() ; ++it) {
 
 		if ((*it)->isOpen() && (*it)->getFullPath() == path) {
-			folders.push_back(*it);
+			folders.push_back(dynamicCast <maildirFolder>((*it)->shared_from_this()));
 		}
 	}
 
@@ -868,7 +875,7 @@ void maildirFolder::onMessagesChanged(const std::vector <size_t>& nums) {
 		return;
 	}
 
-	const std::vector <maildirFolder*> folders = getOpenFoldersWithPath(m_path);
+	const std::vector <shared_ptr <maildirFolder> > folders = getOpenFoldersWithPath(m_path);
 	std::map <string, messageInfos> changed;
 
 	for (size_t i = 0 ; i < nums.size() ; ++i) {
@@ -879,7 +886,12 @@ void maildirFolder::onMessagesChanged(const std::vector <size_t>& nums) {
 
 	for (size_t i = 0 ; i < folders.size() ; ++i) {
 
-		maildirFolder* folder = folders[i];
+		const shared_ptr <maildirFolder> folder = folders[i];
+
+		// May have been closed by a listener
+		if (!folder->isOpen()) {
+			continue;
+		}
 		std::vector <size_t> folderNums;
 
 		for (size_t num = 1 ; num <= folder->m_messageCount ; ++num) {
@@ -1046,11 +1058,15 @@ messageSet maildirFolder::addMessage(
 		messageInfos msgInfos;
 		msgInfos.setPath(filename);
 
-		const std::vector <maildirFolder*> folders = getOpenFoldersWithPath(m_path);
+		const std::vector <shared_ptr <maildirFolder> > folders = getOpenFoldersWithPath(m_path);
 
 		for (size_t i = 0 ; i < folders.size() ; ++i) {
 
-			maildirFolder* folder = folders[i];
+			const shared_ptr <maildirFolder> folder = folders[i];
+
+			if (!folder->isOpen()) {
+				continue;
+			}
 
 			folder->m_messageInfos.push_back(msgInfos);
 			folder->m_messageCount++;
@@ -1250,10 +1266,14 @@ void maildirFolder::notifyMessagesCopied(const folder::path& dest) {
 
 void maildirFolder::refreshFolders(const folder::path& path) {
 
-	const std::vector <maildirFolder*> folders = getOpenFoldersWithPath(path);
+	const std::vector <shared_ptr <maildirFolder> > folders = getOpenFoldersWithPath(path);
 
 	for (size_t i = 0 ; i < folders.size() ; ++i) {
 
+		if (!folders[i]->isOpen()) {
+			continue;
+		}
+
 		const size_t oldCount = folders[i]->m_messageCount;
 
 		try {
@@ -1393,7 +1413,7 @@ void maildirFolder::notifyMessagesExpunged(
 	onMessagesExpunged(nums);
 
 	// Notify folders with the same path
-	const std::vector <maildirFolder*> folders = getOpenFoldersWithPath(m_path);
+	const std::vector <shared_ptr <maildirFolder> > folders = getOpenFoldersWithPath(m_path);
 	std::set <string> ids;
 
 	for (size_t i = 0 ; i < expunged.size() ; ++i) {
@@ -1402,7 +1422,7 @@ void maildirFolder::notifyMessagesExpunged(
 
 	for (size_t i = 0 ; i < folders.size() ; ++i) {
 
-		if (folders[i] == this) {
+		if (folders[i].get() == this || !folders[i]->isOpen()) {
 			continue;
 		}
 
diff --git a/src/vmime/net/maildir/maildirFolder.hpp b/src/vmime/net/maildir/maildirFolder.hpp
index 76c345d..393d6bf 100644
--- a/src/vmime/net/maildir/maildirFolder.hpp
+++ b/src/vmime/net/maildir/maildirFolder.hpp
@@ -179,7 +179,7 @@ private:
 
 	/** Return all open folders with the specified path (possibly this one).
 	  */
-	std::vector <maildirFolder*> getOpenFoldersWithPath(const folder::path& path);
+	std::vector <shared_ptr <maildirFolder> > getOpenFoldersWithPath(const folder::path& path);
 
 	/** Look for new messages in all open folders with the specified path.
 	  */
diff --git a/src/vmime/net/maildir/maildirStore.cpp b/src/vmime/net/maildir/maildirStore.cpp
index a994f45..ff6993b 100644
--- a/src/vmime/net/maildir/maildirStore.cpp
+++ b/src/vmime/net/maildir/maildirStore.cpp
@@ -248,6 +248,20 @@ void maildirStore::unregisterFolder(maildirFolder* folder) {
 }
 
 
+const std::vector <shared_ptr <maildirFolder> > maildirStore::getRegisteredFolders() const {
+
+	std::vector <shared_ptr <maildirFolder> > folders;
+
+	for (std::list <maildirFolder*>::const_iterator it = m_folders.begin() ;
+	     it != m_folders.end() ; ++it) {
+
+		folders.push_back(dynamicCast <maildirFolder>((*it)->shared_from_this()));
+	}
+
+	return folders;
+}
+
+
 const utility::path& maildirStore::getFileSystemPath() const {
 
 	return m_fsPath;
diff --git a/src/vmime/net/maildir/maildirStore.hpp b/src/vmime/net/maildir/maildirStore.hpp
index 13255c0..5bd74f7 100644
--- a/src/vmime/net/maildir/maildirStore.hpp
+++ b/src/vmime/net/maildir/maildirStore.hpp
@@ -98,6 +98,10 @@ private:
 	void registerFolder(maildirFolder* folder);
 	void unregisterFolder(maildirFolder* folder);
 
+	// Folders may be released or closed by event listeners: this keeps
+	// them alive while they are being notified
+	const std::vector <shared_ptr <maildirFolder> > getRegisteredFolders() const;
+
 
 	std::list <maildirFolder*> m_folders;
 
diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index f7b9342..6fe0c73 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -820,10 +820,12 @@ shared_ptr <folderStatus> POP3Folder::getStatus() {
 			notifyMessageCount(event);
 
 			// Notify folders with the same path
-			for (std::list <POP3Folder*>::iterator it = store->m_folders.begin() ;
-			     it != store->m_folders.end() ; ++it) {
+			const std::vector <shared_ptr <POP3Folder> > folders = store->getRegisteredFolders();
 
-				if ((*it) != this && (*it)->getFullPath() == m_path) {
+			for (std::vector <shared_ptr <POP3Folder> >::const_iterator it = folders.begin() ;
+			     it != folders.end() ; ++it) {
+
+				if ((*it).get() != this && (*it)->getFullPath() == m_path) {
 
 					(*it)->m_messageCount = count;
 
diff --git a/src/vmime/net/pop3/POP3Store.cpp b/src/vmime/net/pop3/POP3Store.cpp
index 58e3e06..5b589dd 100644
--- a/src/vmime/net/pop3/POP3Store.cpp
+++ b/src/vmime/net/pop3/POP3Store.cpp
@@ -252,6 +252,20 @@ void POP3Store::unregisterFolder(POP3Folder* folder) {
 }
 
 
+const std::vector <shared_ptr <POP3Folder> > POP3Store::getRegisteredFolders() const {
+
+	std::vector <shared_ptr <POP3Folder> > folders;
+
+	for (std::list <POP3Folder*>::const_iterator it = m_folders.begin() ;
+	     it != m_folders.end() ; ++it) {
+
+		folders.push_back(dynamicCast <POP3Folder>((*it)->shared_from_this()));
+	}
+
+	return folders;
+}
+
+
 int POP3Store::getCapabilities() const {
 
 	return CAPABILITY_DELETE_MESSAGE;
diff --git a/src/vmime/net/pop3/POP3Store.hpp b/src/vmime/net/pop3/POP3Store.hpp
index 140a1ab..59db158 100644
--- a/src/vmime/net/pop3/POP3Store.hpp
+++ b/src/vmime/net/pop3/POP3Store.hpp
@@ -99,6 +99,10 @@ private:
 	void registerFolder(POP3Folder* folder);
 	void unregisterFolder(POP3Folder* folder);
 
+	// Folders may be released or closed by event listeners: this keeps
+	// them alive while they are being notified
+	const std::vector <shared_ptr <POP3Folder> > getRegisteredFolders() const;
+
 	std::list <POP3Folder*> m_folders;
 
 
-- 
2.43.0


From 7ecf436025edfa1e5a8364459467e9341667f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:30 +0000
Subject: [PATCH 85/86] fix: an IMAP folder was not open yet when listeners
 were notified by open(), so closing it or the store there left its connection
 open

---
 src/vmime/net/imap/IMAPFolder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index d0fb5ac..3899c3a 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -259,8 +259,6 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 			}
 		}
 
-		processStatusUpdate(resp.get());
-
 		// Check for access mode (read-only or read-write)
 		auto *respTextCode = resp->response_done->response_tagged->resp_cond_state->resp_text->resp_text_code.get();
 		int openMode = mode;
@@ -281,6 +279,10 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 		m_open = true;
 		m_mode = openMode;
 
+		// The folder is open when listeners are notified, so that closing it
+		// or disconnecting the store then also closes its connection
+		processStatusUpdate(resp.get());
+
 	} catch (std::exception&) {
 
 		throw;
-- 
2.43.0


From 3f7dea2ea3017b60022cb189be927b8c29e520aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:12 +0000
Subject: [PATCH 86/86] fix: a message added to a maildir folder was listed
 twice if a listener had the folder scanned again

---
 src/vmime/net/maildir/maildirFolder.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index af93e8d..d4d6650 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1059,15 +1059,12 @@ messageSet maildirFolder::addMessage(
 		msgInfos.setPath(filename);
 
 		const std::vector <shared_ptr <maildirFolder> > folders = getOpenFoldersWithPath(m_path);
+		std::vector <size_t> numbers;
 
 		for (size_t i = 0 ; i < folders.size() ; ++i) {
 
 			const shared_ptr <maildirFolder> folder = folders[i];
 
-			if (!folder->isOpen()) {
-				continue;
-			}
-
 			folder->m_messageInfos.push_back(msgInfos);
 			folder->m_messageCount++;
 
@@ -1075,8 +1072,16 @@ messageSet maildirFolder::addMessage(
 				folder->m_unreadMessageCount++;
 			}
 
-			// Notification
-			folder->onMessagesAdded(folder->m_messageCount);
+			numbers.push_back(folder->m_messageCount);
+		}
+
+		// Notify when all folders know the message: listeners may have them
+		// scanned again
+		for (size_t i = 0 ; i < folders.size() ; ++i) {
+
+			if (folders[i]->isOpen()) {
+				folders[i]->onMessagesAdded(numbers[i]);
+			}
 		}
 	}
 
-- 
2.43.0

