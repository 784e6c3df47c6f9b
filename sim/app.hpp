// The simulated application: everything a program using vmime would bring along, and the common
// parts of the simulated servers.
#pragma once
#include "world.hpp"
#include "vmime/vmime.hpp"
#include <gnutls/gnutls.h>

namespace sim {
namespace vn = vmime::net;
using vmime::shared_ptr; using vmime::make_shared;

void app_init();                                     // once per run, before anything of vmime is used

// ---- result of one call into vmime
struct Out {
	bool ok = false, timeout = false, auth = false, cmd = false, conn = false, notconn = false, tls = false, cert = false;
	std::string type, what; u64 t0 = 0, t1 = 0;
	explicit operator bool() const { return ok; }
	u64 took() const { return t1 - t0; }
};
Out call(const std::string& name, const std::function<void()>& f);

// ---- time-out handler with the simulated clock
struct ToCfg { u64 limit = 30000000; int continues = 0; bool none = false; };
struct ToState { ToCfg cfg; u64 resets = 0, handled = 0, gaveup_at = 0, refused = 0; u64 created = 0; int continues_left = 0; };
extern ToState g_to;
shared_ptr<vn::timeoutHandlerFactory> to_factory(const ToCfg& c);

// ---- tracer
struct TraceLog { std::vector<std::string> lines; };
extern TraceLog g_tlog;
shared_ptr<vn::tracerFactory> tracer_factory();

// ---- credentials
struct Auth;   // see auth.hpp

// ---- progress listener that checks the documented call order
struct Progress : vmime::utility::progressListener {
	int st = 0; size_t last = 0, total = 0, calls = 0; std::string bad;
	void start(const size_t t) override { if (st != 0) bad = "start() called twice"; st = 1; total = t; ++calls; }
	void progress(const size_t c, const size_t t) override { if (st != 1) bad = st == 0 ? "progress() before start()" : "progress() after stop()"; if (c < last) bad = "progress went backwards"; last = c; total = t; ++calls; }
	void stop(const size_t t) override { if (st != 1) bad = st == 0 ? "stop() without start()" : "stop() twice"; st = 2; total = t; ++calls; }
};

// ---- input stream that delivers in pieces and may fail
struct SrcCfg { u32 piece = 0; bool random = false; u64 fail_at = ~0ull; u64 eof_at = ~0ull; bool late_eof = false; };
struct Source : vmime::utility::seekableInputStream {
	std::string d; SrcCfg c; size_t p = 0; bool e = false; u64 reads = 0; bool failed = false;
	Source(const std::string& data, SrcCfg cfg = SrcCfg()) : d(data), c(cfg) {}
	bool eof() const override;
	void reset() override { p = 0; e = false; }
	size_t read(vmime::byte_t* const data, const size_t count) override;
	size_t skip(const size_t count) override;
	size_t getPosition() const override { return p; }
	void seek(const size_t pos) override { p = std::min(pos, d.size()); e = false; }
	size_t limit() const { return size_t(std::min<u64>(d.size(), c.eof_at)); }
};
SrcCfg draw_src(bool faults, size_t len);
// ---- output stream that collects, and may fail
struct Sink : vmime::utility::outputStream {
	std::string d; u64 fail_at = ~0ull; u64 writes = 0, flushes = 0; bool failed = false;
	void flush() override { ++flushes; }
	size_t getBlockSize() override { return bs; }
	size_t bs = 32768;
protected:
	void writeImpl(const vmime::byte_t* const data, const size_t count) override;
};

// ---- content
std::string gen_lines(Rng& r, size_t target, const std::string& token, int flavour);   // CRLF-terminated lines; flavour bits: 1 dots, 2 8bit, 4 long lines, 8 no final CRLF, 16 starts with a dot
std::string gen_bytes(Rng& r, size_t n, int flavour);
std::string rnd_token(Rng& r, size_t n);
std::string draw_text(size_t maxlen, const std::string& token);                        // choice-driven wrapper
std::string diff_at(const std::string& got, const std::string& want);
inline std::string unix_nl(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n') continue; o += s[i]; } return o; }
std::string upper(std::string s);
std::string lower(std::string s);
std::vector<std::string> split(const std::string& s, char sep);
std::string b64(const std::string& s);
std::string unb64(const std::string& s);
std::string unqp(const std::string& s); // quoted-printable, strict about escapes

// ---- server side of a connection, optionally under TLS
struct TlsCfg {
	std::string cert = "good";                       // which chain the server presents
	int hs_fault = 0;                                // 1 garbage instead of a handshake, 2 close during it, 3 fatal alert, 4 silence
	u64 hs_fault_at = 0;                             // server handshake byte at which the fault strikes
	bool no_close_notify = false;
	std::string prio;                                // gnutls priority of the server
};
extern std::function<std::string(const std::string&)> g_mutate;   // what a hostile server or network makes of each reply
extern std::string g_clear;                           // everything clients sent outside TLS
struct ServerPeer : Peer {
	bool tls = false, tls_ready = false, tls_failed = false; TlsCfg tcfg;
	gnutls_session_t gs = nullptr; std::string tin, tout, plain_pending; u64 hs_bytes = 0; bool in_pump = false;
	std::string raw_before_tls;                      // bytes that arrived in the clear although TLS was to start
	std::string client_sni;
	bool peer_closed_tls = false;
	~ServerPeer();
	void onData(const std::string& s) override;
	virtual void plain(const std::string& s) = 0;
	virtual void onTls() {}
	void out(const std::string& s);
	void start_tls(const TlsCfg& c);
	void close_tls(bool notify);                     // close the connection, with or without close_notify
	void pump();
	void flush_tls();
};
std::string cert_pem(const std::string& name);
shared_ptr<vmime::security::cert::X509Certificate> load_cert(const std::string& name);
shared_ptr<vmime::security::cert::defaultCertificateVerifier> verifier(const std::vector<std::string>& roots, const std::vector<std::string>& trusted = {});

// line-oriented server that handles one command after the other, each taking its time
struct LineServer : ServerPeer {
	std::string inbuf; bool busy = false; bool closing = false; u64 proc_min = 10, proc_jit = 0, late_once = 0;
	u64 reply_seq = 0;
	void plain(const std::string& s) override { got(s); inbuf += s; work_input(); }
	virtual void got(const std::string&) {}          // raw plaintext, before processing
	virtual bool consume() = 0;                      // take one unit (line, chunk...) from inbuf; false: need more
	void work_input();
	// send a reply after the processing time; the server handles no further input before that
	void reply(const std::string& s, std::function<void()> then = nullptr);
	bool take_line(std::string& l);                  // line without CRLF
	void hangup() { closing = true; if (tls_ready) close_tls(!tcfg.no_close_notify); else if (auto c = conn()) c->close(); }
};
std::string host_for(const std::string& scheme);
void finish_checks();                                // nothing left behind (descriptors, requests)
}
