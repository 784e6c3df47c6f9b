#include "drv.hpp"
#include "vmime/platforms/posix/posixHandler.hpp"
#include "vmime/security/cert/defaultCertificateVerifier.hpp"
#include "vmime/security/cert/X509Certificate.hpp"
#include "vmime/security/cert/certificateException.hpp"
#include "vmime/net/tls/TLSSession.hpp"
#include <gnutls/x509.h>
#include <gnutls/crypto.h>
#include <cxxabi.h>
#include "certs.inc"

// ------------------------------------------------------------------ randomness of the libraries
// libgnutls, libgsasl and libgcrypt draw their entropy from getrandom(); the executable's own
// definition takes precedence over libc's.
static uint64_t g_ent = 0x5eed;
static void fill_rand(void* b, size_t n) {
	unsigned char* p = static_cast<unsigned char*>(b);
	for (size_t i = 0; i < n; ++i) { g_ent += 0x9E3779B97F4A7C15ull; uint64_t z = g_ent; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; p[i] = (unsigned char) (z >> 32); }
}
extern "C" __attribute__((visibility("default"))) ssize_t getrandom(void* b, size_t n, unsigned int) { fill_rand(b, n); return ssize_t(n); }
extern "C" __attribute__((visibility("default"))) int getentropy(void* b, size_t n) { fill_rand(b, n); return 0; }
static time_t vtime(time_t* t) { time_t v = time_t(sim::real_now() / 1000000); if (t) *t = v; return v; }

namespace sim {

void app_init() {
	static bool done = false; if (done) return; done = true;
	g_ent = 0x5eed0000 + choose(1u << 20, "entropy");
	gnutls_global_set_time_function(vtime);
	vmime::platform::setHandler<vmime::platforms::posix::posixHandler>();
	set_active(true);
}

std::function<void(const std::string&, const Out&)> g_call_hook;
Out call(const std::string& name, const std::function<void()>& f) {
	Out o; o.t0 = now();
	tr("-> %s", name.c_str());
	try { f(); o.ok = true; }
	catch (vmime::exceptions::operation_timed_out& e) { o.timeout = true; o.type = "operation_timed_out"; o.what = e.what(); }
	catch (vmime::exception& e) {
		int st = 0; char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st); o.type = n ? n : typeid(e).name(); free(n); o.what = e.what();
		if (o.type.find("vmime::") == 0) o.type = o.type.substr(o.type.rfind(':') + 1);
		o.cmd = dynamic_cast<vmime::exceptions::command_error*>(&e) != nullptr;
		o.auth = dynamic_cast<vmime::exceptions::authentication_error*>(&e) != nullptr;
		o.notconn = dynamic_cast<vmime::exceptions::not_connected*>(&e) != nullptr;
		o.conn = dynamic_cast<vmime::exceptions::connection_error*>(&e) != nullptr || dynamic_cast<vmime::exceptions::socket_exception*>(&e) != nullptr;
		o.tls = dynamic_cast<vmime::exceptions::tls_exception*>(&e) != nullptr;
		o.cert = dynamic_cast<vmime::security::cert::certificateException*>(&e) != nullptr;
	}
	catch (std::exception& e) { o.type = typeid(e).name(); o.what = e.what(); }
	catch (...) { violate("exception.foreign", "%s threw something that is not a std::exception", name.c_str()); }
	o.t1 = now();
	if (o.ok) tr("<- %s ok", name.c_str()); else tr("<- %s threw %s: %s", name.c_str(), o.type.c_str(), esc(o.what, 100).c_str());
	if (g_call_hook) g_call_hook(name, o);
	return o;
}

// ------------------------------------------------------------------ time-outs
ToState g_to;
struct To : vn::timeoutHandler {
	u64 last = 0;
	bool isTimeOut() override { return now() - last >= g_to.cfg.limit; }
	void resetTimeOut() override { last = now(); ++g_to.resets; }
	bool handleTimeOut() override {
		++g_to.handled; count("timeout.handled");
		if (g_to.continues_left > 0) { --g_to.continues_left; tr("timeout handler: continue"); count("timeout.continued"); return true; }
		if (!g_to.gaveup_at) g_to.gaveup_at = now();
		++g_to.refused; tr("timeout handler: give up"); count("timeout.gaveup"); return false;
	}
};
struct ToF : vn::timeoutHandlerFactory { shared_ptr<vn::timeoutHandler> create() override { ++g_to.created; auto t = make_shared<To>(); t->last = now(); return t; } };
shared_ptr<vn::timeoutHandlerFactory> to_factory(const ToCfg& c) { g_to = ToState(); g_to.cfg = c; g_to.continues_left = c.continues; if (c.none) return vmime::null; return make_shared<ToF>(); }

// ------------------------------------------------------------------ tracer
TraceLog g_tlog;
struct Tracer : vn::tracer {
	void traceSend(const vmime::string& l) override { g_tlog.lines.push_back("C: " + l); }
	void traceReceive(const vmime::string& l) override { g_tlog.lines.push_back("S: " + l); }
	void traceSendBytes(const size_t n, const vmime::string& s) override { g_tlog.lines.push_back(fmt("C: {%zu} ", n) + s); }
	void traceReceiveBytes(const size_t n, const vmime::string& s) override { g_tlog.lines.push_back(fmt("S: {%zu} ", n) + s); }
};
struct TracerF : vn::tracerFactory { shared_ptr<vn::tracer> create(const shared_ptr<vn::service>&, const int) override { return make_shared<Tracer>(); } };
shared_ptr<vn::tracerFactory> tracer_factory() { return make_shared<TracerF>(); }

// ------------------------------------------------------------------ streams
bool Source::eof() const { return e || (!c.late_eof && p >= limit() && c.fail_at > p); }
size_t Source::read(vmime::byte_t* const data, const size_t count_) {
	++reads;
	if (p >= c.fail_at && c.fail_at <= limit()) { failed = true; count("fault.source.error"); throw vmime::exceptions::system_error("simulated source failure"); }
	size_t n = std::min(count_, limit() - std::min(p, limit()));
	if (p < c.fail_at && n > c.fail_at - p) n = size_t(c.fail_at - p);
	if (c.piece && n > c.piece) n = c.piece;
	if (c.random && n > 1) n = 1 + choose(u32(std::min<size_t>(n, 3000)), "src.piece");
	if (n < count_) count("src.short_read");
	if (n) memcpy(data, d.data() + p, n);
	p += n;
	if (p >= limit() && (n == 0 || !c.late_eof) && c.fail_at > p) e = true;
	return n;
}
size_t Source::skip(const size_t n) { size_t k = std::min(n, limit() - std::min(p, limit())); p += k; return k; }
SrcCfg draw_src(bool faults, size_t len) {
	SrcCfg c;
	switch (weighted({40, 15, 25, 20}, "src.mode")) { case 1: c.piece = 1; break; case 2: c.piece = 1 + sized(5000, "src.piece"); break; case 3: c.random = true; break; }
	if (len > 30000 && c.piece && c.piece < 64) c.piece += 500;
	if (chance(200, "src.lateeof")) c.late_eof = true;
	if (faults && chance(500, "src.fail?")) c.fail_at = sized(u32(len), "src.fail");
	return c;
}
void Sink::writeImpl(const vmime::byte_t* const data, const size_t n) {
	++writes;
	if (d.size() + n > fail_at) { failed = true; d.append(reinterpret_cast<const char*>(data), size_t(fail_at > d.size() ? fail_at - d.size() : 0)); count("fault.sink.error"); throw vmime::exceptions::system_error("simulated sink failure"); }
	d.append(reinterpret_cast<const char*>(data), n);
}

// ------------------------------------------------------------------ content
std::string rnd_token(Rng& r, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += char('a' + r.below(26)); return s; }
std::string gen_lines(Rng& r, size_t target, const std::string& token, int fl) {
	std::string o;
	if (fl & 16) o = r.below(2) ? "." : "..";
	auto words = [&](size_t n) { std::string s; while (s.size() < n) { s += char("abcdefghij klmno.,;-=<>QRSTUV0123456789"[r.below(39)]); } return s; };
	bool first = true;
	while (o.size() < target) {
		std::string l;
		switch (r.below(12)) {
			case 0: l = ""; break;
			case 1: l = (fl & 1) ? "." : "x"; break;
			case 2: l = (fl & 1) ? ".." : "yy"; break;
			case 3: l = (fl & 1) ? "." + words(r.below(20)) : words(10); break;
			case 4: l = (fl & 1) ? std::string(1 + r.below(6), '.') + words(r.below(4)) : ""; break;
			case 5: l = (fl & 2) ? "\xc3\xa9" + words(10) + "\xff\x80" : words(30); break;
			case 6: l = (fl & 4) ? words(900 + r.below(4000)) : words(70); break;
			case 7: l = token + " " + words(5); break;
			case 8: l = "QUIT"; break;
			case 9: l = "From " + token + " RSET"; break;
			default: l = words(r.below(78)); break;
		}
		if (first && (fl & 16)) first = false;
		// aim a line end at a typical block boundary now and then
		if (r.below(6) == 0) for (size_t b : {size_t(16384), size_t(32768), size_t(65536), size_t(4096), size_t(8192), size_t(1024)}) {
			size_t next = (o.size() / b + 1) * b; int off = int(r.below(6)) - 3;
			if (next - o.size() < 2500 && next + off > o.size() + 2 && next < target) { l = words(next + off - o.size() - 2); o += l + "\r\n"; l = (fl & 1) ? (r.below(2) ? "." : "." + token) : token; break; }
		}
		o += l + "\r\n";
	}
	if (o.find(token) == std::string::npos) o += token + "\r\n";
	if ((fl & 8) && o.size() > 2) { o.resize(o.size() - 2); if (o.empty() || o.back() == '\r') o += "z"; if (r.below(3) == 0) o += "\r\n."; else if (r.below(3) == 0) o += "\r\n.."; }
	return o;
}
std::string gen_bytes(Rng& r, size_t n, int fl) {
	std::string o;
	while (o.size() < n) {
		switch (fl & 7) {
			case 0: o += char(r.below(256)); break;
			case 1: o += char('a' + r.below(4)); break;
			case 2: o += "\r\n.= \t\0-"[r.below(8)]; break;
			case 3: { static const char* t[] = {"\r\n", ".", "\r", "\n", "x", "=", "\r\n.", "..", "\r\n.\r\n", "a b", "\t\r\n", " \n"}; o += t[r.below(12)]; break; }
			case 4: o += r.below(20) ? char(32 + r.below(95)) : '\n'; break;
			case 5: o += r.below(3) ? std::string(1, char(r.below(256))) : std::string("\r\n"); break;
			case 6: o.append(1 + r.below(90), char(32 + r.below(95))); if (r.below(2)) o += "\r\n"; break;
			default: { static const char* t[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "a", "z ", "\xc2\xa0", "\xd0\x96"}; o += t[r.below(7)]; break; }
		}
	}
	if ((fl & 7) < 3) o.resize(n);
	return o;
}
std::string draw_text(size_t maxlen, const std::string& token) {
	u32 n = sized(u32(maxlen), "text.len"); u32 fl = choose(32, "text.flavour"); Rng r = subrng("text");
	return gen_lines(r, n, token, int(fl));
}
std::string diff_at(const std::string& g, const std::string& w) {
	size_t i = 0; while (i < g.size() && i < w.size() && g[i] == w[i]) ++i;
	size_t a = i > 20 ? i - 20 : 0;
	return fmt("%zu bytes instead of %zu, first difference at byte %zu: got \"%s\", expected \"%s\"", g.size(), w.size(), i, esc(g.substr(a, 60)).c_str(), esc(w.substr(a, 60)).c_str());
}
std::string upper(std::string s) { for (char& c : s) if (c >= 'a' && c <= 'z') c = char(c - 32); return s; }
std::string lower(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32); return s; }
std::vector<std::string> split(const std::string& s, char sep) { std::vector<std::string> v; std::string c; for (char x : s) { if (x == sep) { v.push_back(c); c.clear(); } else c += x; } v.push_back(c); return v; }
std::string b64(const std::string& s) {
	static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o;
	for (size_t i = 0; i < s.size(); i += 3) { u32 v = (unsigned char) s[i] << 16; if (i + 1 < s.size()) v |= (unsigned char) s[i + 1] << 8; if (i + 2 < s.size()) v |= (unsigned char) s[i + 2]; o += A[v >> 18]; o += A[(v >> 12) & 63]; o += i + 1 < s.size() ? A[(v >> 6) & 63] : '='; o += i + 2 < s.size() ? A[v & 63] : '='; }
	return o;
}
std::string unqp(const std::string& s) {
	std::string o; auto hx = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
	for (size_t i = 0; i < s.size(); ++i) { if (s[i] != '=') { o += s[i]; continue; } if (s.compare(i, 3, "=\r\n") == 0) { i += 2; continue; } if (i + 2 < s.size() && hx(s[i + 1]) >= 0 && hx(s[i + 2]) >= 0) { o += char(hx(s[i + 1]) << 4 | hx(s[i + 2])); i += 2; } else o += "<bad escape>"; }
	return o;
}
std::string unb64(const std::string& s) {
	std::string o; u32 v = 0; int n = 0;
	for (char c : s) { int d = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; if (d < 0) continue; v = v << 6 | u32(d); if (++n == 4) { o += char(v >> 16); o += char(v >> 8); o += char(v); v = 0; n = 0; } }
	if (n == 2) o += char(v >> 4); else if (n == 3) { o += char(v >> 10); o += char(v >> 2); }
	return o;
}

// ------------------------------------------------------------------ certificates and TLS
std::string cert_pem(const std::string& n) {
	if (n == "good") return good_crt;
	if (n == "wronghost") return wronghost_crt;
	if (n == "expired") return expired_crt;
	if (n == "future") return future_crt;
	if (n == "selfsigned") return selfsigned_crt;
	if (n == "otherca") return otherca_crt;
	if (n == "otherca_chain") return std::string(otherca_crt) + otherca_root_crt;
	if (n == "viainter") return std::string(viainter_crt) + inter_crt;
	if (n == "viainter_short") return viainter_crt;
	if (n == "vialeaf") return std::string(vialeaf_crt) + leafasca_crt;
	if (n == "good_chain") return std::string(good_crt) + ca_crt;
	if (n == "viainter_chain") return std::string(viainter_crt) + inter_crt + ca_crt;
	if (n == "good_extra") return std::string(good_crt) + otherca_root_crt;
	if (n == "forged_ca") return std::string(forged_ca_crt) + ca_crt;                            // names the real CA as its issuer, but is not signed by it
	if (n == "forged_inter") return std::string(forged_inter_crt) + inter_crt;
	if (n == "forged_short") return forged_ca_crt;
	if (n == "ca") return ca_crt;
	if (n == "otherca_root") return otherca_root_crt;
	if (n == "inter") return inter_crt;
	violate("sim.cert", "unknown certificate %s", n.c_str());
}
shared_ptr<vmime::security::cert::X509Certificate> load_cert(const std::string& n) {
	std::string p = cert_pem(n);
	return vmime::security::cert::X509Certificate::import(reinterpret_cast<const vmime::byte_t*>(p.data()), p.size());
}
shared_ptr<vmime::security::cert::defaultCertificateVerifier> verifier(const std::vector<std::string>& roots, const std::vector<std::string>& trusted) {
	auto v = make_shared<vmime::security::cert::defaultCertificateVerifier>();
	std::vector<shared_ptr<vmime::security::cert::X509Certificate>> r, t;
	for (auto& n : roots) r.push_back(load_cert(n));
	for (auto& n : trusted) t.push_back(load_cert(n));
	v->setX509RootCAs(r); if (!t.empty()) v->setX509TrustedCerts(t);
	return v;
}

static ssize_t srv_push(gnutls_transport_ptr_t p, const void* d, size_t n) { static_cast<ServerPeer*>(p)->tout.append(static_cast<const char*>(d), n); return ssize_t(n); }
static ssize_t srv_pull(gnutls_transport_ptr_t p, void* d, size_t n) {
	auto s = static_cast<ServerPeer*>(p);
	if (s->tin.empty()) { gnutls_transport_set_errno(s->gs, EAGAIN); return -1; }
	size_t k = std::min(n, s->tin.size()); memcpy(d, s->tin.data(), k); s->tin.erase(0, k); return ssize_t(k);
}
static int srv_pull_timeout(gnutls_transport_ptr_t p, unsigned int) { return static_cast<ServerPeer*>(p)->tin.empty() ? 0 : 1; }
static gnutls_certificate_credentials_t creds(const std::string& name) {
	static std::map<std::string, gnutls_certificate_credentials_t>* m; if (!m) m = new std::map<std::string, gnutls_certificate_credentials_t>;
	auto& c = (*m)[name]; if (c) return c;
	gnutls_certificate_allocate_credentials(&c);
	std::string pem = cert_pem(name);
	gnutls_datum_t cd = {reinterpret_cast<unsigned char*>(&pem[0]), unsigned(pem.size())}, kd = {reinterpret_cast<unsigned char*>(const_cast<char*>(server_key)), unsigned(strlen(server_key))};
	gnutls_certificate_set_flags(c, GNUTLS_CERTIFICATE_SKIP_KEY_CERT_MATCH);
	int r = gnutls_certificate_set_x509_key_mem2(c, &cd, &kd, GNUTLS_X509_FMT_PEM, nullptr, 0);
	if (r < 0) violate("sim.cert", "cannot load %s: %s", name.c_str(), gnutls_strerror(r));
	return c;
}
ServerPeer::~ServerPeer() { }
void ServerPeer::start_tls(const TlsCfg& c) {
	tls = true; tcfg = c;
	gnutls_init(&gs, GNUTLS_SERVER | GNUTLS_NONBLOCK);
	gnutls_priority_set_direct(gs, c.prio.empty() ? "NORMAL:-VERS-ALL:+VERS-TLS1.2:+VERS-TLS1.3:%NO_TICKETS:-GROUP-ALL:+GROUP-X25519:+GROUP-SECP256R1" : c.prio.c_str(), nullptr);
	gnutls_credentials_set(gs, GNUTLS_CRD_CERTIFICATE, creds(c.cert));
	gnutls_transport_set_ptr(gs, this);
	gnutls_transport_set_push_function(gs, srv_push); gnutls_transport_set_pull_function(gs, srv_pull); gnutls_transport_set_pull_timeout_function(gs, srv_pull_timeout);
}
void ServerPeer::flush_tls() {
	if (tout.empty()) return;
	std::string t; t.swap(tout); auto c = conn(); if (!c) return;
	if (tcfg.hs_fault && !tls_failed && hs_bytes + t.size() > tcfg.hs_fault_at) {
		size_t keep = size_t(tcfg.hs_fault_at > hs_bytes ? tcfg.hs_fault_at - hs_bytes : 0);
		tls_failed = true; count("fault.tls.handshake"); nontrivial(); tr("server: TLS handshake fault %d at byte %zu", tcfg.hs_fault, keep);
		c->send(t.substr(0, keep));
		if (tcfg.hs_fault == 1) c->send("HTTP/1.1 400 Bad Request\r\n\r\n");
		else if (tcfg.hs_fault == 2) c->close();
		else if (tcfg.hs_fault == 3) c->send(std::string("\x15\x03\x03\x00\x02\x02\x28", 7));
		return;
	}
	if (tls_failed) return;
	hs_bytes += t.size();
	c->send(t);
}
void ServerPeer::pump() {
	if (in_pump || tls_failed || peer_closed_tls) return;
	in_pump = true;
	auto keep = conn();
	if (!tls_ready) {
		int r = gnutls_handshake(gs);
		flush_tls();
		if (tls_failed) { in_pump = false; return; }
		if (r == 0) {
			tls_ready = true; tcfg.hs_fault = 0;
			char nm[256]; size_t nl = sizeof nm; unsigned ty = 0; if (gnutls_server_name_get(gs, nm, &nl, &ty, 0) == 0) client_sni.assign(nm, nl);
			tr("server: TLS established"); count("tls.handshakes"); onTls();
		} else if (r != GNUTLS_E_AGAIN && r != GNUTLS_E_INTERRUPTED) {
			if (!gnutls_error_is_fatal(r)) { in_pump = false; return; }
			tr("server: TLS handshake failed: %d", r); tls_failed = true; gnutls_alert_send_appropriate(gs, r);
			{ std::string t; t.swap(tout); if (keep) { keep->send(t); keep->close(); } }
			in_pump = false; return;
		}
	}
	if (tls_ready && !plain_pending.empty()) { std::string p; p.swap(plain_pending); gnutls_record_send(gs, p.data(), p.size()); flush_tls(); }
	while (tls_ready) {
		char b[17000]; ssize_t n = gnutls_record_recv(gs, b, sizeof b);
		if (n > 0) { in_pump = false; plain(std::string(b, size_t(n))); in_pump = true; continue; }
		if (n == 0) { peer_closed_tls = true; tr("server: client sent close_notify"); in_pump = false; onFin(); return; }
		if (n == GNUTLS_E_AGAIN || n == GNUTLS_E_INTERRUPTED || n == GNUTLS_E_REHANDSHAKE) break;
		tls_failed = true; tr("server: TLS error %zd", n); break;
	}
	flush_tls();
	in_pump = false;
}
std::string g_clear;
void ServerPeer::onData(const std::string& s) { if (!tls) { g_clear += s; plain(s); return; } tin += s; pump(); }
std::function<std::string(const std::string&)> g_mutate;
void ServerPeer::out(const std::string& s0) {
	std::string s = g_mutate ? g_mutate(s0) : s0; auto c = conn(); if (!c || s.empty()) return;
	if (!tls) { c->send(s); return; }
	if (!tls_ready) { plain_pending += s; return; }
	if (tls_failed) return;
	size_t p = 0; while (p < s.size()) { size_t n = std::min<size_t>(s.size() - p, 16000); gnutls_record_send(gs, s.data() + p, n); p += n; }
	flush_tls();
}
void ServerPeer::close_tls(bool notify) {
	if (notify && tls_ready && !tls_failed) { gnutls_bye(gs, GNUTLS_SHUT_WR); flush_tls(); } else if (tls_ready) count("fault.tls.truncation");
	if (auto c = conn()) c->close();
}

// ------------------------------------------------------------------ line servers
bool LineServer::take_line(std::string& l) {
	size_t e = inbuf.find('\n'); if (e == std::string::npos) return false;
	l = inbuf.substr(0, e); inbuf.erase(0, e + 1); if (!l.empty() && l.back() == '\r') l.pop_back();
	return true;
}
void LineServer::work_input() { while (!busy && !closing && consume()) { } }
void LineServer::reply(const std::string& s, std::function<void()> then) {
	busy = true; auto c = conn(); u64 d = proc_min + (proc_jit ? choose(u32(proc_jit) + 1, "srv.proc") : 0) + late_once; late_once = 0;
	std::weak_ptr<Conn> wc = c; auto self = this;
	after(d, [wc, self, s, then] {
		auto c = wc.lock(); if (!c || !c->alive()) return;
		self->busy = false; ++self->reply_seq;
		if (!s.empty()) { tr("S%d: %s", c->index, esc(s, 300).c_str()); self->out(s); }
		if (then) then();
		self->work_input();
	});
}
void finish_checks() {
	advance(5000000);
	CHECK(vfd_open_count() == 0, "leak.fd", "descriptors still open after everything was destroyed:%s", vfd_list().c_str());
}
}
