// T03: sockets (posix, TLS, SASL-protected) are faithful byte streams.
#include "app.hpp"
#include "vmime/platforms/posix/posixSocket.hpp"
#include "vmime/security/sasl/SASLSession.hpp"
#include "vmime/security/sasl/SASLMechanism.hpp"
#include "vmime/security/sasl/SASLContext.hpp"
#include "vmime/security/sasl/defaultSASLAuthenticator.hpp"
#include "vmime/utility/inputStreamSocketAdapter.hpp"
#include "vmime/utility/outputStreamSocketAdapter.hpp"
using namespace sim;
namespace {
enum { POSIX, TLS, SASL, SASL_TLS };
// a protection layer with frames: length (2 bytes), key (1 byte), payload xor key and position
struct Framer {
	size_t fmax = 500; unsigned char serial = 7; std::string in;
	std::string enc(const std::string& s) { std::string o; for (size_t p = 0; p < s.size();) { size_t n = std::min(fmax, s.size() - p); ++serial; o += char(n >> 8); o += char(n); o += char(serial); for (size_t i = 0; i < n; ++i) o += char(s[p + i] ^ serial ^ int(i)); p += n; } return o; }
	std::string dec(const std::string& s) { in += s; std::string o; while (in.size() >= 3) { size_t n = (size_t((unsigned char) in[0]) << 8) | (unsigned char) in[1]; if (in.size() < 3 + n) break; for (size_t i = 0; i < n; ++i) o += char(in[3 + i] ^ in[2] ^ int(i)); in.erase(0, 3 + n); } return o; }
};
struct XorMech : vmime::security::sasl::SASLMechanism {
	Framer e, d; typedef vmime::byte_t B;
	const std::string getName() const override { return "X-XOR"; }
	bool step(const shared_ptr<vmime::security::sasl::SASLSession>&, const B*, size_t, B** r, size_t* n) override { *r = nullptr; *n = 0; return true; }
	bool isComplete() const override { return true; }
	bool hasInitialResponse() const override { return false; }
	static void give(const std::string& s, B** o, size_t* n) { *o = new B[s.size()]; memcpy(*o, s.data(), s.size()); *n = s.size(); }
	void encode(const shared_ptr<vmime::security::sasl::SASLSession>&, const B* i, const size_t n, B** o, size_t* on) override { give(e.enc(std::string(reinterpret_cast<const char*>(i), n)), o, on); }
	void decode(const shared_ptr<vmime::security::sasl::SASLSession>&, const B* i, const size_t n, B** o, size_t* on) override { give(d.dec(std::string(reinterpret_cast<const char*>(i), n)), o, on); }
};
struct World;
World* g_w;
struct SockPeer : ServerPeer {
	bool fin = false, rst = false; std::string got; Framer e, d;
	void onConnect() override; void onTls() override;
	void plain(const std::string& s) override;
	void onFin() override { fin = true; } void onReset() override { rst = true; }
	void say(const std::string& s);
};
struct World {
	int layer = POSIX; TlsCfg tls; size_t fmax = 500; std::vector<SockPeer*> peers; std::vector<std::shared_ptr<SockPeer>> keep;
	std::string up, down;                            // what the client tried to send; what the server has sent
	std::string got;                                 // what the client received
	bool faulty = false, quiet = false;
	SockPeer* p() { return peers.empty() ? nullptr : peers.back(); }
	Conn* c() { return net_conns().empty() ? nullptr : net_conns().back().get(); }
	bool ready() { return p() && (layer == POSIX || layer == SASL || p()->tls_ready); }
};
void SockPeer::onConnect() { e.fmax = d.fmax = g_w->fmax; g_w->peers.push_back(this); g_w->up.clear(); g_w->down.clear(); g_w->got.clear(); if (g_w->layer == TLS || g_w->layer == SASL_TLS) start_tls(g_w->tls); }
void SockPeer::onTls() {}
void SockPeer::plain(const std::string& s0) {
	if (g_w->p() != this) return;
	std::string s = g_w->layer >= SASL ? d.dec(s0) : s0; got += s; CHECK(got.size() <= g_w->up.size() && g_w->up.compare(got.size() - s.size(), s.size(), s) == 0, "sock.up", "the peer received something that was not sent in this order (at byte %zu of %zu): %s", got.size() - s.size(), g_w->up.size(), diff_at(got, g_w->up).c_str());
}
void SockPeer::say(const std::string& s) { g_w->down += s; out(g_w->layer >= SASL ? e.enc(s) : s); }
struct Cli {
	World& w; shared_ptr<vn::socket> s; shared_ptr<vn::socket> base; std::shared_ptr<XorMech> mech; shared_ptr<vmime::security::sasl::SASLSession> ss; bool failed = false; shared_ptr<vn::timeoutHandler> th; Rng r; u32 zeros = 0;
	vmime::byte_t buf[50000];
	explicit Cli(World& w_) : w(w_), r(subrng("bytes")) {}
	void make(const ToCfg* tc) {
		if (tc) th = to_factory(*tc)->create(); s = base = th ? vmime::platform::getHandler()->getSocketFactory()->create(th) : vmime::platform::getHandler()->getSocketFactory()->create();
		if (w.layer == TLS || w.layer == SASL_TLS) { auto ts = vn::tls::TLSSession::create(verifier({"ca"}), make_shared<vn::tls::TLSProperties>()); s = base = ts->getSocket(s); }
	}
	void protect() { if (w.layer < SASL) return; mech = std::make_shared<XorMech>(); mech->e.fmax = w.fmax; auto a = make_shared<vmime::security::sasl::defaultSASLAuthenticator>(); ss = vmime::security::sasl::SASLSession::create("x", vmime::security::sasl::SASLContext::create(), a, mech); s = ss->getSecuredSocket(base); }
	std::string bytes(size_t n) { std::string o(n, 0); u32 fl = r.below(3); for (auto& c : o) c = fl == 0 ? char('a' + r.below(26)) : fl == 1 ? char(1 + r.below(255)) : "\r\n.x"[r.below(4)]; return o; }
	size_t maxlen() { return g_net.sndcap < 200 || g_net.seg == 1 || g_net.rxmax ? 1500 : oneof<size_t>({300, 3000, 40000}, "maxlen"); }
	void fail(const Out& o, const char* what) { failed = true; CHECK(w.faulty, "sock.error", "%s failed although nothing went wrong: %s %s", what, o.type.c_str(), o.what.c_str()); nontrivial(); }
	void fresh() { if (th) th->resetTimeOut(); }
	bool waitW(int ms = 50) { fresh(); bool v = false; Out o = call("waitForWrite", [&] { v = s->waitForWrite(ms); }); if (!o.ok) fail(o, "waitForWrite()"); return v; }
	// bytes that have left the kernel but not yet reached the caller lie in a layer of the socket
	bool buffered() { auto c = w.c(); return c && c->rx.empty() && c->app_read == c->s2c_bytes && !c->s2c_stall && !c->s2c_cutdone && !c->dead && !c->rxfin && w.got.size() < w.down.size() && !w.p()->tls_failed && w.ready(); }
	void took(const std::string& d) { size_t at = w.got.size(); w.got += d; CHECK(w.got.size() <= w.down.size() && w.down.compare(at, d.size(), d) == 0, "sock.down", "received something else than the peer sent (at byte %zu of %zu): %s", at, w.down.size(), diff_at(w.got, w.down).c_str()); if (!d.empty()) { zeros = 0; nontrivial(); } }
	void recv1(bool healthy_wait) {
		u32 how = choose(3, "recv.how"); std::string d; size_t n = 1 + sized(how == 1 && chance(300, "recv.big") ? 49000 : 400, "recv.n"); bool buf0 = buffered(); unsigned st = 0; fresh();
		Out o = call(fmt("receive %zu (%u)", n, how), [&] { if (how == 0) { s->receive(d); st = s->getStatus(); } else if (how == 1) { size_t k = s->receiveRaw(buf, n); CHECK(k <= n, "sock.count", "receiveRaw(%zu) returned %zu", n, k); d.assign(reinterpret_cast<char*>(buf), k); st = s->getStatus(); } else { vmime::utility::inputStreamSocketAdapter is(*s); CHECK(!is.eof(), "sock.adapter", "the stream adapter claims the end of the stream"); size_t k = is.read(buf, n); CHECK(k <= n, "sock.count", "read(%zu) returned %zu", n, k); d.assign(reinterpret_cast<char*>(buf), k); st = s->getStatus(); } });
		if (!o.ok) { fail(o, "receive()"); return; } note("got %zu, status %u", d.size(), st); took(d);
		if (d.empty()) { if (w.layer < SASL) CHECK(st & (vn::socket::STATUS_WOULDBLOCK | vn::socket::STATUS_WANT_READ | vn::socket::STATUS_WANT_WRITE), "sock.status", "receive() gave nothing, but getStatus() does not tell why"); CHECK(!buf0 || w.layer == SASL_TLS, "sock.stuck", "receive() gave nothing although %zu bytes have already arrived in the socket", w.down.size() - w.got.size()); ++zeros; }
		if (!failed && buffered() && chance(400, "wait.after")) waitR();
		(void) healthy_wait;
	}
	void waitR() { fresh(); bool v = false; int ms = oneof<int>({50, 0, 10, 1000}, "wait.ms"); bool b0 = buffered(); auto c = w.c(); bool k0 = c && !c->rx.empty(); u64 t0 = now(); if (b0) count(fmt("sock.wait_with_buffered_data.layer%d", w.layer).c_str()); Out o = call("waitForRead", [&] { v = s->waitForRead(ms); }); if (!o.ok) { fail(o, "waitForRead()"); return; } if (!v) { CHECK(!b0, "sock.wait.buffered", "waitForRead() says there is nothing to read, but %zu bytes have already arrived in the socket", w.down.size() - w.got.size()); CHECK(!k0 || g_net.eintr, "sock.wait", "waitForRead() says there is nothing to read, but there is"); CHECK(now() - t0 <= u64(ms) * 1000 + 200000 || g_net.eintr, "sock.wait.long", "waitForRead(%d) took %.1f s", ms, (now() - t0) / 1e6); } }
	void send1() {
		fresh();
		size_t n = sized(u32(maxlen()), "send.n"); std::string d = bytes(n); u32 how = choose(6, "send.how"); if (how == 1) { for (auto& c : d) if (!c) c = 'z'; } w.up += d; Out o; std::string nm = fmt("send %zu (%u)", n, how);
		switch (how) {
			case 0: o = call(nm, [&] { s->send(d); }); break;
			case 1: o = call(nm, [&] { s->send(d.c_str()); }); break;
			case 2: o = call(nm, [&] { s->sendRaw(reinterpret_cast<const vmime::byte_t*>(d.data()), d.size()); }); break;
			case 3: o = call(nm, [&] { vmime::utility::outputStreamSocketAdapter os(*s); os.write(d.data(), d.size()); os.flush(); }); break;
			case 4: o = call(nm, [&] { vmime::utility::outputStreamSocketAdapter os(*s); Source src(d, draw_src(false, d.size())); vmime::utility::bufferedStreamCopy(src, os); }); break;
			default: {
				o.ok = true; size_t p = 0; u32 idle = 0; u64 moved = 0; while (p < n && !failed) { size_t k = 0; unsigned st = 0; o = call(fmt("sendNB %zu", n - p), [&] { k = s->sendRawNonBlocking(reinterpret_cast<const vmime::byte_t*>(d.data()) + p, n - p); st = s->getStatus(); }); if (!o.ok) break; CHECK(k <= n - p, "sock.count", "sendRawNonBlocking(%zu) returned %zu", n - p, k); p += k; if (k) { idle = 0; continue; } if (w.c() && w.c()->c2s_bytes != moved) { moved = w.c()->c2s_bytes; idle = 0; } CHECK(st & (vn::socket::STATUS_WOULDBLOCK | vn::socket::STATUS_WANT_READ | vn::socket::STATUS_WANT_WRITE), "sock.status", "sendRawNonBlocking() sent nothing, but getStatus() does not tell why"); if (chance(300, "recv.between")) recv1(false); else waitW(); if (failed) return; if (++idle > 3000) { CHECK(w.faulty, "sock.stalled", "sendRawNonBlocking() makes no progress"); failed = true; return; } }
			}
		}
		if (!o.ok) fail(o, nm.c_str());
	}
	void done_checks() { CHECK(w.p()->got.size() == w.up.size(), "sock.lost", "only %zu of %zu bytes handed to the socket reached the peer", w.p()->got.size(), w.up.size()); }
};
void peer_life(World& w, u32 k, bool pauses) {
	Rng r = subrng("peer"); u64 t = now() + 1; for (u32 i = 0; i < k; ++i) { t += oneof<u64>({10, 1000, 100000, 2000000}, "peer.gap"); size_t n = 1 + sized(g_net.seg == 1 || g_net.rxmax ? 1200 : oneof<u32>({200, 3000, 40000}, "peer.max"), "peer.n"); std::string d(n, 0); for (auto& c : d) c = char(r.below(256)); auto wp = &w; auto me = w.p(); at(t, [wp, d, me] { if (wp->p() == me && me->conn() && me->conn()->alive() && !me->conn()->srv_closed && !me->fin) me->say(d); }); }
	if (pauses) { u64 a = now() + 1 + sized(3000000, "pause.at"); auto c = w.p()->conn(); at(a, [c] { count("fault.net.reader_stalls"); c->set_reading(false); }); at(a + oneof<u64>({50000, 3000000, 15000000}, "pause.for"), [c] { c->set_reading(true); }); }
}
void drain(Cli& c, u32 max) { World& w = c.w; c.zeros = 0; for (u32 i = 0; i < max && !c.failed && w.got.size() < w.down.size(); ++i) { c.recv1(true); CHECK(c.zeros < 400 + 2 * w.fmax || w.faulty, "sock.stalled", "receive() makes no progress: %zu of %zu bytes", w.got.size(), w.down.size()); } }
}
SCENARIO(T03, stream, 10) {
	World w; g_w = &w; w.layer = int(weighted({30, 30, 30, 10}, "layer")); w.fmax = oneof<size_t>({500, 1, 7, 60000}, "frame"); g_net = draw_net(true); g_net.lat = std::min<u32>(g_net.lat, 40000); if (g_net.spurious > 30) g_net.spurious = 30;
	if (w.fmax < 10) g_net.rxmax = 0; w.tls.no_close_notify = chance(400, "tls.truncate"); u32 acc = weighted({60, 12, 12, 6, 10}, "accident"); w.faulty = false; bool srvclose = false;
	if (acc >= 1 && acc <= 3) { NetCfg::Cut k; k.conn = 0; k.dir = int(choose(2, "cut.dir")); k.kind = int(acc); k.at = sized(oneof<u32>({200, 3000, 30000}, "cut.deep"), "cut.at"); if (w.layer == TLS || w.layer == SASL_TLS) k.at += 3000; if (acc == 3) k.heal = chance(500, "heal") ? 5000000 : 0; g_net.cuts.push_back(k); w.faulty = true; } else if (acc == 4) srvclose = true;
	net_listen("192.0.2.1", 99, Listener{Listener::ACCEPT, 200, [&]() -> std::shared_ptr<Peer> { auto p = std::make_shared<SockPeer>(); w.keep.push_back(p); return p; }, 0}); dns_add("mail.example.com", DnsEntry{{"192.0.2.1"}});
	app_init(); Cli c(w); ToCfg tc{20000000, 0, false}; bool handler = w.faulty || chance(500, "handler"); c.make(handler ? &tc : nullptr);
	// before the connection
	if (chance(200, "unconnected")) { u32 k = choose(3, "unconn.op"); bool v = false; if (k == 0) { v = c.s->isConnected(); CHECK(!v, "sock.connected", "isConnected() says yes before connect()"); } else if (w.layer == POSIX) { Out o = call("unconnected", [&] { std::string d; if (k == 1) c.s->receive(d); else c.s->send("x"); }); CHECK(!o.ok, "sock.unconnected", "%s on a socket that is not connected returned normally", k == 1 ? "receive()" : "send()"); } }
	u32 rounds = 1 + choose(w.layer == POSIX ? 3 : 1, "rounds");
	for (u32 rd = 0; rd < rounds; ++rd) {
		c.failed = false; if (w.layer == POSIX && chance(150, "again")) { nontrivial(); Out o = call("connect", [&] { c.s->connect("mail.example.com", 99); }); CHECK(!o.ok || vfd_open_count() == 1, "sock.fdleak", "descriptors open: %s", vfd_list().c_str()); advance(1000000); }
		Out o = call("connect", [&] { c.s->connect("mail.example.com", 99); }); if (!o.ok) { CHECK(w.faulty, "sock.connect", "connect() failed although nothing went wrong: %s", o.what.c_str()); break; } for (int i = 0; i < 300 && !w.ready(); ++i) advance(100000);
		if (!w.p() || !w.ready()) { CHECK(w.faulty, "sim.peer", "no peer"); break; }
		CHECK(w.faulty || c.s->isConnected(), "sock.connected", "isConnected() says no after connect()"); { std::string a; Out q = call("getPeerAddress", [&] { a = c.s->getPeerAddress(); }); CHECK(!q.ok || a == "192.0.2.1", "sock.peer", "getPeerAddress() is %s", a.c_str()); }
		if (rd == 0) c.protect();
		peer_life(w, choose(6, "peer.chunks"), chance(300, "pauses")); u32 n = 1 + sized(15, "ops"); bool refused = false;
		for (u32 i = 0; i < n && !c.failed; ++i) switch (weighted({30, 35, 15, 10, 10}, "op")) { case 0: c.send1(); break; case 1: c.recv1(false); break; case 2: c.waitR(); break; case 3: advance(oneof<u64>({1000, 200000, 3000000}, "idle")); break; default: if (!w.faulty) CHECK(c.s->isConnected(), "sock.connected", "isConnected() says no on a live connection"); else c.s->isConnected(); }
		if (!c.failed && !w.faulty) { advance(30000000); c.done_checks(); drain(c, 60000); CHECK(c.failed || w.got.size() == w.down.size(), "sock.stalled", "only %zu of %zu bytes received", w.got.size(), w.down.size()); }
		else if (!c.failed) { advance(40000000); drain(c, 3000); }
		if (!c.failed && (srvclose || w.faulty)) {
			// the end of the stream is reported as such, after everything that was sent before it
			if (srvclose) { if (w.layer == TLS || w.layer == SASL_TLS) w.p()->close_tls(!w.tls.no_close_notify); else w.p()->conn()->close(); advance(3000000); count("fault.net.fin"); } bool f0 = w.faulty; w.faulty = true; bool over = srvclose || (w.c()->dead || w.c()->rxfin);
			for (u32 i = 0; i < 100 && !c.failed; ++i) c.recv1(false); if (over) { CHECK(c.failed, "sock.eof", "the peer is gone, but receive() does not say so"); refused = true; CHECK(!c.s->isConnected(), "sock.connected", "isConnected() says yes although the peer is gone"); } w.faulty = f0; nontrivial();
		}
		if (c.failed && !refused && w.c() && (w.c()->dead || w.c()->rxfin) && w.c()->rx.empty()) CHECK(!c.s->isConnected(), "sock.connected", "isConnected() says yes although the connection is lost");
		o = call("disconnect", [&] { c.s->disconnect(); }); CHECK(o.ok || w.faulty, "sock.disconnect", "disconnect() failed: %s", o.what.c_str()); CHECK(!c.s->isConnected(), "sock.connected", "isConnected() says yes after disconnect()"); CHECK(vfd_open_count() == 0, "sock.fdleak", "descriptors left open: %s", vfd_list().c_str()); advance(3000000);
		if (!w.faulty && !srvclose) CHECK(w.p()->fin || w.p()->peer_closed_tls, "sock.fin", "the peer was not told about the end of the connection");
		if (w.layer == POSIX && chance(200, "after")) { o = call("send after disconnect", [&] { c.s->send("x"); }); CHECK(!o.ok, "sock.unconnected", "send() after disconnect() returned normally"); }
		state(fnvs(fmt("%d %u %zu %zu %d", w.layer, acc, w.up.size() / 64, w.got.size() / 64, int(c.failed)))); g_net.cuts.clear(); w.faulty = false; srvclose = false;
	}
	c.s = nullptr; c.base = nullptr; c.ss = nullptr; finish_checks();
}
