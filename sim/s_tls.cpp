// T01, T02: TLS policy and the boundary between clear text and TLS; for all three protocols
#include "drv.hpp"
#include "smtp.hpp"
#include "pop3.hpp"
#include "imap.hpp"
#include <vmime/net/securedConnectionInfos.hpp>
using namespace sim;
namespace {
bool clear_ok(const std::string& proto, const std::string& l) {
	std::string u = upper(l); if (proto == "imap") { size_t p = u.find(' '); u = p == std::string::npos ? "" : u.substr(p + 1); }
	size_t e = u.find(' '); std::string v = u.substr(0, e); static const std::set<std::string> ok[3] = {{"EHLO", "HELO", "STARTTLS", "QUIT", "NOOP", "RSET"}, {"CAPA", "STLS", "QUIT", "NOOP"}, {"CAPABILITY", "STARTTLS", "LOGOUT", "NOOP"}};
	return ok[proto == "smtp" ? 0 : proto == "pop3" ? 1 : 2].count(v) && (e == std::string::npos || v == "EHLO" || v == "HELO");
}
// nothing sensitive travelled in the clear
void clear_check(Drv& d, size_t from = 0) {
	auto w = d.wire(); for (size_t i = from; i < w.size(); ++i) if (!w[i].tls) CHECK(clear_ok(d.proto, w[i].line), "tls.clear", "\"%s\" was sent in the clear although TLS is required", esc(w[i].line).c_str());
	for (auto& s : {std::string("s3cret pa.ss"), b64("s3cret pa.ss"), b64(std::string("\0jane\0s3cret pa.ss", 18)), b64("jane")}) CHECK(g_clear.find(s) == std::string::npos, "tls.clear", "credentials (%s) were sent in the clear although TLS is required", s.c_str());
}
struct Truth { Drv& d; void check(const char* when) {
	bool c = d.connected(), s = d.svc()->isSecuredConnection(); if (!c) return;
	auto sp = dynamic_cast<ServerPeer*>(first->peer.get()); CHECK(s == sp->tls_ready, "tls.secured_lie", "isSecuredConnection() is %d, the connection %s (%s)", int(s), sp->tls_ready ? "is under TLS" : "is in the clear", when);
	CHECK(!!vmime::dynamicCast<vmime::net::securedConnectionInfos>(d.svc()->getConnectionInfos()) == s, "tls.infos_lie", "the connection informations do not fit a %s connection", s ? "secured" : "clear"); }
	std::shared_ptr<Conn> first;
};
struct CountingVerifier : vmime::security::cert::certificateVerifier { int calls = 0, mode = 0; std::string host; shared_ptr<vmime::security::cert::certificateVerifier> inner;
	void verify(const shared_ptr<vmime::security::cert::certificateChain>& ch, const vmime::string& h) override { ++calls; host = h; if (mode == 1) throw vmime::security::cert::certificateNotTrustedException(); if (mode == 2) return; inner->verify(ch, h); } };
}
SCENARIO(T01, policy, 10) {
	auto dp = draw_drv(); Drv& d = *dp; u32 how = choose(3, "tls"); bool implicit = how == 0; d.srv.implicit_tls = implicit; d.srv.starttls = !implicit; d.cli.tls = how == 1 ? true : chance(800, "cli.tls"); d.cli.required = how == 1; if (implicit) d.cli.required = chance(500, "cli.req");
	d.srv.maxmsgs = 2; d.srv.maxlen = 1500; if (chance(800, "auth?")) { d.srv.mechs = oneof<std::vector<std::string>>({{"PLAIN"}, {"CRAM-MD5"}, {"LOGIN", "PLAIN"}, d.proto == "smtp" ? std::vector<std::string>{"SCRAM-SHA-1"} : std::vector<std::string>{}}, "mechs"); d.cli.auth = true; d.cli.user = "jane"; d.cli.pass = "s3cret pa.ss"; if (chance(200, "mechs.clear")) d.srv.mechs_clear = {"PLAIN", "LOGIN"}; }
	std::string cert = "good"; bool certok = true, maybe = false; std::string trouble = "none"; bool netf = false; bool plainok = !implicit && !d.cli.required;   // falling back is allowed
	u32 tr_ = weighted({20, 10, 10, 8, 12, 30, 10}, "trouble"); bool refused = false, malformed = false; std::string mal;
	if (tr_ == 1 && !implicit) { trouble = "not offered"; d.srv.starttls = false; d.srv.starttls_ok = !chance(500, "refuse too"); refused = !d.srv.starttls_ok; }
	else if (tr_ == 2 && !implicit) { trouble = "refused"; d.srv.starttls_ok = false; refused = true; }
	else if (tr_ == 3 && !implicit) { trouble = "malformed"; malformed = true; mal = oneof<std::string>({"", "\r\n", "xyzzy\r\n", "500", "999 999\r\n", "* BAD\r\n", "+\r\n", "-\r\n", std::string("\0\0\r\n", 4), "250 ok\r\n", "* OK\r\n", "\x16\x03\x01\x00\x05hello"}, "malformed"); }
	else if (tr_ == 4) { trouble = "handshake"; d.srv.tls.hs_fault = 1 + int(choose(4, "hs")); d.srv.tls.hs_fault_at = sized(4000, "hs.at"); }
	else if (tr_ == 6) { trouble = "network"; netf = true; }
	// certificates
	auto ver = make_shared<CountingVerifier>(); int64_t sk = 0; std::string host = "mail.example.com";
	if (tr_ == 5 || chance(300, "cert?")) {
		cert = oneof<std::string>({"good", "wronghost", "expired", "future", "selfsigned", "otherca", "otherca_chain", "viainter", "viainter_short", "vialeaf", "good_chain", "viainter_chain", "forged_ca", "forged_inter", "forged_short", "good_extra"}, "cert");
		certok = cert == "good" || cert == "viainter" || cert == "good_chain" || cert == "viainter_chain"; if (cert == "good_extra") maybe = true;
		switch (weighted({50, 10, 10, 8, 8, 8, 6}, "cli.trust")) { case 1: d.cli.roots.clear(); certok = false; maybe = false; break; case 2: d.cli.trusted = {oneof<std::string>({"selfsigned", "expired", "future", "wronghost"}, "trusted")}; if (chance(500, "same")) { cert = d.cli.trusted[0]; certok = maybe = false; } if (cert == "selfsigned" && d.cli.trusted[0] == cert) certok = true; break; case 3: ver->mode = 1; certok = false; maybe = false; break; case 4: ver->mode = 2; certok = true; maybe = false; break; case 5: d.cli.nover = true; certok = false; maybe = false; break; case 6: sk = chance(500, "skew") ? 40ll * 365 * 86400 * 1000000 : -20ll * 365 * 86400 * 1000000; certok = false; maybe = false; break; }
		if (chance(120, "cli.host")) { host = oneof<std::string>({"other.example.com", "example.com", "192.0.2.1", "mail.example.com.", "xmail.example.com"}, "host"); if (ver->mode != 2) { certok = certok && host == "mail.example.com."; maybe = host == "mail.example.com."; } }
		if (!certok || maybe) trouble += " certificate " + cert;
	}
	d.srv.tls.cert = cert; d.cli.host = host; d.serve(netf); if (!netf) g_net.lat = std::min<u32>(g_net.lat, 40000); dns_add(host, DnsEntry{{"192.0.2.1"}, 100, 0, false}); if (host == "mail.example.com.") maybe = true;
	if (netf) { NetCfg::Cut k; k.conn = 0; k.dir = chance(700, "cut.dir") ? 0 : 1; k.kind = 1 + int(choose(3, "cut.kind")); k.at = sized(5000, "cut.at"); g_net.cuts.push_back(k); maybe = true; }
	app_init(); if (sk) skew(sk); ver->inner = verifier(d.cli.roots, d.cli.trusted); if (!d.cli.nover) d.cli.ver = ver; if (malformed) g_mutate = [&](const std::string& s) { auto w = d.wire(); if (w.empty()) return s; std::string l = upper(w.back().line); if (l.find("STARTTLS") != std::string::npos || l.find("STLS") != std::string::npos) { count("fault.server.malformed_starttls"); return mal; } return s; };
	d.make(); d.svc()->setTimeoutHandlerFactory(to_factory(ToCfg{20000000, 0, false})); Truth t{d, nullptr}; size_t nc = net_conns().size(); nontrivial();
	if (chance(200, "early")) t.check("before connect()");
	Out o = d.connect(); if (net_conns().size() > nc) t.first = net_conns()[nc]; t.check("after connect()");
	bool wants = implicit || d.cli.tls || d.cli.required; if (d.cli.required && !d.cli.tls && !implicit) wants = true;
	auto sp = t.first ? dynamic_cast<ServerPeer*>(t.first->peer.get()) : nullptr; bool hs = sp && sp->tls_ready; state(fnvs(d.proto + trouble + cert + fmt("%d%d%d", how, int(o.ok), int(hs))));
	if (implicit || d.cli.required) { clear_check(d); if (o.ok) { CHECK(hs, "tls.not_secured", "connect() returned without TLS although it is required (%s)", trouble.c_str()); } }
	if (o.ok && hs) { CHECK(certok || maybe, "tls.bad_certificate", "connect() accepted the certificate chain \"%s\" for host %s (%s)", cert.c_str(), host.c_str(), trouble.c_str()); if (!d.cli.nover) CHECK(ver->calls && ver->host == host, "tls.not_verified", "the certificate was %s", ver->calls ? ("verified for host " + ver->host).c_str() : "never verified"); }
	if (!(certok || maybe) && sp && sp->tls) { CHECK(!o.ok, "tls.bad_certificate", "connect() succeeded although the certificate chain \"%s\" is unacceptable", cert.c_str()); size_t n = 0; for (auto& w : d.wire()) if (w.tls && !clear_ok(d.proto, w.line)) ++n; CHECK(!n, "tls.sent_before_verify", "commands were sent over TLS to a peer whose certificate is unacceptable"); }
	if (sp && sp->tls && !hs && !o.ok) clear_check(d);                                    // a started handshake that fails never falls back
	if (sp && sp->tls && !hs) CHECK(!o.ok, "tls.fallback", "connect() succeeded although the TLS handshake was started and did not complete (%s)", trouble.c_str());
	if (!netf && !maybe) {
		bool want; if (trouble.compare(0, 4, "none") == 0) want = certok; else if (refused) want = plainok; else if (!implicit && !d.srv.starttls) want = o.ok && (hs || plainok); else want = false;
		if (!wants) want = true;
		if (malformed && plainok) {} else if (d.srv.tls.hs_fault && o.ok && hs) CHECK(certok, "tls.bad_certificate", "connect() succeeded"); else CHECK(o.ok == want, want ? "tls.connect_failed" : "tls.connect_succeeded", "connect() %s (%s; %s, %s)", o.ok ? "succeeded" : ("failed: " + o.type + " " + o.what).c_str(), trouble.c_str(), implicit ? "implicit TLS" : d.cli.required ? "TLS required" : wants ? "TLS enabled" : "no TLS wanted", d.proto.c_str());
	}
	if (!o.ok) { CHECK(!d.connected(), "tls.half", "connect() threw but the service is connected"); }
	else { d.exact = !netf && !malformed; for (u32 i = 0, n = choose(4, "ops"); i < n && d.connected(); ++i) { d.op(netf); t.check("after an operation"); } if (implicit || d.cli.required) clear_check(d); }
	d.release(); if (d.connected() && chance(700, "disc")) { d.disconnect(); t.check("after disconnect()"); }
	// later connections obey the same rules
	if (!d.connected() && chance(400, "again")) { g_mutate = nullptr; auto k = d.wire().size(); g_net.cuts.clear(); nc = net_conns().size(); o = d.connect(); t.first = net_conns().size() > nc ? net_conns()[nc] : nullptr; t.check("after the second connect()"); if (implicit || d.cli.required) clear_check(d, k); if (o.ok && t.first) { sp = dynamic_cast<ServerPeer*>(t.first->peer.get()); CHECK((certok || maybe) || !sp->tls, "tls.bad_certificate", "the second connect() accepted the certificate chain \"%s\"", cert.c_str()); } }
	if (implicit || d.cli.required) clear_check(d);
	d.release(); d.destroy(); g_mutate = nullptr; finish_checks();
}
namespace {
std::string injection(const std::string& proto) {
	auto pick = [](std::initializer_list<const char*> v) { std::vector<std::string> x(v.begin(), v.end()); return x[choose(u32(x.size()), "inject")]; };
	if (proto == "smtp") return pick({"250 AUTH PLAIN LOGIN\r\n", "250-mail.example.com\r\n250-PIPELINING\r\n250-SIZE 10\r\n250 CHUNKING\r\n", "220 again\r\n", "500 no\r\n", "2", "250-", "250 ok\r\n250 ok\r\n250 ok\r\n250 ok\r\n354 go\r\n250 ok\r\n", "235 ok\r\n", "421 bye\r\n"});
	if (proto == "pop3") return pick({"+OK fake\r\n", "+OK\r\nUSER\r\nSASL PLAIN\r\n.\r\n", "-ERR no\r\n", "+", "+OK 2 10\r\n+OK 3 20\r\n", "+OK list\r\nTOP\r\n.\r\n+OK in\r\n+OK in\r\n", ".\r\n"});
	return pick({"* CAPABILITY IMAP4rev1 AUTH=LOGIN AUTH=PLAIN\r\n", "* BYE\r\n", "a002 OK done\r\n", "* CAPABILITY IMAP4rev1\r\na002 OK done\r\n", "a002 OK [CAPABILITY IMAP4rev1 AUTH=PLAIN] done\r\na003 OK\r\na004 OK\r\n", "a003 OK done\r\n", "* 23 EXISTS\r\n", "*", "* OK [ALERT] pay\r\n* LIST () \"/\" \"trap\"\r\n", "+ \r\n", "* PREAUTH in\r\n"});
}
}
// a man in the middle adds clear text before the handshake; or the server of the clear phase lies about what follows
SCENARIO(T02, inject, 10) {
	auto dp = draw_drv(); Drv& d = *dp; d.srv.starttls = true; d.cli.tls = true; d.cli.required = chance(600, "cli.req"); d.srv.maxmsgs = 2; d.srv.maxlen = 1500;
	if (chance(700, "auth?")) { d.srv.mechs = oneof<std::vector<std::string>>({{"CRAM-MD5"}, {"PLAIN"}, {"SCRAM-SHA-1"}, {"LOGIN"}}, "mechs"); d.cli.auth = true; d.cli.user = "jane"; d.cli.pass = "s3cret pa.ss"; if (chance(600, "mechs.clear")) d.srv.mechs_clear = {"PLAIN", "LOGIN", "XOAUTH2", "DIGEST-MD5"}; }
	std::string inj = injection(d.proto); u32 where = weighted({60, 20, 20}, "inject.where"); u64 later = 0; bool armed = true;
	d.serve(false); g_net.lat = std::min<u32>(g_net.lat, 40000); if (where == 2) later = 1 + sized(200000, "inject.later");
	app_init();
	// 1: in front of the reply, in the same segment (untagged for IMAP, else it is the reply); 2: some time behind the reply
	g_mutate = [&](const std::string& s) { auto w = d.wire(); if (w.empty() || w.back().tls || !armed) return s; std::string l = upper(w.back().line); if (l.find("STARTTLS") == std::string::npos && l.find("STLS") == std::string::npos) return s; armed = false; count("fault.net.injection"); nontrivial(); if (where == 0) { tr("injected: %s", esc(inj).c_str()); return s + inj; } if (where == 1) { tr("injected in front: %s", esc(inj).c_str()); return inj + s; } if (where == 2) { auto c = net_conns().back(); std::string i2 = inj; after(later, [c, i2] { if (c->alive()) { tr("injected behind: %s", esc(i2).c_str()); c->send(i2); } }); } return s; };
	d.make(); d.svc()->setTimeoutHandlerFactory(to_factory(ToCfg{20000000, 0, false})); size_t nc = net_conns().size(); Out o = d.connect(); Truth t{d, net_conns().size() > nc ? net_conns()[nc] : nullptr}; t.check("after connect()"); state(fnvs(inj + d.proto + fmt("%d%u", int(o.ok), where)));
	if (d.cli.required) clear_check(d);
	if (o.ok) {
		// whatever was injected, from here on the session is exactly what the real server says
		auto sp = dynamic_cast<ServerPeer*>(t.first->peer.get()); if (sp->tls_ready) d.exact = where != 2;
		if (sp->tls_ready || where != 1) for (u32 i = 0, n = 1 + choose(5, "ops"); i < n && d.connected(); ++i) { d.op(where == 2); CHECK(!d.cli.required || !d.connected() || d.svc()->isSecuredConnection(), "tls.not_secured", "the session is not secured"); }
	} else CHECK(!d.connected(), "tls.half", "connect() threw but the service is connected");
	armed = false; d.release(); if (d.connected()) d.disconnect();
	if (o.ok && chance(300, "again")) { d.srv.inject.clear(); }
	d.destroy(); g_mutate = nullptr; finish_checks();
}
