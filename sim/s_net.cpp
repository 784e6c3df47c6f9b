// N01-N04: time-outs, lost connections, hostile servers, connection set-up; for all three protocols
#include "drv.hpp"
#include "smtp.hpp"
#include "pop3.hpp"
#include "imap.hpp"
#include <netdb.h>
using namespace sim;
vmime::utility::url sim::drv_url(const std::string& scheme, const std::string& prefix, vmime::propertySet& props, const DrvCli& cli) {
	using vmime::utility::url; if (!cli.inurl || cli.user.empty()) return url(scheme + "://" + cli.host);
	props.removeProperty(prefix + "auth.username"); props.removeProperty(prefix + "auth.password"); count("credentials.in_url");
	if (cli.inurl == 2) return url(scheme, cli.host, url::UNSPECIFIED_PORT, "", cli.user, cli.pass);
	bool every = chance(300, "url.all"), lower = chance(300, "url.lower"); auto enc = [&](const std::string& s) { std::string o; for (char c : s) if (!every && (isalnum((unsigned char) c) || strchr("-_.~", c))) o += c; else o += fmt(lower ? "%%%02x" : "%%%02X", (unsigned char) c); return o; };
	int port = chance(300, "url.port") ? scheme == "smtp" ? 25 : scheme == "smtps" ? 465 : scheme == "pop3" ? 110 : scheme == "pop3s" ? 995 : scheme == "imap" ? 143 : 993 : 0;
	std::string u = scheme + "://" + enc(cli.user) + ":" + enc(cli.pass) + "@" + cli.host; if (port) u += fmt(":%d", port); if (chance(200, "url.slash")) u += "/"; tr("url %s", esc(u).c_str()); return url(u);
}
std::unique_ptr<Drv> sim::draw_drv() { switch (choose(3, "protocol")) { case 0: return drv_smtp(); case 1: return drv_pop(); default: return drv_imap(); } }
namespace {
void draw_srv(Drv& d, bool auth) {
	switch (weighted({60, 20, 20}, "srv.tls")) { case 1: d.srv.implicit_tls = true; break; case 2: d.srv.starttls = true; d.cli.tls = true; d.cli.required = chance(500, "cli.req"); break; }
	if (auth && chance(400, "auth?")) { d.srv.mechs = oneof<std::vector<std::string>>({{"PLAIN"}, {"CRAM-MD5"}, {"LOGIN", "PLAIN"}, {"SCRAM-SHA-1"}, {"DIGEST-MD5", "PLAIN"}}, "mechs"); d.cli.auth = true; d.cli.user = "jane"; d.cli.pass = "s3cret pa.ss"; }
}
NetCfg::Cut draw_cut(int kind) {
	NetCfg::Cut k; k.conn = int(weighted({60, 30, 10}, "cut.conn")); k.dir = chance(750, "cut.dir") ? 0 : 1; k.kind = kind; u32 deep = choose(4, "cut.deep"); k.at = sized(deep == 0 ? 120 : deep == 1 ? 900 : deep == 2 ? 5000 : 40000, "cut.at"); return k;
}
u64 last_progress() { u64 t = 0; for (auto& c : net_conns()) t = std::max(t, c->last_progress); return t; }
// N01: every call ends within the time the handler allows
struct TimeWatch {
	u64 limit; u64 slack; int used = 0; u64 refused0 = 0; u64 extra = 0; u32 addrs = 1; u64 extra_connect = 0; std::map<std::string, u64> worst;
	void arm() { g_call_hook = [this](const std::string& n, const Out& o) { check(n, o); }; refused0 = g_to.refused; used = g_to.cfg.continues - g_to.continues_left; }
	void check(const std::string& n, const Out& o) {
		int now_used = g_to.cfg.continues - g_to.continues_left, c = now_used - used; used = now_used; u64 ref = g_to.refused - refused0; refused0 = g_to.refused; u64 lp = std::max(o.t0, std::min(last_progress(), o.t1));
		bool conn = n == "connect"; int k = 1 + c; u64 bound = u64(k) * limit + slack; if (conn) bound += extra_connect; if (n == "disconnect") bound = (1 + u64(c)) * limit * 2 + slack;
		u64 idle = o.t1 - lp; if (idle > limit / 2) count("n01.idle_end");
		CHECK(idle <= bound, "time.blocked", "%s ended %.1f s after the last sign of life from the peer, the time-out is %.1f s and the handler granted %d extension%s", n.c_str(), idle / 1e6, limit / 1e6, c, c == 1 ? "" : "s");
		if (ref && g_to.gaveup_at) { u64 late = o.t1 - g_to.gaveup_at; CHECK(late <= (conn || n.compare(0, 5, "send(") == 0 || n == "disconnect" || n == "close" ? limit + slack : slack), "time.handler_ignored", "%s ended %.1f s after the time-out handler had refused to continue", n.c_str(), late / 1e6); CHECK(!o.ok || n == "disconnect" || n == "close", "time.timeout_swallowed", "%s returned normally although the time-out handler refused to continue", n.c_str()); }
		g_to.gaveup_at = 0;
	}
};
}
SCENARIO(N01, silence, 10) {
	auto dp = draw_drv(); Drv& d = *dp; draw_srv(d, true); d.srv.maxmsgs = 3; d.serve(true); g_net.lat = std::min<u32>(g_net.lat, 40000);
	u32 how = weighted({70, 6, 6, 9, 9}, "silence"); TimeWatch w; u64 limit = oneof<u64>({30000000, 5000000, 90000000}, "limit"); w.limit = limit; w.slack = 4000000; if (g_net.sndcap < 2000) w.slack += 31000000;   // a socket that is waiting for its window notices data that arrived meanwhile only 30 s later
	if (how == 0) { auto k = draw_cut(3); if (chance(300, "cut.heal")) k.heal = oneof<u64>({1000000, 25000000, 100000000}, "cut.healt"); g_net.cuts.push_back(k); if (chance(200, "cut2")) g_net.cuts.push_back(draw_cut(3)), g_net.cuts.back().conn = 1; }
	else if (how == 1) { net_listen("192.0.2.1", d.port(), Listener{Listener::SILENT, 200, nullptr, 0}); nontrivial(); count("fault.net.syn_lost"); }
	else if (how == 2) { dns_add("mail.example.com", DnsEntry{{"192.0.2.1"}, 0, 0, true}); nontrivial(); count("fault.dns.never"); }
	else if (how == 3) { d.srv.implicit_tls = chance(500, "implicit"); d.srv.starttls = !d.srv.implicit_tls; d.cli.tls = true; d.srv.tls.hs_fault = 4; d.srv.tls.hs_fault_at = sized(4000, "hs.at"); d.serve(true); g_net.lat = std::min<u32>(g_net.lat, 40000); }
	else { d.reject(2); for (auto p : {g_smtp ? &g_smtp->cfg.proc : nullptr}) (void) p; auto k = draw_cut(3); k.dir = 0; g_net.cuts.push_back(k); }
	if (chance(250, "itimer")) g_net.itimer = oneof<u64>({400000, 7000, 1000000}, "itimer.us");
	app_init(); d.make(); ToCfg tc; tc.limit = limit; tc.continues = int(choose(4, "to.cont")); bool deflt = chance(100, "to.default"); if (deflt) { limit = w.limit = 30000000; w.slack += 2000000; tc.continues = 0; } auto fac = to_factory(tc); if (!deflt) d.svc()->setTimeoutHandlerFactory(fac); w.arm();
	u32 n = 1 + sized(4, "ops"); Out o = d.connect();
	for (u32 i = 0; i < n && d.connected(); ++i) d.op(true);
	if (d.connected() && chance(700, "disc")) d.disconnect();
	d.release(); u64 t = now(); d.destroy(); CHECK(now() - t <= 8 * limit + 60000000, "time.destructor", "destroying the service took %.1f s", (now() - t) / 1e6);
	g_call_hook = nullptr; d.final_check(); finish_checks();
}
// a slow peer that keeps sending is never timed out
SCENARIO(N01, slow, 4) {
	auto dp = draw_drv(); Drv& d = *dp; draw_srv(d, true); d.srv.maxmsgs = 3; d.srv.maxlen = 2000; d.srv.quiet = true; d.exact = true; d.serve(false);
	g_net.lat = 50; g_net.jit = 0; u64 limit = 4000000; g_net.pace = oneof<u64>({3000000, 3600000, 1200000}, "pace"); g_net.pace_n = 1 + choose(25, "pace.n"); g_net.pace_from = sized(3000, "pace.from"); if (chance(300, "eintr?")) g_net.eintr = oneof<u32>({60, 250}, "eintr");
	app_init(); d.make(); d.svc()->setTimeoutHandlerFactory(to_factory(ToCfg{limit, 0, false})); u32 n = 1 + sized(3, "ops");
	Out o = d.connect(); CHECK(o.ok, "time.impatient", "connect() failed although the peer kept making progress: %s %s", o.type.c_str(), o.what.c_str());
	for (u32 i = 0; i < n; ++i) { if (chance(250, "idle")) { advance(oneof<u64>({3000000, 20000000, 3600000000ull}, "idle.t")); count("idle"); } d.op(false); CHECK(!g_to.handled, "time.impatient", "the time-out handler was called although the peer never paused for as long as the time-out"); }
	if (chance(700, "disc")) { o = d.disconnect(); CHECK(o.ok, "disconnect.failed", "disconnect() failed: %s %s", o.type.c_str(), o.what.c_str()); }
	d.release(); d.destroy(); d.final_check(); finish_checks();
}

// N02: the connection is lost at any byte
SCENARIO(N02, lost, 10) {
	auto dp = draw_drv(); Drv& d = *dp; draw_srv(d, true); d.srv.tls.no_close_notify = chance(500, "tls.truncate"); d.srv.maxmsgs = 4; d.serve(true);
	u32 nc = 1 + choose(2, "cuts"); for (u32 i = 0; i < nc; ++i) { auto k = draw_cut(chance(500, "cut.rst") ? 2 : 1); if (i) k.conn = 1 + int(choose(3, "cut.conn2")); g_net.cuts.push_back(k); }
	app_init(); d.make(); d.svc()->setTimeoutHandlerFactory(to_factory(ToCfg{60000000, int(choose(2, "to.cont")), false})); u32 n = 1 + sized(7, "ops");
	for (u32 i = 0; i < n; ++i) {
		if (!d.connected()) { if (i && !chance(700, "reconnect")) break; d.release(); d.connect(); if (!d.connected()) continue; }
		d.op(true); if (chance(100, "disc")) { Out o = d.disconnect(); d.release(); }
	}
	// whatever happened, the service can be used again
	d.heal(); g_net = NetCfg(); advance(200000000); u32 how = choose(3, "how");
	if (how == 1 && chance(500, "release")) d.release();
	if (d.connected() && how) { Out o = d.disconnect(); CHECK(o.ok || o.conn || o.timeout || o.notconn, "lost.disconnect", "disconnect() after the loss of the connection threw %s (%s)", o.type.c_str(), o.what.c_str()); CHECK(!d.connected(), "lost.disconnect", "still connected after disconnect()"); }
	if (how == 2) { d.destroy(); CHECK(vfd_open_count() == 0, "leak.fd", "descriptors still open after the service was destroyed:%s", vfd_list().c_str()); d.make(); d.svc()->setTimeoutHandlerFactory(to_factory(ToCfg{60000000, 0, false})); }
	for (int i = 0; i < 2; ++i) {
		d.release(); if (!d.connected()) { Out o = d.connect(); CHECK(o.ok, "lost.no_reconnect", "connect() failed although the network works again: %s %s", o.type.c_str(), o.what.c_str()); if (how || i) d.exact = true; }
		for (int k = 0; k < 2 && d.connected(); ++k) d.op(!d.exact);
		if (!d.exact && d.connected()) { d.release(); Out o = d.disconnect(); CHECK(!d.connected(), "lost.disconnect", "still connected after disconnect()"); }
	}
	nontrivial(); d.release(); if (d.connected() && chance(700, "disc")) d.disconnect(); d.destroy(); d.final_check(); finish_checks();
}
// interrupted calls, spurious wake-ups, full windows: nothing of it is a loss
SCENARIO(N02, interrupted, 4) {
	auto dp = draw_drv(); Drv& d = *dp; draw_srv(d, true); d.srv.maxmsgs = 3; d.serve(false); d.exact = true;
	g_net.eintr = oneof<u32>({60, 250, 500}, "eintr"); g_net.spurious = oneof<u32>({0, 60, 400}, "spurious"); if (chance(300, "tiny")) g_net.sndcap = 1 + sized(300, "sndcap"); d.srv.maxlen = g_net.sndcap && g_net.sndcap < 50 ? 300 : 1500; set_step_limit(3000000);
	app_init(); d.make(); d.svc()->setTimeoutHandlerFactory(to_factory(ToCfg{600000000, 0, chance(300, "to.none")})); u32 n = 1 + sized(5, "ops");
	for (int round = 0; round < 2; ++round) {
		Out o = d.connect(); CHECK(o.ok, "interrupted.connect", "connect() failed although the connection was only disturbed by interrupted calls: %s %s", o.type.c_str(), o.what.c_str());
		auto idle = [&] { if (chance(200, "idle")) { advance(oneof<u64>({20000000, 700000000, 7200000000ull}, "idle.t")); count("idle"); } };
		for (u32 i = 0; i < n; ++i) { idle(); d.op(false); }
		idle(); nontrivial(); d.release(); o = d.disconnect(); CHECK(o.ok, "interrupted.disconnect", "disconnect() failed: %s %s", o.type.c_str(), o.what.c_str()); if (!chance(300, "again")) break;
	}
	d.destroy(); d.final_check(); finish_checks();
}

// ------------------------------------------------------------------ N03: hostile data
namespace {
std::string nasty(const std::string& proto) {
	static const std::vector<std::string> num = {"4294967295", "4294967296", "18446744073709551615", "99999999999999999999999", "-1", "0", "2147483648", "1000000"};
	if (chance(200, "nasty.num")) return num[choose(u32(num.size()), "num")];
	std::string N = num[choose(u32(num.size()), "num")];
	if (proto == "imap") {
		switch (choose(34, "nasty")) {
			case 0: return "* " + N + " EXISTS\r\n"; case 1: return "* " + N + " EXPUNGE\r\n"; case 2: return "* 1 EXPUNGE\r\n"; case 3: return "* " + N + " FETCH (FLAGS (\\Seen) UID " + N + ")\r\n"; case 4: return "{" + N + "}\r\n"; case 5: return "{10}\r\nab"; case 6: return "\""; case 7: return "("; case 8: return ")"; case 9: return " NIL ";
			case 10: return std::string(1 + sized(60000, "nest"), '('); case 11: return "* 1 FETCH (BODYSTRUCTURE " + [] { std::string o; for (u32 i = 0, n = sized(20000, "nest2"); i < n; ++i) o += "("; return o; }() + ")\r\n"; case 12: return "* BYE gone\r\n"; case 13: return "* OK [UIDVALIDITY " + N + "]\r\n"; case 14: return "* OK [UIDNEXT " + N + "] [\r\n"; case 15: return "* LIST (\\Noselect) \"/\" \"" + std::string(sized(3000, "long"), '/') + "x\"\r\n"; case 16: return "* LIST () NIL {5}\r\nabc\r\n"; case 17: return "* SEARCH " + N + " 1 2\r\n"; case 18: return "* STATUS Other (MESSAGES " + N + " UNSEEN " + N + " UIDNEXT x)\r\n";
			case 19: return "* 1 FETCH (ENVELOPE (NIL NIL ((NIL NIL NIL NIL)) NIL NIL NIL NIL NIL NIL NIL))\r\n"; case 20: return "* 1 FETCH (ENVELOPE (\"x\" \"=?utf-8?Q?" + std::string(sized(5000, "lw"), '=') + "?=\" ((\"a\" NIL \"\" \"\")) () NIL NIL NIL NIL NIL NIL))\r\n"; case 21: return "* 1 FETCH (BODYSTRUCTURE ((\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" " + N + " " + N + ")(\"MESSAGE\" \"RFC822\" NIL NIL NIL \"7BIT\" 1 (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) (\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1) 1) \"MIXED\"))\r\n"; case 22: return "+ go ahead\r\n"; case 23: return "a001 OK done\r\n"; case 24: return "a002 NO\r\n"; case 25: return "* CAPABILITY\r\n"; case 26: return "* 1 FETCH (BODY[] {3}\r\nabc BODY[]<0> \"x\" BODY[HEADER.FIELDS (X)] NIL)\r\n"; case 27: return "* 1 FETCH (MODSEQ (" + N + ") BODY[1.2.3.4.5.MIME] \"\")\r\n"; case 28: return "* VANISHED (EARLIER) 1:*\r\n"; case 29: return "* 3 RECENT\r\n"; case 30: return "* FLAGS (\\" + std::string(sized(2000, "lf"), 'x') + ")\r\n"; case 31: return "* OK [COPYUID " + N + " 1:" + N + " 5]\r\n"; case 32: return "* OK [APPENDUID 1 " + N + ":1]\r\n"; default: return "*"; }
	}
	if (proto == "pop3") switch (choose(14, "nasty")) { case 0: return "+OK " + N + " " + N + "\r\n"; case 1: return "-ERR\r\n"; case 2: return ".\r\n"; case 3: return "..\r\n"; case 4: return N + " " + N + "\r\n"; case 5: return "1 " + std::string(sized(5000, "l"), 'u') + "\r\n"; case 6: return "+OK\r\n"; case 7: return "+"; case 8: return "+ \r\n"; case 9: return "+OK <" + std::string(sized(5000, "l"), '<') + ">\r\n"; case 10: return "SASL " + std::string(sized(5000, "l"), 'X') + "\r\n"; case 11: return "\r\n\r\n"; case 12: return "- 1 1\r\n"; default: return " "; }
	switch (choose(14, "nasty")) { case 0: return "250-" + std::string(sized(100000, "l"), 'x') + "\r\n"; case 1: return "250 ok\r\n"; case 2: return "2500 ok\r\n"; case 3: return "25\r\n"; case 4: return N + "\r\n"; case 5: return "354 go\r\n"; case 6: return "421 bye\r\n"; case 7: return "250-SIZE " + N + "\r\n"; case 8: return "250-AUTH\r\n250 AUTH=\r\n"; case 9: return "\r\n"; case 10: return "334 !!!\r\n"; case 11: return "abc def\r\n"; case 12: return "250-"; default: return "550 5.999999999999.1 x\r\n"; }
}
struct Hostile {
	std::string proto; u32 rate = 100; std::string held; u32 left = 50; u64 total = 0;
	std::string operator()(const std::string& s0) {
		std::string s = held + s0; held.clear(); if (!left || !chance(rate, "hostile?")) return s; --left; u32 n = 1 + choose(2, "hostile.n");
		for (u32 i = 0; i < n; ++i) mutate1(s);
		count("fault.server.hostile_reply"); nontrivial(); tr("hostile: %s", esc(s, 200).c_str()); total += s.size(); if (total > 3000000) left = 0; return s;
	}
	void mutate1(std::string& s) {
		Rng r = subrng("hostile"); size_t a = r.below(u32(s.size()) + 1), b = std::min(s.size(), a + 1 + r.below(r.below(3) ? 8 : u32(s.size()) + 1));
		switch (choose(14, "hostile.kind")) {
			case 0: if (a < s.size()) s[a] = char(r.below(256)); break;
			case 1: s.erase(a, b - a); break;
			case 2: s.insert(a, s.substr(a, b - a)); break;
			case 3: s.insert(a, nasty(proto)); break;
			case 4: s.insert(0, nasty(proto)); break;
			case 5: held = s; s.clear(); break;
			case 6: s = nasty(proto); if (s.empty() || s.back() != '\n') s += "\r\n"; break;
			case 7: { std::string N = nasty(proto); for (size_t i = 0; i < s.size(); ++i) if (isdigit((unsigned char) s[i]) && r.below(3) == 0) { size_t e = i; while (e < s.size() && isdigit((unsigned char) s[e])) ++e; static const char* nn[] = {"0", "4294967296", "99999999999999999999", "1", "7", "-3", "18446744073709551615"}; std::string w = nn[r.below(7)]; s.replace(i, e - i, w); i += w.size(); if (r.below(2)) break; } break; }
			case 8: s.insert(a, std::string(1 + r.below(3), '\0')); break;
			case 9: s.resize(a); break;
			case 10: s.insert(a, std::string(1 + r.below(200000), "x (\")\\{[=?."[r.below(11)])); break;
			case 11: s += s; break;
			case 12: { size_t e = s.find("\r\n"); if (e != std::string::npos) s = s.substr(e + 2) + s.substr(0, e + 2); break; }
			default: for (u32 i = 0, k = 1 + r.below(5); i < k; ++i) if (!s.empty()) s[r.below(u32(s.size()))] = "(){}[]\"\\ \r\n*+%\0<>.-=?:;,0"[r.below(27)];
		}
	}
};
}
SCENARIO(N03, hostile, 10) {
	auto dp = draw_drv(); Drv& d = *dp; draw_srv(d, true); d.srv.maxmsgs = 4; d.srv.maxlen = 5000; d.hostile = true; if (chance(150, "sasl.bad") && !d.srv.mechs.empty()) { d.srv.sasl.bad_challenge = int(choose(3, "bad.at")); d.srv.sasl.bad_raw = chance(500, "bad.raw"); Rng r = subrng("bad"); d.srv.sasl.bad_text = gen_bytes(r, r.below(400), int(r.below(5))); for (char& c : d.srv.sasl.bad_text) if (c == '\r' || c == '\n') c = '!'; }
	set_max_alloc(64u << 20);   // a host with little memory: announcing 2^32 messages must end in bad_alloc, not in swapping
	d.serve(true); lenient({"smtp.", "pop3.", "imap.", "auth."}); g_net.lat = std::min<u32>(g_net.lat, 2000); if (g_net.seg == 1 || g_net.rxmax) { g_net.seg = 0; g_net.rxmax = 0; }
	Hostile h; h.proto = d.proto; h.rate = oneof<u32>({40, 150, 500, 15}, "rate"); h.left = 1 + choose(30, "hostile.left"); g_mutate = [&](const std::string& s) { return h(s); };
	app_init(); d.make(); d.svc()->setTimeoutHandlerFactory(to_factory(ToCfg{10000000, 0, false})); u32 n = 1 + sized(14, "ops");
	for (u32 i = 0; i < n; ++i) {
		if (!d.connected()) { if (i && !chance(600, "reconnect")) break; if (chance(300, "release")) d.release(); d.connect(); if (!d.connected()) continue; }
		d.wild(); if (chance(60, "disc")) { d.disconnect(); }
	}
	if (d.connected() && chance(500, "disc")) d.disconnect();
	d.destroy(); g_mutate = nullptr; finish_checks();
}

// ------------------------------------------------------------------ N04: connection set-up
namespace {
// what a correct client does with a list of addresses, given ample time: the first one that accepts soon enough
struct Addr { std::string ip; Listener::Kind kind; u64 delay; };
}
SCENARIO(N04, addresses, 10) {
	auto dp = draw_drv(); Drv& d = *dp; draw_srv(d, chance(300, "auth?")); d.srv.maxmsgs = 2; d.srv.maxlen = 1000; d.serve(false); d.exact = true; g_net.lat = std::min<u32>(g_net.lat, 40000); g_net.pace_n = 0;
	auto make = d.peer_factory(); u32 n = 1 + choose(6, "addrs"); bool handler = !chance(150, "no.handler"); std::vector<Addr> as; DnsEntry dns; dns.delay = oneof<u64>({100, 30000, 2500000, 20000000}, "dns.delay"); if (chance(60, "dns.err")) dns.err = EAI_AGAIN;
	for (u32 i = 0; i < n; ++i) {
		Addr a; bool v6 = chance(200, "v6"); a.ip = v6 ? fmt("2001:db8::%u", i + 1) : fmt("192.0.2.%u", i + 1);
		switch (weighted({35, 20, 15, 15, 15}, "addr.kind")) { case 0: a.kind = Listener::ACCEPT; a.delay = oneof<u64>({200, 900000, 1000000, 3900000}, "delay"); if (handler && chance(100, "late")) a.delay = 9000000; break; case 1: a.kind = Listener::REFUSE; a.delay = oneof<u64>({200, 2500000}, "delay"); break; case 2: a.kind = Listener::UNREACH; a.delay = oneof<u64>({0, 200, 3000000}, "delay"); break; case 3: a.kind = Listener::SILENT; a.delay = 0; break; default: a.kind = Listener::REFUSE; a.delay = 9000000; if (chance(500, "r")) a.kind = Listener::UNREACH; }
		as.push_back(a); dns.ips.push_back(a.ip); net_listen(a.ip, d.port(), Listener{a.kind, a.delay, make, 0});
	}
	dns_add("mail.example.com", dns); if (chance(200, "itimer")) g_net.itimer = oneof<u64>({400000, 7000, 1000000}, "itimer.us");
	// the reference: an address that is not the last one gets 5 s (6 s with the granularity of the wait), the last one all the time that is left
	int want = -1; for (u32 i = 0; i < n && want < 0; ++i) if (as[i].kind == Listener::ACCEPT && (as[i].delay < 4500000 || i + 1 == n || !handler)) want = int(i);
	if (dns.err) want = -1;
	app_init(); d.make(); bool tight = handler && chance(200, "tight"); u64 limit = tight ? oneof<u64>({1000000, 4000000, 12000000}, "limit") : 100000000; int cont = tight ? int(choose(3, "cont")) : 0; if (handler) d.svc()->setTimeoutHandlerFactory(to_factory(ToCfg{limit, cont, false})); else d.svc()->setTimeoutHandlerFactory(to_factory(ToCfg{limit, 0, true}));
	g_call_hook = [&](const std::string& nm, const Out& o) { CHECK(!dns_pending_on_stack(), "dns.dangling", "%s ended but a name-resolution request that lives in its stack frame is still running", nm.c_str()); CHECK(vfd_open_count() <= (nm == "connect" ? 1u : 2u), "leak.fd", "after %s (%s) %zu descriptors are open:%s", nm.c_str(), o.ok ? "ok" : o.type.c_str(), vfd_open_count(), vfd_list().c_str()); };
	u32 rounds = 1 + choose(3, "rounds"); Out o;
	for (u32 r = 0; r < rounds; ++r) {
		for (auto& a : as) net_listener(a.ip, d.port())->attempts = 0;
		nontrivial(); o = d.connect(); state(fnvs(fmt("%d %d %u", want, int(o.ok), n)));
		if (!tight) {
			CHECK(o.ok == (want >= 0), want >= 0 ? "connect.gave_up" : "connect.impossible", "connect() %s although %s (%s)", o.ok ? "succeeded" : ("failed: " + o.type + " " + o.what).c_str(), want >= 0 ? fmt("address %d of %u accepts after %.1f s", want + 1, n, as[want].delay / 1e6).c_str() : "no address accepts in time", d.proto.c_str());
			for (u32 i = 0; i < n; ++i) { u32 at = net_listener(as[i].ip, d.port())->attempts; bool due = !dns.err && (want < 0 || int(i) <= want); CHECK(at == (due ? 1 : 0), "connect.attempts", "address %u of %u (%s) was tried %u times, the first usable one is %d", i + 1, n, as[i].ip.c_str(), at, want + 1); }
			if (o.ok) { auto c = net_conns().back(); CHECK(c->ip == as[want].ip, "connect.wrong_address", "connected to %s", c->ip.c_str()); }
		} else if (!o.ok) { CHECK(o.timeout || o.conn || o.notconn, "connect.error_type", "connect() failed with %s (%s)", o.type.c_str(), o.what.c_str()); CHECK(want >= 0 || true, "x", "x"); if (as[0].kind == Listener::ACCEPT && as[0].delay < 1000 && !dns.err && dns.delay < 500000) violate("connect.gave_up", "connect() failed with %s although the first address accepts at once", o.type.c_str()); }
		if (!o.ok) {
			CHECK(!d.connected(), "connect.half", "connect() threw but isConnected() is true"); CHECK(o.conn || o.timeout || (tight && o.notconn), "connect.error_type", "connect() failed with %s (%s)", o.type.c_str(), o.what.c_str()); CHECK(vfd_open_count() == 0 || chance(0, ""), "leak.fd", "descriptors open after connect() failed:%s", vfd_list().c_str());
			if (!tight && handler) { u64 due = dns.err ? 0 : 3000000; if (!dns.err) for (u32 i = 0; i < n; ++i) due += i + 1 == n ? (as[i].kind == Listener::SILENT ? limit : as[i].delay) : as[i].kind == Listener::SILENT ? 6100000 : std::min<u64>(as[i].delay, 6100000); CHECK(o.took() <= dns.delay + due + 1500000, "connect.late", "connect() gave up after %.1f s, although the last address was bound to fail after %.1f s", o.took() / 1e6, (dns.delay + due) / 1e6); }
			if (handler) { u64 bound = dns.delay + u64(n) * 6500000 + (limit + 2000000) * u64(1 + cont) * 3 + 10000000; CHECK(o.took() < bound, "connect.time", "connect() took %.1f s", o.took() / 1e6); }
			continue;
		}
		if (!tight) d.op(false); else d.wild();
		if (chance(700, "disc")) { d.release(); if (tight) { d.hostile = true; } d.disconnect(); CHECK(vfd_open_count() == 0, "leak.fd", "descriptors open after disconnect():%s", vfd_list().c_str()); } else break;
	}
	g_call_hook = nullptr; d.release(); d.destroy(); CHECK(vfd_open_count() == 0, "leak.fd", "descriptors still open after the service was destroyed:%s", vfd_list().c_str()); finish_checks(); CHECK(dns_unfreed() <= dns_abandoned(), "leak.addrinfo", "%zu address lists were never freed", dns_unfreed());
}
// one bare socket object, connected again and again, with and without disconnecting first
SCENARIO(N04, bare, 3) {
	g_net = draw_net(true); g_net.lat = std::min<u32>(g_net.lat, 40000); u32 n = 1 + choose(4, "addrs"); DnsEntry dns; std::vector<std::string> ips; for (u32 i = 0; i < n; ++i) { ips.push_back(fmt("192.0.2.%u", i + 1)); dns.ips.push_back(ips[i]); } dns_add("mail.example.com", dns); app_init();
	struct Mute : Peer { void onData(const std::string&) override {} }; auto listen = [&] { bool any = false; for (auto& ip : ips) { Listener l{Listener::ACCEPT, 200, [] { return std::make_shared<Mute>(); }, 0}; switch (weighted({50, 20, 15, 15}, "addr.kind")) { case 1: l.kind = Listener::REFUSE; break; case 2: l.kind = Listener::UNREACH; break; case 3: l.kind = Listener::SILENT; l.delay = 0; break; default: any = true; } net_listen(ip, 99, l); } return any; };
	auto f = vmime::platform::getHandler()->getSocketFactory(); auto s = f->create(); u32 rounds = 2 + sized(8, "rounds"); if (chance(200, "itimer")) g_net.itimer = oneof<u64>({400000, 7000, 1000000}, "itimer.us");
	auto to = chance(700, "handler") ? to_factory(ToCfg{30000000, 0, false}) : nullptr; if (to) s = f->create(to->create());
	for (u32 i = 0; i < rounds; ++i) {
		bool any = listen(); nontrivial(); Out o = call("connect", [&] { s->connect("mail.example.com", 99); }); CHECK(!any || o.ok || !to, "connect.gave_up", "connect() failed although an address accepts: %s", o.what.c_str()); CHECK(any || !o.ok, "connect.impossible", "connect() succeeded although no address accepts"); CHECK(vfd_open_count() <= 1 && (!o.ok || vfd_open_count() == 1), "leak.fd", "after connect() number %u on one socket (%s) %zu descriptors are open:%s", i + 1, o.ok ? "ok" : o.type.c_str(), vfd_open_count(), vfd_list().c_str()); CHECK(o.ok == s->isConnected(), "connect.half", "connect() %s but isConnected() says %d", o.ok ? "succeeded" : "failed", int(!o.ok)); state(fnvs(fmt("%d %u", int(o.ok), n)));
		if (chance(500, "disconnect")) { call("disconnect", [&] { s->disconnect(); }); CHECK(vfd_open_count() == 0, "leak.fd", "descriptors open after disconnect():%s", vfd_list().c_str()); if (chance(300, "twice")) call("disconnect", [&] { s->disconnect(); }); }
		if (chance(200, "new")) { s = vmime::null; CHECK(vfd_open_count() == 0, "leak.fd", "descriptors open after the socket was destroyed:%s", vfd_list().c_str()); s = to ? f->create(to->create()) : f->create(); }
	}
	s = vmime::null; CHECK(vfd_open_count() == 0, "leak.fd", "descriptors open after the socket was destroyed:%s", vfd_list().c_str()); finish_checks();
}
// sessions that fail in every possible way, one after the other on the same object
SCENARIO(N04, sessions, 6) {
	auto dp = draw_drv(); Drv& d = *dp; draw_srv(d, true); d.srv.maxmsgs = 2; d.srv.maxlen = 1000; d.hostile = true; if (chance(200, "badcert")) d.srv.tls.cert = oneof<std::string>({"wronghost", "expired", "selfsigned", "otherca"}, "cert");
	d.serve(true); g_net.lat = std::min<u32>(g_net.lat, 2000); auto make = d.peer_factory(); u32 cuts = choose(4, "cuts"); for (u32 i = 0; i < cuts; ++i) { auto k = draw_cut(1 + int(choose(3, "kind"))); k.conn = int(i); g_net.cuts.push_back(k); } if (chance(400, "rej")) d.reject(1 + choose(3, "rejn"));
	app_init(); d.make(); d.svc()->setTimeoutHandlerFactory(to_factory(ToCfg{5000000, 0, false}));
	g_call_hook = [&](const std::string& nm, const Out& o) { CHECK(!dns_pending_on_stack(), "dns.dangling", "%s ended but a name-resolution request that lives in its stack frame is still running", nm.c_str()); (void) o; };
	u32 rounds = 2 + choose(6, "rounds");
	for (u32 r = 0; r < rounds; ++r) {
		DnsEntry e{{"192.0.2.1"}, 100, 0, false}; Listener l{Listener::ACCEPT, 200, make, 0};
		switch (weighted({50, 6, 6, 6, 6, 6, 6, 8}, "trouble")) { case 1: l.kind = Listener::REFUSE; break; case 2: l.kind = Listener::SILENT; break; case 3: l.kind = Listener::UNREACH; break; case 4: l.kind = Listener::ACCEPT_RESET; break; case 5: e.err = EAI_NONAME; break; case 6: e.never = true; break; case 7: vfd_limit(vfd_open_count()); count("fault.emfile"); break; }
		dns_add("mail.example.com", e); net_listen("192.0.2.1", d.port(), l); d.connect(); vfd_limit(1000000);
		u32 n = choose(4, "ops"); for (u32 i = 0; i < n && d.connected(); ++i) d.wild();
		switch (choose(4, "end")) { case 0: if (d.connected()) d.disconnect(); break; case 1: d.release(); break; case 2: d.release(); if (d.connected()) d.disconnect(); break; default: break; }
	}
	nontrivial(); g_call_hook = nullptr; d.release(); d.destroy(); CHECK(vfd_open_count() == 0, "leak.fd", "descriptors still open after the service was destroyed:%s", vfd_list().c_str()); finish_checks(); CHECK(dns_unfreed() <= dns_abandoned(), "leak.addrinfo", "%zu address lists were never freed", dns_unfreed());
}
