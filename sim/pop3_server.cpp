#include "pop3.hpp"
#include "vmime/security/digest/messageDigestFactory.hpp"
namespace sim {
PopWorld* g_pop;
std::string stuff(const std::string& d) {
	std::string s = d; if (s.size() < 2 || s.compare(s.size() - 2, 2, "\r\n") != 0) s += "\r\n";
	if (d.empty()) s.clear();
	std::string o; bool bol = true;
	for (size_t i = 0; i < s.size(); ++i) { if (bol && s[i] == '.') o += '.'; o += s[i]; bol = s[i] == '\n' && i > 0 && s[i - 1] == '\r'; }
	return o;
}
const PopRej* PopSess::rejection(const std::string& cmd) {
	int n = g_pop->seen[cmd]++;
	for (auto& r : g_pop->cfg.rej) if (r.cmd == cmd && (r.nth == n || (r.sticky && n >= r.nth))) {
		++g_pop->rejections; nontrivial();
		if (r.delay) { count("fault.server.late_reply"); g_pop->any_late = true; late_once = r.delay; return nullptr; }
		count(r.drop ? "fault.server.drop" : "fault.server.reject"); tr("server: %s #%d: %s", cmd.c_str(), n, r.drop ? "drops the connection" : "refuses");
		return &r;
	}
	return nullptr;
}
void PopSess::ok(const std::string& t, std::function<void()> then) { say(g_pop->cfg.blank_ok || t.empty() ? "+OK" : "+OK " + t, then); }
void PopSess::onConnect() { proc_min = g_pop->cfg.proc; proc_jit = g_pop->cfg.proc_jit; ++g_pop->sessions; info = g_pop->infos.size(); g_pop->infos.push_back(PopSessInfo{conn()->index, {}, {}, false, false}); if (g_pop->cfg.implicit_tls) { start_tls(g_pop->cfg.tls); return; } greet(); }
void PopSess::onTls() { if (g_pop->cfg.implicit_tls && banner.empty()) greet(); }
void PopSess::greet() {
	auto r = rejection("GREETING"); if (r && r->drop) { banner = "x"; reply("", [this] { hangup(); }); return; }
	banner = g_pop->cfg.apop ? "<1896.697170952@dbc.mtview.ca.us>" : "x";
	std::string g = r ? r->text : g_pop->cfg.greeting; if (g_pop->cfg.apop && !r) g += " " + banner;
	bool good = g_pop->cfg.greet_ok && !r;
	say(g, [this, good] { g_pop->greeted = true; if (!good) hangup(); });
}
void PopSess::login(std::function<void()> then) { authed = true; ++g_pop->logins; msgs = g_pop->drop; del.clear(); st = TRANS; count("pop3.logins"); ok(fmt("maildrop has %zu messages", msgs.size()), then); }
void PopSess::sasl_step(const std::string& in) {
	std::string o; int r = -1; bool have = true; std::string d;
	if (in == "*") { st = AUTHZ; say("-ERR cancelled"); return; }
	d = sasl_line(in); r = sasl->step(d, have, o);
	if (r == 1) { ++g_sasl_accepted; login(); return; }
	if (r < 0) { ++g_sasl_refused; st = AUTHZ; say("-ERR authentication failed"); return; }
	auto& sc = g_pop->cfg.sasl; if (sc.bad_challenge == sasl->steps - 1) { nontrivial(); count("fault.server.bad_challenge"); say("+ " + (sc.bad_raw ? sc.bad_text : b64(sc.bad_text))); return; }
	say("+ " + b64(o));
}
bool PopSess::consume() { std::string l; size_t e = inbuf.find('\n'); if (e == std::string::npos) { if (inbuf.size() > 100000) violate("pop3.flood", "endless command line"); return false; } bool crlf = e > 0 && inbuf[e - 1] == '\r'; take_line(l); if (!crlf) violate("pop3.crlf", "command not ended by CRLF: %s", esc(l).c_str()); return line(l); }
bool PopSess::line(const std::string& l) {
	tr("C%d: %s", conn()->index, esc(l, 200).c_str()); auto& c = g_pop->cfg;
	g_pop->log.push_back(l); g_pop->wire.push_back({tls_ready, l});
	if (st == SASL) { sasl_step(l); return true; }
	std::string cmd = upper(l.substr(0, l.find(' '))), rest = l.find(' ') == std::string::npos ? "" : l.substr(l.find(' ') + 1);
	g_pop->cmds.push_back(cmd); if (g_pop->on_cmd) g_pop->on_cmd(l);
	state(fnvs(cmd, u64(st) * 3 + del.size() * 16 + msgs.size() * 1024 + tls));
	auto r = rejection(cmd); if (r && r->drop) { reply("", [this] { hangup(); }); return true; }
	auto num = [&](const std::string& s) -> size_t { if (s.empty() || s.find_first_not_of("0123456789") != std::string::npos) violate("pop3.syntax", "malformed number in \"%s\"", esc(l).c_str()); return strtoull(s.c_str(), nullptr, 10); };
	auto valid = [&](size_t n) { return n >= 1 && n <= msgs.size() && !del.count(n); };
	if (cmd == "QUIT") {
		++g_pop->quits; auto& in = g_pop->infos[info]; in.quit = true; in.deleted = del;
		if (r) { in.quit_refused = true; say(r->text, [this] { hangup(); }); return true; }
		if (st == TRANS) { in.committed = del; std::set<std::string> u; for (size_t n : del) { u.insert(msgs[n - 1].uid); g_pop->removed.push_back(msgs[n - 1].uid); } std::vector<PopMsg> v; for (auto& m : g_pop->drop) if (!u.count(m.uid)) v.push_back(m); g_pop->drop = v; }
		ok("bye", [this] { hangup(); }); return true;
	}
	if (r) { say(r->text); return true; }
	if (cmd == "CAPA") { if (!c.capa_ok) { say("-ERR unknown command"); return true; } std::string s = "+OK capability list\r\n"; for (auto& k : tls ? c.capa_tls : c.capa) s += k + "\r\n"; if (!mechs_of(c, tls).empty()) { s += "SASL"; for (auto& m : mechs_of(c, tls)) s += " " + m; s += "\r\n"; } reply(s + ".\r\n"); return true; }
	if (cmd == "NOOP") { if (st != TRANS) { say("-ERR not now"); return true; } ok(c.chatty ? "nothing happened" : ""); return true; }
	if (st == AUTHZ) {
		if (cmd == "STLS") {
			if (tls || !c.stls_ok) { say("-ERR no TLS"); return true; }
			reply("+OK begin TLS\r\n" + c.inject_after_stls, [this] { if (!inbuf.empty()) violate("pop3.stls.cleartext", "the client sent \"%s\" in the clear after STLS", esc(inbuf).c_str()); start_tls(g_pop->cfg.tls); }); return true;
		}
		if (cmd == "USER") { if (!c.user_ok) { say("-ERR USER disabled"); return true; } name = rest; ok("send PASS"); return true; }
		if (cmd == "PASS") { if (name.empty()) { say("-ERR USER first"); return true; } if (name == c.user && rest == c.pass && (tls_ready || c.plain_auth_ok)) { login(); return true; } name.clear(); say("-ERR invalid password"); return true; }
		if (cmd == "APOP") {
			auto md = vmime::security::digest::messageDigestFactory::getInstance()->create("md5"); md->update(banner + c.pass); md->finalize();
			if (!c.apop) violate("pop3.apop", "APOP although the greeting carried no time stamp");
			if (c.apop_ok && rest == c.user + " " + md->getHexDigest()) { login(); return true; } say("-ERR permission denied"); return true;
		}
		if (cmd == "AUTH") {
			std::string mech = rest.substr(0, rest.find(' ')); bool hi = rest.find(' ') != std::string::npos; std::string init = hi ? rest.substr(rest.find(' ') + 1) : "";
			auto& ms = mechs_of(c, tls); if (std::find(ms.begin(), ms.end(), mech) == ms.end()) violate("pop3.auth.mech", "the client used mechanism %s that was not offered", esc(mech).c_str());
			sasl = SaslSrv::create(mech, c.sasl, "pop3"); if (!sasl) { say("-ERR mechanism not available"); return true; }
			st = SASL; if (hi) { sasl_step(init == "=" ? "" : init); return true; }
			std::string o; int k = sasl->step("", false, o); if (k == 0) { if (c.sasl.bad_challenge == 0) { nontrivial(); count("fault.server.bad_challenge"); say("+ " + (c.sasl.bad_raw ? c.sasl.bad_text : b64(c.sasl.bad_text))); return true; } say("+ " + b64(o)); return true; }
			st = AUTHZ; say("-ERR failed"); return true;
		}
		violate("pop3.state", "\"%s\" before the server accepted a login", esc(l).c_str());
	}
	if (cmd == "STAT") { u64 sz = 0; size_t n = 0; for (size_t i = 1; i <= msgs.size(); ++i) if (!del.count(i)) { ++n; sz += msgs[i - 1].data.size(); } say(fmt("+OK %zu %llu", n, (unsigned long long) sz) + (c.chatty ? " octets" : "")); return true; }
	if (cmd == "LIST" || cmd == "UIDL") {
		auto val = [&](size_t n) { return cmd == "LIST" ? fmt("%zu", msgs[n - 1].data.size()) : msgs[n - 1].uid; };
		if (!rest.empty()) { size_t n = num(rest); if (!valid(n)) { say("-ERR no such message"); return true; } say(fmt("+OK %zu ", n) + val(n)); return true; }
		std::string s = c.blank_ok ? "+OK\r\n" : "+OK listing follows\r\n"; for (size_t i = 1; i <= msgs.size(); ++i) if (!del.count(i)) s += fmt("%zu ", i) + val(i) + "\r\n";
		reply(s + ".\r\n"); return true;
	}
	if (cmd == "RETR" || cmd == "TOP") {
		auto a = split(rest, ' '); size_t n = num(a[0]); if (!valid(n)) { say("-ERR no such message"); return true; }
		std::string d = msgs[n - 1].data; if (cmd == "TOP") { if (a.size() != 2) violate("pop3.syntax", "malformed command \"%s\"", esc(l).c_str()); size_t e = d.find("\r\n\r\n"); size_t want = num(a[1]); if (e != std::string::npos) { e += 4; while (want-- && e < d.size()) { size_t k = d.find("\r\n", e); e = k == std::string::npos ? d.size() : k + 2; } d = d.substr(0, e); } }
		std::string s = (c.blank_ok ? "+OK\r\n" : c.chatty ? fmt("+OK %zu octets\r\n", d.size()) : "+OK message follows\r\n") + stuff(d); reply(s + ".\r\n"); count("pop3.retrievals"); return true;
	}
	if (cmd == "DELE") { size_t n = num(rest); if (!valid(n)) { say("-ERR no such message"); return true; } del.insert(n); g_pop->infos[info].deleted = del; ok("deleted"); return true; }
	if (cmd == "RSET") { del.clear(); g_pop->infos[info].deleted = del; ok("reset"); return true; }
	violate("pop3.unknown_command", "the server read \"%s\" in the transaction state", esc(l).c_str());
}
PopCfg draw_pop() {
	PopCfg c; c.chatty = chance(300, "srv.chatty"); c.blank_ok = chance(150, "srv.blankok");
	c.proc = oneof<u64>({10, 1, 500, 200000}, "srv.proc"); if (chance(300, "srv.jit")) c.proc_jit = oneof<u64>({50, 5000}, "srv.procjit");
	return c;
}
void pop_listen(const std::string& ip, int port) { Listener L; L.make = [] { return std::make_shared<PopSess>(); }; net_listen(ip, port, L); }
}
