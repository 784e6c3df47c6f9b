#include "smtp.hpp"
namespace sim {
SmtpWorld* g_smtp;

std::string SmtpSess::refusal(const SmtpRej& r, const std::string& text) {
	std::string s = reply_text(r.code, text); if (!r.mixed) return s;
	count("fault.server.mixed_codes"); std::string nl = g_smtp->cfg.bare_lf ? "\n" : "\r\n"; return "250-so far so good" + nl + s;
}
std::string SmtpSess::reply_text(int code, const std::string& text) {
	auto& c = g_smtp->cfg; std::string nl = c.bare_lf ? "\n" : "\r\n"; std::string enh = c.enhanced && code >= 200 && hello ? fmt("%d.0.0 ", code / 100) : "";
	std::string s;
	if (c.multiline && code != 334 && code != 354) s += fmt("%d-%smore to come", code, enh.c_str()) + nl + fmt("%d-", code) + nl;
	return s + fmt("%d %s%s", code, enh.c_str(), text.c_str()) + nl;
}
std::string smtp_canon(std::string l, std::string d) {
	static const char* idn[][2] = {{"b\xc3\xbc" "cher.example", "xn--bcher-kva.example"}, {"\xe4\xbe\x8b\xe3\x81\x88.example", "xn--r8jz45g.example"}};
	for (auto& x : idn) if (d == x[0]) d = x[1];
	return l + "@" + d;
}
namespace {
std::string unword(const std::string& l) {
	// RFC 2047 words as a client without SMTPUTF8 writes them
	std::string out; size_t i = 0; bool last = false;
	while (i < l.size()) {
		if (last && l[i] == ' ' && l.compare(i + 1, 2, "=?") == 0) { ++i; continue; }
		size_t q1, q2, e; if (l.compare(i, 2, "=?") || (q1 = l.find('?', i + 2)) == std::string::npos || (q2 = l.find('?', q1 + 1)) == std::string::npos || (e = l.find("?=", q2 + 1)) == std::string::npos) { out += l[i++]; last = false; continue; }
		std::string enc = l.substr(q1 + 1, q2 - q1 - 1), b = l.substr(q2 + 1, e - q2 - 1); i = e + 2; last = true;
		if (enc == "B" || enc == "b") { u32 acc = 0; int n = 0; for (char c : b) { static const std::string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; size_t v = A.find(c); if (v == std::string::npos) break; acc = acc << 6 | u32(v); n += 6; if (n >= 8) { n -= 8; out += char(acc >> n & 255); } } }
		else for (size_t k = 0; k < b.size(); ++k) { if (b[k] == '_') out += ' '; else if (b[k] == '=' && k + 2 < b.size()) { out += char(strtoul(b.substr(k + 1, 2).c_str(), nullptr, 16)); k += 2; } else out += b[k]; }
	}
	return out;
}
}
void SmtpSess::say(int code, const std::string& text, std::function<void()> then) { reply(reply_text(code, text), then); }
void SmtpSess::onConnect() {
	proc_min = g_smtp->cfg.proc; proc_jit = g_smtp->cfg.proc_jit; ++g_smtp->sessions;
	if (g_smtp->cfg.implicit_tls) { start_tls(g_smtp->cfg.tls); return; }
	greet();
}
void SmtpSess::greet() {
	busy_sync = true;
	if (auto r = rejection("GREETING")) { if (r->drop) { reply("", [this] { hangup(); }); return; } if (!r->delay) { reply(reply_text(r->code, "not now"), [this] { hangup(); }); return; } }
	auto& c = g_smtp->cfg;
	reply(c.greeting, [this] { g_smtp->greeted = true; if (g_smtp->cfg.greet_code != 220) hangup(); });
}
void SmtpSess::onTls() { if (g_smtp->cfg.implicit_tls && !hello && rxtotal == 0) greet(); }
void SmtpSess::onFin() { if (st == DATA || st == BDAT) { ++g_smtp->lost_mid_data; tr("server: connection lost inside message data; the data is discarded"); } closing = true; }
void SmtpSess::got(const std::string& s) {
	if (busy && (busy_sync || !ext.count("PIPELINING")) && early.size() < 1000) early.push_back(rxtotal);
	rxtotal += s.size();
}
const SmtpRej* SmtpSess::rejection(const std::string& cmd) {
	int n = g_smtp->seen[cmd]++;
	for (auto& r : g_smtp->cfg.rej) if (r.cmd == cmd && (r.nth == n || (r.sticky && n >= r.nth))) {
		++g_smtp->rejections; nontrivial();
		if (r.delay) { count("fault.server.late_reply"); g_smtp->any_late = true; late_once = r.delay; } else if (r.drop) count("fault.server.drop"); else count("fault.server.reject");
		tr("server: %s #%d: %s", cmd.c_str(), n, r.delay ? "late reply" : r.drop ? "drops the connection" : fmt("rejects with %d", r.code).c_str());
		return &r;
	}
	return nullptr;
}
void SmtpSess::finish_data() {
	// the whole message has arrived
	auto r = rejection("FINAL"); st = CMD; busy_sync = false;
	if (r && r->drop) { reply("", [this] { hangup(); }); return; }
	if (r && !r->delay) { t = SmtpTxn(); mail_ok = mail_seen = bdat_open = false; bool bye = r->code == 421; reply(refusal(*r, "message refused"), bye ? std::function<void()>([this] { hangup(); }) : nullptr); return; }
	if (data_bad || t.rcpts.empty()) { data_bad = false; t = SmtpTxn(); mail_ok = mail_seen = bdat_open = false; say(554, "no valid recipients"); return; }
	t.conn = conn()->index; g_smtp->accepted.push_back(t); size_t i = g_smtp->accepted.size() - 1; count("smtp.accepted");
	tr("server: accepts message from <%s> to %zu recipients, %zu bytes", t.from.c_str(), t.rcpts.size(), t.data.size());
	t = SmtpTxn(); mail_ok = mail_seen = bdat_open = false;
	say(250, "queued", [i] { g_smtp->accepted[i].acked = true; });
}
bool SmtpSess::consume() {
	if (st == BDAT) {
		size_t k = size_t(std::min<u64>(bdat_left, inbuf.size()));
		if (k) { if (!bdat_bad) t.data += inbuf.substr(0, k); inbuf.erase(0, k); rxcons += k; bdat_left -= k; }
		if (bdat_left) return false;
		if (bdat_bad) { st = CMD; busy_sync = false; say(503, "no transaction"); return true; }
		if (bdat_last) { finish_data(); return true; }
		auto r = rejection("BDAT"); st = CMD; busy_sync = false;
		if (r && r->drop) { reply("", [this] { hangup(); }); return true; }
		if (r && !r->delay) {
			if (r->forget) { t.forgiven = true; count("fault.server.forgetful"); reply(refusal(*r, "chunk refused")); return true; }
			t = SmtpTxn(); mail_ok = mail_seen = false; bdat_open = false; reply(refusal(*r, "chunk refused")); return true;
		}
		say(250, "chunk ok"); return true;
	}
	u64 start = rxcons; size_t before = inbuf.size(); std::string raw = inbuf, l;
	size_t e = inbuf.find('\n');
	if (e == std::string::npos) { if (inbuf.size() > 4000000) violate("smtp.flood", "the client sent %zu bytes without a line end", inbuf.size()); return false; }
	if (st == DATA) {
		// only CRLF ends a line of message data
		size_t p = inbuf.find("\r\n"); if (p == std::string::npos) return false;
		l = inbuf.substr(0, p); inbuf.erase(0, p + 2); rxcons += before - inbuf.size();
		if (l == ".") { finish_data(); return true; }
		if (!l.empty() && l[0] == '.') l.erase(0, 1);
		t.data += l + "\r\n"; return true;
	}
	bool crlf = e > 0 && inbuf[e - 1] == '\r';
	take_line(l); rxcons += before - inbuf.size();
	if (st == AUTH) { g_smtp->log.push_back(l); g_smtp->wire.push_back({tls_ready, l}); auth_reply(this, l); return true; }
	if (!crlf) violate("smtp.crlf", "command line not ended by CRLF: %s", esc(l).c_str());
	return line(l, start);
}
bool SmtpSess::line(const std::string& l, u64 start) {
	tr("C%d: %s", conn()->index, esc(l, 200).c_str());
	g_smtp->log.push_back(l); g_smtp->wire.push_back({tls_ready, l});
	std::string cmd = upper(l.substr(0, l.find(' '))), rest = l.find(' ') == std::string::npos ? "" : l.substr(l.find(' ') + 1);
	cmdname = cmd; g_smtp->cmds.push_back(cmd); if (g_smtp->on_cmd) g_smtp->on_cmd(l);
	state(fnvs(cmd, u64(mail_ok) * 7 + t.rcpts.size() * 64 + hello + 2 * esmtp + 4 * tls + 1024 * u64(early.size() > 0)));
	for (u64 p : early) if (p >= start && p < rxcons && cmd != "QUIT" && l != "*")
		violate("smtp.pipelining", "the client sent \"%s\" before the reply to its previous command although %s", esc(l).c_str(), busy_sync || ext.count("PIPELINING") ? "that command must be the last of a group" : "PIPELINING was not offered");
	early.clear();
	busy_sync = cmd == "EHLO" || cmd == "HELO" || cmd == "DATA" || cmd == "STARTTLS" || cmd == "AUTH" || cmd == "QUIT" || cmd == "NOOP";
	auto use = [&](const char* e, const char* what) { if (!ext.count(e)) violate("smtp.ext", "the client used %s although %s is not in the server's current feature list: %s", what, e, esc(l).c_str()); };
	if (cmd == "QUIT") { ++g_smtp->quits; say(221, "bye", [this] { hangup(); }); return true; }
	if (cmd == "EHLO" || cmd == "HELO") {
		if (rest.empty()) violate("smtp.syntax", "%s without a name", cmd.c_str());
		auto r = rejection(cmd); if (r && r->drop) { reply("", [this] { hangup(); }); return true; }
		if (r && !r->delay) { say(r->code, "no"); return true; }
		t = SmtpTxn(); mail_ok = mail_seen = false;
		if (cmd == "HELO") { if (!g_smtp->cfg.helo_ok) { say(502, "no"); return true; } hello = true; esmtp = false; ext.clear(); ++g_smtp->helo_sessions; say(250, "mail.example.com"); return true; }
		if (!g_smtp->cfg.ehlo_ok) { say(502, "command not implemented"); return true; }
		auto off = tls ? g_smtp->cfg.ext_tls : g_smtp->cfg.ext; auto& c = g_smtp->cfg; std::string nl = c.bare_lf ? "\n" : "\r\n";
		std::vector<std::string> lines = {"mail.example.com hello"};
		for (auto& x : off) { std::string k = c.lowercase ? lower(x) : x; if (x == "SIZE") k += c.size_limit ? fmt(" %llu", (unsigned long long) c.size_limit) : ""; if (x == "AUTH") for (auto& m : mechs_of(c, tls)) k += " " + m; lines.push_back(k); }
		std::string s; for (size_t i = 0; i < lines.size(); ++i) s += (i + 1 < lines.size() ? "250-" : "250 ") + lines[i] + nl;
		reply(s, [this, off] { hello = true; esmtp = true; ext = off; });
		return true;
	}
	if (!hello && cmd != "NOOP" && cmd != "RSET" && cmd != "STARTTLS") violate("smtp.nohello", "%s before the server accepted EHLO or HELO", cmd.c_str());
	if (cmd == "NOOP") { auto r = rejection(cmd); if (r && r->drop) { reply("", [this] { hangup(); }); return true; } if (r && !r->delay) say(r->code, "no"); else say(250, "ok"); return true; }
	if (cmd == "RSET") { auto r = rejection(cmd); if (r && r->drop) { reply("", [this] { hangup(); }); return true; } if (r && !r->delay) { say(r->code, "no"); return true; } t = SmtpTxn(); mail_ok = mail_seen = bdat_open = false; say(250, "reset"); return true; }
	if (cmd == "STARTTLS") {
		auto r = rejection(cmd);
		if (tls) { say(503, "already"); return true; }
		if (!g_smtp->cfg.starttls_ok || (r && !r->delay && !r->drop)) { say(r ? r->code : 454, "TLS not available"); return true; }
		if (r && r->drop) { reply("", [this] { hangup(); }); return true; }
		std::string s = reply_text(220, "go ahead") + g_smtp->cfg.inject_after_starttls;
		reply(s, [this] { if (!inbuf.empty()) violate("smtp.starttls.cleartext", "the client sent \"%s\" in the clear after STARTTLS", esc(inbuf).c_str()); hello = false; esmtp = false; authed = false; ext.clear(); t = SmtpTxn(); mail_ok = false; start_tls(g_smtp->cfg.tls); });
		return true;
	}
	if (cmd == "AUTH") {
		use("AUTH", "AUTH"); size_t sp = rest.find(' '); std::string mech = upper(rest.substr(0, sp)); bool hi = sp != std::string::npos; std::string init = hi ? rest.substr(sp + 1) : "";
		auto& ms = mechs_of(g_smtp->cfg, tls); if (std::find(ms.begin(), ms.end(), mech) == ms.end()) violate("smtp.auth.mech", "the client used mechanism %s that was not offered", esc(mech).c_str());
		if (authed) { say(503, "already authenticated"); return true; }
		{ auto r = rejection(cmd); if (r && r->drop) { reply("", [this] { hangup(); }); return true; } if (r && !r->delay) { say(r->code, "no"); return true; } }
		auth_begin(this, mech, init, hi); return true;
	}
	auto addr = [&](std::string& lo, std::string& dom, bool& quoted, std::vector<std::string>& params) {
		// <local@domain>, the local part possibly quoted, then parameters
		size_t i = rest.find(':') + 1; if (i >= rest.size() || rest[i] != '<') return false; ++i; quoted = i < rest.size() && rest[i] == '"';
		if (quoted) { for (++i; i < rest.size() && rest[i] != '"'; ++i) { if (rest[i] == '\\' && ++i >= rest.size()) return false; lo += rest[i]; } if (i >= rest.size()) return false; ++i; }
		else for (; i < rest.size() && rest[i] != '@'; ++i) { unsigned char c = (unsigned char) rest[i]; if (c <= 32 || strchr("()<>[]:;,\\\"", c)) return false; lo += char(c); }
		if (i >= rest.size() || rest[i] != '@') return false;
		for (++i; i < rest.size() && rest[i] != '>'; ++i) { unsigned char c = (unsigned char) rest[i]; if (c <= 32 || c == 127 || c == 60) return false; dom += char(c); }
		if (i >= rest.size()) return false; std::string p = rest.substr(i + 1); if (!p.empty() && p[0] != ' ') return false;
		for (auto& x : split(p, ' ')) if (!x.empty()) params.push_back(x); return true;
	};
	if (cmd == "MAIL" || cmd == "RCPT") {
		std::string lo, dom; std::vector<std::string> ps; bool quoted = false;
		if (upper(rest).find(cmd == "MAIL" ? "FROM:" : "TO:") != 0 || !addr(lo, dom, quoted, ps)) violate("smtp.syntax", "malformed command \"%s\"", esc(l).c_str());
		if (!esmtp && !ps.empty()) violate("smtp.ext", "parameters on \"%s\" in a HELO session", esc(l).c_str());
		u64 sz = 0; bool utf = false; std::string dsn;
		for (auto& p : ps) { std::string k = upper(p.substr(0, p.find('='))), v = p.find('=') == std::string::npos ? "" : p.substr(p.find('=') + 1);
			if (k == "SIZE" && cmd == "MAIL") { use("SIZE", "SIZE="); sz = strtoull(v.c_str(), nullptr, 10); } else if (k == "SMTPUTF8" && cmd == "MAIL") { use("SMTPUTF8", "SMTPUTF8"); utf = true; }
			else if (k == "BODY" && cmd == "MAIL") use("8BITMIME", "BODY="); else if (k == "NOTIFY" || k == "ORCPT" || k == "RET" || k == "ENVID") { use("DSN", "DSN parameters"); dsn += " " + p; } else violate("smtp.ext", "unknown parameter in \"%s\"", esc(l).c_str()); }
		if (cmd == "MAIL") mail_utf = utf; bool i18n = mail_utf, eight = false; for (char ch : l) if (ch & 0x80) eight = true;
		if (eight && !i18n) violate("smtp.ext", "the client sent \"%s\" with unencoded non-ASCII characters without having announced SMTPUTF8", esc(l).c_str());
		std::string a = smtp_canon(quoted ? lo : unword(lo), dom);
		auto r = rejection(cmd); if (r && r->drop) { reply("", [this] { hangup(); }); return true; }
		if (r && !r->delay) { bool bye = r->code == 421; reply(refusal(*r, "refused"), bye ? std::function<void()>([this] { hangup(); }) : nullptr); return true; }
		if (cmd == "MAIL") {
			if (mail_ok) { say(503, "nested MAIL command"); return true; }
			if (g_smtp->cfg.size_enforced && g_smtp->cfg.size_limit && sz > g_smtp->cfg.size_limit) { ++g_smtp->rejections; count("fault.server.reject"); nontrivial(); say(552, "message too big"); return true; }
			t = SmtpTxn(); t.from = a; t.mail_dsn = dsn; t.size_param = sz; t.utf8 = utf; mail_ok = mail_seen = true; say(250, "sender ok");
		} else {
			if (!mail_ok) { say(503, "need MAIL"); return true; }
			if (bdat_open) { say(503, "in the middle of a message"); return true; }
			t.rcpts.push_back(a); t.rcpt_dsn.push_back(dsn); say(chance(100, "srv.251") ? 251 : 250, "recipient ok");
		}
		return true;
	}
	if (cmd == "DATA") {
		auto r = rejection(cmd); if (r && r->drop) { reply("", [this] { hangup(); }); return true; }
		if (r && !r->delay) { bool bye = r->code == 421; reply(refusal(*r, "no"), bye ? std::function<void()>([this] { hangup(); }) : nullptr); return true; }
		if (!mail_ok) { say(503, "need MAIL"); return true; }
		if (bdat_open) violate("smtp.mixed", "DATA inside a BDAT transaction");
		if (t.rcpts.empty()) { say(554, "no valid recipients"); return true; }
		say(354, "send it", [this] { st = DATA; t.data.clear(); }); return true;
	}
	if (cmd == "BDAT") {
		use("CHUNKING", "BDAT"); size_t sp = rest.find(' '); std::string n = rest.substr(0, sp), last = sp == std::string::npos ? "" : upper(rest.substr(sp + 1));
		if (n.empty() || n.find_first_not_of("0123456789") != std::string::npos || (last != "" && last != "LAST")) violate("smtp.syntax", "malformed command \"%s\"", esc(l).c_str());
		bdat_left = strtoull(n.c_str(), nullptr, 10); bdat_last = last == "LAST"; bdat_bad = !mail_ok || t.rcpts.empty(); if (!bdat_bad) { t.bdat = true; bdat_open = true; } st = BDAT; count("smtp.bdat"); return true;
	}
	violate("smtp.unknown_command", "the server read \"%s\" where a command was expected: message content or stray bytes arrived as a command", esc(l).c_str());
}
SmtpCfg draw_smtp() {
	SmtpCfg c;
	for (const char* e : {"PIPELINING", "CHUNKING", "SIZE", "8BITMIME", "SMTPUTF8", "DSN", "ENHANCEDSTATUSCODES"}) if (chance(500, e)) c.ext.insert(e);
	c.ext_tls = c.ext;
	c.multiline = chance(250, "srv.multiline"); c.lowercase = chance(100, "srv.lowercase"); c.enhanced = chance(300, "srv.enhanced"); c.bare_lf = chance(80, "srv.barelf");
	if (chance(500, "srv.sizelimit")) c.size_limit = 10000000;
	c.proc = oneof<u64>({10, 1, 500, 200000}, "srv.proc"); if (chance(300, "srv.jit")) c.proc_jit = oneof<u64>({50, 5000}, "srv.procjit");
	return c;
}
void smtp_listen(const std::string& ip, int port) { Listener L; L.make = [] { return std::make_shared<SmtpSess>(); }; net_listen(ip, port, L); }
}
