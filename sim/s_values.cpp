// W01: what the application gives is data, never protocol (POP3 and IMAP; SMTP is in s_smtp.cpp)
#include "values.hpp"
#include "drv.hpp"
#include "pop3.hpp"
#include "imap.hpp"
#include "vmime/net/imap/IMAPFolder.hpp"
#include "vmime/net/imap/IMAPSearchAttributes.hpp"
using namespace sim;
namespace vi = vmime::net::imap;
namespace sim {
std::string gen_value(Rng& r, int flags) {
	static const char* plain[] = {" ", "\"", "\\", "{3}", "{3+}", "*", "%", "(", ")", "]", "[", "~", "=?utf-8?q?x?=", ".", ",", "\t", "\x7f", "\x1b[1m", "NIL", "+", "<", ">", "'", ";", "=", "$", "\\r\\n", "OK", "-ERR", "A1 "};
	static const char* brk[] = {"\r\nXEVIL 1", "\nXEVIL 1", "\rXEVIL 1", "\r\na999 XEVIL", "\r\n.\r\nXEVIL 1", "\r\n", "\n", "\r", " {5}\r\nXEVIL"};
	static const char* wide[] = {"\xc3\xa9", "\xf0\x9f\x98\x80", "\xe4\xbe\x8b", "\xc2\xa0", "\xd0\xbf\xd1\x80"};
	std::string s = flags & V_TOKEN ? rnd_token(r, 1 + r.below(6)) : ""; u32 n = 1 + r.below(4);
	for (u32 i = 0; i < n; ++i) {
		std::string p = (flags & V_BREAK) && r.below(4) == 0 ? (r.below(8) == 0 ? std::string("\0XEVIL 1", 8) : std::string(brk[r.below(9)])) : (flags & V_WIDE) && r.below(4) == 0 ? wide[r.below(5)] : r.below(3) ? plain[r.below(30)] : rnd_token(r, 1 + r.below(20)).c_str();
		s += p; if (r.below(2)) s += rnd_token(r, 1 + r.below(4));
	}
	if (r.below(25) == 0) s += std::string(100 + r.below(400), 'l');
	return s;
}
bool breaks(const std::string& s) { return s.find_first_of(std::string("\r\n\0", 3)) != std::string::npos; }
void no_evil(const std::vector<std::pair<bool, std::string>>& wire) { for (auto& w : wire) { std::string l = upper(w.second); if (l.compare(0, 5, "XEVIL") == 0 || l.compare(0, 4, "A999") == 0) violate("value.injected", "a value given by the application reached the server as the command \"%s\"", esc(w.second, 100).c_str()); } }
}
SCENARIO(W01, login, 6) {
	bool imap = chance(500, "imap"); auto dp = imap ? drv_imap() : drv_pop(); Drv& d = *dp; d.srv.maxmsgs = 2; d.srv.maxlen = 500; d.exact = true; Rng r = subrng("values");
	int fl = V_TOKEN | V_BREAK | (imap ? 0 : V_WIDE); std::string user = chance(600, "user") ? gen_value(r, fl) : "jane", pass = chance(700, "pass") ? gen_value(r, fl) : "secret";
	d.cli.auth = true; d.cli.user = user; d.cli.pass = pass; d.cli.sasl = 0; d.cli.apop = chance(400, "apop"); d.cli.apop_fallback = 1; d.cli.tracer = chance(300, "tracer"); d.serve(false);
	if (g_pop) { auto& c = g_pop->cfg; c.user = user; c.pass = pass; c.greet_ok = true; c.apop = chance(600, "srv.apop"); c.apop_ok = c.user_ok = true; c.rej.clear(); c.plain_auth_ok = true; } else { auto& c = g_imap->cfg; c.user = user; c.pass = pass; c.greeting = "OK"; c.login_ok = true; c.plain_auth_ok = true; c.caps.erase("LOGINDISABLED"); c.rej.clear(); }
	app_init(); d.make(); d.svc()->setTimeoutHandlerFactory(to_factory(ToCfg{60000000, 0, false})); bool bad = breaks(user) || (breaks(pass) && !(g_pop && g_pop->cfg.apop && d.cli.apop)); u32 n = 1 + choose(2, "again"); nontrivial(); count(bad ? "value.unsendable" : "value.login");
	for (u32 i = 0; i < n; ++i) {
		int l0 = d.logins(); Out o = d.connect();
		if (o.ok) CHECK(!bad && d.logins() == l0 + 1, "value.login.accepted", "connect() succeeded with the user name \"%s\" and the password \"%s\" but the server accepted %d logins", esc(user).c_str(), esc(pass).c_str(), d.logins() - l0);
		else { CHECK(bad, "value.login.refused", "connect() failed with the user name \"%s\" and the password \"%s\", which the server would have accepted: %s %s", esc(user).c_str(), esc(pass).c_str(), o.type.c_str(), o.what.c_str()); CHECK(d.logins() == l0, "value.login.half", "connect() threw but the server accepted a login"); CHECK(!d.connected(), "value.login.half", "connect() threw but the service is connected"); }
		if (o.ok) { for (u32 k = 0; k < 2; ++k) d.op(false); d.release(); d.disconnect(); }
		advance(1000000);
	}
	std::vector<std::pair<bool, std::string>> w; for (auto& x : d.wire()) w.push_back({x.tls, x.line}); no_evil(w); d.destroy(); finish_checks();
}
namespace {
typedef std::vector<std::string> VPath;
vn::folder::path vpath(const VPath& p) { vn::folder::path q; for (auto& c : p) q.appendComponent(vn::folder::path::component(c, vmime::charsets::UTF_8)); return q; }
std::string vbox(const VPath& p) { std::string s; for (auto& c : p) s += (s.empty() ? "" : std::string(1, g_imap->cfg.delim)) + c; return s; }
}
SCENARIO(W01, imap, 8) {
	auto dp = drv_imap(); Drv& d = *dp; d.srv.maxmsgs = 4; d.srv.maxlen = 2000; d.exact = true; d.serve(false); g_imap->cfg.greeting = "OK"; g_imap->cfg.rej.clear(); g_imap->cfg.crowd = 0; app_init(); d.make(); d.svc()->setTimeoutHandlerFactory(to_factory(ToCfg{600000000, 0, false}));
	Out o = d.connect(); CHECK(o.ok, "imap.connect.failed", "connect() failed against a healthy server: %s %s", o.type.c_str(), o.what.c_str());
	auto st = vmime::dynamicCast<vn::store>(d.svc()); Rng r = subrng("values"); u32 n = 2 + sized(8, "ops"); std::vector<VPath> mine; shared_ptr<vn::folder> in;
	auto name = [&] { for (;;) { std::string s = gen_value(r, V_TOKEN | V_BREAK | V_WIDE), t; for (char c : s) if (c != g_imap->cfg.delim && c != '+' && c != 0) t += c; if (!t.empty() && upper(t) != "INBOX") return t; } };
	auto tree = [&] { std::set<std::string> t; for (auto& b : g_imap->boxes) t.insert(b->name); return t; };
	for (u32 i = 0; i < n; ++i) {
		auto before = tree();
		switch (weighted({40, 15, 15, 10, 40, 15}, "op")) {
			case 0: { VPath p; if (!mine.empty() && chance(300, "nest")) p = mine[choose(u32(mine.size()), "parent")]; p.push_back(name()); if (p.size() > 3 || before.count(vbox(p))) break; auto f = st->getFolder(vpath(p)); o = call("create \"" + esc(vbox(p)) + "\"", [&] { vn::folderAttributes a; f->create(a); }); nontrivial(); CHECK(o.ok, "value.create", "create() of \"%s\" failed: %s %s", esc(vbox(p)).c_str(), o.type.c_str(), o.what.c_str()); before.insert(vbox(p)); CHECK(g_imap->box(vbox(p)) != nullptr, "value.create.name", "create() of \"%s\" returned normally but the server has no such folder", esc(vbox(p)).c_str()); for (size_t k = 1; k < p.size(); ++k) before.insert(vbox(VPath(p.begin(), p.begin() + long(k)))); CHECK(tree() == before, "value.create.others", "create() of \"%s\" did something else as well", esc(vbox(p)).c_str()); mine.push_back(p); break; }
			case 1: { if (mine.empty()) break; VPath p = mine[choose(u32(mine.size()), "which")]; bool e = false; o = call("exists", [&] { e = st->getFolder(vpath(p))->exists(); }); CHECK(o.ok && e, "value.exists", "exists() of \"%s\" is %d: %s %s", esc(vbox(p)).c_str(), int(e), o.type.c_str(), o.what.c_str()); size_t c = 9, u = 9; o = call("status", [&] { st->getFolder(vpath(p))->status(c, u); }); CHECK(o.ok && c == 0, "value.status", "status() of \"%s\": %s %s", esc(vbox(p)).c_str(), o.type.c_str(), o.what.c_str()); break; }
			case 2: { if (mine.empty()) break; VPath p = mine[choose(u32(mine.size()), "which")]; VPath up(p.begin(), p.end() - 1); std::vector<shared_ptr<vn::folder>> v; o = call("getFolders", [&] { v = (up.empty() ? st->getRootFolder() : st->getFolder(vpath(up)))->getFolders(chance(500, "rec")); }); int hit = 0; for (auto& x : v) { VPath q; auto fp = x->getFullPath(); for (size_t k = 0; k < fp.getSize(); ++k) q.push_back(fp[k].getConvertedText(vmime::charsets::UTF_8)); if (q == p) ++hit; } CHECK(o.ok && hit == 1, "value.list", "getFolders() returned \"%s\" %d times: %s %s", esc(vbox(p)).c_str(), hit, o.type.c_str(), o.what.c_str()); break; }
			case 3: { if (mine.empty()) break; size_t k = choose(u32(mine.size()), "which"); VPath p = mine[k], q = p; q.back() = name(); bool kids = false; for (auto& b : before) if (b.compare(0, vbox(p).size() + 1, vbox(p) + g_imap->cfg.delim) == 0) kids = true; if (kids || before.count(vbox(q))) break; auto f = st->getFolder(vpath(p)); o = call("rename \"" + esc(vbox(p)) + "\" to \"" + esc(vbox(q)) + "\"", [&] { f->rename(vpath(q)); }); nontrivial(); CHECK(o.ok, "value.rename", "rename() of \"%s\" to \"%s\" failed: %s %s", esc(vbox(p)).c_str(), esc(vbox(q)).c_str(), o.type.c_str(), o.what.c_str()); before.erase(vbox(p)); before.insert(vbox(q)); CHECK(tree() == before, "value.rename.name", "rename() to \"%s\" did something else", esc(vbox(q)).c_str()); mine[k] = q; break; }
			case 4: {
				// searches: exactly the messages that carry the value
				if (!in) { in = st->getFolder(vn::folder::path("INBOX")); o = call("open", [&] { in->open(vn::folder::MODE_READ_ONLY); }); CHECK(o.ok, "imap.open.failed", "open() failed: %s %s", o.type.c_str(), o.what.c_str()); }
				typedef vi::IMAPSearchTokenFactory TF; std::string v = gen_value(r, V_TOKEN | V_BREAK); bool known = chance(400, "known"); if (known) v = oneof<std::string>({"a", "@", ".", "\"", " ", "example"}, "known.v"); u32 k = choose(6, "key"); vi::IMAPSearchAttributes sa; switch (k) { case 0: sa.add(TF::SUBJECT(v)); break; case 1: sa.add(TF::FROM(v)); break; case 2: sa.add(TF::BODY(v)); break; case 3: sa.add(TF::HEADER("Message-Id", v)); break; case 4: sa.add(TF::NOT(TF::TEXT(v))); break; default: sa.add(TF::OR(TF::TO(v), TF::CC(v))); }
				auto f = vmime::dynamicCast<vi::IMAPFolder>(in); size_t c0 = g_imap->cmds.size(); o = call("search \"" + esc(v) + "\"", [&] { f->getMessageNumbersMatchingSearchAttributes(sa); }); nontrivial(); CHECK(o.ok != breaks(v), "value.search", "a search for \"%s\" %s: %s %s", esc(v).c_str(), o.ok ? "returned normally" : "failed", o.type.c_str(), o.what.c_str()); if (!o.ok) CHECK(g_imap->cmds.size() == c0, "value.search.sent", "a search that cannot be sent sent something");
				break; }
			default: {
				// header names to fetch
				if (!in) { in = st->getFolder(vn::folder::path("INBOX")); o = call("open", [&] { in->open(vn::folder::MODE_READ_ONLY); }); CHECK(o.ok, "imap.open.failed", "open() failed: %s %s", o.type.c_str(), o.what.c_str()); }
				if (in->getMessageCount() == 0) break; std::string h = "X-" + rnd_token(r, 4); bool bad = chance(500, "bad"); if (bad) h += "\r\nXEVIL 1"; vn::fetchAttributes a; a.add(h); auto m = in->getMessage(1); o = call("fetch header \"" + esc(h) + "\"", [&] { in->fetchMessage(m, a); }); CHECK(o.ok != bad, "value.fetch", "fetching the header \"%s\" %s: %s %s", esc(h).c_str(), o.ok ? "returned normally" : "failed", o.type.c_str(), o.what.c_str()); break; }
		}
		CHECK(d.connected(), "value.connection", "the connection was lost over a value"); no_evil(g_imap->wire);
	}
	// the session still works
	o = call("noop", [&] { st->noop(); }); CHECK(o.ok, "value.session", "noop() failed at the end: %s %s", o.type.c_str(), o.what.c_str()); if (in) { o = call("close", [&] { in->close(false); }); CHECK(o.ok, "value.session", "close() failed at the end: %s", o.what.c_str()); in = vmime::null; }
	st = vmime::null; d.destroy(); no_evil(g_imap->wire); finish_checks();
}
