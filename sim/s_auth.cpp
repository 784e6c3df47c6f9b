// A01: authentication, for all three protocols
#include "drv.hpp"
#include "smtp.hpp"
#include "pop3.hpp"
#include "imap.hpp"
#include <vmime/security/sasl/XOAuth2SASLAuthenticator.hpp>
#include <vmime/security/sasl/defaultSASLAuthenticator.hpp>
#include <vmime/security/defaultAuthenticator.hpp>
#include <vmime/security/sasl/SASLMechanismFactory.hpp>
#include <vmime/security/sasl/XOAuth2SASLMechanism.hpp>
#include <gsasl.h>
using namespace sim;
namespace vs = vmime::security; namespace vss = vmime::security::sasl;
namespace {
struct AuthPlan { int order = 0; std::string only; bool nopass = false, nouser = false; std::vector<std::string> acc; int asked = 0, npass = 0; std::function<void()> on_pass; };
template <class B> struct RecAuth : B {
	AuthPlan* p; template <class... A> RecAuth(AuthPlan* x, A... a) : B(a...), p(x) {}
	const std::vector<vmime::shared_ptr<vss::SASLMechanism>> getAcceptableMechanisms(const std::vector<vmime::shared_ptr<vss::SASLMechanism>>& av, const vmime::shared_ptr<vss::SASLMechanism>& sug) const override {
		auto v = B::getAcceptableMechanisms(av, sug); if (p->order == 1) std::reverse(v.begin(), v.end()); if (p->order == 2) v = av; if (!p->only.empty()) { auto w = v; v.clear(); for (auto& m : w) if (m->getName() == p->only) v.push_back(m); }
		++p->asked; p->acc.clear(); for (auto& m : v) p->acc.push_back(m->getName()); return v; }
	const vmime::string getUsername() const override { if (p->nouser) throw vmime::exceptions::no_auth_information(); return B::getUsername(); }
	const vmime::string getPassword() const override { ++p->npass; if (p->on_pass) p->on_pass(); if (p->nopass) throw vmime::exceptions::no_auth_information(); return B::getPassword(); }
};
bool g_xo;
bool supported(const std::string& m) { static Gsasl* g; if (!g) gsasl_init(&g); return (g_xo && upper(m) == "XOAUTH2") || gsasl_client_support_p(g, upper(m).c_str()); }
struct Attempt { std::string what; bool tls; };
std::vector<Attempt> attempts(Drv& d) {
	std::vector<Attempt> v; for (auto& w : d.wire()) { auto a = split(w.line, ' '); if (d.proto == "imap" && !a.empty()) a.erase(a.begin()); if (a.empty()) continue; std::string c = upper(a[0]); if ((c == "AUTH" || c == "AUTHENTICATE") && a.size() > 1) v.push_back({a[1], w.tls}); else if (c == "LOGIN" || c == "APOP" || c == "USER") v.push_back({"!" + c, w.tls}); }
	return v; }
}
SCENARIO(A01, auth, 10) {
	auto dp = draw_drv(); Drv& d = *dp; switch (weighted({60, 20, 20}, "srv.tls")) { case 1: d.srv.implicit_tls = true; break; case 2: d.srv.starttls = true; d.cli.tls = true; d.cli.required = chance(500, "cli.req"); break; }
	d.srv.maxmsgs = 2; d.srv.maxlen = 1500; auto& S = d.srv.sasl;
	S.user = oneof<std::string>({"jane", "jane@example.com", "ja\"ne\\x", "j\xc3\xa9r\xc3\xb4me"}, "user"); S.pass = oneof<std::string>({"s3cret pa.ss", "pa\"ss\\w0rd!", "=*)(%$ s3cret", "gehe\xc3\xafmnis s\xc3\xa4tze", std::string(300, 'p') + "-long", "trailing s3cret", "+OK s3cret"}, "pass"); S.token = oneof<std::string>({"ya29.token-abcdef", std::string(1500, 't') + "x"}, "token");
	if (d.proto == "imap") { auto asc = [](std::string x) { for (char& c : x) if (c & 0x80) c = 'x'; return x; }; S.user = asc(S.user); S.pass = asc(S.pass); }   // 8-bit characters in quoted strings: see DESIGN.md
	std::vector<std::string> all = {"PLAIN", "LOGIN", "CRAM-MD5", "DIGEST-MD5", "SCRAM-SHA-1", "SCRAM-SHA-256", "XOAUTH2", "X-FOO", "EXTERNAL", "ANONYMOUS", "NTLM", "SECURID", "plain", "GSSAPI"}; std::vector<std::string> mechs; u32 nm = d.proto == "smtp" ? range(1, 4, "nmech") : choose(5, "nmech");
	for (u32 i = 0; i < nm; ++i) { std::string m = all[chance(750, "usual") ? choose(7, "mech") : choose(u32(all.size()), "mech")]; if (d.proto != "smtp" || true) { bool dup = false; for (auto& x : mechs) dup |= upper(x) == upper(m); if (!dup && m != "plain") mechs.push_back(m); } }
	d.srv.mechs = mechs; for (auto& m : mechs) if (chance(350, "refuse")) S.refuse.insert(m);
	if (chance(120, "badch")) { S.bad_challenge = int(choose(3, "badch.n")); S.bad_raw = chance(400, "badch.raw"); S.bad_text = oneof<std::string>({"", "xyzzy", std::string(3, '\0'), "=", "!!!!", std::string(5000, 'A'), "r=abc,s=,i=0", "realm=\"x\",nonce=\"y\",qop=\"auth-conf\",algorithm=md5-sess", "v=AAAA"}, "badch.text"); }
	bool right = chance(750, "right"); d.cli.auth = true; d.cli.user = S.user; d.cli.pass = S.pass; d.cli.token = chance(600, "token?") ? S.token : ""; if (!right) { if (chance(500, "wrong.pass")) { d.cli.pass = "wrong one s3cret"; if (!d.cli.token.empty()) d.cli.token = "ya29.other-token"; } else d.cli.user = "joe"; }
	if (chance(250, "cred.url")) d.cli.inurl = 1 + int(choose(2, "cred.how")); d.cli.sasl = chance(800, "opt.sasl"); d.cli.fallback = chance(700, "opt.fallback"); d.cli.apop = chance(500, "opt.apop"); d.cli.apop_fallback = chance(500, "opt.apopfb"); d.cli.tracer = true; if (mechs.empty() && d.proto == "smtp") mechs = d.srv.mechs = {"PLAIN"};
	bool netf = chance(150, "netf"); d.serve(netf); if (!netf) g_net.lat = std::min<u32>(g_net.lat, 40000);
	if (netf) { NetCfg::Cut k; k.conn = 0; k.dir = chance(700, "cut.dir") ? 0 : 1; k.kind = 1 + int(choose(3, "cut.kind")); k.at = sized(4000, "cut.at"); g_net.cuts.push_back(k); }
	bool logindis = false, loginok = true, apop = false, dropped = false, lateauth = false; u64 late = 0; u32 nrej = weighted({70, 20, 10}, "nrej");
	auto delay = [&]() -> u64 { if (!chance(150, "rej.late")) return 0; lateauth = true; return late = 30000000; }; auto drop = [&] { bool x = chance(150, "rej.drop"); dropped |= x; return x; };
	if (g_pop) { auto& c = g_pop->cfg; c.user = S.user; c.pass = S.pass; c.greet_ok = true; c.apop = chance(500, "srv.apop"); c.apop_ok = chance(700, "srv.apopok"); c.user_ok = chance(850, "srv.userok"); apop = c.apop; for (u32 i = 0; i < nrej; ++i) { PopRej r; r.cmd = oneof<std::string>({"AUTH", "APOP", "USER", "PASS", "CAPA"}, "rej"); r.nth = int(choose(2, "rej.nth")); r.delay = delay(); r.drop = !r.delay && drop(); c.rej.push_back(r); } loginok = c.user_ok; }
	if (g_imap) { auto& c = g_imap->cfg; c.user = S.user; c.pass = S.pass; c.greeting = "OK"; c.login_ok = loginok = chance(850, "srv.loginok"); logindis = chance(200, "srv.logindis"); auto f = [&](std::set<std::string>& x) { x.erase("LOGINDISABLED"); if (logindis) x.insert("LOGINDISABLED"); if (chance(500, "srv.ir")) x.insert("SASL-IR"); else x.erase("SASL-IR"); }; f(c.caps); f(c.caps_tls); for (u32 i = 0; i < nrej; ++i) { ImapRej r; r.cmd = oneof<std::string>({"AUTHENTICATE", "LOGIN"}, "rej"); r.nth = int(choose(2, "rej.nth")); r.bad = chance(400, "rej.bad"); r.delay = delay(); r.drop = !r.delay && drop(); c.rej.push_back(r); } }
	if (g_smtp) { auto& c = g_smtp->cfg; c.greet_code = 220; c.ehlo_ok = true; c.auth_fail_code = oneof<int>({535, 454, 504, 500, 432, 421}, "failcode"); for (u32 i = 0; i < nrej; ++i) { SmtpRej r; r.cmd = "AUTH"; r.nth = int(choose(2, "rej.nth")); r.code = oneof<int>({535, 500, 454, 503, 421}, "rej.code"); r.delay = delay(); r.drop = !r.delay && drop(); c.rej.push_back(r); } }
	app_init(); if ((g_xo = chance(800, "xo.registered"))) vss::SASLMechanismFactory::getInstance()->registerMechanism<vss::XOAuth2SASLMechanism>("XOAUTH2"); AuthPlan plan; u32 kind = weighted({30, 40, 20, 10}, "authenticator"); plan.order = int(choose(3, "acc.order")); if (chance(150, "acc.only")) plan.only = all[choose(7, "only")]; if (chance(80, "nopass")) plan.nopass = true; if (chance(40, "nouser")) plan.nouser = true;
	if (kind == 1) d.cli.authenticator = make_shared<RecAuth<vss::defaultSASLAuthenticator>>(&plan); else if (kind == 2) d.cli.authenticator = make_shared<RecAuth<vss::XOAuth2SASLAuthenticator>>(&plan, chance(500, "xo.excl") ? vss::XOAuth2SASLAuthenticator::MODE_EXCLUSIVE : vss::XOAuth2SASLAuthenticator::MODE_SUGGEST); else if (kind == 3) { d.cli.authenticator = make_shared<vs::defaultAuthenticator>(); }
	bool noinfo = kind == 1 || kind == 2 ? plan.nopass || plan.nouser : false;
	d.make(); d.svc()->setTimeoutHandlerFactory(to_factory(ToCfg{20000000, 0, false})); nontrivial(); size_t nc = net_conns().size();
	plan.on_pass = [&] { if (net_conns().size() <= nc) return; auto sp = dynamic_cast<ServerPeer*>(net_conns().back()->peer.get()); CHECK(d.svc()->isSecuredConnection() == sp->tls, "auth.secured_lie", "isSecuredConnection() is %d while authenticating %s", int(!sp->tls), sp->tls ? "under TLS" : "in the clear"); };
	u32 rounds = 1 + (chance(250, "again") ? 1 : 0); bool trouble = netf || dropped || lateauth;
	auto garbled = [&](const Out& o) { return S.bad_challenge >= 0 && S.bad_raw && o.type == "invalid_response"; };   // the reply itself was no reply
	for (u32 round = 0; round < rounds; ++round) {
		if (round) { g_net.cuts.clear(); d.heal(); trouble = false; if (chance(500, "fix")) { d.cli.user = S.user; d.cli.pass = S.pass; } advance(60000000); }
		int l0 = d.logins(); size_t a0 = attempts(d).size(); plan.asked = 0; plan.acc.clear(); Out o = d.connect(); int won = d.logins() - l0; auto at_ = attempts(d); std::vector<Attempt> tried(at_.begin() + std::min(a0, at_.size()), at_.end()); std::string ts; for (auto& t : tried) ts += t.what + " "; state(fnvs(d.proto + ts + fmt("%d", int(o.ok))));
		if (o.ok) { CHECK(won == 1, won ? "auth.twice" : "auth.not_accepted", "connect() succeeded but the server accepted %d logins (tried: %s)", won, ts.c_str()); CHECK(d.connected(), "auth.half", "connect() succeeded but the service is not connected"); }
		else {
			CHECK(!d.connected(), "auth.half", "connect() threw but the service is connected"); CHECK(trouble || vfd_open_count() == 0, "auth.open", "connect() threw %s, but the connection is still open:%s", o.type.c_str(), vfd_list().c_str()); if (!trouble) { CHECK(!won, "auth.accepted_but_failed", "the server accepted the login (tried: %s) but connect() threw %s: %s", ts.c_str(), o.type.c_str(), o.what.c_str()); CHECK(o.auth || o.type == "authentication_error" || o.type == "no_auth_information" || garbled(o) || o.type == "command_error", "auth.error_type", "authentication failed with %s: %s", o.type.c_str(), o.what.c_str()); }
		}
		// mechanisms: only offered ones (the server checks that), in the order the application wants, and all of them before giving up
		std::vector<std::string> acc; if (d.cli.sasl && kind != 3) { if (kind == 1 || kind == 2) acc = plan.acc; else for (auto& m : mechs) if (supported(m)) acc.push_back(m); }
		std::vector<std::string> got; for (auto& t : tried) if (t.what[0] != '!') got.push_back(t.what);
		if (!d.cli.sasl || kind == 3) CHECK(got.empty(), "auth.unwanted", "SASL mechanism %s was used although %s", got[0].c_str(), kind == 3 ? "the application's authenticator does not support SASL" : "SASL is switched off");
		if (kind == 1 || kind == 2) { size_t k = 0; for (auto& g : got) { while (k < acc.size() && upper(acc[k]) != upper(g)) ++k; CHECK(k < acc.size(), "auth.order", "the mechanisms tried (%s) do not follow the application's choice", ts.c_str()); ++k; } }
		else for (size_t i = 0; i < got.size(); ++i) for (size_t j = 0; j < i; ++j) CHECK(got[i] != got[j], "auth.repeated", "mechanism %s was tried twice (%s)", got[i].c_str(), ts.c_str());
		bool capfail = false; if (g_pop) for (auto& r : g_pop->cfg.rej) capfail |= r.cmd == "CAPA"; bool sup = false; for (auto& m : mechs) sup |= supported(m); bool expect421 = g_smtp && (g_smtp->cfg.auth_fail_code == 421); if (g_smtp) for (auto& r : g_smtp->cfg.rej) expect421 |= r.code == 421;
		if (d.cli.sasl && kind != 3 && sup && (kind == 1 || kind == 2) && !trouble && !capfail) CHECK(plan.asked, "auth.not_asked", "the application was never asked which mechanisms are acceptable");
		if (!o.ok && !trouble && !garbled(o) && !capfail && !expect421 && !(d.cli.required && !d.srv.starttls && !d.srv.implicit_tls)) {
			for (auto& m : acc) { if (m == "XOAUTH2" && (d.cli.token.empty() || plan.nouser)) continue; bool was = false; for (auto& g : got) was |= upper(g) == upper(m); CHECK(was, "auth.gave_up", "connect() failed (%s: %s) although the acceptable mechanism %s was never tried (tried: %s)", o.type.c_str(), o.what.c_str(), m.c_str(), ts.c_str()); }
			if (d.proto != "smtp" && (!d.cli.sasl || d.cli.fallback) && !noinfo) {
				bool cmd = false, ap = false; for (auto& t : tried) { cmd |= t.what == "!LOGIN" || t.what == "!USER"; ap |= t.what == "!APOP"; }
				if (d.proto == "imap") CHECK(cmd || logindis, "auth.no_fallback", "connect() failed (%s: %s) without trying LOGIN", o.type.c_str(), o.what.c_str());
				else { if (d.cli.apop && apop) CHECK(ap, "auth.no_fallback", "connect() failed (%s: %s) without trying APOP", o.type.c_str(), o.what.c_str()); if (!d.cli.apop || d.cli.apop_fallback) CHECK(cmd, "auth.no_fallback", "connect() failed (%s: %s) without trying USER", o.type.c_str(), o.what.c_str()); }
			}
		}
		// the right credentials are good enough for every mechanism that the server is ready to accept
		if (!o.ok && !trouble && right && !noinfo && S.bad_challenge < 0 && !nrej) for (auto& t : tried) {
			std::string m = upper(t.what); bool std_ = m == "PLAIN" || m == "LOGIN" || m == "CRAM-MD5" || (m == "DIGEST-MD5" && S.user.find_first_of("\"\\\xc3") == std::string::npos && S.pass.find_first_of("\"\\\xc3") == std::string::npos) /* GNU SASL does not quote them */ || m == "SCRAM-SHA-1" || m == "SCRAM-SHA-256" || (m == "XOAUTH2" && d.cli.token == S.token);
			bool fine = m == "!LOGIN" ? loginok : m == "!USER" ? loginok : m == "!APOP" ? g_pop->cfg.apop_ok : std_ && !S.refuse.count(t.what);
			CHECK(!fine, "auth.valid_rejected", "connect() failed (%s: %s) although %s was tried with the right credentials, which the server accepts (tried: %s)", o.type.c_str(), o.what.c_str(), t.what.c_str(), ts.c_str());
		}
		for (auto& t : tried) { if (t.what == "!APOP") CHECK(d.cli.apop, "auth.unwanted", "APOP was used although it is switched off"); if (t.what == "!LOGIN" || t.what == "!USER") { CHECK(!d.cli.sasl || d.cli.fallback, "auth.unwanted", "%s was used although falling back is switched off", t.what.c_str()); if (t.what == "!USER") CHECK(!d.cli.apop || d.cli.apop_fallback, "auth.unwanted", "USER was used although APOP may not be replaced"); } }
		if (g_imap) { CHECK(!g_imap->passages.count("login.disabled"), "auth.login_disabled", "LOGIN (with the password) was sent although the server announced LOGINDISABLED"); CHECK(!g_imap->passages.count("sasl.ir"), "auth.initial_response", "an initial response was sent although the server did not announce SASL-IR"); }
		if (o.ok) { d.heal(); d.exact = !trouble; for (u32 i = 0, n = choose(3, "ops"); i < n && d.connected(); ++i) d.op(trouble); d.release(); if (d.connected()) d.disconnect(); }
		if (trouble) break;
	}
	// secrets stay out of the trace
	std::vector<std::string> secrets = {d.cli.pass, b64(d.cli.pass), b64(std::string(1, 0) + d.cli.user + std::string(1, 0) + d.cli.pass), b64("user=" + d.cli.user + "\x01" "auth=Bearer " + d.cli.token).substr(0, 40)}; if (!d.cli.token.empty()) secrets.push_back(d.cli.token); { std::string q; for (char ch : d.cli.pass) { if (ch == '"' || ch == '\\') q += '\\'; q += ch; } secrets.push_back(q); }
	for (auto& l : g_tlog.lines) for (auto& x : secrets) CHECK(l.find(x) == std::string::npos, "auth.trace", "the trace shows a secret: %s", esc(l).c_str());
	d.release(); d.destroy(); finish_checks();
}
