#include "smtp.hpp"
#include "sasl_srv.hpp"
#include <gsasl.h>
namespace sim {
std::string sasl_line(const std::string& l) {
	size_t n = l.find_last_not_of('='); n = n == std::string::npos ? 0 : n + 1; bool ok = l.size() % 4 == 0 && l.size() - n <= 2; for (size_t i = 0; i < n; ++i) ok &= isalnum((unsigned char) l[i]) || l[i] == '+' || l[i] == '/';
	if (!ok && !g_mutate && !(l == "=" )) violate("auth.desync", "in the middle of a SASL exchange the client sent a line that is not base64: \"%s\"", esc(l).c_str());
	return unb64(l);
}
int g_sasl_accepted, g_sasl_refused;
namespace {
Gsasl* srv_ctx() { static Gsasl* c; if (!c && gsasl_init(&c) != GSASL_OK) violate("sim.gsasl", "gsasl_init"); return c; }
struct GS : SaslSrv {
	Gsasl_session* s = nullptr; SaslCfg c; std::string service; bool fin = false;
	static int cb(Gsasl*, Gsasl_session* sx, Gsasl_property p) {
		auto me = static_cast<GS*>(gsasl_session_hook_get(sx));
		switch (p) {
			case GSASL_PASSWORD: { const char* u = gsasl_property_fast(sx, GSASL_AUTHID); if (u && me->c.user != u) return GSASL_NO_PASSWORD; gsasl_property_set(sx, p, me->c.pass.c_str()); return GSASL_OK; }
			case GSASL_VALIDATE_SIMPLE: { const char* u = gsasl_property_fast(sx, GSASL_AUTHID), *w = gsasl_property_fast(sx, GSASL_PASSWORD); return u && w && me->c.user == u && me->c.pass == w ? GSASL_OK : GSASL_AUTHENTICATION_ERROR; }
			case GSASL_SERVICE: gsasl_property_set(sx, p, me->service.c_str()); return GSASL_OK;
			case GSASL_HOSTNAME: gsasl_property_set(sx, p, "mail.example.com"); return GSASL_OK;
			case GSASL_REALM: gsasl_property_set(sx, p, "mail.example.com"); return GSASL_OK;
			case GSASL_VALIDATE_ANONYMOUS: return GSASL_AUTHENTICATION_ERROR;
			case GSASL_VALIDATE_EXTERNAL: return GSASL_AUTHENTICATION_ERROR;
			default: return GSASL_NO_CALLBACK;
		}
	}
	~GS() { if (s) gsasl_finish(s); }
	int step(const std::string& in, bool have_in, std::string& out) override {
		char* o = nullptr; size_t n = 0; ++steps; if (fin) return in.empty() ? 1 : -1;
		if (mech == "DIGEST-MD5" && have_in) { size_t p = in.find("digest-uri=\""); if (p != std::string::npos && in.compare(p + 12, service.size() + 1, service + "/") != 0 && (service != "pop3" || in.compare(p + 12, 4, "pop/") != 0)) return -1; }   // meant for another service
		int r = gsasl_step(s, have_in ? in.data() : nullptr, have_in ? in.size() : 0, &o, &n);
		if (o) { out.assign(o, n); gsasl_free(o); }
		if (r == GSASL_OK && !c.refuse.count(mech) && !out.empty()) { fin = true; return 0; }   // the server's own proof is one more challenge
		if (r == GSASL_OK) return c.refuse.count(mech) ? -1 : 1;
		if (r == GSASL_NEEDS_MORE) return 0;
		return -1;
	}
};
struct XO : SaslSrv {
	SaslCfg c; bool err = false;
	int step(const std::string& in, bool have_in, std::string& out) override {
		++steps; if (err) return -1;
		if (!have_in) { out = ""; return 0; }
		if (in == "user=" + c.user + "\x01" "auth=Bearer " + c.token + "\x01\x01" && !c.refuse.count(mech)) return 1;
		err = true; out = "{\"status\":\"401\"}"; return 0;
	}
};
}
shared_ptr<SaslSrv> SaslSrv::create(const std::string& mech, const SaslCfg& c, const std::string& service) {
	if (mech == "XOAUTH2") { auto x = make_shared<XO>(); x->c = c; x->mech = mech; return x; }
	auto g = make_shared<GS>(); g->c = c; g->mech = mech; g->service = service;
	if (gsasl_server_start(srv_ctx(), mech.c_str(), &g->s) != GSASL_OK) return vmime::null;
	gsasl_callback_set(srv_ctx(), GS::cb); gsasl_session_hook_set(g->s, g.get());
	return g;
}

// ---- SMTP AUTH
static void auth_result(SmtpSess* s, int k, const std::string& o) {
	auto& c = g_smtp->cfg;
	if (k == 1) { ++g_sasl_accepted; ++g_smtp->authed; s->st = SmtpSess::CMD; count("smtp.logins"); s->say(235, "authenticated", [s] { s->authed = true; }); return; }
	if (k < 0) { ++g_sasl_refused; s->st = SmtpSess::CMD; s->say(c.auth_fail_code, "authentication failed"); return; }
	s->st = SmtpSess::AUTH; std::string t = b64(o); if (c.sasl.bad_challenge == s->sasl->steps - 1) { nontrivial(); count("fault.server.bad_challenge"); t = c.sasl.bad_raw ? c.sasl.bad_text : b64(c.sasl.bad_text); }
	s->reply("334 " + t + "\r\n");
}
void auth_begin(SmtpSess* s, const std::string& mech, const std::string& initial, bool hi) {
	s->sasl = SaslSrv::create(mech, g_smtp->cfg.sasl, "smtp"); if (!s->sasl) { s->say(504, "mechanism not available"); return; }
	std::string o; int k = s->sasl->step(hi && initial != "=" ? sasl_line(initial) : "", hi, o); auth_result(s, k, o);
}
void auth_reply(SmtpSess* s, const std::string& l) {
	if (l == "*") { s->st = SmtpSess::CMD; s->say(501, "cancelled"); return; }
	std::string o; int k = s->sasl->step(sasl_line(l), true, o); auth_result(s, k, o);
}
}
