// Simulated POP3 server with a persistent maildrop.
#pragma once
#include "app.hpp"
#include "sasl_srv.hpp"
namespace sim {
struct PopRej { std::string cmd; int nth = 0; u64 delay = 0; bool drop = false, sticky = false; std::string text = "-ERR refused"; };
struct PopCfg {
	std::string greeting = "+OK POP3 ready"; bool greet_ok = true;
	std::set<std::string> capa = {"TOP", "UIDL", "USER"}, capa_tls; bool capa_ok = true;
	bool apop = false, apop_ok = true, user_ok = true;
	std::string user = "jane", pass = "s3cret pa.ss";
	std::vector<std::string> mechs, mechs_clear; SaslCfg sasl;
	bool implicit_tls = false, stls_ok = true; TlsCfg tls; std::string inject_after_stls;
	bool chatty = false, blank_ok = false;           // wording of the status lines
	bool plain_auth_ok = true;                       // logins are accepted without TLS
	u64 proc = 10, proc_jit = 0;
	std::vector<PopRej> rej;
	std::string wire_split;                          // unused
};
struct PopMsg { std::string data, uid; };
struct PopSessInfo { int conn = 0; std::set<size_t> deleted, committed; bool quit = false, quit_refused = false; };
struct PopWorld {
	PopCfg cfg; std::vector<PopMsg> drop; std::vector<std::string> removed;   // uids
	std::map<std::string, int> seen; int rejections = 0, quits = 0, sessions = 0, logins = 0; bool greeted = false; std::vector<std::string> cmds, log;
	std::vector<std::pair<bool, std::string>> wire;  // (under TLS, line) as processed
	std::function<void(const std::string&)> on_cmd; std::vector<PopSessInfo> infos; bool any_late = false;
};
extern PopWorld* g_pop;
struct PopSess : LineServer {
	enum { AUTHZ, TRANS, SASL } st = AUTHZ; bool authed = false; std::string name, banner; std::vector<PopMsg> msgs; std::set<size_t> del; size_t info = 0; shared_ptr<SaslSrv> sasl;
	void onConnect() override; void onTls() override; void onFin() override { closing = true; } void onReset() override { closing = true; }
	bool consume() override; bool line(const std::string& l);
	void say(const std::string& s, std::function<void()> then = nullptr) { reply(s + "\r\n", then); }
	void ok(const std::string& text, std::function<void()> then = nullptr);
	const PopRej* rejection(const std::string& cmd);
	void greet(); void login(std::function<void()> then = nullptr); void sasl_step(const std::string& in);
};
PopCfg draw_pop();
void pop_listen(const std::string& ip, int port);
std::string stuff(const std::string& s);             // dot-stuffed, CRLF at the end
}
