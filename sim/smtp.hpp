// Simulated SMTP server: strict about the protocol, configurable in what it offers and how it fails.
#pragma once
#include "app.hpp"
#include "sasl_srv.hpp"
namespace sim {
struct SmtpRej { std::string cmd; int nth = 0; int code = 550; u64 delay = 0; bool drop = false; bool sticky = false; bool mixed = false; bool forget = false; };  // nth occurrence of cmd on the server; delay: late reply; drop: connection closed instead
struct SmtpCfg {
	std::string greeting = "220 mail.example.com ESMTP ready\r\n";
	int greet_code = 220;
	bool ehlo_ok = true, helo_ok = true;
	std::set<std::string> ext, ext_tls;              // keywords
	std::vector<std::string> mechs = {"PLAIN"}, mechs_clear;      // with AUTH
	bool implicit_tls = false; bool starttls_ok = true; TlsCfg tls;
	std::string inject_after_starttls;               // plaintext sent right behind the 220 reply (man in the middle)
	bool multiline = false, lowercase = false, enhanced = false, bare_lf = false;
	bool partial_354 = true;                         // 354 is given when at least one recipient was accepted
	u64 size_limit = 0; bool size_enforced = false;
	u64 proc = 10, proc_jit = 0;
	std::vector<SmtpRej> rej;
	bool need_auth = false; SaslCfg sasl; int auth_fail_code = 535;
};
struct SmtpTxn { int conn = -1; std::string from; std::vector<std::string> rcpts; std::string mail_dsn; std::vector<std::string> rcpt_dsn; std::string data; bool bdat = false; u64 size_param = 0; bool utf8 = false; bool acked = false; bool forgiven = false; };  // forgiven: a chunk was refused but the message accepted all the same
struct SmtpWorld {
	SmtpCfg cfg; std::vector<SmtpTxn> accepted; std::map<std::string, int> seen; int quits = 0, sessions = 0, helo_sessions = 0, lost_mid_data = 0; bool greeted = false; int rejections = 0; int authed = 0; std::vector<std::string> log;
	std::vector<std::pair<bool, std::string>> wire; std::vector<std::string> cmds;                   // commands in order of processing, all connections
	bool any_late = false;
	std::function<void(const std::string&)> on_cmd;
};
extern SmtpWorld* g_smtp;
struct SmtpSess : LineServer {
	enum { CMD, DATA, BDAT, AUTH } st = CMD;
	std::set<std::string> ext; bool esmtp = false, hello = false, authed = false; bool mail_ok = false, mail_seen = false; SmtpTxn t; u64 bdat_left = 0; bool bdat_last = false, bdat_bad = false, data_bad = false;
	u64 rxtotal = 0, rxcons = 0; std::vector<u64> early; bool busy_sync = false; bool bdat_open = false, mail_utf = false;
	std::string cmdname; shared_ptr<SaslSrv> sasl;
	void onConnect() override;
	void onTls() override;
	void onFin() override;
	void got(const std::string& s) override;
	bool consume() override;
	bool line(const std::string& l, u64 start);
	void say(int code, const std::string& text, std::function<void()> then = nullptr);
	const SmtpRej* rejection(const std::string& cmd);
	void finish_data();
	void greet();
	std::string reply_text(int code, const std::string& text), refusal(const SmtpRej& r, const std::string& text);
};
SmtpCfg draw_smtp();
std::string smtp_canon(std::string local, std::string domain);   // comparable form of an address: ASCII domain, RFC 2047 words decoded
void smtp_listen(const std::string& ip, int port);
void auth_begin(SmtpSess* s, const std::string& mech, const std::string& initial, bool has_initial);
void auth_reply(SmtpSess* s, const std::string& l);
}
