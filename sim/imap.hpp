// Simulated IMAP4rev1 server: mailboxes shared by sessions, per-session message numbering, other clients.
#pragma once
#include "app.hpp"
#include "sasl_srv.hpp"
namespace sim {
struct ImapAddr { std::string raw, name, local, domain; };           // raw: display name as it stands in the header, name: decoded
struct ImapEnv { std::string date, subject_raw, subject; std::vector<ImapAddr> from, sender, reply_to, to, cc, bcc; std::string msgid, inreplyto; };
struct Mime {
	std::string type, sub, cte, id, desc, disp, fname, name; std::vector<std::pair<std::string, std::string>> params;
	std::vector<std::shared_ptr<Mime>> kids; std::shared_ptr<Mime> inner; ImapEnv env;   // env: when the root of a (sub)message
	std::string hdr, body;
	std::string all() const { return hdr + body; }
	bool multi() const { return type == "multipart"; }
};
struct ImapMsg { u64 uid = 0; std::string data, idate; std::set<std::string> flags; u64 modseq = 1; bool gone = false; size_t claim = 0; std::shared_ptr<Mime> root; std::string token; };
typedef std::shared_ptr<ImapMsg> ImapMsgP;
struct ImapBox { std::string name; u64 uidvalidity = 1, uidnext = 1, modseq = 1; std::vector<ImapMsgP> msgs; bool noselect = false, noinferiors = false, readonly = false; std::string use; int marked = 0; };
typedef std::shared_ptr<ImapBox> ImapBoxP;
struct ImapRej { std::string cmd; int nth = 0; u64 delay = 0; bool drop = false, sticky = false, bad = false, late_data = false; };
struct ImapCfg {
	std::set<std::string> caps = {"IMAP4REV1"}, caps_tls, caps_flip; bool caps_in_greeting = false, caps_in_login = false; std::string greeting = "OK"; // OK PREAUTH BYE
	std::string user = "jane", pass = "s3cret pa.ss"; std::vector<std::string> mechs, mechs_clear; SaslCfg sasl; bool login_ok = true;
	bool implicit_tls = false, starttls_ok = true; TlsCfg tls; std::string inject_after_starttls; bool plain_auth_ok = true;
	char delim = '/'; bool sep_always = true;
	u32 literals = 200, noise = 200, eager = 700, shuffle = 500, crowd = 0;    // per mille: literal strings, unsolicited data, immediate updates, item order, acts of other clients per command
	bool retain = true, uid_expunge_mid = true, text_codes = true, lower = false, ext_struct = true, flag_uid = false, partial_list = false;
	u64 proc = 10, proc_jit = 0; std::vector<ImapRej> rej;
};
struct ImapWorld {
	ImapCfg cfg; std::vector<ImapBoxP> boxes; std::map<std::string, int> seen; int rejections = 0, logins = 0, sessions = 0; bool greeted = false; std::vector<std::string> cmds, log;
	std::vector<std::pair<bool, std::string>> wire; u64 next_validity = 1000; u64 changes = 0; std::vector<ImapMsgP> stored, removed; std::function<void(const std::string&)> on_cmd; bool any_late = false; u64 cond_fetch = 0;
	std::function<ImapMsgP()> new_message;                          // what other clients deliver
	std::map<std::string, std::string> passages;                    // scenario notes
	ImapBoxP box(const std::string& name);
	ImapBoxP add_box(const std::string& name);
	void deliver(ImapBoxP b, ImapMsgP m);
	void expunge(ImapBoxP b, ImapMsgP m);
	void set_flags(ImapBoxP b, ImapMsgP m, const std::set<std::string>& f);
	void crowd_act();
};
extern ImapWorld* g_imap;
struct ImapTold { std::set<std::string> flags; u64 modseq = 0; };
struct ImapSess : LineServer {
	enum { NONAUTH, AUTH, SELECTED, SASL, OUT } st = NONAUTH; ImapBoxP sel; bool ro = false, condstore = false, greeted = false; std::vector<ImapMsgP> view; std::map<ImapMsg*, ImapTold> told; std::set<ImapMsg*> told_gone;
	std::string buf; bool lit = false; size_t litn = 0; std::vector<std::string> lits; std::string sasl_tag; shared_ptr<SaslSrv> sasl; u64 updates = 0, commands = 0; std::string cur_cmd; struct Ev { char k; ImapMsgP m; size_t n; }; std::vector<Ev> evlog;   // A announced, X expunged, F flags changed, f any FETCH
	bool exp_ok = false, append_late = false;
	void onConnect() override; void onTls() override; void onFin() override { closing = true; } void onReset() override { closing = true; }
	bool consume() override; bool exec(const std::string& l); void greet();
	const ImapRej* rejection(const std::string& cmd);
	std::string str(const std::string& s, bool nil_if_empty = false); std::string mbox(const std::string& name);
	std::string updates_now(bool expunge_ok, bool force = false); std::string fetch_flags(size_t i, bool solicited);
	std::string addrs(const std::vector<ImapAddr>& v); std::string envelope(const ImapEnv& e); std::string structure(const Mime& m, bool ext);
	void caps_reply(const std::string& tag); std::string caps_line();
	void select_box(ImapBoxP b, bool ro);
	void sasl_step(const std::string& in); void done_login(const std::string& tag);
	bool do_fetch(const std::string& tag, bool uid, const std::vector<std::string>& t, const ImapRej* r);
	std::vector<size_t> seqset(const std::string& s, bool uid);
};
std::string mutf7_enc(const std::string& utf8); std::string mutf7_dec(const std::string& s);
bool imap_section(const ImapMsg& m, const std::string& sec, std::string& out);
std::shared_ptr<Mime> gen_mime(Rng& r, size_t bodylen, const std::string& token, int depth, bool root, std::vector<std::string> inherited = {});
ImapMsgP imap_msg(size_t maxlen);
ImapCfg draw_imap();
void imap_listen(const std::string& ip, int port);
bool imap_search(const std::vector<std::string>& t, size_t& p, const ImapMsg& m, size_t num, ImapSess& s);
}
