// One interface over the three protocols, for the properties that hold for all of them.
#pragma once
#include "app.hpp"
#include "sasl_srv.hpp"
namespace sim {
struct DrvSrv { bool implicit_tls = false, starttls = false, starttls_ok = true; TlsCfg tls; std::string inject; std::vector<std::string> mechs, mechs_clear; SaslCfg sasl; bool quiet = false; u32 maxmsgs = 4; size_t maxlen = 0; };
struct DrvCli { bool tls = false, required = false, auth = false; std::vector<std::string> roots = {"ca"}, trusted; std::string user, pass; shared_ptr<vmime::security::authenticator> authenticator; int sasl = -1; bool tracer = false; std::string host = "mail.example.com"; shared_ptr<vmime::security::cert::certificateVerifier> ver; bool nover = false; int fallback = -1, apop = -1, apop_fallback = -1; std::string token; int inurl = 0; };   // inurl: the credentials are part of the URL (1: its text, 2: the object)
vmime::utility::url drv_url(const std::string& scheme, const std::string& prefix, vmime::propertySet& props, const DrvCli& cli);
struct WireCmd { bool tls; std::string line; };
struct Drv {
	std::string proto; DrvSrv srv; DrvCli cli; bool exact = false, hostile = false;   // exact: nothing may fail; hostile: results mean nothing
	virtual ~Drv() {}
	virtual void serve(bool netfaults) = 0;          // the world, and a listener at 192.0.2.1
	virtual void listen(const std::string& ip) = 0;
	virtual std::function<std::shared_ptr<Peer>()> peer_factory() = 0;
	int port() const { return proto == "smtp" ? srv.implicit_tls ? 465 : 25 : proto == "pop3" ? srv.implicit_tls ? 995 : 110 : srv.implicit_tls ? 993 : 143; }
	virtual void make() = 0;
	virtual shared_ptr<vn::service> svc() = 0;
	Out connect() { return call("connect", [&] { svc()->connect(); }); }
	bool connected() { return svc()->isConnected(); }
	virtual void op(bool faults) = 0;                // one operation with its own oracle
	virtual void wild() = 0;                         // any operation, no oracle
	virtual void release() = 0;                      // folders and messages
	virtual void destroy() = 0;                      // everything
	Out disconnect() { return call("disconnect", [&] { svc()->disconnect(); }); }
	virtual void heal() = 0;                         // no further refusals
	virtual void reject(u32 n) = 0;                  // n random refusals
	virtual void final_check() = 0;
	virtual int logins() = 0;                        // accepted by the server
	virtual std::vector<WireCmd> wire() = 0;         // commands as the server processed them
	virtual int quits() = 0;
	virtual bool in_step() { return true; }
};
std::unique_ptr<Drv> drv_smtp(); std::unique_ptr<Drv> drv_pop(); std::unique_ptr<Drv> drv_imap();
std::unique_ptr<Drv> draw_drv();
extern std::function<void(const std::string&, const Out&)> g_call_hook;
}
