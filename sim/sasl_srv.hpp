// Server side of SASL exchanges (GNU SASL, plus XOAUTH2 and a test mechanism)
#pragma once
#include "app.hpp"
namespace sim {
struct SaslCfg {
	std::string user = "jane", pass = "s3cret pa.ss", token = "ya29.token";
	std::set<std::string> refuse;                    // mechanisms whose exchange always fails
	int bad_challenge = -1;                          // the n-th challenge is replaced
	std::string bad_text;                            // by this (raw, before base64) ...
	bool bad_raw = false;                            // ... or as is
};
struct SaslSrv {
	virtual ~SaslSrv() {}
	int steps = 0; std::string mech;
	// 0: send the challenge out, 1: accepted (out: final server data), -1 refused
	virtual int step(const std::string& in, bool have_in, std::string& out) = 0;
	static shared_ptr<SaslSrv> create(const std::string& mech, const SaslCfg& c, const std::string& service);
};
template <class C> const std::vector<std::string>& mechs_of(const C& c, bool tls) { return tls || c.mechs_clear.empty() ? c.mechs : c.mechs_clear; }
std::string sasl_line(const std::string& line);     // decode a line of an exchange, which must be pure base64
extern int g_sasl_accepted, g_sasl_refused;
}
