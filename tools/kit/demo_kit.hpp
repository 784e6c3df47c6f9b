// In-memory socket with a scripted server, for demonstrations. Nothing here touches the system.
#pragma once
#include "vmime/vmime.hpp"
#include "vmime/platforms/posix/posixHandler.hpp"
#include <deque>
#include <functional>
#include <iostream>
#include <string>
#include <vector>
#include <cstdlib>
namespace kit {
using namespace vmime;
struct Server { virtual ~Server() {} std::deque<std::string> out; bool closed = false; size_t piece = 0;
	void put(const std::string& s) { if (!piece) { out.push_back(s); return; } for (size_t i = 0; i < s.size(); i += piece) out.push_back(s.substr(i, piece)); }
	virtual void onConnect() {} virtual void onData(const std::string& s) = 0; };
struct LineSrv : Server { std::string in; virtual bool raw() { return false; } virtual void line(const std::string& l) = 0;
	void onData(const std::string& s) override { in += s; while (!raw()) { size_t e = in.find("\r\n"); if (e == std::string::npos) break; std::string l = in.substr(0, e); in.erase(0, e + 2); line(l); } } };
struct Sock : net::socket { std::shared_ptr<Server> srv; std::string rx; bool conn = false; shared_ptr<net::tracer> tr; int idle = 0;
	void connect(const string&, const port_t) override { conn = true; srv->onConnect(); }
	void disconnect() override { conn = false; } bool isConnected() const override { return conn; }
	bool waitForRead(const int) override { if (srv->out.empty() && rx.empty() && ++idle > 3) throw exceptions::operation_timed_out(); return true; }
	bool waitForWrite(const int) override { return true; }
	void receive(string& b) override { b.clear(); byte_t t[65536]; size_t n = receiveRaw(t, sizeof t); b.assign(reinterpret_cast<char*>(t), n); }
	size_t receiveRaw(byte_t* b, const size_t n) override { if (rx.empty() && !srv->out.empty()) { rx = srv->out.front(); srv->out.pop_front(); } if (rx.empty()) { if (srv->closed) throw exceptions::socket_exception("connection closed"); return 0; } idle = 0; size_t k = std::min(n, rx.size()); std::copy(rx.begin(), rx.begin() + k, b); rx.erase(0, k); return k; }
	void send(const string& s) override { srv->onData(s); } void send(const char* s) override { srv->onData(s); }
	void sendRaw(const byte_t* b, const size_t n) override { srv->onData(std::string(reinterpret_cast<const char*>(b), n)); }
	size_t sendRawNonBlocking(const byte_t* b, const size_t n) override { sendRaw(b, n); return n; }
	size_t getBlockSize() const override { return 16384; } unsigned int getStatus() const override { return 0; }
	const string getPeerName() const override { return "test"; } const string getPeerAddress() const override { return "test"; }
	shared_ptr<net::timeoutHandler> getTimeoutHandler() override { return null; }
	void setTracer(const shared_ptr<net::tracer>& t) override { tr = t; } shared_ptr<net::tracer> getTracer() override { return tr; } };
struct Fact : net::socketFactory { std::function<std::shared_ptr<Server>()> make; shared_ptr<net::socket> create() override { auto s = make_shared<Sock>(); s->srv = make(); return s; } shared_ptr<net::socket> create(const shared_ptr<net::timeoutHandler>&) override { return create(); } };
inline void init() { platform::setHandler<platforms::posix::posixHandler>(); }
inline int fail(const std::string& m) { std::cerr << "BROKEN: " << m << std::endl; return 1; }
}
