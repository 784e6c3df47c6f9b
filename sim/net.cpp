#include "world.hpp"
#include "os.hpp"
#include <arpa/inet.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/uio.h>

namespace sim {

NetCfg g_net;
static std::map<std::pair<std::string, int>, Listener>* g_listen;
static std::map<std::string, DnsEntry>* g_dns;
static std::vector<std::shared_ptr<Conn>>* g_conns;
static u64 g_bytes = 0;
std::vector<std::shared_ptr<Conn>>& net_conns() { if (!g_conns) g_conns = new std::vector<std::shared_ptr<Conn>>; return *g_conns; }
u64 net_bytes() { return g_bytes; }
void net_listen(const std::string& ip, int port, Listener l) { if (!g_listen) g_listen = new std::map<std::pair<std::string, int>, Listener>; (*g_listen)[{ip, port}] = l; }
Listener* net_listener(const std::string& ip, int port) { if (!g_listen) return nullptr; auto i = g_listen->find({ip, port}); return i == g_listen->end() ? nullptr : &i->second; }
void dns_add(const std::string& h, DnsEntry e) { if (!g_dns) g_dns = new std::map<std::string, DnsEntry>; (*g_dns)[h] = e; }

NetCfg draw_net(bool faults) {
	NetCfg n;
	u32 mode = weighted({30, 12, 30, 28}, "net.seg");
	n.seg = mode; n.segmax = mode == 2 ? 1 + sized(3000, "net.segmax") : 0;
	if (chance(350, "net.rxmax?")) n.rxmax = 1 + sized(40, "net.rxmax");
	if (chance(300, "net.shortrx?")) n.shortrx = 300;
	if (chance(400, "net.shorttx?")) n.shorttx = 400;
	if (chance(400, "net.sndcap?")) n.sndcap = 1 + sized(5000, "net.sndcap");
	n.lat = oneof<u32>({50, 1, 2000, 40000, 300000}, "net.lat");
	if (chance(400, "net.jit?")) n.jit = oneof<u32>({10, 1000, 100000}, "net.jit");
	if (chance(350, "net.eintr?")) n.eintr = 60;
	if (chance(300, "net.spurious?")) n.spurious = 60;
	(void) faults;
	if (n.sndcap < 60) { n.lat = std::min<u32>(n.lat, 2000); n.jit = std::min<u32>(n.jit, 1000); }   // one small piece per round trip: keep runs finite
	return n;
}

// ------------------------------------------------------------------ pipes
static u64 hop() { return g_net.lat + (g_net.jit ? choose(g_net.jit + 1, "net.jitter") : 0); }

static void s2c_deliver(std::shared_ptr<Conn> c, const std::string& d) {
	if (c->dead || c->cfin) return;
	c->rx += d; g_bytes += d.size(); c->last_progress = now();
}
static void arrive(std::shared_ptr<Conn> c, const std::string& d, u64 t) {
	at(t, [c, d] { if (c->s2c_stall) c->s2c_held.push_back(d); else s2c_deliver(c, d); });
}
static void do_reset(std::shared_ptr<Conn> c, bool tell_server) {
	if (c->dead) return;
	c->dead = true;
	if (!c->cfin && !c->err) c->err = c->rxfin ? EPIPE : ECONNRESET;   // a reset of a half-closed connection reads as the end of the stream and breaks the pipe
	if (tell_server && c->peer) c->peer->onReset();
}
static void apply_cut(std::shared_ptr<Conn> c, const NetCfg::Cut& cut) {
	const char* kn = cut.kind == 1 ? "fault.net.fin" : cut.kind == 2 ? "fault.net.rst" : "fault.net.silence";
	count(kn); nontrivial();
	tr("net: accident on connection %d: %s (%s at byte %llu)", c->index, kn + 10, cut.dir ? "client->server" : "server->client", (unsigned long long) cut.at);
	if (cut.kind == 1) { u64 t = std::max(now() + 1, c->s2c_next + 1); c->s2c_next = t; c->srv_closed = true; at(t, [c] { c->rxfin = true; if (c->peer) c->peer->onFin(); }); c->c2s_cutdone = true; }
	else if (cut.kind == 2) { u64 t = std::max(now() + 1, c->s2c_next + 1); c->srv_closed = true; at(t, [c] { do_reset(c, true); }); }
	else {
		c->s2c_stall = c->c2s_stall = true;
		u64 heal = cut.heal;
		if (heal) after(heal, [c] {
			count("fault.net.heal"); tr("net: connection %d recovers", c->index);
			c->s2c_stall = c->c2s_stall = false;
			for (auto& d : c->s2c_held) s2c_deliver(c, d);
			c->s2c_held.clear();
			if (c->s2c_heldfin) { c->rxfin = true; }
			std::string h; h.swap(c->c2s_held);
			if (!h.empty()) { if (!c->server_reads) c->unread_by_server += h; else { c->inflight -= h.size(); if (!c->dead && c->peer) c->peer->onData(h); } }
		});
	}
}
static const NetCfg::Cut* find_cut(Conn* c, int dir) { for (auto& k : g_net.cuts) if (k.conn == c->index && k.dir == dir) return &k; return nullptr; }

void Conn::send(const std::string& d0) {
	if (dead || srv_closed || d0.empty()) return;
	auto self = shared_from_this();
	std::string d = d0; bool cutnow = false; const NetCfg::Cut* cut = s2c_cutdone ? nullptr : find_cut(this, 0);
	if (cut && s2c_bytes + d.size() > cut->at) { d.resize(size_t(cut->at > s2c_bytes ? cut->at - s2c_bytes : 0)); cutnow = true; }
	s2c_bytes += d.size();
	size_t p = 0; u64 t = std::max(now() + hop(), s2c_next); int pieces = 0;
	while (p < d.size()) {
		size_t n = d.size() - p;
		if (pieces < 600) switch (g_net.seg) {
			case 1: n = 1; break;
			case 2: n = std::min<size_t>(n, 1 + choose(g_net.segmax, "net.piece")); break;
			case 3: { size_t e = d.find('\r', p); if (e != std::string::npos) n = std::min(n, e + 1 - p); break; }
		}
		if (n < d.size() - p) count("fault.net.segment");
		if (g_net.pace && g_net.pace_n && s2c_bytes - d.size() + p >= g_net.pace_from) { --g_net.pace_n; t = std::max(now(), t) + g_net.pace; count("fault.net.slow_piece"); nontrivial(); }
		arrive(self, d.substr(p, n), t);
		p += n; ++pieces;
		if (p < d.size()) t += 1 + (g_net.jit ? choose(g_net.jit + 1, "net.gap") : 0);
	}
	if (!d.empty()) s2c_next = t + 1;
	if (cutnow) {
		s2c_cutdone = true;
		NetCfg::Cut k = *cut;
		if (k.kind == 3) {
			// what was cut off is held back until the line recovers
			std::string rest = d0.substr(d.size());
			u64 tt = std::max(now() + 1, s2c_next);
			at(tt, [self, k, rest] { if (self->dead) return; apply_cut(self, k); if (!rest.empty()) self->s2c_held.push_back(rest); });
			s2c_next = tt + 1;
		} else apply_cut(self, k);
	}
}
void Conn::close() {
	if (dead || srv_closed) return;
	srv_closed = true; auto self = shared_from_this();
	u64 t = std::max(now() + hop(), s2c_next); s2c_next = t + 1;
	at(t, [self] { if (self->s2c_stall) self->s2c_heldfin = true; else { self->rxfin = true; self->last_progress = now(); } });
}
void Conn::reset() { auto self = shared_from_this(); if (srv_closed && rxfin) { } srv_closed = true; u64 t = std::max(now() + hop(), s2c_next); at(t, [self] { do_reset(self, false); }); }
void Conn::set_reading(bool on) {
	server_reads = on;
	if (on && !unread_by_server.empty()) { std::string d; d.swap(unread_by_server); inflight -= d.size(); if (peer && !dead) peer->onData(d); }
}

// ------------------------------------------------------------------ client sockets
struct VSock : VFile {
	enum { NEW, CONNECTING, OK, FAILED } st = NEW;
	std::shared_ptr<Conn> c; int soerr = 0; int family = 0; bool wr_shut = false, rd_shut = false;
	const char* kind() const override { return "socket"; }
	short poll_events() override {
		short e = 0;
		if (st == NEW) return POLLOUT | POLLHUP;
		if (st == CONNECTING) return 0;
		if (st == FAILED) return soerr ? (POLLERR | POLLHUP | POLLIN | POLLOUT) : (POLLHUP | POLLIN | POLLOUT);
		if (!c->rx.empty() || c->rxfin || c->err || c->dead || rd_shut) e |= POLLIN;
		if (c->err) e |= POLLERR;
		if (c->dead || (c->rxfin && wr_shut) || (wr_shut && rd_shut)) e |= POLLHUP | POLLOUT;
		if (c->rxfin) e |= POLLRDHUP;
		if (!c->dead && !wr_shut && c->inflight < g_net.sndcap) e |= POLLOUT;
		return e;
	}
	ssize_t do_recv(void* b, size_t n, int fl) {
		if (st != OK) { if (st == FAILED && soerr) { errno = soerr; soerr = 0; } else errno = ENOTCONN; return -1; }
		while (true) {
			if (!c->rx.empty()) {
				size_t k = std::min(n, c->rx.size());
				if (g_net.rxmax && k > g_net.rxmax) { k = g_net.rxmax; count("fault.net.short_recv"); }
				else if (g_net.shortrx && k > 1 && chance(g_net.shortrx, "net.shortrx")) { k = 1 + choose(u32(std::min<size_t>(k - 1, 1000)), "net.shortrx.n"); count("fault.net.short_recv"); }
				memcpy(b, c->rx.data(), k);
				if (!(fl & MSG_PEEK)) { c->rx.erase(0, k); c->app_read += k; tr("recv %zu", k); }
				return k;
			}
			if (c->err && !c->rxfin) { errno = c->err; c->err = 0; return -1; }
			if (c->rxfin || c->dead || rd_shut) return 0;
			if ((flags & O_NONBLOCK) || (fl & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
			auto cc = c; block([cc] { return !cc->rx.empty() || cc->err || cc->rxfin || cc->dead; }, 0, "recv");
		}
	}
	ssize_t do_send(const void* b, size_t n, int fl) {
		if (st != OK) { if (st == FAILED && soerr) { errno = soerr; soerr = 0; } else errno = st == NEW ? EPIPE : ENOTCONN; return -1; }
		while (true) {
			if (c->err && c->err != EPIPE) { errno = c->err; c->err = 0; return -1; }
			if (c->err || c->dead || wr_shut) {
				c->err = 0;
				if (!(fl & MSG_NOSIGNAL)) { violate("signal.sigpipe", "send() without MSG_NOSIGNAL on a broken connection: SIGPIPE would kill the application"); }
				errno = EPIPE; return -1;
			}
			if (n == 0) return 0;
			size_t room = g_net.sndcap > c->inflight ? g_net.sndcap - c->inflight : 0;
			if (room == 0) {
				if ((flags & O_NONBLOCK) || (fl & MSG_DONTWAIT)) { errno = EAGAIN; count("fault.net.window_full"); return -1; }
				auto cc = c; block([cc] { return cc->err || cc->dead || cc->inflight < g_net.sndcap; }, 0, "send"); continue;
			}
			size_t k = std::min(n, room);
			if (g_net.shorttx && k > 1 && chance(g_net.shorttx, "net.shorttx")) k = 1 + choose(u32(std::min<size_t>(k - 1, 1000)), "net.shorttx.n");
			if (k < n) count("fault.net.short_send");
			push(std::string(static_cast<const char*>(b), k));
			tr("send %zu", k);
			return k;
		}
	}
	void push(std::string d) {
		auto cc = c; u64 t = std::max(now() + hop(), cc->c2s_next); cc->c2s_next = t + 1; cc->inflight += d.size();
		cc->c2s_bytes += d.size();
		at(t, [cc, d] {
			if (cc->dead) return;
			std::string x = d;
			const NetCfg::Cut* cut = cc->c2s_cutdone ? nullptr : find_cut(cc.get(), 1);
			if (cut && cc->c2s_deliv + x.size() > cut->at) {
				cc->c2s_cutdone = true;
				NetCfg::Cut k = *cut; size_t keep = size_t(k.at > cc->c2s_deliv ? k.at - cc->c2s_deliv : 0);
				std::string a = x.substr(0, keep), rest = x.substr(keep);
				cc->c2s_deliv += x.size();
				if (!a.empty()) { if (!cc->server_reads) cc->unread_by_server += a; else { cc->inflight -= a.size(); cc->peer->onData(a); } }
				if (cc->dead) return;
				apply_cut(cc, k);
				if (k.kind == 3) cc->c2s_held += rest; else cc->inflight -= rest.size();
				return;
			}
			cc->c2s_deliv += x.size(); g_bytes += x.size(); cc->last_progress = now();
			if (cc->c2s_stall) { cc->c2s_held += x; return; }
			if (cc->srv_closed) {   // the server is gone: it answers with a reset
				cc->inflight -= x.size();
				if (!cc->dead) { auto c2 = cc; after(hop(), [c2] { if (!c2->dead) do_reset(c2, false); }); }
				return;
			}
			if (!cc->server_reads) { cc->unread_by_server += x; return; }
			cc->inflight -= x.size();
			cc->peer->onData(x);
		});
	}
	void close_conn() {
		if (c && !c->cfin) {
			c->cfin = true; auto cc = c;
			tr("client closes connection %d", c->index);
			u64 t = std::max(now() + hop(), cc->c2s_next); cc->c2s_next = t + 1;
			at(t, [cc] { if (!cc->dead && cc->peer && !cc->c2s_stall) cc->peer->onFin(); });
		}
	}
	ssize_t read(void* b, size_t n) override { return do_recv(b, n, 0); }
	ssize_t write(const void* b, size_t n) override { return do_send(b, n, 0); }
	void last_close() override { if (c) close_conn(); if (st == CONNECTING) st = FAILED; }
};

static std::string sa_ip(const sockaddr* a, int& port) {
	char b[64] = "";
	if (a->sa_family == AF_INET) { auto s = reinterpret_cast<const sockaddr_in*>(a); inet_ntop(AF_INET, &s->sin_addr, b, sizeof b); port = ntohs(s->sin_port); }
	else if (a->sa_family == AF_INET6) { auto s = reinterpret_cast<const sockaddr_in6*>(a); inet_ntop(AF_INET6, &s->sin6_addr, b, sizeof b); port = ntohs(s->sin6_port); }
	return b;
}

// ------------------------------------------------------------------ name resolution
struct GaiReq { struct gaicb* cb; bool done = false, cancelled = false; int err = 0; std::string host, serv; struct addrinfo* res = nullptr; };
static std::map<struct gaicb*, std::shared_ptr<GaiReq>>* g_gai;
static std::set<struct addrinfo*>* g_ai; static size_t g_pending = 0;
size_t dns_pending() { return g_pending; }
static size_t g_abandoned = 0;
size_t dns_abandoned() { return g_abandoned; }
bool dns_pending_on_stack() { char here; if (g_gai) for (auto& x : *g_gai) if (!x.second->done && !x.second->cancelled) { auto d = reinterpret_cast<const char*>(x.first) - &here; if (d > -(8 << 20) && d < (8 << 20)) return true; } return false; }
size_t dns_unfreed() { return g_ai ? g_ai->size() : 0; }
static std::string g_hostname = "client.example.org";
void set_hostname(const std::string& s) { g_hostname = s; }

static int resolve_now(const std::string& host, const std::string& serv, const struct addrinfo* hints, struct addrinfo** out, DnsEntry* ent) {
	DnsEntry e;
	unsigned char buf[16];
	if (inet_pton(AF_INET, host.c_str(), buf) == 1 || inet_pton(AF_INET6, host.c_str(), buf) == 1) e.ips.push_back(host);
	else if (hints && (hints->ai_flags & AI_NUMERICHOST)) return EAI_NONAME;
	else if (g_dns && g_dns->count(host)) e = (*g_dns)[host];
	else if (host == g_hostname) e.ips.push_back("127.0.1.1");
	else e.err = EAI_NONAME;
	if (ent) *ent = e;
	if (e.err) return e.err;
	if (e.ips.empty()) return EAI_NODATA;
	int port = atoi(serv.c_str()); if (serv == "http") port = 80;
	struct addrinfo *first = nullptr, **tail = &first;
	for (auto& ip : e.ips) {
		bool v6 = ip.find(':') != std::string::npos;
		auto ai = static_cast<struct addrinfo*>(calloc(1, sizeof(struct addrinfo)));
		ai->ai_family = v6 ? AF_INET6 : AF_INET; ai->ai_socktype = SOCK_STREAM; ai->ai_protocol = IPPROTO_TCP;
		if (v6) { auto s = static_cast<sockaddr_in6*>(calloc(1, sizeof(sockaddr_in6))); s->sin6_family = AF_INET6; s->sin6_port = htons(port); inet_pton(AF_INET6, ip.c_str(), &s->sin6_addr); ai->ai_addr = reinterpret_cast<sockaddr*>(s); ai->ai_addrlen = sizeof *s; }
		else { auto s = static_cast<sockaddr_in*>(calloc(1, sizeof(sockaddr_in))); s->sin_family = AF_INET; s->sin_port = htons(port); inet_pton(AF_INET, ip.c_str(), &s->sin_addr); ai->ai_addr = reinterpret_cast<sockaddr*>(s); ai->ai_addrlen = sizeof *s; }
		if (!first && hints && (hints->ai_flags & AI_CANONNAME)) ai->ai_canonname = strdup(host.c_str());
		*tail = ai; tail = &ai->ai_next;
	}
	if (!g_ai) g_ai = new std::set<struct addrinfo*>;
	g_ai->insert(first); *out = first;
	return 0;
}
static void free_ai(struct addrinfo* a) { while (a) { auto n = a->ai_next; free(a->ai_addr); free(a->ai_canonname); free(a); a = n; } }

} // sim
using namespace sim;

extern "C" {
#define REAL(ret, name, args) ret __real_##name args
REAL(int, socket, (int, int, int)); REAL(int, connect, (int, const sockaddr*, socklen_t)); REAL(ssize_t, send, (int, const void*, size_t, int));
REAL(ssize_t, recv, (int, void*, size_t, int)); REAL(int, shutdown, (int, int)); REAL(int, setsockopt, (int, int, int, const void*, socklen_t));
REAL(int, getsockopt, (int, int, int, void*, socklen_t*)); REAL(int, getpeername, (int, sockaddr*, socklen_t*)); REAL(int, getsockname, (int, sockaddr*, socklen_t*));
REAL(int, poll, (struct pollfd*, nfds_t, int)); REAL(int, getaddrinfo, (const char*, const char*, const struct addrinfo*, struct addrinfo**)); REAL(void, freeaddrinfo, (struct addrinfo*));
REAL(int, gethostname, (char*, size_t)); REAL(int, select, (int, fd_set*, fd_set*, fd_set*, struct timeval*));
REAL(int, ppoll, (struct pollfd*, nfds_t, const struct timespec*, const sigset_t*));
REAL(int, getnameinfo, (const sockaddr*, socklen_t, char*, socklen_t, char*, socklen_t, int));

static VSock* sock_of(int fd) { auto f = vfd_get(fd); if (!f) { errno = EBADF; return nullptr; } auto s = dynamic_cast<VSock*>(f.get()); if (!s) errno = ENOTSOCK; return s; }

int __wrap_socket(int dom, int type, int proto) {
	if (!active()) return __real_socket(dom, type, proto);
	step("socket");
	auto s = std::make_shared<VSock>(); s->family = dom; if (type & SOCK_NONBLOCK) s->flags |= O_NONBLOCK;
	int fd = vfd_new(s);
	tr("socket = %d", fd);
	return fd;
}
int __wrap_connect(int fd, const sockaddr* a, socklen_t l) {
	if (!active() || !is_vfd(fd)) return __real_connect(fd, a, l);
	step("connect");
	auto f = vfd_get(fd); auto s = std::dynamic_pointer_cast<VSock>(f); if (!s) { errno = EBADF; return -1; }
	if (s->st == VSock::OK) { errno = EISCONN; return -1; }
	if (s->st == VSock::CONNECTING) { errno = EALREADY; return -1; }
	int port = 0; std::string ip = sa_ip(a, port);
	Listener* L = net_listener(ip, port);
	Listener::Kind k = L ? L->kind : Listener::REFUSE; u64 d = L ? L->delay : 100;
	if (L) ++L->attempts;
	tr("connect %s:%d", ip.c_str(), port);
	if (k == Listener::UNREACH && d == 0) { count("fault.connect.unreachable"); errno = ENETUNREACH; return -1; }
	s->st = VSock::CONNECTING;
	std::weak_ptr<VSock> ws = s;
	if (k == Listener::SILENT) count("fault.connect.silent");
	else after(d, [ws, k, ip, port] {
		auto s = ws.lock(); if (!s || s->st != VSock::CONNECTING) return;
		if (k == Listener::REFUSE) { count("fault.connect.refused"); s->st = VSock::FAILED; s->soerr = ECONNREFUSED; return; }
		if (k == Listener::UNREACH) { count("fault.connect.unreachable"); s->st = VSock::FAILED; s->soerr = EHOSTUNREACH; return; }
		auto c = std::make_shared<Conn>(); c->index = int(net_conns().size()); c->ip = ip; c->port = port; c->last_progress = now();
		net_conns().push_back(c);
		c->peer = net_listener(ip, port)->make(); c->peer->wconn = c; s->c = c; s->st = VSock::OK;
		tr("connection %d to %s:%d established", c->index, ip.c_str(), port);
		if (k == Listener::ACCEPT_RESET) { count("fault.connect.reset"); do_reset(c, false); return; }
		c->peer->onConnect();
	});
	if (s->flags & O_NONBLOCK) { errno = EINPROGRESS; return -1; }
	block([s] { return s->st != VSock::CONNECTING; }, now() + 130000000ull, "connect");
	if (s->st == VSock::OK) return 0;
	if (s->st == VSock::CONNECTING) { s->st = VSock::FAILED; errno = ETIMEDOUT; return -1; }
	errno = s->soerr; s->soerr = 0; return -1;
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int fl) {
	if (!active() || !is_vfd(fd)) return __real_send(fd, b, n, fl);
	step("send"); VSock* s = sock_of(fd); if (!s) return -1;
	if (g_net.eintr && chance(g_net.eintr, "net.eintr.send")) { count("fault.eintr"); errno = EINTR; return -1; }
	return s->do_send(b, n, fl);
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int fl) {
	if (!active() || !is_vfd(fd)) return __real_recv(fd, b, n, fl);
	step("recv"); VSock* s = sock_of(fd); if (!s) return -1;
	if (g_net.eintr && chance(g_net.eintr, "net.eintr.recv")) { count("fault.eintr"); errno = EINTR; return -1; }
	return s->do_recv(b, n, fl);
}
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int fl, sockaddr*, socklen_t*) { return __wrap_recv(fd, b, n, fl); }
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int fl, const sockaddr*, socklen_t) { return __wrap_send(fd, b, n, fl); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int fl) { std::string d; for (size_t i = 0; i < m->msg_iovlen; ++i) d.append(static_cast<const char*>(m->msg_iov[i].iov_base), m->msg_iov[i].iov_len); return __wrap_send(fd, d.data(), d.size(), fl); }
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int fl) { if (m->msg_iovlen == 0) return 0; return __wrap_recv(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl); }
int __wrap_shutdown(int fd, int how) {
	if (!active() || !is_vfd(fd)) return __real_shutdown(fd, how);
	step("shutdown"); VSock* s = sock_of(fd); if (!s) return -1;
	if (s->st != VSock::OK || s->c->dead) { errno = ENOTCONN; return -1; }
	if (how != SHUT_WR) s->rd_shut = true;
	if (how != SHUT_RD) { s->wr_shut = true; s->close_conn(); }
	return 0;
}
int __wrap_setsockopt(int fd, int a, int b, const void* c, socklen_t d) { if (!active() || !is_vfd(fd)) return __real_setsockopt(fd, a, b, c, d); return sock_of(fd) ? 0 : -1; }
int __wrap_getsockopt(int fd, int lvl, int opt, void* v, socklen_t* l) {
	if (!active() || !is_vfd(fd)) return __real_getsockopt(fd, lvl, opt, v, l);
	step("getsockopt"); VSock* s = sock_of(fd); if (!s) return -1;
	if (lvl == SOL_SOCKET && opt == SO_ERROR) { int e = 0; if (s->st == VSock::FAILED) { e = s->soerr; s->soerr = 0; } else if (s->c) { e = s->c->err; s->c->err = 0; } if (*l >= sizeof(int)) memcpy(v, &e, sizeof e); return 0; }
	if (*l >= sizeof(int)) { int z = 0; memcpy(v, &z, sizeof z); } return 0;
}
static void fill_sa(const std::string& ip, int port, sockaddr* a, socklen_t* l) {
	sockaddr_in6 s6 = {}; sockaddr_in s4 = {}; const void* p; socklen_t n;
	if (ip.find(':') != std::string::npos) { s6.sin6_family = AF_INET6; s6.sin6_port = htons(port); inet_pton(AF_INET6, ip.c_str(), &s6.sin6_addr); p = &s6; n = sizeof s6; }
	else { s4.sin_family = AF_INET; s4.sin_port = htons(port); inet_pton(AF_INET, ip.c_str(), &s4.sin_addr); p = &s4; n = sizeof s4; }
	memcpy(a, p, std::min(n, *l)); *l = n;
}
int __wrap_getpeername(int fd, sockaddr* a, socklen_t* l) {
	if (!active() || !is_vfd(fd)) return __real_getpeername(fd, a, l);
	VSock* s = sock_of(fd); if (!s) return -1;
	if (s->st != VSock::OK || s->c->dead) { errno = ENOTCONN; return -1; }
	fill_sa(s->c->ip, s->c->port, a, l); return 0;
}
int __wrap_getsockname(int fd, sockaddr* a, socklen_t* l) { if (!active() || !is_vfd(fd)) return __real_getsockname(fd, a, l); fill_sa("10.9.9.9", 40000, a, l); return 0; }

int __wrap_poll(struct pollfd* p, nfds_t n, int ms) {
	if (!active()) return __real_poll(p, n, ms);
	step("poll");
	if (g_net.eintr && chance(g_net.eintr / 3, "net.eintr.poll")) { count("fault.eintr"); errno = EINTR; return -1; }
	if (g_net.spurious && chance(g_net.spurious, "net.spurious")) {
		for (nfds_t i = 0; i < n; ++i) { auto f = vfd_get(p[i].fd); auto s = f ? dynamic_cast<VSock*>(f.get()) : nullptr; if (s && s->st == VSock::OK && (p[i].events & POLLIN)) { count("fault.spurious_wakeup"); p[i].revents = POLLIN; for (nfds_t j = 0; j < n; ++j) if (j != i) p[j].revents = 0; return 1; } }
	}
	auto eval = [&]() { int k = 0; for (nfds_t i = 0; i < n; ++i) { p[i].revents = 0; if (p[i].fd < 0) continue; auto f = vfd_get(p[i].fd); if (!f) { p[i].revents = POLLNVAL; ++k; continue; } short e = f->poll_events(); p[i].revents = e & (p[i].events | POLLERR | POLLHUP | POLLNVAL); if (p[i].revents) ++k; } return k; };
	int k = eval();
	if (k || ms == 0) return k;
	u64 dl = ms < 0 ? 0 : now() + u64(ms) * 1000, sig = g_net.itimer ? (now() / g_net.itimer + 1) * g_net.itimer : 0;
	if (sig && (!dl || sig < dl)) { if (!block([&] { return eval() > 0; }, sig, "poll")) { count("fault.eintr.timer"); errno = EINTR; return -1; } return eval(); }
	block([&] { return eval() > 0; }, dl, "poll");
	return eval();
}
int __wrap_ppoll(struct pollfd* p, nfds_t n, const struct timespec* t, const sigset_t* m) { if (!active()) return __real_ppoll(p, n, t, m); return __wrap_poll(p, n, t ? int(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1); }
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
	if (!active()) return __real_select(n, r, w, e, tv);
	std::vector<struct pollfd> p; for (int i = 0; i < n && i < FD_SETSIZE; ++i) { short ev = 0; if (r && FD_ISSET(i, r)) ev |= POLLIN; if (w && FD_ISSET(i, w)) ev |= POLLOUT; if (ev) p.push_back({i, ev, 0}); }
	int k = __wrap_poll(p.data(), p.size(), tv ? int(tv->tv_sec * 1000 + tv->tv_usec / 1000) : -1); if (k < 0) return k;
	if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e); int c = 0;
	for (auto& x : p) { if (r && (x.events & POLLIN) && (x.revents & (POLLIN | POLLERR | POLLHUP))) { FD_SET(x.fd, r); ++c; } if (w && (x.events & POLLOUT) && (x.revents & (POLLOUT | POLLERR))) { FD_SET(x.fd, w); ++c; } }
	return c;
}

int __wrap_getaddrinfo(const char* h, const char* s, const struct addrinfo* hints, struct addrinfo** res) {
	if (!active()) return __real_getaddrinfo(h, s, hints, res);
	step("getaddrinfo"); DnsEntry e; *res = nullptr;
	struct addrinfo* out = nullptr; int r = resolve_now(h ? h : "", s ? s : "", hints, &out, &e);
	if (e.never) { block([] { return false; }, now() + 30000000ull, "getaddrinfo"); if (out) { g_ai->erase(out); free_ai(out); } return EAI_AGAIN; }
	if (e.delay) advance(e.delay);
	*res = out; return r;
}
void __wrap_freeaddrinfo(struct addrinfo* a) {
	if (!a) return;
	if (g_ai && g_ai->count(a)) { g_ai->erase(a); free_ai(a); return; }
	__real_freeaddrinfo(a);
}
int __wrap_getaddrinfo_a(int mode, struct gaicb* list[], int n, struct sigevent*) {
	step("getaddrinfo_a");
	if (!g_gai) g_gai = new std::map<struct gaicb*, std::shared_ptr<GaiReq>>;
	for (int i = 0; i < n; ++i) {
		auto q = std::make_shared<GaiReq>(); q->cb = list[i]; q->host = list[i]->ar_name ? list[i]->ar_name : ""; q->serv = list[i]->ar_service ? list[i]->ar_service : "";
		(*g_gai)[list[i]] = q; ++g_pending;
		DnsEntry e; unsigned char buf[16];
		if (g_dns && g_dns->count(q->host)) e = (*g_dns)[q->host];
		else if (inet_pton(AF_INET, q->host.c_str(), buf) != 1 && inet_pton(AF_INET6, q->host.c_str(), buf) != 1) e.delay = 300;
		tr("resolve %s", q->host.c_str());
		struct addrinfo h = {}; if (list[i]->ar_request) h = *list[i]->ar_request;
		if (e.never) count("fault.dns.silent"); else {
			if (e.delay > 1000000) count("fault.dns.slow");
			if (e.err) count("fault.dns.error");
			after(1 + e.delay, [q, h] { if (q->cancelled) return; struct addrinfo* o = nullptr; q->err = resolve_now(q->host, q->serv, &h, &o, nullptr); q->res = o; q->done = true; --g_pending; q->cb->ar_result = o; tr("resolved %s: %d", q->host.c_str(), q->err); });
		}
		if (mode == GAI_WAIT) block([q] { return q->done; }, now() + 60000000ull, "getaddrinfo_a");
	}
	return 0;
}
int __wrap_gai_suspend(const struct gaicb* const list[], int n, const struct timespec* t) {
	step("gai_suspend");
	if (g_net.eintr && chance(g_net.eintr, "net.eintr.gai")) { count("fault.eintr"); return EAI_INTR; }
	std::vector<std::shared_ptr<GaiReq>> v; for (int i = 0; i < n; ++i) if (list[i] && g_gai && g_gai->count(const_cast<struct gaicb*>(list[i]))) v.push_back((*g_gai)[const_cast<struct gaicb*>(list[i])]);
	bool any = false; for (auto& q : v) if (!q->done && !q->cancelled) any = true;
	if (!any) return EAI_ALLDONE;
	u64 dl = t ? now() + u64(t->tv_sec) * 1000000 + t->tv_nsec / 1000 : 0;
	auto pr = [&] { for (auto& q : v) if (q->done) return true; return false; };
	u64 sig = g_net.itimer ? (now() / g_net.itimer + 1) * g_net.itimer : 0;
	if (sig && (!dl || sig < dl)) { if (!block(pr, sig, "gai_suspend")) { count("fault.eintr.timer"); return EAI_INTR; } return 0; }
	return block(pr, dl, "gai_suspend") ? 0 : EAI_AGAIN;
}
int __wrap_gai_error(struct gaicb* r) {
	if (!g_gai || !g_gai->count(r)) return EAI_SYSTEM;
	auto q = (*g_gai)[r]; if (q->cancelled) return EAI_CANCELED; if (!q->done) return EAI_INPROGRESS;
	return q->err;
}
int __wrap_gai_cancel(struct gaicb* r) {
	step("gai_cancel");
	if (!r) { if (g_gai) for (auto& x : *g_gai) if (!x.second->done && !x.second->cancelled) { x.second->cancelled = true; --g_pending; } return EAI_CANCELED; }
	if (!g_gai || !g_gai->count(r)) return EAI_ALLDONE;
	auto q = (*g_gai)[r]; if (q->done) return EAI_ALLDONE;
	// glibc cannot cancel a request that a helper thread is already working on
	if (!q->cancelled && chance(300, "dns.notcancelled")) { count("fault.dns.not_cancellable"); ++g_abandoned; return EAI_NOTCANCELED; }
	if (!q->cancelled) { q->cancelled = true; --g_pending; }
	return EAI_CANCELED;
}
int __wrap_gethostname(char* b, size_t n) { if (!active()) return __real_gethostname(b, n); if (n) { strncpy(b, g_hostname.c_str(), n); } return 0; }
struct hostent* __wrap_gethostbyaddr(const void*, socklen_t, int) { return nullptr; }
struct hostent* __wrap_gethostbyname(const char*) { return nullptr; }
int __wrap_getnameinfo(const sockaddr* a, socklen_t l, char* h, socklen_t hl, char* s, socklen_t sl, int f) { if (!active()) return __real_getnameinfo(a, l, h, hl, s, sl, f); return EAI_NONAME; }
}
