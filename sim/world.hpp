// The simulated operating system: descriptors, network, name resolution, file system, processes.
#pragma once
#include "core.hpp"
#include <sys/types.h>

namespace sim {

// ------------------------------------------------------------------ descriptors
struct VFile {
	virtual ~VFile() {}
	virtual const char* kind() const = 0;
	virtual ssize_t read(void*, size_t) { errno = EBADF; return -1; }
	virtual ssize_t write(const void*, size_t) { errno = EBADF; return -1; }
	virtual void last_close() {}
	virtual short poll_events() { return 0; }
	int refs = 0; int flags = 0; bool cloexec = false;
};
bool is_vfd(int fd);
std::shared_ptr<VFile> vfd_get(int fd);
int vfd_new(std::shared_ptr<VFile> f);              // -1 and EMFILE when the simulated limit is reached
int vfd_close(int fd);
size_t vfd_open_count(const char* kind = nullptr);
std::string vfd_list();
void vfd_limit(size_t n);                           // descriptor limit (EMFILE beyond)

// ------------------------------------------------------------------ network
struct Conn;
struct Peer {                                       // the remote program: an event-driven state machine
	virtual ~Peer() {}
	std::weak_ptr<Conn> wconn;
	std::shared_ptr<Conn> conn() const { return wconn.lock(); }
	virtual void onConnect() {}
	virtual void onData(const std::string& s) = 0;
	virtual void onFin() {}
	virtual void onReset() {}
};
struct NetCfg {
	u32 seg = 0;            // 0 whole writes, 1 byte by byte, 2 random pieces, 3 cut between CR and LF
	u32 segmax = 0;
	u32 rxmax = 0;          // most bytes one recv() returns (0: no limit)
	u32 shortrx = 0;        // per mille of recv() that return less than is there
	u32 shorttx = 0;        // per mille of send() that accept less than asked
	u32 sndcap = 65536;     // socket send buffer
	u32 lat = 50, jit = 0;  // microseconds
	u32 eintr = 0;          // per mille
	u64 itimer = 0;         // the application has an interval timer: waits are interrupted at every multiple of this many us
	u64 pace = 0; u32 pace_n = 0; u64 pace_from = 0;   // the next pace_n pieces from the server (past this many bytes) arrive this far apart
	u32 spurious = 0;       // per mille of poll() that claim readiness without data
	// one scheduled accident per connection index
	struct Cut { int conn = -1; int dir = 0; u64 at = 0; int kind = 0; u64 heal = 0; }; // dir 0: server->client; kind 1 FIN 2 RST 3 silence (heal: after us, 0 never)
	std::vector<Cut> cuts;
};
extern NetCfg g_net;
NetCfg draw_net(bool faults);                        // swarm: which of the above are on in this run

struct Conn : std::enable_shared_from_this<Conn> {
	int index = 0; std::string ip; int port = 0;
	std::shared_ptr<Peer> peer;
	// server -> client
	std::string rx;                                  // arrived, not yet read
	bool rxfin = false;                              // server closed
	int err = 0;                                     // pending socket error
	bool dead = false;                               // reset or fully gone: nothing is delivered any more
	u64 s2c_bytes = 0, s2c_next = 0;                 // sent by server; next arrival not before
	bool s2c_stall = false; std::vector<std::string> s2c_held; bool s2c_heldfin = false;
	// client -> server
	u64 c2s_bytes = 0, c2s_next = 0, c2s_deliv = 0; size_t inflight = 0; bool c2s_stall = false; std::string c2s_held; bool c2s_cutdone = false;
	bool s2c_cutdone = false;
	bool cfin = false;                               // client closed or shut down
	bool srv_closed = false;
	bool server_reads = true;                        // false: the server stopped reading (window fills up)
	std::string unread_by_server;
	int frozen_pending = 0;
	u64 last_progress = 0;
	u64 app_read = 0;                                // bytes the client has taken out
	// server side API
	void send(const std::string& d);
	void close();
	void reset();
	void set_reading(bool on);
	bool alive() const { return !dead; }
};
struct Listener {
	enum Kind { ACCEPT, REFUSE, UNREACH, SILENT, ACCEPT_RESET } kind = ACCEPT;
	u64 delay = 200;                                 // microseconds until the connection attempt is decided
	std::function<std::shared_ptr<Peer>()> make;
	u32 attempts = 0;
};
void net_listen(const std::string& ip, int port, Listener l);
Listener* net_listener(const std::string& ip, int port);
struct DnsEntry { std::vector<std::string> ips; u64 delay = 0; int err = 0; bool never = false; };
void dns_add(const std::string& host, DnsEntry e);
size_t dns_pending();                                // asynchronous requests that are neither finished nor cancelled
size_t dns_unfreed();
size_t dns_abandoned();                              // could not be cancelled: the result belongs to nobody
bool dns_pending_on_stack();                         // a request still running lies on the stack
std::vector<std::shared_ptr<Conn>>& net_conns();
u64 net_bytes();                                     // total bytes moved (progress measure)
void set_hostname(const std::string& s);

// ------------------------------------------------------------------ file system
struct Inode {
	u64 ino = 0; bool dir = false; u32 mode = 0; std::string data, durable; u64 mtime = 0; int nlink = 1; bool synced = false; u64 dirty_from = 0;
	std::map<std::string, std::shared_ptr<Inode>> ents;
	std::weak_ptr<Inode> parent;
};
enum { FC_OPEN = 1, FC_READ = 2, FC_WRITE = 4, FC_FSYNC = 8, FC_CLOSE = 16, FC_STAT = 32, FC_OPENDIR = 64, FC_READDIR = 128, FC_RENAME = 256, FC_UNLINK = 512, FC_MKDIR = 1024, FC_SEEK = 2048, FC_ACCESS = 4096, FC_CREAT = 8192, FC_ALL = 0xffff };
struct FsFail { u32 mask = FC_ALL; u32 nth = 0; int err = 5; bool sticky = false; std::string path; u32 seen = 0; bool fired = false; int thread = -1; };
struct FsCfg {
	u32 eintr = 0, shortrd = 0, shortwr = 0, slowrd = 0;   // per mille
	std::vector<FsFail> fails;
	u64 capacity = 0;                                 // total data bytes (0: unlimited); beyond: ENOSPC
	int crash_at = -1;                                // machine crash before the n-th file-system call
	int norename2 = 0;                                // renameat2() with flags is not supported: ENOSYS, EINVAL
	bool shuffle_dirs = false;                        // readdir order is arbitrary
};
extern FsCfg g_fs;
extern u64 g_fs_calls, g_fs_faults;
void fs_reset();
void fs_mkdirs(const std::string& path);
void fs_put(const std::string& path, const std::string& data);
bool fs_exists(const std::string& path);
bool fs_isdir(const std::string& path);
bool fs_get(const std::string& path, std::string& out);
std::vector<std::string> fs_list(const std::string& dir);
std::map<std::string, std::string> fs_tree(const std::string& dir);   // path -> content ("<dir>" for directories)
void fs_remove(const std::string& path);
bool fs_rename(const std::string& a, const std::string& b);
void fs_crash_recover();                              // memory is lost: contents become what was durable (or torn)
void fs_urandom_next(const std::string& bytes);      // what it delivers next
void fs_urandom_reseed(u64 seed);                    // another process reads other numbers
void fs_set_urandom(int mode);                        // 0 normal, 1 short reads, 2 missing, 3 repeats (cloned state)
std::shared_ptr<Inode> fs_lookup(const std::string& path);

// ------------------------------------------------------------------ processes
struct Program {                                      // what runs behind fork+execv
	std::string path; std::vector<std::string> argv;
	std::string in;                                   // bytes read from standard input
	size_t wrote = 0;                                 // bytes written to standard output
	bool eof = false, finished = false; int status = 0;
	size_t fds_inherited = 0; bool reaped = false; bool exec_failed = false;
};
struct ProgCfg { u32 mode = 0; u32 pace = 0; u32 cap = 65536; u64 stop_after = ~0ull; int exit_code = 0; int signal = 0; bool exists = true; int fork_err = 0, pipe_err = 0; u32 wait_eintr = 0; int wait_err = 0; u32 eintr = 0, shortwr = 0; std::string out; };   // out: what it writes to its standard output before it reads
extern ProgCfg g_prog;
extern std::vector<std::shared_ptr<Program>> g_programs;
void os_reset();
} // sim
